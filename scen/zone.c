// cflags: -fsanitize=thread
/* The stream zone module compiled a second time, with every access to shared memory reported (see scen/p11.cc). */
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_http.h>
#include "ngx_stream_zone_module.h"
extern ngx_int_t zt_slot(void); extern void zt_lock(void *), zt_unlock(void *), zt_touch(void *), *zt_cpy(void *, const void *, size_t); extern long zt_trylock(void *); extern int zt_cmp(const void *, const void *, size_t); extern size_t zt_len(const void *); extern void zt_shm(void *, size_t);
static ngx_int_t zt_shm_alloc(ngx_shm_t *s) { ngx_int_t rc = ngx_shm_alloc(s); if (rc == NGX_OK) zt_shm(s->addr, s->size); return rc; }
static void *zt_conf;
#define ngx_process_slot zt_slot()
#define ngx_shmtx_lock(m) zt_lock(m)
#define ngx_shmtx_unlock(m) zt_unlock(m)
#define ngx_shmtx_trylock(m) zt_trylock(m)
#define vx_shmtx_lock(m) zt_lock(m)
#define vx_shmtx_unlock(m) zt_unlock(m)
#define vx_shmtx_trylock(m) zt_trylock(m)
#define ngx_shm_alloc zt_shm_alloc
#undef ngx_get_conf
#define ngx_get_conf(ctx, m) zt_conf
#undef ngx_memcmp
#undef ngx_strncmp
#undef ngx_strlen
#undef ngx_copy
#undef ngx_cpymem
#undef ngx_memcpy
#define ngx_memcmp(a, b, n) zt_cmp(a, b, n)
#define ngx_strlen(a) zt_len(a)
#define ngx_memcpy(a, b, n) (void) zt_cpy(a, b, n)
#define ngx_cpymem(a, b, n) ((u_char *) zt_cpy(a, b, n) + (n))
#define ngx_copy ngx_cpymem
#define ngx_strncmp(a, b, n) strncmp((const char *) a, (const char *) b, n)
#define ngx_stream_zone_module zt_module
#define ngx_stream_zone_insert_stream zt_insert_stream
#define ngx_stream_zone_delete_stream zt_delete_stream
#define ngx_stream_zone_state zt_state
ngx_int_t zt_insert_stream(ngx_str_t *name);
void zt_delete_stream(ngx_str_t *name);
#include "/repo/modules/nginx-multiport-module/ngx_stream_zone_module.c"
#undef ngx_process_slot
int zt_create(const char *b, const char *s) {
    ngx_conf_t cf; ngx_array_t a; ngx_str_t v[3]; ngx_core_module_t *m = zt_module.ctx; ngx_command_t *c; ngx_cycle_t *cy = (ngx_cycle_t *) ngx_cycle;
    zt_conf = m->create_conf(cy); memset(&cf, 0, sizeof cf); cf.cycle = cy; cf.pool = cy->pool; cf.log = cy->log; cf.args = &a; a.elts = v; a.nelts = 3;
    v[0].data = (u_char *) "stream_zone"; v[0].len = 11; v[1].data = (u_char *) b; v[1].len = strlen(b); v[2].data = (u_char *) s; v[2].len = strlen(s);
    for (c = zt_module.commands; c->name.len; c++) if (c->name.len == 11 && c->set(&cf, c, zt_conf) != NGX_CONF_OK) return -1;
    return m->init_conf(cy, zt_conf) == NGX_CONF_OK ? 0 : -1; }
long zt_ins(const char *n, int l) { ngx_str_t s; s.data = (u_char *) n; s.len = l; return zt_insert_stream(&s); }
void zt_del(const char *n, int l) { ngx_str_t s; s.data = (u_char *) n; s.len = l; zt_delete_stream(&s); }
void zt_start(void) { if (zt_module.init_process) zt_module.init_process((ngx_cycle_t *) ngx_cycle); }
void zt_stop(void) { if (zt_module.exit_process) zt_module.exit_process((ngx_cycle_t *) ngx_cycle); }
long zt_hash(const char *n, int l) { return ngx_hash_key((u_char *) n, l); }
long zt_alloc(void) {
    static ngx_http_request_t r; ngx_chain_t *c; ngx_buf_t *b; char *p; long n = -1; r.pool = ngx_create_pool(4096, ngx_cycle->log); c = zt_state(&r, 0); if (c) { b = c->buf; *b->last = 0; p = strstr((char *) b->pos, "alloc: "); if (p) n = atol(p + 7); } ngx_destroy_pool(r.pool); return n; }
#define T(x) void __tsan_##x(void *p) { zt_touch(p); }
T(read1) T(read2) T(read4) T(read8) T(read16) T(write1) T(write2) T(write4) T(write8) T(write16)
T(volatile_read1) T(volatile_read2) T(volatile_read4) T(volatile_read8) T(volatile_write1) T(volatile_write2) T(volatile_write4) T(volatile_write8)
T(unaligned_read2) T(unaligned_read4) T(unaligned_read8) T(unaligned_write2) T(unaligned_write4) T(unaligned_write8)
void __tsan_read_range(void *p, long n) { zt_touch(p); } void __tsan_write_range(void *p, long n) { zt_touch(p); }
void __tsan_init(void) { } void __tsan_func_entry(void *p) { } void __tsan_func_exit(void) { } void __tsan_vptr_update(void *p, void *q) { } void __tsan_vptr_read(void *p) { }
