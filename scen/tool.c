/* Thin access to the toolkit's data structures. */
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_http.h>
#include "ngx_map.h"
#include "ngx_rbuf.h"
#include "ngx_poold.h"
#include "ngx_timerd.h"
#include "ngx_event_timer_module.h"

#define NN 64
static ngx_map_t M; static ngx_map_node_t N[NN]; static ngx_str_t S[NN];
void tm_init(int kind) { memset(N, 0xa5, sizeof N); memset(&M, 0xa5, sizeof M);
    if (kind == 0) ngx_map_init(&M, ngx_map_hash_uint, ngx_cmp_uint); else if (kind == 1) ngx_map_init(&M, ngx_map_hash_int, ngx_cmp_int); else ngx_map_init(&M, ngx_map_hash_str, ngx_cmp_str); }
long tm_str(int i, const char *d, int n) { static char buf[NN][32]; memcpy(buf[i], d, n); S[i].data = (u_char *) buf[i]; S[i].len = n; return (long) &S[i]; }
static int ix(ngx_map_node_t *n) { return n ? (int) (n - N) : -1; }
void tm_insert(int i, long key, int covered) { N[i].raw_key = key; ngx_map_insert(&M, &N[i], covered); }
void tm_delete(long key) { ngx_map_delete(&M, key); }
int tm_find(long key) { return ix(ngx_map_find(&M, key)); }
int tm_begin(void) { return ix(ngx_map_begin(&M)); }
int tm_rbegin(void) { return ix(ngx_map_rbegin(&M)); }
int tm_next(int i) { return ix(ngx_map_next(&N[i])); }
int tm_prev(int i) { return ix(ngx_map_prev(&N[i])); }
int tm_empty(void) { ngx_map_t *m = &M; return ngx_map_empty(m); }

/* buffers */
void *rb_get(size_t n, int alloc) { return ngx_get_chainbuf_debug(n, alloc, "me", 7); }
void rb_put(void *cl) { ngx_put_chainbuf_debug(cl, "me", 8); }
void rb_info(void *v, unsigned char **start, unsigned char **pos, unsigned char **last, unsigned char **end, int *flags, void **next)
{ ngx_chain_t *cl = v; *start = cl->buf->start; *pos = cl->buf->pos; *last = cl->buf->last; *end = cl->buf->end; *flags = cl->buf->memory | cl->buf->temporary << 1 | cl->buf->in_file << 2; *next = cl->next; }
void rb_dirty(void *v, void *next) { ngx_chain_t *cl = v; cl->next = next; cl->buf->pos = cl->buf->last = cl->buf->start + (cl->buf->end > cl->buf->start); }
static char *state(ngx_chain_t *(*f)(ngx_http_request_t *, unsigned), int detail)
{
    static char out[65536]; static ngx_http_request_t *r; size_t n;
    r = calloc(1, sizeof *r); r->pool = ngx_create_pool(4096, ngx_cycle->log);
    ngx_chain_t *cl = f(r, detail);
    n = cl->buf->last - cl->buf->pos; memcpy(out, cl->buf->pos, n); out[n] = 0;
    ngx_destroy_pool(r->pool); free(r); return out;
}
static ngx_chain_t *ets(ngx_http_request_t *r, unsigned d) { return ngx_event_timer_state(r); }
char *rb_state(int d) { return state(ngx_rbuf_state, d); }
char *pd_state(int d) { return state(ngx_poold_state, d); }
char *td_state(int d) { return state(ngx_timerd_state, d); }
char *et_state(void) { return state(ets, 0); }

void *pd_create(size_t n) { return ngx_create_pool_debug(n, ngx_cycle->log, "me", 9); }
void pd_destroy(void *p) { ngx_destroy_pool_debug(p, "me", 10); }
void *pd_alloc(void *p, size_t n) { return ngx_palloc(p, n); }

long et_add(unsigned long ms, void (*h)(void *), void *d) { return ngx_event_timer_add_timer(ms, h, d); }
void et_del(unsigned long id) { ngx_event_timer_del_timer(id); }

/* timers with owners */
#define NT 4
static struct { ngx_uint_t pad, owner; } O[NT]; static ngx_event_t E[NT]; static void (*tdh)(int);
static void th(ngx_event_t *e) { tdh((int) (e - E)); }
void td_init(void (*h)(int)) { int i; tdh = h; memset(E, 0, sizeof E); for (i = 0; i < NT; i++) { E[i].data = &O[i]; E[i].handler = th; E[i].log = ngx_cycle->log; } }
unsigned long td_footprint(void) { return ngx_timerd_footprint(); }
void td_own(int i, unsigned long f) { O[i].owner = f; }
void td_add(int i, unsigned long ms) { ngx_add_timer_debug(&E[i], ms, offsetof(typeof(O[0]), owner), "me", 11); }
void td_del(int i, unsigned long f) { ngx_del_timer_debug(&E[i], f, "me", 12); }
int td_set(int i) { return E[i].timer_set; }
int td_out(int i) { return E[i].timedout; }
void td_clear(int i) { E[i].timedout = 0; }
