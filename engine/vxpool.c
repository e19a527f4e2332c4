/* Stand-ins the instrumented build of the modules calls instead of the nginx
 * core: pool allocations that are individual malloc blocks (so that the address
 * sanitizer sees every object), and lock calls that are scheduling points. */
#include <ngx_config.h>
#include <ngx_core.h>
#pragma weak ngx_palloc
#pragma weak ngx_pnalloc
#pragma weak ngx_pcalloc
#pragma weak ngx_shmtx_lock
#pragma weak ngx_shmtx_unlock
#pragma weak ngx_shmtx_trylock
#pragma weak ngx_alloc
#pragma weak ngx_calloc
#pragma weak ngx_pool_cleanup_add
#pragma weak ngx_shmtx_force_unlock
#include <dlfcn.h>

static void *add_large(ngx_pool_t *pool, void *p)
{
    ngx_pool_large_t *l = ngx_palloc(pool, sizeof(ngx_pool_large_t));
    if (l == NULL) { free(p); return NULL; }
    l->alloc = p;
    l->next = pool->large;
    pool->large = l;
    return p;
}
void *vx_palloc(ngx_pool_t *pool, size_t size)
{
    void *p = malloc(size ? size : 1);
    return p ? add_large(pool, p) : NULL;
}
void *vx_pnalloc(ngx_pool_t *pool, size_t size) { return vx_palloc(pool, size); }
void *vx_pcalloc(ngx_pool_t *pool, size_t size)
{
    void *p = vx_palloc(pool, size);
    if (p) memset(p, 0, size);
    return p;
}

void (*vx_lock_hook)(void *mtx, int op); /* 0 before lock, 1 after unlock */
int (*vx_lock_impl)(void *mtx, int op);  /* 0 lock 1 unlock 2 trylock; when set replaces the lock */

void vx_shmtx_lock(ngx_shmtx_t *m)
{
    if (vx_lock_impl) { vx_lock_impl(m, 0); return; }
    if (vx_lock_hook) vx_lock_hook(m, 0);
    ngx_shmtx_lock(m);
}
void vx_shmtx_unlock(ngx_shmtx_t *m)
{
    if (vx_lock_impl) { vx_lock_impl(m, 1); return; }
    ngx_shmtx_unlock(m);
    if (vx_lock_hook) vx_lock_hook(m, 1);
}
ngx_uint_t vx_shmtx_trylock(ngx_shmtx_t *m)
{
    if (vx_lock_impl) return vx_lock_impl(m, 2);
    return ngx_shmtx_trylock(m);
}
