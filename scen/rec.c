/* Records every RTMP message the server dispatches, before any of its handlers. */
#include <ngx_config.h>
#include <ngx_core.h>
#include "ngx_rtmp.h"

void (*rec_cb)(int fd, int type, unsigned ts, unsigned msid, unsigned csid, const unsigned char *d, size_t n);

static ngx_int_t rec_handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
{
    static unsigned char *buf; static size_t cap;
    size_t n = 0; ngx_chain_t *cl;
    if (rec_cb == NULL) return NGX_OK;
    for (cl = in; cl; cl = cl->next) {
        size_t k = cl->buf->last - cl->buf->pos;
        if (n + k > cap) { cap = (n + k) * 2 + 64; buf = realloc(buf, cap); }
        if (k) memcpy(buf + n, cl->buf->pos, k);
        n += k;
    }
    rec_cb(s->connection ? s->connection->fd : -1, h->type, h->timestamp, h->msid, h->csid, buf, n);
    return NGX_OK;
}

static int installed;
void rec_install(void)
{
    ngx_rtmp_core_main_conf_t *m = ngx_rtmp_core_main_conf;
    if (installed) return;
    installed = 1;
    int i;
    for (i = 0; i <= NGX_RTMP_MSG_MAX; i++) {
        ngx_array_t *a = &m->events[i];
        ngx_rtmp_handler_pt *n = malloc((a->nelts + 1) * sizeof *n);
        n[0] = rec_handler;
        memcpy(n + 1, a->elts, a->nelts * sizeof *n);
        a->elts = n; a->nelts++; a->nalloc = a->nelts;
    }
}
