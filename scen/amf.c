/* The AMF codec with a schema described in plain C. */
#include <ngx_config.h>
#include <ngx_core.h>
#include "ngx_rtmp.h"
#include "ngx_rtmp_amf.h"
struct S { int type; const char *name; void *data; size_t len; struct S *sub; };
static ngx_rtmp_amf_elt_t E[256]; static int ne;
static ngx_rtmp_amf_elt_t *conv(struct S *s, int n)
{
    ngx_rtmp_amf_elt_t *e = &E[ne]; int i; ne += n; memset(e, 0, n * sizeof *e);
    for (i = 0; i < n; i++) { e[i].type = s[i].type; if (s[i].name) { e[i].name.data = (u_char *) s[i].name; e[i].name.len = strlen(s[i].name); }
        if (s[i].sub) { e[i].len = s[i].len * sizeof(ngx_rtmp_amf_elt_t); e[i].data = conv(s[i].sub, s[i].len); } else { e[i].data = s[i].data; e[i].len = s[i].len; } }
    return e;
}
int amf_read(const unsigned char *d, const int *cut, int nc, struct S *s, int n, int *left)
{
    ngx_chain_t cl[8]; ngx_buf_t b[8]; int i, at = 0; ngx_rtmp_amf_ctx_t c; u_char *m[8]; memset(&c, 0, sizeof c); memset(b, 0, sizeof b);
    for (i = 0; i < nc; i++) { int k = cut[i] - at; m[i] = malloc(k ? k : 1); memcpy(m[i], d + at, k); b[i].start = b[i].pos = m[i]; b[i].last = b[i].end = m[i] + k; cl[i].buf = &b[i]; cl[i].next = i + 1 < nc ? &cl[i + 1] : NULL; at = cut[i]; }
    c.link = &cl[0]; c.log = ngx_cycle->log; ne = 0;
    int rc = ngx_rtmp_amf_read(&c, conv(s, n), n);
    *left = 0; for (ngx_chain_t *l = c.link; l; l = l->next) *left += l->buf->last - l->buf->pos; *left -= c.offset;
    for (i = 0; i < nc; i++) free(m[i]);
    return rc;
}
static int bsz; static ngx_chain_t *al(void *a) { ngx_chain_t *l = calloc(1, sizeof *l); l->buf = calloc(1, sizeof *l->buf); l->buf->start = l->buf->pos = l->buf->last = malloc(bsz); l->buf->end = l->buf->start + bsz; return l; }
int amf_write(struct S *s, int n, int bufsize, int prealloc, unsigned char *out, int *outn)
{
    ngx_rtmp_amf_ctx_t c; memset(&c, 0, sizeof c); bsz = bufsize; c.alloc = al; c.log = ngx_cycle->log; ne = 0; if (prealloc) c.link = al(NULL);
    int rc = ngx_rtmp_amf_write(&c, conv(s, n), n); *outn = 0;
    for (ngx_chain_t *l = c.first, *x; l; l = x) { memcpy(out + *outn, l->buf->pos, l->buf->last - l->buf->pos); *outn += l->buf->last - l->buf->pos; x = l->next; free(l->buf->start); free(l->buf); free(l); }
    return rc;
}
