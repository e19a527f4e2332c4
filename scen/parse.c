/* Parsers of URLs, addresses, ports and stream arguments. */
#include <ngx_config.h>
#include <ngx_core.h>
#include "ngx_rtmp.h"
#include "ngx_toolkit_misc.h"
#include "ngx_multiport.h"
/* offsets and lengths of the nine parts; -1 when absent */
int pa_url(const unsigned char *d, int n, int *off, int *len)
{
    ngx_request_url_t u; ngx_str_t s, *p; int i, rc; memset(&u, 0, sizeof u); s.data = (u_char *) d; s.len = n;
    rc = ngx_parse_request_url(&u, &s); p = &u.scheme;
    for (i = 0; i < 9; i++) { off[i] = p[i].data ? (int) (p[i].data - d) : -1; len[i] = p[i].len; }
    return rc;
}
int pa_port(const char *sc, int sn, const char *p, int pn) { ngx_str_t a = { sn, (u_char *) sc }, b = { pn, (u_char *) p }; return ngx_request_port(&a, &b); }
int pa_pton(const char *t, int n, void *sa) { return ngx_sock_pton(sa, (u_char *) t, n); }
int pa_multi(const char *t, int n, int slot, char *out)
{ ngx_pool_t *p = ngx_create_pool(512, ngx_cycle->log); ngx_str_t o = { 0, NULL }, m = { n, (u_char *) t }; int rc = ngx_multiport_get_port(p, &o, &m, slot); if (rc == 0) { memcpy(out, o.data, o.len); out[o.len] = 0; } ngx_destroy_pool(p); return rc; }
int pa_arg(const unsigned char *args, int an, const char *name, int nn, int *off, int *len)
{ static ngx_rtmp_session_t s; ngx_str_t v = { 0, NULL }; s.pargs.data = (u_char *) args; s.pargs.len = an; int rc = ngx_rtmp_arg(&s, (u_char *) name, nn, &v); *off = v.data ? (int) (v.data - args) : -1; *len = v.len; return rc; }
