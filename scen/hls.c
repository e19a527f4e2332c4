/* Runs the cache manager's callback for the directory whose path starts with prefix. */
#include <ngx_config.h>
#include <ngx_core.h>
int hls_cleanup(const char *prefix)
{
    ngx_path_t **path = ngx_cycle->paths.elts; ngx_uint_t i; int n = 0;
    for (i = 0; i < ngx_cycle->paths.nelts; i++)
        if (path[i]->manager && ngx_strncmp(path[i]->name.data, prefix, path[i]->name.len) == 0) { path[i]->manager(path[i]->data); n++; }
    return n;
}
