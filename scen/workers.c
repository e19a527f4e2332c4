/* Runs what a module does when a worker process starts. */
#include <ngx_config.h>
#include <ngx_core.h>
void w_init(void *cycle, void *module) { ngx_module_t *m = module; if (m->init_process && m->init_process(cycle) != NGX_OK) ngx_log_error(NGX_LOG_EMERG, ((ngx_cycle_t *) cycle)->log, 0, "init_process failed"); }
