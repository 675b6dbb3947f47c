/* Contract of the logging module: no effect on anything the properties speak
 * about. */
#define VH_IMPL 1
#include "vh.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strdup
#undef time
#include "mcp_log.h"
void mcp_log_log(mcp_log_level_t level, const char *file, int line, const char *format, ...)
{ (void)level; (void)file; (void)line; (void)format; }
mcp_log_level_t mcp_log_get_level(void) { return MCP_LOG_LEVEL_ERROR; }
