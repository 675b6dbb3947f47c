// A lookup finds only entries with that id, in tables of every size and content.
//@file funcs=mcp_client_find_pending_request_entry loops=find.json
//@obl h_find kind=proof abstract=1 unwind=3 loops=1 replace=hash_id:spec_hash standin=h_many,h_churn,h_ops1 note="every table of up to 2^16 slots with any content, any id"
#include "vh.h"
#include "vh_sync.h"
#include "src/client/internal/client_internal.h"
#include "mcp_log.h"
#include <string.h>
#ifndef REPLAY
#undef mcp_log_log
#define mcp_log_log(...) ((void)0)
#endif
mcp_log_level_t mcp_log_get_level(void) { return MCP_LOG_LEVEL_ERROR; }
void *mcp_thread_cache_alloc(size_t n) { return malloc(n); }
void mcp_thread_cache_free(void *p, size_t n) { (void)n; free(p); }
#include "src/client/mcp_client_hash_table.c"
size_t spec_hash(uint64_t id, size_t n) { size_t r = in_size("hash"); ASSUME(r < n); return r; }
mcp_client_t g_c;
void h_find(void)
{
    vh_reset();
#ifdef REPLAY
    vh_stop("contracts");
#endif
    int bits = in_u8("bits"); ASSUME(bits <= 16); size_t n = (size_t)1 << bits; g_c.pending_requests_capacity = n;
    g_c.pending_requests_table = (pending_request_entry_t *)(vh_malloc)(n * sizeof(pending_request_entry_t)); uint64_t id = in_u64("id");
    pending_request_entry_t *e = mcp_client_find_pending_request_entry(&g_c, id, false);
    if (e) { CHECK(id != 0 && e >= g_c.pending_requests_table && e < g_c.pending_requests_table + n, "in the table"); CHECK(e->id == id, "with that id"); }
    REACH("done");
}
