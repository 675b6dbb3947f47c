// Beyond the size where the number of probes is limited.
//@file subst=probe.json funcs=mcp_client_find_pending_request_entry,mcp_client_add_pending_request_entry,mcp_client_remove_pending_request_entry,resize_pending_requests_table,hash_id
//@file assume="probes are limited to 2 from 16 slots on instead of 16 from 1024 on"
//@obl h_limit kind=bounded standin=h_many unwind=40 objbits=12 note="ten requests in a table of 16, colliding or not, every third removed"
#include "vh.h"
#include "vh_sync.h"
#include "src/client/internal/client_internal.h"
#include "mcp_log.h"
#include <string.h>
#ifndef REPLAY
#undef mcp_log_log
#define mcp_log_log(...) ((void)0)
#endif
mcp_log_level_t mcp_log_get_level(void) { return MCP_LOG_LEVEL_ERROR; }
void *mcp_thread_cache_alloc(size_t n) { return malloc(n); }
void mcp_thread_cache_free(void *p, size_t n) { (void)n; free(p); }
#include "src/client/mcp_client_hash_table.c"
static mcp_client_t C; static mcp_error_code_t E[40]; 
static void setup(size_t cap)
{
    memset(&C, 0, sizeof C); C.pending_requests_capacity = cap; C.pending_requests_table = (pending_request_entry_t *)calloc(cap, sizeof(pending_request_entry_t));
}
static void done(void) { free(C.pending_requests_table); CHECK(vh_live == 0, "nothing is lost"); }
static int put(uint64_t id, int k) { pending_request_t r; memset(&r, 0, sizeof r); r.id = id; r.status = PENDING_REQUEST_WAITING; r.error_code_ptr = &E[k]; return mcp_client_add_pending_request_entry(&C, id, &r); }
static bool has(uint64_t id, int k)
{
    pending_request_entry_t *e = mcp_client_find_pending_request_entry(&C, id, false);
    if (!e || e->request.status == PENDING_REQUEST_INVALID) return false;
    CHECK(e >= C.pending_requests_table && e < C.pending_requests_table + C.pending_requests_capacity, "in the table"); CHECK(e->id == id && e->request.id == id && e->request.error_code_ptr == &E[k], "under its own id"); return true;
}
void h_limit(void)
{
    for (int step = 1; step <= 16; step *= 16) {
        bool in[10]; size_t n = 0; setup(16);
        for (int k = 0; k < 10; k++) { int r = put((uint64_t)(3 + k * step), k); CHECK(r == 0 || r == -1, "an answer"); in[k] = r == 0; n += in[k]; for (int j = 0; j <= k; j++) CHECK(has((uint64_t)(3 + j * step), j) == in[j], "there if accepted"); CHECK(C.pending_requests_count == n, "counted"); }
        for (int k = 0; k < 10; k += 3) if (in[k]) { CHECK(mcp_client_remove_pending_request_entry(&C, (uint64_t)(3 + k * step)) == 0, "removed"); in[k] = false; n--; }
        for (int j = 0; j < 10; j++) CHECK(has((uint64_t)(3 + j * step), j) == in[j], "the others stay"); CHECK(C.pending_requests_count == n && n > 0, "counted");
        done();
    }
    REACH("done");
}
