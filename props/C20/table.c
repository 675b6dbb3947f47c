// The set of outstanding requests is a map, with collisions, removals and growth.
//@file funcs=mcp_client_find_pending_request_entry,mcp_client_add_pending_request_entry,mcp_client_remove_pending_request_entry,resize_pending_requests_table,hash_id
//@obl h_ops0 kind=bounded unwind=82 objbits=12 note="table of 4 growing to 8; every history of 4 additions and removals of 3 ids with different hashes"
//@obl h_ops1 kind=bounded unwind=82 objbits=12 note="the same, all ids with the same hash"
//@obl h_ops2 kind=bounded unwind=82 objbits=12 note="the same, ids of different size, two hashes"
//@obl h_many kind=bounded unwind=70 objbits=12 note="twelve requests at once, table of 4 growing to 16; every third removed"
//@obl h_churn kind=bounded unwind=70 objbits=12 note="thirty requests one after another while the table never grows"
//@obl h_chunks kind=bounded unwind=70 objbits=12 note="table of 32 with 23 requests growing to 64"
//@obl h_full kind=bounded unwind=20 objbits=12 note="growth without memory: refused, and the table unchanged"
#include "vh.h"
#include "vh_sync.h"
#include "src/client/internal/client_internal.h"
#include "mcp_log.h"
#include <string.h>
#ifndef REPLAY
#undef mcp_log_log
#define mcp_log_log(...) ((void)0)
#endif
mcp_log_level_t mcp_log_get_level(void) { return MCP_LOG_LEVEL_ERROR; }
void *mcp_thread_cache_alloc(size_t n) { return malloc(n); }
void mcp_thread_cache_free(void *p, size_t n) { (void)n; free(p); }
#include "src/client/mcp_client_hash_table.c"
static mcp_client_t C; static mcp_error_code_t E[40]; 
static void setup(size_t cap)
{
    memset(&C, 0, sizeof C); C.pending_requests_capacity = cap; C.pending_requests_table = (pending_request_entry_t *)calloc(cap, sizeof(pending_request_entry_t));
}
static void done(void) { free(C.pending_requests_table); CHECK(vh_live == 0, "nothing is lost"); }
static int put(uint64_t id, int k) { pending_request_t r; memset(&r, 0, sizeof r); r.id = id; r.status = PENDING_REQUEST_WAITING; r.error_code_ptr = &E[k]; return mcp_client_add_pending_request_entry(&C, id, &r); }
static bool has(uint64_t id, int k)
{
    pending_request_entry_t *e = mcp_client_find_pending_request_entry(&C, id, false);
    if (!e || e->request.status == PENDING_REQUEST_INVALID) return false;
    CHECK(e >= C.pending_requests_table && e < C.pending_requests_table + C.pending_requests_capacity, "in the table"); CHECK(e->id == id && e->request.id == id && e->request.error_code_ptr == &E[k], "under its own id"); return true;
}
static void ops(const uint64_t *ids)
{
    for (int code = 0; code < 81; code++) {
        bool in[3] = {false, false, false}, was[3] = {false, false, false}; setup(4);
        for (int s = 0, c = code; s < 4; s++, c /= 3) {
            int k = c % 3; size_t n = 0;
            if (in[k]) { CHECK(mcp_client_remove_pending_request_entry(&C, ids[k]) == 0, "removed"); in[k] = false; }
            else if (!was[k]) { CHECK(put(ids[k], k) == 0, "added"); in[k] = was[k] = true; }
            else CHECK(mcp_client_remove_pending_request_entry(&C, ids[k]) == -1, "removed once");
            for (int j = 0; j < 3; j++) { CHECK(has(ids[j], j) == in[j], "there from its addition to its removal"); n += in[j]; }
            CHECK(C.pending_requests_count == n, "counted");
        }
        done();
    }
    REACH("done");
}
static const uint64_t A[] = {1, 2, 3, 4}, B[] = {8, 16, 24, 32}, D[] = {5, 4294967301u, 13, 1000};
void h_ops0(void) { ops(A); }
void h_ops1(void) { ops(B); }
void h_ops2(void) { ops(D); }
void h_many(void)
{
    for (int base = 1; base <= 1001; base += 1000) for (int step = 1; step <= 8; step *= 8) {
        setup(4);
        for (int k = 0; k < 12; k++) { CHECK(put((uint64_t)(base + k * step), k) == 0, "added"); for (int j = 0; j < 12; j++) CHECK(has((uint64_t)(base + j * step), j) == (j <= k), "each under its id"); CHECK(put((uint64_t)(base + k * step), 39) == -1, "an id once"); }
        CHECK(C.pending_requests_count == 12 && C.pending_requests_capacity >= 12, "all of them");
        for (int k = 0; k < 12; k += 3) CHECK(mcp_client_remove_pending_request_entry(&C, (uint64_t)(base + k * step)) == 0, "removed");
        for (int j = 0; j < 12; j++) CHECK(has((uint64_t)(base + j * step), j) == (j % 3 != 0), "the others stay"); CHECK(C.pending_requests_count == 8, "counted");
        done();
    }
    REACH("done");
}
void h_churn(void)
{
    setup(8); CHECK(put(7, 0) == 0, "one that stays");
    for (int k = 1; k < 31; k++) { uint64_t id = 100 + (uint64_t)k * 3; CHECK(put(id, k) == 0, "added"); CHECK(has(id, k) && has(7, 0), "both there"); CHECK(mcp_client_remove_pending_request_entry(&C, id) == 0 && !has(id, k) && has(7, 0), "and the one left"); CHECK(C.pending_requests_count == 1, "counted"); }
    done(); REACH("done");
}
void h_chunks(void)
{
    setup(32); for (int k = 0; k < 24; k++) CHECK(put((uint64_t)(40 + k), k) == 0, "added");
    CHECK(C.pending_requests_count == 24, "counted"); for (int k = 0; k < 24; k++) CHECK(has((uint64_t)(40 + k), k), "each under its id"); done(); REACH("done");
}
void h_full(void)
{
    setup(4); CHECK(put(1, 0) == 0 && put(9, 1) == 0, "two"); vh_fail_from = 0; vh_alloc_no = 0; int r = put(17, 2); vh_fail_from = -1;
    CHECK(has(1, 0) && has(9, 1), "still there"); CHECK(r == 0 || r == -1, "an answer"); CHECK(has(17, 2) == (r == 0) && C.pending_requests_count == (r == 0 ? 3 : 2), "refused as a whole"); done(); REACH("done");
}
