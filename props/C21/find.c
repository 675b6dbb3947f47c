// First free slot, for every map size and occupancy (loop invariant in find.json).
//@file funcs=ws_server_find_free_client_slot loops=find.json
//@obl h_find kind=proof standin=h_find_small unwind=2 loops=1 note="first free slot for every map size and occupancy"
#include "vh_sync.h"
#include "mcp_websocket_transport.h"
extern uint32_t g_k; extern uint32_t g_kfree;
#include "src/transport/mcp_websocket_server_bitmap.c"

ws_server_data_t g_d;
uint32_t g_k; uint32_t g_kfree;

void h_find(void)
{
    vh_reset();
    uint32_t n = in_u32("words"), max = in_u32("max"), act = in_u32("active");
    ASSUME(max >= 1 && max <= (1u << 24) && n == (max + 31) / 32);
    uint32_t *map = (uint32_t *)malloc((size_t)n * 4);
    ASSUME(map);
    g_d.client_bitmap = map; g_d.bitmap_size = n; g_d.max_clients = max; g_d.active_clients = act;
    /* k is an arbitrary slot */
    g_k = in_u32("k"); ASSUME(g_k < max);
    g_kfree = !((map[g_k >> 5] >> (g_k & 31)) & 1);
    int r = ws_server_find_free_client_slot(&g_d);
    if (r >= 0) {
        CHECK((uint32_t)r < max, "slot within the maximum");
        CHECK(!((map[(uint32_t)r >> 5] >> (r & 31)) & 1), "slot handed out was free");
        CHECK(!(g_kfree && g_k < (uint32_t)r), "no lower slot is free");
        REACH("slot found");
    } else {
        CHECK(r == -1, "refusal is reported as -1");
        CHECK(act >= max || !g_kfree, "refused only when every slot is taken or the limit is reached");
        REACH("refused");
    }
    CHECK(!(act >= max) || r == -1, "at the limit the connection is refused");
}

