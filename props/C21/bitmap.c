// Slot bitmap of the WebSocket server.
//@file funcs=ws_server_set_client_bit,ws_server_clear_client_bit,ws_server_test_client_bit,ws_server_find_free_client_slot,ws_server_get_client_mutex,ws_server_lock_client,ws_server_unlock_client
//@obl h_bits kind=proof standin=h_bits_small unwind=2 note="set/clear/test for every index and every map size"
//@obl h_bits_small kind=bounded unwind=5 bound="at most 128 slots"
//@obl h_find_small kind=bounded unwind=5 bound="at most 96 slots, every occupancy and every maximum"
//@obl h_mutex kind=proof unwind=5 note="lock choice for every client number"
#include "vh_sync.h"
#include "src/transport/mcp_websocket_server_bitmap.c"

static void bits(uint32_t *map, int size)
{
    int index = in_i32("index"), other = in_i32("other");
    ASSUME(other >= 0 && (other >> 5) < size);
    bool valid = index >= 0 && (index >> 5) < size;
    map[other >> 5] = in_u32("word_o");
    if (valid) map[index >> 5] = in_u32("word_i");
    bool o0 = (map[other >> 5] >> (other & 31)) & 1;
    bool i0 = valid ? (map[index >> 5] >> (index & 31)) & 1 : false;
    CHECK(ws_server_test_client_bit(map, index, size) == i0, "test reports exactly the slot's own bit");
    uint8_t op = in_u8("op"); ASSUME(op < 2);
    if (op == 0) ws_server_set_client_bit(map, index, size);
    else ws_server_clear_client_bit(map, index, size);
    if (valid) {
        CHECK(ws_server_test_client_bit(map, index, size) == (op == 0), "marking or clearing a slot takes effect");
        CHECK(((map[index >> 5] >> (index & 31)) & 1) == (op == 0), "the slot's own bit carries the mark");
    }
    if (other != index) CHECK(((map[other >> 5] >> (other & 31)) & 1) == o0, "no other slot is affected");
    ws_server_set_client_bit(NULL, index, size);
    ws_server_clear_client_bit(NULL, index, size);
    CHECK(!ws_server_test_client_bit(NULL, index, size), "no map: nothing occupied");
    REACH("bits");
}

void h_bits(void)
{
    uint32_t n = in_u32("words"); ASSUME(n >= 1 && n <= (1u << 20));
    uint32_t *map = (uint32_t *)malloc((size_t)n * 4);
    ASSUME(map);
    bits(map, (int)n);
}

void h_bits_small(void)
{
    uint32_t *map = (uint32_t *)malloc(16);
    ASSUME(map);
    for (int i = 0; i < 4; i++) map[i] = 0;
    bits(map, 4);
}

static ws_server_data_t g_d;

void h_find_small(void)
{
    uint32_t map[3] = {in_u32("w0"), in_u32("w1"), in_u32("w2")};
    uint32_t max = in_u32("max"), act = in_u32("active");
    ASSUME(max >= 1 && max <= 96);
    g_d.client_bitmap = map; g_d.bitmap_size = (max + 31) / 32; g_d.max_clients = max; g_d.active_clients = act;
    uint32_t k = in_u32("k"); ASSUME(k < max);
    bool kfree = !((map[k >> 5] >> (k & 31)) & 1);
    int r = ws_server_find_free_client_slot(&g_d);
    if (r >= 0) {
        CHECK((uint32_t)r < max && act < max, "slot within the maximum");
        CHECK(!((map[(uint32_t)r >> 5] >> (r & 31)) & 1), "slot handed out was free");
        CHECK(!(kfree && k < (uint32_t)r), "no lower slot is free");
        REACH("slot found");
    } else {
        CHECK(r == -1 && (act >= max || !kfree), "refused only when every slot is taken or the limit is reached");
        REACH("refused");
    }
    CHECK(ws_server_find_free_client_slot(NULL) == -1, "no server: refused");
}

void h_mutex(void)
{
    struct mcp_mutex_s m[4] = {{0, 1}, {0, 1}, {0, 1}, {0, 1}}, g = {0, 1};
    mcp_mutex_t *seg[4] = {&m[0], &m[1], &m[2], &m[3]};
    uint32_t ns = in_u32("segments"), max = in_u32("max"); ASSUME(ns >= 1 && ns <= 4 && max >= 1 && max <= (1u << 24));
    g_d.segment_mutexes = seg; g_d.num_segments = ns; g_d.max_clients = max; g_d.global_mutex = &g;
    int a = in_i32("client");
    mcp_mutex_t *x = ws_server_get_client_mutex(&g_d, a);
    CHECK(x == &g || x == seg[0] || x == seg[1] || x == seg[2] || x == seg[3], "a lock of this server");
    CHECK(x == ws_server_get_client_mutex(&g_d, a), "same client, same lock");
    if (a >= 0 && (uint32_t)a < max) CHECK(x != &g, "a valid client uses its own segment");
    ws_server_lock_client(&g_d, a);
    CHECK(x->held && vh_locks_held == 1, "locking a client takes its lock and no other");
    ws_server_unlock_client(&g_d, a);
    CHECK(!x->held && vh_locks_held == 0, "unlocking releases it");
    ws_server_lock_all_clients(&g_d);
    CHECK(g.held && vh_locks_held == 1, "global lock");
    ws_server_unlock_all_clients(&g_d);
    CHECK(vh_locks_held == 0, "global lock released");
    REACH("mutex");
}
