// Opening an event stream counts as use of the session it names.
//@file funcs=handle_mcp_get_request
//@obl h_use kind=proof unwind=90 note="every request"
#include "../C23/gate.c"
void h_use(void)
{
    gate(1);
    if (g_lookups) CHECK(g_touched == (g_found ? 1 : 0), "a request on a live session renews it");
    if (S.session != NULL) CHECK(g_found, "only a live session is attached to a connection");
    if (g_touched) REACH("renewed");
}
