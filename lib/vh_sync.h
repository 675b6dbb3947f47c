/* Contract of the lock module.  Locks are ghost objects: `held` says whether
 * the verified thread holds it.  VH_ON_LOCK/VH_ON_UNLOCK let a harness state a
 * resource invariant (havoc on acquire, check on release). */
#ifndef VH_SYNC_H
#define VH_SYNC_H
#include "vh.h"
#include "mcp_sync.h"
struct mcp_mutex_s { int held; int alive; };
struct mcp_cond_s { int signals; int broadcasts; };
#ifndef VH_ON_LOCK
#define VH_ON_LOCK(m) ((void)0)
#endif
#ifndef VH_ON_UNLOCK
#define VH_ON_UNLOCK(m) ((void)0)
#endif
#ifndef VH_ON_WAIT
#define VH_ON_WAIT(c, m) do { VH_ON_UNLOCK(m); VH_ON_LOCK(m); } while (0)
#endif
static int vh_locks_held;
static int vh_lock_ops;
mcp_mutex_t *mcp_mutex_create(void)
{ mcp_mutex_t *m = (mcp_mutex_t *)(vh_malloc)(sizeof *m); if (m) { m->held = 0; m->alive = 1; } return m; }
mcp_mutex_t *mcp_recursive_mutex_create(void) { return mcp_mutex_create(); }
void mcp_mutex_destroy(mcp_mutex_t *m) { if (!m) return; CHECK(!m->held, "lock destroyed while held"); (vh_free)(m); }
int mcp_mutex_lock(mcp_mutex_t *m)
{
    if (!m) return -1;
    CHECK(!m->held, "lock taken twice by the same thread");
    m->held = 1; vh_locks_held++; vh_lock_ops++;
    VH_ON_LOCK(m);
    return 0;
}
int mcp_mutex_unlock(mcp_mutex_t *m)
{
    if (!m) return -1;
    CHECK(m->held, "lock released that is not held");
    VH_ON_UNLOCK(m);
    m->held = 0; vh_locks_held--;
    return 0;
}
mcp_cond_t *mcp_cond_create(void)
{ mcp_cond_t *c = (mcp_cond_t *)(vh_malloc)(sizeof *c); if (c) { c->signals = 0; c->broadcasts = 0; } return c; }
void mcp_cond_destroy(mcp_cond_t *c) { if (c) (vh_free)(c); }
int mcp_cond_wait(mcp_cond_t *c, mcp_mutex_t *m)
{ CHECK(m && m->held, "condition wait without the lock"); VH_ON_WAIT(c, m); return 0; }
int mcp_cond_timedwait(mcp_cond_t *c, mcp_mutex_t *m, uint32_t ms)
{ (void)ms; CHECK(m && m->held, "condition wait without the lock"); VH_ON_WAIT(c, m); int r = in_i32("timedwait"); ASSUME(r >= -2 && r <= 0); return r; }
int mcp_cond_signal(mcp_cond_t *c) { if (!c) return -1; c->signals++; return 0; }
int mcp_cond_broadcast(mcp_cond_t *c) { if (!c) return -1; c->broadcasts++; return 0; }
#ifdef VH_RWLOCK
#include "mcp_rwlock.h"
struct mcp_rwlock_t { int readers; int writer; };
#ifndef VH_ON_RDLOCK
#define VH_ON_RDLOCK(l) ((void)0)
#endif
#ifndef VH_ON_WRLOCK
#define VH_ON_WRLOCK(l) ((void)0)
#endif
#ifndef VH_ON_WRUNLOCK
#define VH_ON_WRUNLOCK(l) ((void)0)
#endif
#ifndef VH_ON_RDUNLOCK
#define VH_ON_RDUNLOCK(l) ((void)0)
#endif
mcp_rwlock_t *mcp_rwlock_create(void) { mcp_rwlock_t *l = (mcp_rwlock_t *)(vh_malloc)(sizeof *l); if (l) { l->readers = 0; l->writer = 0; } return l; }
bool mcp_rwlock_init(mcp_rwlock_t *l) { if (!l) return false; l->readers = 0; l->writer = 0; return true; }
bool mcp_rwlock_destroy(mcp_rwlock_t *l) { if (!l) return false; CHECK(!l->readers && !l->writer, "rwlock destroyed while held"); return true; }
void mcp_rwlock_free(mcp_rwlock_t *l) { if (!l) return; CHECK(!l->readers && !l->writer, "rwlock freed while held"); (vh_free)(l); }
bool mcp_rwlock_read_lock(mcp_rwlock_t *l) { if (!l) return false; CHECK(!l->writer && !l->readers, "rwlock taken twice by the same thread"); l->readers++; vh_locks_held++; VH_ON_RDLOCK(l); return true; }
bool mcp_rwlock_read_unlock(mcp_rwlock_t *l) { if (!l) return false; CHECK(l->readers > 0, "read lock released that is not held"); VH_ON_RDUNLOCK(l); l->readers--; vh_locks_held--; return true; }
bool mcp_rwlock_write_lock(mcp_rwlock_t *l) { if (!l) return false; CHECK(!l->writer && !l->readers, "rwlock taken twice by the same thread"); l->writer = 1; vh_locks_held++; VH_ON_WRLOCK(l); return true; }
bool mcp_rwlock_write_unlock(mcp_rwlock_t *l) { if (!l) return false; CHECK(l->writer == 1, "write lock released that is not held"); VH_ON_WRUNLOCK(l); l->writer = 0; vh_locks_held--; return true; }
bool mcp_rwlock_try_read_lock(mcp_rwlock_t *l) { return in_bool("tryrd") ? mcp_rwlock_read_lock(l) : false; }
bool mcp_rwlock_try_write_lock(mcp_rwlock_t *l) { return in_bool("trywr") ? mcp_rwlock_write_lock(l) : false; }
#endif
#endif
