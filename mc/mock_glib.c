// GLib threads, locks, conditions, queues and time under control of the
// explorer (used by the legacy TCP backend). Every GLib thread is a coroutine;
// context switches happen at synchronisation and socket operations only.
// Histories of threads get mixed via locks (happens-before), such that equal
// state hashes imply equal orders of synchronisation.
#include "rtpriv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint64_t mixh(uint64_t a, uint64_t b) { return rt_hash(a, &b, 8); }
static uint64_t* myhist(void) { return &rt_ranks[rt_thr].hist; }

// ---- mutex: contents {owner slot + 1, hash of last owner}
typedef struct { uint32_t owner, h; } Mx;
extern int rt_heap_lock(void* p); // locks in static memory are leaf locks without blocking inside
static int mx_free(void* m) { return ((Mx*)m)->owner == 0; }
void __wrap_g_mutex_init(void* m) { memset(m, 0, 8); }
void __wrap_g_mutex_clear(void* m) { if (((Mx*)m)->owner) rt_fail("lock:clear-locked", "locked mutex cleared"); memset(m, 0xEE, 8); }
static void mx_acquire(Mx* x) {
    rt_block(mx_free, x, "lock");
    x->owner = rt_thr + 1; if (x->h) *myhist() = mixh(*myhist(), x->h);
}
void __wrap_g_mutex_lock(void* m) {
    Mx* x = m;
    if (rt_cur < 0) return;
    if (x->owner == 0xEEEEEEEEu || x->owner > RT_MAXTHR) rt_fail("lock:invalid", "invalid mutex locked");
    if ((int)x->owner == rt_thr + 1) rt_fail("lock:recursive", "mutex locked twice by same thread");
    if (rt_heap_lock(m)) rt_yield("lock");
    mx_acquire(x);
}
void __wrap_g_mutex_unlock(void* m) {
    Mx* x = m;
    if (rt_cur < 0) return;
    if ((int)x->owner != rt_thr + 1) rt_fail("lock:not-owner", "mutex unlocked which is not locked by this thread");
    x->owner = 0; x->h = (uint32_t)(*myhist() >> 16) | 1; *myhist() = mixh(*myhist(), 3);
}
// ---- condition: contents {generation}
typedef struct { uint64_t gen; } Cd;
typedef struct { Cd* c; uint64_t gen; } Cw;
static int cd_pred(void* a) { Cw* w = a; return w->c->gen != w->gen; }
void __wrap_g_cond_init(void* c) { memset(c, 0, 16); }
void __wrap_g_cond_clear(void* c) { memset(c, 0, 16); }
void __wrap_g_cond_broadcast(void* c) { ((Cd*)c)->gen++; }
void __wrap_g_cond_signal(void* c) { ((Cd*)c)->gen++; } // wakes all: allowed (spurious wakeups)
int __wrap_g_cond_wait_until(void* c, void* m, int64_t end) {
    Cw w = { c, ((Cd*)c)->gen }; Mx* x = m;
    long d = end - 1000000000L;
    if (d < 1) d = 1;
    x->owner = 0; x->h = (uint32_t)(*myhist() >> 16) | 1;
    int r = rt_block_until(cd_pred, &w, d, "condition with timeout");
    rt_event(r ? 0xC1 : 0xC2);
    mx_acquire(x);
    return r;
}
void __wrap_g_cond_wait(void* c, void* m) {
    Cw w = { c, ((Cd*)c)->gen }; Mx* x = m;
    x->owner = 0; x->h = (uint32_t)(*myhist() >> 16) | 1;
    rt_block(cd_pred, &w, "condition");
    rt_event(0xC3);
    mx_acquire(x);
}
// ---- time
int64_t __wrap_g_get_monotonic_time(void) { return 1000000000L + rt_time_us; }
static int never(void* a) { (void)a; return 0; }
void __wrap_g_usleep(unsigned long us) { if (us) rt_block_until(never, 0, rt_time_us + us, "sleep"); else rt_yield("sleep"); }
// ---- threads
#define MAXGT 400
static struct { void* (*f)(void*); void* d; void* res; int done; uint64_t h; } gt[MAXGT]; static int ngt;
static void gt_run(void* a) { int i = (int)(intptr_t)a; gt[i].res = gt[i].f(gt[i].d); gt[i].done = 1; gt[i].h = *myhist(); }
static int gt_done(void* a) { return gt[(intptr_t)a].done; }
void* __wrap_g_thread_new(const char* name, void* (*f)(void*), void* d) {
    (void)name; if (ngt >= MAXGT) rt_fail("threads:too-many", "more than %d threads created", MAXGT);
    int i = ngt++; gt[i].f = f; gt[i].d = d; gt[i].done = 0;
    rt_spawn(gt_run, (void*)(intptr_t)i); rt_yield("thread creation");
    return (void*)(intptr_t)(i + 1);
}
void* __wrap_g_thread_join(void* t) {
    int i = (int)(intptr_t)t - 1;
    if (i < 0 || i >= ngt) rt_fail("threads:bad-join", "join of invalid thread");
    rt_block(gt_done, (void*)(intptr_t)i, "join"); rt_event(gt[i].h);
    return gt[i].res;
}
// ---- thread pools
#define MAXPOOL 64
typedef struct Task { struct Task* next; void* data; uint64_t h; } Task;
typedef struct { void (*f)(void*, void*); void* ud; int max, nthr, idle, freed, used; Task *head, *tail; int len; uint64_t h; } Pool;
static Pool pool[MAXPOOL]; static int npool;
static int pl_wake(void* a) { Pool* p = a; return p->head != 0 || p->freed; }
static int pl_end(void* a) { Pool* p = a; return p->nthr == 0; }
static void pl_run(void* a) {
    Pool* p = a;
    for (;;) {
        if (!p->head) { if (p->freed) break; p->idle++; rt_block(pl_wake, p, "idle pool thread"); p->idle--; if (!p->head) { if (p->freed) break; continue; } }
        Task* t = p->head; p->head = t->next; if (!p->head) p->tail = 0; p->len--;
        void* d = t->data; rt_event(t->h); rt_event(p->h); p->h = mixh(p->h, *myhist()); free(t);
        p->f(d, p->ud);
    }
    p->nthr--; p->h = mixh(p->h, *myhist());
}
void* __wrap_g_thread_pool_new(void (*f)(void*, void*), void* ud, int max, int excl, void** err) {
    (void)excl; (void)err; int i;
    for (i = 0; i < npool; i++) if (!pool[i].used) break;
    if (i == npool) { if (npool >= MAXPOOL) rt_fail("threads:too-many-pools", "more than %d thread pools", MAXPOOL); npool++; }
    memset(&pool[i], 0, sizeof(Pool)); pool[i].f = f; pool[i].ud = ud; pool[i].max = max; pool[i].used = 1; pool[i].h = 0x900;
    if (max == 0) rt_fail("threads:pool-without-threads", "thread pool without threads");
    return &pool[i];
}
int __wrap_g_thread_pool_push(void* vp, void* data, void** err) {
    Pool* p = vp; (void)err;
    if (p < pool || p >= pool + MAXPOOL || !p->used || p->freed) rt_fail("threads:bad-pool", "task pushed to freed thread pool");
    rt_yield("push to thread pool");
    Task* t = malloc(sizeof *t); t->next = 0; t->data = data; t->h = *myhist(); rt_event(p->h); p->h = mixh(p->h, *myhist());
    if (p->tail) p->tail->next = t; else p->head = t;
    p->tail = t; p->len++;
    if (p->idle < p->len && (p->max < 0 || p->nthr < p->max)) { p->nthr++; rt_spawn(pl_run, p); }
    return 1;
}
void __wrap_g_thread_pool_free(void* vp, int immediate, int wait) {
    Pool* p = vp;
    if (immediate) while (p->head) { Task* t = p->head; p->head = t->next; free(t); }
    p->freed = 1; rt_yield("end of thread pool");
    if (wait) rt_block(pl_end, p, "end of thread pool");
    rt_event(p->h); p->used = 0;
}
// ---- asynchronous queues (never used for waiting)
typedef struct { void* d[256]; int n; void (*destroy)(void*); uint64_t h; } Aq;
static Aq* aq[64]; static int naq;
void* __wrap_g_async_queue_new_full(void (*destroy)(void*)) {
    if (naq >= 64) rt_fail("threads:too-many-queues", "too many queues");
    Aq* q = calloc(1, sizeof *q); q->destroy = destroy; q->h = 0xA; return aq[naq++] = q;
}
void __wrap_g_async_queue_push(void* v, void* d) {
    Aq* q = v; rt_yield("push to queue");
    if (q->n >= 256) rt_fail("threads:queue-overflow", "queue with more than 256 entries");
    q->d[q->n++] = d; rt_event(q->h); q->h = mixh(q->h, *myhist());
}
void* __wrap_g_async_queue_try_pop(void* v) {
    Aq* q = v; rt_yield("pop from queue"); rt_event(q->h); q->h = mixh(q->h, *myhist());
    if (!q->n) return 0;
    void* d = q->d[0]; memmove(q->d, q->d + 1, sizeof(void*) * --q->n); return d;
}
void __wrap_g_async_queue_unref(void* v) { Aq* q = v; for (int i = 0; i < q->n; i++) if (q->destroy) q->destroy(q->d[i]); q->n = 0; }
// ---- configuration files: the name selects one of the configurations below
static const struct { const char* name; long in, out; int ct, st, cc, sc; double rt; int as; } cfgs[] = {
    { "default",            1<<24, 1<<24, 2, 2, 64, 64, 0.0, 1 },
    { "no inbox",           0,     1<<24, 1, 1, 64, 64, 0.0, 1 },
    { "no outbox",          1<<24, 0,     1, 1, 64, 64, 0.0, 0 },
    { "no buffers",         0,     0,     2, 1, 64, 64, 0.0, 1 },
    { "unlimited",          -1,    -1,    1, 1, 64, 64, 0.0, 0 },
    { "small, reconnect",   9,     9,     2, 2, 0,  2,  0.0, 1 },
    { "wait first",         8,     8,     1, 1, 64, 64, 0.05, 1 },
    { "no inbox, reconnect",0,     -1,    1, 2, 0,  0,  0.0, 1 },
};
#define NCFG ((int)(sizeof cfgs / sizeof cfgs[0]))
const char* rt_tcp_config_name(int c) { return c < 0 || c >= NCFG ? "?" : cfgs[c].name; }
static char cfgfile[64];
void* __wrap_g_file_new_for_commandline_arg(const char* n) { snprintf(cfgfile, sizeof cfgfile, "%s", n); return cfgfile; }
int __wrap_g_file_load_contents(void* f, void* cc, char** data, size_t* len, char** etag, void** err) {
    (void)f; (void)cc; (void)etag; (void)err;
    char b[4000]; int x = atoi(cfgfile); if (x < 0 || x >= NCFG) x = 0;
    int l = sprintf(b, "[addresses]\n");
    for (int i = 0; i < rt_scen->nranks; i++) l += sprintf(b + l, "rank%d = laik-test-%d\n", i, i);
    sprintf(b + l, "[general]\nclient_threads = %d\nserver_threads = %d\nclient_connections = %d\nserver_connections = %d\n"
        "inbox_size = %ld\noutbox_size = %ld\nreceive_timeout = %g\nreceive_delay = 0.1\nsend_delay = 0.1\nminimpi_async_split = %s\n",
        cfgs[x].ct, cfgs[x].st, cfgs[x].cc, cfgs[x].sc, cfgs[x].in, cfgs[x].out, cfgs[x].rt, cfgs[x].as ? "true" : "false");
    *data = strdup(b); *len = strlen(b); return 1; // g_free uses free
}
void __wrap_g_object_unref(void* o) { if (o != cfgfile) rt_fail("glib:unref", "unexpected object"); }
int __wrap_g_file_set_contents(const char* p, const char* c, long n, void** e) { (void)p; (void)c; (void)n; (void)e; return 1; }
int __wrap_getppid(void) { return 999; }

void mock_glib_reset(void) {
    for (int i = 0; i < npool; i++) while (pool[i].head) { Task* t = pool[i].head; pool[i].head = t->next; free(t); }
    for (int i = 0; i < naq; i++) free(aq[i]);
    naq = npool = ngt = 0;
}
