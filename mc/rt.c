// Runtime of the explorer: stateless enumeration of the choice tree over the
// real LAIK code. One copy of the rank library per process ("rank"), every
// rank is a coroutine; nothing runs unless scheduled here.
#define _GNU_SOURCE
#include "rtpriv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <setjmp.h>
#include <signal.h>
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <time.h>
#include <fcntl.h>
#include <errno.h>
#include <ucontext.h>

// ------------------------------------------------------------------ context
void rt_switch(void** save, void* load);
__asm__(
".text\n.globl rt_switch\n.type rt_switch,@function\nrt_switch:\n"
"  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
"  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
"  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n");

Rank rt_ranks[RT_MAXTHR];
int rt_cur = -1, rt_thr = -1, rt_nextra;
static uint64_t done_hash;
static void* main_sp;
static jmp_buf main_jmp;
static int main_jmp_valid;
RtScen rt_scen_s; RtScen* rt_scen = &rt_scen_s;
#define SHARED_SIZE (1<<17)
char rt_shared_buf[SHARED_SIZE]; void* rt_shared = rt_shared_buf;
int rt_replay_mode, rt_verbose;

int rt_failed;
static FILE* errf;
long rt_time_us;

int rt_rank(void) { return rt_cur; }
int rt_nranks(void) { return rt_scen->nranks; }
int rt_replaying(void) { return rt_verbose; }

// ------------------------------------------------------------------ hashing
uint64_t rt_hash(uint64_t h, const void* p, size_t len) {
    const unsigned char* c = p;
    h ^= 0x9E3779B97F4A7C15ULL + len;
    while (len >= 8) { uint64_t v; memcpy(&v, c, 8); h = (h ^ v) * 0xff51afd7ed558ccdULL; h ^= h >> 32; c += 8; len -= 8; }
    while (len--) { h = (h ^ *c++) * 0x100000001b3ULL; h ^= h >> 29; }
    return h;
}
static uint64_t mix(uint64_t a, uint64_t b) { return rt_hash(a, &b, 8); }

// hash set of visited states -> remaining budget
static uint64_t* hs_key; static signed char* hs_val; static size_t hs_cap = 1u << 22, hs_used;
static long n_states, n_states_dropped;
static int hs_lookup(uint64_t k, int budget) { // 1: known with >= budget
    if (!hs_key) {
        hs_key = mmap(0, hs_cap * 8, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        hs_val = mmap(0, hs_cap, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    }
    if (!k) k = 1;
    size_t i = (k * 0x9E3779B97F4A7C15ULL) >> 20 & (hs_cap - 1);
    while (hs_key[i] && hs_key[i] != k) i = (i + 1) & (hs_cap - 1);
    if (hs_key[i] == k) {
        if (hs_val[i] >= budget) return 1;
        hs_val[i] = budget; return 0;
    }
    if (hs_used * 4 > hs_cap * 3) {
        // table full: forget (only costs pruning and undercounts states)
        if (hs_cap < (1u << 26)) {
            size_t oc = hs_cap; uint64_t* ok = hs_key; signed char* ov = hs_val;
            hs_cap *= 4; hs_key = 0; hs_used = 0;
            hs_lookup(k, budget);
            for (size_t j = 0; j < oc; j++) if (ok[j]) {
                size_t q = (ok[j] * 0x9E3779B97F4A7C15ULL) >> 20 & (hs_cap - 1);
                while (hs_key[q] && hs_key[q] != ok[j]) q = (q + 1) & (hs_cap - 1);
                if (!hs_key[q]) hs_used++;
                hs_key[q] = ok[j]; hs_val[q] = ov[j];
            }
            munmap(ok, oc * 8); munmap(ov, oc);
            return 0;
        }
        n_states_dropped++; n_states++; return 0;
    }
    hs_key[i] = k; hs_val[i] = budget; hs_used++; n_states++;
    return 0;
}
static uint64_t scen_hash;
void rt_state(uint64_t h) { hs_lookup(mix(scen_hash ^ 0x77, h), 0); }
static long counters[RTC_N];
void rt_count(int c, long n) { counters[c] += n; }

// ------------------------------------------------------------------ choices
typedef struct { int n, cur; short cost; char input; } Choice;
#define MAXCH 200000
static Choice* ch; static int ch_len, ch_pos, ch_prefix;
static int devs_used;
static long n_choices;
static int replay_strict;

static int choice(int n, int cost, int input) {
    if (n <= 1) return 0;
    if (ch_pos < ch_len) {
        Choice* c = &ch[ch_pos++];
        if (c->n != n && c->n != 0) {
            if (!rt_replay_mode) {
                fprintf(errf ? errf : stderr, "explorer: nondeterministic execution (choice %d: %d vs %d options)\n", ch_pos-1, c->n, n);
                // report as an engine error
                _exit(4);
            }
        }
        c->n = n; c->cost = cost; c->input = input;
        if (c->cur >= n) c->cur = n-1;
        if (!input && c->cur) devs_used += cost;
        return c->cur;
    }
    if (!input && rt_replay_mode) return 0;
    if (ch_len >= MAXCH) { fprintf(errf ? errf : stderr, "explorer: choice stack overflow\n"); _exit(4); }
    ch[ch_len].n = n; ch[ch_len].cur = 0; ch[ch_len].cost = cost; ch[ch_len].input = input;
    ch_len++; ch_pos++; n_choices++;
    return 0;
}
int rt_in(int n) { return choice(n, 0, 1); }
int rt_in_range(int lo, int hi) { return hi <= lo ? lo : lo + choice(hi - lo + 1, 0, 1); }
int rt_dev_left(void) { return rt_scen->dev_bound - devs_used; }
int rt_choose(int n, int cost) {
    if (n <= 1) return 0;
    // an alternative that does not fit into the budget is no alternative:
    // do not record (deterministic, as devs_used depends on the prefix only)
    if (devs_used + cost > rt_scen->dev_bound) return 0;
    return choice(n, cost, 0);
}
// advance to the next leaf; input_only: drop the schedule part first.
// returns 0 if done, 1 if only schedule part changed, 2 if the input changed
static int advance(int input_only) {
    while (ch_len > 0) {
        Choice* c = &ch[ch_len - 1];
        if (!c->input && input_only) { ch_len--; continue; }
        if (c->cur + 1 < c->n) { c->cur++; return c->input ? 2 : 1; }
        ch_len--;
    }
    return 0;
}

// ------------------------------------------------------------------ verdict
static char f_key[600], f_msg[6000];
void rt_set_budget(long n) { (void)n; }
static void record_fail(const char* key, const char* msg) {
    if (rt_failed) return;
    rt_failed = 1;
    snprintf(f_key, sizeof f_key, "%s", key);
    snprintf(f_msg, sizeof f_msg, "%s", msg);
}
static void leave(void) __attribute__((noreturn));
static void leave(void) {
    if (rt_cur >= 0) {
        void* dummy; rt_cur = -1;
        rt_switch(&dummy, main_sp);
        __builtin_unreachable();
    }
    if (!main_jmp_valid) { fprintf(errf ? errf : stderr, "explorer: failure outside execution: %s %s\n", f_key, f_msg); _exit(4); }
    longjmp(main_jmp, 1);
}
void rt_fail(const char* key, const char* fmt, ...) {
    char b[5000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    char b2[5200]; snprintf(b2, sizeof b2, "rank %d: %s", rt_cur, b);
    record_fail(key, b2);
    leave();
}
void rt_fail_main(const char* key, const char* fmt, ...) {
    char b[5000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    record_fail(key, b);
}
static int skipped;
void rt_skip(void) { skipped = 1; leave(); }
static char ctx_extra[400];
void rt_ctx(const char* fmt, ...) {
    va_list a; va_start(a, fmt); vsnprintf(ctx_extra, sizeof ctx_extra, fmt, a); va_end(a);
}
void rt_log(const char* fmt, ...) {
    if (!rt_verbose) return;
    va_list a; va_start(a, fmt); printf("  [%d] ", rt_cur); vprintf(fmt, a); printf("\n"); va_end(a); fflush(stdout);
}
void rt_setenv(const char* k, const char* v) {
    RtScen* s = rt_scen;
    for (int i = 0; i < s->nenv; i++) if (!strcmp(s->env[i][0], k)) { snprintf(s->env[i][1], 64, "%s", v); return; }
    snprintf(s->env[s->nenv][0], 64, "%s", k); snprintf(s->env[s->nenv][1], 64, "%s", v); s->nenv++;
}

// ------------------------------------------------------------------ arena
#define ARENA_SIZE (512ul << 20)
static char* arena; static unsigned char* shadow; // shadow: 0 ok, else poison
static size_t a_used, a_peak;
typedef struct { uint32_t off, size; short rank; char live; char pad; } Block;
static Block* blk; static int blk_n, blk_cap;
static long live_blocks[RT_MAXRANKS + 1], live_bytes[RT_MAXRANKS + 1];
static long acc_count, acc_limit;
#define IN_ARENA(p) ((size_t)((char*)(p) - arena) < ARENA_SIZE)

static void arena_init(void) {
    arena = mmap(0, ARENA_SIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    shadow = mmap(0, ARENA_SIZE + 64, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || shadow == MAP_FAILED) { perror("mmap"); _exit(4); }
    // shadow uses inverted meaning on disk: fresh zero pages would mean "ok";
    // we use 1 = accessible, everything else not.
    blk_cap = 1 << 16; blk = malloc(blk_cap * sizeof(Block));
}
static void arena_reset(void) {
    if (a_used > a_peak) a_peak = a_used;
    if (a_used > (8u << 20)) {
        madvise(arena + (8u<<20), a_used - (8u<<20), MADV_DONTNEED);
        madvise(shadow + (8u<<20), a_used - (8u<<20) + 64, MADV_DONTNEED);
    }
    size_t n = a_used < (8u<<20) ? a_used : (8u<<20);
    memset(shadow, 0, n);
    a_used = 0; blk_n = 0;
    memset(live_blocks, 0, sizeof live_blocks); memset(live_bytes, 0, sizeof live_bytes);
}
static void* a_alloc(size_t size, int fill) {
    size_t need = ((size + 15) & ~15ul) + 32;
    if (size > (1ul << 31) || a_used + need + 64 > ARENA_SIZE) {
        if (rt_cur >= 0) rt_fail("mem:exhausted", "allocation of %zu bytes does not fit the arena", size);
        fprintf(stderr, "arena exhausted\n"); _exit(4);
    }
    size_t off = a_used + 16; a_used += need;
    if (blk_n == blk_cap) { blk_cap *= 2; blk = realloc(blk, blk_cap * sizeof(Block)); }
    Block* b = &blk[blk_n++];
    b->off = off; b->size = size; b->rank = rt_cur; b->live = 1;
    live_blocks[rt_cur + 1]++; live_bytes[rt_cur + 1] += size;
    memset(shadow + off, 1, size);
    memset(arena + off, fill, size);
    return arena + off;
}
static Block* a_find(const void* p) { // block whose region starts at or before p
    size_t off = (char*)p - arena;
    int lo = 0, hi = blk_n - 1, r = -1;
    while (lo <= hi) { int m = (lo + hi) / 2; if (blk[m].off <= off) { r = m; lo = m + 1; } else hi = m - 1; }
    return r < 0 ? 0 : &blk[r];
}
static void describe_addr(const void* p, char* out, size_t n) {
    Block* b = a_find(p);
    if (!b) snprintf(out, n, "before first block");
    else snprintf(out, n, "offset %ld of a %s block of %u bytes", (long)((char*)p - arena) - (long)b->off, b->live ? "live" : "freed", b->size);
}
static void bad_access(const char* what, const void* p, size_t len, void* pc) {
    char d[200]; describe_addr(p, d, sizeof d);
    Dl_info di; const char* fn = "?";
    if (dladdr(pc, &di) && di.dli_sname) fn = di.dli_sname;
    char key[300]; 
    Block* b = a_find(p);
    snprintf(key, sizeof key, "mem:%s:%s", (b && !b->live && (size_t)((char*)p - arena) < (size_t)b->off + b->size) ? "use-after-free" : "out-of-bounds", fn);
    rt_fail(key, "%s of %zu bytes in %s at %s", what, len, fn, d);
}
static inline __attribute__((always_inline)) int mem_bad(const void* p, size_t n) {
    unsigned char* s = shadow + ((char*)p - arena);
    for (size_t i = 0; i < n; i++) if (s[i] != 1) return 1;
    return 0;
}
// static objects of the library (offset and size from its symbol table)
static struct { size_t off, size; } *gobj; static int gobj_n; static uintptr_t libbase[RT_MAXRANKS];
static int gobj_cmp(const void* a, const void* b) { size_t x = *(const size_t*)a, y = *(const size_t*)b; return x < y ? -1 : x > y; }
static void gobj_load(const char* lib) {
    char f[600]; snprintf(f, sizeof f, "%s.sym", lib); FILE* h = fopen(f, "r"); if (!h) return;
    char l[1000]; int cap = 0; unsigned long o, z; char t;
    while (fgets(l, sizeof l, h)) if (sscanf(l, "%lx %lx %c", &o, &z, &t) == 3 && strchr("bBdD", t)) {
        if (gobj_n == cap) { cap = cap ? cap * 2 : 256; gobj = realloc(gobj, cap * sizeof *gobj); }
        gobj[gobj_n].off = o; gobj[gobj_n++].size = z;
    }
    fclose(h); qsort(gobj, gobj_n, sizeof *gobj, gobj_cmp);
}
static void check_static(const char* what, const void* p, size_t n, void* pc) {
    if (!gobj_n || !libbase[rt_cur]) return;
    uintptr_t o = (uintptr_t)p - libbase[rt_cur]; if ((uintptr_t)p < libbase[rt_cur] || o < gobj[0].off || o >= gobj[gobj_n - 1].off + gobj[gobj_n - 1].size) return;
    int lo = 0, hi = gobj_n - 1, r = -1;
    while (lo <= hi) { int m = (lo + hi) / 2; if (gobj[m].off <= o) { r = m; lo = m + 1; } else hi = m - 1; }
    if (o < gobj[r].off + gobj[r].size && o + n > gobj[r].off + gobj[r].size) {
        Dl_info di; const char* fn = "?"; if (dladdr(pc, &di) && di.dli_sname) fn = di.dli_sname;
        char key[300]; snprintf(key, sizeof key, "mem:out-of-bounds:%s", fn);
        rt_fail(key, "%s of %zu bytes in %s at offset %zu of a static object of %zu bytes", what, n, fn, (size_t)(o - gobj[r].off), gobj[r].size);
    }
}
static void check_range(const char* what, const void* p, size_t n, void* pc) {
    if (n == 0 || rt_cur < 0) return;
    if (!IN_ARENA(p)) { if (n > 1) check_static(what, p, n, pc); return; }
    if ((size_t)((char*)p - arena) + n > ARENA_SIZE) bad_access(what, p, n, pc);
    unsigned char* s = shadow + ((char*)p - arena);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, s + i, 8); if (v != 0x0101010101010101ULL) bad_access(what, p, n, pc); }
    for (; i < n; i++) if (s[i] != 1) bad_access(what, p, n, pc);
}
static void livelock(void) {
    acc_limit = acc_count + 100000000L;
    if (rt_cur >= 0) rt_fail("livelock", "execution exceeded %ld memory accesses", acc_count);
}
#define HOOK(N) \
void __asan_load##N##_noabort(void* p) { if (++acc_count > acc_limit) livelock(); if (IN_ARENA(p) && mem_bad(p, N) && rt_cur >= 0) bad_access("read", p, N, __builtin_return_address(0)); } \
void __asan_store##N##_noabort(void* p) { if (++acc_count > acc_limit) livelock(); if (IN_ARENA(p) && mem_bad(p, N) && rt_cur >= 0) bad_access("write", p, N, __builtin_return_address(0)); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
void __asan_loadN_noabort(void* p, size_t n) { if (++acc_count > acc_limit) livelock(); check_range("read", p, n, __builtin_return_address(0)); }
void __asan_storeN_noabort(void* p, size_t n) { if (++acc_count > acc_limit) livelock(); check_range("write", p, n, __builtin_return_address(0)); }
void __asan_handle_no_return(void) {}

void* __wrap_malloc(size_t n) { return a_alloc(n, 0xA5); }
void* __wrap_calloc(size_t a, size_t b) { return a_alloc(a * b, 0); }
void __wrap_free(void* p) {
    if (!p) return;
    if (!IN_ARENA(p)) { free(p); return; }
    Block* b = a_find(p);
    if (!b || arena + b->off != (char*)p || !b->live) {
        char d[200]; describe_addr(p, d, sizeof d);
        Dl_info di; const char* fn = "?"; if (dladdr(__builtin_return_address(0), &di) && di.dli_sname) fn = di.dli_sname;
        char key[300]; snprintf(key, sizeof key, "mem:bad-free:%s", fn);
        rt_fail(key, "free of %s", d);
    }
    b->live = 0; live_blocks[b->rank + 1]--; live_bytes[b->rank + 1] -= b->size;
    memset(shadow + b->off, 0xFD, b->size);
    memset(arena + b->off, 0xDD, b->size);
}
void* __wrap_realloc(void* p, size_t n) {
    if (!p) return a_alloc(n, 0xA5);
    if (!IN_ARENA(p)) return realloc(p, n);
    Block* b = a_find(p);
    if (!b || arena + b->off != (char*)p || !b->live) __wrap_free(p);
    size_t os = b->size;
    char* q = a_alloc(n, 0xA5);
    memcpy(q, p, os < n ? os : n);
    __wrap_free(p);
    return q;
}
int __wrap_posix_memalign(void** r, size_t al, size_t n) { (void)al; *r = a_alloc(n, 0xA5); return 0; }
void* __wrap_aligned_alloc(size_t al, size_t n) { (void)al; return a_alloc(n, 0xA5); }
char* __wrap_strdup(const char* s) {
    size_t n = strlen(s) + 1; check_range("strdup", s, n, __builtin_return_address(0));
    char* q = a_alloc(n, 0); memcpy(q, s, n); return q;
}
char* __wrap_strndup(const char* s, size_t m) {
    size_t n = strnlen(s, m); check_range("strndup", s, n, __builtin_return_address(0));
    char* q = a_alloc(n + 1, 0); memcpy(q, s, n); return q;
}
#define RA __builtin_return_address(0)
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    check_range("memcpy read", s, n, RA); check_range("memcpy write", d, n, RA);
    if (n && rt_cur >= 0) { size_t df = (char*)d > (char*)s ? (char*)d - (char*)s : (char*)s - (char*)d;
        if (df != 0 && df < n) { Dl_info di; const char* fn = "?"; if (dladdr(RA, &di) && di.dli_sname) fn = di.dli_sname;
            char k[200]; snprintf(k, sizeof k, "mem:overlapping-memcpy:%s", fn); rt_fail(k, "memcpy with overlapping regions in %s", fn); } }
    return memmove(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) { check_range("memmove read", s, n, RA); check_range("memmove write", d, n, RA); return memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { check_range("memset", d, n, RA); return memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { check_range("memcmp", a, n, RA); check_range("memcmp", b, n, RA); return memcmp(a, b, n); }
char* __wrap_strcpy(char* d, const char* s) { size_t n = strlen(s) + 1; check_range("strcpy read", s, n, RA); check_range("strcpy write", d, n, RA); return memmove(d, s, n); }
char* __wrap_strncpy(char* d, const char* s, size_t m) { size_t n = strnlen(s, m); check_range("strncpy read", s, n, RA); check_range("strncpy write", d, m, RA); return strncpy(d, s, m); }
size_t __wrap_strlen(const char* s) { if (!s) rt_fail("crash:strlen-null", "strlen(NULL)"); size_t n = strlen(s); check_range("strlen", s, n + 1, RA); return n; }
int __wrap_strcmp(const char* a, const char* b) { if (!a || !b) rt_fail("crash:strcmp-null", "strcmp(NULL)"); if (IN_ARENA(a)) check_range("strcmp", a, 1, RA); if (IN_ARENA(b)) check_range("strcmp", b, 1, RA); return strcmp(a, b); }
int __wrap_vsprintf(char* d, const char* f, va_list a) {
    char t[65536]; int n = vsnprintf(t, sizeof t, f, a); if (n >= (int)sizeof t) n = sizeof t - 1;
    check_range("sprintf", d, n + 1, RA); memcpy(d, t, n + 1); return n;
}
int __wrap_sprintf(char* d, const char* f, ...) {
    char t[65536]; va_list a; va_start(a, f); int n = vsnprintf(t, sizeof t, f, a); va_end(a);
    if (n >= (int)sizeof t) n = sizeof t - 1;
    check_range("sprintf", d, n + 1, RA); memcpy(d, t, n + 1); return n;
}
int __wrap_snprintf(char* d, size_t m, const char* f, ...) {
    va_list a; va_start(a, f); 
    if (d && m) check_range("snprintf", d, 1, RA);
    int n = vsnprintf(d, m, f, a); va_end(a);
    if (d && m) check_range("snprintf", d, (size_t)n + 1 < m ? (size_t)n + 1 : m, RA);
    return n;
}
int __wrap_sprintf_chk(char* d, const char* f, ...);
void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
    const char* b = strrchr(f, '/'); 
    char key[600]; snprintf(key, sizeof key, "assert:%s:%s", fn ? fn : "?", e);
    rt_fail(key, "assertion failed at %s:%u (%s): %s", b ? b + 1 : f, l, fn, e);
}
void __wrap___stack_chk_fail(void) {
    Dl_info di; const char* fn = "?"; if (dladdr(RA, &di) && di.dli_sname) fn = di.dli_sname;
    char k[200]; snprintf(k, sizeof k, "mem:stack-smash:%s", fn); rt_fail(k, "stack buffer overflow in %s", fn);
}
void __wrap_abort(void) { rt_fail("crash:abort", "abort() called"); }
static void end_threads(int r) { for (int i = RT_MAXRANKS; i < RT_MAXRANKS + rt_nextra; i++) if (rt_ranks[i].id == r && rt_ranks[i].state != RS_DONE) rt_ranks[i].state = RS_EXITED; }
void __wrap_exit(int code) {
    if (rt_cur < 0) _exit(4);
    if (!rt_scen->allow_exit) {
        Dl_info di; const char* fn = "?"; if (dladdr(RA, &di) && di.dli_sname) fn = di.dli_sname;
        char k[200]; snprintf(k, sizeof k, "exit:%s", fn);
        rt_fail(k, "exit(%d) called from %s", code, fn);
    }
    rt_ranks[rt_cur].exitcode = code; rt_ranks[rt_cur].state = RS_EXITED; end_threads(rt_cur);
    leave();
}
void __wrap__exit(int code) { __wrap_exit(code); }
char* __wrap_getenv(const char* n) {
    for (int i = 0; i < rt_scen->nenv; i++) if (!strcmp(rt_scen->env[i][0], n)) return rt_scen->env[i][1];
    return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void* tz) { (void)tz; if (!rt_nextra) rt_time_us += 7; tv->tv_sec = 1000 + rt_time_us / 1000000; tv->tv_usec = rt_time_us % 1000000; return 0; }
int __wrap_clock_gettime(int c, struct timespec* ts) { (void)c; if (!rt_nextra) rt_time_us += 7; ts->tv_sec = 1000 + rt_time_us / 1000000; ts->tv_nsec = rt_time_us % 1000000 * 1000; return 0; }
int __wrap_getpid(void) { return 1000 + rt_cur; }
unsigned __wrap_sleep(unsigned s) { rt_time_us += s * 1000000L; rt_yield("sleep"); return 0; }
int __wrap_usleep(unsigned s) { rt_time_us += s; rt_yield("sleep"); return 0; }

long rt_live_blocks(int r) { return live_blocks[r + 1]; }
long rt_live_bytes(int r) { return live_bytes[r + 1]; }
int rt_mem_ok(const void* p, size_t n) { if (!IN_ARENA(p)) return -1; return !mem_bad(p, n); }
long rt_mem_left(const void* p) {
    if (!IN_ARENA(p)) return -1;
    Block* b = a_find(p); if (!b || !b->live) return -1;
    long l = (long)b->off + b->size - ((char*)p - arena); return l < 0 ? -1 : l;
}
void rt_mem_poison(void* p, size_t n) { if (IN_ARENA(p)) memset(shadow + ((char*)p - arena), 0xFA, n); }
void rt_mem_unpoison(void* p, size_t n) { if (IN_ARENA(p)) memset(shadow + ((char*)p - arena), 1, n); }
void* rt_malloc(size_t n) { int c = rt_cur; rt_cur = -1; void* p = a_alloc(n, 0xA5); rt_cur = c; return p; }
void rt_free(void* p) { __wrap_free(p); }

// ------------------------------------------------------------------ ranks
typedef struct { const char* name; void (*gen)(int tier); void (*rank_main)(void); void (*end)(void); } RtModule;
typedef struct {
    void* h; const RtModule* mods; int nmods;
    struct { char* p; size_t n; char* snap; int zero; } seg[8]; int nseg;
} Copy;
static Copy copies[RT_MAXRANKS]; static int ncopies;
static char libpath[500], copydir[300];

static uintptr_t covbase[RT_MAXRANKS]; static unsigned char* covmap; // developers only, see tools/cov.py
void __sanitizer_cov_trace_pc(void) { uintptr_t o = (uintptr_t)__builtin_return_address(0) - covbase[rt_cur < 0 ? 0 : rt_cur]; if (covmap && rt_cur >= 0 && o < (1ul << 23)) covmap[o] = 1; }
static void cov_init(void) {
    const char* f = getenv("MC_COVFILE"); if (!f) return;
    int fd = open(f, O_RDWR | O_CREAT, 0666); if (fd < 0 || ftruncate(fd, 1l << 23)) return;
    covmap = mmap(0, 1l << 23, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (covmap == MAP_FAILED) covmap = 0;
}
static int phdr_cb(struct dl_phdr_info* i, size_t s, void* d) {
    (void)s; Copy* c = d; struct link_map* lm; dlinfo(c->h, RTLD_DI_LINKMAP, &lm);
    if ((char*)i->dlpi_addr != (char*)lm->l_addr) return 0;
    uintptr_t ro_s = 0, ro_e = 0; libbase[ncopies] = covbase[ncopies] = i->dlpi_addr; if (!ncopies) cov_init();
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
        ro_s = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; ro_e = (ro_s + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ul; }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr)* p = &i->dlpi_phdr[k];
        if (p->p_type != PT_LOAD || !(p->p_flags & PF_W)) continue;
        uintptr_t s0 = i->dlpi_addr + p->p_vaddr, fe = s0 + p->p_filesz, e = s0 + p->p_memsz;
        if (ro_e > s0 && ro_s <= s0) s0 = ro_e;
        uintptr_t fpe = (fe + 4095) & ~4095ul; // end of file-backed pages
        if (fpe > e) fpe = e;
        if (fpe > s0) { c->seg[c->nseg].p = (char*)s0; c->seg[c->nseg].n = fpe - s0; c->seg[c->nseg].zero = 0; c->nseg++; }
        if (e > fpe) { c->seg[c->nseg].p = (char*)fpe; c->seg[c->nseg].n = e - fpe; c->seg[c->nseg].zero = 1; c->nseg++; }
    }
    return 1;
}
static void need_copies(int n) {
    if (!ncopies) gobj_load(libpath);
    while (ncopies < n) {
        Copy* c = &copies[ncopies];
        char path[900];
        snprintf(path, sizeof path, "%s/r%d.so", copydir, ncopies);
        FILE* f = fopen(libpath, "rb"); FILE* g = fopen(path, "wb");
        if (!f || !g) { perror(libpath); _exit(4); }
        static char buf[1 << 16]; size_t r;
        while ((r = fread(buf, 1, sizeof buf, f)) > 0) if (fwrite(buf, 1, r, g) != r) { perror("copy"); _exit(4); }
        fclose(f); fclose(g);
        c->h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
        if (!c->h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(4); }
        unlink(path);
        c->mods = dlsym(c->h, "rt_modules");
        dl_iterate_phdr(phdr_cb, c);
        for (int i = 0; i < c->nseg; i++) if (!c->seg[i].zero) { c->seg[i].snap = malloc(c->seg[i].n); memcpy(c->seg[i].snap, c->seg[i].p, c->seg[i].n); }
        ncopies++;
    }
}
static void reset_copy(Copy* c) {
    for (int i = 0; i < c->nseg; i++) {
        if (!c->seg[i].zero) memcpy(c->seg[i].p, c->seg[i].snap, c->seg[i].n);
        else if (c->seg[i].n <= 16384) memset(c->seg[i].p, 0, c->seg[i].n);
        else { uintptr_t e = (uintptr_t)c->seg[i].p + c->seg[i].n; madvise(c->seg[i].p, (e + 4095 - (uintptr_t)c->seg[i].p) & ~4095ul, MADV_DONTNEED); }
    }
}
#define STACKSZ (4ul << 20)
static void tramp(void) {
    Rank* k = &rt_ranks[rt_thr];
    if (k->fn) k->fn(k->fnarg);
    else { k->entry(); end_threads(k->id); }
    k = &rt_ranks[rt_thr]; k->state = RS_DONE; k->hist = mix(k->hist, 0xD0);
    leave();
}
static void start_slot(int r, void (*entry)(void)) {
    Rank* k = &rt_ranks[r];
    if (!k->stack) {
        k->stack = mmap(0, STACKSZ, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        mprotect(k->stack, 4096, PROT_NONE);
    }
    k->id = r; k->entry = entry; k->pred = 0; k->fn = 0; k->deadline = 0; k->exitcode = 0; k->hist = 0x1234 + r; k->what = "start";
    void** sp = (void**)(k->stack + STACKSZ - 64);
    *--sp = 0;              // fake return address (alignment)
    *--sp = (void*)tramp;
    for (int i = 0; i < 6; i++) *--sp = 0;
    k->sp = sp; k->state = RS_READY;
}
static void start_rank(int r, void (*entry)(void)) { start_slot(r, entry); }
int rt_spawn(void (*fn)(void*), void* arg) {
    int r = -1;
    for (int i = RT_MAXRANKS; i < RT_MAXRANKS + rt_nextra; i++) if (rt_ranks[i].state == RS_DONE || rt_ranks[i].state == RS_EXITED) { r = i; done_hash += rt_ranks[i].hist; break; }
    if (r < 0) { if (rt_nextra >= RT_MAXTHR - RT_MAXRANKS) rt_fail("threads:too-many", "more than %d threads", rt_nextra); r = RT_MAXRANKS + rt_nextra++; }
    start_slot(r, 0);
    Rank* k = &rt_ranks[r]; Rank* me = &rt_ranks[rt_thr];
    k->id = rt_cur; k->fn = fn; k->fnarg = arg; k->hist = mix(me->hist, 0x7A); me->hist = mix(me->hist, 0x7B);
    return r;
}
static const RtModule* cur_mod;
int rt_heap_lock(void* p) { // not in static memory of a library copy
    for (int c = 0; c < ncopies; c++) for (int i = 0; i < copies[c].nseg; i++) if ((char*)p >= copies[c].seg[i].p && (char*)p < copies[c].seg[i].p + copies[c].seg[i].n) return 0;
    return 1;
}
void rt_start_rank(int r) { // for modules which start ranks later
    need_copies(r + 1); 
    start_rank(r, copies[r].mods[cur_mod - copies[0].mods].rank_main);
    if (r >= rt_scen->nranks) rt_scen->nranks = r + 1;
}
void rt_event(uint64_t h) { if (rt_cur >= 0) rt_ranks[rt_thr].hist = mix(rt_ranks[rt_thr].hist, h); }
static long n_trans;
static int pruned;
uint64_t rt_env_hash; // set by mocks: state of the environment not implied by histories
static int slots(int* l) { // active slots in fixed order
    int n = 0;
    for (int i = 0; i < rt_scen->nranks; i++) l[n++] = i;
    for (int i = 0; i < rt_nextra; i++) l[n++] = RT_MAXRANKS + i;
    return n;
}
uint64_t rt_glob_hash(void) {
    uint64_t h = scen_hash ^ rt_env_hash;
    for (int i = 0; i < rt_scen->nranks; i++) h = mix(h, rt_ranks[i].hist ^ ((uint64_t)rt_ranks[i].state << 60));
    if (rt_nextra) { // which slot a thread uses is irrelevant
        uint64_t t = done_hash;
        for (int i = RT_MAXRANKS; i < RT_MAXRANKS + rt_nextra; i++) t += mix(rt_ranks[i].hist, (uint64_t)rt_ranks[i].state << 60);
        h = mix(mix(h, t), rt_time_us);
    }
    return h;
}
static int enabled(int r) {
    Rank* k = &rt_ranks[r];
    if (k->state == RS_READY) return 1;
    if (k->state == RS_BLOCKED) return k->pred(k->arg) || (k->deadline && rt_time_us >= k->deadline);
    return 0;
}
static long next_deadline(void) {
    long d = 0; int l[RT_MAXTHR], n = slots(l);
    for (int i = 0; i < n; i++) { Rank* k = &rt_ranks[l[i]]; if (k->state == RS_BLOCKED && k->deadline && k->deadline > rt_time_us && (!d || k->deadline < d)) d = k->deadline; }
    return d;
}
// pick next thread; from: slot that just yielded (still enabled) or -1
static int enabled_from(int base, int first, int* opt) {
    int l[RT_MAXTHR], nl = slots(l), n = 0, b = 0;
    if (first >= 0 && enabled(first)) opt[n++] = first;
    for (int i = 0; i < nl; i++) if (l[i] == base) b = i;
    for (int i = first >= 0 ? 1 : 0; i <= nl - (first >= 0 ? 0 : 1); i++) { int r = l[(b + i) % nl]; if (r == first && n && opt[0] == first) continue; if (enabled(r)) opt[n++] = r; }
    return n;
}
static int pick(int from) {
    int opt[RT_MAXTHR], n;
    for (;;) {
        n = enabled_from(from, from, opt);
        if (n == 0) return -1;
        uint64_t h = mix(rt_glob_hash(), opt[0]);
        int seen = hs_lookup(h, rt_dev_left());
        if (seen && !rt_scen->no_prune && ch_pos >= ch_len && !rt_replay_mode && ch_pos >= ch_prefix) { pruned = 1; return -2; }
        long d = rt_nextra ? next_deadline() : 0;
        int c = rt_choose(n + (d ? 1 : 0), 1);
        if (c < n) return opt[c];
        rt_time_us = d; // time passes without anything happening
    }
}
static int last_run;
void rt_yield(const char* what) {
    if (rt_cur < 0) return;
    if (!rt_scen->sched_points) return;
    Rank* k = &rt_ranks[rt_thr];
    k->what = what; k->hist = mix(k->hist, 1);
    int me = rt_thr;
    int r = pick(me);
    if (r == me) return;
    last_run = r;
    rt_cur = -1;
    rt_switch(&k->sp, main_sp);
}
int rt_block_until(int (*pred)(void*), void* arg, long deadline, const char* what) {
    if (rt_cur < 0) return 0;
    Rank* k = &rt_ranks[rt_thr];
    if (pred(arg)) return 1;
    if (deadline && rt_time_us >= deadline) return 0;
    k->hist = mix(k->hist, 2);
    k->state = RS_BLOCKED; k->pred = pred; k->arg = arg; k->what = what; k->deadline = deadline;
    last_run = -1;
    rt_cur = -1;
    rt_switch(&k->sp, main_sp);
    k->deadline = 0;
    return pred(arg);
}
void rt_block(int (*pred)(void*), void* arg, const char* what) { rt_block_until(pred, arg, 0, what); }
// pause: blocked until scheduled again by choice (used by mocks)
static int bar_count, bar_gen;
static int bar_pred(void* a) { return bar_gen != (int)(intptr_t)a; }
void rt_barrier(void) {
    int g = bar_gen;
    int alive = 0; for (int i = 0; i < rt_scen->nranks; i++) if (rt_ranks[i].state != RS_UNUSED) alive++;
    if (++bar_count == alive) { bar_count = 0; bar_gen++; return; }
    rt_block(bar_pred, (void*)(intptr_t)g, "test barrier");
}

// ------------------------------------------------------------------ signals
static void on_sig(int sig, siginfo_t* si, void* uc) {
    (void)uc;
    if (rt_cur < 0) {
        char b[200]; int n = snprintf(b, sizeof b, "explorer: signal %d in explorer context addr %p\n", sig, si->si_addr);
        if (write(2, b, n)) {} 
        if (main_jmp_valid) { record_fail("crash:in-check", b); longjmp(main_jmp, 1); }
        _exit(4);
    }
    ucontext_t* u = uc;
    Dl_info di; const char* fn = "?";
    if (dladdr((void*)u->uc_mcontext.gregs[REG_RIP], &di) && di.dli_sname) fn = di.dli_sname;
    char key[200];
    uintptr_t a = (uintptr_t)si->si_addr;
    Rank* k = &rt_ranks[rt_thr];
    if (sig == SIGVTALRM) snprintf(key, sizeof key, "hang:%s", fn);
    else if (sig == SIGSEGV && a >= (uintptr_t)k->stack && a < (uintptr_t)k->stack + 8192) snprintf(key, sizeof key, "crash:stack-overflow:%s", fn);
    else snprintf(key, sizeof key, "crash:%s:%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGBUS ? "SIGBUS" : "signal", fn);
    rt_fail(key, "%s in %s (address %p)", strsignal(sig), fn, si->si_addr);
}
static long exec_no; static volatile long tick_exec; static volatile int tick_n;
static void on_tick(int sig, siginfo_t* si, void* uc) {
    if (tick_exec != exec_no) { tick_exec = exec_no; tick_n = 0; return; }
    if (++tick_n < 40) return;
    tick_n = 0;
    if (rt_cur >= 0) on_sig(sig, si, uc);
}
static void setup_signals(void) {
    static char alt[65536];
    stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt }; sigaltstack(&ss, 0);
    struct sigaction sa = { 0 }; sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGABRT, &sa, 0);
    sa.sa_sigaction = on_tick; sigaction(SIGVTALRM, &sa, 0);
    struct itimerval it = { { 0, 500000 }, { 0, 500000 } }; setitimer(ITIMER_VIRTUAL, &it, 0);
    signal(SIGPIPE, SIG_IGN);
}

// ------------------------------------------------------------------ execution
static int tier;
static int phase_gen_only;
// returns: 0 ok, 1 violation, 2 skipped scenario
static long n_exec, n_scen, n_skip, n_pruned, n_viol, n_incomplete;
static int run_once(int do_run) {
    exec_no++;
    ch_pos = 0; devs_used = 0; rt_failed = 0; skipped = 0; pruned = 0; ctx_extra[0] = 0;
    f_key[0] = f_msg[0] = 0;
    arena_reset();
    memset(rt_scen, 0, sizeof *rt_scen);
    static size_t shared_used = SHARED_SIZE;
    memset(rt_shared_buf, 0, shared_used);
    rt_time_us = 0; bar_count = 0; bar_gen = 0; rt_cur = -1; rt_env_hash = 0;
    acc_count = 0; acc_limit = 400000000L;
    rt_scen->nranks = 1; 
    main_jmp_valid = 1;
    if (setjmp(main_jmp) == 0) cur_mod->gen(tier);
    main_jmp_valid = 0;
    if (skipped) return 2;
    if (rt_failed) return 1;
    if (rt_scen->maxmem) acc_limit = rt_scen->maxmem;
    if (!do_run) return 0;
    int ninp = ch_pos;
    scen_hash = 0x55; for (int i = 0; i < ninp; i++) scen_hash = mix(scen_hash, ch[i].cur + 1);
    need_copies(rt_scen->nranks);
    for (int r = 0; r < RT_MAXTHR; r++) { rt_ranks[r].state = RS_UNUSED; }
    rt_nextra = 0; done_hash = 0;
    for (int r = 0; r < ncopies; r++) reset_copy(&copies[r]);
    mock_mpi_reset(); mock_sock_reset(); mock_glib_reset();
    n_exec++;
    if (!rt_scen->custom_ranks)
        for (int r = 0; r < rt_scen->nranks; r++) start_rank(r, copies[r].mods[cur_mod - copies[0].mods].rank_main);
    int modidx = cur_mod - copies[0].mods;
    last_run = -1;
    int base = 0;
    while (!rt_failed) {
        int r;
        if (last_run >= 0) { r = last_run; last_run = -1; }
        else {
            rt_cur = -1;
            // default order after a block: next ranks cyclically
            int opt[RT_MAXTHR], n = enabled_from(base, -1, opt);
            long dl = rt_nextra ? next_deadline() : 0;
            if (n == 0) { if (!dl) break; rt_time_us = dl; continue; }
            r = opt[0];
            if (rt_scen->sched_points && n + (dl ? 1 : 0) > 1) {
                uint64_t h = mix(rt_glob_hash(), opt[0] + 100);
                int seen = hs_lookup(h, rt_dev_left());
                if (seen && !rt_scen->no_prune && ch_pos >= ch_len && !rt_replay_mode && ch_pos >= ch_prefix) { pruned = 1; break; }
                int c = rt_choose(n + (dl ? 1 : 0), 1);
                if (c == n) { rt_time_us = dl; continue; }
                r = opt[c];
            } else if (rt_scen->sched_points) hs_lookup(mix(rt_glob_hash(), opt[0] + 100), rt_dev_left());
        }
        n_trans++;
        Rank* k = &rt_ranks[r];
        if (k->state == RS_BLOCKED) { k->state = RS_READY; k->pred = 0; }
        if (rt_verbose > 1) printf("  -> rank %d slot %d (%s)\n", k->id, r, k->what);
        rt_cur = k->id; rt_thr = r;
        rt_switch(&main_sp, k->sp);
        rt_cur = -1;
        base = r;
        if (pruned) break;
        if (rt_failed || skipped) break;
        if (k->state == RS_DONE) hs_lookup(rt_glob_hash(), 0);
    }
    rt_cur = -1;
    if (skipped) return 2;
    if (!rt_failed && !pruned) {
        int unfinished = 0; char b[3000]; b[0] = 0;
        for (int r = 0; r < rt_scen->nranks; r++) if (rt_ranks[r].state == RS_READY || rt_ranks[r].state == RS_BLOCKED) {
            unfinished++; size_t l = strlen(b); if (l > 2800) break; snprintf(b + l, sizeof b - l, "%srank %d blocked in %s", l ? "; " : "", r, rt_ranks[r].what); }
        for (int r = RT_MAXRANKS; unfinished && r < RT_MAXRANKS + rt_nextra; r++) if (rt_ranks[r].state == RS_BLOCKED) {
            size_t l = strlen(b); if (l > 2800) break; snprintf(b + l, sizeof b - l, "; thread of rank %d blocked in %s", rt_ranks[r].id, rt_ranks[r].what); }
        if (unfinished && !rt_scen->allow_unfinished) rt_fail_main("deadlock", "no process can continue: %s", b);
        if (!rt_failed && !unfinished) {
            char k2[200], m2[1000];
            if (mock_mpi_endcheck(k2, m2)) rt_fail_main(k2, "%s", m2);
            else if (mock_sock_endcheck(k2, m2)) rt_fail_main(k2, "%s", m2);
        }
        if (!rt_failed && copies[0].mods[modidx].end) {
            main_jmp_valid = 1;
            if (setjmp(main_jmp) == 0) copies[0].mods[modidx].end();
            main_jmp_valid = 0;
        }
        // final state
        hs_lookup(mix(rt_glob_hash(), 0xF1A1), 0);
    }
    if (pruned) n_pruned++;
    n_trans += 0;
    return rt_failed ? 1 : 0;
}

static void jstr(FILE* o, const char* s) {
    fputc('"', o);
    for (; *s; s++) { unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(o, "\\%c", c);
        else if (c == '\n') fputs("\\n", o);
        else if (c < 32 || c > 126) fprintf(o, "\\u%04x", c);
        else fputc(c, o); }
    fputc('"', o);
}
static void print_choices(FILE* o, Choice* c, int n) { while (n > 0 && !c[n-1].cur) n--; fputc('[', o); for (int i = 0; i < n; i++) fprintf(o, "%s%d", i ? "," : "", c[i].cur); fputc(']', o); }

int main(int argc, char** argv) {
    const char* mod = 0; int shard = 0, nshards = 1; double tlimit = 1e9; const char* replay = 0; int maxdev = -1; int maxviol = 40;
    (void)maxdev;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--lib")) snprintf(libpath, sizeof libpath, "%s", argv[++i]);
        else if (!strcmp(argv[i], "--module")) mod = argv[++i];
        else if (!strcmp(argv[i], "--tier")) tier = !strcmp(argv[++i], "thorough");
        else if (!strcmp(argv[i], "--shard")) sscanf(argv[++i], "%d/%d", &shard, &nshards);
        else if (!strcmp(argv[i], "--time")) tlimit = atof(argv[++i]);
        else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
        else if (!strcmp(argv[i], "--tmp")) snprintf(copydir, sizeof copydir, "%s", argv[++i]);
        else if (!strcmp(argv[i], "--maxviol")) maxviol = atoi(argv[++i]);
        else if (!strcmp(argv[i], "-v")) rt_verbose++;
        else if (!strcmp(argv[i], "--count")) phase_gen_only = 1;
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 4; }
    }
    if (!copydir[0]) strcpy(copydir, "/tmp");
    char d2[200]; snprintf(d2, sizeof d2, "%s/mcXXXXXX", copydir);
    if (!mkdtemp(d2)) { perror("mkdtemp"); return 4; }
    snprintf(copydir, sizeof copydir, "%s", d2);
    arena_init(); setup_signals();
    ch = malloc(sizeof(Choice) * MAXCH);
    need_copies(1);
    for (cur_mod = copies[0].mods; cur_mod->name; cur_mod++) if (mod && !strcmp(cur_mod->name, mod)) break;
    if (!cur_mod->name) { fprintf(stderr, "no module %s\n", mod ? mod : "(none)"); rmdir(copydir); return 4; }
    if (replay) {
        rt_replay_mode = 1; if (!rt_verbose) rt_verbose = 1;
        for (const char* p = replay; *p;) { if (*p >= '0' && *p <= '9') { ch[ch_len].n = 0; ch[ch_len].cur = strtol(p, (char**)&p, 10); ch_len++; } else p++; }
        // scenario choices beyond the given list default to 0
        int r = run_once(1);
        printf("scenario: %s\n", rt_scen->desc);
        if (r == 1) printf("REPLAY: violation %s: %s\n", f_key, f_msg);
        else printf("REPLAY: %s\n", r == 2 ? "skipped" : "no violation");
        rmdir(copydir);
        return r == 1 ? 1 : 0;
    }
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    int complete = 1; long scen_idx = 0; int fresh = 1; 
    char** seen = calloc(maxviol + 1, sizeof(char*)); int nseen = 0;
    FILE* o = fdopen(dup(1), "w"); if (!rt_verbose) { fflush(stdout); errf = fdopen(dup(2), "w"); setvbuf(errf, 0, _IONBF, 0); if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) _exit(4); }
    int samples = 0; long lastexec_of_scen = 0; (void)lastexec_of_scen;
    ch_len = 0; ch_prefix = 0;
    for (;;) {
        int mine = 1;
        if (fresh) {
            // generate to learn whether this is a valid scenario
            ch_prefix = 1 << 30;
            int g = run_once(0);
            if (g == 2) { n_skip++; fresh = 1; int a = advance(1); if (!a) break; continue; }
            mine = (scen_idx++ % nshards) == shard;
            if (mine) n_scen++;
        }
        int viol = 0;
        if (mine && !phase_gen_only) {
            // pruning is allowed only beyond the last changed choice
            ch_prefix = fresh ? 0 : ch_len;
            int r = run_once(1);
            if (r == 1) {
                viol = 1; n_viol++;
                char key[1100]; snprintf(key, sizeof key, "%s|%s%s%s", f_key, rt_scen->context, ctx_extra[0] ? "/" : "", ctx_extra);
                int dup = 0; for (int i = 0; i < nseen; i++) if (!strcmp(seen[i], key)) dup++;
                if (dup < 1 && nseen < maxviol) {
                    seen[nseen++] = strdup(key);
                    char m1[6000], d1[4000], k1[600]; snprintf(m1, sizeof m1, "%s", f_msg); snprintf(d1, sizeof d1, "%s", rt_scen->desc); snprintf(k1, sizeof k1, "%s", f_key);
                    int l = ch_pos; Choice* cp = malloc(sizeof(Choice) * (l + 1)); memcpy(cp, ch, sizeof(Choice) * l);
                    // replay it
                    int save_len = ch_len; ch_len = l; rt_replay_mode = 1;
                    int r2 = run_once(1); int confirmed = r2 == 1 && !strcmp(f_key, k1);
                    rt_replay_mode = 0; ch_len = save_len; memcpy(ch, cp, sizeof(Choice) * l);
                    fprintf(o, "{\"type\":\"violation\",\"confirmed\":%s,\"key\":", confirmed ? "true" : "false"); jstr(o, key);
                    fprintf(o, ",\"msg\":"); jstr(o, m1); fprintf(o, ",\"scenario\":"); jstr(o, d1);
                    fprintf(o, ",\"choices\":"); print_choices(o, cp, l); fprintf(o, "}\n"); fflush(o);
                    free(cp);
                }
            } else if (samples < 3 && n_scen % 97 == 1 && fresh) {
                samples++;
                fprintf(o, "{\"type\":\"sample\",\"scenario\":"); jstr(o, rt_scen->desc);
                fprintf(o, ",\"choices\":"); print_choices(o, ch, ch_pos); fprintf(o, "}\n");
            }
        }
        clock_gettime(CLOCK_MONOTONIC, &t1);
        double el = t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
        if (el > tlimit) { complete = 0; break; }
        if (n_viol > 3000) { complete = 0; break; }
        int a = advance(viol || !mine || phase_gen_only);
        if (!a) break;
        fresh = a == 2;
    }
    clock_gettime(CLOCK_MONOTONIC, &t1);
    fprintf(o, "{\"type\":\"summary\",\"module\":\"%s\",\"scenarios\":%ld,\"executions\":%ld,\"states\":%ld,\"transitions\":%ld,\"choices\":%ld,\"pruned\":%ld,\"rejected_inputs\":%ld,\"violating\":%ld,\"complete\":%s,\"evals\":%ld,\"aux1\":%ld,\"aux2\":%ld,\"wall\":%.2f}\n",
        mod, n_scen, n_exec, n_states, n_trans, n_choices, n_pruned, n_skip, n_viol, complete ? "true" : "false",
        counters[RTC_EVAL], counters[RTC_AUX1], counters[RTC_AUX2], t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9);
    fflush(o);
    rmdir(copydir);
    return 0;
}
int rt_blocked(int r) { return rt_ranks[r].state == RS_BLOCKED && !rt_ranks[r].pred(rt_ranks[r].arg); }
int rt_finished(int r) { return rt_ranks[r].state == RS_DONE || rt_ranks[r].state == RS_EXITED; }
