// Controlled-execution runtime: choice tree, rank coroutines, tracked heap.
// Included by the explorer executable and by the application code that is
// linked (together with LAIK itself) into the per-rank shared library.
#ifndef RT_H
#define RT_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

#define RT_MAXRANKS 12

// ---- choices -------------------------------------------------------------
// Input choice (scenario generation, rank independent): enumerated fully.
int rt_in(int n);                       // 0..n-1
int rt_in_range(int lo, int hi);        // lo..hi inclusive
// Environment choice during execution. Option 0 is the default; alternatives
// cost <cost> deviations, of which an execution may use a bounded number.
int rt_choose(int n, int cost);

// ---- scenario control ------------------------------------------------------
typedef struct {
    int nranks;             // how many ranks run rank_main
    int dev_bound;          // deviation budget for this scenario
    int sched_points;       // 1: offer preemption at communication events
    // mock MPI behaviour
    int mpi_rendezvous;     // sends block until matched by a receive
    int mpi_syncoll;        // all collectives synchronise
    // mock sockets
    int sock_chunk;         // fragmentation mode (see mock_sock.c)
    int sock_opts;          // 1: several hosts, 2: short writes
    int sock_cap;           // capacity of a stream (0: unlimited)
    int sock_host[RT_MAXRANKS]; char sock_hostname[64];
    // environment variables seen by LAIK
    char env[16][2][64];
    int nenv;
    char desc[4000];        // human readable scenario
    char context[200];      // class of scenario (for findings)
    long maxmem;            // instrumented memory accesses before "livelock"
    int allow_exit;         // ranks may call exit()
    int allow_unfinished;   // ranks blocked at end are no violation
    int no_leakcheck;
    int no_prune;           // do not prune on visited states
    int threads;            // ranks are multi-threaded (GLib), timeouts are real
    int custom_ranks;       // ranks not started at begin (module starts them)
} RtScen;
extern RtScen* rt_scen;     // generic part
void rt_setenv(const char* k, const char* v);

// ---- rank side -----------------------------------------------------------
int rt_rank(void);          // rank of running coroutine, -1 in explorer
int rt_nranks(void);
void rt_yield(const char* what);
void rt_block(int (*enabled)(void*), void* arg, const char* what);
// run in a barrier fashion: all ranks must arrive (not an MPI operation)
void rt_barrier(void);
void rt_event(uint64_t h);  // adds to the local history of the running rank
uint64_t rt_hash(uint64_t h, const void* p, size_t len);

// ---- verdicts ------------------------------------------------------------
// <key> identifies the class of violation; ends the execution.
void rt_fail(const char* key, const char* fmt, ...) __attribute__((noreturn, format(printf,2,3)));
#define RT_CHECK(c, key, ...) do { if (!(c)) rt_fail(key, __VA_ARGS__); } while(0)
void rt_ctx(const char* fmt, ...) __attribute__((format(printf,1,2))); // refine scenario context
void rt_log(const char* fmt, ...) __attribute__((format(printf,1,2))); // only in replay
int  rt_replaying(void);
void rt_skip(void) __attribute__((noreturn)); // end of execution, not counted

// ---- counters ------------------------------------------------------------
enum { RTC_EVAL, RTC_STATE, RTC_AUX1, RTC_AUX2, RTC_N };
void rt_count(int c, long n);
void rt_state(uint64_t h);  // distinct abstract state reached

// ---- tracked heap --------------------------------------------------------
long rt_live_blocks(int rank);
long rt_live_bytes(int rank);
// is [p,p+len) completely inside live memory?  1 yes, 0 no, -1 not arena
int  rt_mem_ok(const void* p, size_t len);
long rt_mem_left(const void* p);  // bytes from p to the end of its live block; -1
void rt_mem_poison(void* p, size_t len);   // forbid access (own test buffers)
void rt_mem_unpoison(void* p, size_t len);
void* rt_malloc(size_t);  // tracked allocation on behalf of the test
void rt_free(void*);
int rt_inject(int n);     // allocation failures etc. (unused by default)

// ---- message accounting of mock MPI ----------------------------------------
typedef struct { int src, dst, tag, comm; long bytes; int kind; } RtMsg; // kind 0 p2p, 1 coll
int rt_msg_count(void);
RtMsg* rt_msg(int i);
// sockets
int rt_listening(int rank, int port);
int rt_open_fds(int rank);
int rt_unread(int rank);
void rt_start_rank(int r);
int rt_blocked(int r);  // waiting for something which did not happen yet
int rt_finished(int r);
const char* rt_tcp_config_name(int c); // configurations of the legacy TCP backend
#define RT_TCP_CONFIGS 8
void rt_msg_reset(void);  // own (sending) messages of calling rank are kept by index only

#endif
