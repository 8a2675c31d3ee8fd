#ifndef RTPRIV_H
#define RTPRIV_H
#include "rt.h"
typedef struct Rank {
    int id, state;            // 0 unused 1 ready 2 blocked 3 done 4 exited
    void* sp; char* stack; size_t stacksz;
    int (*pred)(void*); void* arg; const char* what;
    int exitcode;
    uint64_t hist;
    void (*entry)(void);
    void (*fn)(void*); void* fnarg; // threads within a rank
    long deadline;                  // blocked at most until this time (0: forever)
} Rank;
#define RT_MAXTHR 200  // slots: main thread of every rank, followed by other threads
enum { RS_UNUSED, RS_READY, RS_BLOCKED, RS_DONE, RS_EXITED };
extern Rank rt_ranks[RT_MAXTHR];
extern int rt_cur, rt_thr; // running rank (process), running slot
int rt_spawn(void (*fn)(void*), void* arg); // new thread in current rank; returns slot
int rt_block_until(int (*pred)(void*), void* arg, long deadline, const char* what);
extern int rt_nextra;
void mock_glib_reset(void);
extern int rt_replay_mode, rt_verbose;
void rt_fail_main(const char* key, const char* fmt, ...);
void mock_mpi_reset(void);
int  mock_mpi_endcheck(char* key, char* msg);
void mock_sock_reset(void);
int  mock_sock_endcheck(char* key, char* msg);
void mock_sock_describe(void);
int  mock_sock_idle(void);   // called when no rank is enabled; 1: progress made
extern int rt_failed;
extern long rt_time_us;
void rt_set_budget(long);
int rt_dev_left(void);
uint64_t rt_glob_hash(void);
#endif
