// Data programs: collective sequences of container operations executed by
// every process, against a global value model.
#ifndef PROG_H
#define PROG_H
#include "common.h"
#define PCELLS 200
#define PPARTS 8
#define POPS 24
#define PDATA 3
typedef struct {
    uint16_t own[PCELLS];  // per index: mask of owners
    uint8_t split;         // 0 maximal boxes, 1 single cells, 2 single-index API (1d), 3 cells + merge flag, 4 maximal runs along x only
    uint8_t tag;           // 0 none, 1 all same, 2 distinct ascending, 3 alternating, 4 distinct descending
    uint8_t order;         // 0 ascending, 1 descending order of range creation
    uint8_t grp;           // group the partitioning is defined on (0: world)
} PPart;
enum { P_SWITCH, P_WRITE, P_CHECK, P_CALC, P_TRANS, P_ACALC, P_ACT, P_RES, P_USERES, P_FREERES, P_FLOW, P_FREE, P_STATCHK, P_TFREE, P_AFREE, P_MINE, P_NEWDATA, P_ALLOC };
typedef struct { uint8_t op; int8_t part, part2; uint8_t flow, red, arg, d; uint16_t mask; } POp;
typedef struct {
    int nr, dims, ext[3]; int org; int type; int np; PPart part[PPARTS]; int nops; POp op[POPS];
    int layout;            // 0 lex, 1 lex with generic copy, 2 own column-major layout, 3 own layout with reversed order
    int ndata; int types[PDATA]; int alloc; // alloc: 1 = own allocator
    int provide;           // provide application memory for map 0
    int shrink;            // unused
    uint8_t checkmsgs;     // T07
    uint8_t access;        // 0: get_map_addr, 1: base + strides via get_map_Nd (lex, where the map begins at the own range)
    uint8_t log;
} Prog;
#define PG ((Prog*)rt_shared)
int pg_cells(const Prog* p);
int pg_nowned(const Prog* p, int part, int rank);
// generation helpers
void pg_init(Prog* p, int nr, int dims, int x, int y, int z);
int pg_part(Prog* p);                    // new zero partitioning
void pg_masks(PPart* q, int n, int nr, int lo); // enumerate owner masks, lo: minimal mask
void pg_single(PPart* q, int n, int nr); // enumerate single owners
void pg_op(Prog* p, int op, int part, int flow, int red);
void pg_desc(const Prog* p);
int pg_boxes_ok(const Prog* p, int part);
// 1: the model can predict the program; 0: a precondition is violated
int pg_valid(Prog* p);
void pg_run(void);
// the backend environment (choose a communication mode)
enum { PGM_SINGLE, PGM_MPI, PGM_MPI_RDV, PGM_MPI_ASYNC, PGM_MPI_ASYNC_RDV, PGM_MPI_OWNRED, PGM_MPI_OWNRED_RDV, PGM_MPI_SYNCOLL, PGM_N };
void pg_mode(int m);
extern const char* pg_opname[], *pg_redname[], *pg_typename[];
extern int (*pg_hook)(Prog*, int opno); // called before every op
// used by other modules
Laik_Type* pg_laiktype(int t);
void pg_put(char* a, int t, int v);
double pg_get(const char* a, int t);
#endif
