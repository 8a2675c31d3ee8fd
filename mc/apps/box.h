// small boxes of indexes in 1-3 dimensions and containers holding them
#ifndef BOX_H
#define BOX_H
#include "common.h"
typedef struct { int f[3], t[3]; } Box;
static const int BEXT[4][3] = { { 6, 1, 1 }, { 4, 3, 1 }, { 3, 2, 2 }, { 3, 3, 3 } };
static const int BDIM[4] = { 1, 2, 3, 3 };
static inline int bx_all(int sh, Box* out) { // all non-empty boxes
    const int* e = BEXT[sh]; int n = 0; Box b;
    for (b.f[2] = 0; b.f[2] < e[2]; b.f[2]++) for (b.t[2] = b.f[2] + 1; b.t[2] <= e[2]; b.t[2]++) for (b.f[1] = 0; b.f[1] < e[1]; b.f[1]++) for (b.t[1] = b.f[1] + 1; b.t[1] <= e[1]; b.t[1]++) for (b.f[0] = 0; b.f[0] < e[0]; b.f[0]++) for (b.t[0] = b.f[0] + 1; b.t[0] <= e[0]; b.t[0]++) { if (out) out[n] = b; n++; }
    return n;
}
static inline int bx_size(Box b) { return (b.t[0] - b.f[0]) * (b.t[1] - b.f[1]) * (b.t[2] - b.f[2]); }
static inline int bx_in(Box a, Box b) { for (int d = 0; d < 3; d++) if (a.f[d] < b.f[d] || a.t[d] > b.t[d]) return 0; return 1; }
static inline int bx_overlap(Box a, Box b) { for (int d = 0; d < 3; d++) if (a.f[d] >= b.t[d] || b.f[d] >= a.t[d]) return 0; return 1; }
static inline Box bx_join(Box a, Box b) { for (int d = 0; d < 3; d++) { if (b.f[d] < a.f[d]) a.f[d] = b.f[d]; if (b.t[d] > a.t[d]) a.t[d] = b.t[d]; } return a; }
static inline int bx_has(Box b, int x, int y, int z) { return x >= b.f[0] && x < b.t[0] && y >= b.f[1] && y < b.t[1] && z >= b.f[2] && z < b.t[2]; }
static inline void bx_range(Laik_Range* r, Laik_Space* sp, Box b, int org) {
    int d = laik_space_getdimensions(sp);
    if (d == 1) laik_range_init_1d(r, sp, b.f[0] + org, b.t[0] + org);
    if (d == 2) laik_range_init_2d(r, sp, b.f[0] + org, b.t[0] + org, b.f[1] + org, b.t[1] + org);
    if (d == 3) laik_range_init_3d(r, sp, b.f[0] + org, b.t[0] + org, b.f[1] + org, b.t[1] + org, b.f[2] + org, b.t[2] + org);
}
static inline void bx_index(Laik_Index* i, int x, int y, int z, int org, int dims) { i->i[0] = x + org; i->i[1] = dims > 1 ? y + org : 0; i->i[2] = dims > 2 ? z + org : 0; }
static inline Laik_Space* bx_space(Laik_Instance* inst, int sh, int org) {
    const int* e = BEXT[sh]; Laik_Space* s = BDIM[sh] == 1 ? laik_new_space_1d(inst, e[0]) : BDIM[sh] == 2 ? laik_new_space_2d(inst, e[0], e[1]) : laik_new_space_3d(inst, e[0], e[1], e[2]);
    if (org) { if (BDIM[sh] == 1) laik_change_space_1d(s, org, org + e[0]); else if (BDIM[sh] == 2) laik_change_space_2d(s, org, org + e[0], org, org + e[1]); else laik_change_space_3d(s, org, org + e[0], org, org + e[1], org, org + e[2]); }
    return s;
}
typedef struct { int n, task[8], tag[8], org; Box b[8]; } BPart;
static inline void bx_run(Laik_RangeReceiver* r, Laik_PartitionerParams* p) {
    BPart* q = laik_partitioner_data(p->partitioner); Laik_Range rg;
    for (int i = 0; i < q->n; i++) { bx_range(&rg, p->space, q->b[i], q->org); laik_append_range(r, q->task[i], &rg, q->tag[i], 0); }
}
static inline Laik_Partitioning* bx_partitioning(Laik_Group* g, Laik_Space* s, BPart* q) { return laik_new_partitioning(laik_new_partitioner("boxes", bx_run, q, LAIK_PF_NoFullCoverage), g, s, 0); }
#define FORBOX(b, x, y, z) for (int z = (b).f[2]; z < (b).t[2]; z++) for (int y = (b).f[1]; y < (b).t[1]; y++) for (int x = (b).f[0]; x < (b).t[0]; x++)
#define BSTR(b) (b).f[0], (b).t[0], (b).f[1], (b).t[1], (b).f[2], (b).t[2]
#endif
