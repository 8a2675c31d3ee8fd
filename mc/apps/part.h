// Helpers for modules checking partitioners and partitionings against
// explicit index sets. Groups of any size are built locally.
#ifndef PART_H
#define PART_H
#include "common.h"
#define PM_CELLS 4096
// a group with <n> members, this process is member <me> (-1: none)
static inline Laik_Group* pm_group(Laik_Instance* inst, int n, int me) {
    Laik_Group* g = laik_create_group(inst, n); g->size = n; g->myid = me;
    for (int i = 0; i < n; i++) g->locationid[i] = i;
    return g;
}
static inline Laik_Space* pm_space(Laik_Instance* inst, int dims, const int* ext, int64_t org) {
    Laik_Space* s = dims == 1 ? laik_new_space_1d(inst, ext[0]) : dims == 2 ? laik_new_space_2d(inst, ext[0], ext[1]) : laik_new_space_3d(inst, ext[0], ext[1], ext[2]);
    if (org) {
        if (dims == 1) laik_change_space_1d(s, org, org + ext[0]);
        if (dims == 2) laik_change_space_2d(s, org, org + ext[0], org, org + ext[1]);
        if (dims == 3) laik_change_space_3d(s, org, org + ext[0], org, org + ext[1], org, org + ext[2]);
    }
    return s;
}
// owners: own[cell * n + task] counts how often <task> was given <cell>
static inline int pm_owners(Laik_Partitioning* p, int dims, const int* ext, int64_t org, int n, uint8_t* own, const char* prop) {
    int Y = dims > 1 ? ext[1] : 1, Z = dims > 2 ? ext[2] : 1, nr = 0;
    memset(own, 0, (size_t)ext[0] * Y * Z * n);
    int cnt = laik_partitioning_rangecount(p);
    for (int i = 0; i < cnt; i++) {
        Laik_TaskRange* t = laik_partitioning_get_taskrange(p, i);
        RT_CHECK(t != 0, "range-missing", "range %d of %d missing", i, cnt);
        const Laik_Range* r = laik_taskrange_get_range(t); int task = laik_taskrange_get_task(t);
        RT_CHECK(task >= 0 && task < n, "task-range", "range %d given to process %d of %d", i, task, n);
        int64_t f[3] = { 0, 0, 0 }, e[3] = { 1, 1, 1 };
        int empty = 0;
        for (int d = 0; d < dims; d++) { f[d] = r->from.i[d] - org; e[d] = r->to.i[d] - org; if (e[d] <= f[d]) empty = 1; }
        if (empty) continue;
        for (int d = 0; d < dims; d++) RT_CHECK(f[d] >= 0 && e[d] <= ext[d], "outside-space", "range %d [%lld;%lld[ in dimension %d leaves the space of extent %d", i, (long long)f[d], (long long)e[d], d, ext[d]);
        nr++;
        for (int z = f[2]; z < e[2]; z++) for (int y = f[1]; y < e[1]; y++) for (int x = f[0]; x < e[0]; x++) own[((z * Y + y) * ext[0] + x) * n + task]++;
    }
    return nr;
}
#endif
