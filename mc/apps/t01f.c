// T01f: programs using only the short forms of the API (containers with an
// own space, switching to a new run of a partitioner, filling)
#include "common.h"
typedef struct { int np, dims, sz, len, op[6], ty, init; } S;
#define SH ((S*)rt_shared)
enum { O_BLOCK, O_ALL, O_MASTER, O_SUM, O_FILL, O_WRITE, O_NONEFILL, O_NAME, O_BISECT, O_N };
static const char* ON[] = { "block", "all", "master", "all, sum", "fill", "write", "block without flow, fill", "set name", "bisection" };
static double get(int ty, void* p, int64_t i) { return ty == 0 ? ((double*)p)[i] : ty == 1 ? ((float*)p)[i] : (double)((int64_t*)p)[i]; }
static void put(int ty, void* p, int64_t i, double v) { if (ty == 0) ((double*)p)[i] = v; else if (ty == 1) ((float*)p)[i] = (float)v; else ((int64_t*)p)[i] = (int64_t)v; }
#define SX(s) ((s)->sz)
#define SY(s) ((s)->dims == 2 ? 3 : 1)
static double M[100]; // value of each index
// own values: write (v != 0) or check
static long own(S* s, Laik_Data* d, Laik_Partitioning* p, int wr, double f, const char* wh) {
    long n = 0; Laik_Range* r; (void)r;
    for (int i = 0; i < laik_my_rangecount(p); i++) {
        const Laik_Range* g = laik_taskrange_get_range(laik_my_range(p, i)); void* b = 0; uint64_t xs = 0, ys = 1, st = 0; Laik_Mapping* m;
        if (s->dims == 1) m = laik_get_map_1d(d, i, &b, &xs); else m = laik_get_map_2d(d, i, &b, &ys, &st, &xs);
        RT_CHECK(m && (int64_t)xs == g->to.i[0] - g->from.i[0] && (s->dims == 1 || (int64_t)ys == g->to.i[1] - g->from.i[1]), "T01f:map", "%s: mapping %d has size %d x %d", wh, i, (int)xs, (int)ys);
        for (uint64_t y = 0; y < ys; y++) for (uint64_t x = 0; x < xs; x++) {
            int64_t gi = g->from.i[0] + (int64_t)x + (s->dims == 2 ? SX(s) * (g->from.i[1] + (int64_t)y) : 0); n++;
            if (wr) put(s->ty, b, y * st + x, f + gi);
            else RT_CHECK(get(s->ty, b, y * st + x) == M[gi], "T01f:value", "%s: value at index %lld is %g instead of %g", wh, (long long)gi, get(s->ty, b, y * st + x), M[gi]);
        }
    }
    return n;
}
void t01f_main(void) {
    S* s = SH; Laik_Instance* inst = app_init(); Laik_Group* w = laik_world(inst); int me = laik_myid(w), T = SX(s) * SY(s); char wh[60];
    Laik_Type* ty = s->ty == 0 ? laik_Double : s->ty == 1 ? laik_Float : laik_Int64;
    Laik_Data* d = s->dims == 1 ? laik_new_data_1d(inst, ty, s->sz) : laik_new_data_2d(inst, ty, s->sz, 3);
    Laik_Space* sp = laik_data_get_space(d); RT_CHECK(sp && laik_space_getdimensions(sp) == s->dims && laik_space_size(sp) == (uint64_t)T && laik_data_get_inst(d) == inst, "T01f:space", "space of container is wrong");
    RT_CHECK(!laik_data_get_partitioning(d) && !laik_data_get_group(d), "T01f:initial", "new container has a partitioning");
    Laik_Partitioning* p = 0; int k = 1; /* owners of each index */ int cur = O_BLOCK;
    Laik_Reservation* rs = 0;
    if (s->init) { p = laik_new_partitioning(laik_All, w, sp, 0); rs = laik_reservation_new(d); laik_reservation_add(rs, p); laik_reservation_alloc(rs); laik_data_use_reservation(d, rs); laik_set_initial_partitioning(d, p); k = s->np; cur = O_ALL; }
    else p = laik_switchto_new_partitioning(d, w, laik_new_block_partitioner1(), LAIK_DF_None, LAIK_RO_None);
    own(s, d, p, 1, 5, "start"); for (int i = 0; i < T; i++) M[i] = 5 + i;
    for (int o = 0; o < s->len; o++) {
        sprintf(wh, "step %d (%s)", o, ON[s->op[o]]);
        Laik_Partitioner* pr = 0; Laik_DataFlow fl = LAIK_DF_Preserve; Laik_ReductionOperation ro = LAIK_RO_None;
        switch (s->op[o]) {
            case O_BLOCK: pr = laik_new_block_partitioner1(); break;
            case O_BISECT: pr = laik_new_bisection_partitioner(); break;
            case O_ALL: pr = laik_All; break;
            case O_MASTER: pr = laik_Master; break;
            case O_SUM: pr = laik_All; ro = LAIK_RO_Sum; break;
            case O_NONEFILL: pr = laik_new_block_partitioner1(); fl = LAIK_DF_None; break;
            case O_NAME: laik_data_set_name(d, "name"); break;
            case O_WRITE: own(s, d, p, 1, 100 + o, wh); for (int i = 0; i < T; i++) M[i] = 100 + o + i; break;
        }
        if (pr) {
            if (fl == LAIK_DF_Preserve && ro == LAIK_RO_None && k > 1) ro = LAIK_RO_Any; // any of the owners
            p = laik_switchto_new_partitioning(d, w, pr, fl, ro);
            RT_CHECK(p && laik_data_get_partitioning(d) == p && laik_data_get_group(d) == w && laik_partitioning_get_space(p) == sp && laik_partitioning_get_group(p) == w, "T01f:active", "%s: active partitioning is wrong", wh);
            if (ro == LAIK_RO_Sum) for (int i = 0; i < T; i++) M[i] *= k;
            k = pr == laik_All ? s->np : 1;
        }
        if (s->op[o] == O_FILL || s->op[o] == O_NONEFILL) {
            if (s->ty == 0 && s->dims == 1) { if (laik_my_rangecount(p) == 1) laik_fill_double(d, 7 + o); for (int i = 0; i < T; i++) M[i] = 7 + o; }
            else { own(s, d, p, 1, 7 + o, wh); for (int i = 0; i < T; i++) M[i] = 7 + o + i; }
        }
        long n = own(s, d, p, 0, 0, wh); if (pr == laik_All) RT_CHECK(n == T, "T01f:own", "%s: process %d owns %ld indexes", wh, me, n);
        if (pr == laik_Master) RT_CHECK(n == (me == 0 ? T : 0), "T01f:own", "%s: process %d owns %ld indexes", wh, me, n);
        rt_event(rt_hash(o, M, sizeof(double) * T));
    }
    laik_free(d); laik_finalize(inst);
}
void t01f_gen(int tier) {
    S* s = SH; static const int SZ[] = { 1, 2, 5, 8 };
    rt_scen->nranks = s->np = 1 + rt_in(4); s->dims = 1 + rt_in(2); s->sz = SZ[rt_in(s->dims == 1 ? 4 : 2) + (s->dims == 2)]; s->ty = rt_in(3); s->init = rt_in(2); s->len = tier ? 4 : 3;
    for (int i = 0; i < s->len; i++) { s->op[i] = rt_in(O_N); if (i && s->op[i] == O_NAME) REJECT(); }
    int all = s->init; // reductions in 2d: only if every process holds everything
    for (int i = 0; i < s->len; i++) {
        if (s->op[i] == O_SUM && s->dims == 2 && !all && s->np > 1) REJECT();
        if (s->op[i] == O_ALL || s->op[i] == O_SUM) all = 1;
        if (s->op[i] == O_BLOCK || s->op[i] == O_MASTER || s->op[i] == O_BISECT || s->op[i] == O_NONEFILL) all = 0;
    }
    if (!tier && (s->np == 3 || (s->ty == 1 && s->np != 2))) REJECT();
#ifdef VARIANT_TCP
    REJECT();
#elif defined VARIANT_TCP2
    REJECT();
#else
    rt_setenv("LAIK_BACKEND", s->np == 1 && rt_in(2) ? "single" : "mpi"); rt_scen->mpi_rendezvous = 1;
#endif
    DESC("%d processes, %dd size %d, type %d%s:", s->np, s->dims, s->sz, s->ty, s->init ? ", initial partitioning" : ""); for (int i = 0; i < s->len; i++) DESC(" [%s]", ON[s->op[i]]); CTX("short API");
}
void t01f_end(void) { }
