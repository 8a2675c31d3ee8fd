// P01: block, bisection, grid, master and all partitioner: who owns what
#include "part.h"
typedef struct { int kind, dims, ext[3], lim, a, b, c, big; } S;
#define SH ((S*)rt_shared)
static const char* kn[] = { "block", "bisection", "grid", "master", "all" };
void p01a_gen(int tier) {
    S* s = SH; memset(s, 0, sizeof *s);
    s->kind = rt_in(5);
    s->dims = s->kind == 2 ? 3 : 1 + rt_in(3);
    int m = s->kind == 2 ? (tier ? 9 : 6) : s->dims == 1 ? (tier ? 40 : 24) : s->dims == 2 ? (tier ? 10 : 7) : (tier ? 6 : 4);
    for (int d = 0; d < s->dims; d++) s->ext[d] = 1 + rt_in(m);
    s->lim = s->dims == 1 ? (tier ? 40 : 26) : s->dims == 2 ? (tier ? 20 : 12) : (tier ? 14 : 9);
    if (s->kind == 0) { s->a = rt_in(s->dims); s->b = rt_in(tier ? 6 : 4); } // dimension, cycles
    if (s->kind == 2) { s->a = 1 + rt_in(tier ? 6 : 4); s->b = 1 + rt_in(tier ? 6 : 4); s->c = 1 + rt_in(tier ? 4 : 3); }
    s->big = rt_in(3);
    rt_setenv("LAIK_BACKEND", "single"); CTX("%s", kn[s->kind]);
    DESC("%s partitioner(%d,%d,%d), %dd space %dx%dx%d, origin kind %d, all group sizes up to %d", kn[s->kind], s->a, s->b, s->c, s->dims, s->ext[0], s->ext[1], s->ext[2], s->big, s->lim);
}
static uint8_t* own;
static void check(S* s, Laik_Instance* inst, int n) {
    int64_t org = s->big == 0 ? 0 : s->big == 1 ? -5 : (1ll << 33) + 1;
    rt_ctx("%s, %d processes", kn[s->kind], n);
    Laik_Group* g = pm_group(inst, n, 0); Laik_Space* sp = pm_space(inst, s->dims, s->ext, org);
    Laik_Partitioner* pr = s->kind == 0 ? laik_new_block_partitioner(s->a, s->b + 1, 0, 0, 0) : s->kind == 1 ? laik_new_bisection_partitioner() :
        s->kind == 2 ? laik_new_grid_partitioner(s->a, s->b, s->c) : s->kind == 3 ? laik_Master : laik_All;
    Laik_Partitioning* p = laik_new_partitioning(pr, g, sp, 0);
    int N = s->ext[0] * (s->dims > 1 ? s->ext[1] : 1) * (s->dims > 2 ? s->ext[2] : 1);
    pm_owners(p, s->dims, s->ext, org, n, own, "P01");
    for (int i = 0; i < N; i++) {
        int c = 0, last = -1; for (int t = 0; t < n; t++) { c += own[i * n + t]; if (own[i * n + t]) last = t; }
        if (s->kind == 4) { for (int t = 0; t < n; t++) RT_CHECK(own[i * n + t] == 1, "P01:all", "cell %d is given %d times to process %d of %d", i, own[i * n + t], t, n); }
        else { RT_CHECK(c == 1, c ? "P01:twice" : "P01:uncovered", "cell %d has %d owners with %d processes", i, c, n);
            if (s->kind == 3) RT_CHECK(last == 0, "P01:master", "cell %d owned by %d", i, last); }
    }
    RT_CHECK(laik_partitioning_coversSpace(p), "P01:covers", "coversSpace is false with %d processes", n);
    if (s->kind == 4) RT_CHECK(laik_partitioning_isAll(p), "P01:isAll", "isAll is false with %d processes", n);
    else if (n > 1) RT_CHECK(!laik_partitioning_isAll(p), "P01:isAll", "isAll wrong with %d processes", n);
    int single = laik_partitioning_isSingle(p);
    if (s->kind == 3) RT_CHECK(single == 0, "P01:isSingle", "isSingle is %d with %d processes", single, n);
    else if (single >= 0) { for (int i = 0; i < N; i++) for (int t = 0; t < n; t++) RT_CHECK(own[i * n + t] == (t == single), "P01:isSingle", "isSingle is %d but %d owns an index", single, t); }
    rt_count(RTC_EVAL, 1); rt_state(rt_hash(n, s, sizeof *s));
    laik_free_partitioning(p); laik_free_space(sp);
}
void p01a_main(void) {
    S* s = SH; Laik_Instance* inst = app_init();
    int lim = s->lim, lo = 1; if (s->kind == 2) { lo = s->a * s->b * s->c; lim = lo + 2; }
    int N = s->ext[0] * (s->dims > 1 ? s->ext[1] : 1) * (s->dims > 2 ? s->ext[2] : 1);
    own = rt_malloc((size_t)N * (lim + 1));
    for (int n = lo; n <= lim; n++) check(s, inst, n);
    rt_free(own); laik_finalize(inst);
}
void p01a_end(void) {}
// grid: one long dimension, many blocks (rounding)
typedef struct { int dim, blocks, from, to; } G;
void p01b_gen(int tier) {
    G* s = rt_shared; s->dim = rt_in(3); s->blocks = 1 + rt_in(tier ? 200 : 80); s->from = 1; s->to = tier ? 400 : 200;
    rt_setenv("LAIK_BACKEND", "single"); CTX("grid");
    DESC("grid partitioner, %d blocks in dimension %d, all extents %d..%d", s->blocks, s->dim, s->from, s->to);
}
void p01b_main(void) {
    G* s = rt_shared; Laik_Instance* inst = app_init(); uint8_t* seen = rt_malloc(s->to + 1);
    Laik_Group* g = pm_group(inst, s->blocks, 0); int bl[3] = { 1, 1, 1 }; bl[s->dim] = s->blocks; Laik_Partitioner* pr = laik_new_grid_partitioner(bl[0], bl[1], bl[2]);
    for (int N = s->from; N <= s->to; N++) {
        int ext[3] = { 1, 1, 1 }; ext[s->dim] = N; rt_ctx("grid, %d blocks, extent %d", s->blocks, N);
        Laik_Space* sp = pm_space(inst, 3, ext, -7); Laik_Partitioning* p = laik_new_partitioning(pr, g, sp, 0);
        memset(seen, 0, N); int cnt = laik_partitioning_rangecount(p);
        for (int i = 0; i < cnt; i++) { const Laik_Range* r = laik_taskrange_get_range(laik_partitioning_get_taskrange(p, i));
            for (int64_t x = r->from.i[s->dim] + 7; x < r->to.i[s->dim] + 7; x++) { RT_CHECK(x >= 0 && x < N, "outside-space", "range leaves the space"); seen[x]++; } }
        for (int i = 0; i < N; i++) RT_CHECK(seen[i] == 1, seen[i] ? "P01:twice" : "P01:uncovered", "extent %d: index %d has %d owners", N, i, seen[i]);
        rt_count(RTC_EVAL, 1); rt_state(rt_hash(N, s, sizeof *s)); laik_free_partitioning(p); laik_free_space(sp);
    }
    rt_free(seen); laik_finalize(inst);
}
void p01b_end(void) {}

// ------------------------------------------------------------------- P02
typedef struct { int N, n, cycles, mode, iw[8], tw[8], pdim, dims; } B;
#define BH ((B*)rt_shared)
static const double IW[] = { 1.0, 0.0, 3.0, 0.125, 1024.0 }, TW[] = { 1.0, 2.0, 0.5, 0.0, 64.0 };
static int64_t borg;
static double fiw(Laik_Index* i, const void* u) { const B* b = u; int64_t x = i->i[b->pdim] - borg; RT_CHECK(x >= 0 && x < b->N, "P02:weight-index", "weight asked for index %lld outside the space", (long long)x); return IW[b->iw[x]]; }
static double ftw(int t, const void* u) { const B* b = u; RT_CHECK(t >= 0 && t < b->n, "P02:weight-task", "weight asked for process %d", t); return TW[b->tw[t]]; }
static void bcheck(B* b, Laik_Instance* inst, Laik_Partitioner* pr, int kcycles) {
    int n = b->n, N = b->N, ext[3] = { 2, 2, 2 }; ext[b->pdim] = N; if (b->dims == 1) ext[1] = ext[2] = 1;
    Laik_Group* g = pm_group(inst, n, 0); Laik_Space* sp = pm_space(inst, b->dims, ext, borg);
    Laik_Partitioning* p = laik_new_partitioning(pr, g, sp, 0);
    // collect the blocks in index order
    int owner[512], blocks[64] = { 0 }; double W[64] = { 0 }, sz[64] = { 0 }, total = 0, tt = 0, wmax = 0; for (int i = 0; i < N; i++) owner[i] = -1;
    int cnt = laik_partitioning_rangecount(p);
    for (int k = 0; k < cnt; k++) {
        Laik_TaskRange* t = laik_partitioning_get_taskrange(p, k); const Laik_Range* r = laik_taskrange_get_range(t); int task = laik_taskrange_get_task(t);
        for (int d = 0; d < b->dims; d++) if (d != b->pdim) RT_CHECK(r->from.i[d] == borg && r->to.i[d] == borg + ext[d], "P02:other-dimension", "dimension %d not complete", d);
        if (r->to.i[b->pdim] > r->from.i[b->pdim]) blocks[task]++;
        for (int64_t x = r->from.i[b->pdim] - borg; x < r->to.i[b->pdim] - borg; x++) { RT_CHECK(x >= 0 && x < N, "outside-space", "block leaves the space"); RT_CHECK(owner[x] < 0, "P02:twice", "index %d given twice", (int)x); owner[x] = task; }
    }
    int turn = -1, prev = -1; // position in the sequence (cycle, process)
    for (int i = 0; i < N; i++) {
        RT_CHECK(owner[i] >= 0, "P02:uncovered", "index %d has no owner (%d processes, %d cycles)", i, n, kcycles);
        if (owner[i] != prev) { int nt = turn + 1; while (nt % n != owner[i]) nt++; turn = nt; prev = owner[i]; }
        double w = b->mode & 1 ? IW[b->iw[i]] : 1; W[owner[i]] += w; sz[owner[i]]++; total += w; if (w > wmax) wmax = w;
    }
    RT_CHECK(turn < n * kcycles, "P02:order", "blocks are not handed out in process order, or more than %d cycles (%d processes)", kcycles, n);
    for (int t = 0; t < n; t++) { tt += b->mode & 2 ? TW[b->tw[t]] : 1; RT_CHECK(blocks[t] <= kcycles, "P02:blocks", "process %d gets %d blocks with %d cycles", t, blocks[t], kcycles); }
    double eps = 1e-9 * (total + 1);
    for (int t = 0; t < n; t++) {
        double share = tt > 0 ? total * (b->mode & 2 ? TW[b->tw[t]] : 1) / tt : 0;
        if (tt > 0) RT_CHECK(W[t] <= share + kcycles * wmax + eps, "P02:overloaded", "process %d of %d gets weight %g, fair share %g, largest index weight %g, %d cycles", t, n, W[t], share, wmax, kcycles);
        if (!(b->mode & 1) && tt > 0) RT_CHECK(W[t] >= share - kcycles - eps, "P02:underloaded", "process %d of %d gets %g indexes, share %g", t, n, W[t], share);
        if (b->mode == 0) for (int u = 0; u < t; u++) RT_CHECK(sz[t] - sz[u] <= kcycles && sz[u] - sz[t] <= kcycles, "P02:unbalanced", "sizes %g and %g of processes %d and %d with %d cycles", sz[u], sz[t], u, t, kcycles);
    }
    rt_count(RTC_EVAL, 1);
    laik_free_partitioning(p); laik_free_space(sp);
}
// no weights: all sizes, group sizes and cycles, dimensions
void p02a_gen(int tier) {
    B* b = BH; memset(b, 0, sizeof *b); b->N = 1 + rt_in(tier ? 400 : 60); b->cycles = rt_in(6); b->dims = 1 + rt_in(3); b->pdim = rt_in(b->dims); b->mode = tier;
    rt_setenv("LAIK_BACKEND", "single"); CTX("no weights"); DESC("block partitioner, %d indexes in dimension %d of %d, cycles %d, all group sizes", b->N, b->pdim, b->dims, b->cycles);
}
void p02a_main(void) {
    static const int cy[] = { 1, 2, 3, 10, 0, 11 };
    B* b = BH; B q = *b; Laik_Instance* inst = app_init(); q.mode = 0; borg = -3;
    for (q.n = 1; q.n <= (b->mode ? 60 : 30); q.n++) {
        rt_ctx("no weights, %d indexes, %d processes, cycles %d", q.N, q.n, cy[b->cycles]); int c = cy[b->cycles]; Laik_Partitioner* pr;
        if (c >= 1 && c <= 10 && q.n % 2) pr = laik_new_block_partitioner(q.pdim, c, 0, 0, 0);
        else { pr = laik_new_block_partitioner(q.pdim, 1, 0, 0, 0); laik_set_cycle_count(pr, c); if (c < 1 || c > 10) c = 1; } // documented: out of range means 1
        bcheck(&q, inst, pr, c); rt_state(rt_hash(q.n, &q, sizeof q));
    }
    laik_finalize(inst);
}
void p02a_end(void) {}
// index weights, process weights, both
void p02b_gen(int tier) {
    B* b = BH; memset(b, 0, sizeof *b); b->mode = 1 + rt_in(3); b->N = 1 + rt_in(b->mode == 2 ? 9 : tier ? 7 : 6); b->dims = 1; int any = 0;
    if (b->mode & 1) { for (int i = 0; i < b->N; i++) { b->iw[i] = rt_in(b->mode == 1 ? 5 : 4); any |= b->iw[i] != 1; } if (!any) REJECT(); }
    b->n = 1 + rt_in(b->mode == 3 ? 3 : tier ? 5 : 4); any = 0;
    if (b->mode & 2) { for (int i = 0; i < b->n; i++) { b->tw[i] = rt_in(b->mode == 2 ? 5 : 4); any |= b->tw[i] != 3; } if (!any) REJECT(); }
    rt_setenv("LAIK_BACKEND", "single"); CTX("%s", b->mode == 1 ? "index weights" : b->mode == 2 ? "process weights" : "index and process weights");
    DESC("block partitioner, %d indexes, %d processes, index weights", b->N, b->n);
    for (int i = 0; i < b->N && (b->mode & 1); i++) DESC(" %g", IW[b->iw[i]]);
    DESC(", process weights"); for (int i = 0; i < b->n && (b->mode & 2); i++) DESC(" %g", TW[b->tw[i]]);
}
void p02b_main(void) {
    B* b = BH; Laik_Instance* inst = app_init();
    for (int c = 1; c <= 3; c++) for (int how = 0; how < 2; how++) {
        rt_ctx("%s, cycles %d", b->mode == 1 ? "index weights" : b->mode == 2 ? "process weights" : "index and process weights", c);
        Laik_Partitioner* pr; borg = how ? 4 : 0;
        if (how && b->mode == 1 && c == 1) pr = laik_new_block_partitioner_iw1(fiw, b);
        else if (how && b->mode == 2 && c == 1) pr = laik_new_block_partitioner_tw1(ftw, b);
        else if (how) { pr = laik_new_block_partitioner1(); laik_set_cycle_count(pr, c); if (b->mode & 1) laik_set_index_weight(pr, fiw, b); if (b->mode & 2) laik_set_task_weight(pr, ftw, b); }
        else pr = laik_new_block_partitioner(0, c, b->mode & 1 ? fiw : 0, b->mode & 2 ? ftw : 0, b);
        bcheck(b, inst, pr, c);
    }
    rt_state(rt_hash(1, b, sizeof *b)); laik_finalize(inst);
}
void p02b_end(void) {}
