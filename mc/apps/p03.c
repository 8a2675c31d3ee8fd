// P03: halo, corner-halo, copy and reassign partitioner
#include "part.h"
typedef struct { int kind, dims, ext[3], n, split, depth, order; int own[64]; int org; int tdims, tdim, fdim, removed, wk; int wt[10]; } S;
#define SH ((S*)rt_shared)
static int cells(const S* s) { return s->ext[0] * (s->dims > 1 ? s->ext[1] : 1) * (s->dims > 2 ? s->ext[2] : 1); }
// base: every cell has an owner; ranges are maximal runs in x (0), single cells (1), or runs extended to boxes (2)
static void run_base(Laik_RangeReceiver* rr, Laik_PartitionerParams* pp) {
    const S* s = laik_partitioner_data(pp->partitioner); int N = cells(s), X = s->ext[0], Y = s->dims > 1 ? s->ext[1] : 1, Z = s->dims > 2 ? s->ext[2] : 1; uint8_t done[64] = { 0 };
    for (int k = 0; k < N; k++) {
        int i = s->order && s->split == 1 ? N - 1 - k : k; if (done[i]) continue; int o = s->own[i], x = i % X, y = i / X % Y, z = i / X / Y, x1 = x + 1, y1 = y + 1, z1 = z + 1;
        if (s->split != 1) while (x1 < X && s->own[i - x + x1] == o && !done[i - x + x1]) x1++;
        if (s->split == 2) {
            for (; y1 < Y; y1++) { int ok = 1; for (int a = x; a < x1; a++) { int j = (z * Y + y1) * X + a; if (s->own[j] != o || done[j]) ok = 0; } if (!ok) break; }
            for (; z1 < Z; z1++) { int ok = 1; for (int b = y; b < y1; b++) for (int a = x; a < x1; a++) { int j = (z1 * Y + b) * X + a; if (s->own[j] != o || done[j]) ok = 0; } if (!ok) break; }
        }
        for (int c = z; c < z1; c++) for (int b = y; b < y1; b++) for (int a = x; a < x1; a++) done[(c * Y + b) * X + a] = 1;
        Laik_Range r; int64_t g = s->org;
        if (s->dims == 1) laik_range_init_1d(&r, pp->space, x + g, x1 + g);
        if (s->dims == 2) laik_range_init_2d(&r, pp->space, x + g, x1 + g, y + g, y1 + g);
        if (s->dims == 3) laik_range_init_3d(&r, pp->space, x + g, x1 + g, y + g, y1 + g, z + g, z1 + g);
        laik_append_range(rr, o, &r, s->split == 1 ? i + 1 : 1, 0);
    }
}
static void gen_base(S* s, int tier, int maxn) {
    static const int shapes[][4] = { { 1, 1 }, { 1, 2 }, { 1, 3 }, { 1, 4 }, { 1, 5 }, { 1, 6 }, { 1, 7 }, { 2, 1, 3 }, { 2, 2, 2 }, { 2, 3, 2 }, { 2, 3, 3 }, { 2, 2, 4 }, { 3, 2, 2, 2 }, { 3, 3, 1, 2 }, { 3, 1, 3, 3 }, { 3, 3, 2, 2 }, { 1, 9 }, { 2, 4, 3 }, { 2, 3, 4 }, { 3, 2, 3, 2 } };
    int k = rt_in(tier ? 20 : 15); s->dims = shapes[k][0]; for (int d = 0; d < 3; d++) s->ext[d] = d < s->dims ? shapes[k][d + 1] : 1;
    int N = cells(s); s->n = N > 8 ? 2 : 2 + rt_in(maxn - 1); int mx = -1;
    for (int i = 0; i < N; i++) s->own[i] = rt_in(s->n); (void)mx;
    s->split = rt_in(s->dims == 1 ? 2 : 3); s->org = rt_in(2) ? 0 : -2;
}
static int own_of(Laik_Partitioning* p, const S* s, uint8_t* own, int n) { return pm_owners(p, s->dims, s->ext, s->org, n, own, "P03"); }
void p03a_gen(int tier) {
    S* s = SH; memset(s, 0, sizeof *s); s->kind = rt_in(2); gen_base(s, tier, 3); s->order = 0;
    rt_setenv("LAIK_BACKEND", "single"); CTX("%s, %dd", s->kind ? "cornerhalo" : "halo", s->dims);
    DESC("%s of all depths on %dd space %dx%dx%d org %d, %d processes, split %d, owners ", s->kind ? "cornerhalo" : "halo", s->dims, s->ext[0], s->ext[1], s->ext[2], s->org, s->n, s->split);
    for (int i = 0; i < cells(s); i++) DESC("%d", s->own[i]);
}
void p03a_main(void) {
    S* s = SH; Laik_Instance* inst = app_init(); Laik_Group* g = pm_group(inst, s->n, 0); Laik_Space* sp = pm_space(inst, s->dims, s->ext, s->org);
    Laik_Partitioning* base = laik_new_partitioning(laik_new_partitioner("base", run_base, s, 0), g, sp, 0); int N = cells(s), X = s->ext[0], Y = s->ext[1]; uint8_t own[64 * 4];
    int mx = s->ext[0]; for (int d = 1; d < s->dims; d++) if (s->ext[d] > mx) mx = s->ext[d];
    for (int depth = 0; depth <= mx + 1; depth++) {
        rt_ctx("%s, %dd, depth %d", s->kind ? "cornerhalo" : "halo", s->dims, depth);
        Laik_Partitioning* p = laik_new_partitioning(s->kind ? laik_new_cornerhalo_partitioner(depth) : laik_new_halo_partitioner(depth), g, sp, base); own_of(p, s, own, s->n);
        for (int t = 0; t < s->n; t++) for (int i = 0; i < N; i++) {
            int want = 0, c[3] = { i % X, i / X % Y, i / X / Y };
            for (int j = 0; j < N && !want; j++) { if (s->own[j] != t) continue; int e[3] = { j % X, j / X % Y, j / X / Y }, far = 0, diff = 0; for (int d = 0; d < s->dims; d++) { int q = abs(c[d] - e[d]); if (q > depth) far = 1; if (q) diff++; } if (!far && (s->kind || diff <= 1)) want = 1; }
            RT_CHECK((own[i * s->n + t] > 0) == want, want ? "P03:halo-missing" : "P03:halo-extra", "depth %d: process %d %s index (%d,%d,%d)", depth, t, want ? "lacks" : "wrongly has", c[0] + s->org, c[1] + s->org, c[2] + s->org);
        }
        // halos live in the mapping of their range: same tags as the base, no more
        int cnt = laik_partitioning_rangecount(p); for (int k = 0; k < cnt; k++) { Laik_TaskRange* t = laik_partitioning_get_taskrange(p, k); int tag = laik_taskrange_get_tag(t); RT_CHECK(s->split == 1 ? tag >= 1 && tag <= N && s->own[tag - 1] == laik_taskrange_get_task(t) : tag == 1, "P03:halo-tag", "tag %d", tag); }
        rt_count(RTC_EVAL, 1); rt_state(rt_hash(depth, s, sizeof *s)); laik_free_partitioning(p);
    }
    laik_finalize(inst);
}
void p03a_end(void) {}
// copy
void p03b_gen(int tier) {
    S* s = SH; memset(s, 0, sizeof *s); gen_base(s, tier, 3); s->fdim = rt_in(s->dims); s->tdims = 1 + rt_in(3); s->tdim = rt_in(s->tdims);
    rt_setenv("LAIK_BACKEND", "single"); CTX("copy"); DESC("copy of dimension %d of %dd %dx%dx%d, %d processes, split %d to dimension %d of a %dd space; owners ", s->fdim, s->dims, s->ext[0], s->ext[1], s->ext[2], s->n, s->split, s->tdim, s->tdims);
    for (int i = 0; i < cells(s); i++) DESC("%d", s->own[i]);
}
void p03b_main(void) {
    S* s = SH; Laik_Instance* inst = app_init(); Laik_Group* g = pm_group(inst, s->n, 0); Laik_Space* sp = pm_space(inst, s->dims, s->ext, s->org);
    Laik_Partitioning* base = laik_new_partitioning(laik_new_partitioner("base", run_base, s, 0), g, sp, 0);
    int N = cells(s), X = s->ext[0], Y = s->ext[1], ext[3] = { 2, 3, 2 }; for (int d = s->tdims; d < 3; d++) ext[d] = 1; ext[s->tdim] = s->ext[s->fdim];
    Laik_Space* ts = pm_space(inst, s->tdims, ext, s->org); Laik_Partitioning* p = laik_new_partitioning(laik_new_copy_partitioner(s->fdim, s->tdim), g, ts, base);
    uint8_t own[512]; pm_owners(p, s->tdims, ext, s->org, s->n, own, "P03"); int M = ext[0] * ext[1] * ext[2];
    for (int t = 0; t < s->n; t++) for (int i = 0; i < M; i++) {
        int c[3] = { i % ext[0], i / ext[0] % ext[1], i / ext[0] / ext[1] }, want = 0;
        for (int j = 0; j < N; j++) { int e[3] = { j % X, j / X % Y, j / X / Y }; if (s->own[j] == t && e[s->fdim] == c[s->tdim]) want = 1; }
        RT_CHECK((own[i * s->n + t] > 0) == want, "P03:copy", "process %d %s index (%d,%d,%d)", t, want ? "lacks" : "wrongly has", c[0], c[1], c[2]);
    }
    rt_count(RTC_EVAL, 1); rt_state(rt_hash(3, s, sizeof *s)); laik_finalize(inst);
}
void p03b_end(void) {}
// reassign: 1d, any owners, any set of removed processes, optionally weights
static const double WT[] = { 1, 0, 4, 0.25 };
static double fw(Laik_Index* i, const void* u) { const S* s = u; int64_t x = i->i[0] - s->org; RT_CHECK(x >= 0 && x < s->ext[0], "P03:weight-index", "weight asked for index outside the space"); return WT[s->wt[x]]; }
void p03c_gen(int tier) {
    S* s = SH; memset(s, 0, sizeof *s); s->dims = 1; s->wk = rt_in(2); s->ext[0] = 1 + rt_in(s->wk ? (tier ? 5 : 4) : (tier ? 7 : 6)); s->ext[1] = s->ext[2] = 1; s->n = 2 + rt_in(s->wk ? 2 : 3);
    for (int i = 0; i < s->ext[0]; i++) s->own[i] = rt_in(s->n);
    s->removed = rt_in((1 << s->n) - 1); s->split = rt_in(2); s->org = rt_in(2) ? 0 : -3; if (s->wk) for (int i = 0; i < s->ext[0]; i++) s->wt[i] = rt_in(4);
    rt_setenv("LAIK_BACKEND", "single"); CTX("reassign"); DESC("reassign, %d indexes org %d, %d processes, removed mask %d, split %d, owners ", s->ext[0], s->org, s->n, s->removed, s->split);
    for (int i = 0; i < s->ext[0]; i++) DESC("%d", s->own[i]); if (s->wk) { DESC(" weights"); for (int i = 0; i < s->ext[0]; i++) DESC(" %g", WT[s->wt[i]]); }
}
void p03c_main(void) {
    S* s = SH; Laik_Instance* inst = app_init(); Laik_Group* g = pm_group(inst, s->n, 0); Laik_Space* sp = pm_space(inst, 1, s->ext, s->org);
    Laik_Partitioning* base = laik_new_partitioning(laik_new_partitioner("base", run_base, s, 0), g, sp, 0);
    int list[8], len = 0, n = s->n; for (int t = n - 1; t >= 0; t--) if (s->removed >> t & 1) list[len++] = t; // any order
    Laik_Group* ng = laik_new_shrinked_group(g, len, list);
    Laik_Partitioning* p = laik_new_partitioning(laik_new_reassign_partitioner(ng, s->wk ? fw : 0, s), g, sp, base);
    uint8_t own[64]; pm_owners(p, 1, s->ext, s->org, n, own, "P03"); double extra[8] = { 0 }, total = 0, wm = 0;
    for (int i = 0; i < s->ext[0]; i++) {
        int c = 0, o = -1; for (int t = 0; t < n; t++) if (own[i * n + t]) { c += own[i * n + t]; o = t; }
        RT_CHECK(c == 1, "P03:reassign-owners", "index %d has %d owners", i, c); RT_CHECK(!(s->removed >> o & 1), "P03:reassign-removed", "index %d still with removed process %d", i, o);
        double w = s->wk ? WT[s->wt[i]] : 1;
        if (!(s->removed >> s->own[i] & 1)) RT_CHECK(o == s->own[i], "P03:reassign-moved", "index %d moved from survivor %d to %d", i, s->own[i], o); else { extra[o] += w; total += w; if (w > wm) wm = w; }
    }
    for (int t = 0; t < n; t++) if (!(s->removed >> t & 1)) RT_CHECK(extra[t] <= total / (n - len) + wm + 1e-9, "P03:reassign-share", "survivor %d gets %g of %g", t, extra[t], total);
    laik_partitioning_migrate(p, ng); RT_CHECK(laik_partitioning_get_group(p) == ng, "P03:reassign-migrate", "wrong group after migration");
    pm_owners(p, 1, s->ext, s->org, n - len, own, "P03"); // numbering of the new group
    int nn = n - len, id = 0, newid[8]; for (int t = 0; t < n; t++) newid[t] = s->removed >> t & 1 ? -1 : id++;
    for (int i = 0; i < s->ext[0]; i++) if (newid[s->own[i]] >= 0) RT_CHECK(own[i * nn + newid[s->own[i]]] == 1, "P03:reassign-migrate", "index %d is not with its owner after migration", i);
    RT_CHECK(laik_partitioning_coversSpace(p), "P03:reassign-covers", "space not covered");
    rt_count(RTC_EVAL, 1); rt_state(rt_hash(4, s, sizeof *s)); laik_finalize(inst);
}
void p03c_end(void) {}
