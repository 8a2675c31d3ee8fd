// P04: queries on partitionings against the list of ranges handed over
#include "part.h"
#define ML 6
typedef struct { int task, lo[3], hi[3], tag; } R;
typedef struct { int n, dims, ext[3], nt, mode; R r[ML]; int n2; R q[ML]; } S;
#define SH ((S*)rt_shared)
static int64_t ORG, STR; static const S* cur; static const R* curR; static int curN; static int useidx;
static Laik_Space* mkspace(Laik_Instance* inst, const S* s) {
    Laik_Space* sp = s->dims == 1 ? laik_new_space_1d(inst, 1) : s->dims == 2 ? laik_new_space_2d(inst, 1, 1) : laik_new_space_3d(inst, 1, 1, 1); const int* e = s->ext;
    if (s->dims == 1) laik_change_space_1d(sp, ORG, ORG + STR * e[0]);
    if (s->dims == 2) laik_change_space_2d(sp, ORG, ORG + STR * e[0], ORG, ORG + STR * e[1]);
    if (s->dims == 3) laik_change_space_3d(sp, ORG, ORG + STR * e[0], ORG, ORG + STR * e[1], ORG, ORG + STR * e[2]);
    return sp;
}
static void runp(Laik_RangeReceiver* rr, Laik_PartitionerParams* pp) {
    for (int i = 0; i < curN; i++) { const R* r = &curR[i];
        if (useidx) { laik_append_index_1d(rr, r->task, ORG + r->lo[0]); continue; }
        Laik_Range g; memset(&g, 0x55, sizeof g); g.space = pp->space; for (int d = 0; d < cur->dims; d++) { g.from.i[d] = ORG + STR * r->lo[d]; g.to.i[d] = ORG + STR * r->hi[d]; }
        laik_append_range(rr, r->task, &g, r->tag, (void*)(uintptr_t)(i + 1)); }
}
static Laik_Partitioning* mk(Laik_Instance* inst, Laik_Group* g, Laik_Space* sp, const S* s, const R* r, int n, int flags) {
    cur = s; curR = r; curN = n; (void)inst;
    return laik_new_partitioning(laik_new_partitioner("list", runp, 0, flags | LAIK_PF_NoFullCoverage), g, sp, 0);
}
typedef struct { R r; void* data; int map; } O;
static int get(Laik_TaskRange* t, const S* s, O* o) {
    if (!t) return 0; const Laik_Range* g = laik_taskrange_get_range(t); memset(o, 0, sizeof *o); o->r.task = laik_taskrange_get_task(t); o->r.tag = laik_taskrange_get_tag(t); o->data = laik_taskrange_get_data(t); o->map = laik_taskrange_get_mapNo(t);
    for (int d = 0; d < s->dims; d++) { int64_t a = g->from.i[d] - ORG, b = g->to.i[d] - ORG; RT_CHECK(a % STR == 0 && b % STR == 0, "P04:range", "border of a range is none of the given ones"); o->r.lo[d] = a / STR; o->r.hi[d] = b / STR; }
    return 1;
}
static int same(const O* a, const O* b) { return !memcmp(&a->r, &b->r, sizeof(R)) && a->data == b->data && a->map == b->map; }
static int rcmp(const void* a, const void* b) { return memcmp(a, b, sizeof(R)); }
static int ncell(const S* s) { return s->ext[0] * (s->dims > 1 ? s->ext[1] : 1) * (s->dims > 2 ? s->ext[2] : 1); }
static int inR(const S* s, const R* r, int i) { int c[3] = { i % s->ext[0], i / s->ext[0] % (s->dims > 1 ? s->ext[1] : 1), i / s->ext[0] / (s->dims > 1 ? s->ext[1] : 1) }; for (int d = 0; d < s->dims; d++) if (c[d] < r->lo[d] || c[d] >= r->hi[d]) return 0; return 1; }
static int full(const S* s, const R* r) { for (int d = 0; d < s->dims; d++) if (r->lo[d] || r->hi[d] != s->ext[d]) return 0; return 1; }
// everything that can be asked about one partitioning; order[] receives the reported sequence
static int verify(const S* s, Laik_Partitioning* p, Laik_Group* g, const R* in, int n, int merge, O* seq) {
    int cnt = laik_partitioning_rangecount(p), used[64] = { 0 }, N = ncell(s);
    RT_CHECK(cnt >= 0 && cnt <= n, "P04:count", "%d ranges reported, %d given", cnt, n); if (!merge) RT_CHECK(cnt == n, "P04:count", "%d ranges reported, %d given", cnt, n);
    for (int i = 0; i < cnt; i++) {
        RT_CHECK(get(laik_partitioning_get_taskrange(p, i), s, &seq[i]), "P04:range", "range %d missing", i);
        if (!merge) { int f = 0; for (int j = 0; j < n && !f; j++) if (!used[j] && !memcmp(&in[j], &seq[i].r, sizeof(R)) && (useidx || seq[i].data == (void*)(uintptr_t)(j + 1))) { used[j] = 1; f = 1; } RT_CHECK(f, "P04:range", "reported range %d (process %d, [%d;%d[, tag %d) was not given, or its data got lost", i, seq[i].r.task, seq[i].r.lo[0], seq[i].r.hi[0], seq[i].r.tag); }
        else if (!useidx) { for (int j = 0; j < i; j++) if (seq[j].r.task == seq[i].r.task && seq[j].r.tag == seq[i].r.tag) RT_CHECK(seq[i].r.lo[0] > seq[j].r.hi[0] || seq[j].r.lo[0] > seq[i].r.hi[0], "P04:not-merged", "ranges %d and %d are not merged", j, i); }
        if (i) RT_CHECK(seq[i - 1].r.task <= seq[i].r.task, "P04:order", "ranges not in process order");
    }
    RT_CHECK(laik_partitioning_get_taskrange(p, cnt) == 0, "P04:range", "range after the last one");
    // index assignment; with tags: per tag
    uint8_t own[64][4] = { { 0 } };
    for (int i = 0; i < N; i++) for (int t = 0; t < s->nt; t++) {
        for (int tag = 0; tag < 3; tag++) {
            int a = 0, b = 0; for (int j = 0; j < n; j++) if (in[j].task == t && in[j].tag == tag && inR(s, &in[j], i)) a++; for (int j = 0; j < cnt; j++) if (seq[j].r.task == t && seq[j].r.tag == tag && inR(s, &seq[j].r, i)) b++;
            RT_CHECK(merge ? (a > 0) == (b > 0) && b <= 1 : a == b, "P04:assignment", "process %d holds index %d (tag %d) %d times, given %d times", t, i, tag, b, a); own[i][t] += a;
        }
    }
    int covers = 1, all = 1, single = -1; for (int i = 0; i < N; i++) { int c = 0; for (int t = 0; t < s->nt; t++) c |= own[i][t]; if (!c) covers = 0; }
    RT_CHECK(laik_partitioning_coversSpace(p) == covers, "P04:coversSpace", "coversSpace is %d", !covers);
    // documented: one range with the full space for each process / for exactly one process
    if (cnt != s->nt) all = 0; for (int j = 0; j < cnt; j++) if (seq[j].r.task != j || !full(s, &seq[j].r)) all = 0;
    if (cnt == 1 && full(s, &seq[0].r)) single = seq[0].r.task;
    RT_CHECK(laik_partitioning_isAll(p) == all, "P04:isAll", "isAll is %d", !all); int si = laik_partitioning_isSingle(p); RT_CHECK(si == single, "P04:isSingle", "isSingle is %d, expected %d", si, single);
    Laik_RangeList* rl = laik_partitioning_allranges(p); RT_CHECK(rl && laik_rangelist_rangecount(rl) == cnt, "P04:list", "range count of list");
    int off = 0;
    for (int t = 0; t < s->nt; t++) {
        int k = 0; while (off + k < cnt && seq[off + k].r.task == t) k++;
        // grouping: tag 0 is a mapping of its own, equal tags share one
        int maps = 0; for (int j = 0; j < k; j++) {
            O* o = &seq[off + j]; int m = maps; if (j && o->r.tag > 0 && !useidx) for (int x = 0; x < j; x++) if (seq[off + x].r.tag == o->r.tag) m = seq[off + x].map;
            if (useidx) { RT_CHECK(o->map == 0, "P04:map", "single index range in mapping %d", o->map); maps = 1; continue; }
            RT_CHECK(o->map == m, "P04:map", "range %d of process %d (tag %d) in mapping %d, expected %d", j, t, o->r.tag, o->map, m); if (m == maps) maps++;
        }
        RT_CHECK(laik_rangelist_tidrangecount(rl, t) == k, "P04:tid-count", "range count %d of process %d, expected %d", laik_rangelist_tidrangecount(rl, t), t, k);
        RT_CHECK(laik_rangelist_tidmapcount(rl, t) == maps, "P04:map-count", "mapping count of process %d", t);
        for (int pass = 0; pass < 2; pass++) { // by list, as own process
            O o; g->myid = t; if (pass) { RT_CHECK(laik_my_rangecount(p) == k, "P04:my-count", "own range count of %d", t); RT_CHECK(laik_my_mapcount(p) == maps, "P04:my-maps", "own map count of %d", t); }
            for (int j = 0; j < k; j++) {
                RT_CHECK(get(pass ? laik_my_range(p, j) : laik_rangelist_tidrange(rl, t, j), s, &o) && same(&o, &seq[off + j]), "P04:tid-range", "range %d of process %d differs", j, t);
                if (pass) { int64_t v[6] = { 0 }; Laik_TaskRange* tr = s->dims == 1 ? laik_my_range_1d(p, j, v, v + 1) : s->dims == 2 ? laik_my_range_2d(p, j, v, v + 1, v + 2, v + 3) : laik_my_range_3d(p, j, v, v + 1, v + 2, v + 3, v + 4, v + 5);
                    RT_CHECK(tr != 0, "P04:my-range", "my_range_%dd", s->dims); for (int d = 0; d < s->dims; d++) RT_CHECK(v[2 * d] == ORG + STR * o.r.lo[d] && v[2 * d + 1] == ORG + STR * o.r.hi[d], "P04:my-range", "borders of own range %d in dimension %d", j, d); }
            }
            RT_CHECK((pass ? laik_my_range(p, k) : laik_rangelist_tidrange(rl, t, k)) == 0 && (pass ? laik_my_range(p, -1) : laik_rangelist_tidrange(rl, t, -1)) == 0, "P04:tid-range", "range outside of the ranges of %d", t);
            for (int m = 0; m < maps; m++) {
                int c = 0; for (int j = 0; j < k; j++) if (seq[off + j].map == m) { RT_CHECK(get(pass ? laik_my_maprange(p, m, c) : laik_rangelist_tidmaprange(rl, t, m, c), s, &o) && same(&o, &seq[off + j]), "P04:map-range", "range %d of mapping %d of process %d differs", c, m, t); c++; }
                int mc = pass ? laik_my_maprangecount(p, m) : (int)laik_rangelist_tidmaprangecount(rl, t, m); RT_CHECK(mc == c, "P04:map-range-count", "mapping %d of process %d has %d ranges, expected %d", m, t, mc, c);
                RT_CHECK((pass ? laik_my_maprange(p, m, c) : laik_rangelist_tidmaprange(rl, t, m, c)) == 0, "P04:map-range", "range outside of mapping");
            }
            RT_CHECK((pass ? laik_my_maprange(p, maps, 0) : laik_rangelist_tidmaprange(rl, t, maps, 0)) == 0, "P04:map-range", "mapping outside of the mappings of %d", t);
        }
        off += k;
    }
    RT_CHECK(off == cnt, "P04:order", "ranges of unknown processes");
    g->myid = -1; RT_CHECK(laik_my_rangecount(p) == 0 && laik_my_mapcount(p) == 0 && laik_my_range(p, 0) == 0 && laik_my_maprange(p, 0, 0) == 0, "P04:not-member", "ranges for a process outside of the group"); g->myid = 0;
    rt_count(RTC_EVAL, 1); return cnt;
}
static void list_main(void) {
    const S* s = SH; Laik_Instance* inst = app_init(); static const int64_t orgs[] = { 0, -2, -(1ll << 34) }, strs[] = { 1, 1, 1ll << 33 };
    for (int c = 0; c < 3; c++) for (int merge = 0; merge < (s->dims == 1 ? 2 : 1); merge++) {
        ORG = orgs[c]; STR = strs[c]; rt_ctx("coordinates %d%s", c, merge ? ", merge" : "");
        Laik_Group* g = pm_group(inst, s->nt, 0); Laik_Space* sp = mkspace(inst, s); O seq[ML * 2], seq2[ML * 2];
        int fl = (merge ? LAIK_PF_Merge : 0) | (c == 1 ? LAIK_PF_GroupByTag | LAIK_PF_Compact : 0);
        Laik_Partitioning* p = mk(inst, g, sp, s, s->r, s->n, fl); int k = verify(s, p, g, s->r, s->n, merge, seq);
        // the same set of ranges in another order: same sequence reported
        R sorted[ML]; memcpy(sorted, s->r, sizeof sorted); qsort(sorted, s->n, sizeof(R), rcmp);
        Laik_Partitioning* p2 = mk(inst, g, sp, s, sorted, s->n, fl); int k2 = verify(s, p2, g, sorted, s->n, merge, seq2);
        RT_CHECK(k == k2, "P04:deterministic", "number of ranges depends on the order they are given in");
        for (int i = 0; i < k; i++) RT_CHECK(!memcmp(&seq[i].r, &seq2[i].r, sizeof(R)) && seq[i].map == seq2[i].map, "P04:deterministic", "order of reported ranges depends on the order they are given in");
        RT_CHECK(laik_partitioning_isEqual(p, p2) && laik_partitioning_isEqual(p2, p), "P04:isEqual", "partitionings with the same ranges are not equal");
        laik_free_partitioning(p); laik_free_partitioning(p2);
    }
    rt_state(rt_hash(1, s, sizeof *s)); laik_finalize(inst);
}
static void lst(const R* r, int n, int dims) { for (int i = 0; i < n; i++) { DESC(" %d:", r[i].task); for (int d = 0; d < dims; d++) DESC("%s%d-%d", d ? "," : "", r[i].lo[d], r[i].hi[d]); if (r[i].tag) DESC("/%d", r[i].tag); } }
static void genR(R* r, const S* s, int tags) {
    r->task = rt_in(s->nt); for (int d = 0; d < s->dims; d++) { int e = s->ext[d], k = rt_in(e * (e + 1) / 2); for (int a = 0; a < e; a++) { if (k < e - a) { r->lo[d] = a; r->hi[d] = a + 1 + k; break; } k -= e - a; } }
    r->tag = tags > 1 ? rt_in(tags) : 0;
}
// 1d lists
void p04a_gen(int tier) {
    S* s = SH; memset(s, 0, sizeof *s); s->dims = 1; s->n = rt_in(tier ? 5 : 4); s->ext[0] = s->n == 4 ? 3 : 4; s->nt = s->n <= 2 ? 3 : 2; for (int i = 0; i < s->n; i++) genR(&s->r[i], s, s->n == 4 ? 2 : 3);
    rt_setenv("LAIK_BACKEND", "single"); CTX("1d"); DESC("1d, %d cells, %d processes:", s->ext[0], s->nt); lst(s->r, s->n, 1);
}
void p04a_main(void) { list_main(); }
void p04a_end(void) {}
// 2d and 3d lists
void p04b_gen(int tier) {
    S* s = SH; memset(s, 0, sizeof *s); int k = rt_in(tier ? 4 : 3); s->dims = k == 0 || k == 3 ? 2 : 3; static const int e[][3] = { { 2, 2, 0 }, { 2, 1, 2 }, { 1, 2, 2 }, { 2, 3, 0 } }; memcpy(s->ext, e[k], sizeof s->ext); s->n = rt_in(4); s->nt = 2; for (int i = 0; i < s->n; i++) genR(&s->r[i], s, k == 3 ? 1 : 2);
    rt_setenv("LAIK_BACKEND", "single"); CTX("%dd", s->dims); DESC("%dd, %dx%dx%d cells, %d processes:", s->dims, s->ext[0], s->ext[1], s->ext[2], s->nt); lst(s->r, s->n, s->dims);
}
void p04b_main(void) { list_main(); }
void p04b_end(void) {}
// 1d, single indexes
void p04c_gen(int tier) {
    S* s = SH; memset(s, 0, sizeof *s); s->dims = 1; s->ext[0] = tier ? 5 : 4; s->nt = tier ? 3 : 2; s->n = rt_in(tier ? 6 : 6); for (int i = 0; i < s->n; i++) { s->r[i].task = rt_in(s->nt); s->r[i].lo[0] = rt_in(s->ext[0]); s->r[i].hi[0] = s->r[i].lo[0] + 1; }
    rt_setenv("LAIK_BACKEND", "single"); CTX("single indexes"); DESC("single indexes, %d processes:", s->nt); lst(s->r, s->n, 1);
}
void p04c_main(void) {
    const S* s = SH; Laik_Instance* inst = app_init(); useidx = 1; STR = 1;
    for (int c = 0; c < 2; c++) { ORG = c ? -(1ll << 40) : 0; Laik_Group* g = pm_group(inst, s->nt, 0); Laik_Space* sp = mkspace(inst, s); O seq[ML], seq2[ML]; rt_ctx("single indexes, coordinates %d", c);
        Laik_Partitioning* p = mk(inst, g, sp, s, s->r, s->n, c ? LAIK_PF_SingleIndex : 0); int k = verify(s, p, g, s->r, s->n, 1, seq);
        for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) if (seq[i].r.task == seq[j].r.task) RT_CHECK(seq[i].r.lo[0] > seq[j].r.hi[0], "P04:not-merged", "single indexes not merged or not sorted");
        // a partitioner giving the merged ranges itself
        R m[ML]; for (int i = 0; i < k; i++) m[i] = seq[i].r; useidx = 0; Laik_Partitioning* p2 = mk(inst, g, sp, s, m, k, 0); (void)seq2;
        RT_CHECK(laik_partitioning_isEqual(p, p2), "P04:isEqual", "not equal to the partitioning with merged ranges"); useidx = 1; laik_free_partitioning(p); laik_free_partitioning(p2); }
    rt_state(rt_hash(2, s, sizeof *s)); laik_finalize(inst);
}
void p04c_end(void) {}
// equality of pairs
void p04d_gen(int tier) {
    S* s = SH; memset(s, 0, sizeof *s); s->dims = 1 + rt_in(2); s->ext[0] = s->dims == 1 ? (tier ? 4 : 3) : 2; s->ext[1] = s->dims > 1 ? (tier ? 2 : 2) : 0; s->nt = 2; s->n = rt_in(3); s->n2 = rt_in(3); if (s->dims == 2 && !tier && s->n == 2 && s->n2 == 2) s->ext[1] = 1 + rt_in(2), s->nt = s->ext[1] == 1 ? 2 : 1;
    for (int i = 0; i < s->n; i++) genR(&s->r[i], s, 1); for (int i = 0; i < s->n2; i++) genR(&s->q[i], s, 1);
    rt_setenv("LAIK_BACKEND", "single"); CTX("equality, %dd", s->dims); DESC("equality, %dd:", s->dims); lst(s->r, s->n, s->dims); DESC(" with"); lst(s->q, s->n2, s->dims);
}
void p04d_main(void) {
    const S* s = SH; Laik_Instance* inst = app_init(); ORG = -1; STR = 1ll << 32; Laik_Group* g = pm_group(inst, s->nt, 0); Laik_Space* sp = mkspace(inst, s), *sp2 = mkspace(inst, s);
    Laik_Partitioning *p = mk(inst, g, sp, s, s->r, s->n, 0), *q = mk(inst, g, sp, s, s->q, s->n2, 0); R a[ML], b[ML]; memcpy(a, s->r, sizeof a); memcpy(b, s->q, sizeof b); qsort(a, s->n, sizeof(R), rcmp); qsort(b, s->n2, sizeof(R), rcmp);
    int eq = s->n == s->n2 && !memcmp(a, b, sizeof(R) * s->n); RT_CHECK(laik_partitioning_isEqual(p, q) == eq && laik_partitioning_isEqual(q, p) == eq, "P04:isEqual", "equality is %d", !eq);
    Laik_Partitioning* o = mk(inst, g, sp2, s, s->r, s->n, 0); RT_CHECK(!laik_partitioning_isEqual(p, o), "P04:isEqual", "partitionings of different spaces are equal");
    Laik_Group* g3 = pm_group(inst, s->nt + 1, 0); o = mk(inst, g3, sp, s, s->r, s->n, 0); RT_CHECK(!laik_partitioning_isEqual(p, o), "P04:isEqual", "partitionings for different numbers of processes are equal");
    rt_count(RTC_EVAL, 1); rt_state(rt_hash(3, s, sizeof *s)); laik_finalize(inst);
}
void p04d_end(void) {}
// many ranges: coverage with all cells, with each single cell missing, cells in different orders
typedef struct { int dims, ext[3], order, miss; } C; static const C* cc;
static int cN(const C* c) { return c->ext[0] * c->ext[1] * c->ext[2]; }
static void runc(Laik_RangeReceiver* rr, Laik_PartitionerParams* pp) {
    int N = cN(cc), X = cc->ext[0], Y = cc->ext[1];
    for (int k = 0; k < N; k++) { int h = cc->order & 1, i = cc->order < 2 ? (h ? N - 1 - k : k) : (k < (N + 1 - h) / 2 ? 2 * k + h : 2 * (k - (N + 1 - h) / 2) + 1 - h);
        int c[3] = { i % X, i / X % Y, i / X / Y }; if (cc->order >= 4) { c[2] = i % cc->ext[2]; c[1] = i / cc->ext[2] % Y; c[0] = i / cc->ext[2] / Y; } if ((c[2] * Y + c[1]) * X + c[0] == cc->miss) continue;
        Laik_Range g; g.space = pp->space; for (int d = 0; d < 3; d++) { g.from.i[d] = c[d]; g.to.i[d] = c[d] + 1; } laik_append_range(rr, (c[0] + c[1] + c[2]) % 3, &g, 0, 0); }
}
void p04e_gen(int tier) {
    C* c = rt_shared; memset(c, 0, sizeof *c); int k = rt_in(6); c->dims = 1 + k % 3; int E = 1 + rt_in(c->dims == 1 ? (tier ? 300 : 130) : c->dims == 2 ? (tier ? 300 : 240) : (tier ? 20 : 16));
    c->ext[0] = c->dims == 1 ? E : c->dims == 2 ? (k == 1 ? 2 : (E + 7) / 8) : 2; c->ext[1] = c->dims == 1 ? 1 : c->dims == 2 ? (k == 1 ? E : (E + 7) / 8) : E; c->ext[2] = c->dims < 3 ? 1 : k == 2 ? E : 3; c->order = rt_in(6);
    rt_setenv("LAIK_BACKEND", "single"); CTX("many ranges, %dd", c->dims); DESC("cells of a %dd space %dx%dx%d, order %d, all and all but one", c->dims, c->ext[0], c->ext[1], c->ext[2], c->order); }
void p04e_main(void) {
    C* c = rt_shared; C q = *c; cc = &q; Laik_Instance* inst = app_init(); Laik_Group* g = pm_group(inst, 3, 0); Laik_Space* sp = pm_space(inst, c->dims, c->ext, 0); int N = cN(c);
    for (int step = -1; step < N; step += step < 0 ? 1 : 1 + N / 8) { q.miss = step; Laik_Partitioning* p = laik_new_partitioning(laik_new_partitioner("cells", runc, 0, step < 0 ? 0 : LAIK_PF_NoFullCoverage), g, sp, 0);
        RT_CHECK(laik_partitioning_coversSpace(p) == (step < 0), "P04:coversSpace", "%d cells, cell %d missing: coversSpace is %d", N, step, step >= 0); rt_count(RTC_EVAL, 1); rt_state(rt_hash(step, c, sizeof *c)); laik_free_partitioning(p); }
    laik_finalize(inst);
}
void p04e_end(void) {}
