// G01: derived process groups, and data in them
#include "box.h"
#define MN 5
typedef struct { int n, len[4], list[4][8], from[4]; int call_out; // groups 1..3 by shrinking group from[]
    int ng; int npath, path[4], kind[4], ro; int mask[4]; int pk; } S;
#define SH ((S*)rt_shared)
static void env(S* s) { rt_scen->nranks = s->n;
#ifdef VARIANT_TCP2
    rt_setenv("LAIK_BACKEND", "tcp2"); char b[16]; snprintf(b, 16, "%d", s->n); rt_setenv("LAIK_SIZE", b);
#elif defined(VARIANT_TCP)
    int c = rt_in(2) * 5; tcp_scen(s->n, c, 0); DESC(", %s", rt_tcp_config_name(c));
#else
    rt_setenv("LAIK_BACKEND", "mpi"); if (rt_in(2)) { rt_scen->mpi_rendezvous = rt_scen->mpi_syncoll = 1; DESC(", rendezvous"); }
#endif
}
static int cnt(int m) { return __builtin_popcount(m); }
static int rankin(int m, int w) { return (m >> w) & 1 ? cnt(m & ((1 << w) - 1)) : -1; }
static int memb(int m, int r) { for (int i = 0; i < 8; i++) if ((m >> i) & 1 && r-- == 0) return i; return -1; }
// group g: remove any of the members of <from>, in an order, possibly named twice
static void gen_shrink(S* s, int g, int from, int orders, int nonempty) {
    int pm = s->mask[from], sz = cnt(pm), rem = rt_in(1 << sz); s->from[g] = from; s->len[g] = 0; s->mask[g] = 0;
    if (nonempty && rem == (1 << sz) - 1) REJECT();
    int o = orders > 1 ? rt_in(orders) : 0, l = 0;
    for (int i = 0; i < sz; i++) if ((rem >> i) & 1) s->list[g][l++] = i; else s->mask[g] |= 1 << memb(pm, i);
    if (o && l < (o == 2 ? 1 : 2)) REJECT();
    if (o == 1) for (int i = 0; i < l / 2; i++) { int t = s->list[g][i]; s->list[g][i] = s->list[g][l - 1 - i]; s->list[g][l - 1 - i] = t; }
    if (o == 2) { s->list[g][l] = s->list[g][0]; l++; }
    s->len[g] = l; DESC(", group %d: %d without", g, from); for (int i = 0; i < l; i++) DESC(" %d", s->list[g][i]);
}
static void check_group(Laik_Group* g, Laik_Group* par, int mask, int pmask, int who, const char* what) {
    int n = cnt(mask), w = rt_rank();
    RT_CHECK(laik_size(g) == n, "G01:size", "%s has %d members instead of %d", what, laik_size(g), n);
    RT_CHECK(laik_myid(g) == rankin(mask, w), "G01:myid", "%s: process %d has rank %d instead of %d", what, w, laik_myid(g), rankin(mask, w));
    for (int i = 0; i < n; i++) RT_CHECK(laik_group_locationid(g, i) == memb(mask, i), "G01:location", "%s: rank %d is at location %d instead of %d", what, i, laik_group_locationid(g, i), memb(mask, i));
    if (par) {
        int* fp = who == 2 ? g->fromParent2 : g->fromParent, *tp = who == 2 ? g->toParent2 : g->toParent;
        RT_CHECK((who == 2 ? g->parent2 : laik_group_parent(g)) == par, "G01:parent", "%s has another parent", what);
        for (int i = 0; i < cnt(pmask); i++) RT_CHECK(fp[i] == rankin(mask, memb(pmask, i)), "G01:from", "%s: rank %d of parent becomes %d instead of %d", what, i, fp[i], rankin(mask, memb(pmask, i)));
        for (int i = 0; i < n; i++) RT_CHECK(tp[i] == rankin(pmask, memb(mask, i)), "G01:to", "%s: rank %d comes from %d instead of %d", what, i, tp[i], rankin(pmask, memb(mask, i)));
    }
    rt_count(RTC_EVAL, 1);
}
// --- a: numbering, and communication in the group
void g01a_gen(int tier) {
    S* s = SH; s->n = 1 + rt_in(tier ? 5 : 4); s->mask[0] = (1 << s->n) - 1; s->call_out = rt_in(2); DESC("%d processes%s", s->n, s->call_out ? ", also called by removed ones" : ""); int k = rt_in(3);
    gen_shrink(s, 1, 0, 3, 0); s->ng = 2;
    if (k) { gen_shrink(s, 2, 1, s->n > 3 && !tier ? 1 : 3, 0); s->ng = 3; if (s->n < 2) REJECT(); }
    if (k == 2) { if (s->n > (tier ? 4 : 3)) REJECT(); gen_shrink(s, 3, 0, 1, 0); s->ng = 4; }
    env(s); CTX("shrink");
}
static void mk_groups(S* s, Laik_Instance* inst, Laik_Group** G, int out) {
    G[0] = laik_world(inst);
    for (int i = 1; i < s->ng; i++) {
        Laik_Group* p = G[s->from[i]]; G[i] = 0; if (!p || (laik_myid(p) < 0 && !out)) continue;
        int l[8]; memcpy(l, s->list[i], sizeof l); G[i] = laik_new_shrinked_group(p, s->len[i], l); RT_CHECK(!memcmp(l, s->list[i], sizeof l), "G01:list", "list of removed processes was changed");
        char b[20]; snprintf(b, 20, "group %d", i); check_group(G[i], p, s->mask[i], s->mask[s->from[i]], 1, b);
    }
}
static void use_group(Laik_Instance* inst, Laik_Group* g, int mask) {
    if (!g || laik_myid(g) < 0) return; int n = cnt(mask), me = rt_rank();
    Laik_Space* sp = laik_new_space_1d(inst, n + 1); Laik_Data* d = laik_new_data(sp, laik_Int64);
    Laik_Partitioning* all = laik_new_partitioning(laik_All, g, sp, 0), *blk = laik_new_partitioning(laik_new_block_partitioner1(), g, sp, 0); int64_t* b; uint64_t c;
    laik_switchto_partitioning(d, all, LAIK_DF_None, LAIK_RO_None); laik_get_map_1d(d, 0, (void**)&b, &c); for (int i = 0; i <= n; i++) b[i] = (i + 1) * (1 << (4 * me));
    laik_switchto_partitioning(d, all, LAIK_DF_Preserve, LAIK_RO_Sum); laik_get_map_1d(d, 0, (void**)&b, &c); int64_t e = 0; for (int w = 0; w < MN; w++) if ((mask >> w) & 1) e += 1 << (4 * w);
    for (int i = 0; i <= n; i++) RT_CHECK(b[i] == (i + 1) * e, "G01:sum", "element %d of the sum over the group is %lld instead of %lld", i, (long long)b[i], (long long)((i + 1) * e));
    laik_switchto_partitioning(d, blk, LAIK_DF_Preserve, LAIK_RO_Any); if (laik_my_mapcount(blk)) { laik_get_map_1d(d, 0, (void**)&b, &c); for (uint64_t i = 0; i < c; i++) { int64_t gi = laik_local2global_1d(d, i); RT_CHECK(b[i] == (gi + 1) * e, "G01:value", "element %d lost", (int)gi); b[i] = 1000 * me + gi; } }
    laik_switchto_partitioning(d, laik_new_partitioning(laik_Master, g, sp, 0), LAIK_DF_Preserve, LAIK_RO_None);
    if (laik_myid(g) == 0) { laik_get_map_1d(d, 0, (void**)&b, &c); for (int i = 0; i <= n; i++) { int o = -1; for (int r = 0; r < n; r++) { Laik_TaskRange* t; for (int k = 0; (t = laik_partitioning_get_taskrange(blk, k)); k++) { const Laik_Range* q = laik_taskrange_get_range(t); if (laik_taskrange_get_task(t) == r && i >= q->from.i[0] && i < q->to.i[0]) o = r; } } RT_CHECK(o >= 0 && b[i] == 1000 * memb(mask, o) + i, "G01:value", "element %d is %lld, expected from process %d", i, (long long)b[i], memb(mask, o)); } }
    rt_count(RTC_EVAL, 1); laik_free(d);
}
void g01a_main(void) {
    S* s = SH; Laik_Instance* inst = app_init(); Laik_Group* G[4] = { 0 }; mk_groups(s, inst, G, s->call_out);
    check_group(G[0], 0, s->mask[0], 0, 0, "world"); for (int i = 0; i < s->ng; i++) use_group(inst, G[i], s->mask[i]);
    for (int i = s->ng - 1; i >= 0; i--) if (G[i]) { char b[20]; snprintf(b, 20, "group %d", i); check_group(G[i], i ? G[s->from[i]] : 0, s->mask[i], s->mask[s->from[i]], 1, b); }
    if (s->call_out) { // location strings are those of the members
        laik_sync_location(inst); RT_CHECK(!strcmp(laik_group_location(G[0], rt_rank()), laik_mylocation(inst)), "G01:locstr", "own location is '%s'", laik_group_location(G[0], rt_rank()));
        for (int i = 0; i < s->ng; i++) if (G[i]) for (int r = 0; r < cnt(s->mask[i]); r++) { char* l = laik_group_location(G[i], r); for (int w = 0; w < s->n; w++) { char* m = laik_group_location(G[0], w); RT_CHECK(l && m && !strcmp(l, m) == (w == memb(s->mask[i], r)), "G01:locstr", "group %d: rank %d is at location '%s', process %d at '%s'", i, r, l ? l : "-", w, m ? m : "-"); } }
    }
    laik_finalize(inst);
}
void g01a_end(void) { }
// --- b: switching data among partitionings of different groups
// partitioning kinds, over members of a group
static int owns(int kind, int mask, int w, int c, int N) {
    int r = rankin(mask, w), n = cnt(mask); if (r < 0) return 0;
    int b = c * n / N; // block of c
    switch (kind) { case 0: return b == r; case 1: return 1; case 2: return r == n - 1; case 3: return n - 1 - b == r; case 4: return b == r || (c + 1 < N && (c + 1) * n / N == r) || (c > 0 && (c - 1) * n / N == r); }
    return 0;
}
typedef struct { int kind, mask; } PK;
static void kind_run(Laik_RangeReceiver* rr, Laik_PartitionerParams* p) {
    PK* k = laik_partitioner_data(p->partitioner); int N = laik_space_size(p->space);
    for (int r = 0; r < cnt(k->mask); r++) for (int c = 0; c < N; ) { if (!owns(k->kind, k->mask, memb(k->mask, r), c, N)) { c++; continue; } int e = c; while (e < N && owns(k->kind, k->mask, memb(k->mask, r), e, N)) e++; Laik_Range g; laik_range_init_1d(&g, p->space, c, e); laik_append_range(rr, r, &g, 1, 0); c = e; }
}
#define NB 5
static Laik_Partitioning* mk_part(Laik_Group* g, Laik_Space* sp, int kind, int mask, PK* k) { k->kind = kind; k->mask = mask; return laik_new_partitioning(laik_new_partitioner("kind", kind_run, k, 0), g, sp, 0); }
static void path(S* s) { for (int i = 0; i < s->npath; i++) DESC("%s%d(%d)", i ? " -> " : "; data in groups ", s->path[i], s->kind[i]); if (s->ro) DESC(", last one sums"); env(s); }
void g01b_gen(int tier) {
    S* s = SH; s->n = 2 + rt_in(tier ? 3 : 2); s->mask[0] = (1 << s->n) - 1; DESC("%d processes", s->n); s->call_out = 1;
    gen_shrink(s, 1, 0, 1, 1); if (s->mask[1] == s->mask[0]) REJECT(); s->ng = 2; int k = rt_in(3);
    if (k == 1) { if (cnt(s->mask[1]) < 2) REJECT(); gen_shrink(s, 2, 1, 1, 1); s->ng = 3; }
    if (k == 2) { gen_shrink(s, 2, 0, 1, 1); s->ng = 3; if (s->mask[2] == s->mask[1] || s->mask[2] == s->mask[0]) REJECT(); }
    s->npath = 2 + rt_in(2); int used = 0;
    for (int i = 0; i < s->npath; i++) { s->path[i] = rt_in(s->ng); used |= 1 << s->path[i]; if (i && s->path[i] == s->path[i - 1]) REJECT(); s->kind[i] = rt_in(i == 0 ? 5 : s->n == 4 ? 2 : i == 1 && (tier || s->n == 2) ? 5 : 3); if (i != 0 && s->kind[i] == 2) s->kind[i] = 4; else if (i && s->kind[i] == 4) s->kind[i] = 2; }
    if (!((used >> (s->ng - 1)) & 1)) REJECT();
    s->ro = rt_in(2);
    path(s); CTX("switch between groups");
}
static double VAL(int c, int st) { return 1 + c + 10 * st; }
void g01b_main(void) {
    S* s = SH; Laik_Instance* inst = app_init(); Laik_Group* G[4] = { 0 }; mk_groups(s, inst, G, 1); int me = rt_rank();
    Laik_Space* sp = laik_new_space_1d(inst, NB); Laik_Data* d = laik_new_data(sp, laik_Double); PK pk[4]; Laik_Partitioning* p[4];
    for (int i = 0; i < s->npath; i++) p[i] = mk_part(G[s->path[i]], sp, s->kind[i], s->mask[s->path[i]], &pk[i]);
    for (int i = 0; i < s->npath; i++) {
        int sum = s->ro && i == s->npath - 1; laik_switchto_partitioning(d, p[i], i ? LAIK_DF_Preserve : LAIK_DF_None, sum ? LAIK_RO_Sum : LAIK_RO_Any);
        int m = s->mask[s->path[i]], pm = i ? s->mask[s->path[i - 1]] : 0, nown = 0; RT_CHECK(p[i]->group == G[s->path[i]], "G01:group", "partitioning changed its group"); RT_CHECK(laik_data_get_partitioning(d) == p[i], "G01:active", "partitioning not active");
        for (int c = 0; c < NB; c++) { if (!owns(s->kind[i], m, me, c, NB)) continue; nown++; double e = VAL(c, i); if (sum) { int k = 0; for (int w = 0; w < s->n; w++) if (owns(s->kind[i - 1], pm, w, c, NB)) { k++; } e *= k; }
            Laik_Index ix = { { c, 0, 0 } }; double* a = (double*)laik_get_map_addr(d, 0, &ix); RT_CHECK(a && rt_mem_ok(a, 8) == 1, "G01:address", "element %d not accessible", c); if (i) RT_CHECK(*a == e, "G01:value", "switch %d: element %d is %g instead of %g", i, c, *a, e); *a = VAL(c, i + 1); rt_count(RTC_EVAL, 1); }
        // borders are unchanged
        for (int k = 0;; k++) { Laik_TaskRange* t = laik_partitioning_get_taskrange(p[i], k); if (!t) break; const Laik_Range* r = laik_taskrange_get_range(t); for (int c = r->from.i[0]; c < r->to.i[0]; c++) RT_CHECK(owns(s->kind[i], m, memb(m, laik_taskrange_get_task(t)), c, NB), "G01:borders", "element %d now belongs to rank %d", c, laik_taskrange_get_task(t)); }
        RT_CHECK(laik_my_rangecount(p[i]) == 0 || nown, "G01:ranges", "process has ranges but owns nothing"); RT_CHECK(laik_my_mapcount(p[i]) == (nown > 0), "G01:maps", "%d mappings", laik_my_mapcount(p[i]));
    }
    laik_free(d); laik_finalize(inst);
}
void g01b_end(void) { }
// --- c: migrating partitionings. Processes to be removed own nothing
typedef struct { int n, b[6], e[6], task[6]; } MP;
void g01c_gen(int tier) {
    S* s = SH; s->n = 2 + rt_in(tier ? 3 : 2); s->mask[0] = (1 << s->n) - 1; DESC("%d processes", s->n); gen_shrink(s, 1, 0, 1, 1); s->ng = 2; s->call_out = 1; if (rt_in(2)) { gen_shrink(s, 2, 1, 1, 1); s->ng = 3; }
    s->pk = rt_in(5); s->kind[0] = rt_in(3); s->npath = rt_in(4); DESC("; kind %d migrated, data before in kind %d, %s", s->pk, s->kind[0], ((const char*[]) { "migrate while inactive", "migrate while active", "migrate there and back", "own and common ranges only" })[s->npath]); if (s->npath == 3 && s->kind[0] == 2) REJECT(); env(s); CTX("migrate");
}
static PK cpk[3];
static void c_run(Laik_RangeReceiver* rr, Laik_PartitionerParams* p) { // all in terms of world, owned by last group only
    S* s = SH; int m = s->mask[s->ng - 1], N = laik_space_size(p->space);
    for (int w = 0; w < s->n; w++) for (int c = 0; c < N; ) { if (!owns(s->pk, m, w, c, N)) { c++; continue; } int e = c; while (e < N && owns(s->pk, m, w, e, N)) e++; Laik_Range g; laik_range_init_1d(&g, p->space, c, e); laik_append_range(rr, w, &g, 1, 0); c = e; }
}
static void c_vals(S* s, Laik_Data* d, int st, int first) { int me = rt_rank(); for (int c = 0; c < NB; c++) if (owns(s->pk, s->mask[s->ng - 1], me, c, NB)) { Laik_Index ix = { { c, 0, 0 } }; double* a = (double*)laik_get_map_addr(d, 0, &ix); RT_CHECK(a && rt_mem_ok(a, 8) == 1, "G01:address", "element %d not accessible", c); if (!first) RT_CHECK(*a == VAL(c, st - 1), "G01:value", "element %d is %g instead of %g", c, *a, VAL(c, st - 1)); *a = VAL(c, st); rt_count(RTC_EVAL, 1); } }
static void c_bord(S* s, Laik_Partitioning* p, int m) { for (int k = 0;; k++) { if (!laik_partitioning_allranges(p)) break; Laik_TaskRange* t = laik_partitioning_get_taskrange(p, k); if (!t) break; const Laik_Range* r = laik_taskrange_get_range(t); int w = memb(m, laik_taskrange_get_task(t)); for (int c = r->from.i[0]; c < r->to.i[0]; c++) RT_CHECK(owns(s->pk, s->mask[s->ng - 1], w, c, NB), "G01:borders", "element %d now belongs to process %d", c, w); }
    int nown = 0; for (int c = 0; c < NB; c++) nown += owns(s->pk, s->mask[s->ng - 1], rt_rank(), c, NB); int k = 0; for (int i = 0; i < laik_my_rangecount(p); i++) { int64_t f, t; RT_CHECK(laik_my_range_1d(p, i, &f, &t), "G01:range", "range %d missing", i); k += t - f; } RT_CHECK(k == nown, "G01:owned", "%d indexes owned instead of %d", k, nown); }
void g01c_main(void) {
    S* s = SH; Laik_Instance* inst = app_init(); Laik_Group* G[4] = { 0 }; mk_groups(s, inst, G, 1);
    Laik_Space* sp = laik_new_space_1d(inst, NB); Laik_Data* d = laik_new_data(sp, laik_Double); int l = s->ng - 1; PK k0;
    Laik_Partitioner* pr = laik_new_partitioner("c", c_run, 0, 0); Laik_Partitioning* p0 = mk_part(G[0], sp, s->kind[0], s->mask[0], &k0), *p;
    if (s->npath == 3) { p = laik_new_empty_partitioning(G[0], sp, pr, 0); Laik_Partitioning* q = laik_new_empty_partitioning(G[0], sp, p0->partitioner, 0); p0 = q; laik_partitioning_store_myranges(p); laik_partitioning_store_myranges(q); laik_partitioning_store_intersectranges(p, q); laik_partitioning_store_intersectranges(q, p); }
    else p = laik_new_partitioning(pr, G[0], sp, 0);
    laik_switchto_partitioning(d, p0, LAIK_DF_None, LAIK_RO_None);
    for (int c = 0; c < NB; c++) if (owns(s->kind[0], s->mask[0], rt_rank(), c, NB)) { Laik_Index ix = { { c, 0, 0 } }; *(double*)laik_get_map_addr(d, 0, &ix) = VAL(c, 0); }
    c_bord(s, p, s->mask[0]);
    if (s->npath != 0) { laik_switchto_partitioning(d, p, LAIK_DF_Preserve, LAIK_RO_Any); c_vals(s, d, 1, 0); } 
    for (int i = 1; i <= l; i++) { laik_partitioning_migrate(p, G[i]); RT_CHECK(laik_partitioning_get_group(p) == G[i], "G01:group", "not migrated"); c_bord(s, p, s->mask[i]); }
    if (s->npath == 0) { laik_switchto_partitioning(d, p, LAIK_DF_Preserve, LAIK_RO_Any); RT_CHECK(laik_partitioning_get_group(p) == G[l], "G01:group", "group of partitioning changed"); c_vals(s, d, 1, 0); }
    if (s->npath == 2) { for (int i = l - 1; i >= 0; i--) { laik_partitioning_migrate(p, G[i]); c_bord(s, p, s->mask[i]); c_vals(s, d, 0, 1); c_vals(s, d, 1, 0); } laik_switchto_partitioning(d, p0, LAIK_DF_Preserve, LAIK_RO_Any); }
    else if (s->npath != 3) {
        // go on in the new group
        if (laik_myid(G[l]) >= 0) { PK k1; Laik_Partitioning* a = mk_part(G[l], sp, 1, s->mask[l], &k1); laik_switchto_partitioning(d, a, LAIK_DF_Preserve, LAIK_RO_Any); for (int c = 0; c < NB; c++) { Laik_Index ix = { { c, 0, 0 } }; double* v = (double*)laik_get_map_addr(d, 0, &ix); RT_CHECK(*v == VAL(c, 1), "G01:value", "element %d is %g instead of %g", c, *v, VAL(c, 1)); } }
    } else { c_vals(s, d, 2, 0); for (int i = l - 1; i >= 0; i--) laik_partitioning_migrate(p, G[i]); c_bord(s, p, s->mask[0]); laik_switchto_partitioning(d, p0, LAIK_DF_Preserve, LAIK_RO_Any); }
    if (s->npath >= 2) for (int c = 0; c < NB; c++) if (owns(s->kind[0], s->mask[0], rt_rank(), c, NB)) { Laik_Index ix = { { c, 0, 0 } }; double v = *(double*)laik_get_map_addr(d, 0, &ix), e = VAL(c, s->npath == 2 ? 1 : 2); RT_CHECK(v == e, "G01:value", "element %d is %g instead of %g", c, v, e); }
    laik_free(d); laik_finalize(inst);
}
void g01c_end(void) { (void)cpk; }
// --- d: union of groups
void g01d_gen(int tier) {
    S* s = SH; s->n = 2 + rt_in(tier ? 4 : 3); s->mask[0] = (1 << s->n) - 1; DESC("%d processes", s->n); gen_shrink(s, 1, 0, 1, 1); int k = rt_in(2); if (s->n == 5 && k) REJECT(); gen_shrink(s, 2, k, 1, 1); s->ng = 3; if (k == 0 && s->n < 5) { } s->path[0] = rt_in(2) ? 2 : 1; s->path[1] = rt_in(4); if (s->path[1] == 3) s->path[1] = 0; else s->path[1] = 3 - s->path[0]; if (!s->path[1]) s->path[1] = 0;
    s->call_out = 1; DESC(", union of %d and %d", s->path[0], s->path[1]); env(s); CTX("union");
}
void g01d_main(void) {
    S* s = SH; Laik_Instance* inst = app_init(); Laik_Group* G[4] = { 0 }; mk_groups(s, inst, G, 1); int a = s->path[0], b = s->path[1], m = s->mask[a] | s->mask[b];
    Laik_Group* u = laik_new_union_group(G[a], G[b]);
    if (m == s->mask[a]) RT_CHECK(u == G[a] || (m == s->mask[b] && u == G[b]), "G01:union", "the larger group is not used as union"); else if (m == s->mask[b]) RT_CHECK(u == G[b], "G01:union", "the larger group is not used as union");
    else { check_group(u, G[a], m, s->mask[a], 1, "union"); check_group(u, G[b], m, s->mask[b], 2, "union"); }
    check_group(u, 0, m, 0, 0, "union"); use_group(inst, u, m); for (int i = 0; i < 3; i++) check_group(G[i], 0, s->mask[i], 0, 0, "group"); for (int i = 0; i < 3; i++) use_group(inst, G[i], s->mask[i]);
    laik_finalize(inst);
}
void g01d_end(void) { }
