// M02: local access to the indexes owned
#include "box.h"
typedef struct { int sh, org, n, tags, prov, prev; int bi[2][3]; } S;
#define SH ((S*)rt_shared)
static const int TAGS[][3] = { { 1, 1, 1 }, { 1, 2, 3 }, { 3, 2, 1 }, { 0, 0, 0 }, { 2, 1, 2 } };
static int boxes(S* s, int r, Box* b) { static Box all[256]; bx_all(s->sh, all); int k = 0; for (int i = 0; i < 3; i++) if (s->bi[r][i] >= 0) b[k++] = all[s->bi[r][i]]; return k; }
// process 0 has up to 3 disjoint ranges, process 1 another set
static void gen(int nb, int full) {
    S* s = SH; int na = bx_all(s->sh, 0); static Box all[256]; bx_all(s->sh, all); for (int i = 0; i < 3; i++) s->bi[0][i] = s->bi[1][i] = -1;
    for (int i = 0; i < nb; i++) { int k = rt_in(na); if (!full && i == 2 && k % 3) REJECT(); s->bi[0][i] = k; for (int j = 0; j < i; j++) if (bx_overlap(all[k], all[s->bi[0][j]])) REJECT(); if (i && s->tags == 0 && k < s->bi[0][i - 1]) REJECT(); }
    if (nb) s->bi[1][0] = (s->bi[0][0] * 7 + 3) % na;
    s->n = 2; rt_setenv("LAIK_BACKEND", "mpi"); rt_scen->nranks = 2; rt_scen->maxmem = 1L << 40;
    Box b[3]; int c = boxes(s, 0, b); DESC("%dd from %d, tags %d/%d/%d%s, process 0:", BDIM[s->sh], s->org, TAGS[s->tags][0], TAGS[s->tags][1], TAGS[s->tags][2], s->prov ? ", memory provided" : s->prev == 1 ? ", from one large mapping" : s->prev ? ", from several mappings" : ""); for (int i = 0; i < c; i++) DESC(" [%d;%d[x[%d;%d[x[%d;%d[", BSTR(b[i])); CTX("%dd access", BDIM[s->sh]);
}
void m02a_gen(int tier) { S* s = SH; s->sh = rt_in(tier ? 4 : 3); s->org = rt_in(2) * 9 - (s->sh == 1 ? 3 : 0); s->tags = rt_in(5); s->prov = rt_in(2); s->prev = s->prov ? 0 : rt_in(3); int nb = rt_in(s->sh == 0 || tier ? 4 : 3); if (s->sh == 3 && nb == 3) REJECT(); if (s->prov && nb == 0) REJECT(); gen(nb, s->sh == 0 || tier); }
static double V(int x, int y, int z) { return 1 + x + 10 * y + 100 * z; }
void m02a_main(void) {
    S* s = SH; Laik_Instance* inst = app_init(); Laik_Group* w = laik_world(inst); int me = laik_myid(w), dims = BDIM[s->sh], org = s->org; Box b[3]; int nb = boxes(s, me, b); Box full = { { 0, 0, 0 }, { BEXT[s->sh][0], BEXT[s->sh][1], BEXT[s->sh][2] } };
    Laik_Space* sp = bx_space(inst, s->sh, org); BPart q = { 0 }; q.org = org;
    for (int r = 0; r < 2; r++) { Box t[3]; int k = boxes(s, r, t); for (int i = 0; i < k; i++) { q.task[q.n] = r; q.tag[q.n] = TAGS[s->tags][i]; q.b[q.n++] = t[i]; } }
    Laik_Partitioning* p = bx_partitioning(w, sp, &q); Laik_Data* d = laik_new_data(sp, laik_Double); double* mem = 0; size_t msz = 0;
    // expected mappings: one for each tag, in order of tags; without tag one for each range
    Box mb[3]; int mt[3], mn[3] = { 0 }, nm = 0; for (int i = 0; i < nb; i++) { int tag = TAGS[s->tags][i], f = -1; for (int j = 0; j < nm; j++) if (tag && mt[j] == tag) f = j; if (f < 0) { mb[nm] = b[i]; mt[nm] = tag; f = nm++; } else mb[f] = bx_join(mb[f], b[i]); mn[f]++; }
    // memory is provided for mapping 0: as large as its ranges need
    if (s->prov && nm) { int big = 0; for (int j = 0; j < nm; j++) if (bx_size(mb[j]) > big) big = bx_size(mb[j]); msz = big * sizeof(double); mem = rt_malloc(msz); laik_data_provide_memory(d, mem, msz); }
    BPart qp = { 0 }; // partitioning before: memory may be reused
    if (s->prev) { qp.org = org; for (int r = 0; r < 2; r++) { Box c[2] = { full, full }; int h = (full.t[dims - 1] + 1) / 2; if (s->prev == 2) { c[0].t[dims - 1] = h; c[1].f[dims - 1] = h; } for (int i = 0; i < s->prev; i++) { qp.task[qp.n] = r; qp.tag[qp.n] = s->prev == 1 ? TAGS[s->tags][0] : TAGS[s->tags][i]; qp.b[qp.n++] = c[i]; } } laik_switchto_partitioning(d, bx_partitioning(w, sp, &qp), LAIK_DF_None, LAIK_RO_None); }
    laik_switchto_partitioning(d, p, LAIK_DF_None, LAIK_RO_None);
    RT_CHECK(laik_my_rangecount(p) == nb, "M02:ranges", "%d own ranges instead of %d", laik_my_rangecount(p), nb);
    RT_CHECK(laik_my_mapcount(p) == nm, "M02:maps", "%d mappings instead of %d", laik_my_mapcount(p), nm);
    int used[3] = { 0 }, rused[3] = { 0 };
    for (int m = 0; m < nm; m++) {
        // which one is it?
        int rc = laik_my_maprangecount(p, m), which = -1; Box bb; Laik_Mapping* mp = laik_get_map(d, m); RT_CHECK(mp && laik_map_get_mapNo(mp) == m, "M02:map", "mapping %d not found", m);
        for (int i = 0; i < rc; i++) { Laik_TaskRange* tr = laik_my_maprange(p, m, i); RT_CHECK(tr, "M02:maprange", "range %d of mapping %d not found", i, m); const Laik_Range* r = laik_taskrange_get_range(tr); RT_CHECK(laik_taskrange_get_task(tr) == me && laik_taskrange_get_mapNo(tr) == m, "M02:maprange", "range %d of mapping %d belongs to process %d mapping %d", i, m, laik_taskrange_get_task(tr), laik_taskrange_get_mapNo(tr));
            Box x = { { 0, 0, 0 }, { 1, 1, 1 } }; for (int k = 0; k < dims; k++) { x.f[k] = r->from.i[k] - org; x.t[k] = r->to.i[k] - org; } int f = -1; for (int j = 0; j < nb; j++) if (!rused[j] && !memcmp(&b[j], &x, sizeof x)) f = j; RT_CHECK(f >= 0, "M02:range", "mapping %d has a range not assigned", m); rused[f] = 1; bb = i ? bx_join(bb, x) : x; }
        RT_CHECK(laik_my_maprange(p, m, rc) == 0, "M02:maprange", "mapping %d has more than %d ranges", m, rc);
        for (int j = 0; j < nm; j++) if (!used[j] && !memcmp(&mb[j], &bb, sizeof bb) && mn[j] == rc) { which = j; break; } RT_CHECK(which >= 0, "M02:map", "ranges of mapping %d are not those with one tag", m); used[which] = 1;
        if (TAGS[s->tags][0]) for (int j = 0; j < m; j++) (void)j;
        int bs = bx_size(bb), ex = bb.t[0] - bb.f[0], ey = bb.t[1] - bb.f[1], ez = bb.t[2] - bb.f[2]; double* base = 0; uint64_t c = 0, xs = 0, ys = 1, zs = 1, yst = 0, zst = 0; void* ret;
        if (dims == 1) { ret = laik_get_map_1d(d, m, (void**)&base, &c); RT_CHECK((int)c == bs, "M02:size", "mapping %d has %d elements instead of %d", m, (int)c, bs); xs = c; }
        else if (dims == 2) { ret = laik_get_map_2d(d, m, (void**)&base, &ys, &yst, &xs); }
        else ret = laik_get_map_3d(d, m, (void**)&base, &zs, &zst, &ys, &yst, &xs);
        RT_CHECK(ret == mp && base, "M02:map", "mapping %d not returned", m); RT_CHECK((int)xs == ex && (int)ys == ey && (int)zs == ez, "M02:size", "mapping %d has size %dx%dx%d instead of %dx%dx%d", m, (int)xs, (int)ys, (int)zs, ex, ey, ez);
        FORBOX(bb, x, y, z) { double* a = base + (z - bb.f[2]) * zst + (y - bb.f[1]) * yst + (x - bb.f[0]); RT_CHECK(rt_mem_ok(a, 8) == 1, "M02:memory", "element %d/%d/%d of mapping %d lies outside of memory", x, y, z, m); *a = V(x, y, z) + 1000 * m; Laik_Index ix; bx_index(&ix, x, y, z, org, dims); RT_CHECK((double*)laik_get_map_addr(d, m, &ix) == a, "M02:addr", "address of %d/%d/%d in mapping %d differs", x, y, z, m); }
        if (mem && m == 0) RT_CHECK(base == mem, "M02:provided", "provided memory is not used in place");
    }
    double* bp; uint64_t cc = 5; RT_CHECK(laik_get_map(d, nm) == 0 && laik_get_map(d, -1) == 0, "M02:map", "mapping %d found", nm); if (dims == 1) { RT_CHECK(laik_get_map_1d(d, nm, (void**)&bp, &cc) == 0 && bp == 0 && cc == 0, "M02:map", "mapping %d found", nm); }
    // all elements are distinct
    for (int m = 0; m < nm; m++) { int j = 0; Laik_TaskRange* tr; for (int i = 0; (tr = laik_my_maprange(p, m, i)); i++) { const Laik_Range* r = laik_taskrange_get_range(tr); Box x = { { 0, 0, 0 }, { 1, 1, 1 } }; for (int k = 0; k < dims; k++) { x.f[k] = r->from.i[k] - org; x.t[k] = r->to.i[k] - org; } FORBOX(x, X, Y, Z) { Laik_Index ix; bx_index(&ix, X, Y, Z, org, dims); double* a = (double*)laik_get_map_addr(d, m, &ix); RT_CHECK(*a == V(X, Y, Z) + 1000 * m, "M02:distinct", "element %d/%d/%d of mapping %d shares its place", X, Y, Z, m); j++; } } rt_count(RTC_EVAL, j); }
    // own ranges by number
    int seen[3] = { 0 };
    for (int i = 0; i < nb; i++) { int64_t f[3] = { 0, 0, 0 }, t[3] = { 1, 1, 1 }; void* r = dims == 1 ? laik_my_range_1d(p, i, f, t) : dims == 2 ? laik_my_range_2d(p, i, f, t, f + 1, t + 1) : laik_my_range_3d(p, i, f, t, f + 1, t + 1, f + 2, t + 2); RT_CHECK(r, "M02:range", "own range %d not found", i); int q2 = -1; for (int j = 0; j < nb; j++) { int eq = !seen[j]; for (int k = 0; k < dims; k++) eq &= f[k] == b[j].f[k] + org && t[k] == b[j].t[k] + org; if (eq) q2 = j; } RT_CHECK(q2 >= 0, "M02:range", "own range %d is not one assigned", i); seen[q2] = 1; }
    { int64_t f = 7, t = 7; void* r = dims == 1 ? laik_my_range_1d(p, nb, &f, &t) : dims == 2 ? laik_my_range_2d(p, nb, &f, &t, 0, 0) : laik_my_range_3d(p, nb, &f, &t, 0, 0, 0, 0); RT_CHECK(!r && f == 0 && t == 0, "M02:range", "own range %d found", nb); }
    if (dims == 1) for (int g = -2; g < full.t[0] + 2; g++) {
        int own = 0, mapped = 0; for (int j = 0; j < nb; j++) own |= g >= b[j].f[0] && g < b[j].t[0]; for (int j = 0; j < nm; j++) mapped |= g >= mb[j].f[0] && g < mb[j].t[0];
        uint64_t l = 99, l2 = 99; int mn2 = 77; Laik_Mapping* m = laik_global2local_1d(d, g + org, &l), *m2 = laik_global2maplocal_1d(d, g + org, &mn2, &l2);
        if (!mapped) { RT_CHECK(!m && !m2 && mn2 == -1, "M02:notowned", "index %d found in a mapping", g); continue; }
        if (!own) continue;
        RT_CHECK(m && m2 == m && l == l2 && mn2 == laik_map_get_mapNo(m), "M02:local", "index %d not found in a mapping", g); double* base; laik_get_map_1d(d, mn2, (void**)&base, 0); Laik_Index ix; bx_index(&ix, g, 0, 0, org, 1);
        RT_CHECK(base + l == (double*)laik_get_map_addr(d, mn2, &ix), "M02:local", "local index %d of %d is not its address", (int)l, g); RT_CHECK(laik_maplocal2global_1d(d, mn2, l) == g + org, "M02:inverse", "local index %d of mapping %d is converted to %d instead of %d", (int)l, mn2, (int)laik_maplocal2global_1d(d, mn2, l), g + org);
        if (nm == 1) RT_CHECK(laik_local2global_1d(d, l) == g + org, "M02:inverse", "local index %d is converted to %d instead of %d", (int)l, (int)laik_local2global_1d(d, l), g + org);
    }
    // leaving the partitioning keeps provided memory
    if (mem) { Box a = full; BPart q3 = { 0 }; q3.n = 2; q3.org = org; q3.task[1] = 1; q3.tag[0] = q3.tag[1] = 7; q3.b[0] = q3.b[1] = a; Laik_Partitioning* p3 = bx_partitioning(w, sp, &q3); laik_data_provide_memory(d, 0, 0); laik_switchto_partitioning(d, p3, LAIK_DF_None, LAIK_RO_None); RT_CHECK(rt_mem_ok(mem, msz) == 1, "M02:provided", "provided memory was released"); laik_free(d); RT_CHECK(rt_mem_ok(mem, msz) == 1, "M02:provided", "provided memory was released"); rt_free(mem); }
    else laik_free(d);
    laik_finalize(inst);
}
void m02a_end(void) { }
