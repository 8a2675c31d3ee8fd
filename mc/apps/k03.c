// K03: spaces announced in the space store are the same on all processes after
// synchronisation, and as usable as spaces created locally
#include "part.h"
#ifdef VARIANT_TCP2
#include "tcp2.h"
#endif
#define KP 4
#define KN 3
typedef struct { int np, nr, use, op[KP][3], own_name; } S;
#define SH ((S*)rt_shared)
static const char* NM[KN + 1] = { "A", "space 2d,(1/2)", "space-0", "never" };
typedef struct { int dims; int64_t f[3], t[3]; } V; // dims 0: not in store
#define BIGV 4611686018427387904LL
static const V VAL[KN][4] = {
    { { 1, { 0 }, { 5 } }, { 1, { -3 }, { 7 } }, { 1, { -1099511627776LL }, { BIGV } }, { 1, { 4 }, { 4 } } },
    { { 2, { 0, 0 }, { 2, 3 } }, { 2, { -1, -7 }, { 4, 9 } }, { 2, { -1, 0 }, { 4, 3 } }, { 2, { INT64_MIN, -BIGV }, { INT64_MIN + 3, BIGV - 1 } } },
    { { 3, { 0, 0, 0 }, { 2, 3, 2 } }, { 3, { -4, 5, -6 }, { 4, 6, -5 } }, { 3, { 0, 5, 0 }, { 2, 6, 2 } }, { 3, { -1999999999999999999LL, INT64_MIN, -1999999999999999999LL }, { -1999999999999999996LL, INT64_MIN + 2, -1999999999999999998LL } } } };
enum { O_NONE, O_A0, O_A1, O_A2, O_A3, O_B0, O_B1, O_B2, O_B3, O_C0, O_C1, O_C2, O_C3, O_A01, O_A10, O_ALL, O_LOOK, O_LOCAL, O_REANN, O_N };
static const char* ON[] = { "nothing", "A=[0;5)", "A=[-3;7)", "A=large", "A=empty", "B=2x3", "B=[-1;4)x[-7;9)", "B=[-1;4)x[0;3)", "B=extreme", "C=2x3x2", "C=8x1x1", "C=2x1x2", "C=extreme", "A twice", "A away and back", "all three", "lookup", "not announced space", "announce again" };
static const V* last(int op, int n, V* o) { // value op gives to name n; 0: none
    int v = -1;
    if (op >= 100) { // first value with some of the ends moved by one
        int m = (op - 100) & 63; if (n != (op - 100) >> 6) return 0;
        *o = VAL[n][0]; for (int d = 0; d < o->dims; d++) { o->f[d] += (m >> d) & 1; o->t[d] += 3 + ((m >> (3 + d)) & 1); }
        return o;
    }
    if (op >= O_A0 && op <= O_A3 && n == 0) v = op - O_A0;
    if (op >= O_B0 && op <= O_B3 && n == 1) v = op - O_B0;
    if (op >= O_C0 && op <= O_C3 && n == 2) v = op - O_C0;
    if ((op == O_A01 && n == 0)) v = 1;
    if ((op == O_A10 && n == 0)) v = 0;
    if (op == O_ALL) v = 1;
    if (v < 0) return 0;
    *o = VAL[n][v]; return o;
}
static int veq(const V* a, const V* b) { return !memcmp(a, b, sizeof *a); }
static void chg(Laik_Space* s, const V* v) {
    if (v->dims == 1) laik_change_space_1d(s, v->f[0], v->t[0]);
    if (v->dims == 2) laik_change_space_2d(s, v->f[0], v->t[0], v->f[1], v->t[1]);
    if (v->dims == 3) laik_change_space_3d(s, v->f[0], v->t[0], v->f[1], v->t[1], v->f[2], v->t[2]);
}
static Laik_Space* H[KN]; // what was returned first
static void put(Laik_Instance* inst, int n, const V* v, int var) {
    Laik_Space* s = H[n];
    if (!s) s = laik_spacestore_get(inst, (char*)NM[n]);
    if (!s) {
        // either with the final extent, or changed before being announced
        int plain = !v->f[0] && !v->f[1] && !v->f[2]; int64_t e[3]; for (int d = 0; d < 3; d++) e[d] = plain && !var ? v->t[d] : 9;
        s = v->dims == 1 ? laik_new_space_1d(inst, e[0]) : v->dims == 2 ? laik_new_space_2d(inst, e[0], e[1]) : laik_new_space_3d(inst, e[0], e[1], e[2]);
        laik_set_space_name(s, (char*)NM[n]);
        if (!plain || var == 1) chg(s, v);
        laik_spacestore_set(s); if (var == 2) chg(s, v); else if (plain && var) chg(s, v);
        H[n] = s;
    } else { H[n] = s; chg(s, v); }
}
static void ops(Laik_Instance* inst, int op, int me, int r) {
    V o; int var = (me + r) % 3;
    if (op == O_LOOK) { for (int n = 0; n < KN; n++) { Laik_Space* s = laik_spacestore_get(inst, (char*)NM[n]); RT_CHECK(s == H[n], "K03:lookup", "lookup of '%s' gives %s", NM[n], s ? "another space" : "nothing"); } return; }
    if (op == O_LOCAL) { Laik_Space* s = laik_new_space_2d(inst, 3, 3); laik_set_space_name(s, (char*)NM[0]); laik_change_space_2d(s, 1, 3, 1, 3); return; }
    if (op == O_REANN) { for (int n = 0; n < KN; n++) if (H[n]) laik_spacestore_set(H[n]); return; }
    if (op == O_A01) put(inst, 0, &VAL[0][0], var);
    if (op == O_A10) put(inst, 0, &VAL[0][1], var);
    for (int n = 0; n < KN; n++) if (last(op, n, &o)) put(inst, n, &o, var);
}
static int merge(const S* s, const V* base, int r, V* out) {
    for (int n = 0; n < KN; n++) {
        out[n] = base[n]; V o; int who = -1;
        for (int p = 0; p < s->np; p++) if (last(s->op[p][r], n, &o)) {
            int t = !veq(&o, &base[n]) || (n == 0 && (s->op[p][r] == O_A01 || s->op[p][r] == O_A10)); if (!t) continue;
            if (who >= 0 && !veq(&o, &out[n])) return 0;
            who = p; out[n] = o;
        }
    }
    return 1;
}
static void check(Laik_Instance* inst, const V* v, int r, const char* wh) {
    RT_CHECK(!laik_spacestore_get(inst, (char*)NM[KN]), "K03:unknown", "round %d %s: space found which was never announced", r, wh);
    for (int n = 0; n < KN; n++) {
        Laik_Space* s = laik_spacestore_get(inst, (char*)NM[n]);
        if (!v[n].dims) { RT_CHECK(!s, "K03:unknown", "round %d %s: space '%s' found though not announced", r, wh, NM[n]); continue; }
        RT_CHECK(s && rt_mem_ok(s, sizeof *s), "K03:missing", "round %d %s: space '%s' not found", r, wh, NM[n]);
        RT_CHECK(!H[n] || H[n] == s, "K03:object", "round %d %s: space '%s' is another object than before", r, wh, NM[n]); H[n] = s;
        RT_CHECK(laik_space_getdimensions(s) == v[n].dims, "K03:dims", "round %d %s: space '%s' has %d dimensions", r, wh, NM[n], laik_space_getdimensions(s));
        RT_CHECK(!strcmp(s->name, NM[n]), "K03:name", "round %d %s: space '%s' has name '%s'", r, wh, NM[n], s->name);
        const Laik_Range* g = laik_space_asrange(s); uint64_t sz = 1;
        for (int d = 0; d < v[n].dims; d++) { RT_CHECK(g->from.i[d] == v[n].f[d] && g->to.i[d] == v[n].t[d], "K03:extent", "round %d %s: space '%s' covers [%lld;%lld[ in dimension %d instead of [%lld;%lld[", r, wh, NM[n], (long long)g->from.i[d], (long long)g->to.i[d], d, (long long)v[n].f[d], (long long)v[n].t[d]); sz *= (uint64_t)v[n].t[d] - (uint64_t)v[n].f[d]; }
        RT_CHECK(g->space == s, "K03:range", "round %d %s: range of space '%s' belongs to another space", r, wh, NM[n]);
        RT_CHECK(laik_space_size(s) == sz, "K03:size", "round %d %s: space '%s' has size %llu instead of %llu", r, wh, NM[n], (unsigned long long)laik_space_size(s), (unsigned long long)sz);
        rt_event(rt_hash(n, &v[n], sizeof v[n]));
    }
}
// the announced space can be partitioned, and data moved in it
static void use(Laik_Instance* inst, const V* v) {
    static uint8_t own[8192]; Laik_Group* w = laik_world(inst); int np = laik_size(w), me = laik_myid(w);
    for (int n = 0; n < KN; n++) if (v[n].dims && v[n].t[0] > v[n].f[0] && laik_space_size(H[n]) <= 100) {
        int ext[3] = { 1, 1, 1 }; for (int d = 0; d < v[n].dims; d++) ext[d] = (int)(v[n].t[d] - v[n].f[d]);
        Laik_Partitioning* b = laik_new_partitioning(laik_new_block_partitioner1(), w, H[n], 0), *a = laik_new_partitioning(laik_All, w, H[n], 0), *m = laik_new_partitioning(laik_Master, w, H[n], 0);
        RT_CHECK(laik_partitioning_coversSpace(b) && laik_partitioning_isAll(a) && laik_partitioning_isSingle(m) == 0, "K03:partitioning", "partitioning of space '%s' does not cover it", NM[n]);
        int64_t cnt = 0; for (int i = 0; i < laik_partitioning_rangecount(b); i++) cnt += (int64_t)laik_range_size(laik_taskrange_get_range(laik_partitioning_get_taskrange(b, i)));
        RT_CHECK(cnt == (int64_t)laik_space_size(H[n]), "K03:partitioning", "blocks of space '%s' have %lld indexes", NM[n], (long long)cnt); (void)own; (void)ext;
        Laik_Data* d = laik_new_data(H[n], laik_Int64); laik_switchto_partitioning(d, b, LAIK_DF_None, LAIK_RO_None);
        int64_t* p; uint64_t c; 
        for (int r = 0; r < laik_my_rangecount(b); r++) {
            Laik_TaskRange* tr = laik_my_range(b, r); const Laik_Range* g = laik_taskrange_get_range(tr); int64_t* base; uint64_t ysz, xsz, ys = 0, zsz = 1, zs = 0; ysz = 1;
            if (v[n].dims == 1) laik_get_map_1d(d, r, (void**)&base, &xsz); else if (v[n].dims == 2) laik_get_map_2d(d, r, (void**)&base, &ysz, &ys, &xsz); else laik_get_map_3d(d, r, (void**)&base, &zsz, &zs, &ysz, &ys, &xsz);
            for (uint64_t z = 0; z < zsz; z++) for (uint64_t y = 0; y < ysz; y++) for (uint64_t x = 0; x < xsz; x++)
                base[z * zs + y * ys + x] = (g->from.i[0] + (int64_t)x) + (v[n].dims > 1 ? 100 * (g->from.i[1] + (int64_t)y) : 0) + (v[n].dims > 2 ? 10000 * (g->from.i[2] + (int64_t)z) : 0);
        }
        laik_switchto_partitioning(d, a, LAIK_DF_Preserve, LAIK_RO_None);
        uint64_t ysz = 1, xsz, ys = 0, zsz = 1, zs = 0; (void)c;
        if (v[n].dims == 1) laik_get_map_1d(d, 0, (void**)&p, &xsz); else if (v[n].dims == 2) laik_get_map_2d(d, 0, (void**)&p, &ysz, &ys, &xsz); else laik_get_map_3d(d, 0, (void**)&p, &zsz, &zs, &ysz, &ys, &xsz);
        RT_CHECK((int)xsz == ext[0] && (int)ysz == ext[1] && (int)zsz == ext[2], "K03:data", "process %d: local data of space '%s' has size %d/%d/%d", me, NM[n], (int)xsz, (int)ysz, (int)zsz);
        for (int z = 0; z < ext[2]; z++) for (int y = 0; y < ext[1]; y++) for (int x = 0; x < ext[0]; x++) {
            int64_t e = v[n].f[0] + x + (v[n].dims > 1 ? 100 * (v[n].f[1] + y) : 0) + (v[n].dims > 2 ? 10000 * (v[n].f[2] + z) : 0);
            RT_CHECK(p[z * zs + y * ys + x] == e, "K03:data", "value at %d/%d/%d of space '%s' is %lld instead of %lld", x, y, z, NM[n], (long long)p[z * zs + y * ys + x], (long long)e);
        }
        laik_free(d); (void)np;
    }
}
static void k03_main(void) {
    S* s = SH; Laik_Instance* inst = app_init(); Laik_Group* w = laik_world(inst); int me = laik_myid(w); memset(H, 0, sizeof H);
    static V base[KN], own[KN], out[KN]; memset(base, 0, sizeof base);
    for (int r = 0; r < s->nr; r++) {
        ops(inst, s->op[me][r], me, r);
        memcpy(own, base, sizeof own); V o; for (int n = 0; n < KN; n++) if (last(s->op[me][r], n, &o)) own[n] = o;
        check(inst, own, r, "before sync");
        int ok = merge(s, base, r, out); assert(ok);
        laik_sync_spaces(inst);
        check(inst, out, r, "after sync"); memcpy(base, out, sizeof base);
        if (s->use) use(inst, base);
    }
    laik_finalize(inst);
}
#ifdef VARIANT_TCP
static void backend(int tier) { int c = rt_in(2) * 5; tcp_scen(rt_scen->nranks, c, 0); DESC("%s, ", rt_tcp_config_name(c)); }
#elif defined VARIANT_TCP2
static void backend(int tier) { int f = rt_in(tier ? 5 : 3); tcp2_scen(rt_scen->nranks, rt_scen->nranks, tier && f == 0 ? 1 : 0); tcp2_frag(f); DESC("fragmentation %d, ", f); }
#else
static void backend(int tier) { rt_setenv("LAIK_BACKEND", "mpi"); rt_scen->mpi_rendezvous = tier ? rt_in(2) : 1; }
#endif
static void gen(int tier) {
    S* s = SH; static const int Q[] = { O_NONE, O_A0, O_A1, O_B1, O_C2, O_ALL, O_LOOK, O_LOCAL, O_A10, O_REANN };
    int f = rt_in(3); rt_scen->nranks = s->np = f == 0 ? 2 : f == 1 ? 3 : 1 + 3 * rt_in(2); s->nr = f == 0 ? 2 : f == 1 ? (tier ? 2 : 1) : 3;
#ifdef VARIANT_TCP
    if (f == 2 && s->np == 4) REJECT();
#endif
    for (int r = 0; r < s->nr; r++) for (int p = 0; p < s->np; p++)
        s->op[p][r] = f == 0 ? (r && p && !tier ? Q[rt_in(9)] : rt_in(O_N)) : f == 1 ? Q[rt_in(tier && r ? 4 : 9)] : s->np == 1 ? rt_in(O_N) : p > 1 ? O_LOOK : Q[(r < 2 || tier) ? rt_in(r == 2 ? 3 : 5) : 0];
    V base[KN], out[KN]; memset(base, 0, sizeof base);
    for (int r = 0; r < s->nr; r++) { if (!merge(s, base, r, out)) REJECT(); memcpy(base, out, sizeof base); }
    s->use = 1; backend(tier);
    DESC("%d processes;", s->np); for (int r = 0; r < s->nr; r++) { DESC(" round %d:", r); for (int p = 0; p < s->np; p++) DESC(" [%s]", ON[s->op[p][r]]); } CTX("spaces, %d processes", s->np);
}
void k03a_gen(int tier) { gen(tier); }
void k03a_main(void) { k03_main(); }
void k03a_end(void) { }
// b: changes of any subset of the ends
void k03b_gen(int tier) {
    S* s = SH; rt_scen->nranks = s->np = 2; s->nr = 3; memset(s->op, 0, sizeof s->op);
    int n = rt_in(3), m1 = rt_in(64), m2 = rt_in(64), w = rt_in(4); s->use = 0;
    for (int d = n + 1; d < 3; d++) if (((m1 | m2) >> d | (m1 | m2) >> (3 + d)) & 1) REJECT();
    s->op[0][0] = 100 + 64 * n; s->op[w & 1][1] = 100 + 64 * n + m1; s->op[w >> 1][2] = 100 + 64 * n + m2;
    rt_setenv("LAIK_BACKEND", "mpi"); DESC("2 processes, space '%s': announced, process %d moves ends %x, process %d moves ends %x", NM[n], w & 1, m1, w >> 1, m2); CTX("spaces, any ends");
}
void k03b_main(void) { k03_main(); }
void k03b_end(void) { }
