// T-family: pairs of partitionings
#include "prog.h"
static const struct { int n, N; } dimT[] = { { 1, 3 }, { 2, 3 }, { 3, 2 }, { 2, 4 }, { 3, 3 }, { 4, 2 } };
// t01a: 1d, every pair of owner-mask assignments, values preserved, then back
void t01a_gen(int tier) {
    Prog* p = PG;
    int c = rt_in(tier ? 6 : 4);
    int mode = rt_in(2) ? PGM_MPI_RDV : PGM_MPI; if (c > 2 && mode != PGM_MPI_RDV) REJECT();
    pg_mode(mode);
    int n = dimT[c].n, N = dimT[c].N;
    pg_init(p, n, 1, N, 1, 1); p->org = c == 1 ? -1 : 0;
    int multi = rt_in(2); // several owners of the same value
    int A = pg_part(p), B = pg_part(p);
    if (multi) pg_masks(&p->part[A], N, n, 1); else pg_single(&p->part[A], N, n);
    if (multi) { int any = 0; for (int i = 0; i < N; i++) if (__builtin_popcount(p->part[A].own[i]) > 1) any = 1; if (!any) REJECT(); }
    pg_masks(&p->part[B], N, n, 0);
    int tg = c < 3 ? rt_in(3) : 0;
    p->part[A].tag = tg == 1 ? 1 : tg == 2 ? 4 : 0; p->part[B].tag = tg;
    p->part[B].order = tg == 1;
    int red = multi ? LAIK_RO_Any : LAIK_RO_None;
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, 0);
    pg_op(p, P_SWITCH, B, LAIK_DF_Preserve, red); pg_op(p, P_CHECK, 0, 0, 0);
    int cov = 1, b1 = 1; for (int i = 0; i < N; i++) { if (!p->part[B].own[i]) cov = 0; if (__builtin_popcount(p->part[B].own[i]) > 1) b1 = 0; }
    if (cov) { pg_op(p, P_SWITCH, A, LAIK_DF_Preserve, b1 ? LAIK_RO_None : LAIK_RO_Any); pg_op(p, P_CHECK, 0, 0, 0); }
    pg_desc(p); CTX("1d%s tag%d", multi ? " multi" : "", tg);
    if (!pg_valid(p)) REJECT();
}
void t01a_main(void) { pg_run(); }
void t01a_end(void) {}
static void lay(Prog* p, int l) { p->layout = l; if (l == 1) rt_setenv("LAIK_LAYOUT_GENERIC", "1"); }
static int cov(Prog* p, int q) { for (int i = 0; i < pg_cells(p); i++) if (!p->part[q].own[i]) return 0; return 1; }
static void tagsel(Prog* p, int A, int B, int k) {
    // 0: every range its own mapping, 1: one mapping with several ranges, 2: single cells in one mapping, 3: single cells in alternating mappings, 4: rows, own mapping each, other order
    static const int sp[5][2] = { { 0, 0 }, { 0, 0 }, { 1, 1 }, { 1, 1 }, { 4, 4 } }; static const int tg[5][2] = { { 0, 0 }, { 1, 1 }, { 1, 1 }, { 3, 3 }, { 0, 4 } };
    if (k < 5) { p->part[A].split = sp[k][0]; p->part[B].split = sp[k][1]; p->part[A].tag = tg[k][0]; p->part[B].tag = tg[k][1]; }
    else { // mixed
        p->part[A].split = 0; p->part[B].split = 1; p->part[A].tag = 4; p->part[B].tag = 1; p->part[B].order = 1; }
}
// t01b: 2d/3d pairs
void t01b_gen(int tier) {
    Prog* p = PG;
    static const struct { int n, d, x, y, z; } D[] = { { 2, 2, 2, 2, 1 }, { 2, 2, 3, 2, 1 }, { 3, 2, 2, 2, 1 }, { 2, 3, 2, 2, 2 }, { 2, 2, 2, 3, 1 }, { 2, 3, 3, 1, 2 }, { 2, 2, 3, 3, 1 } };
    int c = rt_in(tier ? 7 : 4); pg_mode(PGM_MPI_RDV);
    pg_init(p, D[c].n, D[c].d, D[c].x, D[c].y, D[c].z); int N = pg_cells(p), n = D[c].n; p->org = c & 1 ? -1 : 0;
    int A = pg_part(p), B = pg_part(p);
    int k;
    if (c == 0) { lay(p, rt_in(4)); p->access = p->layout < 2 ? rt_in(2) : 0; k = tier ? rt_in(6) : p->layout ? 5 * rt_in(2) : (int[]){ 0, 3, 5 }[rt_in(3)]; p->types[0] = p->access ? 1 : 7; if (!tier && p->access && k) REJECT(); }
    else { lay(p, tier ? rt_in(3) : 0); k = c == 3 || c == 6 ? (tier ? rt_in(3) * 2 : 0) : c == 2 && !tier ? 5 : rt_in(tier ? 6 : 2) * (tier ? 1 : 3); p->access = p->layout == 0 && k == 0; p->types[0] = c == 2 ? 0 : 7; }
    tagsel(p, A, B, k);
    int multi = c == 0 || c == 2;
    if (multi) pg_masks(&p->part[A], N, n, 1); else pg_single(&p->part[A], N, n);
    if (multi && (tier || (c == 0 && p->layout == 0))) pg_masks(&p->part[B], N, n, 0); else pg_single(&p->part[B], N, n);
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, 0);
    pg_op(p, P_SWITCH, B, LAIK_DF_Preserve, 0); pg_op(p, P_CHECK, 0, 0, 0);
    if (cov(p, B)) { pg_op(p, P_SWITCH, A, LAIK_DF_Preserve, 0); pg_op(p, P_CHECK, 0, 0, 0); }
    pg_desc(p); CTX("%dd%s layout %d ranges %d", p->dims, multi ? " multi" : "", p->layout, k);
    if (!pg_valid(p)) REJECT();
}
void t01b_main(void) { pg_run(); }
void t01b_end(void) {}
// t01c: sequences over a family of partitionings, two containers of different types
static void fam(Prog* p, int f, int nn) {
    // partitioning family over N indexes and nn processes
    int q = pg_part(p), N = pg_cells(p); PPart* P = &p->part[q];
    for (int i = 0; i < N; i++) switch (f) {
    case 0: P->own[i] = 1 << (i * nn / N); break;               // block
    case 1: P->own[i] = 1 << (nn - 1 - i * nn / N); break;       // reversed block
    case 2: P->own[i] = 1 << (i % nn); break;                    // cyclic
    case 3: P->own[i] = (1 << nn) - 1; break;                    // all
    case 4: P->own[i] = 1; break;                                // master
    case 5: P->own[i] = 1 << (i * nn / N); if (i) P->own[i] |= 1 << ((i - 1) * nn / N); if (i + 1 < N) P->own[i] |= 1 << ((i + 1) * nn / N); break; // halo
    case 6: P->own[i] = 1 << (nn - 1); break;                    // last
    case 7: P->own[i] = i * 2 < N ? 1 : 1 << (nn - 1); break; }
    P->tag = f == 2 ? 1 : f == 7 ? 1 : 0;
}
void t01c_gen(int tier) {
    Prog* p = PG; int n = 2 + rt_in(2); int two = rt_in(2);
    pg_mode(rt_in(2) ? PGM_MPI_ASYNC_RDV : PGM_MPI_RDV);
    if (two) pg_init(p, n, 2, 3, 2, 1); else pg_init(p, n, 1, 5, 1, 1);
    int L = tier ? 5 : 3, F = tier ? 6 : 8;
    int seq[6]; for (int i = 0; i < L; i++) { seq[i] = rt_in(F); if (i && seq[i] == seq[i - 1] && seq[i] != 5) REJECT(); }
    for (int f = 0; f < 8; f++) fam(p, f, n);
    p->ndata = 1;
    int last = seq[0];
    pg_op(p, P_SWITCH, seq[0], LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, 0);
    for (int i = 1; i < L; i++) {
        int m = 0; for (int c = 0; c < pg_cells(p); c++) if (__builtin_popcount(p->part[last].own[c]) > 1) m = 1;
        pg_op(p, P_SWITCH, seq[i], LAIK_DF_Preserve, m ? LAIK_RO_Any : 0); pg_op(p, P_CHECK, 0, 0, 0);
        if (i == 2) { pg_op(p, P_WRITE, 0, 0, 0); }
        last = seq[i];
    }
    pg_desc(p); CTX("sequence");
    if (!pg_valid(p)) REJECT();
}
void t01c_main(void) { pg_run(); }
void t01c_end(void) {}
// t01d: layouts and ways to hand over ranges in 1d; reversed layouts
void t01d_gen(int tier) {
    Prog* p = PG; int n = 2, N = tier ? 5 : 4; (void)tier;
    static const int md[] = { PGM_MPI_RDV, PGM_MPI_ASYNC_RDV, PGM_MPI };
    pg_mode(md[rt_in(tier ? 3 : 2)]); pg_init(p, n, 1, N, 1, 1); p->org = -2;
    int A = pg_part(p), B = pg_part(p); lay(p, rt_in(4));
    int k = rt_in(8); p->types[0] = k; // all types
    if (k == 6) { p->part[A].split = 2; p->part[B].split = 2; } else if (k == 7) { p->part[A].split = 3; p->part[B].split = 0; }
    else tagsel(p, A, B, k);
    pg_single(&p->part[A], N, n); pg_masks(&p->part[B], N, n, 0);
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, 0);
    pg_op(p, P_SWITCH, B, LAIK_DF_Preserve, 0); pg_op(p, P_CHECK, 0, 0, 0);
    if (cov(p, B)) { pg_op(p, P_SWITCH, A, LAIK_DF_Preserve, LAIK_RO_Any); pg_op(p, P_CHECK, 0, 0, 0); }
    pg_desc(p); CTX("1d layout %d ranges %d", p->layout, k);
    if (!pg_valid(p)) REJECT();
}
void t01d_main(void) { pg_run(); }
void t01d_end(void) {}
// t01e: many ranges (growth of internal tables), all sizes up to the bound
void t01e_gen(int tier) {
    Prog* p = PG; int n = 2 + rt_in(2), N = rt_in_range(1, tier ? 200 : 130); int two = rt_in(2);
    if (!tier && N > 12 && N % 7 != 3) REJECT();
    pg_mode(rt_in(2) ? PGM_MPI_RDV : PGM_MPI_ASYNC);
    if (two) { if (N > 100) REJECT(); pg_init(p, n, 2, 2, N, 1); } else pg_init(p, n, 1, N, 1, 1);
    N = pg_cells(p);
    int pat = rt_in(4); int A = pg_part(p), B = pg_part(p);
    for (int i = 0; i < N; i++) { p->part[A].own[i] = 1 << (i % n); p->part[B].own[i] = pat == 0 ? 1 << ((i + 1) % n) : pat == 1 ? 1 << ((i / 2) % n) : pat == 2 ? (1 << n) - 1 : 1 << ((N - 1 - i) % n); }
    int k = rt_in(3); p->part[A].split = p->part[B].split = two ? 1 : 0; p->part[A].tag = k == 0 ? 0 : k == 1 ? 1 : 4; p->part[B].tag = k == 0 ? 0 : k == 1 ? 1 : 3;
    p->part[B].order = k == 2;
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, 0);
    pg_op(p, P_SWITCH, B, LAIK_DF_Preserve, 0); pg_op(p, P_CHECK, 0, 0, 0);
    pg_op(p, P_SWITCH, A, LAIK_DF_Preserve, LAIK_RO_Any); pg_op(p, P_CHECK, 0, 0, 0);
    pg_desc(p); CTX("many ranges");
    if (!pg_valid(p)) REJECT();
}
void t01e_main(void) { pg_run(); }
void t01e_end(void) {}
