// Data programs: see prog.h
#include "prog.h"
#ifdef VARIANT_TCP2
#define PG_TCP2 1
#else
#define PG_TCP2 0
#endif
#include <limits.h>
#include <float.h>
#include <math.h>

const char* pg_opname[] = { "switch", "write", "check", "calc", "exec-trans", "calc-actions", "exec-actions", "reserve", "use-res", "free-res", "flow", "free-data", "statcheck", "free-trans", "free-actions", "write-own", "new-data", "set-allocator" };
const char* pg_redname[] = { "none", "sum", "prod", "min", "max", "and", "or", "any", "single" };
const char* pg_typename[] = { "char", "int32", "int64", "uchar", "uint32", "uint64", "float", "double" };
static const char* flowname[] = { "None", "Preserve", "Init" };
int (*pg_hook)(Prog*, int);

int pg_cells(const Prog* p) { int n = 1; for (int d = 0; d < p->dims; d++) n *= p->ext[d]; return n; }
int pg_nowned(const Prog* p, int q, int r) { int n = 0; for (int i = 0; i < pg_cells(p); i++) n += (p->part[q].own[i] >> r) & 1; return n; }
void pg_init(Prog* p, int nr, int dims, int x, int y, int z) {
    p->nr = nr; p->dims = dims; p->ext[0] = x; p->ext[1] = y; p->ext[2] = z; p->type = 7; p->ndata = 1; p->types[0] = 7;
    rt_scen->nranks = nr;
    if (PG_TCP2) { char t[20]; sprintf(t, "%d", nr); rt_setenv("LAIK_SIZE", t); }
}
int pg_part(Prog* p) { memset(&p->part[p->np], 0, sizeof(PPart)); return p->np++; }
void pg_masks(PPart* q, int n, int nr, int lo) { for (int i = 0; i < n; i++) q->own[i] = rt_in_range(lo, (1 << nr) - 1); }
void pg_single(PPart* q, int n, int nr) { for (int i = 0; i < n; i++) q->own[i] = 1 << rt_in(nr); }
void pg_op(Prog* p, int op, int part, int flow, int red) { POp* o = &p->op[p->nops++]; memset(o, 0, sizeof *o); o->op = op; o->part = part; o->part2 = -1; o->flow = flow; o->red = red; }
void pg_desc(const Prog* p) {
    DESC("%d procs, %dd space %d", p->nr, p->dims, p->ext[0]);
    for (int d = 1; d < p->dims; d++) DESC("x%d", p->ext[d]);
    DESC(" (from %d), ", p->org);
    for (int i = 0; i < p->ndata; i++) DESC("%s ", pg_typename[p->types[i]]);
    if (p->layout) DESC(p->layout == 1 ? "generic-lex layout " : p->layout == 2 ? "own layout " : "reversed layout ");
    if (p->alloc) DESC("own allocator "); if (p->provide) DESC("provided memory "); if (p->log) DESC("log=1 ");
    for (int q = 0; q < p->np; q++) {
        DESC("; P%d owners [", q);
        for (int i = 0; i < pg_cells(p); i++) DESC("%s%x", i ? " " : "", p->part[q].own[i]);
        DESC("] split %d tag %d order %d", p->part[q].split, p->part[q].tag, p->part[q].order);
    }
    for (int i = 0; i < p->nops; i++) {
        const POp* o = &p->op[i];
        DESC("%s %s", i ? "," : "; ops:", pg_opname[o->op]);
        if (p->ndata > 1) DESC("(d%d)", o->d);
        if (o->part >= 0 && (o->op == P_SWITCH || o->op == P_CALC || o->op == P_RES || o->op == P_TRANS || o->op == P_ACT || o->op == P_ACALC)) { if (o->part2 >= 0 && o->op == P_CALC) DESC(" P%d->P%d", o->part2, o->part); else DESC(" %d", o->part); }
        if (o->op == P_SWITCH || o->op == P_CALC || o->op == P_FLOW) DESC(" %s/%s", flowname[o->flow], pg_redname[o->red]);
        if (o->op == P_WRITE) DESC(" %s", o->arg == 0 ? "same" : "distinct");
        if (o->mask) DESC(" mask %x", o->mask);
    }
}
void pg_mode(int m) {
    if (m == PGM_SINGLE) { rt_setenv("LAIK_BACKEND", "single"); return; }
#ifdef VARIANT_TCP2
    // the communication modes stand for modes of the dynamic TCP backend
    static const struct { int text, chunk, cap; } T[] = { { 0 }, { 0, 0, 0 }, { 1, 0, 0 }, { 0, 7, 0 }, { 1, 1, 0 }, { 0, 0, 40 }, { 1, 13, 40 }, { 0, 1, 0 } };
    rt_setenv("LAIK_BACKEND", "tcp2"); if (T[m].text) rt_setenv("LAIK_TCP2_BIN", "0");
    rt_scen->sock_chunk = T[m].chunk; rt_scen->sock_cap = T[m].cap;
    DESC("tcp2 %s, reads up to %d bytes, capacity %d, ", T[m].text ? "text" : "binary", T[m].chunk, T[m].cap);
    return;
#endif
#ifdef VARIANT_TCP
    static const int C[] = { 0, 0, 3, 4, 5, 6, 7, 1 };
    tcp_scen(rt_scen->nranks, C[m], 0); if (m == PGM_MPI_OWNRED || m == PGM_MPI_OWNRED_RDV || m == PGM_MPI_ASYNC) rt_setenv("LAIK_TCP_REDUCE", "0");
    DESC("legacy tcp, %s, ", rt_tcp_config_name(C[m])); return;
#endif
    rt_setenv("LAIK_BACKEND", "mpi");
    if (m == PGM_MPI_RDV || m == PGM_MPI_ASYNC_RDV || m == PGM_MPI_OWNRED_RDV) rt_scen->mpi_rendezvous = 1;
    rt_setenv("LAIK_MPI_ASYNC", (m == PGM_MPI_ASYNC || m == PGM_MPI_ASYNC_RDV) ? "1" : "0");
    rt_setenv("LAIK_MPI_REDUCE", (m == PGM_MPI_OWNRED || m == PGM_MPI_OWNRED_RDV) ? "0" : "1");
    if (m == PGM_MPI_SYNCOLL) rt_scen->mpi_syncoll = 1;
    static const char* n[] = { "single", "mpi", "mpi-rendezvous", "mpi-async", "mpi-async-rendezvous", "mpi-ownreduce", "mpi-ownreduce-rendezvous", "mpi-synccoll" };
    DESC("%s, ", n[m]);
}

// ------------------------------------------------------------- value model
enum { K_U, K_V, K_N };
typedef struct { uint8_t k; int16_t v; } Val; // K_N: v = op
typedef struct { Val v[RT_MAXRANKS][PCELLS]; int cur; uint8_t live; } MData;
typedef struct { uint8_t used, flow, red, d; int8_t from, to; } MTrans;
typedef struct { MData d[PDATA]; MTrans t[POPS]; int nt; int ver; } Model;

static int isred(int r) { return r >= LAIK_RO_Sum && r <= LAIK_RO_Or; }
static int red2(int op, int a, int b) {
    switch (op) {
    case LAIK_RO_Sum: return a + b; case LAIK_RO_Prod: return a * b;
    case LAIK_RO_Min: return a < b ? a : b; case LAIK_RO_Max: return a > b ? a : b;
    case LAIK_RO_And: return a & b; case LAIK_RO_Or: return a | b; }
    return 0;
}
// value written by rank r for cell i: results of all reductions stay below 128
static int wval(int arg, int r, int i, int ver, int op) {
    if (arg == 0) return 1 + (i * 7 + ver * 31 + (i >> 3)) % 120;
    switch (op) {
    case LAIK_RO_Prod: { static const int pr[16] = { 2, 3, 5, 1, 2, 1, 1, 1, 1, 1, 1, 1 }; return (i + ver) % 2 && r < 2 ? (r ? 7 : 4) : pr[r]; }
    case LAIK_RO_And: return 127 & ~(1 << ((r + i + ver) % 7));
    case LAIK_RO_Or: return 1 << ((r + i + ver) % 7);
    case LAIK_RO_Min: return 100 - ((r * 5 + i * 3 + ver * 2) % 11) * 7;
    case LAIK_RO_Max: return 10 + ((r * 5 + i * 3 + ver * 2) % 11) * 7;
    default: return (1 << (r % 5)) + ((i * 3 + ver) % 4); // sum: at most 8 * (16+3)... kept small
    }
}
static int m_switch(const Prog* p, Model* m, int di, int to, int flow, int red, int strict) {
    MData* d = &m->d[di]; int n = pg_cells(p);
    int from = d->cur;
    static Val nv[RT_MAXRANKS][PCELLS]; memset(nv, 0, sizeof nv);
    if (flow == LAIK_DF_Init) {
        if (!isred(red)) return 0;
        for (int i = 0; i < n; i++) for (int r = 0; r < p->nr; r++) if (p->part[to].own[i] >> r & 1) { nv[r][i].k = K_N; nv[r][i].v = red; }
    }
    if (flow == LAIK_DF_Preserve && from >= 0 && to >= 0) {
        for (int i = 0; i < n; i++) {
            int fm = p->part[from].own[i], tm = p->part[to].own[i];
            if (!tm) continue;
            Val v = { K_U, 0 };
            if (!isred(red)) {
                int c = __builtin_popcount(fm);
                if (c == 0) return 0;
                if (c > 1 && red == LAIK_RO_None && p->dims == 1) return 0;
                if (c > 1 && red == LAIK_RO_Single) return 0;
                int first = 1; // all inputs are the same or unknown
                for (int r = 0; r < p->nr; r++) if (fm >> r & 1) { Val w = d->v[r][i]; if (first) { v = w; first = 0; } else if (v.k != w.k || v.v != w.v) v.k = K_U; }
            } else {
                v.k = K_N; v.v = red;
                for (int r = 0; r < p->nr; r++) if (fm >> r & 1) {
                    Val w = d->v[r][i];
                    if (w.k == K_N && w.v != red) w.k = K_U;
                    if (v.k == K_U || w.k == K_U) v.k = K_U;
                    else if (v.k == K_N) v = w;
                    else if (w.k == K_V) { int x = red2(red, v.v, w.v); if (x < 0 || x > 127) v.k = K_U; else v.v = x; }
                }
                if (__builtin_popcount(fm) == 1) for (int r = 0; r < p->nr; r++) if (fm >> r & 1) v = d->v[r][i];
                if (v.k == K_V && (v.v < 0 || v.v > 127)) v.k = K_U;
            }
            for (int r = 0; r < p->nr; r++) if (tm >> r & 1) nv[r][i] = v;
        }
        if (isred(red) && p->dims > 1) {
            // supported: everybody owns everything, result to one or all
            int all = 1, single = -1, toall = 1; (void)strict;
            for (int i = 0; i < n; i++) { if (p->part[from].own[i] != (1 << p->nr) - 1) all = 0; if (p->part[to].own[i] != (1 << p->nr) - 1) toall = 0; }
            for (int r = 0; r < p->nr && single < 0; r++) { int ok = 1; for (int i = 0; i < n; i++) if (p->part[to].own[i] != 1 << r) ok = 0; if (ok) single = r; }
            if (!all || !(toall || single >= 0)) return 0;
            if (p->part[from].split || p->part[to].split) return 0;
        }
    }
    memcpy(d->v, nv, sizeof nv); d->cur = to;
    return 1;
}
static int m_step(const Prog* p, Model* m, int k) {
    const POp* o = &p->op[k]; MData* d = &m->d[o->d]; int n = pg_cells(p);
    switch (o->op) {
    case P_SWITCH: return m_switch(p, m, o->d, o->part, o->flow, o->red, 1);
    case P_FLOW: if (d->cur < 0) return 0; return m_switch(p, m, o->d, d->cur, o->flow, o->red, 1);
    case P_WRITE:
        if (d->cur < 0) return 0;
        m->ver++;
        for (int i = 0; i < n; i++) for (int r = 0; r < p->nr; r++) if ((p->part[d->cur].own[i] >> r & 1) && (!o->mask || (o->mask >> r & 1))) { d->v[r][i].k = K_V; d->v[r][i].v = wval(o->arg, r, i, m->ver, o->red); }
        return 1;
    case P_CALC: { MTrans* t = &m->t[m->nt++]; t->used = 1; t->flow = o->flow; t->red = o->red; t->from = o->part2; t->to = o->part; t->d = o->d;
        // is it a legal transition at all?
        Model c = *m; c.d[o->d].cur = o->part2; return m_switch(p, &c, o->d, o->part, o->flow, o->red, 1); }
    case P_TRANS: case P_ACT: { MTrans* t = &m->t[(int)o->part]; if (!t->used || t->from != d->cur) return 0; return m_switch(p, m, o->d, t->to, t->flow, t->red, 1); }
    case P_FREE: d->cur = -1; d->live = 0; return 1;
    }
    return 1;
}
static Model gm;
int pg_valid(Prog* p) {
    Model* m = &gm; memset(m, 0, sizeof *m);
    for (int i = 0; i < PDATA; i++) { m->d[i].cur = -1; m->d[i].live = 1; }
    for (int k = 0; k < p->nops; k++) if (!m_step(p, m, k)) return 0;
    return 1;
}

// ------------------------------------------------------------- execution
typedef struct { int lo[3], hi[3]; } Box;
static int at(const Prog* p, int x, int y, int z) { return (z * (p->dims > 1 ? p->ext[1] : 1) + y) * p->ext[0] + x; }
// decompose the cells of <rank> into boxes
static int boxes(const Prog* p, const PPart* q, int rank, Box* b) {
    int n = 0; uint8_t done[PCELLS] = { 0 };
    int X = p->ext[0], Y = p->dims > 1 ? p->ext[1] : 1, Z = p->dims > 2 ? p->ext[2] : 1;
    for (int z = 0; z < Z; z++) for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) {
        int i = at(p, x, y, z);
        if (done[i] || !(q->own[i] >> rank & 1)) continue;
        int x1 = x + 1, y1 = y + 1, z1 = z + 1;
        if (q->split == 0 || q->split == 4) {
            while (x1 < X && (q->own[at(p, x1, y, z)] >> rank & 1) && !done[at(p, x1, y, z)]) x1++;
            if (q->split == 0) {
                for (; y1 < Y; y1++) { int ok = 1; for (int a = x; a < x1; a++) if (!(q->own[at(p, a, y1, z)] >> rank & 1) || done[at(p, a, y1, z)]) ok = 0; if (!ok) break; }
                for (; z1 < Z; z1++) { int ok = 1; for (int c = y; c < y1; c++) for (int a = x; a < x1; a++) if (!(q->own[at(p, a, c, z1)] >> rank & 1) || done[at(p, a, c, z1)]) ok = 0; if (!ok) break; }
            }
        }
        for (int c = z; c < z1; c++) for (int e = y; e < y1; e++) for (int a = x; a < x1; a++) done[at(p, a, e, c)] = 1;
        b[n].lo[0] = x; b[n].lo[1] = y; b[n].lo[2] = z; b[n].hi[0] = x1; b[n].hi[1] = y1; b[n].hi[2] = z1; n++;
    }
    return n;
}
static void mkrange(const Prog* p, Laik_Range* r, Laik_Space* s, const Box* b) {
    int o = p->org;
    if (p->dims == 1) laik_range_init_1d(r, s, b->lo[0] + o, b->hi[0] + o);
    if (p->dims == 2) laik_range_init_2d(r, s, b->lo[0] + o, b->hi[0] + o, b->lo[1] + o, b->hi[1] + o);
    if (p->dims == 3) laik_range_init_3d(r, s, b->lo[0] + o, b->hi[0] + o, b->lo[1] + o, b->hi[1] + o, b->lo[2] + o, b->hi[2] + o);
}
static void run_part(Laik_RangeReceiver* rr, Laik_PartitionerParams* pp) {
    const Prog* p = PG; const PPart* q = (const PPart*)laik_partitioner_data(pp->partitioner);
    Box b[PCELLS];
    for (int k = 0; k < p->nr; k++) {
        int r = q->order ? p->nr - 1 - k : k;
        int n = boxes(p, q, r, b);
        for (int j = 0; j < n; j++) {
            int c = q->order ? n - 1 - j : j;
            if (q->split == 2) { laik_append_index_1d(rr, r, b[c].lo[0] + p->org); continue; }
            int tag = q->tag == 1 ? 1 : q->tag == 2 ? c + 1 : q->tag == 3 ? c % 2 + 1 : q->tag == 4 ? n - c : 0;
            Laik_Range rg; mkrange(p, &rg, pp->space, &b[c]);
            laik_append_range(rr, r, &rg, tag, 0);
        }
    }
}
Laik_Type* pg_laiktype(int t) {
    switch (t) { case 0: return laik_Char; case 1: return laik_Int32; case 2: return laik_Int64; case 3: return laik_UChar; case 4: return laik_UInt32; case 5: return laik_UInt64; case 6: return laik_Float; }
    return laik_Double;
}
void pg_put(char* a, int t, int v) {
    switch (t) {
    case 0: { signed char x = v; memcpy(a, &x, 1); break; } case 1: { int32_t x = v; memcpy(a, &x, 4); break; } case 2: { int64_t x = v; memcpy(a, &x, 8); break; }
    case 3: { unsigned char x = v; memcpy(a, &x, 1); break; } case 4: { uint32_t x = v; memcpy(a, &x, 4); break; } case 5: { uint64_t x = v; memcpy(a, &x, 8); break; }
    case 6: { float x = v; memcpy(a, &x, 4); break; } default: { double x = v; memcpy(a, &x, 8); } }
}
double pg_get(const char* a, int t) {
    switch (t) {
    case 0: { signed char x; memcpy(&x, a, 1); return x; } case 1: { int32_t x; memcpy(&x, a, 4); return x; } case 2: { int64_t x; memcpy(&x, a, 8); return x; }
    case 3: { unsigned char x; memcpy(&x, a, 1); return x; } case 4: { uint32_t x; memcpy(&x, a, 4); return x; } case 5: { uint64_t x; memcpy(&x, a, 8); return x; }
    case 6: { float x; memcpy(&x, a, 4); return x; } default: { double x; memcpy(&x, a, 8); return x; } }
}
static const double tmin[] = { -128, INT32_MIN, (double)INT64_MIN, 0, 0, 0, -FLT_MAX, -DBL_MAX };
static const double tmax[] = { 127, INT32_MAX, (double)INT64_MAX, 255, UINT32_MAX, (double)UINT64_MAX, FLT_MAX, DBL_MAX };
static int neutral_ok(const char* a, int t, int op) {
    double v = pg_get(a, t);
    switch (op) {
    case LAIK_RO_Sum: return v == 0; case LAIK_RO_Prod: return v == 1;
    case LAIK_RO_Min: return v >= tmax[t]; case LAIK_RO_Max: return v <= tmin[t];
    case LAIK_RO_Or: return v == 0;
    case LAIK_RO_And: { int sz[] = { 1, 4, 8, 1, 4, 8, 4, 8 }; for (int i = 0; i < sz[t]; i++) if ((unsigned char)a[i] != 0xff) return 0; return 1; }
    }
    return 0;
}

// own layout: column-major (last dimension fastest), generic pack/copy
typedef struct { Laik_Layout h; Laik_Range r[0]; } CLay;
static int64_t c_off(Laik_Layout* l, int n, Laik_Index* i) {
    CLay* c = (CLay*)l; Laik_Range* r = &c->r[n]; int64_t o = 0;
    for (int d = 0; d < l->dims; d++) { RT_CHECK(i->i[d] >= r->from.i[d] && i->i[d] < r->to.i[d], "layout-index-outside", "layout asked for an index outside of its section"); o = o * (r->to.i[d] - r->from.i[d]) + (i->i[d] - r->from.i[d]); }
    return o;
}
static int64_t c_offrev(Laik_Layout* l, int n, Laik_Index* i) { CLay* c = (CLay*)l; return (int64_t)laik_range_size(&c->r[n]) - 1 - c_off(l, n, i); }
static int c_sec(Laik_Layout* l, Laik_Index* i) {
    CLay* c = (CLay*)l;
    for (int n = 0; n < l->map_count; n++) { int ok = 1; for (int d = 0; d < l->dims; d++) if (i->i[d] < c->r[n].from.i[d] || i->i[d] >= c->r[n].to.i[d]) ok = 0; if (ok) return n; }
    return -1;
}
static int c_mapno(Laik_Layout* l, int n) { (void)l; return n; }
static Laik_Layout* c_new2(int n, Laik_Range* r, laik_layout_offset_t off) {
    CLay* c = malloc(sizeof(CLay) + n * sizeof(Laik_Range)); uint64_t cnt = 0;
    for (int i = 0; i < n; i++) { c->r[i] = r[i]; cnt += laik_range_size(&r[i]); }
    laik_init_layout(&c->h, laik_space_getdimensions(r->space), n, cnt, c_sec, c_mapno, off, 0, 0, 0, 0, 0);
    return &c->h;
}
static Laik_Layout* c_new(int n, Laik_Range* r) { return c_new2(n, r, c_off); }
static Laik_Layout* c_newrev(int n, Laik_Range* r) { return c_new2(n, r, c_offrev); }
// own counting allocator, balances kept per container
#define OBLK 64
static struct { void* p; size_t n; int d; } oblk[OBLK];
static struct { long mallocs, frees, mb, fb, cur, max, live; } ocnt[PDATA];
static Laik_Data* data[PDATA];
static int o_index(Laik_Data* d) { for (int i = 0; i < PDATA; i++) if (data[i] == d) return i; rt_fail("allocator-data", "allocator called for an unknown container"); }
static void* o_malloc(Laik_Data* d, size_t n) {
    int i = o_index(d); RT_CHECK(n > 0, "allocator-zero", "allocation of 0 bytes");
    ocnt[i].mallocs++; ocnt[i].mb += n; ocnt[i].cur += n; ocnt[i].live++; if (ocnt[i].cur > ocnt[i].max) ocnt[i].max = ocnt[i].cur;
    for (int k = 0; k < OBLK; k++) if (!oblk[k].p) { oblk[k].p = malloc(n); oblk[k].n = n; oblk[k].d = i; return oblk[k].p; }
    rt_fail("harness", "block table full");
}
static void o_free(Laik_Data* d, void* p) {
    int i = o_index(d);
    for (int k = 0; k < OBLK; k++) if (oblk[k].p == p && p) {
        RT_CHECK(oblk[k].d == i, "allocator-owner", "block of container %d freed for container %d", oblk[k].d, i);
        ocnt[i].frees++; ocnt[i].fb += oblk[k].n; ocnt[i].cur -= oblk[k].n; ocnt[i].live--; oblk[k].p = 0; free(p); return; }
    rt_fail("allocator-balance", "free of memory which is not allocated with this allocator (or freed before)");
}
static void o_check(const Prog* p, const char* when) {
    for (int i = 0; i < p->ndata; i++) {
        if (!data[i]) { RT_CHECK(ocnt[i].live == 0, "leak", "%s: container %d was freed, but %ld blocks remain allocated", when, i, ocnt[i].live); continue; }
        Laik_SwitchStat* s = data[i]->stat;
#define EQ(f, v) RT_CHECK((long)s->f == ocnt[i].v, "stat-memory", "%s: container %d: " #f " is %ld, real %ld", when, i, (long)s->f, ocnt[i].v)
        // communication buffers are counted, too: they have to be balanced between operations
        EQ(currAllocedBytes, cur);
        long xm = (long)s->mallocCount - ocnt[i].mallocs, xf = (long)s->freeCount - ocnt[i].frees, bm = (long)s->mallocedBytes - ocnt[i].mb, bf = (long)s->freedBytes - ocnt[i].fb;
        RT_CHECK(xm >= 0 && xm == xf && bm == bf && bm >= 0, "stat-memory", "%s: container %d: %ld/%ld allocations/frees (%ld/%ld bytes) reported more than done, unbalanced", when, i, xm, xf, bm, bf);
        RT_CHECK((long)s->maxAllocedBytes >= ocnt[i].max && (long)s->maxAllocedBytes <= ocnt[i].max + bm, "stat-memory", "%s: container %d: maximum is %ld, real %ld", when, i, (long)s->maxAllocedBytes, ocnt[i].max);
        rt_count(RTC_EVAL, 6);
    }
}

static Model rm;
static Laik_Partitioning* parts[PPARTS]; static Laik_Transition* trans[POPS]; static Laik_ActionSeq* acts[POPS]; static int ntrans, nacts;
static Laik_Reservation* res[POPS]; static int nres;

static char* cell_addr(const Prog* p, Laik_Data* d, int di, int mapNo, Laik_Index* ix) {
    if (!p->access) return laik_get_map_addr(d, mapNo, ix);
    void* base; uint64_t cnt, ys, yst, xs, zs, zst; int es = p->types[di] == 0 || p->types[di] == 3 ? 1 : p->types[di] == 1 || p->types[di] == 4 || p->types[di] == 6 ? 4 : 8;
    // map starts at the smallest coordinates of the ranges in it
    Laik_Index f = *ix;
    Laik_Partitioning* q = laik_data_get_partitioning(d);
    for (int i = 0; i < laik_my_maprangecount(q, mapNo); i++) {
        Laik_TaskRange* tr = laik_my_maprange(q, mapNo, i); const Laik_Range* r = laik_taskrange_get_range(tr);
        for (int k = 0; k < p->dims; k++) if (r->from.i[k] < f.i[k]) f.i[k] = r->from.i[k];
    }
    int64_t o = 0; Laik_Mapping* m;
    if (p->dims == 1) { m = laik_get_map_1d(d, mapNo, &base, &cnt); o = ix->i[0] - f.i[0]; }
    else if (p->dims == 2) { m = laik_get_map_2d(d, mapNo, &base, &ys, &yst, &xs); o = ix->i[0] - f.i[0] + (ix->i[1] - f.i[1]) * yst; }
    else { m = laik_get_map_3d(d, mapNo, &base, &zs, &zst, &ys, &yst, &xs); o = ix->i[0] - f.i[0] + (ix->i[1] - f.i[1]) * yst + (ix->i[2] - f.i[2]) * zst; }
    if (!m) return 0;
    return (char*)base + o * es;
}
// walk over all own indexes: mode 0 check, 1 write
static int g_me; // own process ID in the world
static void walk(const Prog* p, int di, int write, const char* when) {
    MData* d = &rm.d[di]; int me = g_me; int t = p->types[di];
    if (d->cur < 0) return;
    Laik_Partitioning* q = parts[d->cur];
    int ndone[PCELLS] = { 0 };
    int cnt = laik_my_rangecount(q); 
    static const int tsz[] = { 1, 4, 8, 1, 4, 8, 4, 8 };
    uint64_t h = 7;
    for (int i = 0; i < cnt; i++) {
        Laik_TaskRange* tr = laik_my_range(q, i);
        RT_CHECK(tr, "range-missing", "own range %d of %d not available", i, cnt);
        Laik_Range r = *laik_taskrange_get_range(tr); int mapNo = laik_taskrange_get_mapNo(tr);
        Laik_Index ix = { { 0, 0, 0 } };
        for (ix.i[2] = p->dims > 2 ? r.from.i[2] : p->org; ix.i[2] < (p->dims > 2 ? r.to.i[2] : p->org + 1); ix.i[2]++)
        for (ix.i[1] = p->dims > 1 ? r.from.i[1] : p->org; ix.i[1] < (p->dims > 1 ? r.to.i[1] : p->org + 1); ix.i[1]++)
        for (ix.i[0] = r.from.i[0]; ix.i[0] < r.to.i[0]; ix.i[0]++) {
            int c = at(p, ix.i[0] - p->org, ix.i[1] - p->org, ix.i[2] - p->org);
            ndone[c]++;
            char* a = cell_addr(p, data[di], di, mapNo, &ix);
            RT_CHECK(a && rt_mem_ok(a, tsz[t]) != 0, "address-invalid", "%s: element %d of container %d is outside of live memory", when, c, di);
            Val* v = &d->v[me][c];
            if (write) { if (v->k == K_V) pg_put(a, t, v->v); continue; }
            rt_count(RTC_EVAL, 1);
            if (v->k == K_V) RT_CHECK(pg_get(a, t) == v->v, "value", "%s: index %d of container %d is %g on rank %d, expected %d", when, c, di, pg_get(a, t), me, v->v);
            if (v->k == K_N) RT_CHECK(neutral_ok(a, t, v->v), "neutral", "%s: index %d of container %d is %g on rank %d, expected the neutral element of %s", when, c, di, pg_get(a, t), me, pg_redname[v->v]);
            if (v->k == K_V) h = rt_hash(h, &v->v, 2);
        }
    }
    for (int c = 0; c < pg_cells(p); c++)
        RT_CHECK((ndone[c] > 0) == (p->part[d->cur].own[c] >> me & 1), "ownership", "%s: index %d %s rank %d", when, c, ndone[c] ? "given to" : "missing on", me);
    rt_event(h);
}
// write own values of model
void pg_run(void) {
    Prog* p = PG;
    Laik_Instance* inst = app_init();
    Laik_Group* world = laik_world(inst);
    RT_CHECK(laik_size(world) == p->nr, "world-size", "world has size %d instead of %d", laik_size(world), p->nr);
    int me = g_me = laik_myid(world);
    RT_CHECK(me >= 0 && me < p->nr, "world-id", "own id is %d", me);
    Laik_Space* sp = p->dims == 1 ? laik_new_space_1d(inst, p->ext[0]) : p->dims == 2 ? laik_new_space_2d(inst, p->ext[0], p->ext[1]) : laik_new_space_3d(inst, p->ext[0], p->ext[1], p->ext[2]);
    int o = p->org;
    if (o) { if (p->dims == 1) laik_change_space_1d(sp, o, o + p->ext[0]); else if (p->dims == 2) laik_change_space_2d(sp, o, o + p->ext[0], o, o + p->ext[1]); else laik_change_space_3d(sp, o, o + p->ext[0], o, o + p->ext[1], o, o + p->ext[2]); }
    memset(&rm, 0, sizeof rm);
    for (int i = 0; i < PDATA; i++) { rm.d[i].cur = -1; rm.d[i].live = 1; }
    for (int i = 0; i < p->ndata; i++) {
        data[i] = laik_new_data(sp, pg_laiktype(p->types[i]));
        if (p->layout >= 2) laik_data_set_layout_factory(data[i], p->layout == 2 ? c_new : c_newrev);
        if (p->alloc) laik_set_allocator(data[i], laik_new_allocator(o_malloc, o_free, 0));
    }
    for (int q = 0; q < p->np; q++) {
        int cov = 1; for (int i = 0; i < pg_cells(p); i++) if (!p->part[q].own[i]) cov = 0;
        int fl = p->part[q].split == 3 ? LAIK_PF_Merge : p->part[q].split == 2 ? LAIK_PF_SingleIndex : p->part[q].tag ? LAIK_PF_GroupByTag : 0;
        if (!cov) fl |= LAIK_PF_NoFullCoverage;
        parts[q] = laik_new_partitioning(laik_new_partitioner("mc", run_part, &p->part[q], fl), world, sp, 0);
    }
    for (int k = 0; k < p->nops; k++) {
        int m0 = 0, fromP = -1; Laik_SwitchStat s0; long expin = 0; int acct = 0;
        POp* op = &p->op[k]; char when[60]; snprintf(when, sizeof when, "after op %d (%s)", k, pg_opname[op->op]);
        if (pg_hook && pg_hook(p, k)) { }
        rt_log("  rank %d op %d %s\n", me, k, pg_opname[op->op]);
        int curbefore = rm.d[op->d].cur; (void)curbefore;
        int ok = m_step(p, &rm, k);
        RT_CHECK(ok, "harness", "model step failed");
        Laik_Data* d = data[op->d];
        if (p->checkmsgs && !PG_TCP2 && (op->op == P_SWITCH || op->op == P_FLOW || op->op == P_TRANS || op->op == P_ACT)) {
            acct = 1; fromP = curbefore; int flow = op->flow;
            if (op->op == P_TRANS || op->op == P_ACT) flow = rm.t[(int)op->part].flow;
            int to = rm.d[op->d].cur;
            if (flow == LAIK_DF_Preserve && fromP >= 0 && to >= 0) for (int c = 0; c < pg_cells(p); c++) if ((p->part[to].own[c] >> me & 1) && !(p->part[fromP].own[c] >> me & 1)) expin++;
            rt_barrier(); m0 = rt_msg_count(); s0 = *d->stat; rt_barrier();
        }
        switch (op->op) {
        case P_SWITCH: laik_switchto_partitioning(d, op->part < 0 ? 0 : parts[(int)op->part], op->flow, op->red); break;
        case P_FLOW: laik_switchto_flow(d, op->flow, op->red); break;
        case P_WRITE: walk(p, op->d, 1, when); break;
        case P_CHECK: walk(p, op->d, 0, when); break;
        case P_CALC: trans[ntrans++] = laik_calc_transition(sp, op->part2 < 0 ? 0 : parts[(int)op->part2], parts[(int)op->part], op->flow, op->red); break;
        case P_TRANS: laik_exec_transition(d, trans[(int)op->part]); break;
        case P_ACALC: acts[(int)op->part] = laik_calc_actions(d, trans[(int)op->part], op->arg & 1 ? res[0] : 0, op->arg & 2 ? res[0] : 0); break;
        case P_ACT: laik_exec_actions(acts[(int)op->part]); break;
        case P_RES: { // new reservation covering partitionings in mask
            Laik_Reservation* r = res[nres++] = laik_reservation_new(d);
            for (int q = 0; q < p->np; q++) if (op->mask >> q & 1) laik_reservation_add(r, parts[q]);
            laik_reservation_alloc(r);
            if (op->arg) laik_data_use_reservation(d, r);
            break; }
        case P_USERES: laik_data_use_reservation(d, res[(int)op->part]); break;
        case P_FREERES: laik_reservation_free(res[(int)op->part]); break;
        case P_FREE: laik_free(d); data[op->d] = 0; break;
        }
        if (acct) {
            rt_barrier();
            static const int tsz[] = { 1, 4, 8, 1, 4, 8, 4, 8 }; int es = tsz[p->types[op->d]];
            long inb = 0, outb = 0, inm = 0, outm = 0, col = 0;
            for (int i = m0; i < rt_msg_count(); i++) { RtMsg* g = rt_msg(i); if (g->kind) { col++; continue; } if (g->dst == me) { inb += g->bytes; inm++; } if (g->src == me) { outb += g->bytes; outm++; } }
            RT_CHECK(col == 0, "transfer-collective", "%s: collective operation used for a switch without reduction", when);
            RT_CHECK(inb == expin * es, "transfer-amount", "%s: rank %d received %ld bytes, expected %ld elements of %d bytes", when, me, inb, expin, es);
            Laik_SwitchStat* st = d->stat;
            RT_CHECK((long)(st->byteSendCount - s0.byteSendCount) == outb && (long)(st->byteRecvCount - s0.byteRecvCount) == inb, "stat-bytes", "%s: rank %d reports %ld/%ld bytes sent/received, real %ld/%ld", when, me, (long)(st->byteSendCount - s0.byteSendCount), (long)(st->byteRecvCount - s0.byteRecvCount), outb, inb);
            RT_CHECK((long)(st->elemSendCount - s0.elemSendCount) * es == outb && (long)(st->elemRecvCount - s0.elemRecvCount) * es == inb, "stat-elems", "%s: rank %d reports %ld/%ld elements sent/received, real %ld/%ld bytes", when, me, (long)(st->elemSendCount - s0.elemSendCount), (long)(st->elemRecvCount - s0.elemRecvCount), outb, inb);
            long ms = (long)(st->msgSendCount - s0.msgSendCount) + (long)(st->msgAsyncSendCount - s0.msgAsyncSendCount), mr = (long)(st->msgRecvCount - s0.msgRecvCount) + (long)(st->msgAsyncRecvCount - s0.msgAsyncRecvCount);
            RT_CHECK(ms == outm && mr == inm, "stat-msgs", "%s: rank %d reports %ld/%ld messages sent/received, real %ld/%ld", when, me, ms, mr, outm, inm);
            rt_count(RTC_EVAL, 4); rt_barrier();
        }
        if (p->alloc) o_check(p, when);
        // live containers are never damaged by operations on others
        if (op->op != P_WRITE && op->op != P_CHECK)
            for (int i = 0; i < p->ndata; i++) if (rm.d[i].live && rm.d[i].cur >= 0) walk(p, i, 0, when);
    }
    rt_event(0x77);
    laik_finalize(inst);
}
