// D01: reduction algebra of the provided element types
#ifdef VARIANT_TCP2
#include "tcp2.h"
#else
#include "common.h"
#endif
#include <float.h>
#include <math.h>
static const char* TN[] = { "char", "uchar", "int32", "uint32", "int64", "uint64", "float", "double" };
static const int TS[] = { 1, 1, 4, 4, 8, 8, 4, 8 };
static Laik_Type* TY(int t) { Laik_Type* a[] = { laik_Char, laik_UChar, laik_Int32, laik_UInt32, laik_Int64, laik_UInt64, laik_Float, laik_Double }; return a[t]; }
static const Laik_ReductionOperation OPS[] = { LAIK_RO_Sum, LAIK_RO_Prod, LAIK_RO_Min, LAIK_RO_Max, LAIK_RO_And, LAIK_RO_Or };
static const char* ON[] = { "sum", "prod", "min", "max", "and", "or" };
typedef union { int8_t c; uint8_t uc; int32_t i; uint32_t u; int64_t l; uint64_t ul; float f; double d; uint64_t raw; } V;
static const int64_t IA[] = { 0, 1, -1, 2, -2, 3, 7, 100, -100, 127, 128, -128, -129, 255, 256, 32767, 65536, 0x5555AAAA, 0x7FFFFFFF, -0x7FFFFFFF - 1, 0x80000001LL, 0xFFFFFFFFLL, 0x100000000LL, 0x123456789ABCDEFLL, INT64_MAX, INT64_MIN, INT64_MIN + 1, 46341, 3037000500LL };
static const double FA[] = { 0, -0.0, 1, -1, 0.5, 3, -2.25, 1e10, -1e10, 1e-10, 16777217.0, 3.1e38, -3.1e38, FLT_MAX, -FLT_MAX, FLT_MIN, 1e300, -1e300, DBL_MAX, -DBL_MAX, DBL_MIN, INFINITY, -INFINITY };
#define NIA ((int)(sizeof IA / sizeof *IA))
#define NFA ((int)(sizeof FA / sizeof *FA))
static int nalpha(int t) { return t < 2 ? 256 : t < 6 ? NIA : NFA; }
static void put(char* p, int t, int k) { // k-th value of the alphabet
    switch (t) { case 0: *(int8_t*)p = k - 128; break; case 1: *(uint8_t*)p = k; break; case 2: *(int32_t*)p = (int32_t)(uint32_t)IA[k]; break; case 3: *(uint32_t*)p = IA[k]; break;
    case 4: *(int64_t*)p = IA[k]; break; case 5: *(uint64_t*)p = IA[k]; break; case 6: *(float*)p = FA[k]; break; default: *(double*)p = FA[k]; }
}
#define INTOP(T, U, a, b, r) { T x = a, y = b; switch (o) { case 0: if (__builtin_add_overflow(x, y, &r) && (T)-1 < 0 && sizeof(T) > 1) return -1; r = (T)((U)x + (U)y); break; case 1: if (__builtin_mul_overflow(x, y, &r) && (T)-1 < 0 && sizeof(T) > 1) return -1; r = (T)((U)x * (U)y); break; \
    case 2: r = x < y ? x : y; break; case 3: r = x > y ? x : y; break; case 4: r = x & y; break; default: r = x | y; } }
#define FLOP(T, a, b, r) { T x = a, y = b; switch (o) { case 0: r = x + y; break; case 1: r = x * y; break; case 2: r = x < y ? x : y; break; case 3: r = x > y ? x : y; break; default: return -1; } }
static int comb(V* r, int t, int o, const char* a, const char* b) { // -1: not defined
    switch (t) { case 0: INTOP(int8_t, unsigned, *(int8_t*)a, *(int8_t*)b, r->c) break; case 1: INTOP(uint8_t, unsigned, *(uint8_t*)a, *(uint8_t*)b, r->uc) break;
    case 2: INTOP(int32_t, uint32_t, *(int32_t*)a, *(int32_t*)b, r->i) break; case 3: INTOP(uint32_t, uint32_t, *(uint32_t*)a, *(uint32_t*)b, r->u) break;
    case 4: INTOP(int64_t, uint64_t, *(int64_t*)a, *(int64_t*)b, r->l) break; case 5: INTOP(uint64_t, uint64_t, *(uint64_t*)a, *(uint64_t*)b, r->ul) break;
    case 6: FLOP(float, *(float*)a, *(float*)b, r->f) break; default: FLOP(double, *(double*)a, *(double*)b, r->d) }
    return 0;
}
static int same(int t, const void* a, const void* b) {
    if (t == 6) { float x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return x == y || (x != x && y != y); }
    if (t == 7) { double x, y; memcpy(&x, a, 8); memcpy(&y, b, 8); return x == y || (x != x && y != y); }
    return !memcmp(a, b, TS[t]);
}
static const char* str(int t, const void* p) { static char b[4][40]; static int n; char* s = b[n++ & 3]; switch (t) { case 0: sprintf(s, "%d", *(int8_t*)p); break; case 1: sprintf(s, "%d", *(uint8_t*)p); break; case 2: sprintf(s, "%d", *(int32_t*)p); break; case 3: sprintf(s, "%u", *(uint32_t*)p); break; case 4: sprintf(s, "%" PRId64, *(int64_t*)p); break; case 5: sprintf(s, "%" PRIu64, *(uint64_t*)p); break; case 6: sprintf(s, "%g", *(float*)p); break; default: sprintf(s, "%g", *(double*)p); } return s; }
typedef struct { int t, o, alias, miss, cnt, n, mode, sub, back; } S;
#define SH ((S*)rt_shared)
// a: the type functions for all pairs of the alphabet
void d01a_gen(int tier) { (void)tier;
    S* s = SH; s->t = rt_in(8); s->o = rt_in(s->t < 6 ? 6 : 4); s->alias = rt_in(4); s->miss = rt_in(4); s->cnt = rt_in(3); if (s->miss && s->alias == 3) REJECT();
    rt_setenv("LAIK_BACKEND", "single"); rt_scen->maxmem = 1L << 40; static const char* A[] = { "separate output", "output over first input", "output over second input", "all the same" }; static const char* M[] = { "both inputs", "second input missing", "first input missing", "no inputs" }; static const char* C[] = { "all pairs in one call", "one call per pair", "3 elements per call" };
    DESC("type %s, %s, %s, %s, %s", TN[s->t], ON[s->o], A[s->alias], M[s->miss], C[s->cnt]); CTX("%s %s", TN[s->t], ON[s->o]);
}
void d01a_main(void) {
    S* s = SH; Laik_Instance* inst = app_init(); Laik_Type* ty = TY(s->t); int sz = TS[s->t], na = nalpha(s->t), n = s->alias == 3 ? na : na * na, step = s->cnt == 0 ? n : s->cnt == 1 ? 1 : 3;
    RT_CHECK(ty->size == sz, "D01:size", "size of %s is %d", TN[s->t], ty->size);
    char* A = rt_malloc(n * sz), *B = rt_malloc(n * sz);
    for (int i = 0; i < n; i++) { put(A + i * sz, s->t, i % na); put(B + i * sz, s->t, s->alias == 3 ? i % na : i / na); }
    for (int k = 0; k < n; k += step) {
        int m = k + step <= n ? step : n - k; char* o, *a, *b, *guard = 0;
        char* bufA = rt_malloc(m * sz), *bufB = rt_malloc(m * sz); memcpy(bufA, A + k * sz, m * sz); memcpy(bufB, B + k * sz, m * sz);
        a = s->miss & 2 ? 0 : bufA; b = s->miss & 1 ? 0 : s->alias == 3 ? bufA : bufB;
        o = s->alias == 1 || s->alias == 3 ? bufA : s->alias == 2 ? bufB : (guard = rt_malloc(m * sz)); if (guard) memset(guard, 0xEE, m * sz);
        (ty->reduce)(o, a, b, m, OPS[s->o]);
        char neutral[8]; (ty->init)(neutral, 1, OPS[s->o]);
        for (int i = 0; i < m; i++) {
            V r; char* x = A + (k + i) * sz, *y = s->alias == 3 ? x : B + (k + i) * sz; char* q = o + i * sz;
            if (s->miss == 0) { if (comb(&r, s->t, s->o, x, y)) continue; }
            else if (s->miss == 1) memcpy(&r, x, sz); else if (s->miss == 2) memcpy(&r, y, sz); else memcpy(&r, neutral, sz);
            RT_CHECK(same(s->t, q, &r), "D01:combine", "%s of %s and %s is %s instead of %s", ON[s->o], s->miss & 2 ? "nothing" : str(s->t, x), s->miss & 1 ? "nothing" : str(s->t, y), str(s->t, q), str(s->t, &r));
            // neutral element
            if (s->miss == 0) { if (comb(&r, s->t, s->o, neutral, x) == 0) RT_CHECK(same(s->t, x, &r), "D01:neutral", "%s of the initial value %s and %s is %s", ON[s->o], str(s->t, neutral), str(s->t, x), str(s->t, &r)); }
        }
        // inputs not used as output stay unchanged
        if (o != bufA) RT_CHECK(!memcmp(bufA, A + k * sz, m * sz), "D01:input", "first input changed"); if (o != bufB) RT_CHECK(!memcmp(bufB, B + k * sz, m * sz), "D01:input", "second input changed");
        if (k + step < n && k) { // initialisation of several elements stays inside
            memset(bufB, 0x11, m * sz); (ty->init)(bufB, m - 1, OPS[s->o]); for (int j = 0; j < m - 1; j++) RT_CHECK(same(s->t, bufB + j * sz, neutral), "D01:init", "element %d not initialised", j); for (int j = 0; j < sz; j++) RT_CHECK(bufB[(m - 1) * sz + j] == 0x11, "D01:init", "initialisation behind the end");
        }
        rt_free(bufA); rt_free(bufB); if (guard) rt_free(guard); rt_count(RTC_EVAL, m);
    }
    rt_free(A); rt_free(B); laik_finalize(inst);
}
void d01a_end(void) { }
// b: reducing switches in all types: each process contributes one value of the alphabet per element
static Laik_ReductionOperation RO(S* s) { return OPS[s->o]; }
void d01b_gen(int tier) {
    S* s = SH; s->back = rt_in(3); s->n = s->back == 0 ? 1 : 1 + rt_in(tier ? 4 : 3); s->t = rt_in(8); s->o = rt_in(s->t < 6 ? 6 : 4); s->mode = rt_in(4); s->sub = s->mode == 3 ? rt_in(1 << s->n) : 0;
    static const char* M[] = { "all to all", "all to master", "all to blocks", "initialised, written by some" };
#ifdef VARIANT_TCP2
    if (s->back == 0) rt_setenv("LAIK_BACKEND", "single"), rt_scen->nranks = 1; else { tcp2_scen(s->n, s->n, 0); if (s->back == 2) rt_setenv("LAIK_TCP2_BIN", "0"); }
    if (s->back && s->n > 2 && s->t < 2 && !tier) REJECT(); // text format is slow
#elif defined(VARIANT_TCP)
    if (s->back == 0) rt_setenv("LAIK_BACKEND", "single"); else { tcp_scen(s->n, s->back == 2 ? 5 : 0, 0); if (s->back == 2) rt_setenv("LAIK_TCP_REDUCE", "0"); }
#else
    if (s->back == 0) rt_setenv("LAIK_BACKEND", "single"); else { rt_setenv("LAIK_BACKEND", "mpi"); rt_scen->nranks = s->n; rt_scen->mpi_rendezvous = s->back == 2; if (s->back == 2) rt_setenv("LAIK_MPI_REDUCE", "0"); }
#endif
    rt_scen->nranks = s->n; rt_scen->maxmem = 1L << 40;
    DESC("%d processes (backend %d), type %s, %s, %s %d", s->n, s->back, TN[s->t], ON[s->o], M[s->mode], s->sub); CTX("%s %s", TN[s->t], ON[s->o]);
}
// values of process r: index pairs (and a fixed third one) over the alphabet
static int vk(int t, int r, int g) { int na = nalpha(t); return r == 0 ? g % na : r == 1 ? g / na % na : (g * 7 + r) % na; }
static int okv(int t, const char* p) { if (t < 6) return 1; double x = t == 6 ? *(float*)p : *(double*)p; return x == x; }
void d01b_main(void) {
    S* s = SH; Laik_Instance* inst = app_init(); Laik_Group* w = laik_world(inst); int sz = TS[s->t], na = nalpha(s->t), n = na * na, me = laik_myid(w); if (s->t < 2) n = s->back ? 2000 : 65536;
    int stride = s->t < 2 && s->back ? 33 : 1; // 8-bit types: part of the pairs
    RT_CHECK(laik_size(w) == s->n, "D01:size", "world has size %d", laik_size(w));
    Laik_Space* sp = laik_new_space_1d(inst, n); Laik_Data* d = laik_new_data(sp, TY(s->t));
    Laik_Partitioning* all = laik_new_partitioning(laik_All, w, sp, 0), *ma = laik_new_partitioning(laik_Master, w, sp, 0), *bl = laik_new_partitioning(laik_new_block_partitioner1(), w, sp, 0);
    char* p; uint64_t c;
    laik_switchto_partitioning(d, all, s->mode == 3 ? LAIK_DF_Init : LAIK_DF_None, s->mode == 3 ? RO(s) : LAIK_RO_None);
    laik_get_map_1d(d, 0, (void**)&p, &c); RT_CHECK((int)c == n, "D01:map", "map of %d elements", (int)c);
    int mine = s->mode != 3 || (s->sub >> me & 1);
    if (mine) for (int g = 0; g < n; g++) put(p + g * sz, s->t, vk(s->t, me, g * stride));
    laik_switchto_partitioning(d, s->mode == 1 ? ma : s->mode == 2 ? bl : all, LAIK_DF_Preserve, RO(s));
    if (laik_get_map_1d(d, 0, (void**)&p, &c)) for (uint64_t k = 0; k < c; k++) {
        int64_t g = laik_local2global_1d(d, k); V acc, x; int have = 0, undef = 0;
        for (int r = 0; r < s->n; r++) { if (s->mode == 3 && !(s->sub >> r & 1)) continue; put((char*)&x, s->t, vk(s->t, r, g * stride)); if (!have) { acc = x; have = 1; } else { V q; if (comb(&q, s->t, s->o, (char*)&acc, (char*)&x)) { undef = 1; break; } acc = q; } }
        if (undef || !have) continue;
        if (s->t >= 6 && s->o < 2 && s->n > 2) { // order of combination matters for rounding: only check values which are exact
            double m = 0; int big = 0; for (int r = 0; r < s->n; r++) { put((char*)&x, s->t, vk(s->t, r, g * stride)); double v = s->t == 6 ? x.f : x.d; if (fabs(v) > 1e11 || v - floor(v) != 0 || fabs(v) > 1e6) big = 1; m += v; } if (big) continue; }
        if (!okv(s->t, (char*)&acc)) continue;
        RT_CHECK(same(s->t, p + k * sz, &acc), "D01:switch", "%s of element %d is %s instead of %s", ON[s->o], (int)g, str(s->t, p + k * sz), str(s->t, &acc));
    }
    rt_count(RTC_EVAL, n); laik_free(d); laik_finalize(inst);
}
void d01b_end(void) { }
// c: a registered type with own functions; reductions through backends which support it
typedef struct { unsigned char v[3]; } T3;
static int CALLS;
static void i3(void* b, int n, Laik_ReductionOperation o) { T3* p = b; for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) p[i].v[j] = o == LAIK_RO_Min ? 255 : 0; }
static void r3(void* out, const void* a, const void* b, int n, Laik_ReductionOperation o) { CALLS++; T3* q = out; const T3* x = a, *y = b; if (!x || !y) { if (x || y) memmove(out, x ? a : b, 3 * n); else i3(out, n, o); return; } for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) q[i].v[j] = o == LAIK_RO_Sum ? x[i].v[j] + y[i].v[j] : o == LAIK_RO_Min ? (x[i].v[j] < y[i].v[j] ? x[i].v[j] : y[i].v[j]) : (x[i].v[j] > y[i].v[j] ? x[i].v[j] : y[i].v[j]); }
void d01c_gen(int tier) { (void)tier; S* s = SH; s->n = 1 + rt_in(3); s->o = rt_in(3); s->mode = rt_in(2); s->back = rt_in(2);
#ifdef VARIANT_TCP2
    tcp2_scen(s->n, s->n, 0); if (s->back) rt_setenv("LAIK_TCP2_BIN", "0");
#else
    s->n = 1; rt_setenv("LAIK_BACKEND", "single"); rt_scen->nranks = 1;
#endif
    rt_scen->maxmem = 1L << 40; DESC("%d processes, registered type of 3 bytes, operation %d, %s, text %d", s->n, s->o, s->mode ? "blocks" : "all", s->back); CTX("registered type"); }
void d01c_main(void) {
    S* s = SH; Laik_Instance* inst = app_init(); Laik_Group* w = laik_world(inst); int me = laik_myid(w), N = 7; Laik_ReductionOperation o = s->o == 0 ? LAIK_RO_Sum : s->o == 1 ? LAIK_RO_Min : LAIK_RO_Max;
    Laik_Type* t = laik_type_register("three", 3); laik_type_set_init(t, i3); laik_type_set_reduce(t, r3);
    Laik_Space* sp = laik_new_space_1d(inst, N); Laik_Data* d = laik_new_data(sp, t); T3* p; uint64_t c;
    Laik_Partitioning* all = laik_new_partitioning(laik_All, w, sp, 0), *bl = laik_new_partitioning(laik_new_block_partitioner1(), w, sp, 0);
    laik_switchto_partitioning(d, all, LAIK_DF_Init, o); laik_get_map_1d(d, 0, (void**)&p, &c); for (int i = 0; i < N; i++) for (int j = 0; j < 3; j++) { RT_CHECK(p[i].v[j] == (s->o == 1 ? 255 : 0), "D01:init", "initial value is %d", p[i].v[j]); p[i].v[j] = i * 50 + j * 9 + me * 77; }
    laik_switchto_partitioning(d, s->mode ? bl : all, LAIK_DF_Preserve, o);
    if (laik_get_map_1d(d, 0, (void**)&p, &c)) for (uint64_t k = 0; k < c; k++) { int g = laik_local2global_1d(d, k); for (int j = 0; j < 3; j++) { int x = -1; for (int r = 0; r < s->n; r++) { unsigned char v = g * 50 + j * 9 + r * 77; x = x < 0 ? v : s->o == 0 ? (unsigned char)(x + v) : s->o == 1 ? (x < v ? x : v) : x > v ? x : v; } RT_CHECK(p[k].v[j] == x, "D01:switch", "part %d of element %d is %d instead of %d", j, g, p[k].v[j], x); } }
    rt_count(RTC_EVAL, N); laik_finalize(inst);
}
void d01c_end(void) { }
