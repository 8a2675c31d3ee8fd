// R01: range and index algebra, against explicit sets of indexes
#include "common.h"
typedef struct { int dims, N, part, tab; int f1[3], t1[3]; } S;
#define SH ((S*)rt_shared)

// scenario: dims, coordinate bound N, and the first range; the second range
// is enumerated inside.
void r01_gen(int tier) {
    S* s = SH;
    s->dims = 1 + rt_in(3);
    // coordinates run from -1 to N-2 (negative coordinates are legal)
    s->N = s->dims == 1 ? (tier ? 9 : 7) : s->dims == 2 ? (tier ? 6 : 5) : (tier ? 4 : 3);
    // position of a coordinate on the axis: order preserving tables, also with
    // distances which need more than 32 bits
    s->tab = rt_in(4); if (s->tab) { int m = s->dims == 1 ? 7 : s->dims == 2 ? (tier ? 5 : 4) : 3; if (s->N > m) s->N = m; }
    for (int d = 0; d < s->dims; d++) { s->f1[d] = rt_in(s->N); s->t1[d] = s->f1[d] + rt_in(s->N - s->f1[d]); }
    rt_setenv("LAIK_BACKEND", "single");
    DESC("dims %d, coordinates 0..%d at positions %d, r1 from (%d,%d,%d) to (%d,%d,%d) against all r2", s->dims, s->N - 1, s->tab, s->f1[0], s->f1[1], s->f1[2], s->t1[0], s->t1[1], s->t1[2]);
}
typedef unsigned long long Set[2];
static int SZ;
static int N, D, TB;
// tables: small; around the limits of 31 and 32 bits; far away from the origin; as far apart as sizes still fit into 64 bits
#define G (1L << 32)
static const int64_t TAB1[4][9] = { { -1, 0, 1, 2, 3, 4, 5, 6, 7 }, { -G - 1, -G, -G / 2 - 1, 0, G / 2 - 1, G, 2 * G + 1 },
    { -(G << 25), 1 - (G << 25), -1, 0, 1, (G << 26) - 1, (G << 26) }, { -3 * (G << 20), -G, -1, 3, G / 2 + 3, G + 3, 5 * (G << 22) } };
static const int64_t TAB2[4][9] = { { -1, 0, 1, 2, 3, 4, 5, 6, 7 }, { -70000, -1, 0, 70000, 140000 }, { -G / 2, -1, 0, G / 4, G / 2 }, { -G / 2 - 1, -G / 2, 1, G - 1, G } };
static const int64_t TAB3[4][9] = { { -1, 0, 1, 2, 3, 4, 5, 6, 7 }, { -2000, 0, 2000 }, { -50000, 0, 1 << 20 }, { -(1 << 20), 1, (1 << 20) + 1 } };
static int64_t at(int c) { return (D == 1 ? TAB1 : D == 2 ? TAB2 : TAB3)[TB][c]; }
static int back(int64_t v) { for (int i = 0; i < N; i++) if (at(i) == v) return i; return -1; }
// number of indexes in a range given in coordinates
static uint64_t amount(const int* f, const int* t) { uint64_t n = 1; for (int d = 0; d < D; d++) n *= (uint64_t)(at(t[d]) - at(f[d])); return n; }
static void setof(const int* f, const int* t, unsigned char* m) {
    memset(m, 0, SZ);
    for (int z = D > 2 ? f[2] : 0; z < (D > 2 ? t[2] : 1); z++)
        for (int y = D > 1 ? f[1] : 0; y < (D > 1 ? t[1] : 1); y++)
            for (int x = f[0]; x < t[0]; x++) m[(z * N + y) * N + x] = 1;
}
static void mk(Laik_Range* r, Laik_Space* sp, const int* f, const int* t) {
    // unused dimensions carry garbage: they must not matter
    memset(r, 0x77, sizeof *r);
    if (D == 1) laik_range_init_1d(r, sp, at(f[0]), at(t[0]));
    if (D == 2) laik_range_init_2d(r, sp, at(f[0]), at(t[0]), at(f[1]), at(t[1]));
    if (D == 3) laik_range_init_3d(r, sp, at(f[0]), at(t[0]), at(f[1]), at(t[1]), at(f[2]), at(t[2]));
}
static void rangeset(const Laik_Range* r, unsigned char* m) {
    int f[3] = { 0 }, t[3] = { 0 };
    for (int d = 0; d < D; d++) { f[d] = back(r->from.i[d]); t[d] = back(r->to.i[d]);
        RT_CHECK(f[d] >= 0 && t[d] >= 0, "R01:out-of-universe", "result coordinate is no bound of an operand"); }
    setof(f, t, m);
}
void r01_main(void) {
    S* s = SH; D = s->dims; N = s->N; TB = s->tab; SZ = D == 1 ? N : D == 2 ? N * N : N * N * N;
    Laik_Instance* inst = app_init();
    Laik_Space* sp = D == 1 ? laik_new_space_1d(inst, N) : D == 2 ? laik_new_space_2d(inst, N, N) : laik_new_space_3d(inst, N, N, N);
    unsigned char a[729], b[729], c[729], e[729];
    Laik_Range r1, r2;
    mk(&r1, sp, s->f1, s->t1); setof(s->f1, s->t1, a);
    int na = 0; for (int i = 0; i < SZ; i++) na += a[i];
    uint64_t want = amount(s->f1, s->t1);
    RT_CHECK(laik_range_size(&r1) == want, "R01:size", "size is %lu, expected %lu", (unsigned long)laik_range_size(&r1), (unsigned long)want);
    RT_CHECK(laik_range_isEmpty(&r1) == (na == 0), "R01:empty", "isEmpty wrong");
    int f2[3] = { 0 }, t2[3] = { 0 };
    long n = 0;
    // the space itself as range (change_space): size and containment
    if (D == 1) laik_change_space_1d(sp, at(s->f1[0]), at(s->t1[0]));
    if (D == 2) laik_change_space_2d(sp, at(s->f1[0]), at(s->t1[0]), at(s->f1[1]), at(s->t1[1]));
    if (D == 3) laik_change_space_3d(sp, at(s->f1[0]), at(s->t1[0]), at(s->f1[1]), at(s->t1[1]), at(s->f1[2]), at(s->t1[2]));
    RT_CHECK((uint64_t)laik_space_size(sp) == want, "R01:space-size", "space size %lu, expected %lu", (unsigned long)laik_space_size(sp), (unsigned long)want);
    RT_CHECK(laik_space_getdimensions(sp) == D, "R01:dims", "dimensions wrong");
    RT_CHECK(laik_range_isEqual((Laik_Range*)laik_space_asrange(sp), &r1), "R01:space-range", "space range differs from the bounds set");
    for (int code = 0;; code++) {
        int k = code, over = 0;
        for (int d = 0; d < D; d++) { f2[d] = k % N; k /= N; t2[d] = k % N; k /= N; if (t2[d] < f2[d]) over = 1; }
        if (k) break;
        if (over) continue;
        mk(&r2, sp, f2, t2); setof(f2, t2, b);
        int nb = 0, ni = 0, sub = 1, eq = 1;
        for (int i = 0; i < SZ; i++) { nb += b[i]; c[i] = a[i] && b[i]; ni += c[i]; if (b[i] && !a[i]) sub = 0; if (a[i] != b[i]) eq = 0; }
        n++;
#define WHERE "r2 from (%d,%d,%d) to (%d,%d,%d)", f2[0], f2[1], f2[2], t2[0], t2[1], t2[2]
        Laik_Range* ri = laik_range_intersect(&r1, &r2);
        if (ni == 0) RT_CHECK(ri == 0 || laik_range_isEmpty(ri), "R01:intersect-empty", "non-empty intersection of disjoint ranges, " WHERE);
        else { RT_CHECK(ri != 0, "R01:intersect-null", "no intersection, " WHERE); RT_CHECK(laik_range_size(ri) > 0, "R01:intersect", "empty intersection, " WHERE); rangeset(ri, e); RT_CHECK(!memcmp(e, c, SZ), "R01:intersect", "wrong intersection, " WHERE); }
        Laik_Range q1, q2; mk(&q1, sp, s->f1, s->t1); mk(&q2, sp, f2, t2);
        RT_CHECK(laik_range_isEqual(&q1, &r1), "R01:operand", "operand changed");
        // identical bounds compare equal, different non-empty ranges do not
        int same = 1; for (int d = 0; d < D; d++) if (f2[d] != s->f1[d] || t2[d] != s->t1[d]) same = 0;
        if (same || (na && nb)) RT_CHECK(laik_range_isEqual(&r1, &r2) == (same || eq), "R01:equal", "equality wrong, " WHERE);
        if (nb) {
            RT_CHECK(laik_range_within_range(&r2, &r1) == (sub && na), "R01:within", "containment of r2 in r1 wrong, " WHERE);
            RT_CHECK(laik_range_within_space(&r2, sp) == (sub && na), "R01:within-space", "containment in space wrong, " WHERE);
        }
        if (na && nb) {
            Laik_Range x; laik_range_init_copy(&x, &r1); laik_range_expand(&x, &r2);
            int f[3] = { 0 }, t[3] = { 0 }; for (int d = 0; d < D; d++) { f[d] = f2[d] < s->f1[d] ? f2[d] : s->f1[d]; t[d] = t2[d] > s->t1[d] ? t2[d] : s->t1[d]; }
            setof(f, t, c); rangeset(&x, e); RT_CHECK(!memcmp(e, c, SZ), "R01:expand", "bounding range wrong, " WHERE);
            RT_CHECK(laik_range_size(&x) == amount(f, t), "R01:expand", "size of bounding range wrong, " WHERE);
        }
        // indexes: from2/to2 taken as two indexes
        Laik_Index i1, i2, i3;
        laik_index_init(&i1, at(f2[0]), D > 1 ? at(f2[1]) : 5, D > 2 ? at(f2[2]) : 6); laik_index_init(&i2, at(t2[0]), D > 1 ? at(t2[1]) : 7, D > 2 ? at(t2[2]) : 8);
        int ie = 1; for (int d = 0; d < D; d++) if (f2[d] != t2[d]) ie = 0;
        RT_CHECK(laik_index_isEqual(D, &i1, &i2) == ie, "R01:index-equal", "index comparison wrong, " WHERE);
        laik_add_index(&i3, &i1, &i2); for (int d = 0; d < D; d++) RT_CHECK(i3.i[d] == at(f2[d]) + at(t2[d]), "R01:index-add", "index addition wrong, " WHERE);
        laik_sub_index(&i3, &i1, &i2); for (int d = 0; d < D; d++) RT_CHECK(i3.i[d] == at(f2[d]) - at(t2[d]), "R01:index-sub", "index subtraction wrong, " WHERE);
        // invalid ranges
        if (code % 97 == 0) {
            Laik_Range inv = r2; inv.space = 0;
            RT_CHECK(laik_range_isEmpty(&inv) && laik_range_size(&inv) == 0, "R01:invalid", "invalid range is not empty");
            Laik_Range* iv = laik_range_intersect(&r1, &inv); RT_CHECK(iv == 0 || laik_range_isEmpty(iv), "R01:invalid", "intersection with invalid range");
            RT_CHECK(!laik_range_within_range(&inv, &r1), "R01:invalid", "invalid range within other range");
        }
        rt_state(rt_hash(code * 1000003ul + 7, s, sizeof *s));
    }
    rt_count(RTC_EVAL, n);
    laik_finalize(inst);
}
void r01_end(void) {}
