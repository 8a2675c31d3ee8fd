// M01: layouts - addresses, packing, unpacking, copying of every sub-range
#include "box.h"
typedef struct { int sh, a, es, kind, org, reuse, kind2; } S;
#define SH ((S*)rt_shared)
// own layout: last dimension fastest, reversed
typedef struct { Laik_Layout h; Laik_Range r[8]; } RL;
static int rl_section(Laik_Layout* l, Laik_Index* idx) { RL* q = (RL*)l; for (int i = 0; i < l->map_count; i++) { int in = 1; for (int d = 0; d < l->dims; d++) in &= idx->i[d] >= q->r[i].from.i[d] && idx->i[d] < q->r[i].to.i[d]; if (in) return i; } return -1; }
static int rl_mapno(Laik_Layout* l, int n) { (void)l; return n; }
static int64_t rl_offset(Laik_Layout* l, int n, Laik_Index* idx) { RL* q = (RL*)l; int64_t o = 0, c = 1; for (int d = 0; d < l->dims; d++) { int64_t e = q->r[n].to.i[d] - q->r[n].from.i[d]; RT_CHECK(idx->i[d] >= q->r[n].from.i[d] && idx->i[d] < q->r[n].to.i[d], "M01:index", "offset requested for an index outside"); o = o * e + (idx->i[d] - q->r[n].from.i[d]); c *= e; } return c - 1 - o; }
static Laik_Layout* rl_new(int n, Laik_Range* r) { RL* q = malloc(sizeof(RL)); uint64_t c = 0; for (int i = 0; i < n; i++) { q->r[i] = r[i]; c += laik_range_size(&r[i]); } laik_init_layout(&q->h, laik_space_getdimensions(r->space), n, c, rl_section, rl_mapno, rl_offset, 0, 0, 0, 0, 0); return &q->h; }
static Laik_Type* TYP(int es) { return es == 1 ? laik_Char : es == 8 ? laik_Double : laik_type_register("three", es); }
static unsigned char val(int x, int y, int z, int byte, int salt) { return 1 + ((x * 31 + y * 7 + z * 67 + byte * 101 + salt * 53) % 250); }
static char* addr(Laik_Mapping* m, Laik_Index* i) { Laik_Layout* l = m->layout; return m->start + (l->offset)(l, m->layoutSection, i) * m->data->elemsize; }
static Laik_Data* container(Laik_Group* w, Laik_Space* sp, Laik_Type* t, Box b, int org, int kind, Laik_Partitioning* first) {
    Laik_Data* d = laik_new_data(sp, t); if (kind) laik_data_set_layout_factory(d, rl_new);
    BPart* q = rt_malloc(sizeof *q); q->n = 1; q->task[0] = 0; q->tag[0] = 1; q->org = org; q->b[0] = b;
    if (first) laik_switchto_partitioning(d, first, LAIK_DF_None, LAIK_RO_None);
    laik_switchto_partitioning(d, bx_partitioning(w, sp, q), LAIK_DF_None, LAIK_RO_None); return d;
}
static void fill(Laik_Mapping* m, Box b, int org, int dims, int es, int salt) { Laik_Index i; FORBOX(b, x, y, z) { bx_index(&i, x, y, z, org, dims); char* p = addr(m, &i); for (int k = 0; k < es; k++) p[k] = val(x, y, z, k, salt); } }
// elements of <s> have values with salt a, others with salt b
static void check(Laik_Mapping* m, Box b, Box s, int org, int dims, int es, int sa, int sb, const char* what) { Laik_Index i; FORBOX(b, x, y, z) { bx_index(&i, x, y, z, org, dims); char* p = addr(m, &i); int in = bx_has(s, x, y, z); for (int k = 0; k < es; k++) RT_CHECK((unsigned char)p[k] == val(x, y, z, k, in ? sa : sb), in ? "M01:element" : "M01:other", "%s of [%d;%d[x[%d;%d[x[%d;%d[: byte %d of element %d/%d/%d %s", what, BSTR(s), k, x, y, z, in ? "has a wrong value" : "changed"); } }
static void common(int tier) { (void)tier; S* s = SH;
    rt_setenv("LAIK_BACKEND", "single"); if (s->kind == 1) rt_setenv("LAIK_LAYOUT_GENERIC", "1"); rt_scen->maxmem = 1L << 40; rt_scen->no_leakcheck = 1;
    static const char* K[] = { "lexicographical layout", "lexicographical layout with generic functions", "application layout" };
    DESC("%s, %dd, element size %d, first index %d, box %d%s, other side %s", K[s->kind], BDIM[s->sh], s->es, s->org, s->a, s->reuse ? " reusing a larger allocation" : "", K[s->kind2 ? 2 : 0]); CTX("%s", K[s->kind]);
}
void m01a_gen(int tier) {
    S* s = SH; static const int ES[] = { 1, 8, 3 }; s->sh = rt_in(4); s->es = ES[rt_in(3)]; s->kind = rt_in(3); s->org = rt_in(2) * 5; s->reuse = s->kind < 2 ? rt_in(2) : 0; s->kind2 = rt_in(2); s->a = rt_in(bx_all(s->sh, 0));
    if (!tier && s->es == 3 && (s->org || s->reuse)) REJECT(); if (!tier && s->sh == 3 && (s->es != 8 || s->org || s->kind)) REJECT();
    common(tier);
}
void m01a_main(void) {
    S* s = SH; Laik_Instance* inst = app_init(); Laik_Group* w = laik_world(inst); int dims = BDIM[s->sh], es = s->es, org = s->org;
    static Box all[256]; int na = bx_all(s->sh, all); Box A = all[s->a], full = { { 0, 0, 0 }, { BEXT[s->sh][0], BEXT[s->sh][1], BEXT[s->sh][2] } };
    Laik_Space* sp = bx_space(inst, s->sh, org); Laik_Type* ty = TYP(es);
    BPart* fq = rt_malloc(sizeof *fq); fq->n = 1; fq->task[0] = 0; fq->tag[0] = 1; fq->org = org; fq->b[0] = full; Laik_Partitioning* fp = bx_partitioning(w, sp, fq);
    Laik_Data* d = container(w, sp, ty, A, org, s->kind == 2, s->reuse ? fp : 0); Laik_Mapping* m = laik_get_map(d, 0); RT_CHECK(m && laik_get_map(d, 1) == 0, "M01:maps", "not one mapping"); Laik_Layout* l = m->layout; Laik_Index ix;
    // positions: inside of memory, pairwise distinct
    FORBOX(full, x, y, z) { bx_index(&ix, x, y, z, org, dims); int in = bx_has(A, x, y, z), sec = (l->section)(l, &ix);
        if (in) RT_CHECK(sec == m->layoutSection && (l->mapno)(l, sec) == 0, "M01:section", "index %d/%d/%d not found in layout", x, y, z); else if (!s->reuse) RT_CHECK(sec == -1, "M01:section", "index %d/%d/%d found in section %d", x, y, z, sec);
        if (in) { char* p = addr(m, &ix); RT_CHECK(rt_mem_ok(p, es) == 1, "M01:memory", "index %d/%d/%d lies outside of memory", x, y, z); RT_CHECK(p >= m->start && p + es <= m->start + m->capacity, "M01:memory", "index %d/%d/%d lies outside of the mapping", x, y, z); } }
    RT_CHECK(l->count >= (uint64_t)bx_size(A), "M01:count", "layout covers %d indexes instead of %d", (int)l->count, bx_size(A));
    fill(m, A, org, dims, es, 1); check(m, A, A, org, dims, es, 1, 1, "writing");
    int N = bx_size(full) * es; char* snap = rt_malloc(N); long ev = 0;
    // receiving sides of different allocations
    for (int v = 0; v < 3; v++) { // same box, full box, embedded
        Box B = v == 0 ? A : full; if (v == 2 && s->kind2) break;
        Laik_Data* d2 = container(w, sp, ty, v == 2 ? A : B, org, s->kind2, v == 2 ? fp : 0); if (v == 2) B = A; Laik_Mapping* m2 = laik_get_map(d2, 0);
        for (int si = 0; si < na; si++) { Box b = all[si]; if (!bx_in(b, A)) continue; int n = bx_size(b); Laik_Range r; bx_range(&r, sp, b, org);
            for (int fs = 1; fs <= n; fs++) { // buffers of <fs> elements (and some bytes more)
                int extra = es > 1 ? fs % es : 0, size = fs * es + extra; char* buf = rt_malloc(size); Laik_Index p = r.from, u = r.from; int done = 0, us = n - fs + 1; char* stream = rt_malloc(n * es);
                // packing
                while (1) { memset(buf, 0xEE, size); unsigned k = (l->pack)(m, &r, &p, buf, size); if (!k) break;
                    RT_CHECK((int)k == (n - done < fs ? n - done : fs), "M01:pack", "%u elements packed into space for %d (%d left)", k, fs, n - done);
                    for (int c = k * es; c < size; c++) RT_CHECK((unsigned char)buf[c] == 0xEE, "M01:pack", "packing wrote behind the elements"); memcpy(stream + done * es, buf, k * es); done += k; RT_CHECK(done <= n, "M01:pack", "packed more than all elements"); }
                RT_CHECK(done == n, "M01:pack", "only %d of %d elements packed with space for %d", done, n, fs); int e = 0; FORBOX(b, x, y, z) { for (int c = 0; c < es; c++) RT_CHECK((unsigned char)stream[e * es + c] == val(x, y, z, c, 1), "M01:order", "element %d in packed order is not %d/%d/%d", e, x, y, z); e++; }
                rt_free(buf);
                // unpacking in pieces of another size
                fill(m2, B, org, dims, es, 2); for (int o = 0; o < n;) { int k = us < n - o ? us : n - o; char* piece = rt_malloc(k * es + extra); memcpy(piece, stream + o * es, k * es); unsigned q = (m2->layout->unpack)(m2, &r, &u, piece, k * es + extra); rt_free(piece);
                    RT_CHECK((int)q == k, "M01:unpack", "%u of %d elements unpacked", q, k); o += k; RT_CHECK(laik_index_isEqual(dims, &u, &r.to) == (o == n), "M01:unpack", "end position wrong after %d of %d elements", o, n); }
                rt_free(stream); check(m2, B, b, org, dims, es, 1, 2, "unpacking"); ev += 2;
            }
            fill(m2, B, org, dims, es, 2); laik_data_copy(&r, m, m2); check(m2, B, b, org, dims, es, 1, 2, "copying"); ev++;
            fill(m2, B, org, dims, es, 2); laik_layout_copy_gen(&r, m, m2); check(m2, B, b, org, dims, es, 1, 2, "generic copying"); ev++;
        }
        laik_free(d2);
    }
    check(m, A, A, org, dims, es, 1, 1, "source"); rt_free(snap); rt_count(RTC_EVAL, ev); laik_finalize(inst);
}
void m01a_end(void) { }
