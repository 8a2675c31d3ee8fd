#ifndef KVS_H
#define KVS_H
#include "common.h"
// explicit map model of a key-value store
#define KM 24
#define KBIG 300
typedef struct { char key[400]; int vlen; char val[400]; int used; } KEnt;
typedef struct { KEnt e[KM]; int big; } KMap;    // big: the KBIG extra keys have this version (0: none)
static inline KEnt* km_get(KMap* m, const char* k) { for (int i = 0; i < KM; i++) if (m->e[i].used && !strcmp(m->e[i].key, k)) return &m->e[i]; return 0; }
static inline void km_set(KMap* m, const char* k, const char* v, int vl) {
    KEnt* e = km_get(m, k); if (!e) { int i = 0; while (i < KM && m->e[i].used) i++; assert(i < KM); e = &m->e[i]; e->used = 1; strcpy(e->key, k); }
    e->vlen = vl; memcpy(e->val, v, vl);
}
static inline int km_del(KMap* m, const char* k) { KEnt* e = km_get(m, k); if (!e) return 0; e->used = 0; return 1; }
static inline int km_count(KMap* m) { int n = 0; for (int i = 0; i < KM; i++) n += m->e[i].used; return n + (m->big ? KBIG : 0); }
static inline int ke_same(KEnt* a, KEnt* b) { return (!a && !b) || (a && b && a->vlen == b->vlen && !memcmp(a->val, b->val, a->vlen)); }
static inline void big_kv(int i, int ver, char* k, char* v) { sprintf(k, "many-%d", (i * 7) % KBIG); sprintf(v, "v%d.%d", ver, i); }
static char* kx_buf(const void* p, int n) { char* b = rt_malloc(n ? n : 1); memcpy(b, p, n); if (!n) rt_mem_poison(b, 1); return b; } // exact size: reading further is found
// compare store and model through the public interface
static void kvs_check(Laik_KVStore* s, KMap* m, const char** absent, int nabs, const char* when) {
    int n = laik_kvs_count(s);
    RT_CHECK(n == km_count(m), "K:count", "%s: %d entries reported instead of %d", when, n, km_count(m));
    int seen = 0, seenbig = 0;
    for (int i = 0; i < n; i++) {
        Laik_KVS_Entry* e = laik_kvs_getn(s, i); RT_CHECK(e, "K:getn", "%s: no entry at position %d of %d", when, i, n);
        char* k = laik_kvs_key(e);
        if (!strncmp(k, "many-", 5)) { seenbig++; continue; }
        KEnt* x = km_get(m, k); RT_CHECK(x, "K:getn", "%s: unexpected key '%s' at position %d", when, k, i);
        RT_CHECK(!(seen >> (x - m->e) & 1), "K:getn", "%s: key '%s' found twice", when, k); seen |= 1 << (x - m->e);
        RT_CHECK((int)laik_kvs_size(e) == x->vlen, "K:size", "%s: key '%s' has size %d instead of %d", when, k, laik_kvs_size(e), x->vlen);
    }
    RT_CHECK(seenbig == (m->big ? KBIG : 0), "K:getn", "%s: %d of the many keys found", when, seenbig);
    RT_CHECK(!laik_kvs_getn(s, n) && !laik_kvs_getn(s, n + 5), "K:getn", "%s: entry behind the last one", when);
    for (int i = 0; i < KM; i++) if (m->e[i].used) {
        KEnt* x = &m->e[i]; Laik_KVS_Entry* e = laik_kvs_entry(s, x->key); unsigned sz = 12345, sz2 = 12345;
        RT_CHECK(e, "K:lookup", "%s: key '%s' not found", when, x->key);
        RT_CHECK(!strcmp(laik_kvs_key(e), x->key), "K:lookup", "%s: lookup of '%s' gives '%s'", when, x->key, laik_kvs_key(e));
        char* d = laik_kvs_data(e, &sz), *g = laik_kvs_get(s, x->key, &sz2);
        RT_CHECK(d == g && (int)sz == x->vlen && sz2 == sz && d, "K:size", "%s: key '%s': size %d/%d instead of %d", when, x->key, sz, sz2, x->vlen);
        RT_CHECK(!sz || rt_mem_ok(d, sz), "K:memory", "%s: value of '%s' is not in valid memory", when, x->key);
        RT_CHECK(!memcmp(d, x->val, sz), "K:value", "%s: wrong value of '%s'", when, x->key);
        char b[402]; memset(b, '#', sizeof b); int want = x->vlen < 2 ? x->vlen : 2;
        RT_CHECK((int)laik_kvs_copy(e, b, 2) == want && !memcmp(b, x->val, want) && b[want] == '#', "K:copy", "%s: copy of '%s' wrong", when, x->key);
        RT_CHECK((int)laik_kvs_copy(e, b, 401) == x->vlen && !memcmp(b, x->val, x->vlen) && b[x->vlen] == '#', "K:copy", "%s: copy of '%s' wrong", when, x->key);
    }
    if (m->big) for (int i = 0; i < KBIG; i += 13) { char k[30], v[30]; big_kv(i, m->big, k, v); unsigned sz = 0; char* d = laik_kvs_get(s, k, &sz); RT_CHECK(d && sz == strlen(v) + 1 && !strcmp(d, v), "K:value", "%s: wrong value of '%s'", when, k); }
    for (int i = 0; i < nabs; i++) if (!km_get(m, absent[i])) RT_CHECK(!laik_kvs_entry(s, (char*)absent[i]) && !laik_kvs_get(s, (char*)absent[i], 0), "K:absent", "%s: key '%s' should not exist", when, absent[i]);
    rt_count(RTC_EVAL, n + nabs + 1);
}
#endif
