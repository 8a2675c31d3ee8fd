// K01: local behaviour of key-value stores, against an explicit map
#include "kvs.h"
static char LONGK[301], LONGV[400];
static const char* KEYS[] = { "b", "a", "ab", "", "c d", LONGK, "B" };
#define NK 4
typedef struct { const char* p; int n; } Val;
static const Val VALS[] = { { "x", 2 }, { "xy", 3 }, { "x", 1 }, { "", 0 }, { "x\0y\n", 4 }, { "", 1 }, { LONGV, 400 } };
typedef struct { int n, op[5], set, depth; } S;
#define SH ((S*)rt_shared)
static void init(void) { memset(LONGK, 'k', 300); for (int i = 0; i < 400; i++) LONGV[i] = (char)(i * 37); }
// operations on 3 keys with 4 values, removal, clean, sort, sync, and setting from own value
enum { NSET = 12, RM0 = NSET, RM3 = RM0 + 3, CLEAN, SORT, SYNC, ALIAS, OTHER, SETNULL, NOPS };
static const char* apply(Laik_KVStore* s, KMap* m, int op, int kb, int vb, char* d) {
    if (op < NSET) {
        const char* k = KEYS[(op % 3 + kb) % 7]; Val v = VALS[(op / 3 + vb) % 7]; sprintf(d, "set('%.10s',%d bytes '%.5s') ", k, v.n, v.p);
        char* kk = kx_buf(k, strlen(k) + 1), *vv = kx_buf(v.p, v.n);
        Laik_KVS_Entry* e = laik_kvs_set(s, kk, v.n, vv); RT_CHECK(e && !strcmp(laik_kvs_key(e), k) && (int)laik_kvs_size(e) == v.n, "K:set", "set returns wrong entry");
        memset(vv, '!', v.n); memset(kk, '!', strlen(k) + 1); rt_free(kk); rt_free(vv);
        km_set(m, k, v.p, v.n);
    } else if (op < RM3) {
        const char* k = KEYS[(op - RM0 + kb) % 7]; sprintf(d, "remove('%.10s') ", k);
        int r = laik_kvs_remove(s, (char*)k), x = km_del(m, k); RT_CHECK(r == x, "K:remove", "remove of '%s' returns %d instead of %d", k, r, x);
    } else switch (op) {
        case CLEAN: sprintf(d, "clean "); laik_kvs_clean(s); memset(m, 0, sizeof *m); break;
        case SORT: sprintf(d, "sort "); laik_kvs_sort(s); break;
        case SYNC: sprintf(d, "sync "); laik_kvs_sync(s); break;
        case ALIAS: { // shorten by using the stored value
            const char* k = KEYS[kb % 7]; sprintf(d, "truncate('%.10s') ", k); Laik_KVS_Entry* e = laik_kvs_entry(s, (char*)k); if (!e || laik_kvs_size(e) < 2) break;
            int n = laik_kvs_size(e) - 1; laik_kvs_set(s, (char*)k, n, laik_kvs_data(e, 0)); KEnt* x = km_get(m, k); if (x) x->vlen--; break; }
        case OTHER: sprintf(d, "sets('%s') ", "str"); laik_kvs_sets(s, "str", "a string"); km_set(m, "str", "a string", 9); break;
        case SETNULL: { const char* k = KEYS[kb % 7]; sprintf(d, "set('%.10s',null) ", k); Laik_KVS_Entry* e = laik_kvs_set(s, (char*)k, 0, 0); RT_CHECK(!e, "K:set", "setting no value returns an entry"); km_del(m, k); break; }
    }
    return d;
}
// every sequence of operations; the first ones are scenario inputs
void k01a_gen(int tier) {
    S* s = SH; s->depth = 2; s->n = tier ? 4 : 2; s->set = rt_in(4); for (int i = 0; i < s->n; i++) s->op[i] = rt_in(NOPS);
    rt_setenv("LAIK_BACKEND", "single"); rt_scen->maxmem = 1L << 40;
    DESC("key/value set %d, operations", s->set); for (int i = 0; i < s->n; i++) DESC(" %d", s->op[i]); DESC(", then all sequences of up to %d operations", s->depth);
}
static int LEAF;
static void rec(Laik_Instance* inst, int* ops, int n, int total, int kb, int vb) {
    if (n < total) { for (int o = 0; o < NOPS; o++) { ops[n] = o; rec(inst, ops, n + 1, total, kb, vb); } return; }
    Laik_KVStore* s = laik_kvs_new("store", inst); KMap* m = rt_malloc(sizeof *m); memset(m, 0, sizeof *m); char d[2000] = ""; const char* ab[8]; for (int i = 0; i < 7; i++) ab[i] = KEYS[i]; ab[7] = "str";
    // states before the last operation are checked by the sequences ending there
    for (int i = 0; i < total; i++) { char t[200]; apply(s, m, ops[i], kb, vb, t); strcat(d, t); if (i == total - 1 || !LEAF) kvs_check(s, m, ab, 8, d); }
    LEAF++; rt_state(rt_hash(0x6b, m, sizeof *m)); rt_free(m); laik_kvs_free(s);
}
void k01a_main(void) {
    S* s = SH; init(); LEAF = 0; Laik_Instance* inst = app_init(); int ops[10]; static const int KB[] = { 0, 3, 1, 5 }, VB[] = { 0, 2, 3, 4 };
    long b0 = rt_live_bytes(0);
    for (int i = 0; i < s->n; i++) ops[i] = s->op[i];
    for (int t = s->n; t <= s->n + s->depth; t++) rec(inst, ops, s->n, t, KB[s->set], VB[s->set]);
    RT_CHECK(rt_live_bytes(0) == b0, "K:leak", "%ld bytes are not released by freeing the stores", rt_live_bytes(0) - b0);
    laik_finalize(inst);
}
void k01a_end(void) { }
// growth: more entries than space was reserved for
void k01b_gen(int tier) { S* s = SH; static const int C[] = { 1, 999, 1000, 1001, 2000, 2001, 4100 }; s->n = C[rt_in(7)]; s->op[0] = rt_in(4); s->op[1] = rt_in(3); rt_setenv("LAIK_BACKEND", "single"); rt_scen->maxmem = 1L << 40; DESC("%d entries, order %d, sort %d", s->n, s->op[0], s->op[1]); }
void k01b_main(void) {
    S* s = SH; Laik_Instance* inst = app_init(); Laik_KVStore* k = laik_kvs_new("store", inst); int n = s->n; char key[40], val[40];
    for (int i = 0; i < n; i++) {
        int j = s->op[0] == 0 ? i : s->op[0] == 1 ? n - 1 - i : (int)((long)i * 4099 % n); // 4099 is prime: a permutation
        sprintf(key, "%d", j); sprintf(val, "value %d", j); laik_kvs_sets(k, key, val);
        if (s->op[1] == 1 && i % 97 == 0) laik_kvs_sort(k);
        RT_CHECK((int)laik_kvs_count(k) == i + 1, "K:count", "%d entries reported instead of %d", laik_kvs_count(k), i + 1);
    }
    if (s->op[1]) laik_kvs_sort(k);
    if (s->op[0] == 3) for (int i = 0; i < n; i += 2) { sprintf(key, "%d", i); RT_CHECK(laik_kvs_remove(k, key), "K:remove", "'%s' not found", key); }
    int seen = 0; long sum = 0;
    for (int i = 0; i < n; i++) {
        sprintf(key, "%d", i); sprintf(val, "value %d", i); unsigned sz; char* d = laik_kvs_get(k, key, &sz);
        if (s->op[0] == 3 && i % 2 == 0) { RT_CHECK(!d, "K:absent", "'%s' still there", key); continue; }
        RT_CHECK(d && sz == strlen(val) + 1 && !strcmp(d, val), "K:value", "wrong value of '%s'", key); seen++; sum += i;
    }
    RT_CHECK((int)laik_kvs_count(k) == seen, "K:count", "%d entries reported instead of %d", laik_kvs_count(k), seen);
    for (int i = 0; i < seen; i++) { Laik_KVS_Entry* e = laik_kvs_getn(k, i); RT_CHECK(e && laik_kvs_data(e, 0), "K:getn", "no entry %d", i); sum -= atoi(laik_kvs_key(e)); }
    RT_CHECK(!sum, "K:getn", "enumeration is not a permutation of the entries");
    rt_count(RTC_EVAL, 3 * n); laik_kvs_free(k); laik_finalize(inst);
}
void k01b_end(void) { }
