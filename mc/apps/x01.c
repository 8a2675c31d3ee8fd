// X01: program control, external agents, profiling
#include "common.h"
#include <stdarg.h>
// ---- files and libraries as seen by LAIK
#define MAXF 24
typedef struct { FILE* f; char* buf; size_t len; int open; char name[80]; } XF;
static XF xf[MAXF]; static int nxf, fopen_fails;
FILE* __wrap_fopen(const char* name, const char* mode) {
    RT_CHECK(strchr(mode, 'a') || strchr(mode, 'w'), "X01:file", "file '%s' opened with mode '%s'", name, mode);
    if (fopen_fails || nxf == MAXF) return 0;
    XF* x = &xf[nxf++]; snprintf(x->name, 80, "%s", name); x->f = open_memstream(&x->buf, &x->len); x->open = 1; return x->f;
}
int __real_fclose(FILE*);
static XF* xfile(FILE* f) { for (int i = nxf - 1; i >= 0; i--) if (xf[i].f == f) return &xf[i]; return 0; }
int __wrap_fclose(FILE* f) { XF* x = xfile(f); RT_CHECK(x && x->open, "X01:file", "closing a file which is not open"); x->open = 0; return fflush(f); }
static void used(FILE* f) { XF* x = f ? xfile(f) : 0; RT_CHECK(f == stdout || f == stderr || (x && x->open), "X01:file", "writing to a file which is not open"); }
int __wrap_vfprintf(FILE* f, const char* fmt, va_list a) { used(f); if (f == stdout || f == stderr) return 1; char b[600]; int n = vsnprintf(b, 600, fmt, a); fwrite(b, 1, n, f); return n; }
int __wrap_fprintf(FILE* f, const char* fmt, ...) { va_list a; va_start(a, fmt); int n = __wrap_vfprintf(f, fmt, a); va_end(a); return n; }
static int opens[16], closes[16]; static char hnd[16];
// ---- agents
typedef struct { int kind, nfail; char uid[3][8]; int asked; } AG;
static AG ag[12]; static int nag, lastinit; static struct { int a, it; } alog[64]; static int nalog;
static Laik_Ft_Agent* fa[12]; static Laik_Agent* pa[12];
#define A(k) static void si##k(const int it) { if (nalog < 64) { alog[nalog].a = k; alog[nalog++].it = it; } } static int pk##k(void) { return ag[k].nfail; } static void gf##k(int* n, node_uid_t* o) { *n = ag[k].nfail; ag[k].asked++; for (int i = 0; i < *n; i++) strcpy(o[i].uid, ag[k].uid[i]); }
A(0) A(1) A(2) A(3) A(4) A(5) A(6) A(7) A(8) A(9)
static const laik_agent_set_iter SI[] = { si0, si1, si2, si3, si4, si5, si6, si7, si8, si9 }; static const laik_agent_peek_failed PKF[] = { pk0, pk1, pk2, pk3, pk4, pk5, pk6, pk7, pk8, pk9 }; static const laik_agent_get_failed GF[] = { gf0, gf1, gf2, gf3, gf4, gf5, gf6, gf7, gf8, gf9 };
static int argc_seen; static char** argv_seen; static int nextkind;
// kinds: 0 fault tolerance, 1 without iteration, 2 default agent, 3 profiling
static Laik_Agent* init_agent(int argc, char** argv) {
    int k = nag++; argc_seen = argc; argv_seen = argv; ag[k].kind = nextkind; ag[k].nfail = 0; lastinit = k;
    size_t sz = nextkind < 2 ? sizeof(Laik_Ft_Agent) : nextkind == 2 ? sizeof(Laik_Agent) : sizeof(Laik_Profiling_Agent);
    Laik_Agent* a = rt_malloc(sz); memset(a, 0, sz); pa[k] = a; a->type = nextkind < 2 ? LAIK_AGENT_FT : nextkind == 2 ? LAIK_AGENT_DEFAULT : LAIK_AGENT_PROFILING;
    if (nextkind < 2) { Laik_Ft_Agent* f = (Laik_Ft_Agent*)a; fa[k] = f; f->peekfail = PKF[k]; f->getfail = GF[k]; if (nextkind == 0) f->setiter = SI[k]; }
    return a;
}
void* __wrap_dlopen(const char* p, int fl) { (void)fl; if (strncmp(p, "agent", 5)) return 0; int k = p[5] - 'a'; RT_CHECK(k >= 0 && k < 16, "X01:library", "unknown library '%s'", p); opens[k]++; return &hnd[k]; }
static int hno(void* h) { int k = (char*)h - hnd; RT_CHECK(h && k >= 0 && k < 16 && opens[k] > closes[k], "X01:library", "using a library which is not loaded"); return k; }
void* __wrap_dlsym(void* h, const char* s) { hno(h); RT_CHECK(!strcmp(s, "agent_init"), "X01:library", "asked for '%s'", s); return (void*)init_agent; }
int __wrap_dlclose(void* h) { closes[hno(h)]++; return 0; }
char* __wrap_dlerror(void) { return (char*)"error"; }

// ---- a: histories of control operations
enum { O_ITER, O_RESET, O_PHASE, O_LOAD, O_LOADF, O_CLEAN, O_FAIL, O_GET, NO };
typedef struct { int n, op[8], arg[8], two, kinds; long pat; int nl; int np, pop[8], nranks; } S;
#define SH ((S*)rt_shared)
static const char* ON[] = { "iteration", "reset", "phase", "load", "load file", "cleanup", "failure", "get failed" };
void x01a_gen(int tier) {
    S* s = SH; s->n = 1 + rt_in(tier ? 6 : 5); int ini = 0, tot = 0;
    for (int i = 0; i < s->n; i++) {
        int o = s->op[i] = rt_in(NO); s->arg[i] = 0;
        switch (o) {
        case O_ITER: if (i && s->op[i - 1] == O_ITER && i > 3) REJECT(); break;
        case O_RESET: if (!i) REJECT(); break;
        case O_PHASE: break;
        case O_LOAD: s->arg[i] = rt_in(i > 2 ? 2 : 4); if (i > 2 && s->arg[i] == 1) s->arg[i] = 2; tot++; ini = 1; break;
        case O_LOADF: s->arg[i] = rt_in(2) ? 2 : 0; tot++; ini = 1; break;
        case O_CLEAN: if (!ini) REJECT(); ini = 0; break;
        case O_FAIL: if (!tot) REJECT(); s->arg[i] = rt_in(3); break;
        case O_GET: if (!ini) REJECT(); s->arg[i] = rt_in(3); break;
        }
        DESC("%s%s", i ? ", " : "", ON[o]); if (o == O_LOAD || o == O_LOADF || o == O_FAIL || o == O_GET) DESC(" %d", s->arg[i]);
    }
    rt_scen->nranks = 1; rt_setenv("LAIK_BACKEND", "mpi"); CTX("control");
}
typedef struct { int it, ph; const char* pn; void* pd; int na, a[12], lib[12]; } M;
static void ck(Laik_Instance* in, M* m, const char* op) {
    RT_CHECK(laik_get_iteration(in) == m->it, "X01:iteration", "after %s: iteration is %d instead of %d", op, laik_get_iteration(in), m->it);
    int ph = -1; const char* n = "?"; void* d = &ph; laik_get_phase(in, &ph, &n, &d); RT_CHECK(ph == m->ph && n == m->pn && d == m->pd, "X01:phase", "after %s: phase is %d '%s' instead of %d '%s'", op, ph, n ? n : "-", m->ph, m->pn ? m->pn : "-");
    rt_count(RTC_EVAL, 1);
}
static void libs(M* m, int nm) { for (int k = 0; k < 16; k++) { int w = 0; for (int j = 0; j < nm; j++) for (int i = 0; i < m[j].na; i++) w += m[j].lib[i] == k; RT_CHECK(opens[k] - closes[k] == w, "X01:library", "library %d is loaded %d times instead of %d", k, opens[k] - closes[k], w); } }
static node_uid_t fu[16];
static void getf(Laik_Instance* in, M* m, int max) {
    int n = 99; memset(fu, 'z', sizeof fu); for (int k = 0; k < nag; k++) ag[k].asked = 0; laik_get_failed(in, &n, fu, max);
    int e = 0; for (int i = 0; i < m->na; i++) { AG* a = &ag[m->a[i]]; if (a->kind > 1) { RT_CHECK(!a->asked, "X01:failed", "other agent asked for failures"); continue; } for (int j = 0; j < a->nfail && e < max; j++) { RT_CHECK(e < n && !strcmp(fu[e].uid, a->uid[j]), "X01:failed", "failure %d is '%.8s' instead of '%s' (%d reported)", e, fu[e].uid, a->uid[j], n); e++; } }
    RT_CHECK(n == e, "X01:failed", "%d failures reported instead of %d", n, e); for (int i = max; i < 16; i++) RT_CHECK(fu[i].uid[0] == 'z', "X01:failed", "failures written behind the field");
}
static void load(Laik_Instance* in, M* m, int kind, int file, int lib) {
    static char* av[3]; av[0] = "x"; nextkind = kind; argc_seen = -1; int argc = lib % 3; char p[10] = "agenta"; p[5] += lib;
    if (file) laik_ext_load_agent_from_file(in, p, argc, argc ? av : 0); else laik_ext_load_agent_from_function(in, init_agent, argc, argc ? av : 0);
    RT_CHECK(argc_seen == argc && argv_seen == (argc ? av : 0), "X01:args", "agent got other arguments"); m->a[m->na] = lastinit; m->lib[m->na++] = file ? lib : -1;
}
static void setiter(Laik_Instance* in, M* m, int it) {
    nalog = 0; laik_set_iteration(in, it); m->it = it; int k = 0;
    for (int i = 0; i < m->na; i++) if (ag[m->a[i]].kind == 0) { RT_CHECK(k < nalog && alog[k].a == m->a[i] && alog[k].it == it, "X01:told", "agent %d was not told iteration %d", i, it); k++; }
    RT_CHECK(k == nalog, "X01:told", "agents told %d times instead of %d", nalog, k);
}
void x01a_main(void) {
    S* s = SH; Laik_Instance* in = app_init(); M m, *q = &m; memset(&m, 0, sizeof m); static const char* names[] = { "init", "run", "" };
    ck(in, q, "start");
    for (int i = 0; i < s->n; i++) {
        switch (s->op[i]) {
        case O_ITER: setiter(in, q, i == 3 ? -1 : 7 * i + 1); break;
        case O_RESET: nalog = 0; laik_iter_reset(in); q->it = 0; RT_CHECK(!nalog, "X01:told", "agents were told a reset"); break;
        case O_PHASE: q->ph = i + 2; q->pn = names[i % 3]; q->pd = i % 2 ? 0 : (void*)&names[i % 3]; laik_set_phase(in, q->ph, q->pn, q->pd); break;
        case O_LOAD: load(in, q, s->arg[i], 0, i); break;
        case O_LOADF: load(in, q, s->arg[i], 1, i % 3); break;
        case O_CLEAN: laik_ext_cleanup(in); q->na = 0; break;
        case O_FAIL: { AG* a = &ag[nag - 1]; a->nfail = s->arg[i] + 1; if (a->nfail == 3) { ag[0].nfail = 2; strcpy(ag[0].uid[0], "n0"); strcpy(ag[0].uid[1], "n1"); a = &ag[nag - 1]; a->nfail = 1; } for (int j = 0; j < a->nfail; j++) snprintf(a->uid[j], 8, "u%d%d", i, j); } break;
        case O_GET: getf(in, q, s->arg[i] == 0 ? 16 : s->arg[i]); break;
        }
        ck(in, q, ON[s->op[i]]); libs(q, 1);
    }
    setiter(in, q, 1000); ck(in, q, "end"); m.na = 0; laik_finalize(in); libs(q, 1); for (int k = 0; k < nag; k++) rt_free(pa[k]);
}
void x01a_end(void) { }
// ---- b: up to ten agents, loaded from files or functions
void x01b_gen(int tier) { S* s = SH; (void)tier; s->nl = rt_in(11); s->pat = rt_in(1 << (s->nl < 10 ? s->nl : 10)); s->two = rt_in(2); DESC("%d agents, from files: %lx%s", s->nl, s->pat, s->two ? ", twice" : ""); rt_scen->nranks = 1; rt_setenv("LAIK_BACKEND", "mpi"); CTX("agents"); }
void x01b_main(void) {
    S* s = SH; Laik_Instance* in = app_init(); M m; memset(&m, 0, sizeof m);
    for (int rep = 0; rep <= s->two; rep++) {
        for (int i = 0; i < s->nl; i++) { load(in, &m, i % 4 == 3 ? 2 : i % 3 == 2 ? 1 : 0, (s->pat >> i) & 1, i); libs(&m, 1); for (int j = 0; j <= i; j++) RT_CHECK(in->repart_ctrl->agents[j] == pa[m.a[j]], "X01:agent", "agent %d got lost", j); }
        for (int j = 0; j < m.na; j++) { ag[m.a[j]].nfail = 1; snprintf(ag[m.a[j]].uid[0], 8, "f%d", j); }
        setiter(in, &m, 5); setiter(in, &m, 6); if (s->nl) { getf(in, &m, 16); getf(in, &m, 2); getf(in, &m, 0); }
        if (rep < s->two) { if (in->repart_ctrl) laik_ext_cleanup(in); m.na = 0; libs(&m, 1); setiter(in, &m, 7); for (int k = 0; k < nag; k++) rt_free(pa[k]); nag = 0; }
    }
    laik_finalize(in); m.na = 0; libs(&m, 1); for (int k = 0; k < nag; k++) rt_free(pa[k]); rt_count(RTC_EVAL, s->nl);
}
void x01b_end(void) { }
// ---- c: profiling
enum { P_EN, P_FILE, P_BADFILE, P_OFF, P_RESET, P_USTART, P_USTOP, P_WRITE, P_PRINT, P_CLOSE, P_SWITCH, P_EXEC, P_ITER, NP };
static const char* PN[] = { "enable", "enable file", "enable unusable file", "disable", "reset", "user start", "user stop", "write", "print", "close", "switch", "exec", "iteration" };
void x01c_gen(int tier) {
    S* s = SH; s->np = 1 + rt_in(tier ? 6 : 5); s->nranks = 2; for (int i = 0; i < s->np; i++) { s->pop[i] = rt_in(NP); if (i > 1 && s->pop[i] == s->pop[i - 1]) REJECT(); if ((s->pop[i] == P_RESET || s->pop[i] == P_OFF || s->pop[i] == P_USTOP) && i == 0) REJECT(); if (i == s->np - 1 && (s->pop[i] == P_ITER)) REJECT(); DESC("%s%s", i ? ", " : "", PN[s->pop[i]]); }
    rt_scen->nranks = 2; rt_setenv("LAIK_BACKEND", "mpi"); CTX("profiling");
}
static size_t flen(void) { size_t n = 0; for (int i = 0; i < nxf; i++) { fflush(xf[i].f); n += xf[i].len; } return n; }
void x01c_main(void) {
    S* s = SH; Laik_Instance* in = app_init(); Laik_Group* w = laik_world(in); int me = laik_myid(w); Laik_Space* sp = laik_new_space_1d(in, 4); Laik_Data* d = laik_new_data(sp, laik_Double);
    Laik_Partitioning* p[2] = { laik_new_partitioning(laik_new_block_partitioner1(), w, sp, 0), laik_new_partitioning(laik_Master, w, sp, 0) }; int cur = 0, en = 0, act = -1, it = 0, swi = 0; double lt = 0, lb = 0; double* b; uint64_t c;
    laik_switchto_partitioning(d, p[0], LAIK_DF_None, LAIK_RO_None); laik_get_map_1d(d, 0, (void**)&b, &c); for (uint64_t i = 0; i < c; i++) b[i] = 1 + laik_local2global_1d(d, i); Laik_Transition* tr[2] = { laik_calc_transition(sp, p[1], p[0], LAIK_DF_Preserve, LAIK_RO_None), laik_calc_transition(sp, p[0], p[1], LAIK_DF_Preserve, LAIK_RO_None) };
    laik_set_phase(in, 3, "three", 0);
    for (int i = 0; i <= s->np; i++) {
        size_t before = flen(); int nf = nxf, op = i < s->np ? s->pop[i] : P_SWITCH, wrote = 0, restart = 0;
        switch (op) {
        case P_EN: laik_enable_profiling(in); if (!en) restart = 1; en = 1; break;
        case P_FILE: case P_BADFILE: fopen_fails = op == P_BADFILE; laik_enable_profiling_file(in, "prof.txt"); fopen_fails = 0; if (act >= 0 && !xf[act].open) { act = -1; wrote = 1; } if (nxf > nf) { act = nf; wrote = 1; RT_CHECK(strstr(xf[nf].name, "prof.txt"), "X01:file", "file '%s' opened", xf[nf].name); } if (!en) restart = 1; en = 1; if (op == P_FILE && restart) RT_CHECK(nxf == nf + 1, "X01:file", "no file opened"); break;
        case P_OFF: laik_enable_profiling(0); en = 0; break;
        case P_RESET: laik_reset_profiling(in); if (en) restart = 1; break;
        case P_USTART: laik_profile_user_start(in); break;
        case P_USTOP: laik_profile_user_stop(in); break;
        case P_ITER: laik_set_iteration(in, it = i + 11); break;
        case P_CLOSE: laik_close_profiling_file(in); if (act >= 0) { wrote = 1; RT_CHECK(!xf[act].open, "X01:file", "file is still open"); act = -1; } break;
        case P_PRINT: laik_profile_printf("text %d %s\n", i, "x"); if (en && act >= 0) { char e[40]; snprintf(e, 40, "text %d x\n", i); fflush(xf[act].f); RT_CHECK(xf[act].len >= strlen(e) && !strcmp(xf[act].buf + xf[act].len - strlen(e), e), "X01:print", "text not written"); wrote = 1; } break;
        case P_WRITE: laik_writeout_profile(); if (en && act >= 0) { fflush(xf[act].f); char* l = xf[act].buf + before - 0; char g[100]; int ph, rit; double a, bb, u; size_t off = 0; for (int k = 0; k < nxf; k++) if (k != act) { fflush(xf[k].f); off += xf[k].len; } l = xf[act].buf + before - off;
            RT_CHECK(sscanf(l, "%99[^,], %d, %d, %lf, %lf, %lf\n", g, &ph, &rit, &a, &bb, &u) == 6, "X01:record", "record '%s'", l); RT_CHECK(!strcmp(g, laik_get_guid(in)) && ph == 3 && rit == it, "X01:record", "record for '%s', phase %d, iteration %d", g, ph, rit); double x = a - laik_get_total_time(), y = bb - laik_get_backend_time(); RT_CHECK(x < 1e-5 && x > -1e-5 && y < 1e-5 && y > -1e-5 && u >= 0, "X01:record", "record with times %g %g %g", a, bb, u); wrote = 1; } break;
        case P_SWITCH: case P_EXEC: cur = 1 - cur; swi++; if (op == P_SWITCH) laik_switchto_partitioning(d, p[cur], LAIK_DF_Preserve, LAIK_RO_None); else laik_exec_transition(d, tr[cur]); break;
        }
        double t = laik_get_total_time(), k = laik_get_backend_time();
        if (restart) { RT_CHECK(t == 0 && k == 0, "X01:times", "times are %g and %g after %s", t, k, PN[op]); lt = lb = 0; }
        if (!en) RT_CHECK(t == 0 && k == 0, "X01:times", "times are %g and %g without profiling", t, k);
        else { int sw = op == P_SWITCH || op == P_EXEC; RT_CHECK(t >= k && t >= 0 && k >= 0, "X01:times", "total time %g, time in backend %g", t, k); RT_CHECK(sw ? t > lt && k > lb : t == lt && k == lb, "X01:times", "after %s: times change from %g/%g to %g/%g", PN[op], lt, lb, t, k); lt = t; lb = k; }
        RT_CHECK((flen() != before) == wrote, "X01:file", "%s: %s to file", PN[op], wrote ? "nothing written" : "something written");
        int n = laik_my_mapcount(p[cur]); if (n) { laik_get_map_1d(d, 0, (void**)&b, &c); for (uint64_t j = 0; j < c; j++) RT_CHECK(b[j] == 1 + laik_local2global_1d(d, j), "X01:data", "element %d of process %d is %g", (int)j, me, b[j]); }
        RT_CHECK(laik_get_iteration(in) == it, "X01:iteration", "iteration is %d instead of %d", laik_get_iteration(in), it); rt_count(RTC_EVAL, 1);
    }
    laik_free(d); laik_finalize(in);
    for (int k = 0; k < nxf; k++) RT_CHECK(!xf[k].open, "X01:file", "file %d is still open at the end", k);
    RT_CHECK(laik_get_total_time() == 0 && laik_get_backend_time() == 0, "X01:times", "times reported after the end"); laik_writeout_profile(); laik_profile_printf("x");
    for (int k = 0; k < nxf; k++) { __real_fclose(xf[k].f); }
}
void x01c_end(void) { }
