// Linear-controller conformance driver.  usage: lm_driver SCRIPT TRACE [raw]
#include "lm.hpp"
#include <fstream>
#include <malloc.h>
#include <map>
#include <osqp/osqp.h>
#include <set>

thread_local Play *gPlay = nullptr;
bool gPy = false, gRaw = false;
long gUnits = 0;
long gBad = 0, gLive = 0, gAlloc = 0;

std::string num(double v, double mult, double tol)
{
    if (gRaw) return "\"" + hx::bits(v) + "\"";
    // the solver treats anything beyond 1e30 as infinite
    if (std::fabs(v * (gUnits ? mult : 1)) >= 1e29 && !std::isnan(v)) return std::to_string(v > 0 ? hx::INFV : -hx::INFV);
    return std::to_string(hx::enc(v, mult, tol));
}

// ---- the stand-in solver
static std::set<void *> &blocks() { static auto *s = new std::set<void *>; return *s; }
static std::set<OSQPWorkspace *> &works() { static auto *s = new std::set<OSQPWorkspace *>; return *s; }
extern "C" {
void *osqp_fake_malloc(unsigned long n)
{
    void *p = std::malloc(n ? n : 1);
    std::memset(p, 0xA5, n);
    blocks().insert(p);
    gAlloc = (long)blocks().size();
    return p;
}
void *osqp_fake_calloc(unsigned long a, unsigned long b)
{
    void *p = osqp_fake_malloc(a * b);
    std::memset(p, 0, a * b);
    return p;
}
void osqp_fake_free(void *p)
{
    if (!p) return;
    if (!blocks().erase(p)) { gBad++; return; }
    gAlloc = (long)blocks().size();
    std::free(p);
}
csc *csc_matrix(c_int m, c_int n, c_int nzmax, c_float *x, c_int *i, c_int *p)
{
    csc *A = (csc *)osqp_fake_malloc(sizeof(csc));
    A->m = m; A->n = n; A->nz = -1; A->nzmax = nzmax; A->x = x; A->i = i; A->p = p;
    return A;
}
csc *csc_spalloc(c_int m, c_int n, c_int nzmax, c_int values, c_int triplet)
{
    csc *A = (csc *)osqp_fake_calloc(1, sizeof(csc));
    A->m = m; A->n = n;
    A->nzmax = nzmax = nzmax > 1 ? nzmax : 1;
    A->nz = triplet ? 0 : -1;
    A->p = (c_int *)osqp_fake_malloc(sizeof(c_int) * (triplet ? nzmax : n + 1));
    A->i = (c_int *)osqp_fake_malloc(sizeof(c_int) * nzmax);
    A->x = values ? (c_float *)osqp_fake_malloc(sizeof(c_float) * nzmax) : nullptr;
    return A;
}
void csc_spfree(csc *A)
{
    if (!A) return;
    if (!blocks().count(A)) { gBad++; return; }
    osqp_fake_free(A->p); osqp_fake_free(A->i); osqp_fake_free(A->x); osqp_fake_free(A);
}
void osqp_set_default_settings(OSQPSettings *s)
{
    if (!s || !blocks().count(s)) { if (!s) return; }
    std::memset(s, 0, sizeof *s);
    s->rho = 0.1; s->sigma = 1e-6; s->scaling = 10; s->adaptive_rho = 1; s->adaptive_rho_tolerance = 5; s->adaptive_rho_fraction = 0.4;
    s->max_iter = 4000; s->eps_abs = 1e-3; s->eps_rel = 1e-3; s->eps_prim_inf = 1e-4; s->eps_dual_inf = 1e-4; s->alpha = 1.6;
    s->delta = 1e-6; s->polish_refine_iter = 3; s->verbose = 1; s->check_termination = 25; s->warm_start = 1;
}
static bool wellFormed(const csc *A, c_int m, c_int n, bool upper)
{
    if (!A || A->m != m || A->n != n || !A->p || A->p[0] != 0 || A->nz != -1) return false;
    for (c_int j = 0; j < n; j++)
    {
        if (A->p[j + 1] < A->p[j] || A->p[j + 1] > A->nzmax) return false;
        std::set<c_int> seen;
        for (c_int k = A->p[j]; k < A->p[j + 1]; k++)
            if (A->i[k] < 0 || A->i[k] >= m || !seen.insert(A->i[k]).second || (upper && A->i[k] > j)) return false;
    }
    return true;
}
c_int osqp_setup(OSQPWorkspace **workp, const OSQPData *d, const OSQPSettings *s)
{
    Play *p = gPlay;
    if (!p) { std::fprintf(stderr, "setup outside a solve\n"); std::exit(77); }
    p->nset++;
    hx::pass(2);
    if (!d || !s) return OSQP_DATA_VALIDATION_ERROR;
    p->n = d->n;
    p->uz.resize(d->n, 1.0);
    p->m = d->m;
    {
        std::vector<std::string> v = {num(s->alpha, 1e6, 1e-5), num(s->rho, 1e6, 1e-5), num(s->eps_rel, 1e6, 1e-5), num(s->eps_abs, 1e6, 1e-5), num(s->eps_prim_inf, 1e6, 1e-5),
                                      num(s->eps_dual_inf, 1e6, 1e-5), num(s->verbose, 1), num(s->adaptive_rho, 1), num(s->polish, 1), num(s->max_iter, 1),
                                      num(s->time_limit, 8), num(s->warm_start, 1)};
        p->par = hx::Ev::list(v);
    }
    if (!wellFormed(d->P, d->n, d->n, true) || !wellFormed(d->A, d->m, d->n, false) || !d->q || !d->l || !d->u)
    {
        p->wf = 0;
        p->refused = true;
        return OSQP_DATA_VALIDATION_ERROR;
    }
    std::string P = "[";
    for (c_int j = 0; j < d->n; j++)
        for (c_int k = d->P->p[j]; k < d->P->p[j + 1]; k++)
        {
            if (d->P->x[k] == 0) continue;
            if (P.size() > 1) P += ",";
            P += "[" + std::to_string(d->P->i[k] + 1) + "," + std::to_string(j + 1) + "," + num(d->P->x[k], p->uz[d->P->i[k]] * p->uz[j] / p->uw) + "]";
        }
    p->P = P + "]";
    p->q = nums(d->n, [&](size_t k) { return d->q[k] * p->uz[k]; }, 1 / p->uw);
    // a row's own unit is divided out: the smallest power of two that leaves integers
    std::vector<double> ru(d->m, 1);
    if (gUnits)
    {
        std::vector<int> low(d->m, 10000);
        auto see = [&](c_int r, double v) {
            if (v == 0 || !(std::fabs(v) < 1e29)) return;
            int e;
            double f = std::frexp(v, &e);
            while (f != std::nearbyint(f)) { f *= 2; e--; }
            low[r] = std::min(low[r], e);
        };
        for (c_int r = 0; r < d->m; r++) { see(r, d->l[r]); see(r, d->u[r]); }
        for (c_int j = 0; j < d->n; j++) for (c_int k = d->A->p[j]; k < d->A->p[j + 1]; k++) see(d->A->i[k], d->A->x[k] * p->uz[j]);
        for (c_int r = 0; r < d->m; r++) if (low[r] < 10000) ru[r] = std::ldexp(1.0, -low[r]);
    }
    auto lim = [&](double v, c_int r) { return std::fabs(v) >= 1e29 ? num(v, 1) : num(v, ru[r]); };
    std::vector<std::string> rows(d->m);
    for (c_int r = 0; r < d->m; r++) rows[r] = "[" + lim(d->l[r], r) + "," + lim(d->u[r], r);
    for (c_int j = 0; j < d->n; j++)
        for (c_int k = d->A->p[j]; k < d->A->p[j + 1]; k++)
            if (d->A->x[k] != 0) rows[d->A->i[k]] += "," + std::to_string(j + 1) + "," + num(d->A->x[k] * p->uz[j], ru[d->A->i[k]]);
    for (auto &r : rows) r += "]";
    p->rows = hx::Ev::list(rows);
    bool cross = false;
    for (c_int r = 0; r < d->m; r++) cross = cross || !(d->l[r] <= d->u[r]);
    if (cross || p->mode == 1) { p->refused = true; return OSQP_DATA_VALIDATION_ERROR; }
    OSQPWorkspace *w = (OSQPWorkspace *)std::calloc(1, sizeof(OSQPWorkspace));
    *workp = w;
    works().insert(w);
    gLive = (long)works().size();
    w->data = (OSQPData *)std::calloc(1, sizeof(OSQPData));
    w->data->n = d->n;
    w->data->m = d->m;
    w->settings = (OSQPSettings *)std::malloc(sizeof(OSQPSettings));
    *w->settings = *s;
    if (p->mode == 2) { p->refused = true; return OSQP_NONCVX_ERROR; }
    w->solution = (OSQPSolution *)std::calloc(1, sizeof(OSQPSolution));
    w->solution->x = (c_float *)std::calloc(d->n + 1, sizeof(c_float));
    w->solution->y = (c_float *)std::calloc(d->m + 1, sizeof(c_float));
    w->info = (OSQPInfo *)std::calloc(1, sizeof(OSQPInfo));
    w->info->status_val = OSQP_UNSOLVED;
    p->nok++;
    hx::pass(2);
    return 0;
}
static bool alive(OSQPWorkspace *w)
{
    if (works().count(w)) return true;
    if (w) gBad++;
    return false;
}
c_int osqp_warm_start(OSQPWorkspace *w, const c_float *x, const c_float *y)
{
    if (!w || !alive(w)) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    c_int r = osqp_warm_start_x(w, x);
    return r ? r : osqp_warm_start_y(w, y);
}
c_int osqp_warm_start_x(OSQPWorkspace *w, const c_float *x)
{
    if (!w || !alive(w)) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    w->settings->warm_start = 1;
    gPlay->nwarm++;
    gPlay->uz.resize(w->data->n, 1.0);
    gPlay->wx = nums(w->data->n, [&](size_t k) { return x[k] / gPlay->uz[k]; }, 1);
    return 0;
}
c_int osqp_warm_start_y(OSQPWorkspace *w, const c_float *y)
{
    if (!w || !alive(w)) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    w->settings->warm_start = 1;
    gPlay->wy = nums(w->data->m, [&](size_t k) { return y[k]; }, 1);
    return 0;
}
c_int osqp_update_warm_start(OSQPWorkspace *w, c_int v)
{
    if (!w || !alive(w)) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    w->settings->warm_start = v;
    return 0;
}
c_int osqp_update_verbose(OSQPWorkspace *w, c_int v)
{
    if (!w || !alive(w)) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    w->settings->verbose = v;
    return 0;
}
c_int osqp_solve(OSQPWorkspace *w)
{
    if (!w || !alive(w)) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    Play &p = *gPlay;
    p.nsolve++;
    hx::pass(2);
    if (!w->solution) { gBad++; return OSQP_WORKSPACE_NOT_INIT_ERROR; }
    hx::clockNs() += p.advMs * hx::tick();
    w->info->status_val = p.status;
    w->info->obj_val = (double)p.obj;
    const bool none = p.status == 3 || p.status == 4 || p.status == -3 || p.status == -4 || p.status == -7;
    if (p.status == 3 || p.status == -3) w->info->obj_val = OSQP_INFTY;
    if (p.status == 4 || p.status == -4) w->info->obj_val = -OSQP_INFTY;
    if (p.status == -7) w->info->obj_val = std::numeric_limits<double>::quiet_NaN();
    for (c_int k = 0; k < w->data->n; k++) w->solution->x[k] = none ? std::numeric_limits<double>::quiet_NaN() : (double)Z(p.seed, k + 1) * p.uz[k];
    for (c_int k = 0; k < w->data->m; k++) w->solution->y[k] = none ? std::numeric_limits<double>::quiet_NaN() : (double)Z(p.seed + 5, k + 1);
    return p.status == -5 ? 1 : 0;
}
c_int osqp_cleanup(OSQPWorkspace *w)
{
    if (!w) return 0;
    if (!works().count(w)) { gBad++; return 0; }
    works().erase(w);
    gLive = (long)works().size();
    std::free(w->data);
    std::free(w->settings);
    if (w->solution)
    {
        // what is read after the release must not look right
        for (c_int k = 0; k < 1; k++) { w->solution->x[k] = w->solution->y[k] = -7777; }
        std::free(w->solution->x);
        std::free(w->solution->y);
        std::free(w->solution);
    }
    std::free(w->info);
    std::free(w);
    return 0;
}
}

long liveBlocks();

int main(int argc, char **argv)
{
    if (argc < 3) return 77;
    std::ifstream in(argv[1]);
    hx::out() = std::fopen(argv[2], "w");
    gPy = argc > 3 && std::string(argv[3]) == "py";
    const bool thr = argc > 3 && std::string(argv[3]) == "thr";
    gRaw = gPy || thr || (argc > 3 && std::string(argv[3]) == "raw");
    gUnits = argc > 3 && argv[3][0] == 'u' ? std::atol(argv[3] + 1) : 0;
    std::ostringstream sink;
    std::cout.rdbuf(sink.rdbuf());
    std::map<long, ICtl *> ctl;
    hx::Line l;
    auto ev = [&](const char *op, long id) {
        hx::Ev e;
        e.str("op", op).i("i", id).i("r", 1).i("bad", gBad).i("live", gLive).i("mem", gAlloc);
        hx::emit(e);
        gBad = 0;
    };
    auto step = [&](hx::Line l) {
        long id = l.next();
        l.a.erase(l.a.begin());
        l.p = 0;
        sink.str("");
        if (l.op == "new")
        {
            long shape = l.next(), dyn = l.next();
            auto v = l.take(6);
            Dims d{(int)v[0], (int)v[1], (int)v[2], (int)v[3], (int)v[4], (int)v[5]};
            if (ctl.count(id)) delete ctl[id];
            ctl[id] = dyn ? makeDyn(d) : makeStatic((int)shape, d);
            if (!ctl[id]) { std::fprintf(stderr, "no static shape %ld\n", shape); std::exit(77); }
            hx::Ev e;
            e.str("op", "new").i("i", id).v("a", gRaw ? v : l.a).i("r", 1);
            hx::emit(e);
        }
        else if (l.op == "churn")
        {
            // controllers created, solved once and destroyed, over and over: what they allocated is given back
            long shape = l.next(), dyn = l.next();
            auto v = l.take(6);
            Dims d{(int)v[0], (int)v[1], (int)v[2], (int)v[3], (int)v[4], (int)v[5]};
            long before = 0;
            FILE *keep = hx::out();
            hx::out() = std::fopen("/dev/null", "w");
            for (int k = 0; k < 220; k++)
            {
                if (k == 20) before = (long)mallinfo2().uordblks;
                ICtl *c = dyn ? makeDyn(d) : makeStatic((int)shape, d);
                hx::Line o;
                o.op = "opt";
                for (int j = 0; j < d.nx + d.nu; j++) o.a.push_back(j);
                for (long j : {0L, k % 3 == 2 ? -3L : 1L, 3L, 5L, 0L}) o.a.push_back(j);
                c->exec(o, 0);
                delete c;
                sink.str("");
            }
            long grown = ((long)mallinfo2().uordblks - before) / 200;
            std::fclose(hx::out());
            hx::out() = keep;
            hx::Ev e;
            e.str("op", "churn").i("i", id).v("a", l.a).i("r", 1).i("grown", grown).i("bad", gBad).i("live", gLive).i("mem", gAlloc);
            hx::emit(e);
            gBad = 0;
        }
        else if (l.op == "free")
        {
            delete ctl[id];
            ctl.erase(id);
            ev("free", id);
        }
        else
        {
            if (!ctl.count(id)) { std::fprintf(stderr, "no controller %ld\n", id); std::exit(77); }
            ctl[id]->exec(l, id);
        }
    };
    auto drop = [&] { for (auto &kv : ctl) delete kv.second; ctl.clear(); sink.str(""); };
    if (thr || (argc > 3 && std::string(argv[3]) == "mem"))
    {
        std::vector<hx::Line> all;
        while (hx::readLine(in, l)) all.push_back(l);
        if (thr) { hx::threads(all, step); drop(); }
        else hx::rounds(all, step, drop, liveBlocks);
    }
    else
    {
        while (hx::readLine(in, l)) step(l);
        drop();
    }
    std::cout.rdbuf(nullptr);
    ev("end", 0);
    return 0;
}
