// Symbolic runtime: expression DAG over NaN-boxed doubles, path exploration with fork(), SMT queries with z3
// (every query in a forked helper process with a hard time limit) and cvc5 as second opinion.
// Arithmetic is encoded over the reals; see DESIGN.md "encoding".
#include <atomic>
#include <bitset>
#include <cfenv>
#include <cfloat>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <exception>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <execinfo.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>
#include <z3.h>
#include "vf.h"

typedef uint32_t H;  // node handle
static const int MAXV = 192;
typedef std::bitset<MAXV> VSet;

enum Op : uint8_t { VAR, CONST, LIN, MUL, DIV, SQRT, ABS, MINO, MAXO, SIN, COS, ATAN2, ASIN, ACOS, ATAN, EXP, LOG, POW, HYPOT_, UF1, FMODL /* a mod constant k, quotient not chosen yet */ };

struct Term { H n; double k; };
struct Node
{
    Op                op;
    H                 a = 0, b = 0;
    double            k = 0;             // CONST value / LIN constant
    std::vector<Term> t;                 // LIN terms sorted by handle
    double            lo, hi;            // interval
    VSet              vs;
    bool              nonlin = false;    // contains nonlinear atoms
    bool              abstr  = false;    // contains transcendental atoms (approximate axioms)
    bool              lazy   = false;    // contains FMODL
};

struct Var { std::string name; double lo, hi; };
enum Pred { P_LT, P_LE, P_EQ, P_NE, P_GT, P_GE };
struct Cons { H d; Pred p; std::vector<std::pair<H, Pred>> alt; /* disjunction when non-empty */ };

struct Shared
{
    std::atomic<int>      tokens;
    std::atomic<uint64_t> paths, completed, assumed, queries, nsat, nunsat, nunknown, solver_us, truncated, violations, concretized, undecided, proved,
        crashes, exceptions, maxvars, maxpc, branch_unknown, intdec, interval_dec, replay_path, cvc5_calls, spurious, big_enum, guessed, icp_calls, icp_unsat;
    double                deadline;
    uint64_t              maxpaths;
    std::atomic<uintptr_t> addrs[1 << 15];
};
static Shared* sh = nullptr;

static std::vector<Node>                  nodes;
static std::unordered_map<uint64_t, std::vector<H>> hc;
static std::vector<Var>                   vars;
static std::vector<double>                model;
static bool                               model_ok = true;
static std::vector<double>                vcache;
static std::vector<Cons>                  pc;
static bool                               concrete_mode = false;
static std::map<std::string, double>      replay_vals;
static std::vector<std::pair<std::string, int>> ints;  // integer decisions on this path
static std::vector<std::pair<std::string, double>> obs;      // observed values (concrete mode)
static std::vector<std::pair<std::string, H>>      obs_sym;  // observed symbolic values
static std::map<std::string, int>         labels;      // labels reached on this path
static std::vector<pid_t>                 children;
static bool                               have_token = false;
static int                                result_fd  = -1;
static int                                t_branch = 1500, t_assert = 20000;
static std::string                        case_name;
static bool                               in_rt = false;
static std::string                        notes;
static bool                               path_uncertain = false;  // some branch feasibility was unknown
static bool                               path_concretized = false;
static int                                thorough = 0;
static bool                               dump_queries = false;

static double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
}
static inline uint64_t bitsof(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double   ofbits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline bool     boxed(double d) { return (bitsof(d) >> 48) == 0x7FFB; }
static inline H        hof(double d) { return H(bitsof(d) & 0xffffffffu); }
static inline double   box(H h) { return nodes[h].op == CONST ? nodes[h].k : ofbits(0x7FFB000000000000ull | h); }
static inline bool     boxedf(float f) { uint32_t u; memcpy(&u, &f, 4); return (u & 0xFFE00000u) == 0x7FE00000u; }
static inline double   unboxf(float f) { uint32_t u; memcpy(&u, &f, 4); return ofbits(0x7FFB000000000000ull | (u & 0x1FFFFFu)); }

static void* last_ra = nullptr;
static void mark(void* ra)
{
    last_ra = ra;
    uintptr_t a = (uintptr_t)ra;
    uintptr_t i = (a * 0x9E3779B97F4A7C15ull) >> 49;
    for (int k = 0; k < 64; k++)
    {
        auto& s = sh->addrs[(i + k) & 0x7fff];
        uintptr_t v = s.load(std::memory_order_relaxed);
        if (v == a) return;
        if (v == 0) { uintptr_t z = 0; if (s.compare_exchange_strong(z, a) || z == a) return; }
    }
}
#define MARK() mark(__builtin_return_address(0))

// ---------------------------------------------------------------- expressions
static double dn(double x) { return std::nextafter(x, -INFINITY); }
static double up(double x) { return std::nextafter(x, INFINITY); }
static void   imul(double al, double ah, double bl, double bh, double& l, double& h)
{
    auto m = [](double x, double y) { return (x == 0 || y == 0) ? 0.0 : x * y; };
    double p[4] = {m(al, bl), m(al, bh), m(ah, bl), m(ah, bh)};
    l = dn(*std::min_element(p, p + 4));
    h = up(*std::max_element(p, p + 4));
}
static uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

static void crange(double lo, double hi, double& clo, double& chi)  // cos range over [lo,hi]
{
    if (!(hi - lo < 2 * M_PI)) { clo = -1; chi = 1; return; }
    double a = cos(lo), b = cos(hi);
    clo = std::min(a, b); chi = std::max(a, b);
    double k = std::ceil(lo / (2 * M_PI));
    if (k * 2 * M_PI <= hi) chi = 1;
    k = std::ceil((lo - M_PI) / (2 * M_PI));
    if (k * 2 * M_PI + M_PI <= hi) clo = -1;
    clo = std::max(-1.0, clo - 1e-15); chi = std::min(1.0, chi + 1e-15);
}

static void interval(Node& n)
{
    auto L = [&](H h) { return nodes[h].lo; };
    auto U = [&](H h) { return nodes[h].hi; };
    n.lo = -INFINITY; n.hi = INFINITY;
    switch (n.op)
    {
        case CONST: n.lo = n.hi = n.k; break;
        case LIN:
        {
            double l = n.k, h = n.k;
            for (auto& t : n.t)
            {
                double a, b;
                imul(t.k, t.k, L(t.n), U(t.n), a, b);
                l = dn(l + a); h = up(h + b);
            }
            n.lo = l; n.hi = h;
            break;
        }
        case MUL:
        {
            double l = 1, h = 1;
            for (auto& t : n.t)
            {
                double fl = L(t.n), fh = U(t.n);
                int    e = int(t.k);
                if (e < 0)
                {
                    if (fl > 0 || fh < 0) { double x = 1 / fh, y = 1 / fl; fl = dn(std::min(x, y)); fh = up(std::max(x, y)); }
                    else if (fl >= 0) { fl = fh > 0 ? dn(1 / fh) : 0; fh = INFINITY; }
                    else if (fh <= 0) { fh = fl < 0 ? up(1 / fl) : 0; fl = -INFINITY; }
                    else { fl = -INFINITY; fh = INFINITY; }
                    e = -e;
                }
                double pl = 1, ph = 1;
                if (e % 2 == 0)
                {
                    double x = std::fabs(fl), y = std::fabs(fh), mx = std::max(x, y), mn = (fl <= 0 && fh >= 0) ? 0 : std::min(x, y);
                    pl = std::max(0.0, dn(dn(std::pow(mn, e)))); ph = up(up(std::pow(mx, e)));
                    if (mn == 0) pl = 0;
                }
                else { pl = dn(dn(std::pow(fl, e))); ph = up(up(std::pow(fh, e))); if (e == 1) { pl = fl; ph = fh; } }
                double a, b;
                imul(l, h, pl, ph, a, b);
                if (l >= 0 && pl >= 0) a = std::max(a, 0.0);
                l = a; h = b;
            }
            n.lo = l; n.hi = h;
            break;
        }
        case DIV:
            if (L(n.b) > 0 || U(n.b) < 0)
            {
                double p[4] = {L(n.a) / L(n.b), L(n.a) / U(n.b), U(n.a) / L(n.b), U(n.a) / U(n.b)};
                bool bad = false;
                for (double x : p) if (std::isnan(x)) bad = true;
                if (!bad) { n.lo = dn(*std::min_element(p, p + 4)); n.hi = up(*std::max_element(p, p + 4)); }
            }
            break;
        case SQRT: n.lo = std::max(0.0, dn(std::sqrt(std::max(0.0, L(n.a))))); n.hi = up(std::sqrt(std::max(0.0, U(n.a)))); break;
        case ABS: n.lo = (L(n.a) <= 0 && U(n.a) >= 0) ? 0 : std::min(std::fabs(L(n.a)), std::fabs(U(n.a))); n.hi = std::max(std::fabs(L(n.a)), std::fabs(U(n.a))); break;
        case MINO: n.lo = std::min(L(n.a), L(n.b)); n.hi = std::min(U(n.a), U(n.b)); break;
        case MAXO: n.lo = std::max(L(n.a), L(n.b)); n.hi = std::max(U(n.a), U(n.b)); break;
        case COS: crange(L(n.a), U(n.a), n.lo, n.hi); break;
        case SIN: crange(L(n.a) - M_PI_2, U(n.a) - M_PI_2, n.lo, n.hi); break;
        case ATAN2:
            n.lo = -M_PI; n.hi = M_PI;
            if (L(n.a) >= 0) n.lo = 0;
            if (U(n.a) < 0) n.hi = 0;
            if (L(n.b) > 0) { n.lo = std::max(n.lo, -M_PI_2); n.hi = std::min(n.hi, M_PI_2); }
            break;
        case ASIN: n.lo = dn(asin(std::max(-1.0, L(n.a)))); n.hi = up(asin(std::min(1.0, U(n.a)))); break;
        case ACOS: n.lo = std::max(0.0, dn(acos(std::min(1.0, U(n.a))))); n.hi = up(acos(std::max(-1.0, L(n.a)))); break;
        case ATAN: n.lo = dn(atan(L(n.a))); n.hi = up(atan(U(n.a))); break;
        case EXP: n.lo = std::max(0.0, dn(exp(L(n.a)))); n.hi = up(exp(U(n.a))); break;
        case LOG: n.lo = dn(log(std::max(0.0, L(n.a)))); n.hi = up(log(std::max(0.0, U(n.a)))); break;
        case POW:
            if (L(n.a) > 0)
            {
                double p[4] = {pow(L(n.a), L(n.b)), pow(L(n.a), U(n.b)), pow(U(n.a), L(n.b)), pow(U(n.a), U(n.b))};
                bool bad = false;
                for (double x : p) if (std::isnan(x)) bad = true;
                if (!bad) { n.lo = dn(*std::min_element(p, p + 4)); n.hi = up(*std::max_element(p, p + 4)); }
            }
            break;
        case FMODL: { double b = std::fabs(n.k); n.lo = L(n.a) >= 0 ? 0 : -b; n.hi = U(n.a) <= 0 ? 0 : b; break; }
        default: break;
    }
}

static H intern(Node n)
{
    uint64_t h = hmix(uint64_t(n.op), bitsof(n.k));
    h = hmix(h, n.a); h = hmix(h, n.b);
    for (auto& t : n.t) { h = hmix(h, t.n); h = hmix(h, bitsof(t.k)); }
    auto& v = hc[h];
    for (H x : v)
    {
        Node& m = nodes[x];
        if (m.op == n.op && m.a == n.a && m.b == n.b && bitsof(m.k) == bitsof(n.k) && m.t.size() == n.t.size())
        {
            bool eq = true;
            for (size_t i = 0; i < n.t.size(); i++)
                if (m.t[i].n != n.t[i].n || bitsof(m.t[i].k) != bitsof(n.t[i].k)) { eq = false; break; }
            if (eq) return x;
        }
    }
    auto absorb = [&](H x) { n.vs |= nodes[x].vs; n.nonlin |= nodes[x].nonlin; n.abstr |= nodes[x].abstr; n.lazy |= nodes[x].lazy; };
    if (n.op == LIN || n.op == MUL) { for (auto& t : n.t) absorb(t.n); if (n.op == MUL) n.nonlin = true; }
    else if (n.op != VAR && n.op != CONST) { absorb(n.a); absorb(n.b); n.nonlin = true; }
    if (n.op == ABS || n.op == MINO || n.op == MAXO) n.nonlin = nodes[n.a].nonlin || nodes[n.b].nonlin;
    if (n.op == FMODL) n.lazy = true;
    if (n.op >= SIN) n.abstr = true;
    if (n.op != VAR) interval(n);
    H id = H(nodes.size());
    nodes.push_back(n);
    v.push_back(id);
    return id;
}
static H mk1(Op op, H a);
static H mkconst(double k) { if (k == 0) k = 0.0; Node n; n.op = CONST; n.k = k; return intern(n); }
static bool isc(H h) { return nodes[h].op == CONST; }
static double cv(H h) { return nodes[h].k; }

// 99.99999999999999 is 100 over the reals: undo rounding noise of constants next to a short decimal
static double tidy(double k)
{
    if (k == 0 || !std::isfinite(k)) return k;
    double a = std::fabs(k);
    if (a > 1e15 || a < 1e-9) return k;
    static const double p10[] = {1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11};
    int    e = int(std::floor(std::log10(a)));
    int    d = 10 - e;                       // 11 significant digits
    double r;
    if (d >= 0 && d <= 11) r = std::round(k * p10[d]) / p10[d];
    else if (d < 0) r = std::round(k);
    else return k;
    return std::fabs(r - k) <= 4e-15 * a ? r : k;
}
// sums that cancel up to rounding noise are exact zeros over the reals
static inline void acc(double& x, double v)
{
    double o = x;
    x += v;
    if (std::fabs(x) < 1e-13 * std::max(std::fabs(o), std::fabs(v))) x = 0;
}
static void linof(H h, double s, std::map<H, double>& m, double& k)
{
    Node& n = nodes[h];
    if (n.op == CONST) acc(k, s * n.k);
    else if (n.op == LIN) { acc(k, s * n.k); for (auto& t : n.t) acc(m[t.n], s * t.k); }
    else acc(m[h], s);
}
static bool cancel_inverse(std::map<H, double>& m, double& k);
static H mklin(std::map<H, double>& m, double k)
{
    for (int g = 0; g < 4 && cancel_inverse(m, k); g++) {}
    Node n; n.op = LIN; n.k = std::fabs(k) < 1e-15 ? 0.0 : tidy(k);
    for (auto& e : m) if (std::fabs(e.second) > 1e-15) n.t.push_back({e.first, tidy(e.second)});
    if (n.t.empty()) return mkconst(n.k);
    if (n.t.size() == 1 && n.t[0].k == 1.0 && n.k == 0) return n.t[0].n;
    return intern(n);
}
static void narrow(H h, double lo, double hi)
{
    Node& n = nodes[h];
    if (n.op == CONST) return;
    if (lo > n.lo) n.lo = lo;
    if (hi < n.hi) n.hi = hi;
    if (n.op == LIN && n.t.size() == 1 && n.t[0].k == -1 && n.k == 0) { Node& x = nodes[n.t[0].n]; x.lo = std::max(x.lo, -n.hi); x.hi = std::min(x.hi, -n.lo); }
}
static H mkadd(H a, H b, double sb = 1)
{
    std::map<H, double> m; double k = 0;
    linof(a, 1, m, k); linof(b, sb, m, k);
    double al = nodes[a].lo, ah = nodes[a].hi, bl = nodes[b].lo * sb, bh = nodes[b].hi * sb;
    if (bl > bh) std::swap(bl, bh);
    H r = mklin(m, k);
    if (a != b && std::fabs(sb) == 1)
    {
        double l = al + bl, h = ah + bh, e = 1e-13 * std::max(std::max(std::fabs(al), std::fabs(ah)), std::max(std::fabs(bl), std::fabs(bh)));
        if (std::isfinite(l) && std::isfinite(e)) narrow(r, (al >= 0 && bl >= 0) ? std::max(0.0, dn(l - e)) : dn(l - e), INFINITY);
        if (std::isfinite(h) && std::isfinite(e)) narrow(r, -INFINITY, (ah <= 0 && bh <= 0) ? std::min(0.0, up(h + e)) : up(h + e));
    }
    return r;
}
static H mkscale(H a, double s)
{
    if (s == 0) return mkconst(0);
    if (s == 1) return a;
    std::map<H, double> m; double k = 0;
    linof(a, s, m, k);
    double l = nodes[a].lo * s, h = nodes[a].hi * s;
    if (l > h) std::swap(l, h);
    H r = mklin(m, k);
    // scaling a noise term up would blow its interval's rounding error up with it
    if (!std::isnan(l) && !std::isnan(h) && std::fabs(s) < 1e6) narrow(r, l > 0 || l < 0 ? dn(l) : l, h > 0 || h < 0 ? up(h) : h);
    return r;
}
// split a into coefficient * core (pull constants out of single-term forms)
static void split(H a, double& c, H& core)
{
    c = 1; core = a;
    Node& n = nodes[a];
    if (n.op == LIN && n.t.size() == 1 && n.k == 0) { c = n.t[0].k; core = n.t[0].n; }
    else if (n.op == LIN)
    {   // normalise sign and scale by first coefficient when it is a power of two or -1
        double f = n.t[0].k;
        if (f < 0) { c = -1; core = mkscale(a, -1); }
    }
}
// a = c * core, core with leading coefficient 1
static void norm1(H a, double& c, H& core)
{
    c = 1; core = a;
    Node& n = nodes[a];
    if (n.op == LIN) { c = n.t[0].k; if (c != 1) core = mkscale(a, 1 / c); }
}
static bool same_poly(H a, H b, double scale)  // a ~ scale * b up to rounding noise
{
    std::map<H, double> m; double k = 0;
    linof(a, 1, m, k); linof(b, -scale, m, k);
    double mag = 0;
    Node& n = nodes[a];
    if (n.op == LIN) { mag = std::fabs(n.k); for (auto& t : n.t) mag = std::max(mag, std::fabs(t.k)); } else mag = 1;
    double tol = 1e-11 * mag;
    if (std::fabs(k) > tol) return false;
    for (auto& e : m) if (std::fabs(e.second) > tol) return false;
    return true;
}
static H mkmul(H a, H b);
static H mkabs(H a);
static H mkinv(H a);
static H mkpowi(H a, int e)
{
    if (e == 0) return mkconst(1);
    if (e < 0) return mkpowi(mkinv(a), -e);
    H r = a;
    for (int i = 1; i < e; i++) r = mkmul(r, a);
    return r;
}
typedef std::map<H, int> Fac;
static void facof(H m, int s, Fac& f)
{
    Node& n = nodes[m];
    if (n.op == CONST) return;  // only the constant 1
    if (n.op == MUL) for (auto& t : n.t) f[t.n] += s * int(t.k);
    else f[m] += s;
}
static H mono(Fac f)
{
    H extra = 0; bool has = false;
    for (auto& e : f)
    {
        if (e.second == 0) continue;
        Op op = nodes[e.first].op; H in = nodes[e.first].a;
        int q = e.second / 2;
        H x = 0; bool red = false;
        if (q != 0 && op == SQRT) { x = mkpowi(in, q); e.second -= 2 * q; red = true; }
        else if (q != 0 && op == ABS) { x = mkpowi(in, 2 * q); e.second -= 2 * q; red = true; }
        else if (q > 0 && op == COS) { H sn = mk1(SIN, in); x = mkpowi(mkadd(mkconst(1), mkmul(sn, sn), -1), q); e.second -= 2 * q; red = true; }
        if (red) { extra = has ? mkmul(extra, x) : x; has = true; }
    }
    Node n; n.op = MUL;
    for (auto& e : f) if (e.second) n.t.push_back({e.first, double(e.second)});
    H r;
    if (n.t.empty()) r = mkconst(1);
    else if (n.t.size() == 1 && n.t[0].k == 1) r = n.t[0].n;
    else r = intern(n);
    return has ? mkmul(r, extra) : r;
}
static H mulmono(H a, H b) { Fac f; facof(a, 1, f); facof(b, 1, f); return mono(f); }
static int degree(H m) { Node& n = nodes[m]; if (n.op != MUL) return 1; int d = 0; for (auto& t : n.t) d += std::abs(int(t.k)); return d; }
static bool has_inverse(H m) { Node& n = nodes[m]; if (n.op != MUL) return false; for (auto& t : n.t) if (t.k < 0) return true; return false; }
static H mkinv(H a)
{
    if (isc(a)) return mkconst(1 / cv(a));
    double c; H core;
    norm1(a, c, core);
    Fac f; facof(core, -1, f);
    return mkscale(mono(f), 1 / c);
}
// sum of c_i * q_i / v with sum of c_i * q_i proportional to v: replace by the constant factor
static bool cancel_inverse(std::map<H, double>& m, double& k)
{
    std::set<H> inv;
    for (auto& e : m)
        if (e.second != 0 && nodes[e.first].op == MUL) for (auto& t : nodes[e.first].t) if (t.k < 0 && nodes[t.n].op == LIN) inv.insert(t.n);
    for (H v : inv)
    {
        std::map<H, double> q; double qk = 0; std::vector<H> used;
        Node vn = nodes[v];
        bool simple = true;
        for (auto& e : m)
        {
            if (e.second == 0 || nodes[e.first].op != MUL) continue;
            bool in = false;
            for (auto& t : nodes[e.first].t) if (t.n == v && t.k == -1) in = true;
            if (!in) continue;
            Fac f; facof(e.first, 1, f); f[v] += 1;
            H r = mono(f);
            used.push_back(e.first);
            if (isc(r)) qk += e.second * cv(r);
            else if (nodes[r].op == LIN) simple = false;
            else q[r] += e.second;
        }
        if (!simple || q.size() != vn.t.size()) continue;
        auto it = q.find(vn.t[0].n);
        if (it == q.end()) continue;
        double c = it->second / vn.t[0].k, mag = std::fabs(qk);
        bool   ok = true;
        for (auto& t : vn.t) { auto j = q.find(t.n); if (j == q.end() || std::fabs(j->second - c * t.k) > 1e-11 * std::max(std::fabs(c), std::fabs(j->second))) { ok = false; break; } mag = std::max(mag, std::fabs(j->second)); }
        if (!ok || std::fabs(qk - c * vn.k) > 1e-11 * std::max(1.0, mag)) continue;
        for (H u : used) m.erase(u);
        acc(k, c);
        return true;
    }
    return false;
}
static H mkmul(H a, H b)
{
    if (isc(a)) return mkscale(b, cv(a));
    if (isc(b)) return mkscale(a, cv(b));
    // (u / v) * v
    for (int i = 0; i < 2; i++)
    {
        H u = i ? b : a, w = i ? a : b;
        if (nodes[w].op != LIN) continue;
        double c; H core; norm1(w, c, core);
        std::vector<Term> ts; double k0 = 0;
        if (nodes[u].op == LIN) { ts = nodes[u].t; k0 = nodes[u].k; } else ts = {{u, 1.0}};
        if (k0 != 0) continue;
        bool all = true;
        for (auto& t : ts) { bool in = false; if (nodes[t.n].op == MUL) for (auto& f : nodes[t.n].t) if (f.n == core && f.k < 0) in = true; if (!in) { all = false; break; } }
        if (!all) continue;
        std::map<H, double> m; double k = 0;
        for (auto& t : ts) { Fac f; facof(t.n, 1, f); f[core] += 1; H r = mono(f); linof(r, t.k * c, m, k); }
        return mklin(m, k);
    }
    std::vector<Term> ta, tb;
    auto terms = [&](H x, std::vector<Term>& t) { Node& n = nodes[x]; if (n.op == LIN) { t = n.t; if (n.k != 0) t.push_back({mkconst(1), n.k}); } else t = {{x, 1.0}}; };
    terms(a, ta); terms(b, tb);
    int da = 0, db = 0;
    for (auto& t : ta) da = std::max(da, degree(t.n));
    for (auto& t : tb) db = std::max(db, degree(t.n));
    H r;
    if (ta.size() * tb.size() > 48 || da + db > 10)
    {
        double ca, cb; H x, y;
        split(a, ca, x); split(b, cb, y);
        Fac f; facof(x, 1, f); facof(y, 1, f);
        r = mkscale(mono(f), ca * cb);
    }
    else
    {
        std::map<H, double> m; double k = 0;
        for (auto& x : ta) for (auto& y : tb) { H z = mulmono(x.n, y.n); linof(z, x.k * y.k, m, k); }
        r = mklin(m, k);
    }
    double l, h;
    if (a == b)
    {
        double x = std::fabs(nodes[a].lo), y = std::fabs(nodes[a].hi);
        h = up(std::max(x, y) * std::max(x, y));
        l = (nodes[a].lo <= 0 && nodes[a].hi >= 0) ? 0 : std::max(0.0, dn(std::min(x, y) * std::min(x, y)));
    }
    else imul(nodes[a].lo, nodes[a].hi, nodes[b].lo, nodes[b].hi, l, h);
    double e = 1e-13 * std::max(std::fabs(l), std::fabs(h));
    if (!std::isnan(l) && !std::isnan(h) && std::isfinite(e)) narrow(r, l >= 0 ? std::max(0.0, l - e) : l - e, h <= 0 ? std::min(0.0, h + e) : h + e);
    else if (!std::isnan(l) && !std::isnan(h)) narrow(r, l, h);
    return r;
}
static H mk1(Op op, H a) { Node n; n.op = op; n.a = a; n.b = a; return intern(n); }
static H mk2(Op op, H a, H b) { Node n; n.op = op; n.a = a; n.b = b; return intern(n); }

// evaluation under an assignment
struct Eval
{
    const std::vector<double>& m;
    std::vector<double>&       c;
    double operator()(H h)
    {
        if (c.size() < nodes.size()) c.resize(nodes.size(), NAN);
        double& slot = c[h];
        if (!std::isnan(slot)) return slot;
        double r = 0;
        // recursion depth is bounded by expression depth; copy what we need (nodes is not modified here)
        Node& n = nodes[h];
        switch (n.op)
        {
            case VAR: r = m[size_t(n.k)]; break;
            case CONST: r = n.k; break;
            case LIN: r = n.k; for (auto& t : n.t) r += t.k * (*this)(t.n); break;
            case MUL:
            {
                r = 1;
                for (auto& t : n.t) { double f = (*this)(t.n); int e = int(t.k); for (int i = 0; i < std::abs(e); i++) r = e > 0 ? r * f : r / f; }
                break;
            }
            case DIV: r = (*this)(n.a) / (*this)(n.b); break;
            case SQRT: r = std::sqrt(std::max(0.0, (*this)(n.a))); break;
            case ABS: r = std::fabs((*this)(n.a)); break;
            case MINO: r = std::min((*this)(n.a), (*this)(n.b)); break;
            case MAXO: r = std::max((*this)(n.a), (*this)(n.b)); break;
            case SIN: r = std::sin((*this)(n.a)); break;
            case COS: r = std::cos((*this)(n.a)); break;
            case ATAN2: r = std::atan2((*this)(n.a), (*this)(n.b)); break;
            case ASIN: r = std::asin(std::max(-1.0, std::min(1.0, (*this)(n.a)))); break;
            case ACOS: r = std::acos(std::max(-1.0, std::min(1.0, (*this)(n.a)))); break;
            case ATAN: r = std::atan((*this)(n.a)); break;
            case EXP: r = std::exp((*this)(n.a)); break;
            case LOG: r = std::log((*this)(n.a)); break;
            case POW: r = std::pow((*this)(n.a), (*this)(n.b)); break;
            case FMODL: { double k = n.k; r = std::fmod((*this)(n.a), k); break; }
            default: r = 0; break;
        }
        return c[h] = r;
    }
};
static double val(H h) { return Eval{model, vcache}(h); }

static bool sat1(double d, Pred p)
{
    switch (p) { case P_LT: return d < 0; case P_LE: return d <= 0; case P_EQ: return d == 0; case P_NE: return d != 0; case P_GT: return d > 0; default: return d >= 0; }
}
static bool cons_ok(const Cons& c, const std::vector<double>& m, std::vector<double>& cache, double tol)
{
    auto one = [&](H d, Pred p) {
        double v = Eval{m, cache}(d);
        if (std::isnan(v)) return false;
        double t = tol * std::max(1.0, std::fabs(v) * 0 + 1.0);
        switch (p) { case P_LT: case P_LE: return v <= t; case P_GT: case P_GE: return v >= -t; case P_EQ: return std::fabs(v) <= t; default: return true; }
    };
    if (!c.alt.empty()) { for (auto& a : c.alt) if (one(a.first, a.second)) return true; return false; }
    return one(c.d, c.p);
}

// ---------------------------------------------------------------- SMT emission
static bool emit_bad = false;  // a non-finite constant reached the encoding: the query has no answer
static std::string rat(double k)
{
    if (!std::isfinite(k)) { emit_bad = true; return "0.0"; }
    // shortest decimal that reads back as k, written as an exact rational
    char b[64];
    for (int p = 1; p <= 17; p++) { snprintf(b, sizeof b, "%.*e", p - 1, k); if (strtod(b, nullptr) == k) break; }
    std::string s(b), digits; bool neg = false; size_t i = 0;
    if (s[0] == '-') { neg = true; i = 1; }
    int frac = 0; bool dot = false; size_t e = s.find('e');
    for (; i < e; i++) { if (s[i] == '.') dot = true; else { digits += s[i]; if (dot) frac++; } }
    int ex = atoi(s.c_str() + e + 1) - frac;
    while (digits.size() > 1 && digits.back() == '0') { digits.pop_back(); ex++; }
    size_t z = 0; while (z + 1 < digits.size() && digits[z] == '0') z++;
    digits = digits.substr(z);
    std::string r;
    if (ex >= 0) r = digits + std::string(size_t(ex), '0') + ".0";
    else r = "(/ " + digits + ".0 1" + std::string(size_t(-ex), '0') + ".0)";
    return neg ? "(- " + r + ")" : r;
}

struct Emit
{
    std::string       out;
    std::vector<char> done;
    bool              nonlin = false, abstr = false;
    std::set<H>       vset, inv;
    std::string ref(H h)
    {
        Node& n = nodes[h];
        if (n.op == CONST) return rat(n.k);
        char b[32];
        snprintf(b, sizeof b, n.op == VAR ? "v%u" : "n%u", h);
        return b;
    }
    void line(const std::string& s) { out += s; out += "\n"; }
    void go(H h)
    {
        if (done.size() < nodes.size()) done.resize(nodes.size(), 0);
        if (done[h]) return;
        done[h] = 1;
        Node n = nodes[h];
        if (n.op == CONST) return;
        if (n.op == VAR)
        {
            const Var& v = vars[size_t(n.k)];
            line("(declare-fun " + ref(h) + " () Real)");
            line("(assert (<= " + rat(v.lo) + " " + ref(h) + "))");
            line("(assert (<= " + ref(h) + " " + rat(v.hi) + "))");
            vset.insert(h);
            return;
        }
        if (n.op == LIN || n.op == MUL) for (auto& t : n.t) go(t.n);
        else { go(n.a); go(n.b); }
        std::string r = ref(h), A, B;
        if (n.op != LIN && n.op != MUL) { A = ref(n.a); B = ref(n.b); }
        auto def  = [&](const std::string& e) { line("(define-fun " + r + " () Real " + e + ")"); };
        auto decl = [&]() { line("(declare-fun " + r + " () Real)"); };
        auto as   = [&](const std::string& e) { line("(assert " + e + ")"); };
        auto rng  = [&]() {
            if (std::isfinite(n.lo)) as("(<= " + rat(n.lo) + " " + r + ")");
            if (std::isfinite(n.hi)) as("(<= " + r + " " + rat(n.hi) + ")");
        };
        if (n.op != LIN && n.op != ABS && n.op != MINO && n.op != MAXO) nonlin = true;
        if (n.op >= SIN) abstr = true;
        switch (n.op)
        {
            case LIN:
            {
                std::string e = "(+";
                if (n.k != 0) e += " " + rat(n.k);
                for (auto& t : n.t) e += t.k == 1 ? " " + ref(t.n) : " (* " + rat(t.k) + " " + ref(t.n) + ")";
                e += ")";
                if (n.k == 0 && n.t.size() == 1) e = "(* " + rat(n.t[0].k) + " " + ref(n.t[0].n) + ")";
                def(e);
                break;
            }
            case MUL:
            {
                std::string e = "(*";
                for (auto& t : n.t)
                {
                    std::string f = ref(t.n);
                    if (t.k < 0)
                    {
                        std::string iv = "i" + std::to_string(t.n);
                        if (inv.insert(t.n).second)
                        {
                            line("(declare-fun " + iv + " () Real)");
                            line("(assert (= (* " + iv + " " + f + ") 1.0))");
                        }
                        f = iv;
                    }
                    for (int i = 0; i < std::abs(int(t.k)); i++) e += " " + f;
                }
                if (n.t.size() == 1 && std::fabs(n.t[0].k) == 1) def(e.substr(3)); else def(e + ")");
                break;
            }
            case DIV: decl(); as("(= (* " + r + " " + B + ") " + A + ")"); as("(not (= " + B + " 0.0))"); break;
            case SQRT: decl(); as("(>= " + r + " 0.0)"); as("(= (* " + r + " " + r + ") " + A + ")"); break;
            case ABS: def("(ite (>= " + A + " 0.0) " + A + " (- " + A + "))"); break;
            case MINO: def("(ite (<= " + A + " " + B + ") " + A + " " + B + ")"); break;
            case MAXO: def("(ite (>= " + A + " " + B + ") " + A + " " + B + ")"); break;
            case SIN:
            case COS:
            {
                H s = mk1(SIN, n.a), c = mk1(COS, n.a);
                if (done.size() < nodes.size()) done.resize(nodes.size(), 0);
                std::string S = ref(s), Cc = ref(c);
                done[s] = done[c] = 1;
                line("(declare-fun " + S + " () Real)");
                line("(declare-fun " + Cc + " () Real)");
                as("(= (+ (* " + S + " " + S + ") (* " + Cc + " " + Cc + ")) 1.0)");
                Node ns = nodes[s], ncn = nodes[c];
                as("(<= " + rat(ns.lo) + " " + S + ")"); as("(<= " + S + " " + rat(ns.hi) + ")");
                as("(<= " + rat(ncn.lo) + " " + Cc + ")"); as("(<= " + Cc + " " + rat(ncn.hi) + ")");
                double lo = nodes[n.a].lo, hi = nodes[n.a].hi;
                if (lo >= -2 * M_PI - 0.01 && hi <= 2 * M_PI + 0.01)
                {
                    auto a2 = [&](const std::string& cnd, const std::string& cl) { as("(=> " + cnd + " " + cl + ")"); };
                    const std::string PI = rat(M_PI), HP = rat(M_PI_2), TP = rat(2 * M_PI), HP3 = rat(3 * M_PI_2);
                    std::string m = "(- " + A + ")";
                    // quadrant axioms (sign of sin and cos)
                    a2("(and (>= " + A + " 0.0) (<= " + A + " " + PI + "))", "(>= " + S + " 0.0)");
                    a2("(and (>= " + A + " " + PI + ") (<= " + A + " " + TP + "))", "(<= " + S + " 0.0)");
                    a2("(and (>= " + m + " 0.0) (<= " + m + " " + PI + "))", "(<= " + S + " 0.0)");
                    a2("(and (>= " + m + " " + PI + ") (<= " + m + " " + TP + "))", "(>= " + S + " 0.0)");
                    a2("(and (<= " + A + " " + HP + ") (<= " + m + " " + HP + "))", "(>= " + Cc + " 0.0)");
                    a2("(and (>= " + A + " " + HP + ") (<= " + A + " " + HP3 + "))", "(<= " + Cc + " 0.0)");
                    a2("(and (>= " + m + " " + HP + ") (<= " + m + " " + HP3 + "))", "(<= " + Cc + " 0.0)");
                    a2("(>= " + A + " " + HP3 + ")", "(>= " + Cc + " 0.0)");
                    a2("(>= " + m + " " + HP3 + ")", "(>= " + Cc + " 0.0)");
                    // |sin x| <= |x|, chord bound
                    a2("(>= " + A + " 0.0)", "(<= " + S + " " + A + ")");
                    a2("(<= " + A + " 0.0)", "(>= " + S + " " + A + ")");
                    a2("(and (>= " + A + " 0.0) (<= " + A + " " + HP + "))", "(>= " + S + " (* " + rat(2 / M_PI) + " " + A + "))");
                    a2("(and (>= " + m + " 0.0) (<= " + m + " " + HP + "))", "(<= " + S + " (* " + rat(2 / M_PI) + " " + A + "))");
                    as("(>= " + Cc + " (- 1.0 (/ (* " + A + " " + A + ") 2.0)))");
                }
                break;
            }
            case ATAN2:
            {
                decl(); rng();
                auto a2 = [&](const std::string& cnd, const std::string& cl) { as("(=> " + cnd + " " + cl + ")"); };
                const std::string PI = rat(M_PI), HP = rat(M_PI_2);
                a2("(> " + A + " 0.0)", "(and (> " + r + " 0.0) (< " + r + " " + PI + "))");
                a2("(< " + A + " 0.0)", "(and (< " + r + " 0.0) (> " + r + " (- " + PI + ")))");
                a2("(and (= " + A + " 0.0) (> " + B + " 0.0))", "(= " + r + " 0.0)");
                a2("(and (= " + A + " 0.0) (< " + B + " 0.0))", "(= " + r + " " + PI + ")");
                a2("(and (= " + B + " 0.0) (> " + A + " 0.0))", "(= " + r + " " + HP + ")");
                a2("(and (= " + B + " 0.0) (< " + A + " 0.0))", "(= " + r + " (- " + HP + "))");
                a2("(> " + B + " 0.0)", "(and (< " + r + " " + HP + ") (> " + r + " (- " + HP + ")))");
                a2("(and (< " + B + " 0.0) (> " + A + " 0.0))", "(> " + r + " " + HP + ")");
                a2("(and (< " + B + " 0.0) (< " + A + " 0.0))", "(< " + r + " (- " + HP + "))");
                // diagonals
                a2("(and (> " + B + " 0.0) (> " + A + " " + B + "))", "(> " + r + " " + rat(M_PI_4) + ")");
                a2("(and (> " + B + " 0.0) (< " + A + " " + B + "))", "(< " + r + " " + rat(M_PI_4) + ")");
                a2("(and (> " + B + " 0.0) (> " + A + " (- " + B + ")))", "(> " + r + " (- " + rat(M_PI_4) + "))");
                break;
            }
            case ASIN: decl(); rng(); as("(= (> " + A + " 0.0) (> " + r + " 0.0))"); as("(= (< " + A + " 0.0) (< " + r + " 0.0))"); break;
            case ACOS: decl(); rng(); as("(= (> " + A + " 0.0) (< " + r + " " + rat(M_PI_2) + "))"); break;
            case ATAN: decl(); rng(); as("(= (> " + A + " 0.0) (> " + r + " 0.0))"); as("(= (< " + A + " 0.0) (< " + r + " 0.0))"); break;
            case EXP: decl(); rng(); as("(> " + r + " 0.0)"); as("(>= " + r + " (+ 1.0 " + A + "))"); break;
            case LOG: decl(); rng(); as("(<= " + r + " (- " + A + " 1.0))"); break;
            case POW: decl(); rng(); break;
            default: decl(); break;
        }
    }
    static std::string cmp(const std::string& d, Pred p)
    {
        switch (p)
        {
            case P_LT: return "(< " + d + " 0.0)";
            case P_LE: return "(<= " + d + " 0.0)";
            case P_EQ: return "(= " + d + " 0.0)";
            case P_NE: return "(not (= " + d + " 0.0))";
            case P_GT: return "(> " + d + " 0.0)";
            default: return "(>= " + d + " 0.0)";
        }
    }
    void cons(const Cons& c, double margin)
    {
        auto one = [&](H d, Pred p) {
            std::string e = ref(d);
            if (margin > 0)
            {
                if (p == P_LT || p == P_LE) return "(<= " + e + " (- " + rat(margin) + "))";
                if (p == P_GT || p == P_GE) return "(>= " + e + " " + rat(margin) + ")";
                if (p == P_NE) return "(or (<= " + e + " (- " + rat(margin) + ")) (>= " + e + " " + rat(margin) + "))";
            }
            return cmp(e, p);
        };
        if (c.alt.empty()) { go(c.d); line("(assert " + one(c.d, c.p) + ")"); }
        else
        {
            for (auto& a : c.alt) go(a.first);
            std::string s = "(or";
            for (auto& a : c.alt) s += " " + one(a.first, a.second);
            line("(assert " + s + "))");
        }
    }
};

static VSet consvars(const Cons& c)
{
    if (c.alt.empty()) return nodes[c.d].vs;
    VSet v;
    for (auto& a : c.alt) v |= nodes[a.first].vs;
    return v;
}

enum Res { SAT, UNSAT, UNKNOWN , DSAT };

static void z3err(Z3_context, Z3_error_code) { _exit(3); }

// strategy: 0 default smt for linear, 1 QF_NRA tactic, 2 simple solver, 3 nlsat other seed, 4 cvc5
static void solve_child(const std::string& text, const std::vector<H>& vlist, int strategy, int timeout_ms, int fd)
{
    struct rlimit rl = {4ull << 30, 4ull << 30};
    setrlimit(RLIMIT_AS, &rl);
    alarm(unsigned(timeout_ms / 1000 + 2));
    signal(SIGALRM, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL);
    if (strategy == 4)
    {
        char fn[64]; snprintf(fn, sizeof fn, "/tmp/vfq_%d.smt2", getpid());
        FILE* f = fopen(fn, "w");
        fputs("(set-logic QF_NRA)\n(set-option :produce-models true)\n", f); fputs(text.c_str(), f); fputs("(check-sat)\n", f); fclose(f);
        std::string cmd = "cvc5 --lang smt2 --nl-ext-tplanes --tlimit=" + std::to_string(timeout_ms) + " " + fn + " 2>/dev/null";
        FILE* p = popen(cmd.c_str(), "r");
        char b[256]; std::string o; while (p && fgets(b, sizeof b, p)) o += b;
        if (p) pclose(p);
        unlink(fn);
        int r = o.substr(0, 5) == "unsat" ? UNSAT : UNKNOWN;  // cvc5 answers are only used as unsat verdicts
        (void)!write(fd, &r, sizeof r);
        _exit(0);
    }
    Z3_config cfg = Z3_mk_config();
    Z3_context ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, z3err);
    Z3_solver s;
    if (strategy == 1 || strategy == 3) s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_NRA"));
    else if (strategy == 2) s = Z3_mk_simple_solver(ctx);
    else s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_LRA"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), unsigned(timeout_ms));
    if (strategy == 3) Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 7);
    Z3_solver_set_params(ctx, s, p);
    Z3_solver_from_string(ctx, s, text.c_str());
    Z3_lbool r = Z3_solver_check(ctx, s);
    int res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    std::string buf((const char*)&res, sizeof res);
    if (res == SAT)
    {
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        Z3_sort R = Z3_mk_real_sort(ctx);
        for (H h : vlist)
        {
            char b[32]; snprintf(b, sizeof b, "v%u", h);
            Z3_ast c = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), R), v;
            double d = 0;
            if (Z3_model_eval(ctx, m, c, true, &v))
            {
                // decimal string handles rationals and algebraic numbers
                const char* ds = Z3_get_numeral_decimal_string(ctx, v, 25);
                d = strtod(ds, nullptr);
            }
            buf.append((const char*)&d, sizeof d);
        }
    }
    size_t off = 0;
    while (off < buf.size()) { ssize_t w = write(fd, buf.data() + off, buf.size() - off); if (w <= 0) break; off += size_t(w); }
    _exit(0);
}

static bool past_deadline() { return now() > sh->deadline; }

static Res run_solver(const std::string& text, const std::vector<H>& vlist, std::vector<int> strategies, int timeout_ms, std::vector<double>& out)
{
    struct Ch { pid_t pid; int fd; std::string buf; bool eof; };
    std::vector<Ch> cs;
    sh->queries++;
    double t0 = now();
    for (int st : strategies)
    {
        int p[2];
        if (pipe(p)) continue;
        pid_t pid = fork();
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setpgid(0, 0);
            close(p[0]);
            solve_child(text, vlist, st, timeout_ms, p[1]);
            _exit(0);
        }
        close(p[1]);
        if (pid < 0) { close(p[0]); continue; }
        if (st == 4) sh->cvc5_calls++;
        cs.push_back({pid, p[0], "", false});
    }
    Res    res  = UNKNOWN;
    double tend = t0 + timeout_ms / 1000.0 + 0.7;
    bool   got  = false;
    while (!got)
    {
        std::vector<pollfd> pf;
        std::vector<size_t> ix;
        for (size_t i = 0; i < cs.size(); i++) if (!cs[i].eof) { pf.push_back({cs[i].fd, POLLIN, 0}); ix.push_back(i); }
        if (pf.empty()) break;
        double rem = tend - now();
        if (rem <= 0) break;
        int pr = poll(pf.data(), nfds_t(pf.size()), int(rem * 1000) + 1);
        if (pr < 0 && errno == EINTR) continue;
        if (pr <= 0) break;
        for (size_t k = 0; k < pf.size(); k++)
            if (pf[k].revents)
            {
                char b[4096]; ssize_t n = read(pf[k].fd, b, sizeof b);
                Ch& c = cs[ix[k]];
                if (n > 0) c.buf.append(b, size_t(n));
                else
                {
                    c.eof = true;
                    int r = UNKNOWN;
                    if (c.buf.size() >= sizeof(int)) memcpy(&r, c.buf.data(), sizeof r);
                    if (r == UNSAT) { res = UNSAT; got = true; break; }
                    if (r == SAT && c.buf.size() == sizeof(int) + vlist.size() * sizeof(double))
                    {
                        out.resize(vlist.size());
                        if (!vlist.empty()) memcpy(out.data(), c.buf.data() + sizeof(int), vlist.size() * sizeof(double));
                        res = SAT; got = true; break;
                    }
                }
            }
    }
    for (auto& c : cs) { kill(-c.pid, SIGKILL); kill(c.pid, SIGKILL); close(c.fd); waitpid(c.pid, nullptr, 0); }
    sh->solver_us += uint64_t((now() - t0) * 1e6);
    if (res == SAT) sh->nsat++; else if (res == UNSAT) sh->nunsat++; else sh->nunknown++;
    return res;
}


// ---------------------------------------------------------------- interval constraint solver (branch and prune)
// Decides conjunctions with few variables including the transcendental operations, with outward rounding.
// UNSAT means: no point satisfies every constraint by more than 1e-10 (rounding noise); SAT comes with a checked point.
static void ieval(const Node& n, const double* lo, const double* hi, const std::vector<int>& pos, double& l, double& h)
{
    auto L = [&](H x) { return isc(x) ? cv(x) : lo[pos[x]]; };
    auto U = [&](H x) { return isc(x) ? cv(x) : hi[pos[x]]; };
    l = -INFINITY; h = INFINITY;
    switch (n.op)
    {
        case LIN:
            l = h = n.k;
            for (auto& t : n.t)
            {
                double a, b, x = L(t.n), y = U(t.n);
                a = t.k > 0 ? t.k * x : t.k * y; b = t.k > 0 ? t.k * y : t.k * x;
                double sl = l + a, shh = h + b;
                l = sl - 3e-16 * (std::fabs(a) + std::fabs(sl)); h = shh + 3e-16 * (std::fabs(b) + std::fabs(shh));
            }
            if (std::isnan(l)) l = -INFINITY;
            if (std::isnan(h)) h = INFINITY;
            break;
        case MUL:
        {
            l = h = 1;
            for (auto& t : n.t)
            {
                double fl = L(t.n), fh = U(t.n);
                int    e = int(t.k);
                if (e < 0)
                {
                    if (fl > 0 || fh < 0) { double x = 1 / fh, y = 1 / fl; fl = dn(std::min(x, y)); fh = up(std::max(x, y)); }
                    else if (fl >= 0) { fl = fh > 0 ? dn(1 / fh) : 0; fh = INFINITY; }
                    else if (fh <= 0) { fh = fl < 0 ? up(1 / fl) : 0; fl = -INFINITY; }
                    else { fl = -INFINITY; fh = INFINITY; }
                    e = -e;
                }
                double pl = fl, ph = fh;
                if (e > 1)
                {
                    if (e % 2 == 0)
                    {
                        double x = std::fabs(fl), y = std::fabs(fh), mx = std::max(x, y), mn = (fl <= 0 && fh >= 0) ? 0 : std::min(x, y);
                        pl = 1; ph = 1; for (int i = 0; i < e; i++) { pl *= mn; ph *= mx; }
                        pl *= 1 - 4e-16 * e; ph *= 1 + 4e-16 * e;
                    }
                    else { pl = 1; ph = 1; for (int i = 0; i < e; i++) { pl *= fl; ph *= fh; } pl -= 4e-16 * e * std::fabs(pl); ph += 4e-16 * e * std::fabs(ph); }
                }
                double a, b; bool nn = l >= 0 && pl >= 0;
                imul(l, h, pl, ph, a, b);
                if (std::isnan(a) || std::isnan(b)) { a = -INFINITY; b = INFINITY; }
                if (nn) a = std::max(a, 0.0);
                l = a; h = b;
            }
            break;
        }
        case SQRT: l = std::sqrt(std::max(0.0, L(n.a))) * (1 - 3e-16); h = std::sqrt(std::max(0.0, U(n.a))) * (1 + 3e-16); break;
        case ABS: { double x = L(n.a), y = U(n.a); l = (x <= 0 && y >= 0) ? 0 : std::min(std::fabs(x), std::fabs(y)); h = std::max(std::fabs(x), std::fabs(y)); break; }
        case MINO: l = std::min(L(n.a), L(n.b)); h = std::min(U(n.a), U(n.b)); break;
        case MAXO: l = std::max(L(n.a), L(n.b)); h = std::max(U(n.a), U(n.b)); break;
        case COS: crange(L(n.a), U(n.a), l, h); break;
        case SIN: crange(L(n.a) - M_PI_2, U(n.a) - M_PI_2, l, h); l = std::max(-1.0, l - 1e-15); h = std::min(1.0, h + 1e-15); break;
        case ATAN2:
        {
            double yl = L(n.a), yh = U(n.a), xl = L(n.b), xh = U(n.b);
            l = -M_PI; h = M_PI;
            if (!(std::isfinite(yl) && std::isfinite(yh) && std::isfinite(xl) && std::isfinite(xh))) break;
            bool org = xl <= 0 && xh >= 0 && yl <= 0 && yh >= 0, cut = xl < 0 && yl < 0 && yh >= 0;
            if (org || cut) { if (yl >= 0) l = 0; if (!org && yh < 0) h = 0; break; }
            double c[4] = {std::atan2(yl, xl), std::atan2(yl, xh), std::atan2(yh, xl), std::atan2(yh, xh)};
            l = *std::min_element(c, c + 4) - 1e-15; h = *std::max_element(c, c + 4) + 1e-15;
            break;
        }
        case ASIN: l = std::asin(std::max(-1.0, std::min(1.0, L(n.a)))) - 1e-15; h = std::asin(std::min(1.0, std::max(-1.0, U(n.a)))) + 1e-15; break;
        case ACOS: l = std::acos(std::min(1.0, std::max(-1.0, U(n.a)))) - 1e-15; h = std::acos(std::max(-1.0, std::min(1.0, L(n.a)))) + 1e-15; break;
        case ATAN: l = std::atan(L(n.a)) - 1e-15; h = std::atan(U(n.a)) + 1e-15; break;
        case EXP: l = std::exp(L(n.a)) * (1 - 1e-15); h = std::exp(U(n.a)) * (1 + 1e-15); break;
        case LOG: l = std::log(std::max(0.0, L(n.a))); h = std::log(std::max(0.0, U(n.a))); l -= 1e-15 * (1 + std::fabs(l)); h += 1e-15 * (1 + std::fabs(h)); break;
        case POW:
            if (L(n.a) > 0)
            {
                double q[4] = {pow(L(n.a), L(n.b)), pow(L(n.a), U(n.b)), pow(U(n.a), L(n.b)), pow(U(n.a), U(n.b))};
                bool bad = false;
                for (double x : q) if (std::isnan(x)) bad = true;
                if (!bad) { l = *std::min_element(q, q + 4) * (1 - 1e-15); h = *std::max_element(q, q + 4) * (1 + 1e-15); }
            }
            break;
        default: break;
    }
    if (std::isnan(l)) l = -INFINITY;
    if (std::isnan(h)) h = INFINITY;
}

struct Icp
{
    std::vector<H>          order;      // needed nodes, children first (handles are topologically ordered)
    std::vector<int>        pos;        // handle -> index in order
    std::vector<int>        vix;        // indices of variables
    const std::vector<Cons*> cs;
    static constexpr double D = 1e-10;
    Icp(const std::vector<Cons*>& c) : cs(c)
    {
        std::set<H> need;
        std::vector<H> st;
        for (auto* k : c) { if (k->alt.empty()) st.push_back(k->d); else for (auto& a : k->alt) st.push_back(a.first); }
        while (!st.empty())
        {
            H h = st.back(); st.pop_back();
            if (isc(h) || !need.insert(h).second) continue;
            Node& n = nodes[h];
            if (n.op == LIN || n.op == MUL) for (auto& t : n.t) st.push_back(t.n);
            else if (n.op != VAR) { st.push_back(n.a); st.push_back(n.b); }
        }
        order.assign(need.begin(), need.end());
        pos.assign(nodes.size(), -1);
        for (size_t i = 0; i < order.size(); i++) { pos[order[i]] = int(i); if (nodes[order[i]].op == VAR) vix.push_back(int(i)); }
    }
    // false when the box is infeasible
    bool contract(std::vector<double>& lo, std::vector<double>& hi)
    {
        size_t N = order.size();
        for (int it = 0; it < 3; it++)
        {
            double before = 0;
            for (int v : vix) before += hi[v] - lo[v];
            for (size_t i = 0; i < N; i++)
            {
                Node& n = nodes[order[i]];
                if (n.op == VAR) { if (lo[i] > hi[i]) return false; continue; }
                double l, h;
                ieval(n, lo.data(), hi.data(), pos, l, h);
                // keep global bounds and (on later iterations) contracted bounds
                if (it == 0) { lo[i] = std::max(l, n.lo); hi[i] = std::min(h, n.hi); }
                else { lo[i] = std::max(l, lo[i]); hi[i] = std::min(h, hi[i]); }
                if (lo[i] > hi[i]) { if (lo[i] - hi[i] > D * std::max(1.0, std::fabs(lo[i]))) return false; double m = 0.5 * (lo[i] + hi[i]); lo[i] = m - D; hi[i] = m + D; }
            }
            for (auto* c : cs)
            {
                auto poss = [&](H d, Pred p) {
                    double l = isc(d) ? cv(d) : lo[pos[d]], h = isc(d) ? cv(d) : hi[pos[d]];
                    switch (p) { case P_LT: case P_LE: return p == P_LT ? l < -D : l <= D; case P_GT: case P_GE: return p == P_GT ? h > D : h >= -D; case P_EQ: return l <= D && h >= -D; default: return !(l == 0 && h == 0); }
                };
                if (!c->alt.empty()) { bool any = false; for (auto& a : c->alt) if (poss(a.first, a.second)) any = true; if (!any) return false; continue; }
                if (!poss(c->d, c->p)) return false;
                if (isc(c->d)) continue;
                int i = pos[c->d];
                if (c->p == P_LT || c->p == P_LE || c->p == P_EQ) hi[i] = std::min(hi[i], c->p == P_LT ? 0 : D);
                if (c->p == P_GT || c->p == P_GE || c->p == P_EQ) lo[i] = std::max(lo[i], c->p == P_GT ? 0 : -D);
            }
            // backward
            for (size_t ii = N; ii-- > 0;)
            {
                Node& n = nodes[order[ii]];
                double L = lo[ii], U = hi[ii];
                auto  nar = [&](H x, double l, double h) {
                    if (isc(x)) return true;
                    int i = pos[x];
                    if (!std::isnan(l) && l > lo[i]) lo[i] = l;
                    if (!std::isnan(h) && h < hi[i]) hi[i] = h;
                    return !(lo[i] > hi[i] + D * std::max(1.0, std::fabs(hi[i])));
                };
                if (n.op == LIN)
                {
                    if (!std::isfinite(L) && !std::isfinite(U)) continue;
                    double sl = n.k, su = n.k; int nil = 0, niu = 0; double mag = std::fabs(n.k);
                    for (auto& t : n.t)
                    {
                        double x = lo[pos[t.n]], y = hi[pos[t.n]], a = t.k > 0 ? t.k * x : t.k * y, b = t.k > 0 ? t.k * y : t.k * x;
                        if (std::isfinite(a)) { sl += a; mag += std::fabs(a); } else nil++;
                        if (std::isfinite(b)) { su += b; mag += std::fabs(b); } else niu++;
                    }
                    double e = 1e-14 * (mag + (std::isfinite(L) ? std::fabs(L) : 0) + (std::isfinite(U) ? std::fabs(U) : 0));
                    for (auto& t : n.t)
                    {
                        double x = lo[pos[t.n]], y = hi[pos[t.n]], a = t.k > 0 ? t.k * x : t.k * y, b = t.k > 0 ? t.k * y : t.k * x;
                        double ol = -INFINITY, ou = INFINITY;  // sum of the others
                        if (nil == 0) ol = sl - a; else if (nil == 1 && !std::isfinite(a)) ol = sl;
                        if (niu == 0) ou = su - b; else if (niu == 1 && !std::isfinite(b)) ou = su;
                        double tl = L - ou - e, tu = U - ol + e;
                        double nl = t.k > 0 ? tl / t.k : tu / t.k, nh = t.k > 0 ? tu / t.k : tl / t.k;
                        if (!nar(t.n, nl, nh)) return false;
                    }
                }
                else if (n.op == MUL)
                {
                    if (n.t.size() == 1 && n.t[0].k == 2)
                    {
                        double r = std::sqrt(std::max(0.0, U)) * (1 + 1e-15);
                        if (U < -D) return false;
                        if (!nar(n.t[0].n, -r, r)) return false;
                        if (L > 0) { double q = std::sqrt(L) * (1 - 1e-15); int i = pos[n.t[0].n]; if (lo[i] > -q) { if (!nar(n.t[0].n, q, INFINITY)) return false; } else if (hi[i] < q) { if (!nar(n.t[0].n, -INFINITY, -q)) return false; } }
                    }
                    else if (n.t.size() == 2 && n.t[0].k == 1 && n.t[1].k == 1)
                    {
                        for (int w = 0; w < 2; w++)
                        {
                            H x = n.t[w].n, y = n.t[1 - w].n;
                            double yl = lo[pos[y]], yh = hi[pos[y]];
                            if (!(yl > 1e-12 || yh < -1e-12)) continue;
                            double q[4] = {L / yl, L / yh, U / yl, U / yh};
                            bool bad = false; for (double z : q) if (std::isnan(z)) bad = true;
                            if (bad) continue;
                            double ql = *std::min_element(q, q + 4), qh = *std::max_element(q, q + 4);
                            if (!nar(x, ql - 1e-15 * std::fabs(ql), qh + 1e-15 * std::fabs(qh))) return false;
                        }
                    }
                }
                else if (n.op == SQRT) { if (U < -D) return false; double l = std::max(0.0, L), h = std::max(0.0, U); if (!nar(n.a, l * l * (1 - 1e-15), h * h * (1 + 1e-15) + 1e-300)) return false; }
                else if (n.op == ABS)
                {
                    if (U < -D) return false;
                    if (!nar(n.a, -std::max(0.0, U), std::max(0.0, U))) return false;
                    if (L > 0) { int i = pos[n.a]; if (lo[i] > -L) { if (!nar(n.a, L, INFINITY)) return false; } else if (hi[i] < L) { if (!nar(n.a, -INFINITY, -L)) return false; } }
                }
                else if (n.op == MINO) { if (!nar(n.a, L, INFINITY) || !nar(n.b, L, INFINITY)) return false; }
                else if (n.op == MAXO) { if (!nar(n.a, -INFINITY, U) || !nar(n.b, -INFINITY, U)) return false; }
                else if (n.op == ASIN) { if (!nar(n.a, std::sin(std::max(-M_PI_2, L)) - 1e-15, std::sin(std::min(M_PI_2, U)) + 1e-15)) return false; }
                else if (n.op == ATAN) { if (L > -1.57 && !nar(n.a, std::tan(L) * (1 - (L > 0 ? 1 : -1) * 1e-14) - 1e-15, INFINITY)) return false; if (U < 1.57 && !nar(n.a, -INFINITY, std::tan(U) * (1 + (U > 0 ? 1 : -1) * 1e-14) + 1e-15)) return false; }
                else if (n.op == SIN || n.op == COS)
                {
                    double al = isc(n.a) ? 0 : lo[pos[n.a]], ah = isc(n.a) ? 0 : hi[pos[n.a]];
                    double sh_ = n.op == COS ? M_PI_2 : 0;   // cos x = sin(x + pi/2)
                    double xl = al + sh_, xh = ah + sh_;
                    double kk = std::floor((xl + M_PI_2) / M_PI);
                    if (!isc(n.a) && std::floor((xh + M_PI_2) / M_PI) == kk && L >= -1 && U <= 1 && L <= U)
                    {   // monotone branch: x = k*pi +- asin(v)
                        bool   even = std::fmod(std::fabs(kk), 2) == 0;
                        double a = std::asin(L), b = std::asin(U);
                        double nl = even ? kk * M_PI + a : kk * M_PI - b, nh = even ? kk * M_PI + b : kk * M_PI - a;
                        if (!nar(n.a, nl - sh_ - 1e-13, nh - sh_ + 1e-13)) return false;
                    }
                }
            }
            double after = 0;
            for (int v : vix) { if (lo[v] > hi[v]) { if (lo[v] - hi[v] > 1e-9) return false; std::swap(lo[v], hi[v]); } after += hi[v] - lo[v]; }
            if (after > 0.8 * before) break;
        }
        return true;
    }
    Res solve(std::vector<double>& out, size_t maxboxes, double tlimit)
    {
        struct Box { std::vector<double> l, h; };
        size_t n = vix.size();
        Box    b0; std::vector<double> w0;
        for (int v : vix) { Node& x = nodes[order[v]]; b0.l.push_back(x.lo); b0.h.push_back(x.hi); w0.push_back(std::max(1e-12, x.hi - x.lo)); }
        std::vector<Box> st{b0};
        std::vector<double> lo(order.size()), hi(order.size()), m, cache;
        size_t boxes = 0; bool unresolved = false;
        double tend = now() + tlimit;
        while (!st.empty())
        {
            Box b = st.back(); st.pop_back();
            if (++boxes > maxboxes || ((boxes & 63) == 0 && now() > tend)) return UNKNOWN;
            for (size_t i = 0; i < n; i++) { lo[vix[i]] = b.l[i]; hi[vix[i]] = b.h[i]; }
            if (!contract(lo, hi)) continue;
            for (size_t i = 0; i < n; i++) { b.l[i] = lo[vix[i]]; b.h[i] = hi[vix[i]]; }
            if ((boxes & 7) == 1)
            {
                m = model; cache.clear();
                for (size_t i = 0; i < n; i++) m[size_t(nodes[order[vix[i]]].k)] = 0.5 * (b.l[i] + b.h[i]);
                bool ok = true;
                for (auto* c : cs) if (!strict_ok(*c, m, cache)) { ok = false; break; }
                if (ok) { out.resize(n); for (size_t i = 0; i < n; i++) out[i] = m[size_t(nodes[order[vix[i]]].k)]; return SAT; }
            }
            size_t k = 0; double best = -1;
            for (size_t i = 0; i < n; i++) { double r = (b.h[i] - b.l[i]) / w0[i]; if (r > best) { best = r; k = i; } }
            if (best < (n == 1 ? 1e-11 : n == 2 ? 1e-6 : 2e-5))
            {
                // a box this small that cannot be refuted: feasible up to 1e-9 (the path is explored, its findings are replayed)
                m = model; cache.clear();
                for (size_t i = 0; i < n; i++) m[size_t(nodes[order[vix[i]]].k)] = 0.5 * (b.l[i] + b.h[i]);
                bool ok = true;
                for (auto* c : cs) if (!cons_ok(*c, m, cache, 1e-9)) { ok = false; break; }
                if (ok) { out.resize(n); for (size_t i = 0; i < n; i++) out[i] = m[size_t(nodes[order[vix[i]]].k)]; return n == 1 ? SAT : DSAT; }
                unresolved = true;
                if (boxes > 400) return UNKNOWN;
                continue;
            }
            double mid = 0.5 * (b.l[k] + b.h[k]);
            Box c = b; b.h[k] = mid; c.l[k] = mid;
            st.push_back(std::move(b)); st.push_back(std::move(c));
        }
        return unresolved ? UNKNOWN : UNSAT;
    }
    static bool strict_ok(const Cons& c, const std::vector<double>& m, std::vector<double>& cache)
    {
        auto one = [&](H d, Pred p) {
            double v = Eval{m, cache}(d);
            if (std::isnan(v)) return false;
            switch (p) { case P_LT: return v < -1e-9; case P_LE: return v <= 0; case P_GT: return v > 1e-9; case P_GE: return v >= 0; case P_EQ: return v == 0; default: return std::fabs(v) > 1e-9; }
        };
        if (!c.alt.empty()) { for (auto& a : c.alt) if (one(a.first, a.second)) return true; return false; }
        return one(c.d, c.p);
    }
};

static uint64_t rng_state = 0x9E3779B97F4A7C15ull;
static double   rnd() { rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17; return double(rng_state >> 11) / 9007199254740992.0; }

// look for a satisfying point by evaluation: around the current model, then anywhere in the box
static bool guess(const std::vector<Cons*>& cs, const std::vector<H>& vl, std::vector<double>& out)
{
    std::vector<double> m, cache;
    int n = int(vl.size());
    for (int t = 0; t < 60 + 10 * n; t++)
    {
        m = model; cache.clear();
        for (int i = 0; i < n; i++)
        {
            Node& x = nodes[vl[size_t(i)]];
            double& v = m[size_t(x.k)];
            bool   change = t < 2 * n ? (t / 2 == i) : (t % 3 == 0 || rnd() < 0.4);
            if (!change) continue;
            double l = x.lo, h = x.hi, w = h - l;
            double r = rnd();
            if (r < 0.05) v = l + 1e-6 * w; else if (r < 0.1) v = h - 1e-6 * w;
            else if (r < 0.45) v = l + w * rnd();
            else { double sc = std::pow(10.0, -4 * rnd()); v += (rnd() - 0.5) * w * sc; v = std::min(h, std::max(l, v)); }
        }
        bool ok = true;
        for (size_t i = cs.size(); i-- > 0;) if (!Icp::strict_ok(*cs[i], m, cache)) { ok = false; break; }
        if (ok) { out = m; return true; }
    }
    return false;
}

// solve path condition (sliced by the variables of extra) + extra; new_model gets a full assignment
static Res query(const std::vector<Cons>& extra, std::vector<double>& new_model, int timeout_ms, bool portfolio, bool full = false, double margin = 0)
{
    VSet need;
    for (auto& c : extra) need |= consvars(c);
    std::vector<char> use(pc.size(), full ? 1 : 0);
    if (!full)
    {
        bool ch = true;
        while (ch)
        {
            ch = false;
            for (size_t i = 0; i < pc.size(); i++)
                if (!use[i]) { VSet v = consvars(pc[i]); if ((v & need).any()) { use[i] = 1; need |= v; ch = true; } }
        }
    }
    std::vector<Cons>  cl;
    bool               anynl = false;
    for (size_t i = 0; i < pc.size(); i++) if (use[i]) cl.push_back(pc[i]);
    for (auto& c : extra) cl.push_back(c);
    std::vector<Cons*> cp;
    for (auto& c : cl) { cp.push_back(&c); if (c.alt.empty() ? nodes[c.d].nonlin : true) { if (c.alt.empty()) anynl = true; else for (auto& a : c.alt) if (nodes[a.first].nonlin) anynl = true; } }
    std::vector<H> vh;
    {
        VSet vs;
        for (auto& c : cl) vs |= consvars(c);
        for (H h = 0; h < nodes.size() && vh.size() < vs.count(); h++) if (nodes[h].op == VAR && vs.test(size_t(nodes[h].k))) vh.push_back(h);
    }
    auto setvals = [&](const std::vector<H>& hs, const std::vector<double>& vals) { new_model = model; for (size_t i = 0; i < hs.size(); i++) new_model[size_t(nodes[hs[i]].k)] = vals[i]; };
    std::vector<double> vals, dmodel;  // dmodel: feasible up to 1e-9, used when the exact solvers give up
    timeout_ms = int(std::min(double(timeout_ms), std::max(200.0, (sh->deadline - now()) * 1000)));
    if (margin == 0 && !full)
    {
        if (guess(cp, vh, new_model)) { sh->guessed++; return SAT; }
        if (anynl)
        {
            double t0 = now();
            Icp icp(cp);
            std::vector<double> o;
            double lim = std::min(timeout_ms / 1000.0, portfolio ? 3.0 : 0.25);
            Res r = icp.solve(o, portfolio ? 60000 : 4000, lim);
            sh->icp_calls++;
            sh->solver_us += uint64_t((now() - t0) * 1e6);
            if (r == UNSAT) { sh->queries++; sh->nunsat++; sh->icp_unsat++; return UNSAT; }
            if (r == DSAT) { dmodel = model; for (size_t i = 0; i < icp.vix.size(); i++) dmodel[size_t(nodes[icp.order[icp.vix[i]]].k)] = o[i]; }
            if (r == SAT) { sh->queries++; sh->nsat++; new_model = model; for (size_t i = 0; i < icp.vix.size(); i++) new_model[size_t(nodes[icp.order[icp.vix[i]]].k)] = o[i]; return SAT; }
        }
    }
    auto emitq = [&](Emit& e, bool onlylin) {
        for (auto& c : cl)
        {
            if (onlylin)
            {
                bool nl = c.alt.empty() ? nodes[c.d].nonlin : false;
                if (!c.alt.empty()) for (auto& a : c.alt) nl |= nodes[a.first].nonlin;
                if (nl) continue;
            }
            e.cons(c, margin);
        }
    };
    Emit e;
    emit_bad = false;
    emitq(e, false);
    if (emit_bad) return UNKNOWN;
    std::vector<H> vl(e.vset.begin(), e.vset.end());
    if (dump_queries) { static int qn = 0; char fn[128]; snprintf(fn, sizeof fn, "/tmp/vfdump_%d_%d.smt2", getpid(), qn++); FILE* f = fopen(fn, "w"); fprintf(f, "%s(check-sat)\n", e.out.c_str()); fclose(f); }
    Res r;
    if (!e.nonlin) r = run_solver(e.out, vl, {0}, timeout_ms, vals);
    else
    {
        r = run_solver(e.out, vl, {1}, std::min(timeout_ms, t_branch), vals);
        if (r == UNKNOWN && portfolio) r = run_solver(e.out, vl, {1, 2, 3, 4}, timeout_ms, vals);
        if (r == UNKNOWN && portfolio && margin == 0)
        {
            Icp icp(cp);
            std::vector<double> o;
            double t0 = now();
            r = icp.solve(o, 3000000, std::min(timeout_ms / 1000.0, 20.0));
            sh->solver_us += uint64_t((now() - t0) * 1e6);
            if (r == UNSAT) { sh->nunsat++; sh->icp_unsat++; }
            if (r == SAT || r == DSAT) { new_model = model; for (size_t i = 0; i < icp.vix.size(); i++) new_model[size_t(nodes[icp.order[icp.vix[i]]].k)] = o[i]; return SAT; }
        }
    }
    if (r == UNKNOWN && !dmodel.empty()) { new_model = dmodel; return SAT; }
    if (r == SAT) setvals(vl, vals);
    return r;
}

static bool model_valid(const std::vector<double>& m, const std::vector<Cons>& extra, double tol = 1e-7)
{
    std::vector<double> cache;
    for (auto& c : pc) if (!cons_ok(c, m, cache, tol)) return false;
    for (auto& c : extra) if (!cons_ok(c, m, cache, tol)) return false;
    return true;
}

static void set_model(const std::vector<double>& m, bool ok) { model = m; model_ok = ok; vcache.clear(); }

// ---------------------------------------------------------------- reporting
static std::string jesc(const std::string& s)
{
    std::string o;
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
    return o;
}
static std::string jmodel(const std::vector<double>& m)
{
    std::string s = "{";
    char b[96];
    for (size_t i = 0; i < vars.size(); i++)
    {
        double v = std::min(vars[i].hi, std::max(vars[i].lo, m[i]));
        snprintf(b, sizeof b, "%s\"%s\": \"%a\"", i ? ", " : "", jesc(vars[i].name).c_str(), v);
        s += b;
    }
    s += "}";
    return s;
}
static std::string jints()
{
    std::string s = "{";
    for (size_t i = 0; i < ints.size(); i++) s += (i ? ", \"" : "\"") + jesc(ints[i].first) + "\": " + std::to_string(ints[i].second);
    return s + "}";
}
static std::string jlabels()
{
    std::string s = "[";
    bool first = true;
    for (auto& l : labels) { s += (first ? "\"" : ", \"") + jesc(l.first) + "\""; first = false; }
    return s + "]";
}
static void emit(const std::string& s)
{
    std::string t = s + "\n";
    if (result_fd >= 0) { flock(result_fd, LOCK_EX); (void)!write(result_fd, t.data(), t.size()); flock(result_fd, LOCK_UN); }
}

static void finish()
{
    if (have_token) { sh->tokens++; have_token = false; }
    for (pid_t p : children) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
    children.clear();
}
[[noreturn]] static void end_path(const char* status, const std::string& extra = "")
{
    in_rt = true;
    if (concrete_mode)
    {
        std::string o = "{";
        for (size_t i = 0; i < obs.size(); i++) { char b[128]; snprintf(b, sizeof b, "%s\"%s\": \"%a\"", i ? ", " : "", jesc(obs[i].first).c_str(), obs[i].second); o += b; }
        emit(std::string("{\"kind\": \"concrete\", \"status\": \"") + status + "\", \"labels\": " + jlabels() + ", \"obs\": " + o + "}" + extra + "}");
        _exit(0);
    }
    std::string o;
    bool boundary = false;
    if (!strcmp(status, "complete"))
    {
        // a witness on the boundary of a comparison may take the other side in floating point: look for an interior one
        auto onb = [&]() {
            if (!model_ok) return true;
            std::vector<double> cache;
            for (auto& c : pc)
            {
                if (!c.alt.empty()) { for (auto& a : c.alt) if (std::fabs(Eval{model, cache}(a.first)) < 1e-9) return true; }
                else if (c.p != P_EQ && std::fabs(Eval{model, cache}(c.d)) < 1e-9) return true;
            }
            return false;
        };
        boundary = onb();
        if (boundary && sh->completed < 400 && !past_deadline())
        {
            std::vector<double> m;
            if (query({}, m, t_branch, false, true, 1e-5) == SAT && model_valid(m, {})) { set_model(m, true); boundary = onb(); }
        }
        for (auto& c : pc) if (c.alt.empty() && c.p == P_EQ) boundary = true;
    }
    if (!strcmp(status, "complete") && model_ok)
    {
        for (size_t i = 0; i < obs_sym.size(); i++) { char b[128]; snprintf(b, sizeof b, "%s\"%s\": \"%a\"", i ? ", " : "", jesc(obs_sym[i].first).c_str(), val(obs_sym[i].second)); o += b; }
    }
    emit("{\"kind\": \"path\", \"status\": \"" + std::string(status) + "\", \"model_ok\": " + (model_ok ? "true" : "false") + ", \"uncertain\": " + (path_uncertain || boundary ? "true" : "false") +
         ", \"model\": " + jmodel(model) + ", \"ints\": " + jints() + ", \"labels\": " + jlabels() + ", \"pc\": " + std::to_string(pc.size()) + ", \"obs\": {" + o + "}" + extra + "}");
    if (pc.size() > sh->maxpc) sh->maxpc = pc.size();
    if (vars.size() > sh->maxvars) sh->maxvars = vars.size();
    finish();
    _exit(0);
}

static FILE* fork_log = nullptr;
// returns true in the child
static bool spawn()
{
    if (fork_log) { fprintf(fork_log, "%p\n", last_ra); fflush(fork_log); }
    if (past_deadline() || sh->paths >= sh->maxpaths) { sh->truncated++; return false; }
    sh->paths++;
    bool tok = false;
    int  t   = sh->tokens.load();
    while (t > 0) { if (sh->tokens.compare_exchange_weak(t, t - 1)) { tok = true; break; } }
    pid_t pid = fork();
    if (pid == 0)
    {
        children.clear();
        have_token = tok;
        return true;
    }
    if (pid < 0) { sh->truncated++; if (tok) sh->tokens++; return false; }
    if (tok) children.push_back(pid);
    else { int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} }
    return false;
}

static Pred negate(Pred p) { switch (p) { case P_LT: return P_GE; case P_LE: return P_GT; case P_EQ: return P_NE; case P_NE: return P_EQ; case P_GT: return P_LE; default: return P_LT; } }

static void tighten(H d, Pred p)
{
    // narrow the interval of d, and of the variable when d is linear in a single atom
    Node& n = nodes[d];
    auto  nar = [&](Node& x, double lo, double hi) { if (lo > x.lo) x.lo = lo; if (hi < x.hi) x.hi = hi; };
    if (p == P_LT || p == P_LE) nar(n, -INFINITY, 0);
    if (p == P_GT || p == P_GE) nar(n, 0, INFINITY);
    if (p == P_EQ) nar(n, 0, 0);
    if (n.op == LIN && n.t.size() == 1)
    {
        double b = -n.k / n.t[0].k;  // k*x + c op 0
        bool   pos = n.t[0].k > 0;
        Node&  x = nodes[n.t[0].n];
        double e = std::fabs(b) * 1e-15;
        if (p == P_EQ) nar(x, b - e, b + e);
        else if (p == P_LT || p == P_LE) { if (pos) nar(x, -INFINITY, b + e); else nar(x, b - e, INFINITY); }
        else if (p == P_GT || p == P_GE) { if (pos) nar(x, b - e, INFINITY); else nar(x, -INFINITY, b + e); }
    }
}
static void add_pc(H d, Pred p) { Cons c; c.d = d; c.p = p; pc.push_back(c); tighten(d, p); }

// canonical comparison: scale so that the first coefficient is +-1 -> +1
static void canon(H& d, Pred& p)
{
    Node& n = nodes[d];
    if (n.op == LIN && n.t[0].k != 1)
    {
        double f = n.t[0].k;
        d = mkscale(d, 1.0 / f);
        if (f < 0) { switch (p) { case P_LT: p = P_GT; break; case P_LE: p = P_GE; break; case P_GT: p = P_LT; break; case P_GE: p = P_LE; break; default: break; } }
    }
}

static int implied(H d, Pred p)  // 1 true, 0 false, -1 unknown, from intervals and literal path condition
{
    Node& n = nodes[d];
    if (n.op == CONST) return sat1(n.k, p) ? 1 : 0;
    // intervals recomputed for LIN because atoms may have been narrowed since
    if (n.op != VAR) { double lo = n.lo, hi = n.hi; interval(n); n.lo = std::max(n.lo, lo); n.hi = std::min(n.hi, hi); }
    {
        // interval bounds carry rounding noise of their own
        double lo = std::fabs(n.lo) < 1e-12 ? 0 : n.lo, hi = std::fabs(n.hi) < 1e-12 ? 0 : n.hi;
        switch (p)
        {
            case P_LT: if (hi < 0) return 1; if (lo >= 0) return 0; break;
            case P_LE: if (hi <= 0) return 1; if (lo > 0) return 0; break;
            case P_GT: if (lo > 0) return 1; if (hi <= 0) return 0; break;
            case P_GE: if (lo >= 0) return 1; if (hi < 0) return 0; break;
            case P_EQ: if (lo > 0 || hi < 0) return 0; if (lo == 0 && hi == 0) return 1; break;
            case P_NE: if (lo > 0 || hi < 0) return 1; if (lo == 0 && hi == 0) return 0; break;
        }
    }
    for (auto& c : pc)
        if (c.alt.empty() && c.d == d)
        {
            Pred q = c.p;
            if (q == p) return 1;
            if (q == negate(p)) return 0;
            if (q == P_LT) { if (p == P_LE || p == P_NE) return 1; if (p == P_EQ || p == P_GT || p == P_GE) return 0; }
            if (q == P_GT) { if (p == P_GE || p == P_NE) return 1; if (p == P_EQ || p == P_LT || p == P_LE) return 0; }
            if (q == P_EQ) { if (p == P_LE || p == P_GE) return 1; if (p == P_LT || p == P_GT || p == P_NE) return 0; }
        }
    return -1;
}

[[noreturn]] static void dead(const char* why) { end_path(why); }

static H resolve(H h);
// decide d p 0; forks when both outcomes are possible
static bool decide(H d, Pred p)
{
    canon(d, p);
    int im = implied(d, p);
    if (im >= 0) { sh->interval_dec++; return im == 1; }
    if (nodes[d].lazy) return decide(resolve(d), p);
    if (past_deadline()) { sh->truncated++; dead("truncated"); }
    bool   known = false, side = false;
    if (model_ok)
    {
        double v = val(d);
        double scale = 1e-9;
        if (!std::isnan(v) && std::fabs(v) > scale) { known = true; side = sat1(v, p); }
    }
    auto mk = [&](bool s) { Cons c; c.d = d; c.p = s ? p : negate(p); return c; };
    std::vector<double> m1, m2;
    if (known)
    {
        Res r = query({mk(!side)}, m1, t_branch, false);
        if (r == UNSAT) { return side; }
        if (r == UNKNOWN) sh->branch_unknown++;
        if (spawn())
        {
            pc.push_back(mk(!side)); tighten(d, side ? negate(p) : p);
            if (r == SAT) { bool ok = model_valid(m1, {}); set_model(m1, ok); if (!ok) path_uncertain = true; }
            else { model_ok = false; path_uncertain = true; }
            return !side;
        }
        pc.push_back(mk(side)); tighten(d, side ? p : negate(p));
        return side;
    }
    Res rt = query({mk(true)}, m1, t_branch, false);
    Res rf = rt == UNSAT ? SAT : query({mk(false)}, m2, t_branch, false);
    if (rt == UNSAT) return false;
    if (rf == UNSAT) { if (rt == SAT && !model_ok) { if (model_valid(m1, {})) { set_model(m1, true); } } return true; }
    if (rt == UNKNOWN || rf == UNKNOWN) sh->branch_unknown++;
    if (spawn())
    {
        pc.push_back(mk(true)); tighten(d, p);
        if (rt == SAT) { bool ok = model_valid(m1, {}); set_model(m1, ok); if (!ok) path_uncertain = true; }
        else { model_ok = false; path_uncertain = true; }
        return true;
    }
    pc.push_back(mk(false)); tighten(d, negate(p));
    if (rf == SAT) { bool ok = model_valid(m2, {}); set_model(m2, ok); if (!ok) path_uncertain = true; }
    else { model_ok = false; path_uncertain = true; }
    return false;
}

static H hnode(double d) { return boxed(d) ? hof(d) : mkconst(d); }

// enumerate the integer part of x: fn 0 floor, 1 trunc.  Forks over all feasible values.
static double enum_int(H x, int mode)
{
    x = resolve(x);
    double klo = -INFINITY, khi = INFINITY;
    for (int guard = 0;; guard++)
    {
        if (isc(x)) return mode ? std::trunc(cv(x)) : std::floor(cv(x));
        Node&  n  = nodes[x];
        double lo = mode ? std::trunc(n.lo) : std::floor(n.lo), hi = mode ? std::trunc(n.hi) : std::floor(n.hi);
        klo = std::max(klo, lo); khi = std::min(khi, hi);
        if (klo >= khi) return klo;
        if (past_deadline()) { sh->truncated++; dead("truncated"); }
        if (guard > 400) { sh->big_enum++; sh->truncated++; dead("truncated"); }
        double v = model_ok ? val(x) : 0.5 * (std::max(-1e6, n.lo) + std::min(1e6, n.hi));
        double k = mode ? std::trunc(v) : std::floor(v);
        k = std::max(klo, std::min(khi, k));
        // region of value k: [l, u) for floor; for trunc of 0: (-1, 1), negative k: (k-1, k]
        double l, u; Pred pl = P_GE, pu = P_LT;
        if (!mode || k > 0) { l = k; u = k + 1; }
        else if (k < 0) { l = k - 1; u = k; pl = P_GT; pu = P_LE; }
        else { l = -1; u = 1; pl = P_GT; }
        if (k > klo && decide(mkadd(x, mkconst(l), -1), negate(pl))) { khi = k - 1; continue; }
        if (k < khi && decide(mkadd(x, mkconst(u), -1), negate(pu))) { klo = k + 1; continue; }
        return k;
    }
}

static double snap(double x)
{
    static const double s[] = {0, 1, -1, 0.5, -0.5};
    for (double v : s) if (std::fabs(x - v) < 1e-12) return v;
    return x;
}

static H mkdiv(H a, H b);
static H mksqrt(H a);

// sin/cos of an angle atom
static void sc_atom(H a, H& s, H& c)
{
    Node n = nodes[a];
    if (n.op == ATAN2)
    {
        H r = mksqrt(mkadd(mkmul(n.a, n.a), mkmul(n.b, n.b)));
        s = mkdiv(n.a, r); c = mkdiv(n.b, r);
    }
    else if (n.op == ASIN) { s = n.a; c = mksqrt(mkadd(mkconst(1), mkmul(n.a, n.a), -1)); }
    else if (n.op == ACOS) { c = n.a; s = mksqrt(mkadd(mkconst(1), mkmul(n.a, n.a), -1)); }
    else if (n.op == ATAN) { H r = mksqrt(mkadd(mkconst(1), mkmul(n.a, n.a))); c = mkdiv(mkconst(1), r); s = mkdiv(n.a, r); }
    else { s = mk1(SIN, a); c = mk1(COS, a); }
}
static void sincosn(H x, H& s, H& c)
{
    if (isc(x)) { s = mkconst(snap(std::sin(cv(x)))); c = mkconst(snap(std::cos(cv(x)))); return; }
    std::map<H, double> m; double k = 0;
    linof(x, 1, m, k);
    int total = 0; bool ok = true;
    for (auto& e : m)
    {
        double r = std::round(e.second);
        if (std::fabs(r - e.second) < 1e-12 && std::fabs(r) >= 1 && std::fabs(r) <= 4) total += int(std::fabs(r));
        else total += 1;
    }
    if (total > 5) ok = false;
    s = mkconst(snap(std::sin(k))); c = mkconst(snap(std::cos(k)));
    if (!ok)
    {
        std::map<H, double> mm = m; H core = mklin(mm, 0); H s1 = mk1(SIN, core), c1 = mk1(COS, core);
        H s2 = mkadd(mkmul(s, c1), mkmul(c, s1)), c2 = mkadd(mkmul(c, c1), mkmul(s, s1), -1);
        s = s2; c = c2; return;
    }
    for (auto& e : m)
    {
        double r = std::round(e.second);
        H      s1, c1; int rep = 1; bool neg = false;
        if (std::fabs(r - e.second) < 1e-12 && std::fabs(r) >= 1 && std::fabs(r) <= 4) { sc_atom(e.first, s1, c1); rep = int(std::fabs(r)); neg = r < 0; }
        else
        {
            neg = e.second < 0;
            H core = mkscale(e.first, std::fabs(e.second)); s1 = mk1(SIN, core); c1 = mk1(COS, core);
        }
        if (neg) s1 = mkscale(s1, -1);
        for (int i = 0; i < rep; i++)
        {
            H s2 = mkadd(mkmul(s, c1), mkmul(c, s1)), c2 = mkadd(mkmul(c, c1), mkmul(s, s1), -1);
            s = s2; c = c2;
        }
    }
}

static H mkabs(H a)
{
    if (isc(a)) return mkconst(std::fabs(cv(a)));
    if (nodes[a].lo >= 0) return a;
    if (nodes[a].hi <= 0) return mkscale(a, -1);
    double c; H core; split(a, c, core);
    if (nodes[core].op == ABS) return mkscale(core, std::fabs(c));
    H r = mk1(ABS, core);
    return std::fabs(c) == 1 ? r : mkscale(r, std::fabs(c));
}
// the square root of a monomial when all exponents are even
static bool root_mono(H m, H& r)
{
    if (isc(m)) { r = m; return true; }
    Fac f; facof(m, 1, f);
    for (auto& e : f) { if (e.second % 2) return false; e.second /= 2; }
    r = mono(f);
    return true;
}
static bool perfect_square(H a, H& out)
{
    Node n = nodes[a];
    std::vector<std::pair<H, double>> roots;
    if (n.op != LIN) { if (root_mono(a, out)) { out = mkabs(out); return true; } return false; }
    if (n.t.size() > 21) return false;
    std::vector<Term> ts = n.t;
    if (n.k != 0) ts.push_back({mkconst(1), n.k});
    for (auto& t : ts) { H r; if (t.k > 0 && root_mono(t.n, r)) roots.push_back({r, std::sqrt(t.k)}); }
    if (roots.empty() || roots.size() > 6) return false;
    if (roots.size() * (roots.size() + 1) / 2 < ts.size()) return false;
    // sign of each root relative to the first from the cross terms
    std::map<H, double> m; double k = 0;
    H L = mkscale(roots[0].first, roots[0].second);
    for (size_t i = 1; i < roots.size(); i++)
    {
        H cr = mulmono(roots[0].first, roots[i].first);
        double c = 0;
        for (auto& t : ts) if (t.n == cr) c = t.k;
        L = mkadd(L, mkscale(roots[i].first, roots[i].second), c < 0 ? -1 : 1);
    }
    if (!same_poly(mkmul(L, L), a, 1)) return false;
    out = mkabs(L);
    return true;
}
static H mksqrt(H a)  // a >= 0 established
{
    if (isc(a)) return mkconst(std::sqrt(std::max(0.0, cv(a))));
    H r;
    if (perfect_square(a, r)) return r;
    double c; H core; split(a, c, core);
    if (c > 0 && c != 1) { if (perfect_square(core, r)) return mkscale(r, std::sqrt(c)); return mkscale(mk1(SQRT, core), std::sqrt(c)); }
    return mk1(SQRT, a);
}
static H mkdiv(H a, H b)  // b != 0 established
{
    if (isc(b)) return mkscale(a, 1.0 / cv(b));
    if (a == b) return mkconst(1);
    if (isc(a) && cv(a) == 0) return a;
    double ca, cb; H x, y;
    norm1(a, ca, x); norm1(b, cb, y);
    if (x == y || (!isc(a) && same_poly(x, y, 1))) return mkconst(ca / cb);
    double p[4] = {nodes[a].lo / nodes[b].lo, nodes[a].lo / nodes[b].hi, nodes[a].hi / nodes[b].lo, nodes[a].hi / nodes[b].hi};
    bool   bad = !(nodes[b].lo > 0 || nodes[b].hi < 0);
    for (double q : p) if (std::isnan(q)) bad = true;
    bool   pos = nodes[b].lo >= 0, neg = nodes[b].hi <= 0;
    double al = nodes[a].lo, ah = nodes[a].hi;
    H r = mkmul(a, mkinv(b));
    if (!bad) narrow(r, dn(*std::min_element(p, p + 4)), up(*std::max_element(p, p + 4)));
    else if ((pos && al >= 0) || (neg && ah <= 0)) narrow(r, 0, INFINITY);
    else if ((pos && ah <= 0) || (neg && al >= 0)) narrow(r, -INFINITY, 0);
    return r;
}

// choose the quotients of the pending modulo operations an expression contains (forks), then rebuild it
static std::unordered_map<H, H> resolved;
static H resolve(H h)
{
    if (!nodes[h].lazy) return h;
    auto it = resolved.find(h);
    if (it != resolved.end()) return it->second;
    Node n = nodes[h];
    H    r = h;
    switch (n.op)
    {
        case LIN: r = mkconst(n.k); for (auto& t : n.t) r = mkadd(r, mkscale(resolve(t.n), t.k)); break;
        case MUL:
            r = mkconst(1);
            for (auto& t : n.t)
            {
                H f = resolve(t.n);
                for (int i = 0; i < std::abs(int(t.k)); i++) r = t.k > 0 ? mkmul(r, f) : mkdiv(r, f);
            }
            break;
        case DIV: { H a = resolve(n.a), b = resolve(n.b); r = mkdiv(a, b); break; }
        case SQRT: r = mksqrt(resolve(n.a)); break;
        case ABS: r = mkabs(resolve(n.a)); break;
        case SIN: { H s, c; sincosn(resolve(n.a), s, c); r = s; break; }
        case COS: { H s, c; sincosn(resolve(n.a), s, c); r = c; break; }
        case MINO: case MAXO: case ATAN2: case POW: { H a = resolve(n.a), b = resolve(n.b); r = mk2(n.op, a, b); break; }
        case FMODL:
        {
            H      a = resolve(n.a);
            double k = enum_int(mkscale(a, 1.0 / n.k), 1);
            r = mkadd(a, mkconst(k * n.k), -1);
            break;
        }
        default: r = mk1(n.op, resolve(n.a)); break;
    }
    resolved[h] = r;
    return r;
}

// ---------------------------------------------------------------- instrumented operations
#define SLOW2(a, b) (__builtin_expect(boxed(a) || boxed(b), 0))
extern "C"
{
    double __sy_fadd(double a, double b)
    {
        if (!SLOW2(a, b)) return a + b;
        MARK();
        if (!boxed(a) && !std::isfinite(a)) return a;
        if (!boxed(b) && !std::isfinite(b)) return b;
        return box(mkadd(hnode(a), hnode(b)));
    }
    double __sy_fsub(double a, double b)
    {
        if (!SLOW2(a, b)) return a - b;
        MARK();
        if (!boxed(a) && !std::isfinite(a)) return a;
        if (!boxed(b) && !std::isfinite(b)) return -b;
        return box(mkadd(hnode(a), hnode(b), -1));
    }
    double __sy_fmul(double a, double b)
    {
        if (!SLOW2(a, b)) return a * b;
        MARK();
        for (int i = 0; i < 2; i++)
        {
            double x = i ? b : a, y = i ? a : b;
            if (!boxed(x) && std::isnan(x)) return x;
            if (!boxed(x) && std::isinf(x))
            {
                H h = hof(y);
                if (decide(h, P_EQ)) return NAN;
                return decide(h, P_GT) ? x : -x;
            }
        }
        return box(mkmul(hnode(a), hnode(b)));
    }
    double __sy_fdiv(double a, double b)
    {
        if (!SLOW2(a, b)) return a / b;
        MARK();
        if (!boxed(a) && std::isnan(a)) return a;
        if (!boxed(b) && std::isnan(b)) return b;
        if (!boxed(b) && std::isinf(b)) return 0;
        if (!boxed(a) && std::isinf(a)) { if (decide(hof(b), P_GT)) return a; return -a; }
        if (boxed(b) && decide(hof(b), P_EQ)) b = 0.0;
        if (!boxed(b) && b == 0)
        {
            if (!boxed(a)) return a / b;
            H h = hof(a);
            if (decide(h, P_EQ)) return NAN;
            double inf = std::signbit(b) ? -INFINITY : INFINITY;
            return decide(h, P_GT) ? inf : -inf;
        }
        return box(mkdiv(hnode(a), hnode(b)));
    }
    double __sy_fneg(double a)
    {
        if (!boxed(a)) return -a;
        MARK();
        return box(mkscale(hof(a), -1));
    }
    int __sy_fcmp(int pred, double a, double b)
    {
        // llvm FCmp predicates: bit0 EQ, bit1 GT, bit2 LT, bit3 UNO
        if (!SLOW2(a, b))
        {
            bool uno = std::isnan(a) || std::isnan(b);
            if (uno) return (pred & 8) != 0;
            return ((pred & 1) && a == b) || ((pred & 2) && a > b) || ((pred & 4) && a < b);
        }
        MARK();
        if (!boxed(a) && std::isnan(a)) return (pred & 8) != 0;
        if (!boxed(b) && std::isnan(b)) return (pred & 8) != 0;
        int q = pred & 7;
        if (q == 0) return 0;
        if (q == 7) return 1;
        if (!boxed(a) && std::isinf(a)) return a > 0 ? (q & 2) != 0 : (q & 4) != 0;
        if (!boxed(b) && std::isinf(b)) return b > 0 ? (q & 4) != 0 : (q & 2) != 0;
        H d = mkadd(hnode(a), hnode(b), -1);
        static const Pred map[8] = {P_EQ, P_EQ, P_GT, P_GE, P_LT, P_LE, P_NE, P_EQ};
        Pred p = map[q];
        // values on the two sides of a comparison that are equal up to rounding noise are treated as equal
        return decide(d, p);
    }
    double __sy_fabs(double a)
    {
        if (!boxed(a)) return std::fabs(a);
        MARK();
        return box(mkabs(hof(a)));
    }
    double __sy_sqrt(double a)
    {
        if (!boxed(a)) return std::sqrt(a);
        MARK();
        H h = hof(a);
        if (implied(h, P_LT) != 0 && decide(mkadd(h, mkconst(1e-9)), P_LT)) return NAN;  // rounding noise below zero is not a domain error
        return box(mksqrt(h));
    }
    double __sy_hypot(double a, double b)
    {
        if (!SLOW2(a, b)) return ::hypot(a, b);
        MARK();
        H x = hnode(a), y = hnode(b);
        return box(mksqrt(mkadd(mkmul(x, x), mkmul(y, y))));
    }
    double __sy_floor(double a) { if (!boxed(a)) return std::floor(a); MARK(); return enum_int(hof(a), 0); }
    double __sy_ceil(double a) { if (!boxed(a)) return std::ceil(a); MARK(); return -enum_int(mkscale(hof(a), -1), 0); }
    double __sy_trunc(double a) { if (!boxed(a)) return std::trunc(a); MARK(); return enum_int(hof(a), 1); }
    double __sy_round(double a)
    {
        if (!boxed(a)) return std::round(a);
        MARK();
        H h = hof(a);
        if (decide(h, P_GE)) return enum_int(mkadd(h, mkconst(0.5)), 0);
        return -enum_int(mkadd(mkscale(h, -1), mkconst(0.5)), 0);
    }
    double __sy_rint(double a) { if (!boxed(a)) return std::rint(a); return __sy_round(a); }
    double __sy_nearbyint(double a) { if (!boxed(a)) return std::nearbyint(a); return __sy_round(a); }
    long   __sy_lround(double a) { if (!boxed(a)) return std::lround(a); return (long)__sy_round(a); }
    long long __sy_llround(double a) { if (!boxed(a)) return std::llround(a); return (long long)__sy_round(a); }
    long   __sy_lrint(double a) { if (!boxed(a)) return std::lrint(a); return (long)__sy_round(a); }
    double __sy_fmod(double a, double b)
    {
        if (!SLOW2(a, b)) return std::fmod(a, b);
        MARK();
        if (!boxed(b) && b == 0) return NAN;
        if (boxed(b)) { if (decide(hof(b), P_EQ)) return NAN; }
        H q = mkdiv(hnode(a), hnode(b));
        if (!boxed(b) && b > 0 && std::trunc(nodes[q].lo) != std::trunc(nodes[q].hi))
        {
            Node n; n.op = FMODL; n.a = n.b = hof(a); n.k = b;
            return box(intern(n));
        }
        double k = enum_int(q, 1);
        return box(mkadd(hnode(a), mkscale(hnode(b), k), -1));
    }
    double __sy_remainder(double a, double b)
    {
        if (!SLOW2(a, b)) return std::remainder(a, b);
        double k = __sy_round(__sy_fdiv(a, b));
        return __sy_fsub(a, __sy_fmul(b, k));
    }
    double __sy_modf(double a, double* ip)
    {
        if (!boxed(a)) return std::modf(a, ip);
        *ip = enum_int(hof(a), 1);
        return box(mkadd(hof(a), mkconst(*ip), -1));
    }
    double __sy_fmin(double a, double b)
    {
        if (!SLOW2(a, b)) return std::fmin(a, b);
        MARK();
        if (!boxed(a) && std::isnan(a)) return b;
        if (!boxed(b) && std::isnan(b)) return a;
        if (!boxed(a) && std::isinf(a)) return a > 0 ? b : a;
        if (!boxed(b) && std::isinf(b)) return b > 0 ? a : b;
        H x = hnode(a), y = hnode(b);
        if (x == y) return a;
        if (nodes[x].hi <= nodes[y].lo) return a;
        if (nodes[y].hi <= nodes[x].lo) return b;
        return box(mk2(MINO, x, y));
    }
    double __sy_fmax(double a, double b)
    {
        if (!SLOW2(a, b)) return std::fmax(a, b);
        MARK();
        if (!boxed(a) && std::isnan(a)) return b;
        if (!boxed(b) && std::isnan(b)) return a;
        if (!boxed(a) && std::isinf(a)) return a > 0 ? a : b;
        if (!boxed(b) && std::isinf(b)) return b > 0 ? b : a;
        H x = hnode(a), y = hnode(b);
        if (x == y) return a;
        if (nodes[x].hi <= nodes[y].lo) return b;
        if (nodes[y].hi <= nodes[x].lo) return a;
        return box(mk2(MAXO, x, y));
    }
    double __sy_copysign(double a, double b)
    {
        if (!SLOW2(a, b)) return std::copysign(a, b);
        MARK();
        bool neg = boxed(b) ? decide(hof(b), P_LT) : std::signbit(b);
        double x = __sy_fabs(a);
        return neg ? __sy_fneg(x) : x;
    }
    double __sy_sin(double a) { if (!boxed(a)) return std::sin(a); MARK(); H s, c; sincosn(hof(a), s, c); return box(s); }
    double __sy_cos(double a) { if (!boxed(a)) return std::cos(a); MARK(); H s, c; sincosn(hof(a), s, c); return box(c); }
    double __sy_tan(double a)
    {
        if (!boxed(a)) return std::tan(a);
        MARK();
        H s, c; sincosn(hof(a), s, c);
        return __sy_fdiv(box(s), box(c));
    }
    double __sy_atan2(double a, double b)
    {
        if (!SLOW2(a, b)) return std::atan2(a, b);
        MARK();
        H y = hnode(a), x = hnode(b);
        bool y0 = isc(y) ? cv(y) == 0 : false, x0 = isc(x) ? cv(x) == 0 : false;
        if (x0) { if (decide(y, P_EQ)) return 0; return decide(y, P_GT) ? M_PI_2 : -M_PI_2; }
        if (y0) { if (decide(x, P_GE)) return 0; return M_PI; }
        // sin/cos of the same atom: the angle itself, reduced
        if (nodes[y].op == SIN && nodes[x].op == COS && nodes[y].a == nodes[x].a)
        {
            H t = nodes[y].a;
            double k = enum_int(mkscale(mkadd(t, mkconst(M_PI)), 1 / (2 * M_PI)), 0);
            return box(mkadd(t, mkconst(-2 * M_PI * k)));
        }
        // the origin is singular
        if (implied(x, P_EQ) != 0 && implied(y, P_EQ) != 0)
        {
            if (decide(mkadd(mkmul(x, x), mkmul(y, y)), P_LE)) return 0;
        }
        return box(mk2(ATAN2, y, x));
    }
    double __sy_atan(double a) { if (!boxed(a)) return std::atan(a); MARK(); return box(mk1(ATAN, hof(a))); }
    double __sy_asin(double a)
    {
        if (!boxed(a)) return std::asin(a);
        MARK();
        H h = hof(a);
        if (decide(mkadd(h, mkconst(1), -1), P_GT) || decide(mkadd(h, mkconst(1)), P_LT)) return NAN;
        return box(mk1(ASIN, h));
    }
    double __sy_acos(double a)
    {
        if (!boxed(a)) return std::acos(a);
        MARK();
        H h = hof(a);
        if (decide(mkadd(h, mkconst(1), -1), P_GT) || decide(mkadd(h, mkconst(1)), P_LT)) return NAN;
        return box(mk1(ACOS, h));
    }
    double __sy_exp(double a) { if (!boxed(a)) return std::exp(a); MARK(); return box(mk1(EXP, hof(a))); }
    double __sy_log(double a)
    {
        if (!boxed(a)) return std::log(a);
        MARK();
        H h = hof(a);
        if (decide(h, P_LT)) return NAN;
        if (decide(h, P_EQ)) return -INFINITY;
        return box(mk1(LOG, h));
    }
    double __sy_log10(double a) { if (!boxed(a)) return std::log10(a); return __sy_fmul(__sy_log(a), 1 / M_LN10); }
    double __sy_log2(double a) { if (!boxed(a)) return std::log2(a); return __sy_fmul(__sy_log(a), 1 / M_LN2); }
    double __sy_sinh(double a) { if (!boxed(a)) return std::sinh(a); double e = __sy_exp(a); return __sy_fmul(0.5, __sy_fsub(e, __sy_fdiv(1, e))); }
    double __sy_cosh(double a) { if (!boxed(a)) return std::cosh(a); double e = __sy_exp(a); return __sy_fmul(0.5, __sy_fadd(e, __sy_fdiv(1, e))); }
    double __sy_tanh(double a) { if (!boxed(a)) return std::tanh(a); return __sy_fdiv(__sy_sinh(a), __sy_cosh(a)); }
    double __sy_pow(double a, double b)
    {
        if (!SLOW2(a, b)) return std::pow(a, b);
        MARK();
        if (!boxed(b))
        {
            if (b == 0) return 1;
            if (b == std::round(b) && std::fabs(b) <= 8)
            {
                double r = a;
                for (int i = 1; i < int(std::fabs(b)); i++) r = __sy_fmul(r, a);
                return b < 0 ? __sy_fdiv(1.0, r) : r;
            }
            if (b == 0.5) return __sy_sqrt(a);
        }
        if (boxed(a) && decide(hof(a), P_LE)) { if (decide(hof(a), P_EQ)) return 0; return NAN; }
        return box(mk2(POW, hnode(a), hnode(b)));
    }
    double __sy_cbrt(double a) { if (!boxed(a)) return std::cbrt(a); return __sy_pow(a, 1.0 / 3); }
    double __sy_concretize(double a)
    {
        if (!boxed(a)) return a;
        MARK();
        sh->concretized++;
        path_concretized = true;
        H h = resolve(hof(a));
        if (!model_ok) { std::vector<double> m; if (query({}, m, t_branch, true, true) == SAT) set_model(m, model_valid(m, {})); }
        double v = val(h);
        add_pc(mkadd(h, mkconst(v), -1), P_EQ);
        return v;
    }
    double __sy_signval(double a) { if (!boxed(a)) return a; MARK(); return decide(hof(a), P_LT) ? -1.0 : 1.0; }
    int    __sy_fpclass(double a, int mask)
    {
        if (!boxed(a))
        {
            int c;
            bool neg = std::signbit(a);
            if (std::isnan(a)) c = 2;
            else if (std::isinf(a)) c = neg ? 4 : 512;
            else if (a == 0) c = neg ? 32 : 64;
            else if (std::fpclassify(a) == FP_SUBNORMAL) c = neg ? 16 : 128;
            else c = neg ? 8 : 256;
            return (mask & c) != 0;
        }
        int fin = mask & (8 | 16 | 32 | 64 | 128 | 256);
        if (fin == 0) return 0;
        if (fin == (8 | 16 | 32 | 64 | 128 | 256)) return 1;
        H h = hof(a);
        if (decide(h, P_EQ)) return (mask & 64) != 0;
        return decide(h, P_GT) ? (mask & 256) != 0 : (mask & 8) != 0;
    }
    int64_t __sy_fptosi(double a, int w)
    {
        if (!boxed(a))
        {
            // same result as the x86 conversion instructions the release build uses
            if (w <= 32) return (int64_t)(int32_t)a;
            return (int64_t)a;
        }
        MARK();
        return (int64_t)enum_int(hof(a), 1);
    }
    uint64_t __sy_fptoui(double a, int w)
    {
        if (!boxed(a)) { if (w <= 32) return (uint64_t)(uint32_t)(int64_t)a; return (uint64_t)a; }
        MARK();
        return (uint64_t)(int64_t)enum_int(hof(a), 1);
    }
    float __sy_fptrunc(double a)
    {
        if (!boxed(a)) return (float)a;
        MARK();
        H h = hof(a);
        if (h > 0x1FFFFF) return (float)__sy_concretize(a);
        uint32_t u = 0x7FE00000u | h; float f; memcpy(&f, &u, 4);
        return f;
    }
    double __sy_fpext(float a) { return boxedf(a) ? unboxf(a) : (double)a; }
    float  __sy_concretizef(float a) { return boxedf(a) ? (float)__sy_concretize(unboxf(a)) : a; }
#define F2(n) float __sy_##n##f(float a, float b) { if (!boxedf(a) && !boxedf(b)) return (float)__sy_##n((double)a, (double)b); return __sy_fptrunc(__sy_##n(__sy_fpext(a), __sy_fpext(b))); }
#define F1(n) float __sy_##n##f(float a) { if (!boxedf(a)) return (float)__sy_##n((double)a); return __sy_fptrunc(__sy_##n(__sy_fpext(a))); }
    F2(fadd) F2(fsub) F2(fmul) F2(fdiv) F2(fmod) F2(fmin) F2(fmax) F2(pow) F2(copysign) F2(atan2) F2(hypot)
    F1(fneg) F1(fabs) F1(sqrt) F1(floor) F1(ceil) F1(trunc) F1(round) F1(rint) F1(nearbyint) F1(sin) F1(cos) F1(tan) F1(exp) F1(log) F1(asin) F1(acos) F1(atan)
    int __sy_fcmpf(int p, float a, float b) { return __sy_fcmp(p, __sy_fpext(a), __sy_fpext(b)); }
}

// text tokens: magic decimal numbers which the hooked strtod maps back to the (symbolic) value
static std::vector<double>       text_vals;
static std::vector<std::string>  text_strs;
static const double              TEXT_BASE = 918273645000000.0;
extern "C"
{
    const char* vf_text(double v)
    {
        static char rot[64][40];
        static int  ri = 0;
        if (!boxed(v)) { char* b = rot[ri++ % 64]; snprintf(b, 40, "%.17g", v); return b; }
        text_vals.push_back(v);
        char* b = rot[ri++ % 64];
        snprintf(b, 40, "%.0f", TEXT_BASE + double(text_vals.size() - 1));
        return b;
    }
    double __sy_strtod(const char* s, char** e)
    {
        double d = strtod(s, e);
        double n = d - TEXT_BASE, m = -d - TEXT_BASE;
        if (n >= 0 && n < double(text_vals.size()) && n == std::floor(n)) return text_vals[size_t(n)];
        if (m >= 0 && m < double(text_vals.size()) && m == std::floor(m)) return __sy_fneg(text_vals[size_t(m)]);
        return d;
    }
    double __sy_token(double d)
    {
        double n = d - TEXT_BASE;
        return n >= 0 && n < double(text_vals.size()) && n == std::floor(n) ? text_vals[size_t(n)] : d;
    }
    double __sy_atof(const char* s) { return __sy_strtod(s, nullptr); }
}

// std::to_string(double): exact here (the real one rounds to 6 decimals, which the harness tolerances allow for)
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
extern "C" std::string __sy_to_string(double v)
{
    if (!boxed(v)) return std::to_string(v);
    if (__sy_fcmp(4 /* olt */, v, 0.0)) return std::string("-") + vf_text(__sy_fneg(v));
    return vf_text(v);
}
#pragma clang diagnostic pop
// ---------------------------------------------------------------- harness API
extern "C"
{
    double vf_double(const char* name, double lo, double hi)
    {
        std::string nm = name;
        if (concrete_mode)
        {
            auto it = replay_vals.find(nm);
            if (it == replay_vals.end()) { fprintf(stderr, "replay: no value for %s\n", name); _exit(5); }
            return it->second;
        }
        for (auto& v : vars) if (v.name == nm) { fprintf(stderr, "duplicate symbol %s\n", name); _exit(6); }
        if (vars.size() >= MAXV) { fprintf(stderr, "too many symbols\n"); _exit(6); }
        Node n; n.op = VAR; n.k = double(vars.size()); n.lo = lo; n.hi = hi; n.vs.set(vars.size());
        vars.push_back({nm, lo, hi});
        // model value off the "nice" spots so that most comparisons are decided strictly
        double f = 0.3711 + 0.2573 * double((vars.size() * 7919) % 97) / 97.0;
        model.push_back(lo + (hi - lo) * f);
        return box(intern(n));
    }
    int vf_int(const char* name, int lo, int hi)
    {
        std::string nm = name;
        if (concrete_mode)
        {
            auto it = replay_vals.find(nm);
            if (it == replay_vals.end()) { fprintf(stderr, "replay: no value for %s\n", name); _exit(5); }
            return int(it->second);
        }
        for (int v = lo; v < hi; v++)
        {
            sh->intdec++;
            if (spawn()) { ints.push_back({nm, v}); return v; }
        }
        ints.push_back({nm, hi});
        return hi;
    }
    void vf_assume_fail() { if (!concrete_mode) sh->assumed++; end_path("assume"); }
    void vf_assume_cmp(int pred, double a, double b)
    {
        if (!SLOW2(a, b)) { if (!__sy_fcmp(pred, a, b)) vf_assume_fail(); return; }
        static const Pred map[8] = {P_EQ, P_EQ, P_GT, P_GE, P_LT, P_LE, P_NE, P_EQ};
        H d = resolve(mkadd(hnode(a), hnode(b), -1));
        Pred p = map[pred & 7];
        canon(d, p);
        int im = implied(d, p);
        if (im == 1) return;
        if (im == 0) vf_assume_fail();
        Cons c; c.d = d; c.p = p;
        if (model_ok && std::fabs(val(d)) > 1e-9 && sat1(val(d), p)) { pc.push_back(c); tighten(d, p); return; }
        std::vector<double> m;
        Res r = query({c}, m, t_assert, true);
        if (r == UNSAT) vf_assume_fail();
        pc.push_back(c); tighten(d, p);
        if (r == SAT) { bool ok = model_valid(m, {}); set_model(m, ok); if (!ok) path_uncertain = true; }
        else { model_ok = false; path_uncertain = true; }
    }
    void vf_observe(const char* name, double v)
    {
        std::string nm = std::string(name) + "#" + std::to_string(concrete_mode ? obs.size() : obs_sym.size());
        if (concrete_mode) obs.push_back({nm, v});
        else if (std::isfinite(v) || boxed(v)) obs_sym.push_back({nm, hnode(v)});
        else obs_sym.push_back({nm, mkconst(1e300)});
    }
    void vf_note(const char* t) { notes += t; notes += ";"; }
    int  vf_thorough() { return thorough; }
    int  vf_is_symbolic(double v) { return boxed(v); }
    void vf_assert_pass(const char* label) { labels[label]++; sh->proved += concrete_mode ? 0 : 1; }

    static std::string viol_json(const char* label, const char* expr, const char* file, int line, const std::vector<std::vector<double>>& models)
    {
        std::string s = ", \"label\": \"" + jesc(label) + "\", \"expr\": \"" + jesc(expr) + "\", \"loc\": \"" + jesc(file) + ":" + std::to_string(line) + "\", \"models\": [";
        for (size_t i = 0; i < models.size(); i++) s += (i ? ", " : "") + jmodel(models[i]);
        return s + "], \"concretized\": " + (path_concretized ? "true" : "false") + ", \"notes\": \"" + jesc(notes) + "\"";
    }
    // the current path (plus extra) violates an assertion: collect candidate models, most robust first
    static int report(const char* label, const char* expr, const char* file, int line, std::vector<Cons> extra, bool certain)
    {
        std::vector<std::vector<double>> ms;
        std::vector<double>              m;
        Res                              r = UNKNOWN;
        for (double mg : {1e-2, 1e-4, 1e-7})
        {
            Res q = query(extra, m, 3000, false, true, mg);
            if (q == SAT) { r = SAT; ms.push_back(m); if (ms.size() >= 2) break; }
        }
        if (certain && model_ok && model_valid(model, extra)) ms.push_back(model);
        if (ms.empty() || !certain)
        {
            Res q = query(extra, m, t_assert, true, true, 0);
            if (q == SAT) { r = SAT; ms.push_back(m); }
            if (q == UNSAT && ms.empty()) r = UNSAT;
        }
        if (!ms.empty()) r = SAT;
        if (r == UNSAT) { sh->proved++; return 0; }
        if (r == UNKNOWN)
        {
            sh->undecided++;
            emit("{\"kind\": \"undecided\", \"label\": \"" + jesc(label) + "\", \"expr\": \"" + jesc(expr) + "\", \"loc\": \"" + std::string(file) + ":" + std::to_string(line) + "\", \"ints\": " + jints() + "}");
            return 2;
        }
        sh->violations++;
        std::string js = viol_json(label, expr, file, line, ms);
        emit("{\"kind\": \"violation\", \"ints\": " + jints() + js + "}");
        return 1;
    }
    void vf_assert_fail(const char* label, const char* expr, const char* file, int line)
    {
        labels[label]++;
        if (concrete_mode)
            end_path("violation", std::string(", \"label\": \"") + jesc(label) + "\", \"expr\": \"" + jesc(expr) + "\"");
        int r = report(label, expr, file, line, {}, model_ok);
        end_path(r == 1 ? "violation" : r == 0 ? "infeasible" : "undecided");
    }
    static void check(const std::vector<Cons>& viol, const char* label, const char* expr, const char* file, int line)
    {
        // each element of viol is one way to violate; none may be satisfiable
        for (auto& c : viol)
        {
            H d = resolve(c.d); Pred p = c.p;
            canon(d, p);
            int im = implied(d, p);
            if (im == 0) { sh->proved++; sh->interval_dec++; continue; }
            Cons cc; cc.d = d; cc.p = p;
            std::vector<double> m;
            Res r;
            if (im != 1 && model_ok && std::fabs(val(d)) > 1e-9 && sat1(val(d), p)) r = SAT;
            else r = query({cc}, m, t_assert, true);
            if (r == UNSAT) { sh->proved++; continue; }
            report(label, expr, file, line, {cc}, r == SAT && model_ok && sat1(val(d), p));
            // continue on the non-violating side when there is one
            Cons ok; ok.d = d; ok.p = negate(p);
            Res  r2 = query({ok}, m, t_branch, false);
            if (r2 == UNSAT) end_path("violation");
            pc.push_back(ok); tighten(d, ok.p);
            if (r2 == SAT) { bool v = model_valid(m, {}); set_model(m, v); if (!v) path_uncertain = true; }
            else { model_ok = false; path_uncertain = true; }
        }
    }
    void vf_near(double a, double b, double tol, const char* label, const char* expr, const char* file, int line)
    {
        labels[label]++;
        vf_observe(label, a);
        if (!SLOW2(a, b))
        {
            bool ok = std::fabs(a - b) <= tol || (std::isinf(a) && a == b);
            if (ok) { if (!concrete_mode) sh->proved++; return; }
            vf_assert_fail(label, expr, file, line);
        }
        if ((!boxed(a) && !std::isfinite(a)) || (!boxed(b) && !std::isfinite(b))) vf_assert_fail(label, expr, file, line);
        H d = mkadd(hnode(a), hnode(b), -1);
        Cons c1, c2;
        c1.d = mkadd(d, mkconst(tol), -1); c1.p = P_GT;
        c2.d = mkadd(d, mkconst(tol)); c2.p = P_LT;
        check({c1, c2}, label, expr, file, line);
    }
    void vf_le(double a, double b, double tol, const char* label, const char* expr, const char* file, int line)
    {
        labels[label]++;
        vf_observe(label, a);
        if (!SLOW2(a, b))
        {
            if (a <= b + tol) { if (!concrete_mode) sh->proved++; return; }
            vf_assert_fail(label, expr, file, line);
        }
        if (!boxed(a) && !std::isfinite(a)) { if (a < 0) return; vf_assert_fail(label, expr, file, line); }
        if (!boxed(b) && !std::isfinite(b)) { if (b > 0) return; vf_assert_fail(label, expr, file, line); }
        Cons c; c.d = mkadd(mkadd(hnode(a), hnode(b), -1), mkconst(tol), -1); c.p = P_GT;
        check({c}, label, expr, file, line);
    }
    void vf_done() { if (!concrete_mode) sh->completed++; end_path("complete"); }
}

static std::vector<std::pair<std::string, void (*)()>>& reg()
{
    static std::vector<std::pair<std::string, void (*)()>> r;
    return r;
}
extern "C" void vf_register(const char* name, void (*fn)()) { reg().push_back({name, fn}); }

static void on_signal(int sig)
{
    if (in_rt) _exit(9);
    in_rt = true;
    if (sh) sh->crashes++;
    if (concrete_mode) { end_path("crash", ", \"label\": \"no-crash\", \"signal\": " + std::to_string(sig)); }
    // report with the current model; the driver replays it
    { void* bt[24]; int nb = backtrace(bt, 24); char b[32]; for (int i = 2; i < nb; i++) { snprintf(b, sizeof b, " %p", bt[i]); notes += b; } }
    std::vector<std::vector<double>> ms;
    if (model_ok) ms.push_back(model);
    std::string s = ", \"label\": \"no-crash\", \"expr\": \"signal " + std::to_string(sig) + "\", \"loc\": \"\", \"models\": [";
    for (size_t i = 0; i < ms.size(); i++) s += (i ? ", " : "") + jmodel(ms[i]);
    s += "], \"concretized\": false, \"notes\": \"" + jesc(notes) + "\"";
    sh->violations++;
    emit("{\"kind\": \"violation\", \"ints\": " + jints() + s + "}");
    end_path("crash");
}

int main(int argc, char** argv)
{
    // usage: harness CASE OUT.jsonl [key=value...]   |  harness --list
    if (argc >= 2 && !strcmp(argv[1], "--list")) { for (auto& r : reg()) printf("%s\n", r.first.c_str()); return 0; }
    if (argc < 3) { fprintf(stderr, "usage: %s CASE OUT [opts]\n", argv[0]); return 2; }
    case_name = argv[1];
    result_fd = open(argv[2], O_CREAT | O_WRONLY | O_APPEND | O_CLOEXEC, 0644);
    double budget = 120; uint64_t maxpaths = 20000; int jobs = 8; bool verbose = false;
    for (int i = 3; i < argc; i++)
    {
        std::string a = argv[i]; size_t e = a.find('=');
        std::string k = a.substr(0, e), v = e == std::string::npos ? "" : a.substr(e + 1);
        if (k == "budget") budget = atof(v.c_str());
        else if (k == "maxpaths") maxpaths = strtoull(v.c_str(), 0, 10);
        else if (k == "jobs") jobs = atoi(v.c_str());
        else if (k == "tbranch") t_branch = atoi(v.c_str());
        else if (k == "tassert") t_assert = atoi(v.c_str());
        else if (k == "thorough") thorough = atoi(v.c_str());
        else if (k == "verbose") verbose = true;
        else if (k == "dump") dump_queries = true;
        else if (k == "forklog") fork_log = fopen(v.c_str(), "a");
        else if (k == "replay")
        {
            concrete_mode = true;
            FILE* f = fopen(v.c_str(), "r");
            if (!f) { fprintf(stderr, "no replay file\n"); return 2; }
            char name[512], val[128];
            while (fscanf(f, "%511s %127s", name, val) == 2) replay_vals[name] = strtod(val, nullptr);
            fclose(f);
        }
    }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->tokens = jobs - 1; sh->deadline = now() + budget; sh->maxpaths = maxpaths; sh->paths = 1;
    mkconst(0);  // handle 0
    if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); if (!getenv("VF_STDERR")) dup2(n, 2); close(n); }
    void (*fn)() = nullptr;
    for (auto& r : reg()) if (r.first == case_name) fn = r.second;
    if (!fn) return 2;
    double t0 = now();
    pid_t root = fork();
    if (root == 0)
    {
        stack_t ss; ss.ss_sp = malloc(1 << 20); ss.ss_size = 1 << 20; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
        if (concrete_mode) alarm(unsigned(budget) + 5);
        try { fn(); }
        catch (const std::exception& e)
        {
            sh->exceptions++;
            labels["no-exception"]++;
            if (concrete_mode) end_path("violation", std::string(", \"label\": \"no-exception\", \"expr\": \"") + jesc(e.what()) + "\"");
            int r = report("no-exception", e.what(), "", 0, {}, model_ok);
            end_path(r == 1 ? "violation" : "undecided");
        }
        catch (...)
        {
            sh->exceptions++;
            if (concrete_mode) end_path("violation", ", \"label\": \"no-exception\", \"expr\": \"unknown exception\"");
            int r = report("no-exception", "unknown exception", "", 0, {}, model_ok);
            end_path(r == 1 ? "violation" : "undecided");
        }
        vf_done();
    }
    int st = 0;
    waitpid(root, &st, 0);
    if (!concrete_mode)
    {
        std::string ad = "[";
        bool        first = true;
        extern char __executable_start;
        for (auto& a : sh->addrs) { uintptr_t v = a.load(); if (v) { char b[40]; snprintf(b, sizeof b, "%s%lu", first ? "" : ", ", (unsigned long)(v - (uintptr_t)&__executable_start)); ad += b; first = false; } }
        ad += "]";
        char b[2048];
        snprintf(b, sizeof b,
                 "{\"kind\": \"summary\", \"case\": \"%s\", \"paths\": %lu, \"completed\": %lu, \"assumed\": %lu, \"queries\": %lu, \"sat\": %lu, \"unsat\": %lu, \"unknown\": %lu, \"solver_s\": %.3f, "
                 "\"truncated\": %lu, \"violations\": %lu, \"concretized\": %lu, \"undecided\": %lu, \"proved\": %lu, \"crashes\": %lu, \"exceptions\": %lu, \"maxvars\": %lu, \"maxpc\": %lu, "
                 "\"branch_unknown\": %lu, \"int_branches\": %lu, \"interval_decided\": %lu, \"cvc5_calls\": %lu, \"guessed\": %lu, \"icp_calls\": %lu, \"icp_unsat\": %lu, \"root_status\": %d, \"wall_s\": %.3f, \"addrs\": ",
                 case_name.c_str(), sh->paths.load(), sh->completed.load(), sh->assumed.load(), sh->queries.load(), sh->nsat.load(), sh->nunsat.load(), sh->nunknown.load(), double(sh->solver_us.load()) * 1e-6,
                 sh->truncated.load(), sh->violations.load(), sh->concretized.load(), sh->undecided.load(), sh->proved.load(), sh->crashes.load(), sh->exceptions.load(), sh->maxvars.load(), sh->maxpc.load(),
                 sh->branch_unknown.load(), sh->intdec.load(), sh->interval_dec.load(), sh->cvc5_calls.load(), sh->guessed.load(), sh->icp_calls.load(), sh->icp_unsat.load(), st, now() - t0);
        emit(std::string(b) + ad + "}");
    }
    else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
        emit("{\"kind\": \"concrete\", \"status\": \"died\", \"rc\": " + std::to_string(st) + "}");
    return 0;
}
