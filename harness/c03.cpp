// C03: an expression gives the value it describes at every time, whatever happened to the object before,
// and however many threads evaluate it.
#include "mc.hpp"
#include "sched.hpp"
#include "TEval.hpp"
#include <lua.hpp>
#include <pthread.h>
#include <omp.h>
#include <stdexcept>
#include <atomic>

// ---- interposed functions: scheduling points --------------------------------------------------
static int crit;
#define REAL(name) ((decltype(&name))({ static void *p = dlsym(RTLD_NEXT, #name); p; }))
#ifndef NO_INTERPOSE
extern "C" {
void GOMP_critical_start(); void GOMP_critical_end(); void GOMP_critical_name_start(void **); void GOMP_critical_name_end(void **);
#ifdef FREE_RUNNING
static pthread_mutex_t fm = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start() { pthread_mutex_lock(&fm); }
void GOMP_critical_end() { pthread_mutex_unlock(&fm); }
void GOMP_critical_name_start(void **) { pthread_mutex_lock(&fm); }
void GOMP_critical_name_end(void **) { pthread_mutex_unlock(&fm); }
#else
void GOMP_critical_start() { if (sched::managed()) sched::acquire(&crit); else REAL(GOMP_critical_start)(); }
void GOMP_critical_end() { if (sched::managed()) sched::release(&crit); else REAL(GOMP_critical_end)(); }
void GOMP_critical_name_start(void **p) { if (sched::managed()) sched::acquire(p); else REAL(GOMP_critical_name_start)(p); }
void GOMP_critical_name_end(void **p) { if (sched::managed()) sched::release(p); else REAL(GOMP_critical_name_end)(p); }
void lua_pushnumber(lua_State *L, lua_Number x) { sched::point(); REAL(lua_pushnumber)(L, x); }
void lua_setglobal(lua_State *L, const char *n) { sched::point(); REAL(lua_setglobal)(L, n); }
void lua_getglobal(lua_State *L, const char *n) { sched::point(); REAL(lua_getglobal)(L, n); }
int lua_pcallk(lua_State *L, int a, int b, int c, int d, lua_CFunction k) { sched::point(); return REAL(lua_pcallk)(L, a, b, c, d, k); }
lua_Number lua_tonumberx(lua_State *L, int i, int *p) { sched::point(); return REAL(lua_tonumberx)(L, i, p); }
void lua_settop(lua_State *L, int i) { sched::point(); REAL(lua_settop)(L, i); }
#endif
}
#endif

// ---- reference ---------------------------------------------------------------------------------
struct Expr { const char *s; int ok; double (*f)(double); double (*bad)(double); };
// ok: 1 accepted, 0 rejected.  bad(t)!=0: evaluation at t has to fail
static double no(double) { return 0; }
static Expr E[] = {
    {"t", 1, [](double t) { return t; }, no},
    {"2*t+1", 1, [](double t) { return 2 * t + 1; }, no},
    {"", 1, [](double) { return 0.0; }, no},
    {"5", 1, [](double) { return 5.0; }, no},
    {"if t>1 then return 2 end return -t", 1, [](double t) { return t > 1 ? 2 : -t; }, no},
    {"1+", 0, nullptr, no},
    {"nil", 0, nullptr, no},
    {"error('x')", 0, nullptr, no},
    {"t>1 and error('x') or 3", 1, [](double) { return 3.0; }, [](double t) { return t > 1 ? 1.0 : 0.0; }},
    {"t<=1 and 4 or nil", 1, [](double) { return 4.0; }, [](double t) { return t <= 1 ? 0.0 : 1.0; }},
    {"sin(2*pi*t/8)+cos(t)+exp(-t)+sqrt(4)+abs(-t)", 1, [](double t) { return sin(2 * M_PI * t / 8) + cos(t) + exp(-t) + 2 + fabs(t); }, no},
    {"step(t-1)+erf(t)+tan(t)*ln2+log10e*sqrt2", 1, [](double t) { return (t - 1 >= 0 ? 1 : 0) + erf(t) + tan(t) * log(2) + (1 / log(10)) * sqrt(2); }, no},
    {"if t<0.5 then return {} end return t", 0, nullptr, no},
};
static const int NE = sizeof(E) / sizeof(E[0]);
static double T[] = {0.0, 1.0, 2.5, 0.5, -1.0, NAN};

// slots: two objects, the model holds which expression each has
struct World {
    TEval a, b; int ma = 2, mb = 2; bool shadow = false;
    bool do_op(int op, std::string &why) {
        // ops: [0,2*NE) assign expr to a/b; then eval a / b at T[k]; then a=b, b=a, a=a, copy-construct
        if (op < 2 * NE) {
            TEval &x = op < NE ? a : b; int &m = op < NE ? ma : mb; int e = op % NE;
            bool thrown = false;
            try { x = std::string(E[e].s); } catch (const std::invalid_argument &) { thrown = true; }
            if (thrown != !E[e].ok) { why = std::string("'") + E[e].s + (thrown ? "' was rejected" : "' was accepted"); return false; }
            if (E[e].ok) m = e;
            if (std::string(x) != E[m].s) { why = "text is '" + std::string(x) + "', expected '" + E[m].s + "'"; return false; }
            return true;
        }
        op -= 2 * NE;
        if (op < 12) return ev(op < 6 ? a : b, op < 6 ? ma : mb, T[op % 6], why);
        op -= 12;
        if (op == 0) { a = b; ma = mb; }
        else if (op == 1) { b = a; mb = ma; }
        else if (op == 2) { a = *&a; }
        else if (op == 3) { TEval c(a); for (double t : {2.5, 1.0}) if (!ev(c, ma, t, why)) return false; }
        return true;
    }
    static bool ev(const TEval &x, int m, double t, std::string &why) {
        double v = 0; bool thrown = false;
        try { v = x.eval(t); } catch (const std::invalid_argument &) { thrown = true; }
        bool bad = m != 2 && E[m].bad(t) != 0;
        if (bad != thrown) { why = mc::fmt("'%s' at %g %s", E[m].s, t, thrown ? "failed" : "did not fail"); return false; }
        if (bad) return true;
        double need = E[m].f(t);
        if (!mc::close(v, need, 1e-13)) { why = mc::fmt("'%s' at %g gave %.17g, expected %.17g", E[m].s, t, v, need); return false; }
        return true;
    }
};
static std::string opname(int op) {
    if (op < 2 * NE) return mc::fmt("%c='%s'", op < NE ? 'a' : 'b', E[op % NE].s);
    op -= 2 * NE;
    if (op < 12) return mc::fmt("%c(%g)", op < 6 ? 'a' : 'b', T[op % 6]);
    op -= 12;
    const char *n[] = {"a=b", "b=a", "a=a", "copy(a)"};
    return n[op];
}
static void sequences(const std::vector<int> &ops, int depth, const char *tag) {
    size_t n = ops.size();
    std::vector<int> idx(depth, 0);
    uint64_t total = 1; for (int i = 0; i < depth; i++) total *= n;
    // a case = all sequences with the same first two operations
    for (size_t p = 0; p < n * n; p++) {
        std::string id = mc::fmt("%s %s; %s; ...", tag, opname(ops[p / n]).c_str(), opname(ops[p % n]).c_str());
        if (!mc::want(id)) continue;
        uint64_t sub = total / n / n;
        mc::S().evaluations += sub - 1;
        for (uint64_t q = 0; q < sub; q++) {
            std::vector<int> seq = {ops[p / n], ops[p % n]};
            uint64_t r = q;
            for (int i = 2; i < depth; i++) { seq.push_back(ops[r % n]); r /= n; }
            World w; std::string why;
            int evs = 0;
            for (size_t i = 0; i < seq.size(); i++) {
                if (!w.do_op(seq[i], why)) {
                    std::string s; for (size_t k = 0; k <= i; k++) s += opname(seq[k]) + "; ";
                    mc::fail("history", why + " after " + s, s); break;
                }
                evs += seq[i] >= 2 * NE;
            }
            if (evs) mc::nontrivial();
        }
        mc::sample(id, 2);
    }
}

#if !defined(FREE_RUNNING)
// ---- every function and constant, at times close to each other and far apart, in every order ------
static Expr V[] = {
    {"t", 1, [](double t) { return t; }, no},
    {"sin(t)", 1, [](double t) { return sin(t); }, no}, {"cos(t)", 1, [](double t) { return cos(t); }, no}, {"tan(t)", 1, [](double t) { return tan(t); }, no},
    {"asin(t)", 1, [](double t) { return asin(t); }, no}, {"acos(t)", 1, [](double t) { return acos(t); }, no},
    {"atan(t)", 1, [](double t) { return atan(t); }, no},
    {"exp(t)", 1, [](double t) { return exp(t); }, no}, {"log(t)", 1, [](double t) { return log(t); }, no}, {"log(t,3)", 1, [](double t) { return log(t) / log(3.); }, no},
    {"sqrt(t)", 1, [](double t) { return sqrt(t); }, no}, {"abs(t)", 1, [](double t) { return fabs(t); }, no}, {"erf(t)", 1, [](double t) { return erf(t); }, no},
    {"step(t)", 1, [](double t) { return t != t ? t : t >= 0 ? 1. : 0.; }, no}, {"delta(t)", 1, [](double t) { return t != t ? t : t == 0 ? INFINITY : 0.; }, no},
    {"nandelta(t)", 1, [](double t) { return t != t || t == 0 ? NAN : 0.; }, no},
    {"step(t-1)-2*step(t-2.5)", 1, [](double t) { return (t >= 1 ? 1. : 0.) - 2 * (t >= 2.5 ? 1. : 0.); }, no},
    {"e*t", 1, [](double t) { return M_E * t; }, no}, {"pi*t", 1, [](double t) { return M_PI * t; }, no}, {"pi_2*t", 1, [](double t) { return M_PI / 2 * t; }, no},
    {"pi_4*t", 1, [](double t) { return M_PI / 4 * t; }, no}, {"ln2*t", 1, [](double t) { return M_LN2 * t; }, no}, {"ln10*t", 1, [](double t) { return M_LN10 * t; }, no},
    {"log2e*t", 1, [](double t) { return M_LOG2E * t; }, no}, {"log10e*t", 1, [](double t) { return M_LOG10E * t; }, no},
    {"sqrt2*t", 1, [](double t) { return M_SQRT2 * t; }, no}, {"sqrt1_2*t", 1, [](double t) { return M_SQRT1_2 * t; }, no},
    {"1/t", 1, [](double t) { return 1 / t; }, no}, {"sinh(t)", 1, [](double t) { return sinh(t); }, no}, {"cosh(t)", 1, [](double t) { return cosh(t); }, no}, {"tanh(t)", 1, [](double t) { return tanh(t); }, no}, {"t%1", 1, [](double t) { return t - floor(t); }, no}, {"t^2", 1, [](double t) { return t * t; }, no},
    {"t*0", 1, [](double t) { return t * 0; }, no}, {"'0x10'", 1, [](double) { return 16.; }, no},
    {"0.1*t+0.2*t+0.3*t+0.4*t+0.5*t+0.6*t+0.7*t+0.8*t+0.9*t+1.0*t+1.1*t+1.2*t+1.3*t+1.4*t+1.5*t+1.6*t+1.7*t+1.8*t+1.9*t+2.0*t+2.1*t+2.2*t+2.3*t+2.4*t+2.5*t+2.6*t+2.7*t+2.8*t+2.9*t+3.0*t+3.1*t+3.2*t+3.3*t+3.4*t", 1, [](double t) { return 59.5 * t; }, no},
};
static bool same(double v, double w) { return v != v ? w != w : v == w || std::fabs(v - w) <= 4e-15 * std::fabs(w) + 1e-300; }
static void values() {
    const double t1 = nextafter(1., 2.), tt[] = {0., -0.5, 1., t1, 1 + 1e-12, 1 + 1e-8, 1.0000001, -1., 2.5, 2.5 + 1e-9, 1e-9, 2e-9, 1e6, 1e6 + 1e-9, 100000.1, 100000.2, 1e-300, -1e6};
    const int n = sizeof(tt) / sizeof(tt[0]);
    for (auto &x : V) {
        if (!mc::want(mc::fmt("values of %.60s", x.s))) continue;
        // an object that is asked at two times, and at the first again
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) {
            TEval *e; static std::map<const char *, std::unique_ptr<TEval>> keep;
            if (!keep[x.s]) { keep[x.s].reset(new TEval); *keep[x.s] = std::string("t+77"); keep[x.s]->eval(1); *keep[x.s] = std::string(x.s); }
            e = keep[x.s].get();
            for (int q : {i, j, k, i}) {
                double v = NAN, w = x.f(tt[q]); bool thrown = false;
                try { v = e->eval(tt[q]); } catch (const std::exception &) { thrown = true; }
                // the differences which the functions themselves leave
                bool ok = !thrown && (same(v, w) || (strchr(x.s, '(') || strlen(x.s) > 50 || strchr(x.s, '%')) && (mc::close(v, w, 1e-12)));
                if (!ok) { mc::fail("value", mc::fmt("'%s' at %.17g gave %.17g, expected %.17g, asked at %.17g, %.17g, %.17g", x.s, tt[q], v, w, tt[i], tt[j], tt[k]), x.s); goto next; }
            }
        }
        {
            // the empty text, the same text again, and a copy
            TEval e; e = std::string(x.s); e.eval(1); e = std::string();
            if (std::string(e) != "" || e.eval(1) != 0 || e.eval(3) != 0) mc::fail("emptied", x.s, x.s);
            e = std::string(x.s); TEval c(e);
            for (TEval *p : {&e, &c}) if (!mc::close(p->eval(2.5), x.f(2.5), 1e-12) && x.f(2.5) == x.f(2.5)) mc::fail("again", x.s, x.s);
        }
        mc::nontrivial(n * n * n); mc::S().evaluations += n * n * n - 1;
        next:;
    }
}
// ---- threads ------------------------------------------------------------------------------------
static uint64_t schedules = 0, pts = 0;
struct Call { int who; double t; };
static void explore(const std::string &name, const char *ea, const char *eb, double (*fa)(double), double (*fb)(double), std::vector<std::vector<Call>> prog, std::vector<double> warm, int bound, uint64_t cap) {
    if (!mc::want(name)) return;
    uint64_t count = 0; bool capped = false; std::set<std::string> outcomes;
    std::function<bool(std::vector<int>)> go = [&](std::vector<int> prefix) -> bool {
        if (count >= cap) { capped = true; return true; }
        TEval a, b; a = std::string(ea); b = std::string(eb);
        for (double t : warm) { a.eval(t); b.eval(t); }
        std::vector<std::vector<double>> got(prog.size());
        std::vector<std::function<void()>> bodies;
        for (size_t i = 0; i < prog.size(); i++) bodies.push_back([&, i] { for (auto c : prog[i]) { double v; try { v = (c.who ? b : a).eval(c.t); } catch (...) { v = -12345; } got[i].push_back(v); } });
        bool fin = sched::run(bodies, prefix);
        auto &g = sched::G();
        count++;
        if (g.diverged) { mc::fail("nondeterministic", "replay diverged", name); return false; }
        if (!fin) {
            if (g.deadlock) mc::fail("deadlock", "all threads wait", name);
            else mc::outcome("a lock the scheduler does not know was met; schedules not explored");
            mc::finish();
        }
        std::string o;
        for (size_t i = 0; i < prog.size(); i++) for (size_t k = 0; k < prog[i].size(); k++) {
            double need = (prog[i][k].who ? fb : fa)(prog[i][k].t);
            o += mc::fmt("%g ", got[i][k]);
            if (!mc::close(got[i][k], need, 1e-13)) {
                std::string s; for (auto &p : g.points) s += mc::fmt("%d", p.chosen);
                mc::fail("schedule", mc::fmt("thread %zu: expression %c at %g gave %.17g, expected %.17g; schedule %s", i, prog[i][k].who ? 'b' : 'a', prog[i][k].t, got[i][k], need, s.c_str()), name + " schedule " + s);
                return false;
            }
        }
        // afterwards, sequentially, the objects still answer right
        for (double t : {0.0, 1.0, 2.0, 3.0}) if (!mc::close(a.eval(t), fa(t), 1e-13) || !mc::close(b.eval(t), fb(t), 1e-13)) { mc::fail("after-schedule", mc::fmt("wrong value at %g after the threads ended", t), name); return false; }
        outcomes.insert(o);
        auto pt = g.points; pts += pt.size();
        for (size_t i = prefix.size(); i < pt.size(); i++) {
            int cost = 0;
            for (size_t k = 0; k < i; k++) if (pt[k].running_enabled && pt[k].chosen) cost++;
            if (pt[i].running_enabled) cost++;
            if (cost > bound) continue;
            for (size_t alt = 1; alt < pt[i].enabled.size(); alt++) {
                std::vector<int> p2;
                for (size_t k = 0; k < i; k++) p2.push_back(pt[k].chosen);
                p2.push_back(alt);
                if (!go(p2)) return false;
            }
        }
        return true;
    };
    go({});
    schedules += count;
    mc::S().evaluations += count - 1; mc::nontrivial(count);
    mc::outcome(mc::fmt("%s: %llu schedules, at most %d preemptions%s", name.c_str(), (unsigned long long)count, bound, capped ? " (capped)" : ""));
}
#endif

int main(int argc, char **argv) {
    mc::init(argc, argv);
#ifdef FREE_RUNNING
    // the same thread bodies, running freely under the thread sanitizer
    if (mc::want("free running")) {
        for (int round = 0; round < 300; round++) {
            TEval a, b; a = std::string("t"); b = std::string("3*t");
            std::vector<std::thread> th; std::atomic<int> bad(0);
            for (int i = 0; i < 3; i++) th.emplace_back([&, i] { for (int k = 0; k < 6; k++) { double t = (i * 3 + k) % 5; if (a.eval(t) != t) bad++; if (b.eval(t) != 3 * t) bad++; } });
            for (auto &t : th) t.join();
            if (bad) mc::fail("free-running", "wrong value");
            mc::nontrivial();
        }
    }
    return mc::finish();
#else
    std::vector<int> all; for (int i = 0; i < 2 * NE + 16; i++) all.push_back(i);
    // the second object only needs part of the alphabet: what can differ is sharing between a and b
    std::vector<int> ops4;
    for (int i = 0; i < NE; i++) ops4.push_back(i);
    for (int i : {0, 1, 4}) ops4.push_back(NE + i);
    for (int i = 0; i < 6; i++) ops4.push_back(2 * NE + i);
    for (int i : {6, 8}) ops4.push_back(2 * NE + i);
    for (int i = 12; i < 16; i++) ops4.push_back(2 * NE + i);
    sequences(ops4, mc::thorough() ? 5 : 4, "all");
    // deep: three expressions, four times, the copy: what two cached values can confuse
    std::vector<int> deep = {0, 1, 8, 2 * NE + 0, 2 * NE + 1, 2 * NE + 2, 2 * NE + 12, NE + 1};
    sequences(deep, mc::thorough() ? 7 : 6, "deep");
    values();
    auto f1 = [](double t) { return t; };
    auto f2 = [](double t) { return 3 * t; };
    const int B = mc::thorough() ? 3 : 2;
    explore("2 threads, one expression, different times", "t", "3*t", f1, f2, {{{0, 1}}, {{0, 2}}}, {}, 99, 200000);
    explore("2 threads, warm cache", "t", "3*t", f1, f2, {{{0, 1}, {0, 2}}, {{0, 2}, {0, 3}}}, {1, 5}, B, 60000);
    explore("2 threads x 2 calls, same object", "t", "3*t", f1, f2, {{{0, 1}, {0, 2}}, {{0, 3}, {0, 1}}}, {}, B, 60000);
    explore("2 threads x 2 calls, two objects", "t", "3*t", f1, f2, {{{0, 1}, {1, 2}}, {{1, 3}, {0, 1}}}, {}, B, 60000);
    explore("3 threads, one object", "t", "3*t", f1, f2, {{{0, 1}}, {{0, 2}}, {{0, 3}}}, {}, B, 60000);
    explore("3 threads, two objects", "t", "3*t", f1, f2, {{{0, 1}}, {{1, 2}}, {{0, 3}, {1, 1}}}, {7}, B - 1, 60000);
    explore("2 threads, same time", "t", "3*t", f1, f2, {{{0, 1}, {0, 1}}, {{0, 1}, {0, 2}}}, {}, B, 60000);
    return mc::finish();
#endif
}
