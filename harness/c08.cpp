// C08: shedding, motion and absorption on every small arrangement, against a bookkeeping oracle
#include "space_util.hpp"
#include "MFlowmove.hpp"
#include <algorithm>

static const double TOL = 1e-11;
typedef std::vector<TVec> Poly;

// -1: on (or too close to) the contour, 0: outside, 1: inside of the polygon
static int inside(const Poly &c, TVec p) {
    bool in = false; double near = INFINITY;
    for (size_t i = 0, j = c.size() - 1; i < c.size(); j = i++) {
        TVec a = c[j], b = c[i], d = b - a; double l2 = d.abs2();
        double t = l2 ? std::min(1., std::max(0., ((p - a) * d) / l2)) : 0;
        near = std::min(near, (p - a - t * d).abs());
        if ((a.y > p.y) != (b.y > p.y) && p.x < (b.x - a.x) * (p.y - a.y) / (b.y - a.y) + a.x) in = !in;
    }
    return near < 1e-7 ? -1 : in;
}
static double area(const Poly &c) { double s = 0; for (size_t i = 0, j = c.size() - 1; i < c.size(); j = i++) s += c[j].x * c[i].y - c[j].y * c[i].x; return s / 2; }
// clockwise contour: solid inside; counter-clockwise: fluid inside
static int solid(const Poly &c, TVec p) { int in = inside(c, p); return in < 0 ? -1 : (area(c) < 0) ? in : !in; }

struct Obj { TVec r; double g; TVec v; };
struct Acc { std::vector<double> gsum, hsum; TVec f; double o = 0, g = 0; };

struct Step {
    Space &S; double eps;
    uint64_t absorbed = 0, weak = 0, shed = 0, kept = 0, skipped = 0;
    Step(Space &S, double eps) : S(S), eps(eps) {}

    std::vector<Acc> accounts() {
        std::vector<Acc> r;
        for (auto &b : S.BodyList) { Acc a; for (auto &t : b->alist) { a.gsum.push_back(t.gsum); a.hsum.push_back(t.hsum); } a.f = b->fdt_dead.r; a.o = b->fdt_dead.o; a.g = b->g_dead; r.push_back(a); }
        return r;
    }
    static bool eq(double a, double b) { return mc::close(a, b, TOL); }

    // match the list with what is expected, in any order
    void match(const char *what, std::vector<TObj> &got, std::vector<Obj> exp, bool zero_v) {
        if (!mc::require(got.size() == exp.size(), std::string(what) + "-count", mc::fmt("%zu expected %zu", got.size(), exp.size()))) return;
        size_t k = 0;
        for (auto &o : got) {
            // usually the order is that of the list
            size_t f = exp.size();
            for (size_t q = 0; q < exp.size() && f == exp.size(); q++) { size_t i = (k + q) % exp.size(); if (exp[i].g == o.g && eq(exp[i].r.x, o.r.x) && eq(exp[i].r.y, o.r.y)) f = i; }
            if (!mc::require(f < exp.size(), std::string(what) + "-state", mc::fmt("unexpected element at (%.12g,%.12g) of %g", o.r.x, o.r.y, o.g))) return;
            exp.erase(exp.begin() + f); k = f;
            if (zero_v) mc::require(o.v.x == 0 && o.v.y == 0, std::string(what) + "-speed-kept", "");
        }
    }

    void run(bool remove, bool streak_due) {
        auto b0 = accounts();
        double flow0 = 0; for (auto &o : S.VortexList) flow0 += o.g;
        std::vector<TObj> vl = S.VortexList, sl = S.StreakList;
        std::vector<std::vector<double>> g;
        for (auto &b : S.BodyList) { g.emplace_back(); for (auto &t : b->alist) g.back().push_back(t.g); }
        MFlowmove fm(&S, eps);
        fm.vortex_shed();
        // every segment that is strong enough and without slip gives one vortex at its corner, outside of the wall
        std::vector<std::pair<TVec, double>> exp;
        for (auto &b : S.BodyList) for (auto &t : b->alist) if (std::fabs(t.g) >= eps && !t.slip) exp.push_back({t.corner, t.g});
        shed += exp.size();
        if (!mc::require(S.VortexList.size() == vl.size() + exp.size(), "shed-count", mc::fmt("%zu expected %zu", S.VortexList.size() - vl.size(), exp.size()))) return;
        for (size_t i = 0; i < vl.size(); i++) mc::require(!(S.VortexList[i].r != vl[i].r) && S.VortexList[i].g == vl[i].g, "shed-altered", "");
        for (size_t i = 0; i < exp.size(); i++) {
            TObj &o = S.VortexList[vl.size() + i]; bool ok = false;
            for (auto &e : exp) if (e.second == o.g && (o.r - e.first).abs() < 2e-3) ok = true;
            mc::require(ok, "shed-state", mc::fmt("(%g,%g) %g", o.r.x, o.r.y, o.g));
            for (auto &b : S.BodyList) { Poly c; for (auto &t : b->alist) c.push_back(t.corner);
                if (S.BodyList.size() == 1) mc::require(solid(c, o.r) != 1, "shed-into-wall", mc::fmt("(%.9g,%.9g)", o.r.x, o.r.y)); }
        }
        for (size_t b = 0; b < S.BodyList.size(); b++) for (size_t i = 0; i < g[b].size(); i++)
            mc::require(eq(S.BodyList[b]->alist[i].gsum, b0[b].gsum[i] + g[b][i]), "shed-account", mc::fmt("body %zu segment %zu", b, i));
        fm.streak_shed();
        { std::vector<Obj> e; for (auto &o : sl) e.push_back({o.r, o.g}); if (streak_due) for (auto &o : S.StreakSourceList) e.push_back({o.r, o.g}); match("marker-shed", S.StreakList, e, false); }

        // velocities: some function of the place and strength
        size_t k = 0;
        for (auto &o : S.VortexList) if (!o.v.x && !o.v.y) { k++; o.v = TVec(0.5 * ((k * 7) % 5) - 1, 0.5 * ((k * 3) % 5) - 1) * (k > vl.size() ? 1.0 : 0.5); }
        for (auto &o : S.HeatList) { k++; o.v = TVec(((k * 5) % 3) - 1., ((k * 2) % 3) - 1.); }
        for (auto &o : S.StreakList) { k++; o.v = TVec(((k * 5) % 3) - 1., ((k * 2) % 3) - 1.); }
        double dt = double(S.dt);
        // expected motion of the bodies (no roots, no limits here)
        std::vector<Poly> c; std::vector<TVec> axis;
        for (auto &b : S.BodyList) {
            TVec ax = b->get_axis(), d = b->speed_slae.r * dt; double a = b->speed_slae.o * dt; Poly p;
            for (auto &t : b->alist) { TVec r = t.corner - ax; p.push_back(ax + d + r * cos(a) + rotl(r) * sin(a)); }
            c.push_back(p); axis.push_back(ax + d);
        }
        auto acc = accounts();
        std::vector<Obj> ve, se, he; bool unclear = false; double weakg = 0; size_t nabs = 0;
        struct Near { size_t b, i; double g; std::vector<size_t> alt; };
        auto nearest = [&](size_t b, TVec p) {
            std::vector<size_t> r; double best = INFINITY; size_t n = c[b].size();
            for (size_t i = 0; i < n; i++) { double d = (0.5 * (c[b][i] + c[b][(i + 1) % n]) - p).abs(); best = std::min(best, d); }
            for (size_t i = 0; i < n; i++) { double d = (0.5 * (c[b][i] + c[b][(i + 1) % n]) - p).abs(); if (d < best * (1 + 1e-9) + 1e-9) r.push_back(i); }
            return r;
        };
        for (auto &o : S.VortexList) {
            if (std::fabs(o.g) < eps) { weakg += o.g; weak++; continue; }
            TVec r = o.r + o.v * dt; int in = -1; bool u = false;
            for (size_t b = 0; b < c.size(); b++) { int s = solid(c[b], r); if (s < 0) u = true; if (s == 1) { in = b; break; } }
            if (u) { unclear = true; break; }
            if (in < 0 || !remove) { ve.push_back({r, o.g}); kept++; continue; }
            auto n = nearest(in, r);
            if (n.size() > 1) { unclear = true; break; }
            nabs++;
            acc[in].gsum[n[0]] -= o.g; acc[in].g += o.g; acc[in].f += rotl(r) * o.g; acc[in].o += (r - axis[in]).abs2() * o.g;
        }
        for (auto &o : S.StreakList) { TVec r = o.r + o.v * dt; bool in = false; for (auto &p : c) { int s = solid(p, r); if (s < 0) unclear = true; if (s == 1) in = true; } if (!in) se.push_back({r, o.g}); }
        for (auto &o : S.HeatList) {
            if (std::fabs(o.g) < eps) continue;
            TVec r = o.r + o.v * dt; int in = -1; for (size_t b = 0; b < c.size() && in < 0; b++) { int s = solid(c[b], r); if (s < 0) unclear = true; if (s == 1) in = b; }
            if (in < 0) he.push_back({r, o.g}); else { auto n = nearest(in, r); if (n.size() > 1) { unclear = true; break; } acc[in].hsum[n[0]] -= o.g; }
        }
        if (unclear) { skipped++; return; }
        absorbed += nabs;
        // what was not shed is credited to the body
        for (size_t b = 0; b < c.size(); b++) for (size_t i = 0; i < g[b].size(); i++) if (std::fabs(g[b][i]) < eps || S.BodyList[b]->alist[i].slip) {
            acc[b].gsum[i] -= g[b][i]; acc[b].g += g[b][i]; acc[b].f += rotl(c[b][i]) * g[b][i]; acc[b].o += (c[b][i] - axis[b]).abs2() * g[b][i];
        }
        TVec im = S.inf_marker + S.inf_speed() * dt;
        const void *col = &S; size_t cleaned = 99;
        fm.move_and_clean(remove, &col, &cleaned);
        mc::require(col == nullptr, "collision-invented", "");
        mc::require(cleaned == nabs, "cleaned-count", mc::fmt("%zu expected %zu", cleaned, nabs));
        mc::require(eq(im.x, S.inf_marker.x) && eq(im.y, S.inf_marker.y), "far-marker", "");
        match("vortex", S.VortexList, ve, true);
        match("marker", S.StreakList, se, true);
        match("heat", S.HeatList, he, true);
        auto a1 = accounts();
        double flow1 = 0, credit = 0; for (auto &o : S.VortexList) flow1 += o.g;
        for (size_t b = 0; b < c.size(); b++) {
            double sg = 0, gg = 0;
            for (size_t i = 0; i < c[b].size(); i++) {
                mc::require(eq(a1[b].gsum[i], acc[b].gsum[i]), "segment-account", mc::fmt("body %zu segment %zu: %.12g expected %.12g", b, i, a1[b].gsum[i], acc[b].gsum[i]));
                mc::require(eq(a1[b].hsum[i], acc[b].hsum[i]), "segment-heat", mc::fmt("body %zu segment %zu", b, i));
                TVec x = S.BodyList[b]->alist[i].corner;
                mc::require(eq(x.x, c[b][i].x) && eq(x.y, c[b][i].y), "body-moved", mc::fmt("body %zu corner %zu", b, i));
                sg += a1[b].gsum[i] - b0[b].gsum[i]; gg += g[b][i];
            }
            mc::require(eq(a1[b].g, acc[b].g), "body-account", mc::fmt("body %zu: %.12g expected %.12g", b, a1[b].g, acc[b].g));
            mc::require(eq(a1[b].f.x, acc[b].f.x) && eq(a1[b].f.y, acc[b].f.y), "body-impulse", mc::fmt("body %zu: (%.12g,%.12g) expected (%.12g,%.12g)", b, a1[b].f.x, a1[b].f.y, acc[b].f.x, acc[b].f.y));
            mc::require(eq(a1[b].o, acc[b].o), "body-moment", mc::fmt("body %zu: %.12g expected %.12g", b, a1[b].o, acc[b].o));
            mc::require(mc::close(a1[b].g - b0[b].g, gg - sg, 1e-10), "body-balance", mc::fmt("body %zu", b));
            credit += sg;
        }
        mc::require(mc::close(flow1 - flow0 + weakg, credit, 1e-10), "circulation", mc::fmt("flow %.12g -> %.12g, %.12g removed, bodies gave %.12g", flow0, flow1, weakg, credit));
        if (nabs || exp.size()) mc::nontrivial();
    }
    ~Step() { mc::outcome("absorbed", absorbed); mc::outcome("weak removed", weak); mc::outcome("shed", shed); mc::outcome("kept", kept); mc::outcome("not judged: on a contour", skipped); }
};

static Poly shape(int k) {
    switch (k) {
        case 0: return {{-1, -1}, {-1, 1}, {1, 1}, {1, -1}};                                     // solid square (clockwise)
        case 1: return {{-4, -4}, {4, -4}, {4, 4}, {-4, 4}};                                     // domain
        case 2: return {{-2, 0}, {-1, .7}, {0, 0.1}, {1.3, .9}, {2, 0}, {1, -.8}, {0, -.2}, {-1, -1}};   // solid, not convex
        case 3: return {{3, 3}, {3, 4}, {4, 4}, {4, 3}};
        default: return {{0.5, 0.5}, {0.5, 2}, {2, 2}, {2, 0.5}};                               // overlaps 0
    }
}

int main(int argc, char **argv) {
    mc::init(argc, argv);
    bool T = mc::thorough();
    static Space S; // expensive to make; lists and bodies are made anew for every case
    S.dt = TTime(1, 2);
    S.inf_vx = std::string("1+t"); S.inf_vy = std::string("-0.5");
    std::map<int, std::shared_ptr<TBody>> cache;
    auto reset = [&](std::vector<int> shapes) {
        S.BodyList.clear(); S.VortexList.clear(); S.HeatList.clear(); S.StreakList.clear(); S.StreakSourceList.clear();
        for (int s : shapes) {
            auto &b = cache[s]; if (!b) b = make_poly(shape(s));
            auto c = shape(s); b->alist.clear(); for (auto &p : c) b->alist.emplace_back(p);
            b->holder = TVec3D(); b->dpos = TVec3D(); b->speed_slae = TVec3D(); b->speed_slae_prev = TVec3D(); b->fdt_dead = TVec3D(); b->g_dead = 0; b->heat_condition = hc_t::neglect;
            b->doUpdateSegments(); b->doFillProperties();
            S.BodyList.push_back(b);
        }
        S.EnumerateBodies();
        S.time = TTime(0, 1); S.dt_streak = TTime(); S.inf_marker = TVec(0.25, 0);
    };
    // A: every assignment of surface strengths and slip to a square
    {
        const double gs[] = {0, 1e-11, -1e-11, 1e-10, 0.75, -1.25};
        for (int hi = 0; hi < 36; hi++) {
            if (!mc::want(mc::fmt("surface:%d", hi))) continue;
            mc::S().evaluations--;
            for (int lo = 0; lo < 36; lo++) for (int sl = 0; sl < 16; sl++) for (int mv = 0; mv < 2; mv++) {
                reset({0});
                auto &b = *S.BodyList[0];
                int q[4] = {hi / 6, hi % 6, lo / 6, lo % 6};
                for (int i = 0; i < 4; i++) { b.alist[i].g = gs[q[i]] ? gs[q[i]] + (std::fabs(gs[q[i]]) > 0.1 ? i / 64. : 0) : 0; b.alist[i].slip = sl >> i & 1; }
                b.doFillProperties();
                if (mv) { b.holder.r = TVec(0.2, 0.3); b.speed_slae = TVec3D(1, -0.5, 0.7); }
                Step(S, 1e-10).run(true, false);
                mc::S().evaluations++;
            }
        }
    }
    // B: every list of 7 (thorough 9) vortices each kept, weak or absorbed: removal while walking the lists
    {
        int n = T ? 9 : 7; uint64_t tot = 1; for (int i = 0; i < n; i++) tot *= 3;
        for (uint64_t hi = 0; hi < tot; hi += 81) {
            if (!mc::want(mc::fmt("list:%llu", (unsigned long long)hi))) continue;
            mc::S().evaluations--;
            for (uint64_t m = hi; m < std::min(tot, hi + 81); m++) for (int rm = 0; rm < 2; rm++) for (double eps : {1e-10, 0.3}) {
                reset({0, 3});
                uint64_t k = m;
                for (int i = 0; i < n; i++, k /= 3) {
                    double g = (i % 2 ? -1 : 1) * (1 + i / 32.);
                    TObj o = k % 3 == 0 ? TObj(-3 + 0.1 * i, 2, g) : k % 3 == 1 ? TObj(-2, 3, eps * (i % 2 ? -0.9 : 0.5)) : i % 3 ? TObj(0.3 * i - 0.9 + 0.01, 0.2, g) : TObj(3.4 + i * 0.01, 3.7, g);
                    o.v = TVec(0.01, 0.02);
                    S.VortexList.push_back(o); S.StreakList.push_back(o); S.HeatList.push_back(o);
                }
                Step(S, eps).run(rm, false);
                mc::S().evaluations++;
            }
        }
    }
    // C: a lattice of vortices in every direction against every set of bodies, moving in every way, for two steps
    {
        std::vector<std::vector<int>> sets = {{}, {0}, {1}, {2}, {0, 3}, {3, 0}, {0, 4}, {4, 0}, {1, 0}, {0, 1}, {1, 2, 3}};
        std::vector<TVec3D> mot = {TVec3D(0, 0, 0), TVec3D(1, 0, 0), TVec3D(-0.5, 1.5, 0), TVec3D(0, 0, 1), TVec3D(1, -1, -2), TVec3D(0, 0, 6.3)};
        int N = T ? 15 : 9;
        for (size_t s = 0; s < sets.size(); s++) for (size_t m0 = 0; m0 < mot.size(); m0++) for (size_t m1 = 0; m1 < mot.size(); m1++) for (int off = 0; off < (T ? 9 : 4); off++) for (int stk = 0; stk < 4; stk++) {
            if (!mc::want(mc::fmt("lattice:%zu:%zu:%zu:%d:%d", s, m0, m1, off, stk))) continue;
            reset(sets[s]);
            for (size_t b = 0; b < sets[s].size(); b++) {
                S.BodyList[b]->holder.r = TVec(0.3 * b, -0.2); S.BodyList[b]->dpos.r = TVec(0.1, 0.05 * b);
                S.BodyList[b]->speed_slae = mot[b ? m1 : m0];
                for (size_t i = 0; i < S.BodyList[b]->alist.size(); i++) S.BodyList[b]->alist[i].g = (i % 3 == 2 ? 0 : i % 3 ? 0.3 : -0.2) * (1 + 0.125 * b + i / 64.);
            }
            for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
                double g = ((i + j) % 2 ? 1 : -1) * (1 + (i * N + j) / 256.);
                TVec r(-4.5 + 9.0 * i / (N - 1) + 0.0137 * (1 + off), -4.5 + 9.0 * j / (N - 1) + 0.0291 * (1 + off % 3));
                S.VortexList.emplace_back(r, g); if (off % 2) S.HeatList.emplace_back(r + TVec(0.05, 0), g); S.StreakList.emplace_back(r + TVec(0, 0.05), g);
            }
            S.StreakSourceList = {TObj(0.1, 0.2, 3), TObj(-3, 3.1, 2)};
            S.dt_streak = stk == 0 ? TTime() : stk == 1 ? TTime(1, 2) : stk == 2 ? TTime(1, 1) : TTime(1, 3);
            Step st(S, 1e-10);
            for (int k = 0; k < 3; k++) {
                bool due = stk == 1 || (stk == 2 && k % 2 == 0) || (stk == 3 && (k * 3) % 2 == 0);
                st.run(true, due && stk);
                for (auto &b : S.BodyList) for (size_t i = 0; i < b->alist.size(); i++) b->alist[i].g = -0.5 * b->alist[i].g + 0.01;
                S.finish_step();
                if (k == 1) S.zero_forces();
            }
            mc::sample(mc::S().cur_id);
        }
    }
    return mc::finish();
}
