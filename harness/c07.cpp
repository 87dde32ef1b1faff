// C07: every small arrangement of vortices -> merging conserves, core sizes are those of the definition
#include "space_util.hpp"
#include "TSortedTree.hpp"
#include "MEpsilonFast.hpp"
#include <algorithm>

struct P { TVec r; double g; int id; };
struct R { std::vector<P> v; std::vector<double> eps; };

static uint64_t g_merges, g_chain;

// second nearest (or the only) neighbour, among those for which near() holds
template <class F> static double second(const std::vector<P> &v, size_t i, F near) {
    double a = INFINITY, b = INFINITY;
    for (size_t j = 0; j < v.size(); j++) if (j != i && v[j].g && near(j)) {
        double d = (v[i].r - v[j].r).abs();
        if (d < a) { b = a; a = d; } else if (d < b) b = d;
    }
    return std::isfinite(b) ? b : std::isfinite(a) ? a : 0;
}

// the method as documented, applied in a given order of vortices (or heat particles, which do not mind signs);
// eps: what each saw as its second nearest when it was its turn
static void reference(std::vector<P> &v, const std::vector<int> &order, double crit2, bool heat, std::vector<double> &eps) {
    eps.assign(v.size(), 0);
    for (int i : order) {
        if (!v[i].g) continue;
        eps[i] = second(v, i, [](size_t) { return true; });
        int n1 = -1, n2 = -1; double d1 = INFINITY, d2 = INFINITY;
        for (size_t j = 0; j < v.size(); j++) if ((int)j != i && v[j].g) {
            double d = (v[i].r - v[j].r).abs2();
            if (d < d1) { d2 = d1; n2 = n1; d1 = d; n1 = j; } else if (d < d2) { d2 = d; n2 = j; }
        }
        if (n2 < 0) continue;
        bool lonely = !heat && (v[n1].g > 0) == (v[n2].g > 0) && (v[n1].g > 0) != (v[i].g > 0);
        if (!(d1 < crit2 || lonely)) continue;
        P &a = v[i], &b = v[n1];
        if ((a.g > 0) == (b.g > 0)) a.r = (a.r * a.g + b.r * b.g) / (a.g + b.g);
        else if (std::fabs(a.g) < std::fabs(b.g)) a.r = b.r;
        a.g += b.g; b.g = 0;
        eps[i] = second(v, i, [](size_t) { return true; });
    }
}

// all positions a group may end at: any order of pairwise merges
static bool reachable(std::vector<P> grp, TVec r, double tol) {
    if (grp.size() == 1) return mc::close(grp[0].r.x, r.x, tol) && mc::close(grp[0].r.y, r.y, tol);
    for (size_t i = 0; i < grp.size(); i++) for (size_t j = i + 1; j < grp.size(); j++) {
        std::vector<P> n;
        for (size_t k = 0; k < grp.size(); k++) if (k != i && k != j) n.push_back(grp[k]);
        P a = grp[i], b = grp[j], c = a;
        if ((a.g > 0) == (b.g > 0)) c.r = (a.r * a.g + b.r * b.g) / (a.g + b.g);
        else c.r = std::fabs(a.g) < std::fabs(b.g) ? b.r : a.r;
        c.g = a.g + b.g;
        n.push_back(c);
        if (reachable(n, r, tol)) return true;
    }
    return false;
}

// is there an order in which the method gives this list
static void by_rule(Space &S, const std::vector<TObj> &list, const std::vector<P> &v, const std::vector<int> &order, const snode *node, double dl, bool heat, size_t dead) {
    size_t n = v.size();
    double crit2 = 0, best = INFINITY;
    TVec c(node->x, node->y);
    for (auto &b : S.BodyList) for (auto &a : b->alist) { double d = (c - a.r).abs(); if (d < best) { best = d; crit2 = 0.16 * a.dl.abs2() * (1 + d); } }
    std::vector<int> perm = order, first = order; std::sort(perm.begin(), perm.end());
    bool ok = false, tried = false, sizes = false; // most probably the order of the list
    do {
        auto w = v; std::vector<double> eps;
        reference(w, tried ? perm : first, crit2, heat, eps);
        ok = true;
        for (size_t i = 0; i < n && ok; i++) ok = std::fabs(w[i].g - list[i].g) < 1e-12 && (!w[i].g || (mc::close(w[i].r.x, list[i].r.x, 1e-12) && mc::close(w[i].r.y, list[i].r.y, 1e-12)));
        if (!ok) continue;
        // sizes as seen in its turn or in the end
        for (int final = 0; final < 2 && !sizes; final++) {
            sizes = true;
            for (size_t i = 0; i < n && sizes; i++) if (w[i].g) {
                double x = std::max(dl / 3, final ? second(w, i, [](size_t) { return true; }) : eps[i]);
                sizes = x > 0 ? mc::close(1 / list[i]._1_eps / x, 1, 1e-9) : 1 / list[i]._1_eps < 1e-6;
            }
        }
    } while (!(ok && sizes) && (tried ? std::next_permutation(perm.begin(), perm.end()) : (tried = true)));
    mc::require(ok || sizes, heat ? "heat-merging-rule" : "merging-rule", mc::fmt("no order gives %zu survivors like these", n - dead));
    if (ok) mc::require(sizes, heat ? "heat-core-merged" : "core-merged", "core sizes are not the distances to the second nearest");
    mc::outcome(dead ? "rule: merged" : "rule: none merged");
}

// heat particles: the same, without regard to signs
static void heat(const std::vector<P> &in, const std::vector<TVec> &wall, double dl, bool merge, double mn, double mx) {
    Space S;
    for (auto &p : in) S.HeatList.emplace_back(p.r, p.g);
    S.VortexList.emplace_back(0.2, 0.1, 1); S.VortexList.emplace_back(0.9, 0.1, -1); S.VortexList.emplace_back(1.7, 0.1, 0.5); // no concern of heat
    if (wall.size()) S.BodyList.push_back(make_poly(wall));
    stree t(&S, 8, mn, mx);
    t.build(true, true, true);
    auto &bn = t.getBottomNodes();
    std::vector<P> v;
    for (auto &o : S.HeatList) {
        int id = -1;
        for (auto &p : in) if (p.g == o.g && p.r.x == o.r.x && p.r.y == o.r.y) id = p.id;
        v.push_back({o.r, o.g, id});
    }
    std::vector<int> cell(v.size(), -1), order;
    std::vector<std::set<int>> nb(bn.size());
    for (size_t c = 0; c < bn.size(); c++) {
        for (TObj *o = bn[c]->hRange.first; o < bn[c]->hRange.last; o++) { cell[o - S.HeatList.data()] = c; order.push_back(o - S.HeatList.data()); }
        for (auto x : *bn[c]->NearNodes) nb[c].insert(std::find(bn.begin(), bn.end(), x) - bn.begin());
    }
    MEpsilonFast e(&S, &t);
    e.CalcEpsilonFast(merge);
    mc::S().evaluations++;
    double s0 = 0, s1 = 0; size_t dead = 0;
    for (size_t i = 0; i < v.size(); i++) { s0 += v[i].g; s1 += S.HeatList[i].g; dead += !S.HeatList[i].g; }
    mc::require(mc::close(s0, s1, 1e-12), "heat-total", mc::fmt("%.17g -> %.17g", s0, s1));
    for (size_t i = 0; i < v.size(); i++) {
        TObj &o = S.HeatList[i];
        if (!merge) mc::require(o.g == v[i].g && !(o.r != v[i].r), "heat-altered", mc::fmt("particle %zu", i));
        if (!o.g) continue;
        double ep = 1 / o._1_eps;
        mc::require(std::isfinite(o._1_eps) && ep > 0 && std::isfinite(ep * ep) && std::isfinite(o._1_eps * o._1_eps), "heat-core-size", mc::fmt("%g", ep));
        if (!merge) {
            double x = std::max(dl / 3, second(v, i, [&](size_t j) { return nb[cell[i]].count(cell[j]) > 0; }));
            mc::require(x > 0 ? mc::close(ep / x, 1, 1e-9) : ep < 1e-6, "heat-core", mc::fmt("particle %zu: %.12g expected %.12g", i, ep, x));
        }
    }
    if (merge && bn.size() == 1) by_rule(S, S.HeatList, v, order, bn[0], dl, true, dead);
    if (dead || !merge) mc::nontrivial();
    mc::outcome(dead ? "heat merged" : "heat not merged");
}

// a wall of segments of different lengths: the nearest to the cell gives the least core and the criterion
static void uneven(const std::vector<TVec> &wall, TVec at, bool merge) {
    Space S;
    const double d[] = {0, 0.004, 0.011, 0.03, 0.0305}, g[] = {1, 0.5, -0.75, 1.25, 0.3};
    for (int i = 0; i < 5; i++) S.VortexList.emplace_back(at + TVec(d[i], 0.3 * d[(i + 2) % 5]), g[i]);
    S.BodyList.push_back(make_poly(wall));
    stree t(&S, 8, 100, 1000);
    t.build(true, true, true);
    auto &bn = t.getBottomNodes();
    if (bn.size() != 1) return;
    std::vector<P> v; std::vector<int> order;
    for (auto &o : S.VortexList) { order.push_back(v.size()); v.push_back({o.r, o.g, (int)v.size()}); }
    MEpsilonFast e(&S, &t);
    e.CalcEpsilonFast(merge);
    mc::S().evaluations++;
    TVec c(bn[0]->x, bn[0]->y);
    double dl = 0, best = INFINITY, next = INFINITY; size_t dead = 0;
    for (auto &a : S.BodyList[0]->alist) { double q = (c - a.r).abs(); if (q < best) { next = best; best = q; dl = a.dl.abs(); } else next = std::min(next, q); }
    if (next - best < 1e-9) { mc::outcome("equally near"); return; }
    for (auto &o : S.VortexList) dead += !o.g;
    if (merge) by_rule(S, S.VortexList, v, order, bn[0], dl, false, dead);
    else for (size_t i = 0; i < 5; i++) {
        double x = std::max(dl / 3, second(v, i, [](size_t) { return true; })), ep = 1 / S.VortexList[i]._1_eps;
        mc::require(mc::close(ep / x, 1, 1e-9), "core-uneven-wall", mc::fmt("vortex %zu: %.12g expected %.12g", i, ep, x));
    }
    mc::nontrivial();
}

// nseg: the wall; dl is the same for all its segments (or 0: no wall)
static void one(const std::vector<P> &in, const std::vector<TVec> &wall, double dl, bool merge, double mn, double mx, bool exact, bool decode = true) {
    static uint64_t nth; bool full = nth++ % 64 == 0; // the dump of everything is slow
    static Space S; // making one is slow; its lists are made anew, the wall is checked not to change
    static std::vector<TVec> wall0;
    S.VortexList.clear(); S.HeatList.clear(); S.StreakList.clear(); S.StreakSourceList.clear(); S.SourceList.clear();
    for (auto &p : in) S.VortexList.emplace_back(p.r, p.g);
    for (int i = 0; i < 3; i++) { S.StreakList.emplace_back(0.1 * i, 0.2, 0); S.StreakSourceList.emplace_back(0.1 * i, 0.3, 1); S.SourceList.emplace_back(0.1 * i, 0.4, 1); S.HeatList.emplace_back(30 + 9 * i, 0.1 * i * i, 1 + i); }
    bool same = wall.size() == wall0.size();
    for (size_t i = 0; i < wall.size() && same; i++) same = !(wall[i] != wall0[i]);
    if (!same) { S.BodyList.clear(); wall0 = wall; if (wall.size()) S.BodyList.push_back(make_poly(wall)); }
    stree t(&S, 8, mn, mx);
    t.build(true, true, true);
    // the list has been reordered: who is who
    std::vector<P> v;
    for (auto &o : S.VortexList) {
        int id = -1;
        for (auto &p : in) if (p.g == o.g && p.r.x == o.r.x && p.r.y == o.r.y) id = p.id;
        v.push_back({o.r, o.g, id});
    }
    Dump before; if (full) before = dump_space(S);
    auto lists = [&]() { std::vector<double> r; for (auto l : {&S.StreakList, &S.StreakSourceList, &S.SourceList}) for (auto &o : *l) { r.push_back(o.r.x); r.push_back(o.r.y); r.push_back(o.g); }
        for (auto &b : S.BodyList) for (auto &a : b->alist) for (double x : {a.corner.x, a.corner.y, a.g, a.gsum, a.fric, a.r.x, a.r.y}) r.push_back(x); return r; };
    auto l0 = lists();
    MEpsilonFast e(&S, &t);
    e.CalcEpsilonFast(merge);
    mc::S().evaluations++;
    auto &bn = t.getBottomNodes();
    // near[i][j]
    size_t n = v.size();
    std::vector<int> cell(n, -1), order;
    std::vector<std::set<int>> nb(bn.size());
    for (size_t c = 0; c < bn.size(); c++) {
        for (TObj *o = bn[c]->vRange.first; o < bn[c]->vRange.last; o++) { cell[o - S.VortexList.data()] = c; order.push_back(o - S.VortexList.data()); }
        for (auto x : *bn[c]->NearNodes) nb[c].insert(std::find(bn.begin(), bn.end(), x) - bn.begin());
    }
    auto near = [&](size_t i, size_t j) { return nb[cell[i]].count(cell[j]) > 0; };
    // others are never touched
    mc::require(l0 == lists(), "others-touched", "");
    Dump after; if (full) after = dump_space(S);
    for (size_t i = 0; i < before.size(); i++) if (before[i].first.substr(0, 4) != "vort" && !(merge && before[i].first == "heat"))
        mc::require(before[i].second == after[i].second, "others-touched", before[i].first);
    if (!mc::require(S.VortexList.size() == n, "list-size", "")) return;
    // core sizes
    for (size_t i = 0; i < n; i++) {
        TObj &o = S.VortexList[i];
        if (!o.g) continue;
        double ep = 1 / o._1_eps;
        if (!mc::require(std::isfinite(ep) && ep > 0 && std::isfinite(o._1_eps) && ep * ep > 0 && std::isfinite(o._1_eps * o._1_eps), "core-size", mc::fmt("%g", ep))) continue;
        if (dl) mc::require(ep >= dl / 3 * (1 - 1e-12), "core-below-wall", mc::fmt("%g < %g", ep, dl / 3));
        if (!merge) {
            double s = second(v, i, [&](size_t j) { return near(i, j); });
            double x = std::max(s, dl / 3);
            if (x > 0) mc::require(mc::close(ep / x, 1, 1e-9), "core-value", mc::fmt("vortex %d: %.12g expected %.12g", v[i].id, ep, x));
            else mc::require(ep < 1e-6, "core-alone", mc::fmt("%g", ep));
        }
    }
    if (!merge) {
        for (size_t i = 0; i < n; i++) mc::require(S.VortexList[i].g == v[i].g && !(S.VortexList[i].r != v[i].r), "inviscid-altered", mc::fmt("vortex %d", v[i].id));
        mc::require(e.Merged() == 0, "inviscid-merged", "");
        if (n > 1) mc::nontrivial();
        mc::outcome("inviscid");
        return;
    }
    // decode which vortices each survivor stands for
    std::vector<int> used(n, 0); size_t dead = 0;
    double sum0 = 0, sum1 = 0;
    for (size_t i = 0; i < n; i++) { sum0 += v[i].g; sum1 += S.VortexList[i].g; if (!S.VortexList[i].g) dead++; }
    mc::require(mc::close(sum0, sum1, 1e-12), "circulation", mc::fmt("%.17g -> %.17g", sum0, sum1));
    mc::require(e.Merged() >= (int)dead, "merged-count", mc::fmt("%d for %zu", e.Merged(), dead));
    g_merges += dead;
    for (size_t i = 0; i < n && decode; i++) {
        TObj &o = S.VortexList[i];
        if (!o.g) continue;
        int found = -1;
        if (o.g == v[i].g) found = 1 << i; // most are what they were
        else for (int m = 1; m < (1 << n) && found < 0; m++) if (m >> i & 1) {
            double s = 0; for (size_t k = 0; k < n; k++) if (m >> k & 1) s += v[k].g;
            if (std::fabs(s - o.g) < 1e-9) found = m;
        }
        if (!mc::require(found > 0, "foreign-circulation", mc::fmt("%.12g is not a sum of the vortices", o.g))) return;
        std::vector<P> grp;
        for (size_t k = 0; k < n; k++) if (found >> k & 1) { used[k]++; grp.push_back(v[k]); }
        if (grp.size() > 2) g_chain++;
        mc::require(reachable(grp, o.r, 1e-9), "merged-position", mc::fmt("group of %zu at (%.9g,%.9g)", grp.size(), o.r.x, o.r.y));
    }
    for (size_t i = 0; i < n && decode; i++) mc::require(used[i] == 1, "merged-twice-or-lost", mc::fmt("vortex %d is in %d survivors", v[i].id, used[i]));
    if (decode) mc::require(e.Merged() == (int)dead, "merged-count", mc::fmt("%d for %zu", e.Merged(), dead));
    if (exact && bn.size() == 1) by_rule(S, S.VortexList, v, order, bn[0], dl, false, dead);
    if (dead) mc::nontrivial();
    mc::outcome(dead ? "merged" : "not merged");
}

int main(int argc, char **argv) {
    mc::init(argc, argv);
    bool T = mc::thorough();
    const double jx[] = {0, .013, -.021, .034, -.008, .027, -.016, .005, .041, -.037, .019, .029}, jy[] = {0, -.017, .011, .023, .038, -.029, .007, -.014, .031, .003, -.026, .035};
    // A: every assignment of {nothing,+,-} to a jittered 3x3 (thorough 4x3) lattice
    {
        int W = T ? 4 : 3, H = 3, n = W * H; uint64_t tot = 1; for (int i = 0; i < n; i++) tot *= 3;
        const uint64_t B = 729;
        struct C { int wall; double sp; } cs[] = {{0, 1}, {1, 0.45}, {1, 1.5}, {2, 0.3}, {2, 2}};
        for (int ci = 0; ci < 5; ci++) for (int split = 0; split < 2; split++) for (int merge = 0; merge < 2; merge++)
            for (uint64_t b = 0; b < tot; b += B) {
                if (!mc::want(mc::fmt("lattice:%d:%d:%d:%llu", ci, split, merge, (unsigned long long)b))) continue;
                mc::S().evaluations--;
                double sp = cs[ci].sp, dl = 0;
                std::vector<TVec> wall;
                if (cs[ci].wall == 1) { wall = ngon(12, 1.5, TVec(-2.5, 0.7)); dl = (wall[1] - wall[0]).abs(); }
                if (cs[ci].wall == 2) { wall = ngon(40, 4, TVec(15, -20)); dl = (wall[1] - wall[0]).abs(); }
                for (uint64_t m = b; m < std::min(b + B, tot); m++) {
                    std::vector<P> v; uint64_t k = m;
                    for (int i = 0; i < n; i++, k /= 3) if (k % 3) v.push_back({TVec((i % W + jx[i]) * sp, (i / W + jy[i]) * sp), (k % 3 == 1 ? 1 : -1) * (1 + std::ldexp(1.0, i) / 8192), i});
                    if (split) one(v, wall, dl, merge, 0.01, sp * 1.2, false);
                    else one(v, wall, dl, merge, 100, 1000, v.size() <= 5);
                }
            }
    }
    // B: strengths of every relation: pairs and triples on a line with all magnitudes from a set
    for (int g0 = 0; g0 < 8; g0++) for (int g1 = 0; g1 < 8; g1++) for (int g2 = 0; g2 < 8; g2++) for (int g3 = 0; g3 < 8; g3++) {
        if (!mc::want(mc::fmt("strength:%d%d%d%d", g0, g1, g2, g3))) continue;
        mc::S().evaluations--;
        const double gs[] = {1e-6, 0.5, 1, 40, -1e-6, -0.5, -1, -40};
        auto wall = ngon(8, 1.1, TVec(0.5, -2)); double dl = (wall[1] - wall[0]).abs();
        for (double d : {0.01, 0.2, 0.9, 3.0}) for (double e : {0.05, 0.5, 2.5}) for (int w = 0; w < 2; w++) {
            std::vector<P> v = {{TVec(0, 0), gs[g0] * 1.0001, 0}, {TVec(d, 0.001), gs[g1] * 1.0003, 1}, {TVec(d + e, -0.003), gs[g2] * 1.0009, 2}, {TVec(d - 0.3, 0.7 * e), gs[g3] * 1.0027, 3}};
            one(v, w ? wall : std::vector<TVec>(), w ? dl : 0, true, 100, 1000, true, false);
            one(v, w ? wall : std::vector<TVec>(), w ? dl : 0, false, 100, 1000, true);
        }
    }
    // C: coincident and few vortices
    for (int a = 0; a <= 4; a++) for (int b = 0; b <= 4; b++) for (int z = 0; z < 2; z++) for (int sg = 0; sg < 4; sg++) for (int w = 0; w < 2; w++) for (int merge = 0; merge < 2; merge++) {
        if (!mc::want(mc::fmt("heap:%d:%d:%d:%d:%d:%d", a, b, z, sg, w, merge))) continue;
        mc::S().evaluations--;
        auto wall = ngon(8, 1.1, TVec(0.5, -2)); double dl = (wall[1] - wall[0]).abs();
        std::vector<P> v; int id = 0;
        for (int i = 0; i < a; i++, id++) v.push_back({TVec(1, 1), (sg & 1 && i % 2 ? -1 : 1) * (1 + std::ldexp(1.0, id) / 1024), id});
        for (int i = 0; i < b; i++, id++) v.push_back({TVec(z ? 9 : 1.05, 1), (sg & 2 ? -1 : 1) * (1 + std::ldexp(1.0, id) / 1024), id});
        one(v, w ? wall : std::vector<TVec>(), w ? dl : 0, merge, 100, 1000, false);
        one(v, w ? wall : std::vector<TVec>(), w ? dl : 0, merge, 0.01, 2, false);
    }
    // D: heat: every choice of strengths for up to five particles at jittered places
    {
        const double gs[] = {0, 1, -0.5, 1e-3};
        for (int sp = 0; sp < 3; sp++) for (int w = 0; w < 2; w++) for (int many = 0; many < 2; many++) for (int merge = 0; merge < 2; merge++) for (int m = 0; m < 1024; m += 16) {
            if (!mc::want(mc::fmt("heat:%d:%d:%d:%d:%d", sp, w, many, merge, m))) continue;
            mc::S().evaluations--;
            auto wall = ngon(8, 1.1, TVec(0.5, -2)); double dl = (wall[1] - wall[0]).abs(), h = sp == 0 ? 0.1 : sp == 1 ? 0.4 : 3;
            for (int q = m; q < m + 16; q++) {
                std::vector<P> v;
                for (int i = 0, k = q; i < 5; i++, k /= 4) if (gs[k % 4]) v.push_back({TVec((i % 3 + jx[i]) * h, (i / 3 + jy[i]) * h * 0.8), gs[k % 4] * (1 + std::ldexp(1.0, i) / 8192), i});
                heat(v, w ? wall : std::vector<TVec>(), w ? dl : 0, merge, many ? 0.01 : 100, many ? h * 1.2 : 1000);
            }
        }
        for (int a = 0; a <= 4; a++) for (int b = 0; b <= 3; b++) for (int merge = 0; merge < 2; merge++) for (int w = 0; w < 2; w++) { // coincident ones
            if (!mc::want(mc::fmt("heat-heap:%d:%d:%d:%d", a, b, merge, w))) continue;
            mc::S().evaluations--;
            auto wall = ngon(8, 1.1, TVec(0.5, -2));
            std::vector<P> v;
            for (int i = 0; i < a; i++) v.push_back({TVec(1, 1), 1 + std::ldexp(1.0, i) / 1024, i});
            for (int i = 0; i < b; i++) v.push_back({TVec(1.5, 1), 2 + std::ldexp(1.0, i) / 1024, a + i});
            heat(v, w ? wall : std::vector<TVec>(), w ? (wall[1] - wall[0]).abs() : 0, merge, 100, 1000);
        }
    }
    // E: walls of segments of different lengths, at all places around
    for (int k = 0; k < 12; k++) for (int merge = 0; merge < 2; merge++) {
        if (!mc::want(mc::fmt("uneven:%d:%d", k, merge))) continue;
        mc::S().evaluations--;
        for (int sc = 0; sc < (T ? 40 : 10); sc++) for (int dist = 0; dist < 4; dist++) {
            std::vector<TVec> wall;
            for (int i = 0; i < 14; i++) { double a = 2 * M_PI * (i + 0.3 * std::sin(7 * i + sc)) / 14; wall.push_back(TVec(0.7 * std::cos(a), 0.5 * std::sin(a)) * (0.05 + 0.1 * sc)); }
            double a = 2 * M_PI * (k + 0.37) / 12, r = (0.05 + 0.1 * sc) * (0.8 + 0.5 * dist * dist);
            uneven(wall, TVec(r * std::cos(a), r * std::sin(a)), merge);
        }
    }
    mc::outcome("vortices merged away", g_merges); mc::outcome("chains of merges", g_chain);
    return mc::finish();
}
