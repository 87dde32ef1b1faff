// C25: diffusion velocity and wall friction on every small arrangement against a direct sum
#include "space_util.hpp"
#include "TSortedTree.hpp"
#include "MEpsilonFast.hpp"
#include "MDiffusiveFast.hpp"
#include <algorithm>

typedef long double LD;
static const double CUT = 8, TOL = 1e-9;
static uint64_t g_judged, g_ties, g_pairs, g_wallpairs, g_neg, g_clamp1, g_clamp0;

struct Wall { TVec r, dl; double *fric; };

// one family of particles over the cells; wall friction is accumulated into fr
static bool reference(const TSortedTree &t, bool heat, double re, double pr, std::map<const TAtt *, LD> &fr, std::map<const TObj *, std::pair<LD, LD>> &vel) {
    bool tie = false;
    for (auto nd : t.getBottomNodes()) {
        auto rg = heat ? nd->hRange : nd->vRange;
        for (TObj *o = rg.first; o < rg.last; o++) {
            if (!o->g) continue;
            LD s1 = 0, s2x = 0, s2y = 0, s3x = 0, s3y = 0, s0 = 0, eps = 1 / (LD)o->_1_eps;
            for (auto nn : *nd->NearNodes) {
                auto r2 = heat ? nn->hRange : nn->vRange;
                for (TObj *p = r2.first; p < r2.last; p++) {
                    if (!p->g || (p->g > 0) != (o->g > 0)) { if (p->g) g_neg++; continue; }
                    LD dx = (LD)o->r.x - p->r.x, dy = (LD)o->r.y - p->r.y, d = sqrtl(dx * dx + dy * dy);
                    if (d == 0) continue;
                    if (d < 1e-8) tie = true; // as good as the same place
                    if (fabsl(d / eps - CUT) < 1e-9) tie = true;
                    if (d / eps > CUT) continue;
                    LD e = p->g * expl(-d / eps);
                    s1 += e; s2x += dx / d * e; s2y += dy / d * e; g_pairs++;
                }
                for (TObj *w : nn->bllist) {
                    TAtt *a = static_cast<TAtt *>(w);
                    LD dx = (LD)o->r.x - a->r.x, dy = (LD)o->r.y - a->r.y, d = sqrtl(dx * dx + dy * dy);
                    if (d == 0) tie = true;
                    if (fabsl(d / eps - CUT) < 1e-9) tie = true;
                    if (d / eps > CUT) continue;
                    LD e = expl(-d / eps), nx = -(LD)a->dl.y, ny = a->dl.x;
                    s3x += nx * e; s3y += ny * e; g_wallpairs++;
                    s0 += (d / eps + 1) / (d * d) * (dx * nx + dy * ny) * e;
                    if (!heat) fr[a] += (LD)o->g / (eps * eps) * e * sqrtl(nx * nx + ny * ny);
                }
            }
            LD lo = 0.1L * o->g;
            if (fabsl(s1) < fabsl(lo)) { s1 = lo; g_clamp1++; }
            LD vx, vy;
            if (!heat) {
                vx = s2x / (eps * re * s1); vy = s2y / (eps * re * s1);
                if (s0 > M_PIl) { s0 = M_PIl; g_clamp0++; }
                vx += s3x / (eps * eps * re * (2 * M_PIl - s0)); vy += s3y / (eps * eps * re * (2 * M_PIl - s0));
            } else {
                LD d = s1 + s0 * eps * eps;
                if (fabsl(d) < 1e-6) tie = true;
                vx = (s2x / eps + s3x) / d / (pr * re); vy = (s2y / eps + s3y) / d / (pr * re);
            }
            vel[o] = {vx, vy};
        }
    }
    return tie;
}

static Space *S;
static std::vector<std::vector<TVec>> walls;
static std::map<int, std::vector<std::shared_ptr<TBody>>> bodies;

static void setwall(int w) {
    static int cur = -1;
    if (cur == w) return;
    cur = w;
    S->BodyList.clear();
    auto &b = bodies[w];
    if (b.empty() && w) {
        if (w == 1) b = {make_poly({{-1, -0.3}, {-1, -0.1}, {0, -0.1}, {1, -0.1}, {2, -0.1}, {2, -0.3}})};                  // plate below, clockwise
        if (w == 2) { auto c = ngon(12, 2.5, TVec(0.5, 0.5)); b = {make_poly(c)}; }                                            // domain around
        if (w == 3) { auto c = ngon(8, 0.4, TVec(2.2, 0.4)); std::reverse(c.begin(), c.end()); auto d = ngon(5, 0.3, TVec(-1, 0.9)); std::reverse(d.begin(), d.end()); b = {make_poly(c), make_poly(d, true)}; }
        if (w == 4) { auto c = ngon(4, 0.07, TVec(0.53, 0.46)); std::reverse(c.begin(), c.end()); b = {make_poly(c)}; }         // in the middle of the vortices
    }
    int k = 0;
    for (auto &x : b) { S->BodyList.push_back(x); x->holder = TVec3D(0.7 + k, -0.4, 0.2); x->dpos = TVec3D(0.05, 0.1 * k, 0); k++; }
    S->EnumerateBodies();
}

static bool eq(LD a, double b) { return fabsl(a - (LD)b) <= TOL * (1 + fabsl(a)); }

static void one(int wall, const std::vector<TObj> &vort, const std::vector<TObj> &heat, double mn, double mx, bool fresh_eps, bool forces) {
    setwall(wall);
    S->VortexList = vort; S->HeatList = heat;
    stree t(S, 8, mn, mx);
    t.build(true, true, true);
    if (fresh_eps) MEpsilonFast(S, &t).CalcEpsilonFast(false);
    double f0 = 0.25; int k = 0;
    for (auto &b : S->BodyList) for (auto &a : b->alist) { a.fric = f0 + k / 8.; a.Fr = k * 0.5; a.gsum = 0.1 * k; a.g = 0.3; a.hsum = 0.2 - 0.01 * k; a.Cp = a.Nu = 0; k++; }
    for (auto &b : S->BodyList) b->nusselt = 0;
    for (auto &o : S->VortexList) o.v = TVec(0.125, -0.25);
    for (auto &o : S->HeatList) o.v = TVec(-0.125, 0.5);
    std::vector<TObj> v0 = S->VortexList, h0 = S->HeatList;
    std::map<const TAtt *, LD> fr; std::map<const TObj *, std::pair<LD, LD>> vel;
    bool tie = reference(t, false, S->re, S->pr, fr, vel);
    tie |= reference(t, true, S->re, S->pr, fr, vel);
    MDiffusiveFast d(S, &t);
    d.process_vort_list();
    d.process_heat_list();
    t.destroy();
    if (tie) { g_ties++; return; }
    g_judged++;
    auto chk = [&](const char *what, std::vector<TObj> &l, std::vector<TObj> &l0, TVec v) {
        if (!mc::require(l.size() == l0.size(), std::string(what) + "-list", "")) return;
        for (size_t i = 0; i < l.size(); i++) {
            mc::require(!(l[i].r != l0[i].r) && l[i].g == l0[i].g && l[i]._1_eps == l0[i]._1_eps, std::string(what) + "-altered", mc::fmt("%zu", i));
            auto e = vel.find(&l[i]); LD ex = v.x, ey = v.y; if (e != vel.end()) { ex += e->second.first; ey += e->second.second; }
            mc::require(eq(ex, l[i].v.x) && eq(ey, l[i].v.y), std::string(what) + "-velocity", mc::fmt("%zu at (%g,%g) of %g: (%.12g,%.12g) expected (%.12Lg,%.12Lg)", i, l[i].r.x, l[i].r.y, l[i].g, l[i].v.x, l[i].v.y, ex, ey));
        }
    };
    chk("vortex", S->VortexList, v0, TVec(0.125, -0.25));
    chk("heat", S->HeatList, h0, TVec(-0.125, 0.5));
    k = 0;
    for (auto &b : S->BodyList) for (auto &a : b->alist) {
        LD e = fr[&a] + f0 + k / 8.; k++;
        mc::require(eq(e, a.fric), "friction", mc::fmt("segment %d: %.12g expected %.12Lg", k - 1, a.fric, e));
    }
    if (!forces) return;
    S->calc_forces();
    k = 0;
    double nyu = 1 / (M_PI * S->re), dt = S->dt;
    for (auto &b : S->BodyList) {
        LD fx = 0, fy = 0, m = 0, g = 0, nu = 0;
        for (auto &a : b->alist) {
            LD l = sqrtl((LD)a.dl.x * a.dl.x + (LD)a.dl.y * a.dl.y), f = a.fric * nyu / l, x = a.r.x - b->get_axis().x, y = a.r.y - b->get_axis().y;
            fx -= a.dl.x * f; fy -= a.dl.y * f; m -= (x * a.dl.y - y * a.dl.x) * f; g += a.gsum; nu += a.hsum * S->re * S->pr / dt;
            mc::require(eq(k * 0.5 + a.fric * nyu * dt, a.Fr), "friction-profile", mc::fmt("segment %d", k));
            mc::require(eq(g, a.Cp), "pressure-profile", mc::fmt("segment %d", k));
            mc::require(eq(a.hsum * S->re * S->pr / l, a.Nu), "heat-profile", mc::fmt("segment %d", k));
            k++;
        }
        mc::require(eq(fx, b->friction.r.x) && eq(fy, b->friction.r.y), "friction-force", mc::fmt("(%g,%g) expected (%Lg,%Lg)", b->friction.r.x, b->friction.r.y, fx, fy));
        mc::require(eq(m, b->friction.o), "friction-moment", mc::fmt("%g expected %Lg", b->friction.o, m));
        mc::require(eq(nu, b->nusselt), "nusselt", "");
    }
    TVec3D fp[4]; k = 0; for (auto &b : S->BodyList) fp[k++] = b->friction;
    S->zero_forces();
    k = 0;
    for (auto &b : S->BodyList) {
        bool z = b->friction.iszero() && b->force_hydro.iszero() && b->force_holder.iszero() && b->fdt_dead.iszero() && !b->g_dead && !b->nusselt;
        for (auto &a : b->alist) z = z && !a.fric && !a.gsum && !a.hsum;
        mc::require(z, "zero-forces", "");
        mc::require(b->friction_prev.r.x == fp[k].r.x && b->friction_prev.r.y == fp[k].r.y && b->friction_prev.o == fp[k].o, "friction-kept", ""); k++;
    }
}

int main(int argc, char **argv) {
    mc::init(argc, argv);
    bool T = mc::thorough();
    static Space SS; S = &SS;
    S->re = 140; S->pr = 0.7; S->dt = TTime(1, 20);
    // A: every assignment of (none, +, -) to the 9 points of a slightly irregular lattice
    {
        int tot = 19683;
        for (int w = 0; w < 5; w++) for (int sc = 0; sc < (T ? 4 : 2); sc++) for (int hi = 0; hi < tot; hi += 243) {
            if (!mc::want(mc::fmt("points:%d:%d:%d", w, sc, hi))) continue;
            mc::S().evaluations--;
            double step[] = {0.5, 0.06, 0.2, 1.3};
            for (int m = hi; m < hi + 243; m++) {
                std::vector<TObj> v, h;
                for (int i = 0, k = m; i < 9; i++, k /= 3) {
                    double g = (k % 3 == 1 ? 1 : -1) * (0.5 + 0.25 * (i % 4));
                    TVec r(step[sc] * (i % 3) + 0.013 * ((i * 5) % 7) + (sc == 1 ? 0.4 : 0), step[sc] * (i / 3) + 0.017 * ((i * 3) % 5) + (sc == 1 ? 0.3 : 0));
                    if (k % 3) v.emplace_back(r, g);
                    if (k % 3 && (m / 9) % 4 == 1) h.emplace_back(r + TVec(0.01, 0.02), g);
                    if (k % 3 == 0 && i % 4 == 3) v.emplace_back(r, 0.); // no strength
                }
                one(w, v, h, w ? 0.5 : 0, 1e300, true, m % 7 == 0);
                mc::S().evaluations++;
                if (v.size() > 1) mc::nontrivial();
            }
        }
    }
    // B: core sizes of every ratio to the distances, for a pair (same place, same and opposite sign) next to every wall
    for (int w = 0; w < 5; w++) for (int p = 0; p < 12; p++) for (int ga = 0; ga < 6; ga++) {
        if (!mc::want(mc::fmt("pair:%d:%d:%d", w, p, ga))) continue;
        mc::S().evaluations--;
        const double G[] = {1, -1, 0, 1e-12, -3, 100};
        for (int gb = 0; gb < 6; gb++) for (int e = 0; e < 14; e++) for (int e2 = 0; e2 < 14; e2 += 3) {
            double a = p * 0.7, d = p % 3 == 0 ? 0 : p % 3 == 1 ? 0.1 : 0.9;
            std::vector<TObj> v = {TObj(0.41, 0.37, G[ga]), TObj(0.41 + d * cos(a), 0.37 + d * sin(a), G[gb])};
            v[0]._1_eps = pow(2, e - 4) * 1.03; v[1]._1_eps = pow(2, e2 - 4) * 0.97;
            std::vector<TObj> h = v; std::swap(h[0]._1_eps, h[1]._1_eps);
            one(w, v, h, 0.3, 1e300, false, true);
            mc::S().evaluations++; mc::nontrivial();
        }
    }
    // C: many cells: every pattern of strengths on a row of clusters, several ways of cutting into cells
    {
        int bits = T ? 9 : 6;
        for (int w = 0; w < 5; w++) for (int lay = 0; lay < 6; lay++) for (int m = 0; m < (1 << bits); m++) {
            if (!mc::want(mc::fmt("cells:%d:%d:%d", w, lay, m))) continue;
            std::vector<TObj> v, h;
            for (int c = 0; c < bits; c++) for (int i = 0; i < 14; i++) {
                double x = lay % 3 == 0 ? c * 1.1 : lay % 3 == 1 ? (c % 3) * 0.8 : c * 0.35, y = lay % 3 == 1 ? (c / 3) * 0.9 : 0.2 * (c % 2);
                TVec r(x + 0.11 * (i % 5) + 0.007 * ((i * i + c) % 11), y + 0.13 * (i / 5) + 0.005 * ((i * 7 + c) % 13));
                double g = ((m >> c & 1) != (i % 4 == 3) ? 1 : -1) * (1 + i / 16.);
                v.emplace_back(r, g); if (i % 3 == 0) h.emplace_back(r + TVec(0.03, -0.02), g);
            }
            one(w, v, h, lay < 3 ? 0.1 : 0.01, lay < 3 ? 100 : 0.7, true, true);
            mc::nontrivial();
            mc::sample(mc::S().cur_id);
        }
    }
    mc::outcome("compared", g_judged); mc::outcome("not judged: on the cut-off or coinciding", g_ties);
    mc::outcome("pairs of one sign", g_pairs); mc::outcome("pairs of opposite signs", g_neg); mc::outcome("pairs with a wall", g_wallpairs);
    mc::outcome("S1 restricted", g_clamp1); mc::outcome("S0 restricted", g_clamp0);
    return mc::finish();
}
