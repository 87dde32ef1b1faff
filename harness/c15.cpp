// C15: every cell of every small grid over every small flow against the direct sums; statistics and storage of all small fields
#include "space_util.hpp"
#include "MConvectiveFast.hpp"
#include "MDiffusiveFast.hpp"
#include "MEpsilonFast.hpp"
#include "MFlowmove.hpp"
#include "XField.hpp"
#include "XVelocity.hpp"
#include "XVorticity.hpp"
#include "XStreamfunction.hpp"
#include "XPressure.hpp"
#include "XIsoline.hpp"
#include <sstream>
#include <algorithm>
#include <stdexcept>

typedef long double LD;
static const double PI = 3.14159265358979323846;
struct V2 { LD x = 0, y = 0, s = 0; }; // s: sum of the absolute values of the terms

// ------------------------------------------------------------------ the flows
struct Flow {
    int bodies = 0, motion = 0, vort = 0, sink = 0, inf = 0;
    std::string id() const { return mc::fmt("b%d-m%d-v%d-s%d-i%d", bodies, motion, vort, sink, inf); }
};
static const int NV = 9;
static void build(Space &S, const Flow &f) {
    S.re = 50; S.time = TTime(3, 4); S.dt = TTime(1, 8);
    if (f.inf) { S.inf_vx = std::string("1"); S.inf_vy = std::string(f.inf == 1 ? "0.5" : "t-1"); }
    int nb = f.bodies == 4 ? 1 : f.bodies == 5 ? 2 : f.bodies;
    for (int b = 0; b < nb && f.bodies != 3; b++) {
        auto p = ngon(6 + 3 * b, b ? 0.3 : 0.45, TVec(1.6 * b, 0.9 * b));
        if (f.bodies == 4) p = ngon(12, 2.2, TVec(0.3, 0.2));       // a vessel: the fluid is inside
        else std::reverse(p.begin(), p.end());
        auto B = std::make_shared<TBody>();
        for (size_t i = 0; i < p.size(); i++) B->alist.emplace_back(p[i], f.bodies == 5 && i % 2);
        B->holder = TVec3D(0.1 + 1.5 * b, -0.05, 0); B->dpos = TVec3D(0.02, 0.03, 0);
        B->doUpdateSegments(); B->doFillProperties();
        B->speed_slae = TVec3D(f.motion & 1 ? 0.7 - b : 0, f.motion & 1 ? -0.4 : 0, f.motion & 2 ? 1.3 : 0);
        for (auto &a : B->alist) { size_t i = &a - &B->alist[0]; a.g = i == 2 ? 0 : 0.02 * i - 0.05; a.gsum = 0.01 * i; a.fric = 0; }
        S.BodyList.push_back(B);
    }
    auto V = [&](double x, double y, double g) { S.VortexList.emplace_back(x, y, g); };
    double sg = f.bodies ? 1.4 : 1;   // keep the clusters outside the bodies
    switch (f.vort) {
    case 1: V(sg * 0.75, 0.5, 1); break;
    case 2: V(-1.25, 0.3, 1); V(sg, 0.9, -0.5); break;
    case 3: V(-1.3, 0.3, 1); V(-1.2, 0.35, 0.5); V(sg, 1.1, -0.7); V(sg * 1.02, 1.1, -0.7); break;
    case 4: // three groups with gaps: the one in the middle ends beside the middle of the whole
        for (int i = 0; i < 18; i++) { V(-8 + 0.03 * (i % 4), 0.04 * (i / 4), i % 3 ? 0.3 : -0.2); V(0.8 + 0.03 * (i % 4), 0.7 + 0.04 * (i / 4), i % 5 ? 0.3 : -0.2); V(8.5 + 0.03 * (i % 3), 0.04 * (i / 3), 0.1); } break;
    case 5: for (int i = 0; i < 40; i++) V(-1.9 + 0.1 * i, 1.3 + 0.02 * ((i * 7) % 5), i % 2 ? 0.1 : -0.15); break;
    case 6: V(1.5, 0.8, 0.4); V(1.5, 0.8, 0.4); V(1.5, -0.8, 0); V(-1.5, -0.7, -1); break; // coincident and empty elements
    case 8: // the same with wide elements
        for (int i = 0; i < 18; i++) { V(-8 + 0.03 * (i % 4), 0.04 * (i / 4), i % 3 ? 0.3 : -0.2); V(0.3 + 0.2 * (i % 6), 0.7 + 0.2 * (i / 6), i % 5 ? 0.3 : -0.2); V(8.3 + 0.03 * (i % 3), 0.04 * (i / 3), 0.1); } break;
    case 7: for (int i = 0; i < 20; i++) { V(0.5 + 0.05 * (i % 5), -1.8 + 0.05 * (i / 5), 0.2); V(0.55 + 0.05 * (i % 5), 7 + 0.05 * (i / 5), -0.3); V(0.5, -9 + 0.04 * i, 0.1); } break;
    }
    if (f.sink & 1) S.SourceList.emplace_back(-1, 0.5, 2);       // in a corner of a cell
    if (f.sink & 2) { S.SourceList.emplace_back(1.3, -0.9, -0.7); S.SourceList.emplace_back(1.3005, -0.9005, 0.3); S.SourceList.emplace_back(40, 3, 0.5); }
    S.StreakList.emplace_back(0.7, 0.7, 1); S.StreakSourceList.emplace_back(0, 3, 1);
}

// ------------------------------------------------------------------ the cells of the tree, found by distance
static double dist2(const snode *n, TVec p) {
    double dx = std::max(0., std::fabs(p.x - n->x) - n->w / 2), dy = std::max(0., std::fabs(p.y - n->y) - n->h / 2);
    return dx * dx + dy * dy;
}
// all nearest leaves (more than one only at equal distances)
static std::vector<const snode *> nearest(const stree &t, TVec p) {
    double d = INFINITY;
    auto &bn = t.getBottomNodes();
    for (auto b : bn) d = std::min(d, dist2(b, p));
    std::vector<const snode *> r;
    for (auto b : bn) if (!(dist2(b, p) > d * (1 + 1e-9) + 1e-20)) r.push_back(b);
    return r;
}
static void leaves(const snode *n, std::vector<const snode *> &l) { if (n->ch1) { leaves(n->ch1, l); leaves(n->ch2, l); } else l.push_back(n); }

struct Far { TVec m; double G, sg, eps; };
// the aggregates that replace what is far from the leaf
static std::vector<Far> fars(const snode *leaf, std::function<double(const TObj *)> e) {
    std::vector<Far> r;
    for (auto F : *leaf->FarNodes) for (int s : {1, -1}) {
        std::vector<const snode *> l; leaves(F, l);
        std::vector<const TObj *> in;
        for (auto n : l) for (TObj *o = n->vRange.first; o < n->vRange.last; o++) if (o->g && (o->g > 0) == (s > 0)) in.push_back(o);
        Far f{TVec(), 0, 0, 0};
        for (auto o : in) { f.G += o->g; f.m += o->g * o->r; }
        if (in.empty()) continue;
        f.m /= f.G; f.G = std::fabs(f.G);
        for (auto o : in) { f.sg = std::max(f.sg, (o->r - f.m).abs()); f.eps = std::max(f.eps, e(o)); }
        r.push_back(f);
    }
    return r;
}
static uint64_t nfar, unsep;

// truncation bound of the velocity at p
static double vbound(const stree &t, TVec p, bool &sep) {
    double worst = 0;
    for (auto leaf : nearest(t, p)) {
        double e = 0;
        for (auto &f : fars(leaf, [](const TObj *o) { return 1 / o->_1_eps; })) {
            nfar++;
            double R = (p - f.m).abs();
            if (f.sg > 0.9 * R) { sep = false; return 0; }
            e += f.G / (2 * PI) * (f.sg * f.sg / (R * R * R) / (1 - f.sg / R) + f.eps * f.eps / std::pow(R - f.sg, 3));
        }
        worst = std::max(worst, e);
    }
    return worst;
}

// ------------------------------------------------------------------ direct sums
static V2 wall(const TBody &b, const TAtt &a, TVec p) {
    V2 r;
    TVec ax = b.get_axis(), c = a.corner, d = a.dl;
    LD cx = (LD)c.x + d.x / 2, cy = (LD)c.y + d.y / 2, L2 = (LD)d.x * d.x + (LD)d.y * d.y, ex = p.x - cx, ey = p.y - cy;
    auto add = [&](LD x, LD y, LD w) {
        LD vx = b.speed_slae.r.x - b.speed_slae.o * (y - ax.y), vy = b.speed_slae.r.y + b.speed_slae.o * (x - ax.x);
        LD g = -(vx * d.x + vy * d.y), q = vy * d.x - vx * d.y, rx = p.x - x, ry = p.y - y, r2 = rx * rx + ry * ry;
        r.x += w * (rx * q - ry * g) / r2; r.y += w * (ry * q + rx * g) / r2;
        r.s += w * (std::fabs(q) + std::fabs(g)) / std::sqrt(r2);
    };
    if (ex * ex + ey * ey < L2) {
        const int N = 300; const LD gx = std::sqrt((LD)0.6);
        for (int i = 0; i < N; i++) for (int k = -1; k <= 1; k++) {
            LD t = (i + 0.5L + 0.5L * k * gx) / N, w = (k ? 5.0L : 8.0L) / 18 / N;
            add(c.x + t * d.x, c.y + t * d.y, w);
        }
    } else add(cx, cy, 1);
    return r;
}
// the velocity at a point; _1_eps of the vortices is set
static V2 velocity(const Space &S, TVec p, TVec inf) {
    V2 r;
    auto core = [&](TVec c, LD g, LD e) { LD dx = p.x - c.x, dy = p.y - c.y, q = dx * dx + dy * dy + e * e; if (q == 0 || g == 0) return; r.x -= dy * g / q; r.y += dx * g / q; r.s += std::fabs(g) * std::sqrt(dx * dx + dy * dy) / q; };
    for (auto &o : S.VortexList) if (o.g) core(o.r, o.g, 1 / o._1_eps);
    for (auto &s : S.SourceList) {
        LD dx = p.x - s.r.x, dy = p.y - s.r.y, q = dx * dx + dy * dy + (double)S.dt / PI * std::fabs(s.g);
        r.x += dx * s.g / q; r.y += dy * s.g / q; r.s += std::fabs(s.g) / std::sqrt(q);
    }
    for (auto &b : S.BodyList) for (auto &a : b->alist) {
        if (a.slip) core(a.r, a.g, a.dl.abs() / 3);
        if (b->speed_slae.iszero()) continue;
        V2 w = wall(*b, a, p);
        r.x += w.x; r.y += w.y; r.s += w.s;
    }
    r.x = r.x / (2 * PI) + inf.x; r.y = r.y / (2 * PI) + inf.y; r.s = r.s / (2 * PI) + inf.abs();
    return r;
}
// -1 inside the solid, 1 outside, 0 too close to the contour to tell
static int where(const Space &S, TVec p) {
    for (auto &b : S.BodyList) {
        size_t n = b->alist.size();
        double a = 0, area = 0;
        for (size_t i = 0; i < n; i++) {
            TVec u = b->alist[i].corner - p, v = b->alist[(i + 1) % n].corner - p, d = v - u;
            double t = std::min(1., std::max(0., -(u * d) / d.abs2()));
            if ((u + d * t).abs() < 1e-9) return 0;
            a += atan2(u.x * v.y - u.y * v.x, u.x * v.x + u.y * v.y);
            area += u.x * v.y - u.y * v.x;
        }
        bool in = std::fabs(a) > 1;
        if (in != (area > 0)) return -1; // a counter-clockwise contour holds the fluid
    }
    return 1;
}
static double seglen(const Space &S) { return S.average_segment_length(); }
static double eps2h(const snode *leaf, TVec p) {
    double a = INFINITY, b = INFINITY;
    for (auto n : *leaf->NearNodes) for (TObj *o = n->vRange.first; o < n->vRange.last; o++) {
        double d = (p - o->r).abs2();
        if (d == 0) continue;
        if (d < a) { b = a; a = d; } else if (d < b) b = d;
    }
    return std::isfinite(b) ? b : std::isfinite(a) ? a : 0;
}

// ------------------------------------------------------------------ a grid and its fields
struct Grid { double x, y, d; int nx, ny; std::string id() const { return mc::fmt("(%g,%g;%g)x(%d,%d)", x, y, d, nx, ny); } };
template <class F> struct Open : F {
    using F::F; using F::map; using F::gaps;
    std::vector<float> values() const { return std::vector<float>(this->map, this->map + this->xres * this->yres); }
};
struct Result { std::vector<float> v; std::map<std::pair<int, int>, double> gaps; };
static void cfg(XVelocity &f, char ref, char m, double) { f.ref_frame = ref; f.mode = m; }
static void cfg(XVorticity &f, char, char, double e) { f.eps_mult = e; }
static void cfg(XStreamfunction &f, char ref, char, double e) { f.ref_frame = ref; f.eps_mult = e; }
static void cfg(XPressure &f, char ref, char, double e) { f.ref_frame = ref; f.eps_mult = e; }

template <class F> static Result eval(const Space &S, const Grid &g, char ref, char m, double e) {
    Open<F> f(S, g.x, g.y, g.d, g.nx, g.ny);
    cfg(f, ref, m, e);
    f.evaluate();
    Result r; r.v = f.values();
    for (auto &q : f.gaps) r.gaps[{q.xi, q.yj}] += q.gap;
    for (int j = 0; j < g.ny; j++) for (int i = 0; i < g.nx; i++) if (memcmp(&f.at(i, j), &r.v[j * g.nx + i], 4)) mc::fail("at", "");
    return r;
}
// the same, with the bodies of the caller watched; twice
template <class F> static Result eval2(Space &S, const Grid &g, char ref, char m, double e) {
    Dump d0 = dump_space(S);
    Result a = eval<F>(S, g, ref, m, e), b = eval<F>(S, g, ref, m, e);
    std::string df = first_diff(d0, dump_space(S));
    if (!df.empty()) mc::fail("flow-changed", df);
    if (a.v.size() != b.v.size() || memcmp(a.v.data(), b.v.data(), a.v.size() * 4)) mc::fail("not-repeatable", g.id());
    return a;
}
static bool near(double got, LD exp, double bnd, LD scale) {
    return std::fabs((LD)got - exp) <= bnd * 1.0001 + 3e-7 * std::fabs(exp) + 3e-9 * scale + 1e-30;
}
static void bad(const char *what, const Grid &g, int i, int j, double got, LD exp, double bnd) {
    mc::fail(what, mc::fmt("at (%g,%g), cell %d,%d of %s: %.9g, expected %.9Lg (bound %.3g)", g.x + g.d * i, g.y + g.d * j, i, j, g.id().c_str(), got, exp, bnd));
}

static void test_flow(const Flow &fl, const Grid &g, const std::vector<Grid> &subs) {
    TVec frames[3];
    auto mk = [&](Space &S) {
        build(S, fl);
        frames[0] = TVec();
        frames[1] = fl.inf ? TVec(1, fl.inf == 1 ? 0.5 : -0.25) : TVec();
        if (!S.BodyList.empty()) frames[2] = S.BodyList[0]->speed_slae.r;
    };
    const char *RF = "ofb";
    Space base; mk(base);
    TVec inf = frames[1];
    double dl = seglen(base);
    int nref = base.BodyList.empty() ? 2 : 3;
    auto each = [&](std::function<void(int, int, TVec)> f) { for (int j = 0; j < g.ny; j++) for (int i = 0; i < g.nx; i++) f(i, j, TVec(g.x + g.d * i, g.y + g.d * j)); };
    auto regions = [&](const char *what, const Result &full, std::function<Result(const Grid &)> ev) {
        for (auto &s : subs) {
            Result r = ev(s);
            for (int j = 0; j < s.ny; j++) for (int i = 0; i < s.nx; i++) {
                int I = lround((s.x + s.d * i - g.x) / g.d), J = lround((s.y + s.d * j - g.y) / g.d);
                float a = full.v[J * g.nx + I], b = r.v[j * s.nx + i];
                if (!(a == b || (a != a && b != b))) { mc::fail(what, mc::fmt("cell at (%g,%g): %.9g alone in %s, %.9g in %s", s.x + s.d * i, s.y + s.d * j, b, s.id().c_str(), a, g.id().c_str())); return; }
                auto ga = full.gaps.count({I, J}) ? full.gaps.at({I, J}) : 0, gb = r.gaps.count({i, j}) ? r.gaps.at({i, j}) : 0;
                if (s.d == g.d && ga != gb) { mc::fail(what, "gap"); return; }
            }
            mc::S().transitions++;
        }
    };

    // ---- velocity
    {
        Space S; mk(S);
        S.StreakList.clear(); S.StreakSourceList.clear();
        stree t(&S, 8, dl * 20, 0.1); t.build();
        MEpsilonFast(&S, &t).CalcEpsilonFast(false);
        for (int r = 0; r < nref; r++) for (char m : {'x', 'y'}) {
            Space C; mk(C);
            Result f = eval2<XVelocity>(C, g, RF[r], m, 0);
            each([&](int i, int j, TVec p) {
                bool sep = true;
                double b = vbound(t, p, sep);
                if (!sep) { unsep++; return; }
                V2 u = velocity(S, p, inf);
                LD e = m == 'x' ? u.x - frames[r].x : u.y - frames[r].y;
                if (!near(f.v[j * g.nx + i], e, b, u.s)) bad("velocity", g, i, j, f.v[j * g.nx + i], e, b);
            });
            if (r == 0) regions("velocity-region", f, [&](const Grid &s) { Space C2; mk(C2); return eval<XVelocity>(C2, s, RF[r], m, 0); });
        }
    }
    // ---- vorticity
    for (double em : {1., 2., 3.5}) {
        Space S; mk(S);
        S.StreakList.clear(); S.StreakSourceList.clear();
        { MFlowmove fm(&S); fm.vortex_shed(); }
        stree t(&S, 8, dl * 20); t.build();
        std::map<const TObj *, double> e2;
        for (auto l : t.getBottomNodes()) for (TObj *o = l->vRange.first; o < l->vRange.last; o++) e2[o] = em * em * std::max(eps2h(l, o->r), 0.36 * dl * dl);
        Space C; mk(C);
        Result f = eval2<XVorticity>(C, g, 'o', 'x', em);
        each([&](int i, int j, TVec p) {
            double got = f.v[j * g.nx + i];
            int w = where(S, p);
            if (!w) return;
            if (w < 0) { if (got != 0) bad("vorticity-in-body", g, i, j, got, 0, 0); return; }
            bool ok = false; LD last = 0, tol = 0;
            for (auto leaf : nearest(t, p)) {
                std::set<const snode *> nn(leaf->NearNodes->begin(), leaf->NearNodes->end());
                LD z = 0, s = 0; tol = 0; double h2 = INFINITY;
                bool inf_ = false;
                for (auto l : t.getBottomNodes()) {
                    bool is = nn.count(l);
                    for (TObj *o = l->vRange.first; o < l->vRange.last; o++) {
                        LD d = ((LD)p.x - o->r.x) * ((LD)p.x - o->r.x) + ((LD)p.y - o->r.y) * ((LD)p.y - o->r.y), E = e2[o];
                        if (E == 0) { if (d == 0) inf_ = true; continue; }
                        LD x = -d / E, c = o->g / (PI * E) * std::exp(x);
                        if (!is) { tol += std::fabs(c); continue; }           // what is far may be left out
                        if (x > -6 * (1 - 1e-9L)) z += c; else if (x > -6 * (1 + 1e-9L)) tol += std::fabs(c); // what is cut off too
                        s += std::fabs(c);
                    }
                    if (is) for (auto a : l->bllist) h2 = std::min(h2, (p - a->r).abs2());
                }
                if (inf_) { ok = true; break; }
                double ea = h2 / (dl * em * dl * em);
                if (ea < 3 && std::isfinite(h2)) { double c = 0.5 * (1 - erf(ea)); z += c; s += c; }
                last = z;
                if (near(got, z, (double)tol, s)) ok = true;
            }
            if (!ok) bad("vorticity", g, i, j, got, last, (double)tol);
        });
        if (em == 2) regions("vorticity-region", f, [&](const Grid &s) { Space C2; mk(C2); return eval<XVorticity>(C2, s, 'o', 'x', em); });
    }
    // ---- streamfunction
    for (double em : {1., 2.}) {
        Space S; mk(S);
        S.StreakList.clear(); S.StreakSourceList.clear();
        stree t(&S, 8, dl > 0 ? dl * 10 : 0, dl > 0 ? dl * 20 : INFINITY); t.build();
        std::map<const TObj *, double> e2;
        for (auto l : t.getBottomNodes()) for (TObj *o = l->vRange.first; o < l->vRange.last; o++) e2[o] = em * em * std::max(eps2h(l, o->r) * 0.25, 0.04 * dl * dl);
        // the value of the definition; e(o) is the square of the core
        auto psi = [&](TVec p, TVec frame, std::function<LD(const TObj &)> e, LD &s, bool &cut) {
            LD z = 0;
            LD rd2 = 0.04L * dl * dl;
            s = 0; cut = false;
            auto add = [&](LD v) { z += v; s += std::fabs(v); };
            auto lg = [&](TVec c, LD g, LD q) { LD dx = (LD)p.x - c.x, dy = (LD)p.y - c.y, a = dx * dx + dy * dy + q; if (g == 0) return; if (a == 0) { cut = true; return; } add(-g * std::log(a) / (4 * PI)); };
            for (auto &b : S.BodyList) for (auto &a : b->alist) {
                TVec V = b->speed_slae.r + b->speed_slae.o * rotl(a.r - b->get_axis());
                LD g = -(V * a.dl), q = V.y * a.dl.x - V.x * a.dl.y;
                lg(a.r, a.g, rd2);
                if (b->speed_slae.iszero()) continue;
                lg(a.r, g, rd2);
                TVec v1 = b->get_cofm() - p, v2 = a.r - p;
                LD cr = -(LD)v2.y * v1.x + (LD)v2.x * v1.y, dt = (LD)v2.x * v1.x + (LD)v2.y * v1.y;
                if (std::fabs(cr) < 1e-9 && dt < 1e-9) cut = true;
                add(-q * std::atan2(cr, dt) / (2 * PI));
            }
            for (auto &q : S.SourceList) { LD dx = (LD)p.x - q.r.x, dy = (LD)p.y - q.r.y; if (dy == 0 && dx <= 0) { if (dx == 0) cut = true; } add(q.g * std::atan2(dy, dx) / (2 * PI)); }
            for (auto &o : S.VortexList) lg(o.r, o.g, e(o));
            add((LD)p.y * (inf.x - frame.x) - (LD)p.x * (inf.y - frame.y));
            return z;
        };
        for (int r = 0; r < nref; r++) {
            Space C; mk(C);
            Result f = eval2<XStreamfunction>(C, g, RF[r], 'x', em);
            std::map<std::pair<int, int>, double> expg;
            each([&](int i, int j, TVec p) {
                double bnd = 0; bool sep = true;
                for (auto leaf : nearest(t, p)) {
                    double e = 0;
                    for (auto &q : fars(leaf, [&](const TObj *o) { return std::sqrt(e2[o]); })) {
                        nfar++;
                        double R = (p - q.m).abs();
                        if (q.sg > 0.9 * R) { sep = false; break; }
                        e += q.G / (2 * PI) * (q.sg * q.sg / (R * R) / 2 / (1 - q.sg / R) + q.eps * q.eps / 2 / std::pow(R - q.sg, 2));
                    }
                    bnd = std::max(bnd, e);
                }
                for (auto &q : S.SourceList) if (p.x < q.r.x && q.r.x <= p.x + g.d && p.y < q.r.y && q.r.y <= p.y + g.d) expg[{i, j}] += q.g;
                if (!sep) { unsep++; return; }
                LD s; bool cut;
                LD z = psi(p, frames[r], [&](const TObj &o) { return (LD)e2[&o]; }, s, cut);
                if (cut) return;
                double got = f.v[j * g.nx + i];
                if (!near(got, z, bnd, s)) bad("streamfunction", g, i, j, got, z, bnd);
                if (r == 0 && em == 1) {
                    z = psi(p, TVec(), [&](const TObj &) { return 0.04L * dl * dl; }, s, cut);
                    double got = XStreamfunction::streamfunction(S, p);
                    if (!cut && !near(got, z, 0, s)) bad("streamfunction-direct", g, i, j, got, z, 0);
                }
            });
            for (auto &q : expg) if (std::fabs(q.second - (f.gaps.count(q.first) ? f.gaps[q.first] : 0)) > 1e-6) mc::fail("gap", mc::fmt("cell %d,%d of %s: %g expected", q.first.first, q.first.second, g.id().c_str(), q.second));
            for (auto &q : f.gaps) if (!expg.count(q.first)) mc::fail("gap-extra", mc::fmt("cell %d,%d", q.first.first, q.first.second));
            if (r == 0 && em == 1) regions("streamfunction-region", f, [&](const Grid &s) { Space C2; mk(C2); return eval<XStreamfunction>(C2, s, RF[r], 'x', em); });
        }
    }
    // ---- pressure
    {
        Space S; mk(S);
        S.StreakList.clear(); S.StreakSourceList.clear();
        { MFlowmove fm(&S); fm.vortex_shed(); }
        stree t(&S, 8, dl * 20, 0.1); t.build();
        MConvectiveFast conv(&S, &t); MDiffusiveFast diff(&S, &t);
        MEpsilonFast(&S, &t).CalcEpsilonFast(false);
        conv.process_all_lists(); diff.process_vort_list();
        for (int r = -1; r < nref; r++) {
            Space C; mk(C);
            Result f = eval2<XPressure>(C, g, r < 0 ? 's' : RF[r], 'x', 2);
            each([&](int i, int j, TVec p) {
                double got = f.v[j * g.nx + i];
                int w = where(S, p);
                if (!w) return;
                if (w < 0) { if (got != 0) bad("pressure-in-body", g, i, j, got, 0, 0); return; }
                bool sep = true;
                double b = vbound(t, p, sep);
                if (!sep) { unsep++; return; }
                V2 u = velocity(S, p, inf);
                LD z = 0, s = 0; bool sing = false;
                auto term = [&](TVec c, LD gx, LD gy, LD G, LD Q) { // (rotl(K) G + K Q) . (gx,gy)
                    LD dx = (LD)p.x - c.x, dy = (LD)p.y - c.y, q = dx * dx + dy * dy;
                    if (q == 0) { sing = true; return; }
                    LD v = ((-dy * G + dx * Q) * gx + (dx * G + dy * Q) * gy) / q;
                    z += v; s += (std::fabs(G) + std::fabs(Q)) * std::sqrt((gx * gx + gy * gy) / q);
                };
                for (auto &bd : S.BodyList) {
                    LD cum = 0;
                    for (auto &a : bd->alist) {
                        TVec V = bd->speed_slae.r + bd->speed_slae.o * rotl(a.r - bd->get_axis());
                        term(a.r, V.x, V.y, -(V * a.dl), V.y * a.dl.x - V.x * a.dl.y);
                        cum += a.gsum;
                        term(a.r, a.dl.x / (double)S.dt, a.dl.y / (double)S.dt, -cum, 0);
                    }
                }
                for (auto &o : S.VortexList) if (o.v.x || o.v.y) term(o.r, o.v.x, o.v.y, o.g, 0);
                if (sing) return;
                LD u2 = u.x * u.x + u.y * u.y;
                LD e = z / (2 * PI) + 0.5L * (inf.abs2() - u2);
                double um = (double)std::sqrt(u2), eb = b * (um + b);
                if (r >= 0) { LD ax = u.x - frames[r].x, ay = u.y - frames[r].y; e += 0.5L * (ax * ax + ay * ay); eb += b * ((double)std::hypot((double)ax, (double)ay) + b); }
                s = s / (2 * PI) + u.s * u.s * 2 + inf.abs2();
                if (!near(got, e, eb, s)) bad("pressure", g, i, j, got, e, eb);
            });
            if (r == -1) regions("pressure-region", f, [&](const Grid &s) { Space C2; mk(C2); return eval<XPressure>(C2, s, 's', 'x', 2); });
        }
    }
    mc::nontrivial();
}

// several fields of one flow, one after another: each as if it were the only one
static void test_order(const Flow &fl, const Grid &g) {
    auto one = [&](Space &S, int k) {
        return k == 0 ? eval<XVorticity>(S, g, 'o', 'x', 2) : k == 1 ? eval<XPressure>(S, g, 's', 'x', 2) : k == 2 ? eval<XStreamfunction>(S, g, 'o', 'x', 2) : eval<XVelocity>(S, g, 'o', 'x', 2);
    };
    std::vector<Result> alone;
    for (int k = 0; k < 4; k++) { Space S; build(S, fl); alone.push_back(one(S, k)); }
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) {
        Space S; build(S, fl);
        one(S, a);
        Result r = one(S, b);
        for (size_t i = 0; i < r.v.size(); i++) if (!(r.v[i] == alone[b].v[i] || (r.v[i] != r.v[i] && alone[b].v[i] != alone[b].v[i]))) { mc::fail("order", mc::fmt("field %d after field %d: %g, alone %g", b, a, r.v[i], alone[b].v[i])); break; }
        mc::S().transitions++;
    }
    mc::nontrivial();
}

// the streamlines of a field that was written and read back
static void test_stored(const Flow &fl, const Grid &g) {
    Space S; build(S, fl);
    Open<XStreamfunction> f(S, g.x, g.y, g.d, g.nx, g.ny);
    f.ref_frame = 'o'; f.eps_mult = 2;
    f.evaluate();
    std::stringstream st; st << f;
    XField h(st.str());
    auto draw = [&](const XField &q) { std::stringstream o; o << XIsoline(q, f.min(), f.max(), (f.max() - f.min()) / 7.3); return o.str(); };
    if (f.max() == f.min()) { mc::outcome("uniform streamfunction"); return; }
    mc::require(draw(f) == draw(h), "lines-after-storage", mc::fmt("%zu gaps", f.gaps.size()));
    mc::nontrivial();
}

// ------------------------------------------------------------------ arguments
template <class Fn> static std::string thrown(Fn f) {
    try { f(); } catch (const std::invalid_argument &e) { return "invalid_argument"; } catch (const std::exception &e) { return std::string("exception ") + e.what(); }
    return "";
}
static void test_arguments() {
    const int R[] = {-70000, -1, 0, 1, 2, 3};
    const float D[] = {-1, 0, 0.5, INFINITY, NAN};
    for (int a : R) for (int b : R) for (float d : D) {
        std::string id = mc::fmt("args:%d:%d:%g", a, b, d);
        if (!mc::want(id)) continue;
        bool ok = a > 1 && b > 1 && d > 0 && std::isfinite(d);
        std::string e = thrown([&] { XField f(0, 0, d, a, b); });
        mc::require(e == (ok ? "" : "invalid_argument"), "constructor", "got '" + e + "'");
        mc::nontrivial();
    }
    Grid g{-1, -1, 0.5, 3, 3};
    for (int nb = 0; nb < 2; nb++) for (char ref : {'o', 'f', 'b', 's', 'x', '\0'}) for (double e : {-1., 0., 1., (double)NAN}) for (char m : {'x', 'y', 'z', '\0'}) {
        if (!mc::want(mc::fmt("fieldargs:%d:%d:%g:%d", nb, ref, e, m))) continue;
        Flow fl; fl.bodies = nb; fl.vort = 1; fl.motion = 3;
        bool rok = ref == 'o' || ref == 'f' || (ref == 'b' && nb);
        auto chk = [&](const char *n, bool ok, std::string got) { mc::require(got == (ok ? "" : "invalid_argument"), n, "got '" + got + "'"); };
        Space S; build(S, fl);
        chk("velocity-args", rok && (m == 'x' || m == 'y'), thrown([&] { eval<XVelocity>(S, g, ref, m, e); }));
        if (e != e) continue;
        chk("vorticity-args", e > 0, thrown([&] { eval<XVorticity>(S, g, ref, m, e); }));
        chk("streamfunction-args", rok && e > 0, thrown([&] { eval<XStreamfunction>(S, g, ref, m, e); }));
        chk("pressure-args", (rok || ref == 's') && e > 0, thrown([&] { eval<XPressure>(S, g, ref, m, e); }));
        mc::nontrivial();
    }
}

// ------------------------------------------------------------------ statistics and storage
struct Field : XField {
    using XField::XField; using XField::map; using XField::evaluated; using XField::xmin; using XField::ymin; using XField::dxdy; using XField::xres; using XField::yres;
};
static std::string str(const XField &f) { std::stringstream s; s << f; return s.str(); }
static void test_stats(int nx, int ny, const std::vector<float> &al) {
    std::vector<float> v(nx * ny);
    size_t tot = 1;
    for (auto &x : v) { (void)x; tot *= al.size(); }
    const float P[] = {1e-6f, 0.02f, 0.1f, 0.2f, 0.25f, 0.4f, 0.49f, 0.5f, 0.51f, 0.6f, 0.75f, 0.9f, 0.98f, 0.999f};
    size_t chunk = 200;
    for (size_t c = 0; c < tot; c += chunk) {
        if (!mc::want(mc::fmt("stats:%dx%d:%zu:%zu", nx, ny, al.size(), c))) continue;
        for (size_t n = c; n < std::min(tot, c + chunk); n++) {
            size_t k = n;
            for (auto &x : v) { x = al[k % al.size()]; k /= al.size(); }
            Field f(1, 2, 0.5, nx, ny);
            memcpy(f.map, v.data(), v.size() * 4);
            if (n == 0) {
                for (int q = 0; q < 4; q++) mc::require(thrown([&] { if (q == 0) f.min(); else if (q == 1) f.max(); else if (q == 2) f.percentile(0.5); else str(f); }) == "invalid_argument", "unevaluated", mc::fmt("%d", q));
            }
            f.evaluated = true;
            mc::require(f.min() == *std::min_element(v.begin(), v.end()), "min", mc::fmt("case %zu", n));
            mc::require(f.max() == *std::max_element(v.begin(), v.end()), "max", mc::fmt("case %zu", n));
            std::vector<float> s;
            for (float x : v) if (x != 0) s.push_back(x);
            std::sort(s.begin(), s.end());
            for (float p : P) {
                float got = f.percentile(p);
                bool ok = false;
                if (s.empty()) ok = got == 0;
                else for (double e : {-1e-5, 0., 1e-5}) {
                    size_t N = std::max(1., std::floor(s.size() * (double)(p < 0.5 ? p : 1 - p) + e));
                    ok = ok || got == (p < 0.5 ? s[N - 1] : s[s.size() - N]);
                }
                if (!ok) { std::string t; for (float x : v) t += mc::fmt("%g ", x); mc::fail("percentile", mc::fmt("p=%g of [%s]: %g", p, t.c_str(), got)); }
            }
            for (float p : {-1.f, 0.f, 1.f, 2.f, NAN}) mc::require(thrown([&] { f.percentile(p); }) == "invalid_argument", "percentile-argument", mc::fmt("%g", p));
            std::string t = str(f);
            Field h(t);
            mc::require(h.xres == nx && h.yres == ny && h.xmin == 1 && h.ymin == 2 && h.dxdy == 0.5 && !memcmp(h.map, f.map, v.size() * 4), "storage", mc::fmt("case %zu", n));
            mc::require(str(h) == t, "storage-again", mc::fmt("case %zu", n));
            mc::S().transitions++;
        }
        mc::nontrivial();
    }
}
static void test_storage() {
    // coordinates that are not exact
    for (float x : {0.f, -2.f, 0.1f, 10.f, -100.f, 1000.1f, 1e6f}) for (float y : {0.f, 0.3f, -50.f}) for (float d : {1e-6f, 0.001f, 0.00123f, 0.1f, 1 / 3.f, 7.f, 1e6f}) for (int nx : {2, 3, 7, 101, 641}) for (int ny : {2, 3, 5, 361}) {
        if (!mc::want(mc::fmt("grid:%g:%g:%g:%d:%d", x, y, d, nx, ny))) continue;
        float big = std::max(std::max(std::fabs(x), std::fabs(x + d * nx)), std::max(std::fabs(y), std::fabs(y + d * ny)));
        if (d < 8 * (nextafterf(big, INFINITY) - big)) { mc::outcome("grid-finer-than-float"); continue; }
        Field f(x, y, d, nx, ny);
        for (int i = 0; i < nx * ny; i++) f.map[i] = i * 0.37f - 5;
        f.evaluated = true;
        std::string s = str(f), e;
        mc::require(s.size() == sizeof(float) * (nx + 1) * (ny + 1), "stored-size", "");
        e = thrown([&] {
            Field h(s);
            if (h.xres != nx || h.yres != ny || memcmp(h.map, f.map, 4 * nx * ny)) mc::fail("stored-values", "");
            float u = 2 * (nextafterf(big, INFINITY) - big);
            for (int i = 0; i < nx; i++) if (std::fabs((h.xmin + h.dxdy * i) - (f.xmin + f.dxdy * i)) > u) { mc::fail("stored-x", mc::fmt("column %d: %.9g, was %.9g", i, h.xmin + h.dxdy * i, f.xmin + f.dxdy * i)); break; }
            for (int j = 0; j < ny; j++) if (std::fabs((h.ymin + h.dxdy * j) - (f.ymin + f.dxdy * j)) > u) { mc::fail("stored-y", mc::fmt("row %d: %.9g, was %.9g", j, h.ymin + h.dxdy * j, f.ymin + f.dxdy * j)); break; }
        });
        if (!e.empty()) mc::fail("stored-unreadable", e);
        mc::nontrivial();
    }
    // anything else is refused or gives a field that could have been stored
    for (int n = 0; n <= 80; n++) for (float N : {(float)NAN, INFINITY, -INFINITY, -2.f, 0.f, 1.f, 1.5f, 2.f, 3.f, 4.f, 8.f, 9.f, 19.f, 1e6f, 3e9f, 1e30f}) for (int kind = 0; kind < 6; kind++) {
        if (!mc::want(mc::fmt("malformed:%d:%g:%d", n, N, kind))) continue;
        std::vector<float> v(n / 4 + 1);
        int X = N > 1 && N < 100 ? N : 2;
        for (size_t i = 0; i < v.size(); i++) v[i] = i % (X + 1) ? (i <= (size_t)X ? i : 7.f) : i / (X + 1);
        float k = kind == 1 ? 0 : kind == 2 ? -1 : kind == 3 ? NAN : kind == 4 ? INFINITY : 1;
        for (size_t i = 1; i < v.size() && i <= (size_t)X; i++) v[i] *= k;
        for (size_t i = X + 1; i < v.size(); i += X + 1) v[i] *= kind == 5 ? 1.5f : k;
        v[0] = N;
        std::string s((char *)v.data(), n);
        s.shrink_to_fit();
        std::string e = thrown([&] {
            Field f(s);
            if (f.xres < 2 || f.yres < 2 || !(f.dxdy > 0) || !std::isfinite(f.dxdy) || (size_t)n != sizeof(float) * (f.xres + 1) * (f.yres + 1) || kind) mc::fail("malformed-accepted", mc::fmt("%dx%d, step %g", f.xres, f.yres, f.dxdy));
            f.min(); f.max(); f.percentile(0.5); str(f);
        });
        if (!e.empty() && e != "invalid_argument") mc::fail("malformed", e);
        if (e.empty()) mc::outcome("well-formed"); else mc::outcome("refused");
        mc::nontrivial();
    }
}

int main(int argc, char **argv) {
    mc::init(argc, argv);
    bool T = mc::thorough();
    std::string part = mc::S().rest.empty() ? "flows" : mc::S().rest[0];
    if (part == "small") {
        test_arguments();
        test_stats(2, 2, {-2, -1, 0, 1, 3.5});
        test_stats(2, 3, {-1, 0, 1, 2});
        test_stats(3, 2, {-1, 0, 1, 2});
        test_stats(3, 3, {-1, 0, 2});
        test_stats(4, 3, {0, 1});
        if (T) { test_stats(2, 5, {-1, 0, 1}); test_stats(5, 2, {-1, 0, 1}); test_stats(3, 2, {-2, -1, 0, 1, 2}); test_stats(4, 4, {0, 1}); }
        test_storage();
        return mc::finish();
    }
    // grids; the sub-rectangles share points with the whole
    std::vector<Grid> grids = {{-2, -1.5, 0.5, 9, 7}, {-1, -0.5, 0.25, 13, 8}, {0.25, 0.25, 0.0625, 12, 14}};
    if (T) { grids.push_back({-12, -10, 1, 25, 21}); grids.push_back({-2, -2, 0.125, 33, 33}); }
    auto subs = [&](const Grid &g) {
        std::vector<Grid> r;
        for (int i0 = 0; i0 + 2 <= g.nx; i0 += T ? 2 : 3) for (int j0 = 0; j0 + 2 <= g.ny; j0 += T ? 2 : 3) for (int nx : {2, 3, 6, 1000}) for (int ny : {2, 5, 1000}) {
            int w = std::min(nx, g.nx - i0), h = std::min(ny, g.ny - j0);
            if (nx == 1000 && ny == 1000 && (i0 + j0) % 2) continue;
            r.push_back({g.x + i0 * g.d, g.y + j0 * g.d, g.d, w, h});
        }
        r.push_back({g.x, g.y, g.d * 2, (g.nx + 1) / 2, (g.ny + 1) / 2});
        std::vector<Grid> q;
        for (size_t i = 0; i < r.size(); i += T ? 1 : 7) q.push_back(r[i]);
        q.push_back(r.back());
        return q;
    };
    Flow f;
    for (f.bodies = 0; f.bodies < 6; f.bodies++) for (f.motion = 0; f.motion < 4; f.motion++) for (f.vort = 0; f.vort < NV; f.vort++) for (f.sink = 0; f.sink < 4; f.sink++) for (f.inf = 0; f.inf < 3; f.inf++) {
        if (f.bodies == 3) continue;
        if (!f.bodies && f.motion) continue;
        int sum = f.bodies + f.motion * 2 + f.vort * 3 + f.sink + f.inf;
        if (!T && (f.bodies || f.vort < 4) && sum % 3) continue;
        for (size_t k = 0; k < grids.size(); k++) {
            if (!T && k != (size_t)sum % 3 && f.vort != 4 && f.vort < 7) continue;
            if (!mc::want(f.id() + mc::fmt("-g%zu", k))) continue;
            if (f.bodies == 0 && f.vort == 0 && f.sink == 0) mc::outcome("uniform");
            test_flow(f, grids[k], k == (size_t)sum % 3 ? subs(grids[k]) : std::vector<Grid>());
        }
        if (mc::want(f.id() + "-order")) test_order(f, {-1, -1, 0.5, 6, 5});
        if (mc::want(f.id() + "-stored")) test_stored(f, {-2, -1.5, 0.5, 9, 7});
    }
    mc::outcome("far-aggregates-bounded", nfar);
    mc::outcome("points-not-separated", unsep);
    return mc::finish();
}
