// C06: velocities against the direct sum, over all small flows
#include "space_util.hpp"
#include "MConvectiveFast.hpp"

static const double PI = 3.14159265358979323846;
typedef long double LD;
struct V2 { LD x = 0, y = 0; };

// the contribution of one segment of a moving wall: linear distribution close by, its centre further away
static V2 wall(const TBody &b, const TAtt &a, TVec p) {
    V2 r;
    TVec ax = b.get_axis();
    TVec c = a.corner, d = a.dl;
    LD cx = (LD)c.x + d.x / 2, cy = (LD)c.y + d.y / 2;
    LD L2 = (LD)d.x * d.x + (LD)d.y * d.y;
    LD ex = p.x - cx, ey = p.y - cy;
    auto vel = [&](LD x, LD y, LD &vx, LD &vy) { vx = b.speed_slae.r.x - b.speed_slae.o * (y - ax.y); vy = b.speed_slae.r.y + b.speed_slae.o * (x - ax.x); };
    auto add = [&](LD x, LD y, LD w) {
        LD vx, vy; vel(x, y, vx, vy);
        LD g = -(vx * d.x + vy * d.y), q = vy * d.x - vx * d.y;
        LD rx = p.x - x, ry = p.y - y, r2 = rx * rx + ry * ry;
        r.x += w * (rx * q - ry * g) / r2; r.y += w * (ry * q + rx * g) / r2;
    };
    if (ex * ex + ey * ey < L2) {
        // composite Gauss (3 points) of the same integrand
        const int N = 300; const LD gx = std::sqrt((LD)0.6);
        for (int i = 0; i < N; i++) for (int k = -1; k <= 1; k++) {
            LD t = (i + 0.5L + 0.5L * k * gx) / N, w = (k ? 5.0L : 8.0L) / 18 / N;
            add(c.x + t * d.x, c.y + t * d.y, w);
        }
    } else add(cx, cy, 1);
    return r;
}

static V2 nonvortex(const Space &S, TVec p, TVec inf) {
    V2 r;
    for (auto &s : S.SourceList) {
        LD dx = p.x - s.r.x, dy = p.y - s.r.y, q = dx * dx + dy * dy + (double)S.dt / PI * std::fabs(s.g);
        r.x += dx * s.g / q; r.y += dy * s.g / q;
    }
    for (auto &b : S.BodyList) for (auto &a : b->alist) {
        if (a.slip) { LD dx = p.x - a.r.x, dy = p.y - a.r.y, e = a.dl.abs() / 3, q = dx * dx + dy * dy + e * e; r.x -= dy * a.g / q; r.y += dx * a.g / q; }
        V2 w = wall(*b, a, p);
        r.x += w.x; r.y += w.y;
    }
    r.x = r.x / (2 * PI) + inf.x; r.y = r.y / (2 * PI) + inf.y;
    return r;
}
static V2 vortices(const Space &S, TVec p) {
    V2 r;
    for (auto &o : S.VortexList) {
        LD dx = p.x - o.r.x, dy = p.y - o.r.y, e = 1. / o._1_eps, q = dx * dx + dy * dy + e * e;
        if (q == 0) continue;
        r.x -= dy * o.g / q; r.y += dx * o.g / q;
    }
    r.x /= 2 * PI; r.y /= 2 * PI;
    return r;
}

static uint64_t nfar;
// rigorous bound of the truncation error of the far part
static double bound(const snode *leaf, TVec p, bool taylor, bool &sep) {
    double e = 0;
    for (auto F : *leaf->FarNodes) for (int s : {1, -1}) {
        std::vector<const TObj *> in;
        std::vector<const snode *> st = {F};
        while (!st.empty()) { auto n = st.back(); st.pop_back(); if (n->ch1) { st.push_back(n->ch1); st.push_back(n->ch2); } else for (TObj *o = n->vRange.first; o < n->vRange.last; o++) if ((o->g > 0) == (s > 0)) in.push_back(o); }
        double G = 0; TVec m;
        for (auto o : in) { G += o->g; m += o->g * o->r; }
        if (in.empty() || G == 0) continue;
        m /= G; G = std::fabs(G);
        double sg = 0, eps = 0;
        for (auto o : in) { sg = std::max(sg, (o->r - m).abs()); eps = std::max(eps, 1 / o->_1_eps); }
        nfar++;
        double R = (p - m).abs();
        if (sg / R > 0.4) { sep = false; return 0; }
        e += G / (2 * PI) * (sg * sg / (R * R * R) / (1 - sg / R) + eps * eps / std::pow(R - sg, 3));
        if (taylor) {
            TVec c(leaf->x, leaf->y);
            double Rc = (c - m).abs(), d = (p - c).abs();
            if (d / Rc > 0.4) { sep = false; return 0; }
            e += G / (2 * PI) * (d * d / (Rc * Rc * Rc) / (1 - d / Rc));
        }
    }
    return e;
}

static void cmp(const char *what, TVec got, V2 a, V2 b, double bnd, TVec p) {
    LD x = a.x + b.x, y = a.y + b.y;
    double e = std::hypot((double)(got.x - x), (double)(got.y - y));
    if (!(e <= bnd + 2e-9 * (1 + std::hypot((double)x, (double)y))))
        mc::fail(what, mc::fmt("at (%.10g,%.10g): (%.12g,%.12g) expected (%.12Lg,%.12Lg), error %.3g, truncation bound %.3g", p.x, p.y, got.x, got.y, x, y, e, bnd));
}

static void one(Space &S, int far, double mn, double mx, TVec inf, const std::vector<TVec> &probes) {
    for (auto &o : S.VortexList) o.v = TVec(); // _1_eps has been set by the caller
    std::vector<std::vector<TObj> *> ls = {&S.VortexList, &S.HeatList, &S.StreakList};
    for (auto l : ls) for (auto &o : *l) o.v = TVec();
    stree t(&S, far, mn, mx);
    t.build();
    MConvectiveFast conv(&S, &t);
    conv.process_all_lists();

    const char *names[3] = {"vortex-velocity", "heat-velocity", "streak-velocity"};
    bool sep = true;
    uint64_t f0 = nfar;
    for (auto leaf : t.getBottomNodes()) {
        range snode::*rg[3] = {&snode::vRange, &snode::hRange, &snode::sRange};
        for (int k = 0; k < 3; k++) for (TObj *o = (leaf->*rg[k]).first; o < (leaf->*rg[k]).last; o++) {
            double b = bound(leaf, o->r, true, sep);
            if (!sep) { mc::fail("far-too-near", mc::fmt("the acceleration is applied to cells near (%g,%g)", o->r.x, o->r.y)); return; }
            cmp(names[k], o->v, nonvortex(S, o->r, inf), vortices(S, o->r), b, o->r);
        }
    }
    for (TVec p : probes) {
        const snode *leaf = t.findNode(p);
        // outside of the cells the aggregates may be near: only what is separated can be bounded
        bool s2 = true;
        double b = bound(leaf, p, false, s2);
        if (!s2) { mc::outcome("probe-unbounded"); continue; }
        cmp("point-velocity", conv.velocity(p), nonvortex(S, p, inf), vortices(S, p), b, p);
    }
    mc::nontrivial();
    if (nfar > f0) mc::outcome("with-far-cells"); else mc::outcome("near-only");
}

// what a marker carries does not matter
static const double MARK[4] = {1, 0, -0.5, 2};

static void setup(Space &S, int k, TVec &inf, double x0) {
    // what else is in the flow
    static const char *E[3] = {"0", "1", "t+0.5"};
    S.dt = TTime(1, 10); S.time = TTime(3, 4); S.re = 100;
    int i = k % 3, j = (k / 3) % 3; k /= 9;
    S.inf_vx = std::string(E[i]); S.inf_vy = std::string(E[j]);
    double ev[3] = {0, 1, 1.25};
    inf = TVec(ev[i], ev[j]);
    (void)x0;
}

int main(int argc, char **argv) {
    mc::init(argc, argv);
    bool T = mc::thorough();
    // A: clusters in 16 directions at several distances; all sign patterns
    for (int dir = 0; dir < 16; dir++) for (double D : {6., 9., 15., 40.}) for (int pat = 0; pat < 81; pat++) for (double sz : {0.5, 1.0}) {
        if (!mc::want(mc::fmt("cluster:%d:%g:%d:%g", dir, D, pat, sz))) continue;
        Space S; TVec inf; setup(S, (dir + pat) % 9, inf, 0);
        TVec c(D * cos(dir * PI / 8 + 0.05), D * sin(dir * PI / 8 + 0.05));
        int m = pat;
        for (int i = 0; i < 4; i++, m /= 3) if (m % 3) S.VortexList.emplace_back(c.x + sz * (i & 1) , c.y + sz * 0.7 * (i >> 1), (m % 3 == 1 ? 1 : -1) * (1 + 0.3 * i));
        for (int i = 0; i < 5; i++) { double x = 0.4 * (i % 3), y = 0.35 * (i / 2); S.HeatList.emplace_back(x, y, 1); S.StreakList.emplace_back(x + 0.05, y - 0.1, MARK[i % 4]); }
        S.VortexList.emplace_back(0.1, 0.2, 0.5); S.VortexList.emplace_back(0.6, 0.1, -0.7);
        for (auto &o : S.VortexList) o._1_eps = 1 / (0.02 + 0.01 * (&o - &S.VortexList[0]));
        one(S, 8, 0.05, 1.6, inf, {{0.3, 0.3}, {0.1, 0.2}, {-0.2, 0.6}, {1, 1}, c, c + TVec(0.2, 0.1)});
    }
    // B: every assignment of nothing, + or - to the sites of a 4x2 (thorough 3x3) lattice of spots
    {
        int W = T ? 3 : 4, H = T ? 3 : 2, n = W * H, tot = 1;
        for (int i = 0; i < n; i++) tot *= 3;
        for (int m = 1; m < tot; m++) {
            if (!mc::want(mc::fmt("lattice:%d", m))) continue;
            Space S; TVec inf; setup(S, m % 9, inf, 0);
            int k = m;
            for (int i = 0; i < n; i++, k /= 3) {
                double x = i % W * 3, y = i / W * 2.5;
                if (k % 3) for (int q = 0; q < 2; q++) S.VortexList.emplace_back(x + 0.2 * q, y + 0.15 * q, (k % 3 == 1 ? 1 : -1) * (1 + i * 0.1 + q));
                S.HeatList.emplace_back(x + 0.1, y, 1); S.StreakList.emplace_back(x, y + 0.1, MARK[(i + m) % 4]);
            }
            for (auto &o : S.VortexList) o._1_eps = 1 / (0.05 + 0.01 * (&o - &S.VortexList[0]));
            if (m % 5 == 0) { S.SourceList.emplace_back(1.5, 1, 2); S.SourceList.emplace_back(0.1, 0, -1); }
            one(S, 8, 0.01, 0.4, inf, {{0.1, 0}, {4, 2}, {3.1, 2.6}});
        }
    }
    // C: bodies: still, translating, rotating, both, with and without slip, points and elements near and far from every segment; sinks
    for (int nb = 0; nb <= 2; nb++) for (int mot = 0; mot < 8; mot++) for (int mot2 = 0; mot2 < (nb > 1 ? 8 : 1); mot2++) for (int slip = 0; slip < 4; slip++) for (int src = 0; src < 4; src++) for (int vor = 0; vor < 2; vor++) {
        if (!T && nb > 1 && (mot + mot2 + slip + src) % 2) continue;
        if (!mc::want(mc::fmt("bodies:%d:%d:%d:%d:%d:%d", nb, mot, mot2, slip, src, vor))) continue;
        Space S; TVec inf; setup(S, mot % 9, inf, 0);
        for (int b = 0; b < nb; b++) {
            auto p = ngon(5 + 3 * b, 0.5, TVec(2 * b, 0.3 * b));
            auto B = std::make_shared<TBody>();
            for (size_t i = 0; i < p.size(); i++) B->alist.emplace_back(p[i], slip == 1 || (slip == 2 && i % 2) || (slip == 3 && b));
            B->holder = TVec3D(0.1 + 2 * b, -0.2, 0); B->dpos = TVec3D(0.05, 0.01, 0);
            B->doUpdateSegments(); B->doFillProperties();
            int m = b ? mot2 : mot;
            B->speed_slae = TVec3D(m & 1 ? 0.7 : 0, m & 2 ? -0.4 : 0, m & 4 ? 1.3 : 0);
            for (auto &a : B->alist) a.g = 0.1 * (&a - &B->alist[0]) - 0.15;
            S.BodyList.push_back(B);
        }
        if (src & 1) S.SourceList.emplace_back(-1, 0.2, 1.5);
        if (src & 2) { S.SourceList.emplace_back(0.9, 0.9, -0.7); S.SourceList.emplace_back(3, -2, 0.2); }
        std::vector<TVec> pr = {{-1, 0.2}, {0.9, 0.9}, {5, 5}, {-7, 3}};
        for (auto &B : S.BodyList) for (auto &a : B->alist) {
            TVec nrm = rotl(a.dl) / a.dl.abs();
            for (double h : {-0.4, -0.1, 0.06, 0.3, 1.2}) pr.push_back(a.r + nrm * (h * a.dl.abs()) + a.dl * 0.13);
        }
        for (size_t i = 0; i < pr.size(); i += 1) { S.HeatList.emplace_back(pr[i].x, pr[i].y, 1); if (i % 2) S.StreakList.emplace_back(pr[i].x + 0.001, pr[i].y, MARK[i / 2 % 4]); if (vor && i % 3 == 0) S.VortexList.emplace_back(pr[i].x, pr[i].y, i % 2 ? 0.3 : -0.2); }
        for (auto &o : S.VortexList) o._1_eps = 1 / 0.04;
        one(S, 8, 0.1, 3, inf, pr);
        if (vor) one(S, 8, 0.01, 0.5, inf, pr);
    }
    // D: big lists (more than any chunk of the parallel loops), all the same cell and many cells
    for (int n : {15, 16, 17, 255, 256, 257, 600, 1100}) for (int list = 0; list < 3; list++) for (double mn : {1e9, 0.01}) {
        if (!mc::want(mc::fmt("big:%d:%d:%g", n, list, mn))) continue;
        Space S; TVec inf; setup(S, 5, inf, 0);
        auto &l = list == 0 ? S.VortexList : list == 1 ? S.HeatList : S.StreakList;
        for (int i = 0; i < n; i++) l.emplace_back(0.1 * (i % 37), 0.13 * (i / 37) + 0.003 * (i % 5), list == 2 ? MARK[i % 4] : (i % 3 ? 1 : -1) * 0.05);
        if (list) for (int i = 0; i < 20; i++) S.VortexList.emplace_back(0.2 * i, -0.5, 0.1 * (i % 2 ? 1 : -1));
        for (auto &o : S.VortexList) o._1_eps = 1 / 0.03;
        one(S, 8, mn, 1e10, inf, {{0.5, 0.5}});
    }
    mc::outcome("far-aggregates-bounded", nfar);
    return mc::finish();
}
