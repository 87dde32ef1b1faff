// C23: motion of bodies, chains and collisions: every small combination for a step, and whole motions between limits
#include "space_util.hpp"
#include "TSortedTree.hpp"
#include "MEpsilonFast.hpp"
#include "MConvectiveFast.hpp"
#include "MFlowmove.hpp"
#include <algorithm>

static Space *S;
static std::shared_ptr<TBody> pool[3];
static uint64_t g_frozen, g_steps, g_coll, g_bounce, g_zero;
static bool eq(double a, double b, double tol = 1e-11) { return mc::close(a, b, tol); }
static bool eq(TVec a, TVec b, double tol = 1e-11) { return eq(a.x, b.x, tol) && eq(a.y, b.y, tol); }
static TVec turn(TVec r, double a) { return TVec(r.x * cos(a) - r.y * sin(a), r.x * sin(a) + r.y * cos(a)); }
static void expr(TEval &e, const std::string &s) { if (std::string(e) != s) e = s; }
static double comp(const TVec3D &v, int i) { return i == 0 ? v.r.x : i == 1 ? v.r.y : v.o; }
static double &comp(TVec3D &v, int i) { return i == 0 ? v.r.x : i == 1 ? v.r.y : v.o; }

static std::shared_ptr<TBody> body(int i) {
    static const std::vector<TVec> sh[3] = {{{0, 0}, {0, 1}, {1, 1.2}, {1.1, 0}}, {{3, 0}, {3.2, 0.7}, {3.9, 0.1}}, {{-2, -3}, {-2, -2}, {-1, -2.2}, {-0.4, -2.6}, {-1, -3}}};
    auto &b = pool[i];
    if (!b) b = make_poly(sh[i]);
    for (size_t k = 0; k < sh[i].size(); k++) { auto &a = b->alist[k]; a.corner = sh[i][k]; a.g = a.gsum = 0; a.slip = 0; }
    b->holder = TVec3D(sh[i][0].x + 0.2, sh[i][0].y + 0.3, 0.1 * i); b->dpos = TVec3D(); b->kspring = TVec3D(INFINITY, INFINITY, INFINITY); b->damping = TVec3D();
    b->speed_slae = b->speed_slae_prev = b->friction = b->friction_prev = b->fdt_dead = b->force_hydro = b->force_holder = TVec3D(); b->g_dead = 0;
    b->collision_min = b->collision_max = TVec3D(NAN, NAN, NAN); b->bounce = 0; b->density = 1; b->special_segment_no = 0; b->boundary_condition = bc_t::steady;
    b->root_body.reset();
    b->doUpdateSegments(); b->doFillProperties();
    return b;
}

// time till a limit is reached within the step, NAN if it is not; a body at its limit (or beyond) collides at once if it moves on
static double limit(double p, double v, double dt, double lo, double hi) {
    double q = p + dt * v;
    if (q > hi && q > p) return std::max(0., (hi - p) / v);
    if (q < lo && q < p) return std::max(0., (lo - p) / v);
    return NAN;
}
struct Before { TVec3D holder, dpos, v, own; TVec axis; std::vector<TVec> c; int root; double h_o, d_o; };
// moves everything and compares with the laws; returns the component which has hit its limit (or -1) and the part of the step
static int step(const std::string &where, double *part = nullptr, bool judge_shape = true) {
    g_steps++;
    size_t n = S->BodyList.size();
    std::vector<Before> b;
    double dt = S->dt, cur = dt; std::set<int> hit; // all components with the shortest time
    for (auto &x : S->BodyList) {
        Before q; q.holder = x->holder; q.dpos = x->dpos; q.v = x->speed_slae; q.own = x->speed(S->time); q.axis = x->get_axis(); for (auto &a : x->alist) q.c.push_back(a.corner);
        auto r = x->root_body.lock(); q.root = -1; for (size_t i = 0; i < n; i++) if (S->BodyList[i] == r) q.root = i;
        b.push_back(q);
    }
    for (size_t k = 0; k < n; k++) for (int i = 0; i < 3; i++) {
        TBody &x = *S->BodyList[k];
        double ks = comp(x.kspring, i), p = comp(x.holder, i) + comp(x.dpos, i), v = comp(x.speed_slae, i), hi = comp(x.collision_max, i), lo = comp(x.collision_min, i), t = NAN;
        if (!(ks >= 0 && std::isfinite(ks))) continue;
        t = limit(p, v, dt, lo, hi);
        if (!(t < cur)) continue;
        cur = t;
    }
    for (size_t k = 0; k < n; k++) for (int i = 0; i < 3; i++) {
        TBody &x = *S->BodyList[k];
        double ks = comp(x.kspring, i), p = comp(x.holder, i) + comp(x.dpos, i), v = comp(x.speed_slae, i), hi = comp(x.collision_max, i), lo = comp(x.collision_min, i);
        if (!(ks >= 0 && std::isfinite(ks))) continue;
        double t = limit(p, v, dt, lo, hi);
        if (t < dt && std::fabs(t - cur) < 1e-12) hit.insert(k * 3 + i);
    }
    S->VortexList = {TObj(20, 21, 1), TObj(-20, 5, -2)}; S->VortexList[0].v = TVec(1, 2); S->VortexList[1].v = TVec(-3, 0.5);
    S->StreakList = {TObj(22, 1, 1)}; S->StreakList[0].v = TVec(0.5, 0.25);
    S->HeatList.clear();
    TVec im = S->inf_marker;
    MFlowmove fm(S);
    const void *col = S;
    fm.move_and_clean(true, &col);
    if (part) *part = cur / dt;
    // what was hit
    int got = -1;
    for (size_t k = 0; k < n; k++) for (int i = 0; i < 3; i++) { TBody &x = *S->BodyList[k]; const void *p = i == 0 ? &x.kspring.r.x : i == 1 ? &x.kspring.r.y : &x.kspring.o; if (p == col) got = k * 3 + i; }
    mc::require(hit.empty() ? col == nullptr : hit.count(got) > 0, hit.empty() ? "collision-invented" : "collision-missed", where + mc::fmt(" got %d expected %d of %zu", got, hit.empty() ? -1 : *hit.begin(), hit.size()));
    if (got >= 0) g_coll++;
    // the flow moves for the same time
    mc::require(eq(S->VortexList[0].r, TVec(20, 21) + TVec(1, 2) * cur) && eq(S->VortexList[1].r, TVec(-20, 5) + TVec(-3, 0.5) * cur) && eq(S->StreakList[0].r, TVec(22, 1) + TVec(0.5, 0.25) * cur), "flow-moved", where);
    mc::require(eq(S->inf_marker, im + S->inf_speed() * cur), "far-marker", where);
    // positions: the holder is carried by the root, the deflection changes by the relative speed
    std::vector<TVec3D> nh(n), nd(n); std::vector<int> done(n);
    std::function<void(int)> calc = [&](int k) {
        if (done[k]++) return;
        Before &q = b[k]; TVec hold = q.own.r; double ho = q.own.o; TVec h = q.holder.r + q.own.r * cur;
        if (q.root >= 0) {
            calc(q.root); Before &r = b[q.root]; TVec arm = q.holder.r - r.axis;
            hold += r.v.r + rotl(arm) * r.v.o; ho += r.v.o;
            h = nh[q.root].r + nd[q.root].r + turn(arm, r.v.o * cur) + q.own.r * cur;
        }
        nh[k].r = h; nh[k].o = q.holder.o + ho * cur;
        nd[k].r = q.dpos.r + (q.v.r - hold) * cur; nd[k].o = q.dpos.o + (q.v.o - ho) * cur;
    };
    for (size_t k = 0; k < n; k++) {
        calc(k);
        TBody &x = *S->BodyList[k]; std::string w = where + mc::fmt(" body %zu", k);
        mc::require(eq(x.holder.r, nh[k].r, 1e-10) && eq(x.holder.o, nh[k].o), "holder", w + mc::fmt(": (%.10g,%.10g,%.10g) expected (%.10g,%.10g,%.10g)", x.holder.r.x, x.holder.r.y, x.holder.o, nh[k].r.x, nh[k].r.y, nh[k].o));
        mc::require(eq(x.dpos.r, nd[k].r, 1e-10) && eq(x.dpos.o, nd[k].o), "deflection", w + mc::fmt(": (%.10g,%.10g,%.10g) expected (%.10g,%.10g,%.10g)", x.dpos.r.x, x.dpos.r.y, x.dpos.o, nd[k].r.x, nd[k].r.y, nd[k].o));
        TVec axis = nh[k].r + nd[k].r; double a = b[k].v.o * cur;
        for (size_t i = 0; i < x.alist.size(); i++) if (!mc::require(eq(x.alist[i].corner, axis + turn(b[k].c[i] - b[k].axis, a), 1e-10), "contour", w + mc::fmt(" corner %zu", i))) break;
        mc::require(eq(x.speed_slae_prev.r, b[k].v.r) && x.speed_slae_prev.o == b[k].v.o, "speed-kept", w);
        if (b[k].root < 0 || !b[b[k].root].v.o) for (int i = 0; i < 3; i++) {
            double ks = comp(x.kspring, i), p0 = comp(b[k].holder, i) + comp(b[k].dpos, i), p = comp(x.holder, i) + comp(x.dpos, i), hi = comp(x.collision_max, i), lo = comp(x.collision_min, i);
            if (!(ks >= 0 && std::isfinite(ks))) continue;
            mc::require(!(p > hi + 1e-9 && p > p0 + 1e-12) && !(p < lo - 1e-9 && p < p0 - 1e-12), "limit-passed", w + mc::fmt(" component %d: %.12g between %.12g and %.12g", i, p, lo, hi));
        }
    }
    return got;
}

static void set(int n) { S->BodyList.clear(); for (int i = 0; i < n; i++) S->BodyList.push_back(body(i)); S->EnumerateBodies(); }
// rigid components follow the root
static void carry() {
    size_t n = S->BodyList.size();
    for (size_t pass = 0; pass < n; pass++) for (auto &x : S->BodyList) {
        auto r = x->root_body.lock(); TVec3D v = x->speed(S->time);
        if (r) { v.r += r->speed_slae.r + rotl(x->get_axis() - r->get_axis()) * r->speed_slae.o; v.o += r->speed_slae.o; }
        for (int i = 0; i < 3; i++) if (TBody::isrigid(comp(x->kspring, i))) comp(x->speed_slae, i) = comp(v, i);
    }
}

int main(int argc, char **argv) {
    mc::init(argc, argv);
    bool T = mc::thorough();
    static Space SS; S = &SS;
    S->dt = TTime(1, 10);
    expr(S->inf_vx, "1+t"); expr(S->inf_vy, "0.25");
    const char *sx[] = {"0", "0.7", "1-t"}, *so[] = {"0", "0.9", "-2+t"};
    // A: three bodies, every tree of roots, every kind of own motion, rigid or elastic, deflected or not, for three steps
    {
        std::vector<std::array<int, 3>> trees;
        for (int a = -1; a < 3; a++) for (int b = -1; b < 3; b++) for (int c = -1; c < 3; c++) {
            std::array<int, 3> t = {a, b, c}; bool ok = true;
            for (int k = 0; k < 3; k++) { int x = k, d = 0; while (x >= 0 && d < 5) { x = t[x]; d++; } if (d >= 5) ok = false; }
            if (ok) trees.push_back(t);
        }
        for (size_t tr = 0; tr < trees.size(); tr++) for (int m0 = 0; m0 < 4; m0++) for (int m1 = 0; m1 < 4; m1++) for (int m2 = 0; m2 < 4; m2++) {
            if (!mc::want(mc::fmt("chain:%zu:%d%d%d", tr, m0, m1, m2))) continue;
            mc::S().evaluations--;
            int m[3] = {m0, m1, m2};
            for (int el = 0; el < (T ? 64 : 16); el++) for (int df = 0; df < 2; df++) {
                set(3); S->time = TTime(0, 1);
                for (int k = 0; k < 3; k++) {
                    auto &x = *S->BodyList[k];
                    if (trees[tr][k] >= 0) x.root_body = S->BodyList[trees[tr][k]];
                    expr(x.speed_x, m[k] & 1 ? sx[1 + k % 2] : "0"); expr(x.speed_y, m[k] & 1 ? "-0.3" : "0"); expr(x.speed_o, m[k] & 2 ? so[1 + k % 2] : "0");
                    int e = el >> (k == 0 ? 0 : k == 1 ? 2 : 4) & 3;
                    if (!T && k == 2) e = (el * 5 + 1) & 3;
                    if (e & 1) { x.kspring.r = TVec(2, 3); x.speed_slae.r = TVec(0.4 - k, 0.2 * k + 0.1); }
                    if (e & 2) { x.kspring.o = 1; x.speed_slae.o = 0.6 - 0.5 * k; }
                    if (df) { x.dpos = TVec3D(0.1 * k + 0.1, -0.05, 0.2); x.doFillProperties(); }
                }
                for (int s = 0; s < 3; s++) { carry(); step(mc::fmt("elastic %d deflected %d step %d", el, df, s)); S->finish_step(); S->time = TTime(s + 1, 10); }
                mc::S().evaluations++; mc::nontrivial();
            }
        }
    }
    // B: one body: every combination of limits and speeds of the three components
    {
        const double lim[] = {NAN, INFINITY, 0, 0.03, 0.0999, 0.1, 0.15, -0.02}; // ahead of the present position; a speed of 1 goes 0.1
        const double sp[] = {0, 1, -0.5};
        for (int c0 = 0; c0 < 192; c0++) {
            if (!mc::want(mc::fmt("limits:%d", c0))) continue;
            mc::S().evaluations--;
            for (int c1 = 0; c1 < 192; c1 += T ? 1 : 7) for (int c2 = 0; c2 < 192; c2 += T ? 5 : 11) {
                set(1); S->time = TTime(1, 1); auto &x = *S->BodyList[0];
                expr(x.speed_x, "0"); expr(x.speed_y, "0"); expr(x.speed_o, "0");
                int c[3] = {c0, c1, c2}; bool bad = false;
                for (int i = 0; i < 3; i++) {
                    int hi = c[i] & 7, lo = c[i] >> 3 & 7, v = (c[i] / 64) % 3;
                    comp(x.kspring, i) = 1; comp(x.dpos, i) = 0.05 * i;
                    if (c[i] == 64 * v + 9 && v) comp(x.kspring, i) = i == 1 ? -1 : INFINITY; // not elastic: limits do not matter
                    double p = comp(x.holder, i) + comp(x.dpos, i);
                    if (hi != 7) comp(x.collision_max, i) = hi == 0 ? NAN : hi == 1 ? INFINITY : p + lim[hi];
                    if (lo != 7) comp(x.collision_min, i) = lo == 0 ? NAN : lo == 1 ? -INFINITY : p - lim[lo];
                    comp(x.speed_slae, i) = sp[v];
                }
                x.doFillProperties(); carry();
                if (step(mc::fmt("%d %d %d", c[0], c[1], c[2])) >= 0) mc::nontrivial();
                mc::S().evaluations++;
            }
        }
    }
    // C: two bodies with limits on some components each, in chain or not: the earliest one counts for all
    {
        const double lim[] = {NAN, 0.02, 0.05, 0.09, 0.2};
        for (int a = 0; a < 125; a++) for (int rt = 0; rt < 3; rt++) {
            if (!mc::want(mc::fmt("two:%d:%d", a, rt))) continue;
            mc::S().evaluations--;
            for (int bq = 0; bq < 125; bq++) for (int el = 0; el < 4; el++) {
                set(2); S->time = TTime(1, 1);
                if (rt) S->BodyList[rt - 1]->root_body = S->BodyList[2 - rt];
                int q[2] = {a, bq};
                for (int k = 0; k < 2; k++) {
                    auto &x = *S->BodyList[k]; expr(x.speed_x, k ? "0" : "0.3"); expr(x.speed_y, "0"); expr(x.speed_o, "0");
                    for (int i = 0, z = q[k]; i < 3; i++, z /= 5) {
                        double p = comp(x.holder, i), v = (k + i) % 2 ? -1 : 0.8;
                        comp(x.kspring, i) = el >> k & 1 ? INFINITY : 0.5; comp(x.speed_slae, i) = v;
                        if (v > 0) comp(x.collision_max, i) = p + lim[z % 5]; else comp(x.collision_min, i) = p - lim[z % 5];
                    }
                }
                carry();
                if (step(mc::fmt("%d elastic %d", bq, el)) >= 0) mc::nontrivial();
                mc::S().evaluations++;
            }
        }
    }
    // D: whole motions between limits with all parts of the solver: heavy bodies, so what happens is known
    for (int nb = 1; nb <= 2; nb++) for (int el = 1; el < 8; el++) for (int bo = 0; bo < 4; bo++) for (int sc = 0; sc < (T ? 12 : 6); sc++) {
        if (!mc::want(mc::fmt("motion:%d:%d:%d:%d", nb, el, bo, sc))) continue;
        const double B[] = {0, 0.5, 1, 0.25};
        set(nb); S->dt = TTime(1, 20); S->time = TTime(1, 20); S->re = 100; S->inf_g = 0;
        S->gravity = sc % 3 == 1 ? TVec(0.3, -1) : sc % 3 == 2 ? TVec(0, 0.7) : TVec();
        if (nb == 2 && sc % 2) S->BodyList[1]->root_body = S->BodyList[0];
        for (int k = 0; k < nb; k++) {
            auto &x = *S->BodyList[k]; expr(x.speed_x, "0"); expr(x.speed_y, "0"); expr(x.speed_o, "0"); expr(x.force_o, "0");
            x.density = 1e5; x.bounce = B[bo]; x.doFillProperties();
            if (nb == 2 && sc % 2) continue; // see below
            for (int i = 0; i < 3; i++) if (el >> i & 1) {
                comp(x.kspring, i) = 0; double p = comp(x.holder, i); comp(x.collision_max, i) = p + 0.13 + 0.05 * i; comp(x.collision_min, i) = p - 0.21 + 0.02 * k;
                comp(x.speed_slae_prev, i) = comp(x.speed_slae, i) = ((sc + i + k) % 2 ? 0.8 : -1.1) * (1 + 0.25 * (sc / 3));
            }
        }
        if (nb == 2 && sc % 2) { // only the second one is elastic, against a resting root
            auto &x = *S->BodyList[1];
            for (int i = 0; i < 3; i++) if (el >> i & 1) { comp(x.kspring, i) = 0; double p = comp(x.holder, i); comp(x.collision_max, i) = p + 0.13; comp(x.collision_min, i) = p - 0.21; comp(x.speed_slae_prev, i) = comp(x.speed_slae, i) = sc % 4 == 1 ? 0.9 : -1.3; }
        }
        TSortedTree tree(S, 8, 1, 100); MConvectiveFast conv(S, &tree);
        const void *col = nullptr; int last = -1, stuck = 0; std::string where;
        std::vector<TVec3D> lastv(nb);
        for (int s = 0; s < (T ? 120 : 60); s++) {
            S->VortexList.clear(); S->StreakList.clear();
            tree.build();
            std::vector<TVec3D> v0; for (auto &x : S->BodyList) v0.push_back(x->speed_slae_prev);
            if (col) conv.calc_circulation(&col);
            conv.calc_circulation(&col);
            tree.destroy();
            where = mc::fmt("step %d", s);
            for (int k = 0; k < nb; k++) for (int i = 0; i < 3; i++) {
                TBody &x = *S->BodyList[k];
                if (!(el >> i & 1) || !std::isfinite(comp(x.kspring, i))) continue;
                double v = comp(x.speed_slae, i), w = comp(v0[k], i);
                // free fall changes the speed by g dt; the fluid is 1e5 times lighter; rotation couples the components
                double g = (i == 0 ? S->gravity.x : i == 1 ? S->gravity.y : 0) * 0.05, tol = 2e-3 * (1 + std::fabs(w));
                bool coupled = el >> 2 & 1; // an axis off the centre of mass
                if (last == k * 3 + i && !coupled) {
                    g_bounce++;
                    double e = -x.bounce * (w + g);
                    mc::require(std::fabs(v - e) < tol, "bounce", where + mc::fmt(" body %d component %d: speed %g after %g, restitution %g", k, i, v, w, x.bounce));
                } else if (last < 0 && !coupled) mc::require(std::fabs(v - w - g) < tol, "inertia", where + mc::fmt(" body %d component %d: speed %g after %g", k, i, v, w));
                if (last == k * 3 + i && coupled && x.bounce > 0.2 && std::fabs(w) > 0.3) { g_bounce++; mc::require(v * w < 0, "not-reversed", where + mc::fmt(" body %d component %d: speed %g after %g, restitution %g", k, i, v, w, x.bounce)); }
            }
            for (auto &x : S->BodyList) for (auto &a : x->alist) a.g = 0;
            double part = 1;
            last = step(where, &part);
            // the collision pointer of the loop
            col = nullptr;
            if (last >= 0) { TBody &x = *S->BodyList[last / 3]; col = last % 3 == 0 ? &x.kspring.r.x : last % 3 == 1 ? &x.kspring.r.y : &x.kspring.o; }
            stuck = part < 1e-9 ? stuck + 1 : 0; if (part < 1e-9) g_zero++;
            mc::require(part >= -1e-9, "time-goes-back", where + mc::fmt(" %g", part));
            // several components at their limits at once: see E
            bool many = nb * __builtin_popcount(el) > 1 && B[bo] < 1;
            if (stuck >= 10) { if (many) g_frozen++; else mc::fail("stuck", where); break; }
            for (auto &x : S->BodyList) { x->fdt_dead = TVec3D(); x->g_dead = 0; for (auto &a : x->alist) a.gsum = 0; }
            S->finish_step();
        }
        S->dt = TTime(1, 10);
        mc::nontrivial(); mc::sample(mc::S().cur_id);
    }
    // E: a body resting in a corner, that is on the limits of two of its components
    if (mc::want("corner")) {
        set(1); S->dt = TTime(1, 20); S->time = TTime(1, 20); S->re = 100; S->inf_g = 0; S->gravity = TVec(1, -1);
        auto &x = *S->BodyList[0]; expr(x.speed_x, "0"); expr(x.speed_y, "0"); expr(x.speed_o, "0"); expr(x.force_o, "0");
        x.density = 1e5; x.doFillProperties();
        x.kspring.r = TVec(0, 0); x.collision_max.r.x = x.holder.r.x + 0.001; x.collision_min.r.y = x.holder.r.y - 0.001;
        TSortedTree tree(S, 8, 1, 100); MConvectiveFast conv(S, &tree);
        const void *col = nullptr; int frozen = 0;
        for (int s = 0; s < 40; s++) {
            S->VortexList.clear(); S->StreakList.clear(); tree.build();
            if (col) conv.calc_circulation(&col);
            conv.calc_circulation(&col); tree.destroy();
            for (auto &a : x.alist) a.g = 0;
            double part = 1; int last = step(mc::fmt("corner step %d", s), &part);
            col = last < 0 ? nullptr : last == 0 ? &x.kspring.r.x : &x.kspring.r.y;
            x.fdt_dead = TVec3D(); x.g_dead = 0; for (auto &a : x.alist) a.gsum = 0;
            frozen = part < 1e-9 ? frozen + 1 : 0;
            S->finish_step();
        }
        mc::require(frozen < 10, "frozen", mc::fmt("the flow has not moved for %d steps", frozen));
        S->dt = TTime(1, 10); mc::nontrivial();
    }
    mc::outcome("motions ended by resting on two limits", g_frozen);
    mc::outcome("steps", g_steps); mc::outcome("collisions", g_coll); mc::outcome("bounces judged", g_bounce); mc::outcome("steps of no duration", g_zero);
    return mc::finish();
}
