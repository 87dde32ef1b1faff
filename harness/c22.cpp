// C22: the solution of every small system put into equations of our own (long double), for every kind of body and every history
#include "space_util.hpp"
#include "TSortedTree.hpp"
#include "MEpsilonFast.hpp"
#include "MConvectiveFast.hpp"
#include <algorithm>

typedef long double LD;
struct V { LD x, y; };
static V operator+(V a, V b) { return {a.x + b.x, a.y + b.y}; }
static V operator-(V a, V b) { return {a.x - b.x, a.y - b.y}; }
static V operator*(LD k, V a) { return {k * a.x, k * a.y}; }
static LD dot(V a, V b) { return a.x * b.x + a.y * b.y; }
static LD cross(V a, V b) { return a.x * b.y - a.y * b.x; }
static V left(V a) { return {-a.y, a.x}; }
static V v(TVec a) { return {a.x, a.y}; }
static const LD PI = 3.14159265358979323846264338327950288L;

static uint64_t g_solved, g_inverse, g_eq[8], g_near, g_mixed;
enum { WALL, TOTAL, STEADY, KUTTA, FORCE, NEWTON, SPRING, PRESCRIBED };
static LD g_worst;
static double g_tol = 1e-9;

// residual with the scale of its terms
struct Sum { LD s = 0, a = 0; void operator+=(LD x) { s += x; a += fabsl(x); } void operator-=(LD x) { s -= x; a += fabsl(x); } };
static void zero(int kind, const char *what, const Sum &r, const std::string &where) {
    g_eq[kind]++;
    LD rel = fabsl(r.s) / (0.1L + r.a);
    if (rel > g_worst) g_worst = rel;
    if (!(rel < g_tol)) mc::fail(what, mc::fmt("%s: residual %.6Lg of terms %.6Lg", where.c_str(), r.s, r.a));
}

// flow of a unit vortex (first) and source (second) with core rd at p through the segment a-b, times 2 pi
static V flux(V p, V a, V b, LD rd) {
    auto far = [&](V a, V b) { V d1 = a - p, d2 = b - p; return V{0.5L * logl(dot(d2, d2) / dot(d1, d1)), -atan2l(cross(d1, d2), dot(d1, d2))}; };
    auto near = [&](V a, V b) { V d = 0.5L * (a + b) - p, l = b - a; return (1 / (rd * rd)) * V{dot(d, l), -cross(d, l)}; };
    LD r1 = dot(a - p, a - p), r2 = dot(b - p, b - p), R = rd * rd;
    bool n1 = r1 < R, n2 = r2 < R;
    if (n1 && n2) { g_near++; return near(a, b); }
    if (!n1 && !n2) return far(a, b);
    g_mixed++;
    // the point of the segment on the circle
    V l = b - a, d = a - p; LD A = dot(l, l), B = dot(d, l), C = dot(d, d) - R, q = sqrtl(B * B - A * C), t = (-B + q) / A;
    if (t < 0 || t > 1) t = (-B - q) / A;
    V m = a + t * l;
    return n1 ? near(a, m) + far(m, b) : far(a, m) + near(m, b);
}

// how well-defined: distances on the border of a core are not judged
static bool border(V p, V a, V b, LD rd) { for (V c : {a, b}) if (fabsl(sqrtl(dot(c - p, c - p)) / rd - 1) < 1e-9) return true; return false; }

struct Geo { V c, r, dl; };
struct Snap { std::vector<std::vector<Geo>> g; };

static bool check(Space &S, const stree &tree, const std::vector<std::array<LD, 3>> &collided, const std::string &where) {
    // collided[b*3+component] = {kind (0 none, 1 the speed vanishes, 2 bounced), force of the first solution}
    LD dt = (double)S.dt;
    g_solved++;
    size_t nb = S.BodyList.size();
    for (size_t b = 0; b < nb; b++) for (auto &a : S.BodyList[b]->alist)
        if (!std::isfinite(a.g)) { mc::fail("not-finite", where); return false; }
    double t = S.time;
    V inf = v(S.inf_speed());
    bool once = false;
    for (size_t b = 0; b < nb; b++) {
        TBody &B = *S.BodyList[b];
        std::string wb = where + mc::fmt(" body %zu", b);
        LD area = B.get_area(), ro = B.density, w = B.speed_slae.o, w0 = B.speed_slae_prev.o;
        V ax = v(B.get_axis()), com = v(B.get_cofm()), rc = com - ax, vv = v(B.speed_slae.r), v0 = v(B.speed_slae_prev.r);
        V acc = (1 / dt) * (vv - v0); LD al = (w - w0) / dt;
        LD J = B.get_moi_axis();
        int si = 0;
        for (auto &seg : B.alist) {
            std::string ws = wb + mc::fmt(" segment %d", si);
            if (si++ == B.special_segment_no) {
                Sum s;
                if (B.boundary_condition == bc_t::kutta) { s += seg.g; zero(KUTTA, "kutta", s, ws); continue; }
                if (!once) {
                    once = true;
                    for (auto &o : S.VortexList) s += o.g;
                    s += S.inf_g;
                    for (auto &B2 : S.BodyList) { for (auto &a : B2->alist) s += a.g; s += 2 * (LD)B2->get_area() * B2->speed_slae.o; }
                    zero(TOTAL, "total-circulation", s, ws);
                } else {
                    for (auto &a : B.alist) s += a.g;
                    s += 2 * area * w; s -= 2 * area * w0; s -= B.g_dead;
                    zero(STEADY, "circulation-of-body", s, ws);
                }
                continue;
            }
            V c1 = v(seg.corner), dl = v(seg.dl), c2 = c1 + dl;
            Sum s;
            s += cross(dl, inf);
            for (auto &o : S.SourceList) { V d = v(seg.r) - v(o.r); LD e = fabsl((LD)o.g) * dt / PI; s += cross(dl, (o.g / (dot(d, d) + e) / (2 * PI)) * d); }
            const TSortedNode *node = tree.findNode(seg.r);
            bool bad = false;
            for (auto nn : *node->NearNodes) for (TObj *o = nn->vRange.first; o < nn->vRange.last; o++) if (o->g) { bad |= border(v(o->r), c1, c2, 1 / (LD)o->_1_eps); s += o->g * flux(v(o->r), c1, c2, 1 / (LD)o->_1_eps).x / (2 * PI); }
            for (auto fn : *node->FarNodes) for (auto *m : {&fn->CMp, &fn->CMm}) if (m->g) s += m->g * flux(v(m->r), c1, c2, 1e-30L).x / (2 * PI);
            s -= cross(dl, vv); // of the own body relative to the wall
            for (auto &B2 : S.BodyList) {
                bool rot = B2->speed_slae.o != 0;
                V ax2 = v(B2->get_axis());
                for (auto &a : B2->alist) {
                    V al = v(a.dl); LD rd = sqrtl(dot(al, al)) / 4;
                    bad |= border(v(a.corner), c1, c2, rd);
                    s += a.g * flux(v(a.corner), c1, c2, rd).x / (2 * PI);
                    if (!rot) continue;
                    V p = v(a.r), r0 = p - ax2;
                    if (&a == &seg) p = p + 0.001L * left(dl);
                    bad |= border(p, c1, c2, rd);
                    V xi = flux(p, c1, c2, rd);
                    s -= B2->speed_slae.o * (xi.x * cross(r0, al) - xi.y * dot(r0, al)) / (2 * PI);
                }
            }
            if (!bad) zero(WALL, "flow-through-wall", s, ws);
        }
        // hydrodynamic force and moment
        {
            V F = {0, 0}; Sum x, y, m;
            for (auto &a : B.alist) { V c = v(a.corner); x += -(LD)a.g * c.y / dt; y += (LD)a.g * c.x / dt; V q = c - ax; m += (LD)a.g * dot(q, q) / 2 / dt; }
            V k = 2 * com + rc;
            x += area * acc.x; y += area * acc.y; x += -k.y * area * al; y += k.x * area * al;
            x -= w0 * w0 * area * rc.x; y -= w0 * w0 * area * rc.y;
            x += B.friction_prev.r.x; y += B.friction_prev.r.y; x -= B.fdt_dead.r.x / dt; y -= B.fdt_dead.r.y / dt;
            x -= B.force_hydro.r.x; y -= B.force_hydro.r.y;
            m += area * cross(rc, acc); m += 2 * J * al; m += B.friction_prev.o; m -= B.fdt_dead.o / 2 / dt; m -= B.force_hydro.o;
            zero(FORCE, "hydrodynamic-force", x, wb + " x"); zero(FORCE, "hydrodynamic-force", y, wb + " y"); zero(FORCE, "hydrodynamic-moment", m, wb);
        }
        // second law
        {
            Sum x, y, m; V g = v(S.gravity);
            auto ac = [&](Sum &s, LD k, LD lin, LD rot, LD cen) { s -= k * lin; s -= k * rot; s += k * cen; };
            ac(x, ro * area, acc.x, -rc.y * al, rc.x * w0 * w0); ac(y, ro * area, acc.y, rc.x * al, rc.y * w0 * w0);
            x += (ro - 1) * area * g.x; y += (ro - 1) * area * g.y;
            x += B.force_hydro.r.x; y += B.force_hydro.r.y; x -= B.force_holder.r.x; y -= B.force_holder.r.y;
            m -= ro * area * cross(rc, acc); m -= ro * J * al; m += (ro - 1) * area * cross(rc, g); m += B.force_hydro.o; m -= B.force_holder.o;
            for (auto &C : S.BodyList) if (C->root_body.lock().get() == &B) {
                x += C->force_holder.r.x; y += C->force_holder.r.y;
                m += C->force_holder.o; m += cross(v(C->get_axis()) - ax, v(C->force_holder.r));
            }
            zero(NEWTON, "second-law", x, wb + " x"); zero(NEWTON, "second-law", y, wb + " y"); zero(NEWTON, "second-law-moment", m, wb);
        }
        // springs and prescribed motion
        auto root = B.root_body.lock();
        LD wr = root ? root->speed_slae.o : 0; V vr = root ? v(root->speed_slae.r) : V{0, 0}, arm = root ? ax - v(root->get_axis()) : V{0, 0};
        LD sp[3] = {B.speed_slae.r.x, B.speed_slae.r.y, B.speed_slae.o}, fh[3] = {B.force_holder.r.x, B.force_holder.r.y, B.force_holder.o};
        LD ks[3] = {B.kspring.r.x, B.kspring.r.y, B.kspring.o}, dm[3] = {B.damping.r.x, B.damping.r.y, B.damping.o}, dp[3] = {B.dpos.r.x, B.dpos.r.y, B.dpos.o};
        LD pre[3] = {(LD)B.speed_x.eval(t), (LD)B.speed_y.eval(t), (LD)B.speed_o.eval(t)}, carried[3] = {vr.x - wr * arm.y, vr.y + wr * arm.x, wr};
        for (int i = 0; i < 3; i++) {
            Sum s; auto &c = collided[b * 3 + i];
            bool rigid = !(ks[i] >= 0 && std::isfinite((double)ks[i])) || !(t > 0);
            std::string w = wb + mc::fmt(" component %d", i);
            if (rigid) { s += sp[i]; s -= pre[i]; s -= carried[i]; zero(PRESCRIBED, "prescribed-motion", s, w); continue; }
            if (c[0] == 1) { s += sp[i]; zero(SPRING, "collision-stop", s, w); continue; }
            s += fh[i]; s -= dm[i] * sp[i]; s -= ks[i] * dp[i];
            if (i == 2) s -= (LD)B.force_o.eval(t);
            if (c[0] == 2) s -= (1 + (LD)B.bounce) * c[1];
            zero(SPRING, c[0] == 2 ? "collision-bounce" : "spring", s, w);
        }
    }
    return true;
}

static Space *S;
static std::map<std::string, std::shared_ptr<TBody>> cache;

static std::vector<TVec> shape(int k) {
    switch (k) {
        case 0: return {{-0.5, -0.5}, {-0.6, 0.4}, {0.5, 0.55}, {0.45, -0.5}};
        case 1: { auto c = ngon(5, 0.4, TVec(2, 0.3)); std::reverse(c.begin(), c.end()); return c; }
        case 2: { auto c = ngon(6, 5, TVec(0.2, 0.1)); return c; }                                                         // domain
        case 3: return {{-2, -0.2}, {-2.02, 0}, {-2, 0.2}, {-1.2, 0.12}, {-1, 0.02}, {-1.5, -0.3}};
        case 4: return {{0.44, -0.02}, {0.45, 0.02}, {0.52, 0.03}, {0.53, -0.03}};                                          // tiny, at the middle of the side of 0
        case 6: return {{-0.9, 0.2}, {-0.9, 0.28}, {-0.5, 0.28}, {0.7, 0.28}, {1.1, 0.28}, {1.1, 0.2}, {0.1, 0.2}};          // thin, sides divided differently
        default: return {{-0.3, 1}, {0, 1.4}, {0.3, 1}, {0.3, 0.99}, {-0.3, 0.98}};                                         // thin parts
    }
}

static std::shared_ptr<TBody> body(int slot, int sh) {
    auto &b = cache[mc::fmt("%d:%d", slot, sh)];
    if (!b) b = make_poly(shape(sh));
    auto c = shape(sh);
    for (size_t i = 0; i < c.size(); i++) { auto &a = b->alist[i]; a.corner = c[i]; a.slip = 0; a.g = a.gsum = a.fric = 0; }
    b->holder = TVec3D(b->alist[0].corner.x + 0.3, b->alist[0].corner.y + 0.1 * slot, 0.2 * slot); b->dpos = TVec3D();
    b->kspring = TVec3D(INFINITY, INFINITY, INFINITY); b->damping = TVec3D(); b->speed_slae = b->speed_slae_prev = TVec3D();
    b->friction = b->friction_prev = b->fdt_dead = b->force_hydro = b->force_holder = TVec3D(); b->g_dead = 0;
    b->density = 1; b->special_segment_no = 0; b->boundary_condition = bc_t::steady; b->bounce = 0;
    b->root_body.reset();
    b->doUpdateSegments(); b->doFillProperties();
    return b;
}
static void expr(TEval &e, const char *s) { if (std::string(e) != s) e = std::string(s); }

// what the step left behind
static void prev(TBody &b, int k) {
    if (!k) return;
    b.speed_slae_prev = TVec3D(0.3 * k, -0.2, k == 2 ? 0.7 : 0);
    b.friction_prev = TVec3D(0.01, 0.02 * k, -0.03);
    b.fdt_dead = TVec3D(-0.004, 0.003 * k, 0.002); b.g_dead = 0.05 * k;
}
static void spring(TBody &b, int pat, double scale) {
    double inf = INFINITY;
    b.kspring = TVec3D(pat & 1 ? 3 * scale : inf, pat & 2 ? 0.0 * scale : pat & 4 ? -1 : inf, pat & 4 ? 5 * scale : inf);
    b.dpos = TVec3D(pat & 1 ? 0.03 : 0, pat & 2 ? -0.02 : 0, pat & 4 ? 0.04 : 0);
    b.damping = TVec3D(0.4, pat & 1 ? 0 : 0.3, 0.2);
}
static void vortices(int k) {
    S->VortexList.clear(); S->SourceList.clear();
    if (k == 1) S->VortexList = {TObj(0.9, 1.1, 0.7), TObj(-0.8, 0.3, -0.4), TObj(0.02, 0.6, 0.3)};
    if (k == 2) { for (int i = 0; i < 40; i++) S->VortexList.emplace_back(1.1 + 0.17 * (i % 8) + 0.01 * (i % 3), -1.5 + 0.23 * (i / 8) + 0.02 * (i % 5), (i % 3 ? 1 : -1) * (0.1 + i / 64.)); S->SourceList = {TObj(1.5, 1.5, 0.8), TObj(-1.4, 1.2, -0.5)}; }
    if (k == 3) S->VortexList = {TObj(-0.53, 0.1, 1.0), TObj(0.49, 0.2, -0.6), TObj(0.485, 0.19, 0.3)}; // within their cores of the wall
}
struct Solver {
    std::unique_ptr<stree> t; std::unique_ptr<MConvectiveFast> c;
    Solver() { t.reset(new stree(S, 8, 0.15, 100)); c.reset(new MConvectiveFast(S, t.get())); }
    void build() { t->build(); MEpsilonFast(S, t.get()).CalcEpsilonFast(false); }
    void done() { t->destroy(); }
};
typedef std::vector<std::array<LD, 3>> Col;

static void solve1(const std::string &where) {
    Solver s; s.build();
    const void *col = nullptr;
    s.c->calc_circulation(&col);
    check(*S, *s.t, Col(S->BodyList.size() * 3, {0, 0, 0}), where);
    if (col) mc::fail("collision-invented", where);
    s.done();
}

int main(int argc, char **argv) {
    mc::init(argc, argv);
    bool T = mc::thorough();
    static Space SS; S = &SS;
    S->dt = TTime(1, 20); S->re = 100;
    expr(S->inf_vx, "1+t"); expr(S->inf_vy, "-0.25");
    const TTime times[] = {TTime(-1, 1), TTime(0, 1), TTime(1, 2)};
    auto set = [&](std::vector<std::shared_ptr<TBody>> l) { S->BodyList.clear(); for (auto &b : l) S->BodyList.push_back(b); S->EnumerateBodies(); };
    // A: one body of every kind
    for (int sh = 0; sh < 7; sh++) for (int pat = 0; pat < 8; pat++) for (int mot = 0; mot < 4; mot++) {
        if (!mc::want(mc::fmt("one:%d:%d:%d", sh, pat, mot))) continue;
        mc::S().evaluations--;
        for (int sp = 0; sp < 3; sp++) for (int bc = 0; bc < 2; bc++) for (int tm = 0; tm < 3; tm++) for (int vo = 0; vo < 4; vo++) for (int pr = 0; pr < 3; pr++) for (int gi = 0; gi < 2; gi++) {
            auto b = body(0, sh);
            set({b});
            S->time = times[tm]; S->inf_g = gi ? -0.7 : 0; S->gravity = gi ? TVec(0.5, -9.8) : TVec(); b->density = gi ? 2.5 : 1;
            spring(*b, pat, 1 + pr); prev(*b, pr); vortices(vo);
            b->special_segment_no = sp == 0 ? 0 : sp == 1 ? (int)b->size() - 1 : 2;
            b->boundary_condition = bc ? bc_t::kutta : bc_t::steady;
            expr(b->speed_x, mot & 1 ? "0.5+t" : "0"); expr(b->speed_y, mot & 1 ? "-t" : "0"); expr(b->speed_o, mot & 2 ? "0.8-t" : "0"); expr(b->force_o, mot & 2 ? "0.3+t" : "0");
            solve1(mc::fmt("special %d bc %d time %d vortices %d before %d inf %d", sp, bc, tm, vo, pr, gi));
            mc::S().evaluations++; if (vo || mot) mc::nontrivial();
        }
    }
    // B: two and three bodies, every pattern of springs and roots
    {
        std::vector<std::vector<int>> sets = {{0, 1}, {1, 0}, {2, 0}, {0, 4}, {6, 1}, {0, 1, 3}, {3, 5, 0}};
        for (size_t st = 0; st < sets.size(); st++) for (int p0 = 0; p0 < 8; p0++) for (int p1 = 0; p1 < 8; p1++) {
            if (!mc::want(mc::fmt("many:%zu:%d:%d", st, p0, p1))) continue;
            mc::S().evaluations--;
            for (int root = 0; root < 6; root++) for (int bc = 0; bc < 4; bc++) for (int tm = 1; tm < 3; tm++) for (int mot = 0; mot < 4; mot++) for (int vo = T ? 0 : 2; vo < (T ? 4 : 3); vo++) {
                std::vector<std::shared_ptr<TBody>> l; int k = 0;
                for (int s : sets[st]) { auto b = body(k, s); l.push_back(b); k++; }
                set(l);
                if (root == 1) l[1]->root_body = l[0];
                if (root == 2) l[0]->root_body = l[1];
                if (root >= 3) { if (l.size() < 3) continue; if (root == 3) { l[1]->root_body = l[0]; l[2]->root_body = l[1]; } if (root == 4) { l[0]->root_body = l[2]; l[1]->root_body = l[2]; } if (root == 5) { l[2]->root_body = l[0]; l[0]->root_body = l[1]; } }
                S->time = times[tm]; S->inf_g = 0.3; S->gravity = TVec(0.1, -1);
                for (size_t i = 0; i < l.size(); i++) {
                    auto &b = *l[i]; spring(b, i == 0 ? p0 : i == 1 ? p1 : (p0 * 3 + p1) % 8, 1 + i); prev(b, (i + mot) % 3); b.density = 1.5 + i;
                    b.special_segment_no = (i * 2 + bc) % b.size(); b.boundary_condition = bc >> (i % 2) & 1 ? bc_t::kutta : bc_t::steady;
                    if (mot & 2) b.dpos.r += TVec(0.05, 0.11); // deflected although rigid
                    expr(b.speed_x, mot & 1 ? (i ? "t" : "0.5") : "0"); expr(b.speed_y, mot & 2 ? "0.2" : "0"); expr(b.speed_o, mot & 1 ? (i ? "-0.3" : "0.4+t") : "0"); expr(b.force_o, i ? "0.1" : "0");
                }
                vortices(vo);
                solve1(mc::fmt("root %d bc %d time %d motion %d vortices %d", root, bc, tm, mot, vo));
                mc::S().evaluations++; mc::nontrivial();
            }
        }
    }
    // C: a collision of every component of every body, other components being elastic or not
    {
        std::vector<std::vector<int>> sets = {{0}, {0, 1}, {1, 0}, {0, 1, 3}};
        for (size_t st = 0; st < sets.size(); st++) for (int p0 = 0; p0 < 8; p0++) for (int p1 = 0; p1 < 8; p1++) {
            if (sets[st].size() == 1 && p1) continue;
            if (!mc::want(mc::fmt("collision:%zu:%d:%d", st, p0, p1))) continue;
            mc::S().evaluations--;
            size_t nb = sets[st].size();
            for (size_t cb = 0; cb < nb; cb++) for (int cc = 0; cc < 3; cc++) for (int bo = 0; bo < 3; bo++) for (int root = 0; root < 2; root++) for (int tm = 1; tm < 3; tm++) {
                std::vector<std::shared_ptr<TBody>> l; int k = 0;
                for (int s : sets[st]) { l.push_back(body(k, s)); k++; }
                set(l); if (root) { if (nb < 2) continue; l[1]->root_body = l[0]; }
                S->time = times[tm]; S->inf_g = 0; S->gravity = TVec(0.1, -1);
                for (size_t i = 0; i < nb; i++) {
                    auto &b = *l[i]; spring(b, i == 0 ? p0 : i == 1 ? p1 : 7, 1 + i); prev(b, 1 + i % 2); b.density = 1.5 + i; b.bounce = bo * 0.5;
                    expr(b.speed_x, "0"); expr(b.speed_y, "0"); expr(b.speed_o, "0"); expr(b.force_o, "0");
                }
                vortices(1);
                auto &B = *l[cb];
                double *ks[] = {&B.kspring.r.x, &B.kspring.r.y, &B.kspring.o}; LD *none = nullptr; (void)none;
                bool rigid = TBody::isrigid(*ks[cc]);
                if (rigid) continue; // limits concern elastic components only
                std::string where = mc::fmt("body %zu component %d bounce %d root %d time %d", cb, cc, bo, root, tm);
                Solver s; s.build();
                const void *col = ks[cc]; Col c(nb * 3, {0, 0, 0});
                s.c->calc_circulation(&col);
                bool active = times[tm] > TTime(0, 1);
                if (active) {
                    c[cb * 3 + cc][0] = 1;
                    check(*S, *s.t, c, where + " stop");
                    if (!mc::require(col != nullptr, "collision-lost", where)) { s.done(); continue; }
                    double f[] = {B.force_holder.r.x, B.force_holder.r.y, B.force_holder.o};
                    c[cb * 3 + cc] = {2, f[cc], 0};
                    s.c->calc_circulation(&col);
                    check(*S, *s.t, c, where + " bounce");
                    mc::require(col == nullptr, "collision-stays", where);
                } else check(*S, *s.t, c, where + " early");
                // and the next step is an ordinary one
                col = nullptr;
                s.c->calc_circulation(&col);
                check(*S, *s.t, Col(nb * 3, {0, 0, 0}), where + " after");
                s.done();
                mc::S().evaluations++; mc::nontrivial();
            }
        }
    }
    // D: histories of steps with one solver: nothing, a new vortex, motion, rest, another time; the factorisation is reused or not
    {
        int L = T ? 6 : 5, A = 5; uint64_t tot = 1; for (int i = 0; i < L; i++) tot *= A;
        // problems: at rest, moving at times, each component elastic, rotating at times; with one body and two
        for (int st = 0; st < 12; st++) for (uint64_t hi = 0; hi < tot; hi += 25) {
            if (!mc::want(mc::fmt("steps:%d:%llu", st, (unsigned long long)hi))) continue;
            mc::S().evaluations--;
            for (uint64_t m = hi; m < hi + 25; m++) {
                std::vector<std::shared_ptr<TBody>> l = {body(0, 0)};
                if (st & 1) l.push_back(body(1, 1));
                set(l);
                if (st == 3) l[1]->root_body = l[0];
                const int moves = st < 4 ? st & 2 : st >= 10 ? 4 : 0, elastic = st >= 4 && st < 10 ? 1 << (st - 4) / 2 : 0;
                for (auto &b : l) { b->density = 2; if (elastic) { spring(*b, elastic, 1); b->kspring.r.y = elastic == 2 ? 4 : INFINITY; b->dpos = TVec3D(); } expr(b->speed_x, moves & 2 ? "(t*2)%2 == 1 and 0.5 or 0" : "0"); expr(b->speed_y, "0"); expr(b->speed_o, moves ? "(t*2)%2 == 1 and 0.25 or 0" : "0"); expr(b->force_o, "0"); }
                S->inf_g = 0; S->gravity = TVec(); vortices(elastic ? 0 : 1);
                // an elastic body is in equilibrium until the flow starts or a vortex appears
                expr(S->inf_vx, elastic ? "(t*2)%2 == 1 and 1 or 0" : "1+t"); expr(S->inf_vy, elastic ? "0" : "-0.25"); S->time = TTime(0, 1);
                Solver s;
                uint64_t k = m; int step = 0; std::string where;
                for (int i = 0; i < L; i++, k /= A) {
                    int op = k % A; where += "012345"[op];
                    if (op == 1) S->VortexList.emplace_back(1.3 + 0.1 * i, 0.9, 0.2);
                    if (op == 2) S->time = TTime(2 * step + 1, 2);      // half-integer time: the bodies move, if they do
                    else if (op != 4) S->time = TTime(2 * step + 2, 2); // rest
                    else { S->time = TTime(0, 1); }
                    if (op == 3) l[0]->friction_prev.r.x += 0.1;
                    step++;
                    s.build();
                    const void *col = nullptr;
                    bool moving = false; for (auto &b : l) moving |= !b->speed(S->time).iszero();
                    g_tol = 1e-8;
                    s.c->calc_circulation(&col);
                    check(*S, *s.t, Col(l.size() * 3, {0, 0, 0}), where);
                    g_tol = 1e-9;
                    if (!moving && S->time > TTime(0, 1)) g_inverse++;
                    s.done();
                    for (auto &b : l) { TVec3D d(b->speed_slae.r.x * 0.05, b->speed_slae.r.y * 0.05, b->speed_slae.o * 0.05), h = d; if (elastic == 1) h.r.x = 0; if (elastic == 2) h.r.y = 0; if (elastic == 4) h.o = 0; b->move(h, d); b->speed_slae_prev = b->speed_slae; }
                }
                for (auto &b : l) { b->holder = TVec3D(); }
                mc::S().evaluations++; mc::nontrivial();
            }
            mc::sample(mc::S().cur_id);
        }
    }
    mc::outcome("systems checked", g_solved); mc::outcome("of them may reuse the factorisation", g_inverse);
    const char *n[] = {"wall equations", "total circulation equations", "circulation of a body", "kutta conditions", "force equations", "second law equations", "spring and collision equations", "prescribed motion equations"};
    for (int i = 0; i < 8; i++) mc::outcome(n[i], g_eq[i]);
    mc::outcome("fluxes with the segment in the core", g_near); mc::outcome("with one end in the core", g_mixed);
    if (getenv("C22_DEBUG")) fprintf(stderr, "worst residual %Lg\n", g_worst);
    return mc::finish();
}
