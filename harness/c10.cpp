// C10: derived geometry follows the contour through every history of operations
#include "space_util.hpp"
#include <algorithm>
typedef long double LD;

struct Geo { LD len = 0, area = 0, cx = 0, cy = 0, moi = 0; bool flat = false; };
static Geo geo(const std::vector<TVec> &v) {
    Geo g; int n = v.size();
    if (!n) return g;
    LD ox = v[0].x, oy = v[0].y, mx = 0, my = 0, lx = 0, ly = 0, J = 0;
    for (int i = 0; i < n; i++) {
        LD ax = v[i].x - ox, ay = v[i].y - oy, bx = v[(i + 1) % n].x - ox, by = v[(i + 1) % n].y - oy;
        LD l = sqrtl((bx - ax) * (bx - ax) + (by - ay) * (by - ay));
        g.len += l; lx += l * (ax + bx) / 2; ly += l * (ay + by) / 2;
        LD t = -(ax * by - ay * bx) / 2; // triangle (origin, a, b), positive when clockwise
        g.area += t; mx += t * (ax + bx) / 3; my += t * (ay + by) / 3;
        J += t * (ax * ax + ax * bx + bx * bx + ay * ay + ay * by + by * by) / 6;
    }
    if (fabsl(g.area) < 1e-13L * g.len * g.len) { g.flat = true; g.area = 0; g.cx = ox + lx / g.len; g.cy = oy + ly / g.len; g.moi = 0; return g; }
    g.cx = mx / g.area; g.cy = my / g.area;
    g.moi = J - g.area * (g.cx * g.cx + g.cy * g.cy);
    g.cx += ox; g.cy += oy;
    return g;
}

struct Ref { // the reference model of a body
    std::vector<TVec> c; std::vector<bool> slip; TVec3D holder, dpos, speed, speed_prev;
};

static bool near(TVec a, TVec b, double t) { return (a - b).abs() <= t * (1 + b.abs()); }

static bool check(const TBody &b, const Ref &r, const char *op) {
    auto F = [&](const char *w, const std::string &d) { mc::fail(std::string(w), std::string(op) + ": " + d); return false; };
    if (b.size() != r.c.size()) return F("size", mc::fmt("%zu, expected %zu", b.size(), r.c.size()));
    double L = 1; for (auto &p : r.c) L = std::max(L, p.abs());
    for (size_t i = 0; i < r.c.size(); i++) if (!near(b.alist[i].corner, r.c[i], 1e-11 * L)) return F("contour", mc::fmt("corner %zu is (%.12g,%.12g), expected (%.12g,%.12g)", i, b.alist[i].corner.x, b.alist[i].corner.y, r.c[i].x, r.c[i].y));
    if (!near(b.holder.r, r.holder.r, 1e-12) || !mc::close(b.holder.o, r.holder.o, 1e-12)) return F("holder", dx(b.holder) + " expected " + dx(r.holder));
    if (!near(b.dpos.r, r.dpos.r, 1e-12) || !mc::close(b.dpos.o, r.dpos.o, 1e-12)) return F("deflection", dx(b.dpos) + " expected " + dx(r.dpos));
    if (!near(b.get_axis(), r.holder.r + r.dpos.r, 1e-12)) return F("axis", dx(b.get_axis()));
    std::vector<TVec> v; for (auto &a : b.alist) v.push_back(a.corner);
    int n = v.size(); bool slip = false;
    for (int i = 0; i < n; i++) {
        TVec d = v[(i + 1) % n] - v[i];
        if (!near(b.alist[i].dl, d, 1e-14 * L)) return F("segment", mc::fmt("vector of segment %d", i));
        if (!near(b.alist[i].r, 0.5 * (v[(i + 1) % n] + v[i]), 1e-14 * L)) return F("segment", mc::fmt("centre of segment %d", i));
        if (!mc::close(b.alist[i]._1_eps * d.abs(), 3, 1e-9)) return F("segment", mc::fmt("core radius of segment %d", i));
        slip = slip || r.slip[i];
        if (!!b.alist[i].slip != r.slip[i]) return F("slip", mc::fmt("of segment %d", i));
    }
    if (b.get_slip() != slip) return F("slip", "of the body");
    Geo g = geo(v);
    if (n && !mc::close(b.get_slen(), g.len, 1e-11)) return F("length", mc::fmt("%.15g expected %.15Lg", b.get_slen(), g.len));
    if (n && !(std::fabs(b.get_area() - (double)g.area) <= 1e-12 * g.len * L)) return F("area", mc::fmt("%.15g expected %.15Lg", b.get_area(), g.area));
    if (n) {
        double cond = g.flat ? 1 : std::max(1.0, (double)(g.len * g.len / fabsl(g.area))); // thin bodies are ill-conditioned
        if (!near(b.get_cofm(), TVec(g.cx, g.cy), 1e-12 * cond * L * L)) return F("centre", mc::fmt("(%.12g,%.12g) expected (%.12Lg,%.12Lg)", b.get_cofm().x, b.get_cofm().y, g.cx, g.cy));
        double sc = (double)(g.len * g.len * fabsl(g.area)) + fabs((double)g.area) * L * L + 1e-300;
        double tol = 1e-11 * sc * cond + 1e-14 * L * L * L * L;
        if (!(std::fabs(b.get_moi_cofm() - (double)g.moi) <= tol)) return F("inertia", mc::fmt("%.15g expected %.15Lg", b.get_moi_cofm(), g.moi));
        TVec ax = r.holder.r + r.dpos.r;
        LD ma = g.moi + g.area * ((ax.x - g.cx) * (ax.x - g.cx) + (ax.y - g.cy) * (ax.y - g.cy));
        if (!(std::fabs(b.get_moi_axis() - (double)ma) <= tol + 1e-11 * fabs((double)ma) * cond)) return F("inertia-axis", mc::fmt("%.15g expected %.15Lg", b.get_moi_axis(), ma));
    }
    mc::nontrivial();
    return true;
}

int main(int argc, char **argv) {
    mc::init(argc, argv);
    bool T = mc::thorough();
    std::vector<std::vector<TVec>> shapes = {
        {{0, 0}, {0, 2}, {1, 2}, {1, 1}, {3, 1}, {3, 0}},         // clockwise L
        {{-4, -4}, {5, -4}, {5, 5}, {-4, 5}},                     // box around the fluid
        {{0, 0}, {1, 0.2}, {2, 1}, {1, 0.2}},                     // flat, there and back
        {{-1, 0}, {1, 0.001}, {1, 0}},                            // thin
        {{100, 50}, {100.5, 51}, {101, 50}},                      // far from the origin
        {{0, 0}, {1, 0}, {2, 0}, {1, 0}},                         // flat and horizontal
    };
    { auto d = ngon(40, 0.5, TVec(2, -3)); std::reverse(d.begin(), d.end()); shapes.push_back(d); }
    const TVec3D DB[5] = {TVec3D(3, -1, 0), TVec3D(0, 0, 0.7), TVec3D(-0.5, 2, -1.1), TVec3D(0.3, 0.1, M_PI / 2), TVec3D(0, 0, 0)};
    const TVec3D DH[5] = {TVec3D(3, -1, 0), TVec3D(0, 0, 0.7), TVec3D(1, 0, 0.2), TVec3D(0, 0, 0), TVec3D(0.2, -0.7, 5)};
    const int NOP = 12; int len = T ? 4 : 3, tot = 1;
    for (int i = 0; i < len; i++) tot *= NOP;
    for (size_t s1 = 0; s1 < shapes.size(); s1++) for (int s2 = 0; s2 < 2; s2++) for (int hi = 0; hi < tot / NOP; hi++) {
        if (!mc::want(mc::fmt("history:%zu:%d:%d", s1, s2, hi))) continue;
        for (int lo = 0; lo < NOP; lo++) {
            mc::S().evaluations += lo > 0;
            Space S;
            Ref ra, rb;
            auto mk = [&](Ref &r, const std::vector<TVec> &v, TVec3D h, TVec3D d) { r.c = v; r.slip.assign(v.size(), false); r.holder = h; r.dpos = d; auto b = make_poly(v); b->holder = h; b->dpos = d; return b; };
            auto a = mk(ra, shapes[s1], TVec3D(0.3, -0.2, 0.1), TVec3D(0.05, 0.5, -0.3));
            auto b = mk(rb, shapes[(s1 + 1 + s2 * 3) % shapes.size()], TVec3D(1, 2, 3), TVec3D());
            if (!check(*a, ra, "initial") || !check(*b, rb, "initial")) break;
            int m = hi * NOP + lo;
            bool ok = true;
            for (int i = 0; i < len && ok; i++, m /= NOP) {
                int op = m % NOP; std::string n = mc::fmt("op %d of %d", op, hi * NOP + lo);
                if (op < 5) {
                    a->speed_slae = TVec3D(i, 2, 3);
                    a->move(DH[op], DB[op]);
                    TVec ax = ra.holder.r + ra.dpos.r;
                    double c = cos(DB[op].o), s = sin(DB[op].o);
                    for (auto &p : ra.c) { TVec d = p - ax; p = ax + DB[op].r + TVec(d.x * c - d.y * s, d.x * s + d.y * c); }
                    ra.holder.r += DH[op].r; ra.holder.o += DH[op].o;
                    ra.dpos.r += DB[op].r - DH[op].r; ra.dpos.o += DB[op].o - DH[op].o;
                    ok = mc::require(a->speed_slae_prev.r.x == i && a->speed_slae_prev.r.y == 2 && a->speed_slae_prev.o == 3, "previous-speed", n);
                } else switch (op) {
                    case 5: a = std::make_shared<TBody>(*b); ra = rb; break;
                    case 6: *b = *a; rb = ra; break;
                    case 7: *a = *b; ra = rb; break;
                    case 8: std::swap(a, b); std::swap(ra, rb); break;
                    case 9: { bool v = !ra.slip[0]; for (auto &t : a->alist) t.slip = v; a->doFillProperties(); ra.slip.assign(ra.slip.size(), v); break; }
                    case 10: { a->alist.front().slip = 1; ra.slip[0] = true; TVec p(7, 7 + i); a->alist.push_back(TAtt(p)); ra.c.push_back(p); ra.slip.push_back(false); a->doUpdateSegments(); a->doFillProperties(); break; }
                    case 11: {
                        Space A, B; A.BodyList.push_back(a); A.dt = TTime(1, 10); std::string f = mc::fmt("g_%d.h5", (int)getpid());
                        A.save(f.c_str()); B.load(f.c_str()); unlink(f.c_str());
                        if (B.BodyList.size() != 1) { mc::fail("reload", n); ok = false; break; }
                        a = B.BodyList[0]; break;
                    }
                }
                ok = ok && check(*a, ra, n.c_str()) && check(*b, rb, (n + " (other)").c_str());
            }
        }
    }
    return mc::finish();
}
