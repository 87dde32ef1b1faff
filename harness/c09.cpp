// C09: all small simple lattice polygons x all test points; and all histories of moves, copies, assignments
#include "space_util.hpp"
#include <algorithm>

typedef std::pair<int, int> P;
static long cross(P a, P b, P c) { return (long)(b.first - a.first) * (c.second - a.second) - (long)(b.second - a.second) * (c.first - a.first); }
static bool onseg(P a, P b, P p) {
    if (cross(a, b, p) != 0) return false;
    return std::min(a.first, b.first) <= p.first && p.first <= std::max(a.first, b.first) && std::min(a.second, b.second) <= p.second && p.second <= std::max(a.second, b.second);
}
static int sg(long x) { return (x > 0) - (x < 0); }
static bool meet(P a, P b, P c, P d) {
    if (onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b)) return true;
    return sg(cross(a, b, c)) * sg(cross(a, b, d)) < 0 && sg(cross(c, d, a)) * sg(cross(c, d, b)) < 0;
}
static bool simple(const std::vector<P> &v) {
    int n = v.size();
    for (int i = 0; i < n; i++) {
        P a = v[i], b = v[(i + 1) % n];
        for (int j = i + 1; j < n; j++) {
            P c = v[j], d = v[(j + 1) % n];
            if (j == i + 1 || (i == 0 && j == n - 1)) {
                // neighbours share one point only
                P far1 = j == i + 1 ? a : b, far2 = j == i + 1 ? d : c;
                if (onseg(c, d, far1) || onseg(a, b, far2)) return false;
            } else if (meet(a, b, c, d)) return false;
        }
    }
    return true;
}

// winding number by exact quadrant-free test: sum of signed crossings of the ray to +x from p
static bool inside_exact(const std::vector<P> &v, P p) {
    int w = 0, n = v.size();
    for (int i = 0; i < n; i++) {
        P a = v[i], b = v[(i + 1) % n];
        if (a.second <= p.second && b.second > p.second && cross(a, b, p) > 0) w++;
        if (a.second > p.second && b.second <= p.second && cross(a, b, p) < 0) w--;
    }
    return w != 0;
}
static double dist_to(const std::vector<TVec> &v, TVec p) {
    double m = 1e300; int n = v.size();
    for (int i = 0; i < n; i++) {
        TVec a = v[i], d = v[(i + 1) % n] - v[i];
        double t = d.abs2() > 0 ? ((p - a) * d) / d.abs2() : 0;
        t = std::min(1., std::max(0., t));
        m = std::min(m, (p - (a + d * t)).abs());
    }
    return m;
}
// by the total angle, for real coordinates
static bool inside_angle(const std::vector<TVec> &v, TVec p) {
    double s = 0; int n = v.size();
    for (int i = 0; i < n; i++) { TVec a = v[i] - p, b = v[(i + 1) % n] - p; s += atan2(rotl(a) * b, a * b); }
    return std::fabs(s) > 3;
}
static double area_cw(const std::vector<TVec> &v) { double s = 0; int n = v.size(); for (int i = 0; i < n; i++) s -= v[i].x * v[(i + 1) % n].y - v[i].y * v[(i + 1) % n].x; return s / 2; }

// even-odd is what the thermal layer's polygon (which may cross itself) is judged by; only where it is simple enough to be unambiguous
static int winding_angle(const std::vector<TVec> &v, TVec p) {
    double s = 0; int n = v.size();
    for (int i = 0; i < n; i++) { TVec a = v[i] - p, b = v[(i + 1) % n] - p; s += atan2(rotl(a) * b, a * b); }
    return (int)lround(s / (2 * M_PI));
}

static bool check_point(TBody &b, TVec p, bool expect, const char *what) {
    TAtt *r = b.isPointInvalid(p);
    if (!mc::require((r != nullptr) == expect, what, mc::fmt("(%.12g,%.12g) is judged %s", p.x, p.y, r ? "inside" : "outside"))) return false;
    if (r) {
        double best = 1e300; for (auto &a : b.alist) best = std::min(best, (a.r - p).abs());
        if (r < b.alist.data() || r >= b.alist.data() + b.alist.size()) { mc::fail("foreign-segment", ""); return false; }
        TVec c = 0.5 * (r->corner + b.alist[(r - b.alist.data() + 1) % b.alist.size()].corner);
        if (!mc::require((c - p).abs() <= best * (1 + 1e-12) + 1e-13, "not-nearest", mc::fmt("(%g,%g): segment at distance %g, nearest %g", p.x, p.y, (c - p).abs(), best))) return false;
    }
    return true;
}

static void check_body(TBody &b, const char *what, bool layer) {
    // the contour as it is now, test points all over and off it
    std::vector<TVec> v; for (auto &a : b.alist) v.push_back(a.corner);
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (auto &p : v) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
    double d = std::max(x1 - x0, y1 - y0), A = area_cw(v);
    if (std::fabs(A) < 1e-9) return;
    std::vector<TVec> hl;
    for (size_t i = 0; i < v.size(); i++) { TVec s = v[(i + 1) % v.size()] - v[i]; hl.push_back(0.5 * (v[i] + v[(i + 1) % v.size()]) + rotl(s)); }
    const int N = 12;
    for (int i = 0; i <= N; i++) for (int j = 0; j <= N; j++) {
        TVec p(x0 - 0.3 * d + (x1 - x0 + 0.6 * d) * (i + 0.013) / N, y0 - 0.3 * d + (y1 - y0 + 0.6 * d) * (j + 0.017) / N);
        if (dist_to(v, p) < 1e-7 * d) continue;
        bool in = inside_angle(v, p);
        if (!check_point(b, p, A > 0 ? in : !in, what)) return;
        mc::nontrivial();
        if (layer && dist_to(hl, p) > 1e-7 * d) {
            int w = winding_angle(hl, p);
            bool e = A > 0 ? (w & 1) : !(w & 1);
            bool got = b.isPointInHeatLayer(p) != nullptr;
            if (!mc::require(got == e, std::string("layer-") + what, mc::fmt("(%.12g,%.12g) is judged %s the thermal layer", p.x, p.y, got ? "in" : "outside of"))) return;
        }
    }
}

int main(int argc, char **argv) {
    mc::init(argc, argv);
    bool T = mc::thorough();
    // A: every simple polygon of k corners on a WxH lattice, points on the half-lattice (exact arithmetic), both orientations come by themselves
    struct Fam { int W, H, k; } fams[] = {{3, 3, 3}, {3, 3, 4}, {3, 3, 5}, {3, 3, 6}, {4, 3, 4}, {4, 3, 5}, {3, 3, 7}, {4, 4, 5}};
    for (int f = 0; f < (T ? 8 : 6); f++) {
        int n = fams[f].W * fams[f].H, k = fams[f].k;
        std::vector<P> site; for (int i = 0; i < n; i++) site.push_back({i % fams[f].W * 8, i / fams[f].W * 8});
        for (int a = 0; a < n; a++) for (int b2 = 0; b2 < n; b2++) {
            if (a == b2) continue;
            if (!mc::want(mc::fmt("poly:%d:%d:%d", f, a, b2))) continue;
            std::vector<int> idx = {a, b2};
            uint64_t cnt = 0;
            std::function<void()> rec = [&]() {
                if ((int)idx.size() == k) {
                    std::vector<P> v; for (int i : idx) v.push_back(site[i]);
                    if (!simple(v)) return;
                    long A2 = 0; for (int i = 0; i < k; i++) A2 += cross({0, 0}, v[i], v[(i + 1) % k]);
                    if (A2 == 0) return;
                    cnt++;
                    std::vector<TVec> tv; for (auto &p : v) tv.push_back(TVec(p.first, p.second));
                    auto body = make_poly(tv);
                    // vertices lie at multiples of 8: multiples of 4 meet vertices and edges at eye level, the odd ones fall between
                    for (int x = -5; x <= fams[f].W * 8 - 3; x += k > 5 ? 3 : 2) for (int y = -4; y <= fams[f].H * 8 - 4; y += k > 5 ? 4 : 2) {
                        P p(x, y); bool on = false;
                        for (int i = 0; i < k && !on; i++) on = onseg(v[i], v[(i + 1) % k], p);
                        if (on) continue;
                        bool in = inside_exact(v, p);
                        mc::S().evaluations++;
                        if (!check_point(*body, TVec(x, y), A2 < 0 ? in : !in, A2 < 0 ? "solid" : "domain")) return;
                    }
                    mc::nontrivial();
                    return;
                }
                for (int i = 0; i < n; i++) {
                    if (std::find(idx.begin(), idx.end(), i) != idx.end()) continue;
                    idx.push_back(i); rec(); idx.pop_back();
                }
            };
            rec();
            mc::outcome(mc::fmt("simple polygons of %d corners", k), cnt);
        }
    }
    // B: every sequence of operations of length <= 3 (4) on two bodies, both judged after every operation
    {
        std::vector<std::vector<TVec>> shapes = {
            {{0, 0}, {0, 2}, {1, 2}, {1, 1}, {3, 1}, {3, 0}},                // clockwise L: solid
            {{-4, -4}, {5, -4}, {5, 5}, {-4, 5}},                            // counter-clockwise box: domain
            {{0, 0}, {-1, 2}, {0.5, 1}, {2, 2.5}, {1, 0.3}, {2, -1}},        // clockwise star-like
        };
        std::vector<TVec> disc = ngon(24, 1.5); std::reverse(disc.begin(), disc.end()); shapes.push_back(disc);
        const int NOP = 9; int len = T ? 4 : 3, tot = 1;
        for (int i = 0; i < len; i++) tot *= NOP;
        for (int s1 = 0; s1 < 4; s1++) for (int s2 = 0; s2 < 4; s2++) for (int seq = 0; seq < tot; seq++) {
            if (!mc::want(mc::fmt("history:%d:%d:%d", s1, s2, seq))) continue;
            auto a = make_poly(shapes[s1]), b = make_poly(shapes[s2]);
            check_body(*a, "initial", true); check_body(*b, "initial", true);
            int m = seq;
            for (int i = 0; i < len; i++, m /= NOP) {
                switch (m % NOP) {
                    case 0: a->move(TVec3D(3, -1, 0), TVec3D(3, -1, 0)); break;
                    case 1: a->move(TVec3D(0, 0, 0.7), TVec3D(0, 0, 0.7)); break;
                    case 2: a->move(TVec3D(1, 0, 0.2), TVec3D(-0.5, 2, -1.1)); break;
                    case 3: a = std::make_shared<TBody>(*b); break;
                    case 4: *b = *a; break;
                    case 5: *a = *b; break;
                    case 6: b->move(TVec3D(), TVec3D(-7, 4, 2.5)); break;
                    case 7: std::swap(a, b); break;
                    case 8: a->alist.pop_back(); if (a->alist.size() < 3) a->alist.emplace_back(9, 9, false), a->alist.emplace_back(-9, 8, false); a->doUpdateSegments(); a->doFillProperties(); break;
                }
                bool fin = i == len - 1;
                check_body(*a, "history", true);
                if (fin || m % NOP != 0) check_body(*b, "history-other", true);
            }
        }
    }
    return mc::finish();
}
