// C05: every arrangement of elements on small lattices -> the tree is an exact partition
#include "space_util.hpp"
#include "TSortedTree.hpp"
#include <algorithm>
#include <functional>

typedef std::tuple<double, double, double, double, double, double> Key;
static Key key(const TObj &o) { return Key(o.r.x, o.r.y, o.g, o.v.x, o.v.y, o._1_eps); }
static std::vector<Key> keys(const std::vector<TObj> &l) { std::vector<Key> r; for (auto &o : l) r.push_back(key(o)); std::sort(r.begin(), r.end()); return r; }

static uint64_t g_leaves, g_far;

static void leaves(const snode *n, std::vector<const snode *> &out) {
    if (n->ch1) { leaves(n->ch1, out); leaves(n->ch2, out); } else out.push_back(n);
}

static void mass(const snode *n, const char *what, double tol) {
    std::vector<const snode *> ls; leaves(n, ls);
    for (int s : {1, -1}) {
        double g = 0, R = 0; TVec m;
        for (auto l : ls) for (TObj *o = l->vRange.first; o < l->vRange.last; o++) if ((o->g > 0) == (s > 0)) { g += o->g; m += o->g * o->r; R = std::max(R, o->r.abs()); }
        const TObj &c = s > 0 ? n->CMp : n->CMm;
        // all have the same sign: rounding errors are relative, however weak they are
        const double G = std::fabs(g);
        mc::require(std::fabs(c.g - g) <= tol * G, "aggregate-circulation", mc::fmt("%s %+d: %.17g expected %.17g", what, s, c.g, g));
        if (g) mc::require(std::fabs(c.r.x * c.g - m.x) <= tol * G * R && std::fabs(c.r.y * c.g - m.y) <= tol * G * R, "aggregate-centre", mc::fmt("%s %+d: (%g,%g) expected (%g,%g)", what, s, c.r.x, c.r.y, m.x / g, m.y / g));
    }
}

static bool check_tree(Space &S, stree &t, bool iv, bool ib, bool ih, const std::vector<Key> &v0, const std::vector<Key> &h0, const std::vector<Key> &s0, double tol = 1e-12) {
    auto &bn = t.getBottomNodes();
    if (!mc::require(!bn.empty(), "no-cells", "")) return false;
    // the lists hold the same elements
    if (!mc::require(keys(S.VortexList) == v0, "vortices-altered", "")) return false;
    if (!mc::require(keys(S.HeatList) == h0, "heat-altered", "")) return false;
    if (!mc::require(keys(S.StreakList) == s0, "streak-altered", "")) return false;
    // partition of every list
    auto part = [&](const char *what, std::vector<TObj> &l, bool inc, range snode::*rg) {
        std::vector<int> n(l.size(), 0);
        for (auto b : bn) for (TObj *o = (b->*rg).first; o < (b->*rg).last; o++) {
            if (l.empty() || o < l.data() || o >= l.data() + l.size()) { mc::fail(std::string("foreign-") + what, ""); return false; }
            n[o - l.data()]++;
        }
        for (size_t i = 0; i < l.size(); i++) if (n[i] != (inc ? 1 : 0)) { mc::fail(std::string("cover-") + what, mc::fmt("element %zu (%g,%g) is in %d cells", i, l[i].r.x, l[i].r.y, n[i])); return false; }
        return true;
    };
    if (!part("vortices", S.VortexList, iv, &snode::vRange)) return false;
    if (!part("heat", S.HeatList, ih, &snode::hRange)) return false;
    if (!part("streak", S.StreakList, true, &snode::sRange)) return false;
    std::map<const TObj *, int> att;
    for (auto b : bn) for (auto o : b->bllist) att[o]++;
    size_t natt = 0;
    for (auto &b : S.BodyList) for (auto &a : b->alist) { natt++; int k = att.count(&a) ? att[&a] : 0; if (k != (ib ? 1 : 0)) { mc::fail("cover-segments", mc::fmt("segment at (%g,%g) is in %d cells", a.r.x, a.r.y, k)); return false; } }
    if (!mc::require(att.size() == (ib ? natt : 0), "foreign-segments", "")) return false;
    std::set<const snode *> all(bn.begin(), bn.end());
    mc::require(all.size() == bn.size(), "duplicate-cell", "");
    g_leaves += bn.size();
    std::set<const snode *> massed;
    for (auto b : bn) {
        mc::require(!b->ch1 && !b->ch2, "bottom-cell-has-children", "");
        auto in = [&](const TObj &o) {
            double e = 1e-12 * (1 + std::fabs(b->x) + std::fabs(b->y));
            bool ok = std::fabs(o.r.x - b->x) <= b->w / 2 + e && std::fabs(o.r.y - b->y) <= b->h / 2 + e;
            if (!ok) mc::fail("bounds", mc::fmt("(%g,%g) outside the cell at (%g,%g) of %gx%g", o.r.x, o.r.y, b->x, b->y, b->w, b->h));
            auto f = t.findNode(o.r);
            if (f != b) {
                // coincident elements may only be in one cell
                mc::fail("lookup", mc::fmt("(%g,%g) is stored in another cell than the one found", o.r.x, o.r.y));
            }
        };
        for (TObj *o = b->vRange.first; o < b->vRange.last; o++) in(*o);
        for (TObj *o = b->hRange.first; o < b->hRange.last; o++) in(*o);
        for (TObj *o = b->sRange.first; o < b->sRange.last; o++) in(*o);
        for (auto o : b->bllist) in(*o);
        if (!b->NearNodes || !b->FarNodes) { mc::fail("no-neighbours", ""); return false; }
        std::map<const snode *, int> seen;
        for (auto n : *b->NearNodes) { std::vector<const snode *> l; leaves(n, l); for (auto x : l) seen[x]++; }
        for (auto n : *b->FarNodes) {
            g_far++;
            std::vector<const snode *> l; leaves(n, l); for (auto x : l) seen[x]++;
            if (massed.insert(n).second) mass(n, "far cell", tol);
        }
        bool ok = seen.size() == bn.size();
        for (auto &s : seen) if (s.second != 1 || !all.count(s.first)) ok = false;
        if (!ok) { mc::fail("near-far-cover", mc::fmt("%zu of %zu cells reached", seen.size(), bn.size())); return false; }
        bool self = false;
        for (auto n : *b->NearNodes) if (n == b) self = true;
        mc::require(self, "self-not-near", "a cell is not near to itself");
        mass(b, "bottom cell", tol);
    }
    return true;
}

static void probe(Space &S, stree &t, double x0, double x1, double y0, double y1, int n) {
    auto &bn = t.getBottomNodes();
    std::set<const snode *> all(bn.begin(), bn.end());
    for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) {
        TVec p(x0 + (x1 - x0) * i / n, y0 + (y1 - y0) * j / n);
        auto f = t.findNode(p);
        if (!all.count(f)) { mc::fail("lookup-foreign", ""); return; }
        for (auto b : bn) if (b != f && std::fabs(p.x - b->x) < b->w / 2 * (1 - 1e-9) && std::fabs(p.y - b->y) < b->h / 2 * (1 - 1e-9)) { mc::fail("lookup-point", mc::fmt("(%g,%g)", p.x, p.y)); return; }
        // outside of all cells it is the closest one
        auto dist = [&](const snode *b) { return std::hypot(std::max(std::fabs(p.x - b->x) - b->w / 2, 0.), std::max(std::fabs(p.y - b->y) - b->h / 2, 0.)); };
        double d = dist(f), least = d;
        for (auto b : bn) least = std::min(least, dist(b));
        if (d > least + 1e-9) { mc::fail("lookup-closest", mc::fmt("(%g,%g) is %g from the cell found, %g from another", p.x, p.y, d, least)); return; }
    }
}

// the outline of a block of 8x4, clockwise: midpoints on the lines that divide it
static std::vector<TVec> block(double x, double y) {
    std::vector<TVec> r; const double h = 0.25;
    for (int i = 0; i < 4; i++) r.push_back(TVec(x, y + i * h));
    for (int i = 0; i < 8; i++) r.push_back(TVec(x + i * h, y + 4 * h));
    for (int i = 4; i > 0; i--) r.push_back(TVec(x + 8 * h, y + i * h));
    for (int i = 8; i > 0; i--) r.push_back(TVec(x + i * h, y));
    for (auto &p : r) p += TVec(h / 2, h / 2);
    return r;
}

struct Cfg { int far; double mn, mx; };

static void one(Space &S, const Cfg &c, bool iv, bool ib, bool ih, bool pr = false) {
    // whatever an element carries goes with it
    int tag = 1;
    for (auto l : {&S.VortexList, &S.HeatList, &S.StreakList}) for (auto &o : *l) { o.v = TVec(tag, -0.5 * tag); o._1_eps = 3 + tag; tag++; }
    auto v0 = keys(S.VortexList), h0 = keys(S.HeatList), s0 = keys(S.StreakList);
    stree t(&S, c.far, c.mn, c.mx);
    t.build(iv, ib, ih);
    mc::S().evaluations++;
    if (!check_tree(S, t, iv, ib, ih, v0, h0, s0)) return;
    if (t.getBottomNodes().size() > 1) mc::nontrivial();
    mc::outcome(mc::fmt("cells<=%d", 1 << (int)std::ceil(std::log2((double)t.getBottomNodes().size()))));
    if (pr) probe(S, t, -3, 7, -3, 7, 40);
    // a tree is a function of the space: destroy and build again
    size_t n = t.getBottomNodes().size();
    t.destroy();
    t.build(iv, ib, ih);
    if (!mc::require(t.getBottomNodes().size() == n, "rebuild-differs", "")) return;
    check_tree(S, t, iv, ib, ih, v0, h0, s0);
    t.destroy();
}

int main(int argc, char **argv) {
    mc::init(argc, argv);
    bool T = mc::thorough();
    // A: each lattice site of 2x4 (thorough 3x3) holds nothing or one of: vortex+, vortex-, heat, streak; splitting forced by size
    {
        int W = T ? 3 : 4, H = T ? 3 : 2, n = W * H;
        uint64_t total = 1; for (int i = 0; i < n; i++) total *= 5;
        const uint64_t B = 3125;
        std::vector<Cfg> cfg = {{8, 0.05, 1.5}, {1, 0.05, 0.5}};
        if (T) cfg.push_back({0, 0.2, 1.1});
        for (uint64_t b = 0; b < total; b += B) {
            std::string u = mc::fmt("lattice:%dx%d:%llu", W, H, (unsigned long long)b);
            if (!mc::want(u)) continue;
            mc::S().evaluations--;
            for (uint64_t m = b; m < std::min(b + B, total); m++) {
                for (auto &c : cfg) {
                    Space S; uint64_t k = m;
                    for (int i = 0; i < n; i++, k /= 5) {
                        double x = i % W, y = i / W; x *= 3; // far apart along x so that far cells occur
                        double g = 1 + i / 64.;
                        switch (k % 5) { case 1: S.VortexList.emplace_back(x, y, g); break; case 2: S.VortexList.emplace_back(x, y, -g); break;
                            case 3: S.HeatList.emplace_back(x, y, g); break; case 4: S.StreakList.emplace_back(x, y, g); break; }
                    }
                    one(S, c, true, true, true);
                }
            }
            mc::sample(u);
        }
    }
    // B: splitting by count: every subset of a 4x3 (4x4) lattice, each chosen site holding a cluster of 8, all lists
    {
        int W = 4, H = T ? 4 : 3, n = W * H;
        for (int hi = 0; hi < (1 << n); hi += 64) {
            std::string u = mc::fmt("clusters:%d", hi);
            if (!mc::want(u)) continue;
            mc::S().evaluations--;
            for (int m = hi; m < hi + 64; m++) {
                Space S;
                for (int i = 0; i < n; i++) if (m >> i & 1) for (int q = 0; q < 8; q++) {
                    double x = i % W * 2 + 0.01 * (q % 3), y = i / W * 1.5 + 0.013 * (q / 3), g = (q & 1 ? -1 : 1) * (1 + (i * 8 + q) / 1024.);
                    S.VortexList.emplace_back(x, y, g);
                    if (q % 2 == 0) S.HeatList.emplace_back(x + 0.3, y, g);
                    if (q % 4 == 0) S.StreakList.emplace_back(x, y + 0.2, g);
                }
                one(S, {8, 0.001, 1e9}, true, true, true);
                one(S, {2, 0.5, 1e9}, true, true, true);
            }
        }
    }
    // C: bodies and inclusion flags, degenerate arrangements, probes
    for (int shape = 0; shape < 6; shape++) for (int nb = 0; nb < 3; nb++) for (int fl = 0; fl < 8; fl++) for (int arr = 0; arr < 8; arr++) for (double mn : {0.01, 0.4}) for (double mx : {0.6, 1e9}) for (int far : {1, 8, 100}) {
        std::string u = mc::fmt("mixed:%d:%d:%d:%d:%g:%g:%d", shape, nb, fl, arr, mn, mx, far);
        if (!mc::want(u)) continue;
        Space S;
        for (int b = 0; b < nb; b++) S.BodyList.push_back(make_poly(shape == 5 ? block(2.5 * b, b) : ngon(3 + 7 * shape, 0.5 + 0.2 * b, TVec(2.5 * b, b))));
        int n = arr == 0 ? 0 : arr == 1 ? 1 : arr == 2 ? 2 : 100;
        for (int i = 0; i < n; i++) {
            double x = i * 0.37, y = i * i % 11 * 0.21;
            if (arr == 3) { x = 1; }                       // a vertical line
            if (arr == 4) { y = 1; }                       // a horizontal line
            if (arr == 5) { x = i % 2; y = 1 - x; }        // two heaps of coincident points
            if (arr == 6) { x = i % 10; y = i / 10; }      // full lattice: elements on splitting lines
            if (arr == 7) { x = std::ldexp(1.0, -(i % 40)); y = -x; } // geometric cluster
            // weak and strong ones too
            const double scale = fl % 4 == 1 ? 1e-20 : fl % 4 == 3 ? 1e8 : 1;
            S.VortexList.emplace_back(x, y, (i % 3 ? 1 + i : -1 - i) * scale);
            if (i % 2) S.HeatList.emplace_back(x + 0.1, y, 1);
            if (i % 3) S.StreakList.emplace_back(x, y + 0.1, 1);
        }
        one(S, {far, mn, mx}, fl & 1, fl & 2, fl & 4, true);
    }
    mc::outcome("cells", g_leaves); mc::outcome("far-links", g_far);
    return mc::finish();
}
