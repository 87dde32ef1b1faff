// C14: every small field x every level set -> the drawn segments are exactly the cells' crossings
#include "mc.hpp"
#include "XField.hpp"
#include "XIsoline.hpp"
#include <array>
#include <algorithm>

struct Field : XField {
    Field(float x, float y, float d, int nx, int ny) : XField(x, y, d, nx, ny) { evaluated = true; }
    float &ref(int i, int j) { return map[j * xres + i]; }
    void gap(int i, int j, float g) { gaps.emplace_back(i, j, g); }
};

typedef std::array<long, 4> Seg;
static const double Q = 1 << 14;
static Seg mkseg(double ax, double ay, double bx, double by) {
    long a = lround(ax * Q), b = lround(ay * Q), c = lround(bx * Q), d = lround(by * Q);
    if (std::make_pair(a, b) > std::make_pair(c, d)) { std::swap(a, c); std::swap(b, d); }
    return {a, b, c, d};
}
static bool zero(const Seg &s) { return labs(s[0] - s[2]) <= 1 && labs(s[1] - s[3]) <= 1; }

struct Gap { int i, j; float g; };

// oracle: corners strictly above / not above the level; every sign change on an edge is a crossing
static void oracle(const std::function<double(int, int)> &z, int nx, int ny, const std::vector<Gap> &gaps, const std::vector<double> &levels,
                   std::map<Seg, int> &sure, std::vector<std::array<Seg, 4>> &saddles) {
    for (int i = 0; i + 1 < nx; i++) for (int j = 0; j + 1 < ny; j++) for (double L : levels) {
        double c[5] = {z(i, j), z(i, j + 1), z(i + 1, j + 1), z(i + 1, j), z(i, j)};
        for (auto &g : gaps) if (g.j == j) { if (g.i >= i) c[0] += g.g; if (g.i > i) { c[3] += g.g; c[4] += g.g; } }
        const double X[5] = {0, 0, 1, 1, 0}, Y[5] = {0, 1, 1, 0, 0};
        std::vector<std::pair<double, double>> p;
        for (int k = 0; k < 4; k++) {
            double a = c[k], b = c[k + 1];
            if ((a > L) == (b > L)) continue;
            double t = (L - a) / (b - a);
            p.push_back({i + X[k] + t * (X[k + 1] - X[k]), j + Y[k] + t * (Y[k + 1] - Y[k])});
        }
        auto sg = [&](int a, int b) { return mkseg(p[a].first, p[a].second, p[b].first, p[b].second); };
        if (p.size() == 2 || p.size() == 3) { Seg s = sg(0, 1); if (!zero(s)) sure[s]++; } // 3 only at a cut
        if (p.size() == 4) saddles.push_back({sg(0, 1), sg(2, 3), sg(0, 3), sg(1, 2)});
    }
}

// keys may be off by one unit of rounding
static std::map<Seg, int>::iterator find_near(std::map<Seg, int> &m, const Seg &s) {
    auto it = m.find(s);
    if (it != m.end()) return it;
    for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) for (int c = -1; c <= 1; c++) for (int d = -1; d <= 1; d++) {
        it = m.find(Seg{s[0] + a, s[1] + b, s[2] + c, s[3] + d});
        if (it != m.end()) return it;
    }
    return m.end();
}
static std::string show(const Seg &s) { return mc::fmt("(%g,%g)-(%g,%g)", s[0] / Q, s[1] / Q, s[2] / Q, s[3] / Q); }

static void run(Field &f, const std::function<double(int, int)> &z, int nx, int ny, float x0, float y0, float d, const std::vector<Gap> &gaps, double vmin, double vmax, double dv) {
    std::vector<double> levels;
    for (int k = 0; vmin + k * dv <= vmax; k++) levels.push_back(vmin + k * dv);
    XIsoline iso(f, vmin, vmax, dv);
    std::stringstream ss; ss << iso;
    std::string out = ss.str();
    if (!mc::require(out.size() % 8 == 0, "odd-output", mc::fmt("%zu bytes", out.size()))) return;
    std::map<Seg, int> got;
    bool first = true; double px = 0, py = 0; size_t npts = 0, lines = 0;
    for (size_t k = 0; k < out.size(); k += 8) {
        float xy[2]; memcpy(xy, out.data() + k, 8);
        if (std::isnan(xy[0]) && std::isnan(xy[1])) { if (npts) lines++; first = true; npts = 0; continue; }
        if (!mc::require(std::isfinite(xy[0]) && std::isfinite(xy[1]), "bad-point", "non-finite coordinate")) return;
        double x = (xy[0] - x0) / d, y = (xy[1] - y0) / d;
        if (!first) { Seg s = mkseg(px, py, x, y); if (!zero(s)) got[s]++; }
        px = x; py = y; first = false; npts++;
    }
    mc::require(npts == 0, "unterminated", "the last line has no separator");
    std::map<Seg, int> sure; std::vector<std::array<Seg, 4>> sad;
    oracle(z, nx, ny, gaps, levels, sure, sad);
    auto take = [&](const Seg &s) { if (zero(s)) return true; auto it = find_near(got, s); if (it == got.end()) return false; if (--it->second == 0) got.erase(it); return true; };
    for (auto &s : sure) for (int k = 0; k < s.second; k++)
        if (!take(s.first)) { mc::fail("lost-segment", "missing " + show(s.first)); return; }
    for (auto &s : sad) {
        auto has = [&](const Seg &x) { return zero(x) || find_near(got, x) != got.end(); };
        if (has(s[0]) && has(s[1])) { take(s[0]); take(s[1]); }
        else if (has(s[2]) && has(s[3])) { take(s[2]); take(s[3]); }
        else { mc::fail("lost-saddle", "missing " + show(s[0]) + " and " + show(s[1])); return; }
    }
    if (!got.empty()) { mc::fail("invented-segment", mc::fmt("x%d ", got.begin()->second) + show(got.begin()->first)); return; }
    if (!sure.empty() || !sad.empty()) mc::nontrivial();
    mc::outcome(mc::fmt("lines=%zu", std::min<size_t>(lines, 9)));
}

struct Lv { double a, b, d; };

static void family(const char *name, int nx, int ny, int nval, const std::vector<Lv> &lv, float x0, float y0, float d, float scale, float shift, int stride = 1) {
    uint64_t total = 1; for (int k = 0; k < nx * ny; k++) total *= nval;
    // one unit = a block of consecutive fields
    const uint64_t B = 4096;
    for (uint64_t blk = 0; blk < total; blk += B) {
        std::string unit = mc::fmt("%s:%dx%d^%d:%llu", name, nx, ny, nval, (unsigned long long)blk);
        if (!mc::want(unit)) continue;
        for (uint64_t n = blk; n < std::min(blk + B, total); n += stride) {
            Field f(x0, y0, d, nx, ny);
            uint64_t m = n;
            for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { f.ref(i, j) = shift + scale * (m % nval); m /= nval; }
            auto z = [&](int i, int j) { return (double)f.at(i, j); };
            for (auto &l : lv) { mc::S().evaluations++; run(f, z, nx, ny, x0, y0, d, {}, shift + scale * l.a, shift + scale * l.b, scale * l.d); }
        }
        mc::S().evaluations--;
        mc::sample(unit);
    }
}

int main(int argc, char **argv) {
    mc::init(argc, argv);
    bool T = mc::thorough();
    family("quad", 2, 2, 6, {{0, 5, 0.5}, {0.25, 5, 1}, {2, 2, 1}, {2.5, 2.6, 7}}, 0, 0, 1, 1, 0);
    family("quad", 2, 2, 6, {{0, 5, 0.5}, {0.25, 5, 1}}, -3, 5, 0.5, 0.25, -0.5);
    family("cells", 3, 3, 3, {{0, 2, 0.5}, {0.5, 2, 1}, {1, 1, 1}}, 0, 0, 1, 1, 0);
    family("cells", 3, 3, 4, {{0.5, 2.5, 1}}, -1, 2, 0.25, 1, -1);
    if (T) family("cells", 3, 3, 4, {{0, 3, 0.5}, {1, 2, 1}}, 2, -1, 2, 2, -3);
    family("row", 5, 2, 3, {{0, 2, 0.5}}, 0, 0, 1, 1, 0);
    family("col", 2, 5, 3, {{0, 2, 0.5}}, 0, 0, 1, 1, 0);
    family("binary", 4, 4, 2, {{0.5, 0.5, 1}, {0, 1, 1}}, 0, 0, 1, 1, 0);
    family("binary", 5, 4, 2, {{0.5, 0.5, 1}}, 0, 0, 1, 1, 0, T ? 1 : 1);
    if (T) { family("binary", 4, 6, 2, {{0.5, 0.5, 1}}, 0, 0, 1, 1, 0); family("tern", 4, 3, 3, {{0, 2, 0.5}}, 0, 0, 1, 1, 0); }
    else family("tern", 4, 3, 3, {{0.5, 1.5, 1}}, 0, 0, 1, 1, 0);
    // cuts: every field of three values with every single cut
    for (int gi = 0; gi < 3; gi++) for (int gj = 0; gj < 3; gj++) for (float g : {-1.f, 2.f}) {
        if (!mc::want(mc::fmt("gap:%d:%d:%g", gi, gj, g))) continue;
        for (int n = 0; n < 19683; n++) {
            Field f(0, 0, 1, 3, 3);
            int m = n;
            for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) { f.ref(i, j) = m % 3; m /= 3; }
            f.gap(gi, gj, g);
            auto z = [&](int i, int j) { return (double)f.at(i, j); };
            mc::S().evaluations++;
            run(f, z, 3, 3, 0, 0, 1, {{gi, gj, g}}, 0.5, 3.5, 1);
        }
        mc::S().evaluations--;
    }
    // larger ones: many lines, many joins, large indices
    const int sz[][2] = {{300, 2}, {2, 300}, {40, 40}, {17, 90}, {90, 17}, {600, 5}};
    for (auto &d : sz) for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) for (int m = 2; m <= 7; m += 5) {
        if (!mc::want(mc::fmt("large:%dx%d:%d:%d:%d", d[0], d[1], a, b, m))) continue;
        Field f(-4, 2, 0.5, d[0], d[1]);
        for (int j = 0; j < d[1]; j++) for (int i = 0; i < d[0]; i++) f.ref(i, j) = (a * i * i + b * j * j + i * j + i) % m;
        auto z = [&](int i, int j) { return (double)f.at(i, j); };
        run(f, z, d[0], d[1], -4, 2, 0.5, {}, 0.5, m, 1.5);
    }
    // refusals
    if (mc::want("refuse")) {
        Field f(0, 0, 1, 2, 2); for (int i = 0; i < 4; i++) f.ref(i % 2, i / 2) = i;
        auto bad = [&](const char *w, double a, double b, double d) { try { XIsoline x(f, a, b, d); mc::fail("accepted-bad-levels", w); } catch (const std::exception &) { mc::nontrivial(); } };
        bad("inverted", 1, 0, 1); bad("zero step", 0, 1, 0); bad("negative step", 0, 1, -1); bad("infinite", 0, INFINITY, 1); bad("nan", NAN, 1, 1); bad("nan step", 0, 1, NAN);
        struct U : XField { U() : XField(0, 0, 1, 2, 2) {} } u;
        try { XIsoline x(u, 0, 1, 1); mc::fail("accepted-unevaluated", ""); } catch (const std::exception &) { mc::nontrivial(); }
    }
    return mc::finish();
}
