// c17 make OUT FLOW VORTICES LABEL...  writes the flows that are plotted
// c17 ref FILE                         reads requests from stdin, prints the length and the bytes of what the library gives for each
#include "space_util.hpp"
#include "XVelocity.hpp"
#include "XVorticity.hpp"
#include "XStreamfunction.hpp"
#include "XPressure.hpp"
#include "XIsoline.hpp"
#include "TSortedTree.hpp"
#include <iostream>
#include <sstream>

static int make(int argc, char **v) {
    std::string flow = v[2];
    int nv = atoi(v[3]);
    Space S;
    S.re = 100; S.dt = TTime(1, 8); S.time = TTime(5, 4);
    if (flow != "still") { S.inf_vx = std::string("1"); S.inf_vy = std::string(flow == "up" ? "-0.5" : flow == "along" ? "0" : "0.5"); }
    S.inf_marker = TVec(1, -0.5);
    for (int i = 4; i < argc; i++) {
        int k = i - 4;
        std::string l = v[i];
        auto p = ngon(3 + k % 6, 0.4, TVec(0.5 + 1.5 * (k % 12), 0.25 + 1.25 * (k / 12)));
        std::reverse(p.begin(), p.end());
        if (l == "EMPTY") p.clear(), l.clear();
        auto b = std::make_shared<TBody>();
        for (auto &q : p) b->alist.emplace_back(q);
        b->holder = TVec3D(0.5 + 1.5 * (k % 12) + ((k + 1) % 3) * 0.125, 0.25 + 1.25 * (k / 12), 0);
        b->dpos = TVec3D(-((k + 1) % 3) * 0.125, 0.0625 * ((k + 1) % 2), 0);
        if (flow == "moving") b->speed_slae = TVec3D(0.25, -0.5, 0);
        for (auto &a : b->alist) a.g = 0.01 * (&a - &b->alist[0]) - 0.015;
        b->label = l;
        b->doUpdateSegments(); b->doFillProperties();
        S.BodyList.push_back(b);
    }
    for (int i = 0; i < nv; i++) S.VortexList.emplace_back(-1.7 + 0.13 * (i % 9) + i * 1e-4, -0.9 + 0.11 * (i / 9 % 17), (i % 3 ? (0.2 + 0.01 * i) * (flow == "sink" ? -4 : 1) : -0.3));
    if (flow == "sink") { S.SourceList.emplace_back(-1.5, 0.55, 1); S.SourceList.emplace_back(1.3, -0.6, -0.5); }
    S.save(v[1]);
    return 0;
}

static void put(const std::string &s) { std::cout << s.size() << "\n" << s; }
template <class T> static std::string str(const T &f) { std::stringstream s; s << f; return s.str(); }

static void give(const XField &f, const std::string &out, double a, double b, double d) {
    if (out == "map") put(str(f));
    else if (out == "range") { std::stringstream s; s.precision(17); s << f.min() << " " << f.max() << " " << f.percentile(0.02) << " " << f.percentile(0.98); put(s.str()); }
    else if (out == "lines") {
        if (!(d > 0)) a = f.min(), b = f.max(), d = (b - a) / 33.;
        put(d > 0 ? str(XIsoline(f, a, b, d)) : "");
    }
}

int main(int argc, char **argv) {
    std::string cmd = argv[1];
    if (cmd == "make") return make(argc - 1, argv + 1);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string what, out, ref; double x, y, d, e, a, b, s; int nx, ny;
        in >> what >> out >> ref >> e >> x >> y >> d >> nx >> ny >> a >> b >> s;
        Space S; S.load(argv[2]);
        try {
            if (what == "vorticity") { XVorticity f(S, x, y, d, nx, ny); f.eps_mult = e; f.evaluate(); give(f, out, a, b, s); }
            else if (what == "pressure") { XPressure f(S, x, y, d, nx, ny); f.eps_mult = e; f.ref_frame = ref[0]; f.evaluate(); give(f, out, a, b, s); }
            else if (what == "streamfunction") { XStreamfunction f(S, x, y, d, nx, ny); f.eps_mult = e; f.ref_frame = ref[0]; f.evaluate(); give(f, out, a, b, s); }
            else if (what == "velocity_x" || what == "velocity_y") { XVelocity f(S, x, y, d, nx, ny); f.mode = what[9]; f.ref_frame = ref[0]; f.evaluate(); give(f, out, a, b, s); }
            else if (what == "tree") {
                double dl = S.average_segment_length();
                TSortedTree t(&S, 8, dl > 0 ? dl * 10 : 0, dl > 0 ? dl * 20 : INFINITY);
                t.build();
                std::string r;
                auto add = [&](double p, double q, double u, double w) { float f[4] = {(float)p, (float)q, (float)u, (float)w}; r.append((char *)f, sizeof(f)); };
                if (out == "bottom") for (auto n : t.getBottomNodes()) add(n->x, n->y, n->w / 2, n->h / 2);
                if (out == "near") for (auto n : t.getBottomNodes()) for (auto m : *n->NearNodes) add(m->x, m->y, n->x - m->x, n->y - m->y);
                if (out == "find") for (int j = 0; j < ny; j += 4) for (int i = 0; i < nx; i += 4) { TVec p(x + d * i, y + d * j); auto n = t.findNode(p); add(p.x, p.y, n->x - p.x, n->y - p.y); }
                put(r);
            }
        } catch (const std::exception &ex) { std::cout << "-1\n"; }
    }
    return 0;
}
