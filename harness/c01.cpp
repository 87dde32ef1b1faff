// C01: save/load round trip, whatever the loading space held before.
#include "space_util.hpp"
#include <unistd.h>

typedef std::function<void(Space &)> Mod;
struct NMod { std::string name; Mod f; };

static double V(int i) { static double v[] = {0.1, -2.5e-7, 1.0 / 3, 12345.678901234567, -1e300, 3e-310, 7.25, -0.0625}; return v[i % 8]; }

static std::vector<TObj> mklist(size_t n, double s) {
    std::vector<TObj> l;
    for (size_t i = 0; i < n; i++) l.push_back(TObj(s + i * 0.37, -s * i + 1.0 / (i + 3), (i % 2 ? -1 : 1) * (1e-3 + i * s)));
    return l;
}

static std::shared_ptr<TBody> body_n(int n, double x) { return make_poly(ngon(n, 0.5, TVec(x, 0.25 * x))); }

static std::vector<NMod> mods() {
    std::vector<NMod> m;
    auto add = [&](std::string n, Mod f) { m.push_back({n, f}); };
    const double inf = INFINITY, nan = NAN;
    for (const char *c : {"a", "cap with space", "\xd0\xba\xd0\xb8\xd1\x80", "p%d%s", "0123456789012345678901234567890123456789012345678901234567890123456789"})
        add(std::string("caption=") + c, [=](Space &S) { S.caption = c; });
    int k = 0;
    for (double v : {600.0, 0.0, -1.0, 1e-300, inf}) add("re=" + dx(v), [=](Space &S) { S.re = v; });
    for (double v : {0.7, inf}) add("pr=" + dx(v), [=](Space &S) { S.pr = v; });
    for (double v : {1.0 / 3, -1e300, nan}) add("inf_g=" + dx(v), [=](Space &S) { S.inf_g = v; });
    for (double v : {12.5, -3.0, 0.0}) add("finish=" + dx(v), [=](Space &S) { S.finish = v; });
    for (const char *e : {"1", "sin(2*pi*t/8)", "if t>1 then return 2 end return 1", "-0.1*t"}) {
        add(std::string("inf_vx=") + e, [=](Space &S) { S.inf_vx = std::string(e); });
        add(std::string("inf_vy=") + e, [=](Space &S) { S.inf_vy = std::string(e); });
    }
    add("inf_marker", [](Space &S) { S.inf_marker = TVec(0.1, -0.2); });
    add("gravity.x", [](Space &S) { S.gravity = TVec(0.3, 0); });
    add("gravity.y", [](Space &S) { S.gravity = TVec(0, -9.8); });
    TTime ts[] = {TTime(1, 3), TTime(-7, 200), TTime(2147483647, 1), TTime(5, 4294967295u), TTime(10, 4), TTime(0, 7)};
    for (auto t : ts) {
        add("time=" + dx(t), [=](Space &S) { S.time = t; });
        add("dt=" + dx(t), [=](Space &S) { if (t.value) S.dt = t; else S.dt = TTime(1, 7); });
        add("dt_save=" + dx(t), [=](Space &S) { S.dt_save = t; });
        add("dt_streak=" + dx(t), [=](Space &S) { S.dt_streak = t; });
        add("dt_profile=" + dx(t), [=](Space &S) { S.dt_profile = t; });
    }
    std::vector<size_t> sz = {1, 2, 3, 511, 512, 513, 1025};
    for (size_t n : sz) {
        add(mc::fmt("vort*%zu", n), [=](Space &S) { S.VortexList = mklist(n, 0.11); });
        add(mc::fmt("heat*%zu", n), [=](Space &S) { S.HeatList = mklist(n, 0.22); });
        add(mc::fmt("sink*%zu", n), [=](Space &S) { S.SourceList = mklist(n, 0.33); });
        add(mc::fmt("streak_source*%zu", n), [=](Space &S) { S.StreakSourceList = mklist(n, 0.44); });
        add(mc::fmt("streak*%zu", n), [=](Space &S) { S.StreakList = mklist(n, 0.55); });
    }
    add("vort special", [](Space &S) { S.VortexList = {TObj(INFINITY, -0.0, NAN), TObj(5e-324, -1.7e308, 0)}; });
    // the body attributes: applied to the last body, which is added when there is none
    auto addb = [&](std::string n, std::function<void(TBody &)> f) {
        add("b." + n, [=](Space &S) { if (S.BodyList.empty()) S.BodyList.push_back(body_n(5, 1)); f(*S.BodyList.back()); });
    };
    for (const char *l : {"cyl", "label with \"quotes\" and \xd0\xba", "%s"}) addb(std::string("label=") + l, [=](TBody &b) { b.label = l; });
    typedef TVec3D TBody::*P3;
    std::pair<const char *, P3> p3[] = {{"holder", &TBody::holder}, {"dpos", &TBody::dpos}, {"speed_slae", &TBody::speed_slae}, {"speed_slae_prev", &TBody::speed_slae_prev}, {"force_hydro", &TBody::force_hydro}, {"force_holder", &TBody::force_holder}, {"friction_prev", &TBody::friction_prev}, {"fdt_dead", &TBody::fdt_dead}};
    for (auto p : p3) addb(p.first, [=](TBody &b) { b.*p.second = TVec3D(V(k), V(k + 1), V(k + 2)); });
    for (double v : {0.0, 2.5}) {
        addb("kspring.x=" + dx(v), [=](TBody &b) { b.kspring.r.x = v; });
        addb("kspring.y=" + dx(v), [=](TBody &b) { b.kspring.r.y = v; });
        addb("kspring.o=" + dx(v), [=](TBody &b) { b.kspring.o = v; });
    }
    for (double v : {-1.5, 0.1}) addb("damping=" + dx(v), [=](TBody &b) { b.damping = TVec3D(v, 2 * v, 3 * v); });
    addb("collision_min", [](TBody &b) { b.collision_min = TVec3D(-1, NAN, -0.25); });
    addb("collision_max", [](TBody &b) { b.collision_max = TVec3D(NAN, 1.5, 0.75); });
    addb("bounce", [](TBody &b) { b.bounce = 0.3; });
    for (double v : {0.0, 8.1}) addb("density=" + dx(v), [=](TBody &b) { b.density = v; });
    addb("g_dead", [](TBody &b) { b.g_dead = -0.017; });
    for (int v : {1, 4, -1}) addb(mc::fmt("special=%d", v), [=](TBody &b) { b.special_segment_no = v; });
    addb("bc=kutta", [](TBody &b) { b.boundary_condition = bc_t::kutta; });
    for (int v : {1, 2, 3}) addb(mc::fmt("hc=%d", v), [=](TBody &b) { b.heat_condition = (hc_t)v; });
    typedef TEval TBody::*PE;
    std::pair<const char *, PE> pe[] = {{"speed_x", &TBody::speed_x}, {"speed_y", &TBody::speed_y}, {"speed_o", &TBody::speed_o}, {"force_o", &TBody::force_o}};
    for (auto p : pe)
        for (const char *e : {"0.5", "cos(t)+sqrt2"}) addb(std::string(p.first) + "=" + e, [=](TBody &b) { b.*p.second = std::string(e); });
    addb("att.g", [](TBody &b) { int i = 0; for (auto &a : b.alist) { a.g = 0.01 * ++i; a.gsum = -0.02 * i * i; } });
    addb("att.fric", [](TBody &b) { int i = 0; for (auto &a : b.alist) a.fric = 0.03 * i++; });
    for (int v : {1, 3}) addb(mc::fmt("collision=%d", v), [=](TBody &b) { b.collision_state = v; });
    add("vort.eps", [](Space &S) { if (S.VortexList.empty()) S.VortexList = mklist(5, 0.5); int i = 0; for (auto &o : S.VortexList) o._1_eps = 0.7 * i++; });
    add("vort.eps first", [](Space &S) { if (S.VortexList.empty()) S.VortexList = mklist(5, 0.5); S.VortexList.front()._1_eps = 2.5; });
    addb("slip all", [](TBody &b) { for (auto &a : b.alist) a.slip = 1; b.doFillProperties(); });
    addb("slip first", [](TBody &b) { b.alist.front().slip = 1; b.doFillProperties(); });
    addb("slip last", [](TBody &b) { b.alist.back().slip = 1; b.doFillProperties(); });
    addb("slip not first", [](TBody &b) { for (auto &a : b.alist) a.slip = 1; b.alist.front().slip = 0; b.doFillProperties(); });
    addb("slip middle", [](TBody &b) { b.alist[b.alist.size() / 2].slip = 1; b.doFillProperties(); });
    addb("slip ends", [](TBody &b) { b.alist.front().slip = b.alist.back().slip = 1; b.doFillProperties(); });
    addb("att.fric first", [](TBody &b) { b.alist.front().fric = 0.5; });
    addb("att.fric middle", [](TBody &b) { b.alist[b.alist.size() / 2].fric = -0.5; });
    addb("bounce<0", [](TBody &b) { b.bounce = -0.25; });
    addb("heat_const", [](TBody &b) { for (auto &a : b.alist) a.heat_const = 0.75f; });
    addb("clockwise", [](TBody &b) { std::vector<TAtt> r(b.alist.rbegin(), b.alist.rend()); b.alist = r; b.doUpdateSegments(); b.doFillProperties(); });
    for (int n : {1, 2, 3, 511, 512, 513, 1500}) add(mc::fmt("body(%d)", n), [=](Space &S) { S.BodyList.push_back(body_n(n, S.BodyList.size() * 2.0)); });
    add("bodies+3", [](Space &S) { for (int i = 0; i < 3; i++) { S.BodyList.push_back(body_n(3 + i, 3.0 + i)); S.BodyList.back()->label = mc::fmt("L%d", i); } });
    add("root prev", [](Space &S) { if (S.BodyList.size() < 2) { S.BodyList.insert(S.BodyList.begin(), body_n(4, 9)); if (S.BodyList.size() < 2) S.BodyList.push_back(body_n(6, 11)); } S.BodyList[1]->root_body = S.BodyList[0]; });
    add("root next", [](Space &S) { while (S.BodyList.size() < 2) S.BodyList.push_back(body_n(6, 12)); S.BodyList[0]->root_body = S.BodyList.back(); });
    add("root expired", [](Space &S) { if (S.BodyList.empty()) S.BodyList.push_back(body_n(3, 0)); auto t = body_n(3, 1); S.BodyList.back()->root_body = t; });
    return m;
}

static void full(Space &S, double s) {
    S.caption = mc::fmt("dirty%g", s); S.re = 100 * s; S.pr = s; S.inf_g = s; S.inf_vx = std::string("1+t"); S.inf_vy = std::string("2*t");
    S.inf_marker = TVec(s, s); S.gravity = TVec(s, -s); S.time = TTime(3, 7); S.dt = TTime(1, 9); S.dt_save = TTime(2, 9); S.dt_streak = TTime(3, 9); S.dt_profile = TTime(4, 9); S.finish = s;
    S.VortexList = mklist(7, s); S.HeatList = mklist(6, s); S.SourceList = mklist(5, s); S.StreakSourceList = mklist(4, s); S.StreakList = mklist(3, s);
    S.BodyList.clear();
    for (int i = 0; i < 3; i++) {
        auto b = body_n(4 + i, s + i);
        b->label = "dirty"; b->kspring = TVec3D(1, 2, 3); b->speed_x = std::string("t"); b->density = 3; b->collision_min = TVec3D(-5, -5, -5); b->collision_max = TVec3D(5, 5, 5);
        b->heat_condition = hc_t::const_t; b->boundary_condition = bc_t::kutta; b->special_segment_no = 2;
        if (i) b->root_body = S.BodyList[0];
        S.BodyList.push_back(b);
    }
}

static void roundtrip(const Space &want, Space &dst, const char *file, const char *tag) {
    Dump a = dump_space(want, true);
    const_cast<Space &>(want).save(file);
    Dump a2 = dump_space(want, true);
    std::string d0 = first_diff(a, a2);
    if (!d0.empty()) mc::fail(std::string("save-modifies:") + diff_field(d0), d0);
    metainfo_t info;
    dst.load(file, &info);
    std::string d = first_diff(a, dump_space(dst, true));
    if (!d.empty()) mc::fail(std::string(tag) + ":" + diff_field(d), d);
    unlink(file);
}

int main(int argc, char **argv) {
    mc::init(argc, argv);
    auto M = mods();
    const size_t n = M.size();
    const char *file = "c01.h5";
    // 1. base + at most 2 deviations, into a fresh space and into a space full of other content
    for (size_t i = 0; i < n; i++)
        for (size_t j = i; j < n; j++)
            for (int dirty = 0; dirty < 2; dirty++) {
                // two large lists/bodies together repeat what each shows alone
                std::string id = mc::fmt("dev %s", M[i].name.c_str()) + (j > i ? " + " + M[j].name : "") + (dirty ? " into full" : " into fresh");
                if (!mc::thorough() && j > i && (i % 4 != j % 4 || dirty != (int)(i & 1))) continue;
                if (!mc::want(id)) continue;
                Space src; M[i].f(src);
                if (j > i) M[j].f(src);
                Space dst;
                if (dirty) full(dst, 1.5);
                roundtrip(src, dst, file, dirty ? "stale" : "roundtrip");
                mc::nontrivial();
                mc::sample(id);
            }
    // 2. all load sequences of length 3 over distinct contents, one receiving space, checked after each load
    std::vector<Mod> C;
    C.push_back([](Space &) {});
    C.push_back([](Space &S) { full(S, 2); });
    C.push_back([](Space &S) { full(S, 4); S.SourceList.clear(); S.BodyList.clear(); });
    C.push_back([](Space &S) { S.BodyList.push_back(body_n(3, 1)); S.caption = "one body"; });
    C.push_back([](Space &S) { S.SourceList = mklist(2, 1); S.inf_vx = std::string("t*t"); });
    C.push_back([](Space &S) { S.VortexList = mklist(600, 1); S.dt_save = TTime(1, 2); });
    C.push_back([](Space &S) { S.StreakList = mklist(2, 1); S.StreakSourceList = mklist(1, 2); S.HeatList = mklist(3, 3); });
    const int nc = C.size();
    for (int a = 0; a < nc; a++) for (int b = 0; b < nc; b++) for (int c = 0; c < nc; c++) {
        if (!mc::want(mc::fmt("loads %d %d %d", a, b, c))) continue;
        Space dst;
        for (int s : {a, b, c}) { Space src; C[s](src); roundtrip(src, dst, file, "sequence"); }
        // second generation: what was loaded is saved and loaded again
        Space again; roundtrip(dst, again, file, "second-generation");
        mc::nontrivial();
    }
    // 3. numbers of bodies across digit boundaries, chain of roots
    for (int nb : {1, 2, 9, 10, 11, 99, 100, 101, 120}) for (int rev = 0; rev < 2; rev++) {
        if (!mc::want(mc::fmt("bodies*%d root%s", nb, rev ? "+1" : "-1"))) continue;
        Space src;
        for (int i = 0; i < nb; i++) { auto b = body_n(3 + i % 4, i); b->label = mc::fmt("n%d", i); b->density = i; src.BodyList.push_back(b); }
        for (int i = 0; i < nb; i++) { int r = rev ? i + 1 : i - 1; if (r >= 0 && r < nb) src.BodyList[i]->root_body = src.BodyList[r]; }
        Space dst; roundtrip(src, dst, file, "many-bodies");
        for (int i = 0; i < nb; i++) mc::require((int)dst.BodyList.size() == nb && dst.get_body_index(dst.BodyList[i].get()) == i, "index", mc::fmt("body %d", i));
        mc::nontrivial();
    }
    // 4. every length of the file name
    for (int len = 4; len <= 250; len++) {
        if (!mc::want(mc::fmt("name length %d", len))) continue;
        std::string name(len - 3, 'x'); name += ".h5";
        Space src; C[1](src); Space dst;
        src.save(name.c_str());
        if (!mc::require(access(name.c_str(), R_OK) == 0, "name", mc::fmt("file with a name of %d characters was not created", len))) continue;
        dst.load(name.c_str());
        std::string d = first_diff(dump_space(src, true), dump_space(dst, true));
        mc::require(d.empty(), "name-content", d);
        unlink(name.c_str());
        mc::nontrivial();
    }
    // 5. the step number in the name: int(time/dt+0.5) by exact arithmetic
    for (int k = 0; k <= 400; k++) for (int den : {10, 3, 7, 200, 1000}) {
        if (!mc::want(mc::fmt("step %d dt 1/%d", k, den))) continue;
        Space src; src.dt = TTime(1, den); src.time = TTime(k, den);
        src.save("s%06d.h5");
        std::string want = mc::fmt("s%06d.h5", k);
        mc::require(access(want.c_str(), R_OK) == 0, "number", "no " + want);
        unlink(want.c_str());
        mc::nontrivial();
    }
    // 6. invalid parameters are refused, nothing is written
    {
        std::vector<std::pair<std::string, std::function<void(TBody &)>>> bad;
        for (double v : {(double)INFINITY, (double)-INFINITY, (double)NAN}) for (int c = 0; c < 3; c++)
            bad.push_back({mc::fmt("damping[%d]=%s", c, dx(v).c_str()), [=](TBody &b) { (c == 0 ? b.damping.r.x : c == 1 ? b.damping.r.y : b.damping.o) = v; }});
        for (double v : {-1.0, (double)-INFINITY, (double)NAN}) for (int c = 0; c < 3; c++)
            bad.push_back({mc::fmt("kspring[%d]=%s", c, dx(v).c_str()), [=](TBody &b) { (c == 0 ? b.kspring.r.x : c == 1 ? b.kspring.r.y : b.kspring.o) = v; }});
        for (double w : {0.0, 1.0}) for (int c = 0; c < 3; c++)
            bad.push_back({mc::fmt("collision[%d] max=min-%g", c, w), [=](TBody &b) { double *mn = c == 0 ? &b.collision_min.r.x : c == 1 ? &b.collision_min.r.y : &b.collision_min.o; double *mx = c == 0 ? &b.collision_max.r.x : c == 1 ? &b.collision_max.r.y : &b.collision_max.o; *mn = 1; *mx = 1 - w; }});
        for (auto &x : bad) for (int nb = 1; nb <= 3; nb++) for (int at = 0; at < nb; at++) {
            if (!mc::want(mc::fmt("refuse %s body %d of %d", x.first.c_str(), at, nb))) continue;
            Space good; C[1](good); good.save(file); Dump before = dump_space(good, true);
            Space src; for (int i = 0; i < nb; i++) src.BodyList.push_back(body_n(4, i));
            x.second(*src.BodyList[at]);
            bool thrown = false;
            try { src.save(file); } catch (const std::exception &) { thrown = true; }
            mc::require(thrown, "refuse", "an invalid body was saved without an error");
            Space dst; dst.load(file);
            mc::require(first_diff(before, dump_space(dst, true)).empty(), "refuse-keeps", "the refused save destroyed the existing file");
            unlink(file);
            mc::nontrivial();
        }
    }
    return mc::finish();
}
