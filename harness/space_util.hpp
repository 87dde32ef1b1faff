// Observing and building spaces through the public interface only.
#pragma once
#include "mc.hpp"
#include "TSpace.hpp"
#include <memory>

typedef std::vector<std::pair<std::string, std::string>> Dump;

inline std::string dx(double v) {
    if (std::isnan(v)) return "nan";
    char b[64]; snprintf(b, 64, "%.17g", v);
    return b;
}
inline std::string dx(TVec v) { return dx(v.x) + "," + dx(v.y); }
inline std::string dx(TVec3D v) { return dx(v.r) + "," + dx(v.o); }
inline std::string dx(TTime t) { return mc::fmt("%d/%u", t.value, t.timescale); }

inline void dump_list(Dump &d, const char *n, const std::vector<TObj> &l) {
    d.push_back({std::string(n) + "#", mc::fmt("%zu", l.size())});
    std::string s;
    for (auto &o : l) s += dx(o.r) + "," + dx(o.g) + ";";
    d.push_back({n, s});
}

inline void dump_body(Dump &d, const std::string &p, const Space &S, const TBody &b) {
    auto add = [&](const char *n, std::string v) { d.push_back({p + "." + n, v}); };
    add("label", b.label);
    std::string a, g;
    for (auto &t : b.alist) {
        a += dx(t.corner) + mc::fmt(",%u;", t.slip);
        g += dx(t.g) + "," + dx(t.gsum) + "," + dx((double)t.heat_const) + ";";
    }
    add("corners", a);
    add("circulation", g);
    std::string sg;
    for (auto &t : b.alist) sg += dx(t.r) + "," + dx(t.dl) + "," + dx(t._1_eps) + ";";
    add("segments", sg);
    auto root = b.root_body.lock();
    add("root", root ? mc::fmt("%d", S.get_body_index(root.get())) : "none");
    add("holder", dx(b.holder));
    add("dpos", dx(b.dpos));
    add("kspring", dx(b.kspring));
    add("damping", dx(b.damping));
    add("speed_slae", dx(b.speed_slae));
    add("speed_slae_prev", dx(b.speed_slae_prev));
    add("collision_min", dx(b.collision_min));
    add("collision_max", dx(b.collision_max));
    add("bounce", dx(b.bounce));
    add("collision_state", mc::fmt("%d", b.collision_state));
    std::string fr;
    for (auto &t : b.alist) fr += dx(t.fric) + ";";
    add("fric", fr);
    add("density", dx(b.density));
    add("special_segment", mc::fmt("%d", b.special_segment_no));
    add("bc", mc::fmt("%d", (int)b.boundary_condition));
    add("hc", mc::fmt("%d", (int)b.heat_condition));
    add("friction_prev", dx(b.friction_prev));
    add("force_hydro", dx(b.force_hydro));
    add("force_holder", dx(b.force_holder));
    add("fdt_dead", dx(b.fdt_dead));
    add("g_dead", dx(b.g_dead));
    auto ev = [&](const char *n, const TEval &e) {
        add(n, std::string(e));
        std::string v;
        for (double t : {0.0, 0.5, 2.0}) v += dx(e.eval(t)) + ";";
        add((std::string(n) + "()").c_str(), v);
    };
    ev("speed_x", b.speed_x);
    ev("speed_y", b.speed_y);
    ev("speed_o", b.speed_o);
    ev("force_o", b.force_o);
    add("slip", b.get_slip() ? "1" : "0");
    add("slen", dx(b.get_slen()));
    add("area", dx(b.get_area()));
    add("cofm", dx(b.get_cofm()));
    add("moi_cofm", dx(b.get_moi_cofm()));
    add("moi_axis", dx(b.get_moi_axis()));
    add("axis", dx(b.get_axis()));
}

inline Dump dump_space(const Space &S, bool cores = false) {
    Dump d;
    auto add = [&](const char *n, std::string v) { d.push_back({n, v}); };
    add("caption", S.caption);
    add("re", dx(S.re));
    add("pr", dx(S.pr));
    add("inf_g", dx(S.inf_g));
    add("inf_vx", std::string(S.inf_vx));
    add("inf_vy", std::string(S.inf_vy));
    std::string v;
    for (double t : {0.0, 0.5, 2.0}) v += dx(S.inf_vx.eval(t)) + "," + dx(S.inf_vy.eval(t)) + ";";
    add("inf_v()", v);
    add("inf_marker", dx(S.inf_marker));
    add("gravity", dx(S.gravity));
    add("time", dx(S.time));
    add("dt", dx(S.dt));
    add("dt_save", dx(S.dt_save));
    add("dt_streak", dx(S.dt_streak));
    add("dt_profile", dx(S.dt_profile));
    add("finish", dx(S.finish));
    dump_list(d, "vort", S.VortexList);
    if (cores) { std::string s; for (auto &o : S.VortexList) s += dx(o._1_eps) + ";"; d.push_back({"vort cores", s}); }
    dump_list(d, "heat", S.HeatList);
    dump_list(d, "sink", S.SourceList);
    dump_list(d, "streak_source", S.StreakSourceList);
    dump_list(d, "streak", S.StreakList);
    d.push_back({"bodies#", mc::fmt("%zu", S.BodyList.size())});
    int i = 0;
    for (auto &b : S.BodyList) dump_body(d, mc::fmt("body[%d]", i++), S, *b);
    return d;
}

inline std::string first_diff(const Dump &a, const Dump &b) {
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; i++) {
        if (a[i].first != b[i].first) return "shape: " + a[i].first + " vs " + b[i].first;
        if (a[i].second != b[i].second)
            return a[i].first + ": expected '" + a[i].second.substr(0, 160) + "' got '" + b[i].second.substr(0, 160) + "'";
    }
    if (a.size() != b.size()) return "shape: sizes differ";
    return "";
}
inline std::string diff_field(const std::string &d) {
    std::string f = d.substr(0, d.find(':'));
    std::string r;
    for (size_t i = 0; i < f.size(); i++) if (!isdigit(f[i])) r += f[i];
    return r;
}

// counter-clockwise regular polygon / arbitrary corners
inline std::shared_ptr<TBody> make_poly(const std::vector<TVec> &pts, bool slip = false) {
    auto b = std::make_shared<TBody>();
    for (auto &p : pts) b->alist.emplace_back(p, slip);
    b->doUpdateSegments();
    b->doFillProperties();
    return b;
}
inline std::vector<TVec> ngon(int n, double R, TVec c = TVec(0, 0), double a0 = 0.1) {
    std::vector<TVec> r;
    for (int i = 0; i < n; i++) r.push_back(c + TVec(R * cos(a0 + 2 * M_PI * i / n), R * sin(a0 + 2 * M_PI * i / n)));
    return r;
}
