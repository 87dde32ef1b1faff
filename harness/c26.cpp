// C26: loading takes exactly what a file holds, or refuses it.
#define H5_USE_18_API
#include <hdf5.h>
#include "space_util.hpp"
#include <dirent.h>
#include <fstream>
#include <sys/stat.h>
#include <sys/resource.h>

typedef std::string Bytes;
static const char *FILE_ = "c26.file";
static Space BASE;
static Dump BASE_D;

static int fds() {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
static void put_file(const Bytes &b, const char *name = FILE_) {
    FILE *f = fopen(name, "wb");
    if (fwrite(b.data(), 1, b.size(), f) != b.size()) abort();
    fclose(f);
}
static Bytes get_file(const char *name) {
    std::ifstream f(name, std::ios::binary);
    std::stringstream s; s << f.rdbuf();
    return s.str();
}

// ------------------------------------------------------------------ the legacy format, written
template <class T> static void w(Bytes &b, const T &v) { b.append((const char *)&v, sizeof(T)); }
static void wv(Bytes &b, TVec v) { w(b, v.x); w(b, v.y); }
static void w3(Bytes &b, TVec3D v) { wv(b, v.r); w(b, v.o); }
static void wt(Bytes &b, TTime t) { w(b, t.value); w(b, t.timescale); }
static void ws(Bytes &b, std::string s) { w(b, int32_t(s.size())); b += s; }
static void wl(Bytes &b, const std::vector<TObj> &l) { w(b, int64_t(l.size())); for (auto &o : l) { wv(b, o.r); w(b, o.g); } }

struct Seg { TVec c; double g; int64_t bc, hc; double heat; double gsum; };
struct LBody {
    TVec3D holder, dpos, slae, slae_prev, kspring, force_hydro, fdt_dead, friction_prev;
    std::string vx, vy, vo; double density = 1;
    std::vector<Seg> segs;
};
struct Legacy {
    Bytes version = "v: 1.3  ", caption = Bytes("legacy") + Bytes(58, 0);
    TTime t[5] = {TTime(3, 10), TTime(1, 10), TTime(1, 5), TTime(1, 2), TTime(1, 4)};
    double re = 100, pr = 0.7, inf_g = 0.25, finish = 7; TVec marker = TVec(0.5, -0.5), gravity = TVec(0, -1);
    std::string vx = "1+t", vy = "0.5";
    std::vector<TObj> vort, heat, src, streak;
    bool has[5] = {true, true, true, true, true};  // header and the four lists
    std::vector<LBody> bodies;
    std::vector<int> order;   // of the sections; empty: as written by the old program
    Bytes bytes() const {
        std::vector<std::pair<Bytes, Bytes>> sec;
        Bytes h = version + caption;
        for (auto x : t) wt(h, x);
        w(h, re); w(h, pr); wv(h, marker); ws(h, vx); ws(h, vy); w(h, inf_g); wv(h, gravity); w(h, finish); w(h, int64_t(1234567890));
        if (has[0]) sec.push_back({"Header  ", h});
        const std::vector<TObj> *l[] = {&vort, &heat, &src, &streak};
        const char *n[] = {"Vortexes", "Heat    ", "StrkSrc ", "Streak  "};
        for (int i = 0; i < 4; i++) if (has[i + 1]) { Bytes b; wl(b, *l[i]); sec.push_back({n[i], b}); }
        for (auto &x : bodies) {
            Bytes b;
            w3(b, x.holder); w3(b, x.dpos); ws(b, x.vx); ws(b, x.vy); ws(b, x.vo); w3(b, x.slae); w3(b, x.slae_prev); w3(b, x.kspring); w(b, x.density);
            w3(b, x.force_hydro); w3(b, x.fdt_dead); w3(b, x.friction_prev);
            sec.push_back({"BData   ", b});
            Bytes s; w(s, int64_t(x.segs.size()));
            for (auto &q : x.segs) { wv(s, q.c); w(s, q.g); w(s, q.bc); w(s, q.hc); w(s, q.heat); w(s, q.gsum); }
            sec.push_back({"Body    ", s});
        }
        Bytes table(1024, 0), data;
        for (size_t i = 0; i < sec.size(); i++) {
            auto &x = sec[order.empty() ? i : order[i]];
            int64_t off = 1024 + data.size();
            memcpy(&table[16 * i], &off, 8); memcpy(&table[16 * i + 8], x.first.data(), 8);
            data += x.second;
        }
        return table + data;
    }
};
static std::vector<Seg> segs(int n, int special = -1, char kind = 'i', char hc = 'n', char first = 'n', char rest = 'n') {
    std::vector<Seg> r;
    auto p = ngon(n, 0.5);
    for (int i = 0; i < n; i++) r.push_back(Seg{p[i], 0.01 * i, i == special ? kind : i ? rest : first, hc, 0.5 * i, -0.1 * i});
    return r;
}
static LBody lbody(std::vector<Seg> s) {
    LBody b;
    b.holder = TVec3D(1, 2, 3); b.dpos = TVec3D(.1, .2, .3); b.slae = TVec3D(4, 5, 6); b.slae_prev = TVec3D(7, 8, 9); b.kspring = TVec3D(INFINITY, 2, 0); b.force_hydro = TVec3D(-1, -2, -3);
    b.fdt_dead = TVec3D(.01, .02, .03); b.friction_prev = TVec3D(-4, -5, -6); b.vx = "t"; b.vo = "0.25*t"; b.density = 2.5; b.segs = s;
    return b;
}

// ------------------------------------------------------------------ the legacy format, read by a reference reader
struct Refused {};
struct Rd {
    const Bytes &b; size_t p;
    template <class T> T get() { if (p > b.size() || b.size() - p < sizeof(T)) throw Refused(); T v; memcpy(&v, &b[p], sizeof(T)); p += sizeof(T); return v; }
    Bytes str(size_t n) { if (p > b.size() || b.size() - p < n) throw Refused(); Bytes r = b.substr(p, n); p += n; return r; }
    TVec v() { double x = get<double>(); return TVec(x, get<double>()); }
    TVec3D v3() { TVec r = v(); TVec3D q; q.r = r; q.o = get<double>(); return q; }
    TTime t() { int32_t x = get<int32_t>(); return TTime(x, get<uint32_t>()); }
    std::string expr() { int32_t n = get<int32_t>(); if (n < 0) throw Refused(); return str(n).c_str(); }
    std::vector<TObj> list() { int64_t n = get<int64_t>(); if (n < 0) throw Refused(); std::vector<TObj> l; for (int64_t i = 0; i < n; i++) { TVec r = v(); l.push_back(TObj(r, get<double>())); } return l; }
};
static TEval ev(const std::string &s) { TEval e; try { e = s; } catch (...) { throw Refused(); } return e; }
// alt: the format does not tell whether the special segment slips; both are accepted
static void reference(const Bytes &b, Space &S, bool alt) {
    bool header = false;
    for (int i = 0; i < 64; i++) {
        Rd r{b, size_t(16 * i)};
        int64_t off = r.get<int64_t>();
        Bytes name = r.str(8);
        if (!off) continue;
        if (off < 0) throw Refused();
        r.p = off;
        if (name == "Header  ") {
            if (r.str(8) != "v: 1.3  ") throw Refused();
            header = true;
            S.caption = r.str(64).c_str();
            S.time = r.t(); S.dt = r.t(); S.dt_save = r.t(); S.dt_streak = r.t(); S.dt_profile = r.t();
            S.re = r.get<double>(); S.pr = r.get<double>(); S.inf_marker = r.v(); S.inf_vx = ev(r.expr()); S.inf_vy = ev(r.expr());
            S.inf_g = r.get<double>(); S.gravity = r.v(); S.finish = r.get<double>(); r.get<int64_t>();
        } else if (name == "Vortexes") { auto l = r.list(); S.VortexList.insert(S.VortexList.end(), l.begin(), l.end()); }
        else if (name == "Heat    ") { auto l = r.list(); S.HeatList.insert(S.HeatList.end(), l.begin(), l.end()); }
        else if (name == "StrkSrc ") { auto l = r.list(); S.StreakSourceList.insert(S.StreakSourceList.end(), l.begin(), l.end()); }
        else if (name == "Streak  ") { auto l = r.list(); S.StreakList.insert(S.StreakList.end(), l.begin(), l.end()); }
        else if (name == "BData   ") {
            auto q = std::make_shared<TBody>();
            q->holder = r.v3(); q->dpos = r.v3(); q->speed_x = ev(r.expr()); q->speed_y = ev(r.expr()); q->speed_o = ev(r.expr());
            q->speed_slae = r.v3(); q->speed_slae_prev = r.v3(); q->kspring = r.v3(); q->density = r.get<double>();
            q->force_hydro = r.v3(); q->fdt_dead = r.v3(); q->friction_prev = r.v3();
            S.BodyList.push_back(q);
        } else if (name == "Body    ") {
            if (S.BodyList.empty()) throw Refused();
            TBody &q = *S.BodyList.back();
            int64_t n = r.get<int64_t>();
            if (n < 0) throw Refused();
            for (int64_t k = 0; k < n; k++) {
                TVec c = r.v(); double g = r.get<double>(); int64_t bc = r.get<int64_t>(), hc = r.get<int64_t>(); double heat = r.get<double>(), gsum = r.get<double>();
                bool special = bc == 's' || bc == 'i' || bc == 'z';
                if (!special && bc != 'l' && bc != 'n') throw Refused();
                if (special) { q.special_segment_no = k; q.boundary_condition = bc == 'z' ? bc_t::kutta : bc_t::steady; }
                switch (hc) {
                case 'n': q.heat_condition = hc_t::neglect; break;
                case 'i': q.heat_condition = hc_t::isolate; break;
                case 't': q.heat_condition = hc_t::const_t; break;
                case 'w': q.heat_condition = hc_t::const_w; break;
                default: throw Refused();
                }
                q.alist.emplace_back(c, special ? alt : bc == 'l');
                q.alist.back().g = g; q.alist.back().gsum = gsum; q.alist.back().heat_const = heat;
            }
            q.doUpdateSegments(); q.doFillProperties();
        } else throw Refused();
    }
    if (!header) throw Refused();
    S.EnumerateBodies();
}

// ------------------------------------------------------------------ judging
static bool shallow = false;
// loads FILE_; returns the error, "" when it was accepted
static std::string try_load(Space &S) {
    try { S.load(FILE_); } catch (const std::exception &e) { return *e.what() ? e.what() : "(no message)"; }
    return "";
}
// after a refusal everything else works
static void afterwards(Space &S, int before) {
    static unsigned count = 0;
    if (shallow || (!mc::thorough() && mc::S().only.empty() && count++ % 8)) { if (fds() > before) mc::fail("handles", "a file is left open"); return; }
    try {
        S.load("c26.base");
        std::string d = first_diff(BASE_D, dump_space(S, true));
        if (!d.empty()) mc::fail("afterwards", "loaded after the refusal: " + d);
        S.save(FILE_);
        Space T; T.load(FILE_);
        d = first_diff(BASE_D, dump_space(T, true));
        if (!d.empty()) mc::fail("afterwards", "saved after the refusal: " + d);
    } catch (const std::exception &e) { mc::fail("afterwards", e.what()); }
    if (fds() > before) mc::fail("handles", "a file is left open");
}
// want: what the file holds, in any of the readings; none: it has to be refused; may_refuse: it need not be accepted
static void judge(const std::vector<Dump> &want, bool may_refuse, bool cores = true) {
    int before = fds();
    Space S;
    S.VortexList.push_back(TObj(1, 2, 3)); S.BodyList.push_back(make_poly(ngon(3, 1))); S.BodyList.back()->label = "before";
    std::string err = try_load(S);
    mc::nontrivial();
    if (!err.empty()) {
        mc::outcome("refused");
        if (!want.empty() && !may_refuse) mc::fail("refuses", err);
        afterwards(S, before);
        return;
    }
    mc::outcome("loaded");
    if (want.empty()) { mc::fail("accepts", "a file that holds no problem, or not all of one, was loaded"); return; }
    Dump got = dump_space(S, cores);
    std::string d;
    for (auto &x : want) { d = first_diff(x, got); if (d.empty()) break; }
    if (!d.empty()) mc::fail("content:" + diff_field(d), d);
    if (fds() > before) mc::fail("handles", "a file is left open");
}
static void legacy(const Bytes &b) {
    put_file(b);
    std::vector<Dump> want;
    // an empty file is taken for a problem that holds nothing, which is what it holds (vvcompose_test relies on it)
    if (b.empty()) { Space S; judge({dump_space(S, true)}, true); return; }
    for (int alt = 0; alt < 2; alt++) {
        Space S;
        try { reference(b, S, alt); } catch (Refused) { break; }
        want.push_back(dump_space(S, true));
        if (alt == 0) { bool differs = false; Space T; reference(b, T, 1); for (size_t i = 0; i < S.BodyList.size(); i++) for (size_t k = 0; k < S.BodyList[i]->size(); k++) differs |= S.BodyList[i]->alist[k].slip != T.BodyList[i]->alist[k].slip; if (!differs) break; }
    }
    judge(want, false);
}

static Legacy rich() {
    Legacy L;
    L.vort = {TObj(1, 2, 3), TObj(-1, .5, -.25)}; L.heat = {TObj(4, 5, 6)}; L.src = {TObj(7, 8, 9), TObj(1, 1, 1)}; L.streak = {TObj(.5, .25, .125)};
    L.bodies = {lbody(segs(3, 1, 'z', 't')), lbody(segs(4, 0, 'i', 'w', 'n', 'l'))};
    L.bodies[1].holder = TVec3D(9, 8, 7);
    return L;
}

static void family_legacy() {
    // 1. fields: every two of them differ from the base
    typedef std::function<void(Legacy &)> M;
    std::vector<std::pair<std::string, M>> m;
    auto add = [&](std::string n, M f) { m.push_back({n, f}); };
    for (size_t l : {0, 1, 63, 64}) add(mc::fmt("caption%zu", l), [=](Legacy &L) { L.caption = (Bytes(l, 'x') + Bytes(64, 0)).substr(0, 64); });
    add("caption-garbage", [](Legacy &L) { L.caption = Bytes("ab") + Bytes(1, 0) + Bytes(61, 'z'); });
    const char *tn[] = {"time", "dt", "dt_save", "dt_streak", "dt_profile"};
    for (int i = 0; i < 5; i++) for (TTime t : {TTime(-7, 3), TTime(2147483647, 4294967295u), TTime(0, 1)}) add(std::string(tn[i]) + dx(t), [=](Legacy &L) { L.t[i] = t; });
    double Legacy::*dp[] = {&Legacy::re, &Legacy::pr, &Legacy::inf_g, &Legacy::finish};
    for (int i = 0; i < 4; i++) for (double v : {-1.5, (double)INFINITY}) add(mc::fmt("num%d=%g", i, v), [=](Legacy &L) { L.*dp[i] = v; });
    add("marker", [](Legacy &L) { L.marker = TVec(3, 4); });
    add("gravity", [](Legacy &L) { L.gravity = TVec(5, 6); });
    for (std::string e : {std::string(""), std::string("2*t"), std::string("nonsense("), std::string(255, '1'), std::string("1+") + std::string(254, ' ') + "1", std::string("0.5") + std::string(253, ' '), std::string("1") + std::string(99998, ' ') + "+1"}) {
        add(mc::fmt("vx:%.9s/%zu", e.c_str(), e.size()), [=](Legacy &L) { L.vx = e; });
        add(mc::fmt("vy:%.9s/%zu", e.c_str(), e.size()), [=](Legacy &L) { L.vy = e; });
        add(mc::fmt("body vx:%.9s/%zu", e.c_str(), e.size()), [=](Legacy &L) { L.bodies[0].vx = e; });
        add(mc::fmt("body vy:%.9s/%zu", e.c_str(), e.size()), [=](Legacy &L) { L.bodies[0].vy = e; });
        add(mc::fmt("body vo:%.9s/%zu", e.c_str(), e.size()), [=](Legacy &L) { L.bodies[0].vo = e; });
    }
    add("version", [](Legacy &L) { L.version = "v: 1.2  "; });
    add("version-other", [](Legacy &L) { L.version = "v: 1.30 "; });
    for (int i = 0; i < 5; i++) add(mc::fmt("without%d", i), [=](Legacy &L) { L.has[i] = false; });
    for (size_t n : {0, 3, 17}) {
        std::vector<TObj> l;
        for (size_t i = 0; i < n; i++) l.push_back(TObj(i + .5, -double(i), 1. / (i + 1)));
        std::vector<TObj> Legacy::*lp[] = {&Legacy::vort, &Legacy::heat, &Legacy::src, &Legacy::streak};
        for (int i = 0; i < 4; i++) add(mc::fmt("list%d*%zu", i, n), [=](Legacy &L) { L.*lp[i] = l; });
    }
    TVec3D LBody::*bp[] = {&LBody::holder, &LBody::dpos, &LBody::slae, &LBody::slae_prev, &LBody::kspring, &LBody::force_hydro, &LBody::fdt_dead, &LBody::friction_prev};
    for (int i = 0; i < 8; i++) add(mc::fmt("body%d", i), [=](Legacy &L) { L.bodies[0].*bp[i] = TVec3D(11, 12, 13); });
    add("density", [](Legacy &L) { L.bodies[0].density = 0; });
    for (int n : {0, 1, 2, 3, 5}) for (int s = -1; s < n; s++) for (char k : {'s', 'i', 'z'}) if (s >= 0 || k == 's') add(mc::fmt("segs%d/%d%c", n, s, k), [=](Legacy &L) { L.bodies[0].segs = segs(n, s, k); });
    for (char h : {'n', 'i', 't', 'w', 'x'}) add(mc::fmt("hc%c", h), [=](Legacy &L) { L.bodies[0].segs = segs(4, 2, 'z', h); });
    for (char b : {'l', 'n', 'x', '\0'}) add(mc::fmt("bc%d", b), [=](Legacy &L) { L.bodies[0].segs = segs(4, -1, 'z', 'n', b, 'l'); });
    add("bodies0", [](Legacy &L) { L.bodies.clear(); L.bodies.reserve(1); });
    add("bodies25", [](Legacy &L) { while (L.bodies.size() < 25) L.bodies.push_back(lbody(segs(3 + L.bodies.size() % 4, L.bodies.size() % 3))); });
    add("bodies29", [](Legacy &L) { while (L.bodies.size() < 29) L.bodies.push_back(lbody(segs(3))); });
    auto field = [&](size_t i) { return m[i].first.substr(0, m[i].first.find_first_of("=:/-*")); };
    auto rep = [&](size_t i) { return !i || field(i) != field(i - 1); };
    for (size_t i = 0; i < m.size(); i++) for (size_t j = i; j < m.size(); j++) {
        if (m[i].first == "bodies0" && m[j].first != "bodies0" && m[j].first.substr(0, 6) == "bodies") continue;
        // quick: of every field its first value, in pairs; the others alone
        if (!mc::thorough() && i != j && !(rep(i) && rep(j))) continue;
        if (!mc::want("legacy " + m[i].first + " " + m[j].first)) continue;
        mc::sample(m[i].first + " " + m[j].first, 2);
        Legacy L = rich();
        if (m[i].first == "bodies0") { m[j].second(L); m[i].second(L); } else if (m[j].first == "bodies0") { m[i].second(L); m[j].second(L); } else { m[i].second(L); m[j].second(L); }
        legacy(L.bytes());
    }
    // 2. sections in every order (the data of a body has to come before its segments)
    {
        Legacy L = rich(); L.bodies.resize(1); L.has[3] = L.has[4] = false;
        L.order = {0, 1, 2, 3, 4};
        do {
            std::string id = "order"; for (int x : L.order) id += mc::fmt(" %d", x);
            if (mc::want(id)) legacy(L.bytes());
        } while (std::next_permutation(L.order.begin(), L.order.end()));
    }
    // 3. damage: every prefix, every byte replaced
    Bytes B = rich().bytes();
    shallow = true;
    for (size_t n = 0; n <= B.size(); n++) if (mc::want(mc::fmt("legacy cut to %zu", n))) { shallow = n % 16; legacy(B.substr(0, n)); }
    for (size_t i = 0; i < B.size(); i++) for (int k = 0; k < (mc::thorough() ? 10 : 4); k++) {
        if (!mc::want(mc::fmt("legacy byte %zu/%d", i, k))) continue;
        Bytes c = B;
        unsigned char x = B[i];
        c[i] = k == 0 ? 0xff : k == 1 ? 0x7f : k == 2 ? (unsigned char)(x + 1) : k == 3 ? 0 : (unsigned char)(x ^ (1 << (k - 4)));
        if (c[i] == B[i]) continue;
        shallow = i % 16 || k;
        legacy(c);
    }
    shallow = false;
    // 4. neither
    std::vector<std::pair<const char *, Bytes>> other = {{"empty", ""}, {"lua", "S.caption='x'\nsimulate()\n"}, {"zeros", Bytes(4096, 0)}, {"ones", Bytes(4096, '\xff')}, {"text", Bytes(3000, 'x')}, {"signature", "\x89HDF\r\n\x1a\n"}, {"signature and zeros", Bytes("\x89HDF\r\n\x1a\n") + Bytes(2000, 0)}};
    for (auto &x : other) if (!x.second.empty() && mc::want(std::string("other ") + x.first)) { put_file(x.second); judge({}, true); }
    if (mc::want("other missing")) { unlink(FILE_); judge({}, true); }
    if (mc::want("other directory")) { unlink(FILE_); mkdir(FILE_, 0777); shallow = true; judge({}, true); shallow = false; rmdir(FILE_); }
    // 5. many files one after another
    for (int k = 0; k < 2; k++) if (mc::want(mc::fmt("many %s", k ? "damaged" : "good"))) {
        struct rlimit l; getrlimit(RLIMIT_NOFILE, &l);
        Space S;
        put_file(k ? B.substr(0, B.size() - 1) : B);
        for (unsigned i = 0; i < 400; i++) { std::string e = try_load(S); if ((k == 0) != e.empty()) { mc::fail("many", mc::fmt("load %u: %s", i, e.c_str())); break; } }
        mc::nontrivial(400);
    }
}

// ------------------------------------------------------------------ HDF5
static void h5edit(const char *name, const std::function<void(hid_t)> &f) {
    hid_t fapl = H5Pcreate(H5P_FILE_ACCESS); H5Pset_fclose_degree(fapl, H5F_CLOSE_STRONG);
    hid_t h = H5Fopen(name, H5F_ACC_RDWR, fapl);
    if (h < 0) abort();
    f(h);
    H5Fclose(h); H5Pclose(fapl);
}
struct Shape { const char *name; int nd; hsize_t d[3]; };
struct Type { const char *name; int kind; };
static hid_t type_of(int k) {
    switch (k) {
    case 0: return H5Tcopy(H5T_IEEE_F64LE);
    case 1: return H5Tcopy(H5T_IEEE_F64BE);
    case 2: return H5Tcopy(H5T_IEEE_F32LE);
    case 3: return H5Tcopy(H5T_STD_I32LE);
    case 4: return H5Tcopy(H5T_STD_U8LE);
    case 5: { hid_t t = H5Tcopy(H5T_C_S1); H5Tset_size(t, 8); return t; }
    case 6: { hid_t t = H5Tcopy(H5T_C_S1); H5Tset_size(t, H5T_VARIABLE); return t; }
    case 7: { hid_t t = H5Tcreate(H5T_COMPOUND, 16); H5Tinsert(t, "x", 0, H5T_NATIVE_DOUBLE); H5Tinsert(t, "y", 8, H5T_NATIVE_DOUBLE); return t; }
    default: return H5Tcreate(H5T_OPAQUE, 8);
    }
}
static const char *type_name[] = {"f64", "f64be", "f32", "i32", "u8", "string", "vlen", "compound", "opaque"};
// values which every numeric type can hold
static double val(size_t i) { return double((i * 7 + 3) % 100); }

static void dataset(hid_t at, const char *name, int nd, const hsize_t *d, int kind) {
    hid_t s = nd < 0 ? H5Screate(H5S_NULL) : nd ? H5Screate_simple(nd, d, NULL) : H5Screate(H5S_SCALAR), t = type_of(kind);
    hid_t x = H5Dcreate(at, name, t, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    size_t n = 1; for (int i = 0; i < nd; i++) n *= d[i];
    if (nd >= 0 && n && kind < 5) { std::vector<double> v(n); for (size_t i = 0; i < n; i++) v[i] = val(i); H5Dwrite(x, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()); }
    H5Dclose(x); H5Sclose(s); H5Tclose(t);
}

static void family_hdf() {
    Bytes B = get_file("c26.base");
    // 1. every prefix
    for (size_t n = 1; n < B.size(); n++) {
        if (!mc::thorough() && n % 16 && n > 600 && n + 600 < B.size()) continue;
        if (!mc::want(mc::fmt("hdf5 cut to %zu", n))) continue;
        shallow = n % 64;
        put_file(B.substr(0, n));
        judge({}, true);
    }
    shallow = false;
    // 2. lists of every shape and type
    const hsize_t sizes[] = {0, 1, 2, 3, 4, 5, 7};
    const char *lists[] = {"vort", "heat", "ink", "ink_source", "source"};
    std::vector<TObj> Space::*lp[] = {&Space::VortexList, &Space::HeatList, &Space::StreakList, &Space::StreakSourceList, &Space::SourceList};
    std::vector<std::pair<std::string, std::pair<int, std::vector<hsize_t>>>> shapes;
    shapes.push_back({"null", {-1, {}}});
    shapes.push_back({"scalar", {0, {}}});
    for (hsize_t a : sizes) {
        shapes.push_back({mc::fmt("%d", (int)a), {1, {a}}});
        for (hsize_t b : sizes) {
            shapes.push_back({mc::fmt("%dx%d", (int)a, (int)b), {2, {a, b}}});
            for (hsize_t c : {1, 3}) if (a < 4 && b < 4) shapes.push_back({mc::fmt("%dx%dx%d", (int)a, (int)b, (int)c), {3, {a, b, c}}});
        }
    }
    for (int li = 0; li < 5; li++) for (auto &sh : shapes) for (int k = 0; k < 9; k++) {
        if (!mc::want(mc::fmt("hdf5 %s %s %s", lists[li], sh.first.c_str(), type_name[k]))) continue;
        put_file(B);
        h5edit(FILE_, [&](hid_t f) { H5Ldelete(f, lists[li], H5P_DEFAULT); if (li == 0) H5Ldelete(f, "vort_1_eps", H5P_DEFAULT); dataset(f, lists[li], sh.second.first, sh.second.second.data(), k); });
        auto &d = sh.second.second;
        bool ok = sh.second.first == 2 && d[1] == 3 && k < 5;
        std::vector<Dump> want;
        if (ok) {
            Space S; S.load("c26.base");
            (S.*lp[li]).clear();
            for (size_t i = 0; i < d[0]; i++) (S.*lp[li]).push_back(TObj(val(3 * i), val(3 * i + 1), val(3 * i + 2)));
            want.push_back(dump_space(S, true));
        }
        judge(want, k > 0);
    }
    // 3. the values that belong to elements
    const size_t nv = BASE.VortexList.size(), nb = BASE.BodyList[0]->size();
    for (int w = 0; w < 2; w++) for (auto &sh : shapes) for (int k = 0; k < 9; k++) {
        const char *name = w ? "fric_body00" : "vort_1_eps";
        if (!mc::want(mc::fmt("hdf5 %s %s %s", name, sh.first.c_str(), type_name[k]))) continue;
        put_file(B);
        h5edit(FILE_, [&](hid_t f) { H5Ldelete(f, name, H5P_DEFAULT); dataset(f, name, sh.second.first, sh.second.second.data(), k); });
        size_t n = sh.second.first < 0 ? 0 : 1; for (auto x : sh.second.second) n *= x;
        std::vector<Dump> want;
        if (n == (w ? nb : nv) && k < 5) {
            Space S; S.load("c26.base");
            for (size_t i = 0; i < n; i++) if (w) S.BodyList[0]->alist[i].fric = val(i); else S.VortexList[i]._1_eps = val(i);
            want.push_back(dump_space(S, true));
        }
        judge(want, k > 0 || sh.second.first != 2);
    }
    // 4. bodies
    for (auto &sh : shapes) for (int k = 0; k < 9; k++) for (int slip = 0; slip < 2; slip++) {
        if (!mc::want(mc::fmt("hdf5 body00 %s %s %s", sh.first.c_str(), type_name[k], slip ? "slip" : "bare"))) continue;
        put_file(B);
        h5edit(FILE_, [&](hid_t f) {
            H5Ldelete(f, "body00", H5P_DEFAULT); H5Ldelete(f, "fric_body00", H5P_DEFAULT);
            dataset(f, "body00", sh.second.first, sh.second.second.data(), k);
            hid_t d = H5Dopen(f, "body00", H5P_DEFAULT), s = H5Screate(H5S_SCALAR), a = H5Acreate(d, "simplified_dataset", H5T_NATIVE_UINT32, s, H5P_DEFAULT, H5P_DEFAULT);
            uint32_t two = 2; H5Awrite(a, H5T_NATIVE_UINT32, &two); H5Aclose(a); H5Sclose(s);
            if (slip) {
                uint32_t v[4] = {1, 0, 1, 0}; hsize_t n = 4; s = H5Screate_simple(1, &n, NULL); a = H5Acreate(d, "slip", H5T_NATIVE_UINT32, s, H5P_DEFAULT, H5P_DEFAULT);
                H5Awrite(a, H5T_NATIVE_UINT32, v); H5Aclose(a); H5Sclose(s);
            }
            H5Dclose(d);
        });
        auto &d = sh.second.second;
        if (sh.second.first == 2 && d[1] == 4 && k < 5 && (!slip || d[0] == 4)) {
            // it holds what it holds; the attributes are absent
            mc::nontrivial();
            Space S;
            std::string e = try_load(S);
            if (!e.empty()) { if (d[0] && k == 0) mc::fail("refuses", e); continue; }
            bool good = S.BodyList.size() == BASE.BodyList.size() && S.BodyList[0]->size() == d[0];
            for (size_t i = 0; good && i < d[0]; i++) {
                const TAtt &t = S.BodyList[0]->alist[i];
                good = t.corner.x == val(4 * i) && t.corner.y == val(4 * i + 1) && t.g == val(4 * i + 2) && t.gsum == val(4 * i + 3) && t.slip == (slip && i % 2 == 0);
            }
            if (!good) mc::fail("content:body", "segments differ");
        } else judge({}, true);
    }
    // 5. attributes: absent, not a single value, of another type
    for (int where = 0; where < 2; where++) {
        std::vector<std::string> names;
        h5edit("c26.base2", [&](hid_t f) {
            hid_t o = H5Oopen(f, where ? "body00" : "/", H5P_DEFAULT);
            for (int i = 0; i < H5Aget_num_attrs(o); i++) { hid_t a = H5Aopen_idx(o, i); char n[64]; H5Aget_name(a, 64, n); names.push_back(n); H5Aclose(a); }
            H5Oclose(o);
        });
        for (auto &n : names) for (int v = 0; v < 14; v++) {
            if (!mc::want(mc::fmt("hdf5 attribute %s %d", n.c_str(), v))) continue;
            put_file(B);
            bool changed = true, number = false; double is = 0;
            h5edit(FILE_, [&](hid_t f) {
                hid_t o = H5Oopen(f, where ? "body00" : "/", H5P_DEFAULT), a = H5Aopen(o, n.c_str(), H5P_DEFAULT), t = H5Aget_type(a);
                { hid_t s = H5Aget_space(a); number = (H5Tget_class(t) == H5T_FLOAT || H5Tget_class(t) == H5T_INTEGER) && H5Sget_simple_extent_npoints(s) == 1; H5Sclose(s); }
                if (number) H5Aread(a, H5T_NATIVE_DOUBLE, &is);
                H5Aclose(a);
                H5Adelete(o, n.c_str());
                if (v > 0 && v < 4) {
                    // two values, four, none of the same type
                    hsize_t m = v == 1 ? 2 : 64; hid_t s = v < 3 ? H5Screate_simple(1, &m, NULL) : H5Screate(H5S_NULL);
                    H5Aclose(H5Acreate(o, n.c_str(), t, s, H5P_DEFAULT, H5P_DEFAULT)); H5Sclose(s);
                } else if (v >= 4 && v < 13) {
                    hid_t s = H5Screate(H5S_SCALAR), t2 = type_of(v - 4); a = H5Acreate(o, n.c_str(), t2, s, H5P_DEFAULT, H5P_DEFAULT);
                    double x = number && is == is && std::fabs(is) <= 255 ? std::floor(std::fabs(is)) : 1;
                    if (v - 4 < 5) H5Awrite(a, H5T_NATIVE_DOUBLE, &x);
                    changed = !(number && x == is);
                    H5Aclose(a); H5Sclose(s); H5Tclose(t2);
                } else if (v == 13) {
                    // a group of the name does no harm
                    hid_t s = H5Screate(H5S_SCALAR); a = H5Acreate(o, n.c_str(), t, s, H5P_DEFAULT, H5P_DEFAULT); H5Aclose(a); H5Sclose(s);
                }
                H5Tclose(t); H5Oclose(o);
            });
            int before = fds();
            Space S;
            std::string e = try_load(S);
            mc::nontrivial();
            if (n == "time_local" || n.substr(0, 4) == "git_") { if (!e.empty()) mc::outcome("refused"); continue; }  // about the writer of the file
            if (!e.empty()) { mc::outcome("refused"); if (v >= 4 && !changed && v < 6) mc::fail("refuses", e); afterwards(S, before); continue; }
            mc::outcome("loaded");
            if (n == "dt" && v == 0 && !where) mc::fail("accepts", "a file without a time step");
            // nothing else changes
            Dump got = dump_space(S, true), base = BASE_D;
            size_t diffs = 0; std::string first;
            for (size_t i = 0; i < got.size() && i < base.size(); i++) if (got[i] != base[i] && !strstr(base[i].first.c_str(), "()") ) { diffs++; if (first.empty()) first = base[i].first + " was " + base[i].second + " is " + got[i].second; }
            bool derived = where && (n == "holder_position" || n == "delta_position" || n == "general_slip" || n == "slip" || n == "simplified_dataset" || n == "density");
            if (got.size() != base.size() || (diffs > 1 && !derived) || (diffs && ((v > 0 && v < 4) || (v >= 4 && v < 13 && !changed)))) mc::fail("content:other", mc::fmt("%zu fields differ: %s", diffs, first.c_str()));
        }
    }
    // 6. names of objects
    for (const char *n : {"b", "bo", "bod", "bodyx", "bodx", "x", "fric_body07", "vort_2"}) for (int g = 0; g < 2; g++) {
        if (!mc::want(mc::fmt("hdf5 object %s %s", n, g ? "group" : "dataset"))) continue;
        put_file(B);
        h5edit(FILE_, [&](hid_t f) { hsize_t d[2] = {3, 3}; if (g) H5Gclose(H5Gcreate(f, n, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT)); else dataset(f, n, 2, d, 0); });
        if (!strncmp(n, "body", 4)) judge({}, true); else judge({BASE_D}, false);
    }
    // 7. HDF5 files of other content
    for (int v = 0; v < 3; v++) if (mc::want(mc::fmt("hdf5 other %d", v))) {
        hid_t f = H5Fcreate(FILE_, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
        hsize_t d[2] = {5, 3};
        if (v >= 1) dataset(f, "vort", 2, d, 0);
        if (v == 2) { hid_t s = H5Screate(H5S_SCALAR), t = type_of(6), a = H5Acreate(f, "caption", t, s, H5P_DEFAULT, H5P_DEFAULT); const char *x = "name"; H5Awrite(a, t, &x); H5Aclose(a); H5Sclose(s); H5Tclose(t); }
        H5Fclose(f);
        judge({}, true);
    }
}

// ------------------------------------------------------------------ bodies from text
struct Line { std::string text; int kind; double x, y; unsigned slip; };  // kind 0: a corner, 1: refused, 2: blank
static void family_text() {
    std::vector<Line> A = {
        {"0 0", 0, 0, 0, 0}, {"1 0", 0, 1, 0, 0}, {"1 1 1", 0, 1, 1, 1}, {"0 1 0", 0, 0, 1, 0}, {"-0.5 .25 1", 0, -.5, .25, 1}, {"  2 3", 0, 2, 3, 0}, {"2\t3\t1", 0, 2, 3, 1}, {"1e-3 1E2", 0, 1e-3, 100, 0},
        {"7 8 1\r", 0, 7, 8, 1}, {"3 4" + std::string(200, ' '), 0, 3, 4, 0}, {"0." + std::string(150, '0') + "1 5 1", 0, 1e-151, 5, 1}, {std::string(130, ' ') + "6 7 1", 0, 6, 7, 1},
        {"3 " + std::string(123, '0') + "4 1", 0, 3, 4, 1}, {"x y", 1, 0, 0, 0}, {"", 2, 0, 0, 0}, {"1", 1, 0, 0, 0}, {"# c", 1, 0, 0, 0}, {std::string(300, ' ') + "q", 1, 0, 0, 0}};
    const size_t n = A.size();
    const int depth = mc::thorough() ? 4 : 3;
    std::vector<int> c;
    std::function<void()> rec = [&]() {
        for (int nl = 0; nl < 2; nl++) {
            if (c.empty() && nl) continue;
            std::string id = "text"; for (int x : c) id += mc::fmt(" %d", x); id += nl ? " newline" : "";
            if (!mc::want(id)) continue;
            std::string f; bool refuse = false, may = false; std::vector<TAtt> want;
            for (size_t i = 0; i < c.size(); i++) {
                const Line &l = A[c[i]];
                f += l.text; if (i + 1 < c.size() || nl) f += "\n";
                if (l.kind == 1) refuse = true; else if (l.kind == 2) may = true; else want.emplace_back(TVec(l.x, l.y), l.slip);
            }
            if (want.empty()) may = true;
            put_file(f);
            mc::nontrivial();
            Space S;
            int err = S.load_body_txt(FILE_);
            if (err) {
                mc::outcome("text refused");
                if (!refuse && !may) mc::fail("refuses", strerror(err));
                if (!S.BodyList.empty()) mc::fail("text", "a refused body is in the list");
                continue;
            }
            mc::outcome("text loaded");
            if (refuse) { mc::fail("accepts", f); continue; }
            bool good = S.BodyList.size() == 1 && S.BodyList[0]->size() == want.size();
            for (size_t i = 0; good && i < want.size(); i++) { const TAtt &a = S.BodyList[0]->alist[i]; good = a.corner.x == want[i].corner.x && a.corner.y == want[i].corner.y && a.slip == want[i].slip; }
            if (!good) { std::string s; for (auto &a : S.BodyList[0]->alist) s += dx(a.corner) + mc::fmt(",%u ", a.slip); mc::fail("content:text", mc::esc(f.substr(0, 100)) + " gives " + s); }
        }
        if ((int)c.size() < depth) for (size_t i = 0; i < n; i++) { c.push_back(i); rec(); c.pop_back(); }
    };
    rec();
    if (mc::want("text missing")) { unlink(FILE_); Space S; if (!S.load_body_txt(FILE_)) mc::fail("accepts", "no file"); }
    if (mc::want("text directory")) { unlink(FILE_); mkdir(FILE_, 0777); Space S; if (!S.load_body_txt(FILE_)) mc::fail("accepts", "a directory"); rmdir(FILE_); }
}

int main(int argc, char **argv) {
    mc::init(argc, argv);
    H5Eset_auto(H5E_DEFAULT, NULL, NULL);
    // the base: everything differs from its default
    BASE.caption = "base"; BASE.re = 50; BASE.pr = 0.5; BASE.inf_g = 1.5; BASE.inf_vx = std::string("1+t"); BASE.inf_vy = std::string("2*t"); BASE.inf_marker = TVec(1, 2); BASE.gravity = TVec(3, 4);
    BASE.time = TTime(1, 10); BASE.dt = TTime(1, 10); BASE.dt_save = TTime(1, 5); BASE.dt_streak = TTime(1, 2); BASE.dt_profile = TTime(1, 4); BASE.finish = 5;
    for (int i = 0; i < 5; i++) { BASE.VortexList.push_back(TObj(i, i + .5, 1)); BASE.VortexList.back()._1_eps = i + 1; BASE.HeatList.push_back(TObj(-i, i, 2)); BASE.SourceList.push_back(TObj(i, 3, 3)); BASE.StreakSourceList.push_back(TObj(4, i, 4)); BASE.StreakList.push_back(TObj(i, i, 5)); }
    for (int k = 0; k < 2; k++) {
        auto b = make_poly(ngon(4 + k, 0.5, TVec(3 * k, 0)));
        b->label = mc::fmt("L%d", k); b->holder = TVec3D(1, 2, 3); b->dpos = TVec3D(4, 5, 6); b->kspring = TVec3D(1, 2, 3); b->damping = TVec3D(.1, .2, .3); b->speed_x = std::string("t"); b->speed_y = std::string("2*t"); b->speed_o = std::string("3*t"); b->force_o = std::string("4*t");
        b->speed_slae = TVec3D(7, 8, 9); b->speed_slae_prev = TVec3D(1, 3, 5); b->density = 2; b->bounce = 0.5; b->collision_min = TVec3D(-1, -2, -3); b->collision_max = TVec3D(10, 20, 30);
        b->force_hydro = TVec3D(1, 1, 2); b->force_holder = TVec3D(3, 5, 8); b->friction_prev = TVec3D(13, 21, 34); b->fdt_dead = TVec3D(55, 89, 144); b->g_dead = 0.25;
        b->special_segment_no = 2; b->boundary_condition = bc_t::kutta; b->heat_condition = hc_t::const_t; b->collision_state = 1;
        int i = 0; for (auto &a : b->alist) { a.g = ++i; a.gsum = -i; a.fric = i * .5; a.heat_const = 3; a.slip = i == 2; }
        b->doFillProperties();
        if (k) b->root_body = BASE.BodyList[0];
        BASE.BodyList.push_back(b);
    }
    BASE.EnumerateBodies();
    BASE_D = dump_space(BASE, true);
    BASE.save("c26.base"); BASE.save("c26.base2");
    { Space warm; warm.load("c26.base"); std::string d = first_diff(BASE_D, dump_space(warm, true)); if (!d.empty()) mc::fail("base", d); }
    family_legacy();
    family_hdf();
    family_text();
    return mc::finish();
}
