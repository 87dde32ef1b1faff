// C02: times are exact rationals.
#include "mc.hpp"
#include "TTime.hpp"
typedef __int128 I;

// the sum: exact if a 32-bit fraction can hold it, otherwise an error; whether one is a multiple of the other
static void pair(int32_t v, uint32_t a, int32_t w, uint32_t b) {
    I num = (I)v * b + (I)w * a, den = (I)a * b;
    I x = num < 0 ? -num : num, y = den;
    while (x) { I z = y % x; y = x; x = z; }
    bool fits = num / y >= -2147483648ll && num / y <= 2147483647ll && den / y <= 4294967295ll;
    std::string id = mc::fmt("%d/%u+%d/%u", v, a, w, b);
    try {
        TTime r = TTime::add(TTime(v, a), TTime(w, b));
        if (!(r.timescale > 0 && (I)r.value * den == num * r.timescale))
            mc::fail("add", mc::fmt("%s = %d/%u", id.c_str(), r.value, r.timescale), id);
        else mc::outcome(r.timescale == den / y ? "sum in lowest terms" : "sum");
    } catch (const std::exception &) {
        if (fits) mc::fail("add", mc::fmt("%s is refused", id.c_str()), id);
        else mc::outcome("sum out of range is an error");
    }
    bool got = TTime(v, a).divisibleBy(TTime(w, b));
    bool need = w != 0 && ((I)v * b) % ((I)w * a) == 0;
    if (got != need) mc::fail("divisible", mc::fmt("%d/%u by %d/%u: %d", v, a, w, b, (int)got), mc::fmt("%d/%u by %d/%u", v, a, w, b));
    double d = TTime(v, a);
    if (d != double(v) / double(a)) mc::fail("double", mc::fmt("%d/%u as number is %.17g", v, a, d));
    std::string s = TTime(v, a);
    if (s != mc::fmt("%d/%u", v, a)) mc::fail("string", mc::fmt("%d/%u as string is %s", v, a, s.c_str()));
}

int main(int argc, char **argv) {
    mc::init(argc, argv);
    // 1. decimals: every n/10^k that fits the representation
    int64_t p10 = 1;
    for (int k = 0; k <= 9; k++, p10 *= 10) {
        std::vector<int64_t> ns;
        int64_t lim = mc::thorough() ? 3000000 : 130000;
        // blocks of 10000 numerators form a case
        for (int64_t lo = -lim; lo < lim; lo += 10000) {
            if (!mc::want(mc::fmt("decimals %lld..%lld / 10^%d", (long long)lo, (long long)lo + 9999, k))) continue;
            for (int64_t n = lo; n < lo + 10000; n++) {
                double d = double(n) / double(p10);
                TTime t = TTime::makeWithSecondsDecimal(d);
                if (!(t.timescale > 0 && (I)t.value * p10 == (I)n * t.timescale))
                    mc::fail("decimal", mc::fmt("%.17g (= %lld/%lld) became %d/%u", d, (long long)n, (long long)p10, t.value, t.timescale), mc::fmt("%lld/10^%d", (long long)n, k));
            }
            mc::nontrivial(10000); mc::S().evaluations += 9999;
        }
        // around the largest numerators that fit
        if (mc::want(mc::fmt("largest decimals / 10^%d", k))) {
            for (int64_t n : {2147483647ll, 2147483646ll, 2147483601ll, 1999999999ll, 1234567891ll, 1000000001ll, 314159265ll, 271828183ll, -2147483647ll, -1234567891ll, -314159265ll}) {
                double d = double(n) / double(p10);
                TTime t = TTime::makeWithSecondsDecimal(d);
                if (!((I)t.value * p10 == (I)n * t.timescale))
                    mc::fail("decimal", mc::fmt("%.17g (= %lld/%lld) became %d/%u", d, (long long)n, (long long)p10, t.value, t.timescale), mc::fmt("%lld/10^%d", (long long)n, k));
                mc::nontrivial();
            }
        }
    }
    // 1b. numbers that are no short decimals: nearest representable, relative error below 1e-8
    if (mc::want("irrational")) {
        for (double d : {M_PI, 1.0 / 3, 2.0 / 3, 1.0 / 7, sqrt(2.0), 1e-3 / 7, 123.456789012345, 1e-5 / 3, 20000.0 / 3, 1e6 / 7, 1e9 / 7, 2e9 / 3})
            for (int s = -1; s <= 1; s += 2) {
                TTime t = TTime::makeWithSecondsDecimal(s * d);
                double v = t;
                if (!(std::fabs(v - s * d) <= 1e-8 * std::max(d, 1.0)))
                    mc::fail("approximation", mc::fmt("%.17g became %d/%u", s * d, t.value, t.timescale), mc::fmt("%.17g", s * d));
                mc::nontrivial();
            }
    }
    // 2. sums
    const uint32_t TS = mc::thorough() ? 260 : 70;
    std::vector<uint32_t> scales;
    for (uint32_t i = 1; i <= TS; i++) scales.push_back(i);
    for (uint32_t s : {100u, 125u, 128u, 200u, 250u, 256u, 343u, 400u, 500u, 625u, 1000u, 1024u, 2000u, 3000u, 3125u, 4096u, 5000u, 10000u, 9973u, 65536u, 100000u, 65521u}) if (s > TS) scales.push_back(s);
    for (uint32_t a : scales) {
        if (!mc::want(mc::fmt("add, scale %u to all", a))) continue;
        uint64_t n = 0;
        for (uint32_t b : scales) for (int32_t v : {-7, -1, 0, 1, 2, 3, 10, 49, 101}) for (int32_t w : {-5, -1, 0, 1, 2, 4, 6, 25, 100}) {
            pair(v, a, w, b);
            n++;
        }
        mc::nontrivial(n); mc::S().evaluations += n - 1;
    }
    // 2b. the whole range of the representation
    {
        const std::vector<uint32_t> big = {1u, 2u, 3u, 10u, 255u, 46341u, 65521u, 65535u, 65536u, 65537u, 65539u, 1000000u, 16777213u, 99999989u, 100000000u, 1000000000u, 999999937u, 1431655765u, 2147483629u,
            2147483646u, 2147483647u, 2147483648u, 2147483649u, 3000000000u, 3221225472u, 4000000000u, 4294967279u, 4294967291u, 4294967294u, 4294967295u};
        const std::vector<int32_t> vals = {-2147483647 - 1, -2147483647, -1999999998, -1073741824, -65536, -7, -2, -1, 0, 1, 2, 3, 10, 49999, 65535, 65537, 131078, 1000000000, 1073741824, 1431655764, 2147483629, 2147483646, 2147483647};
        for (uint32_t a : big) for (uint32_t b : big) {
            if (!mc::want(mc::fmt("large, %u and %u", a, b))) continue;
            uint64_t n = 0;
            for (int32_t v : vals) for (int32_t w : vals) { pair(v, a, w, b); n++; }
            mc::nontrivial(n); mc::S().evaluations += n - 1;
        }
    }
    // 3. histories: N steps of dt from a start time; save/streak/profile periods fire exactly when they should
    std::vector<TTime> dts = {TTime(1, 10), TTime(1, 20), TTime(1, 200), TTime(1, 1000), TTime(3, 1000), TTime(1, 3), TTime(1, 77), TTime(2, 7), TTime(5, 4), TTime(1, 1), TTime(1, 10000), TTime(50, 1000), TTime(4, 10), TTime(1, 65537), TTime(7, 1000003), TTime(1, 99999989)};
    std::vector<TTime> starts = {TTime(0, 1), TTime(-1, 1), TTime(1, 3), TTime(-7, 10), TTime(5, 2), TTime(100, 7)};
    std::vector<TTime> pers = {TTime(0, 1), TTime(1, 1), TTime(1, 2), TTime(1, 3), TTime(2, 10), TTime(1, 10), TTime(1, 4), TTime(3, 7), TTime(1, 500), TTime(9, 1000), TTime(-1, 2), TTime(1, 65539), TTime(3, 65537), TTime(21, 1000003), TTime(2, 99999989), TTime(1, 4294967291u)};
    const int N = mc::thorough() ? 20000 : 3000;
    for (size_t i = 0; i < dts.size(); i++) for (size_t j = 0; j < starts.size(); j++) {
        TTime dt = dts[i], st = starts[j];
        std::string id = mc::fmt("run from %d/%u by %d/%u", st.value, st.timescale, dt.value, dt.timescale);
        if (!mc::want(id)) continue;
        mc::sample(id);
        TTime t = st;
        for (int k = 0; k <= N; k++) {
            // exact time: st + k*dt
            I num = (I)st.value * dt.timescale + (I)k * dt.value * st.timescale, den = (I)st.timescale * dt.timescale;
            if ((I)t.value * den != num * t.timescale) { mc::fail("history", mc::fmt("after %d steps the time is %d/%u", k, t.value, t.timescale)); break; }
            for (auto &p : pers) {
                bool need = p.value && (num * p.timescale) % (den * p.value) == 0;
                if (t.divisibleBy(p) != need) mc::fail("period", mc::fmt("step %d time %d/%u period %d/%u", k, t.value, t.timescale, p.value, p.timescale), id + mc::fmt(" step %d period %d/%u", k, p.value, p.timescale));
            }
            pair(t.value, t.timescale, dt.value, dt.timescale);
            try { t = TTime::add(t, dt); } catch (const std::exception &) { break; }
        }
        mc::nontrivial(N); mc::S().evaluations += N - 1;
    }
    return mc::finish();
}
