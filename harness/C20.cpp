// C20: compound units behave as the quotient they denote
#include "pbt.hpp"

#include "spine/structure/units/primitives/compound_unit.hpp"
#include "spine/structure/units/si.hpp"

using namespace pbt;
using spn::structure::units::CompoundUnit;

namespace {

using R = spnu::RealRawType;
constexpr long double EPS = std::numeric_limits<R>::epsilon();

/// what the code makes of two quotients an/ad and bn/bd
struct Results {
    R value, converted, assigned, sum, difference, plus_assigned, minus_assigned, negated, copy, twice, none, own, there, back, opposite;
    R numerator, denominator;
    bool eq, ne, lt, gt, le, ge;
};

template<typename A, typename B>
Results compute(R an, R ad, R bn, R bd) {
    using AN = typename A::NumeratorType;
    using AD = typename A::DenominatorType;
    using BN = typename B::NumeratorType;
    using BD = typename B::DenominatorType;
    const A x(AN{an}, AD{ad});
    const B y(BN{bn}, BD{bd});
    Results r{};
    r.value = x.raw();
    r.numerator = x.numerator().raw();
    r.denominator = x.denominator().raw();
    r.converted = A(y).raw();
    A t(AN{1}, AD{1});
    t = y;
    r.assigned = t.raw();
    r.sum = (x + y).raw();
    r.difference = (x - y).raw();
    A p(x);
    p += y;
    r.plus_assigned = p.raw();
    A m(AN{1}, AD{1});
    m = x;
    m -= y;
    r.minus_assigned = m.raw();
    r.negated = (-x).raw();
    r.copy = A(std::move(p)).raw();
    A w(x); // with itself
    w += w;
    r.twice = w.raw();
    w -= w;
    r.none = w.raw();
    A o(x);
    auto& same = o;
    o = same;
    r.own = o.raw();
    r.there = (x + y - y).raw();
    A k(x);
    (k -= y) += y;
    r.back = k.raw();
    r.opposite = A(y + x).raw();
    r.eq = x == y, r.ne = x != y, r.lt = x < y, r.gt = x > y, r.le = x <= y, r.ge = x >= y;
    return r;
}

struct Kind {
    std::string name;
    long double magnitude; // of the numerator over that of the denominator
};
using Fn = Results (*)(R, R, R, R);
struct Pair {
    Kind a, b;
    Fn fn;
};
struct Group {
    std::vector<Kind> kinds;
    std::vector<Pair> pairs;
};
template<typename... Us>
struct Types {};
template<typename A, typename... Bs>
void add_row(Group& g, size_t i, Types<Bs...>) {
    size_t j = 0;
    (g.pairs.push_back({g.kinds[i], g.kinds[j++], compute<A, Bs>}), ...);
}
template<typename... Us>
Group make_group(std::vector<Kind> kinds, Types<Us...> all) {
    Group g;
    g.kinds = std::move(kinds);
    size_t i = 0;
    (add_row<Us>(g, i++, all), ...);
    return g;
}

bool near(R got, long double expected, long double scale, long double ulps) {
    return std::fabs(static_cast<long double>(got) - expected) <= ulps * EPS * std::fabs(scale) + std::numeric_limits<R>::min();
}

R gen_value(Ctx& c) {
    const auto style = c.draw(3);
    const auto e = c.range(-4, 4);
    long double v;
    if (style == 0)
        v = static_cast<long double>(c.range(1, 9)) * powl(10, e);
    else if (style == 1)
        v = static_cast<long double>(c.range(1, 9999)) / 100;
    else
        v = (1 + static_cast<long double>(c.draw((1ull << 52) - 1)) / (1ull << 52)) * powl(10, e);
    return static_cast<R>(c.chance(1, 3) ? -v : v);
}

void pair_case(Ctx& c, const Pair& p) {
    auto an = c.chance(1, 16) ? R(0) : gen_value(c);
    const auto ad = gen_value(c);
    const auto bn = c.chance(1, 16) ? R(0) : gen_value(c);
    const auto bd = gen_value(c);
    const auto la = [&] { return static_cast<long double>(an) / ad; };
    const auto lb = static_cast<long double>(bn) / bd * (p.b.magnitude / p.a.magnitude); // in the units of a
    if (c.coin()) { // nearly the same quantity
        static const R factors[] = {1, R(1) + R(1e-3), R(1) - R(1e-3), -1, 2, R(1) + 200 * std::numeric_limits<R>::epsilon(), R(1) - 200 * std::numeric_limits<R>::epsilon()};
        an = static_cast<R>(lb * ad) * factors[c.below(7)];
    }
    NOTE(c, str(an) << "/" << str(ad) << " " << p.a.name << " and " << str(bn) << "/" << str(bd) << " " << p.b.name);
    const auto r = p.fn(an, ad, bn, bd);
    const auto what = [&] { return str(an) + "/" + str(ad) + " " + p.a.name + " and " + str(bn) + "/" + str(bd) + " " + p.b.name; };
    const auto a = la();
    CHECK(r.numerator == an && r.denominator == ad, what() << ": numerator and denominator");
    CHECK(near(r.value, a, a, 2), what() << ": value " << str(r.value) << ", expected " << double(a));
    CHECK(near(r.converted, lb, lb, 12), what() << ": converted to " << str(r.converted) << ", expected " << double(lb));
    CHECK(near(r.assigned, lb, lb, 12), what() << ": assigned " << str(r.assigned) << ", expected " << double(lb));
    const auto scale = std::fabs(a) + std::fabs(lb);
    CHECK(near(r.sum, a + lb, scale, 20), what() << ": sum " << str(r.sum) << ", expected " << double(a + lb));
    CHECK(near(r.plus_assigned, a + lb, scale, 20), what() << ": += " << str(r.plus_assigned) << ", expected " << double(a + lb));
    CHECK(near(r.difference, a - lb, scale, 20), what() << ": difference " << str(r.difference) << ", expected " << double(a - lb));
    CHECK(near(r.minus_assigned, a - lb, scale, 20), what() << ": -= " << str(r.minus_assigned) << ", expected " << double(a - lb));
    CHECK(near(r.negated, -a, a, 2), what() << ": negated " << str(r.negated));
    CHECK(r.copy == r.plus_assigned, what() << ": moved");
    CHECK(near(r.twice, 2 * a, a, 6), what() << ": added to itself " << str(r.twice));
    CHECK(near(r.none, 0, a, 6), what() << ": itself less itself " << str(r.none));
    CHECK_EQ(r.own, r.value, what() << ": assigned to itself");
    CHECK(near(r.opposite, a + lb, scale, 30), what() << ": sum the other way " << str(r.opposite) << ", expected " << double(a + lb));
    CHECK(near(r.there, a, scale, 60), what() << ": plus and minus the other " << str(r.there) << ", expected " << double(a));
    CHECK(near(r.back, a, scale, 120), what() << ": minus and plus the other " << str(r.back) << ", expected " << double(a));
    CHECK(r.ne == !r.eq, what() << ": == and != agree");
    if (std::fabs(a - lb) > 30 * EPS * std::max(std::fabs(a), std::fabs(lb))) {
        const bool less = a < lb;
        CHECK(!r.eq, what() << ": differ, but are equal");
        CHECK(r.lt == less && r.le == less && r.gt == !less && r.ge == !less, what() << ": wrong order: " << r.lt << r.le << r.gt << r.ge);
        c.label("differ");
    } else {
        CHECK(r.lt + r.gt <= 1 && r.le != r.gt && r.ge != r.lt, what() << ": orders disagree");
        c.label("hardly differ");
    }
    if (p.a.name == p.b.name && an == bn && ad == bd) CHECK(r.eq && r.le && r.ge && !r.lt && !r.gt, what() << ": the same, but not equal");
    if (an != 0 && bn != 0) c.nontrivial();
}

void group_case(Ctx& c, const Group& g) { pair_case(c, c.pick_from(const_cast<std::vector<Pair>&>(g.pairs))); }

template<typename U>
void single_case(Ctx& c) {
    using N = typename U::NumeratorType;
    using D = typename U::DenominatorType;
    auto n = c.chance(1, 10) ? R(0) : gen_value(c);
    auto d = c.chance(1, 10) ? R(0) : gen_value(c);
    if (c.chance(1, 3)) { // whole numbers with a common divisor
        const auto g = static_cast<R>(c.range(1, 12));
        n = g * static_cast<R>(c.range(-50, 50));
        d = g * static_cast<R>(c.range(-50, 50));
    }
    NOTE(c, str(n) << "/" << str(d));
    const U x(N{n}, D{d});
    const auto name = str(n) + "/" + str(d);
    const auto v = static_cast<long double>(n) / d;
    R got = 0;
    CHECK_EQ(bool(thrown_by([&] { got = x.raw(); })), d == 0, "value of " << name << " is reported");
    if (d == 0) {
        c.label("zero denominator");
        return;
    }
    CHECK(near(got, v, v, 2), "value of " << name << ": " << str(got));
    const auto s = c.chance(1, 10) ? R(0) : gen_value(c);
    const auto i = c.coin() ? c.range(-100, 100) : c.nasty(-(1ll << 31) + 1, (1ll << 31) - 1);
    const auto with = [&](const auto k) {
        const auto l = static_cast<long double>(k);
        CHECK(near((x * k).raw(), v * l, v * l, 4), name << " * " << i);
        U p(x), q(x);
        p *= k;
        CHECK(near(p.raw(), v * l, v * l, 4), name << " *= " << i);
        CHECK_EQ(bool(thrown_by([&] { CHECK(near((x / k).raw(), v / l, v / l, 4), name << " / " << i); })), k == 0, "division of " << name << " by " << i << " is reported");
        CHECK_EQ(bool(thrown_by([&] {
                     q /= k;
                     CHECK(near(q.raw(), v / l, v / l, 4), name << " /= " << i);
                 })),
                 k == 0, "division of " << name << " by " << i << " is reported");
    };
    with(static_cast<int>(i));
    with(static_cast<long long>(i));
    with(static_cast<int16_t>(i % 32768));
    with(static_cast<unsigned>(std::abs(i)));
    with(static_cast<float>(i % 1000000) / 8);
    CHECK(near((x * s).raw(), v * s, v * s, 4), name << " * " << str(s) << " = " << str((x * s).raw()));
    U y(x);
    y *= s;
    CHECK(near(y.raw(), v * s, v * s, 4), name << " *= " << str(s));
    CHECK_EQ(bool(thrown_by([&] { CHECK(near((x / s).raw(), v / s, v / s, 4), name << " / " << str(s)); })), s == 0, "division of " << name << " by " << str(s) << " is reported");
    CHECK(near((-x).raw(), -v, v, 2), "-" << name);
    CHECK(near((-(-x)).raw(), v, v, 2), "-(-" << name << ")");
    U z(x);
    const auto precision = c.pick<R>({R(1e6), R(1), R(1e3), R(1e1)});
    if (precision == R(1e6) && c.coin())
        z.simplify();
    else
        z.simplify(precision);
    CHECK(near(z.raw(), v, v, 6), name << " simplified at " << str(precision) << ": " << str(z.raw()) << " (" << str(z.numerator().raw()) << "/" << str(z.denominator().raw()) << ")");
    CHECK(x == x && !(x != x) && x <= x && x >= x && !(x < x) && !(x > x), name << " is not equal to itself");
    if (n != 0 && s != 0) c.nontrivial();
}

using Ints = CompoundUnit<k_time_ms, k_time_s>; // integral

} // namespace

#if PART == 0
PROP(flow, 4) {
    static const auto g = make_group({{"l/s", 1}, {"ml/s", 1e-3L}, {"l/m", 1.0L / 60}, {"m3/h", 1e3L / 3600}, {"ml/ms", 1}},
                                     Types<CompoundUnit<litre, time_s>, CompoundUnit<litre_ml, time_s>, CompoundUnit<litre, time_m>, CompoundUnit<cubic_metre, time_h>, CompoundUnit<litre_ml, time_ms>>());
    group_case(c, g);
}
#elif PART == 1
PROP(speed, 3) {
    static const auto g = make_group({{"m/s", 1}, {"km/h", 1e3L / 3600}, {"mm/d", 1e-3L / 86400}, {"cm/m", 1e-2L / 60}},
                                     Types<CompoundUnit<meter, time_s>, CompoundUnit<meter_k, time_h>, CompoundUnit<meter_m, time_d>, CompoundUnit<meter_c, time_m>>());
    group_case(c, g);
}
PROP(heat, 2) {
    static const auto g = make_group({{"J/K", 1}, {"kJ/K", 1e3L}}, Types<CompoundUnit<joule, kelvin>, CompoundUnit<joule_k, kelvin>>());
    static const auto h = make_group({{"g/l", 1}, {"kg/m3", 1}, {"mg/ml", 1}, {"ug/l", 1e-6L}},
                                     Types<CompoundUnit<gram, litre>, CompoundUnit<gram_k, cubic_metre>, CompoundUnit<gram_m, litre_ml>, CompoundUnit<gram_u, litre>>());
    group_case(c, c.coin() ? g : h);
}
#else
PROP(single, 4) {
    switch (c.draw(2)) {
    case 0: single_case<CompoundUnit<litre, time_s>>(c); break;
    case 1: single_case<CompoundUnit<meter_k, time_h>>(c); break;
    default: single_case<CompoundUnit<gram_u, litre_ml>>(c);
    }
}
// a compound of integers is an integral quotient
PROP(integral, 1) {
    const auto n = c.nasty(-(1ll << 30), 1ll << 30), d = c.nasty(-(1ll << 30), 1ll << 30);
    const auto m = c.nasty(-1000, 1000);
    auto e = c.nasty(-1000, 1000);
    NOTE(c, n << "/" << d << " and " << m << "/" << e);
    Ints x(k_time_ms{n}, k_time_s{d});
    int64_t got = 0;
    CHECK_EQ(bool(thrown_by([&] { got = x.raw(); })), d == 0, "value of " << n << "/" << d << " is reported");
    if (d == 0 || e == 0) return;
    CHECK_EQ(got, n / d, "value of " << n << "/" << d);
    const Ints y(k_time_ms{m}, k_time_s{e});
    CHECK_EQ((x + y).raw(), (n * e + m * d) / (d * e), n << "/" << d << " + " << m << "/" << e);
    CHECK_EQ((x - y).raw(), (n * e - m * d) / (d * e), n << "/" << d << " - " << m << "/" << e);
    Ints p(x), q(x);
    CHECK_EQ((p += y).raw(), (n * e + m * d) / (d * e), n << "/" << d << " += " << m << "/" << e);
    CHECK_EQ((q -= y).raw(), (n * e - m * d) / (d * e), n << "/" << d << " -= " << m << "/" << e);
    const auto order = [&](const auto& u, int64_t b, const std::string& with) {
        const auto a = n / d;
        CHECK_EQ(x == u, a == b, n << "/" << d << " == " << with);
        CHECK_EQ(x != u, a != b, n << "/" << d << " != " << with);
        CHECK_EQ(x < u, a < b, n << "/" << d << " < " << with);
        CHECK_EQ(x > u, a > b, n << "/" << d << " > " << with);
        CHECK_EQ(x <= u, a <= b, n << "/" << d << " <= " << with);
        CHECK_EQ(x >= u, a >= b, n << "/" << d << " >= " << with);
    };
    order(y, m / e, str(m) + "/" + str(e));
    order(Ints(k_time_ms{n / d}, k_time_s{1}), n / d, str(n / d) + "/1");
    order(Ints(k_time_ms{n / d + m}, k_time_s{1}), n / d + m, str(n / d + m) + "/1");
    { // seconds per minute, in milliseconds per second
        const CompoundUnit<k_time_s, k_time_m> u(k_time_s{m}, k_time_m{e});
        const auto b = m * 1000 / (e * 60);
        CHECK_EQ(Ints(u).raw(), b, m << " s/" << e << " m converted");
        Ints v(k_time_ms{1}, k_time_s{1});
        CHECK_EQ((v = u).raw(), b, m << " s/" << e << " m assigned");
        order(u, b, str(m) + " s/" + str(e) + " m");
        CHECK_EQ((x + u).raw(), (n * e * 60 + m * 1000 * d) / (d * e * 60), n << "/" << d << " + " << m << " s/" << e << " m");
        CHECK_EQ((x - u).raw(), (n * e * 60 - m * 1000 * d) / (d * e * 60), n << "/" << d << " - " << m << " s/" << e << " m");
    }
    CHECK_EQ((-x).raw(), -(n / d), "-" << n << "/" << d);
    CHECK_EQ((x * int(m)).raw(), n * m / d, n << "/" << d << " * " << m);
    Ints z(x);
    z.simplify();
    CHECK_EQ(z.raw(), n / d, n << "/" << d << " simplified (" << z.numerator().raw() << "/" << z.denominator().raw() << ")");
    CHECK_EQ(z.numerator().raw() * d, n * z.denominator().raw(), n << "/" << d << " simplified to " << z.numerator().raw() << "/" << z.denominator().raw());
    if (n && m) c.nontrivial();
}
#endif
