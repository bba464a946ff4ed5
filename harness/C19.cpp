// C19: real units convert and compare to within the precision of their type
#include "pbt.hpp"

#include "spine/structure/units/si.hpp"

using namespace pbt;

namespace {

using R = spnu::RealRawType;
static_assert(std::is_same_v<R, spnu::TimeRawType>);
constexpr long double EPS = std::numeric_limits<R>::epsilon();

/// what the code makes of two values
struct Results {
    R converted, assigned, moved, back, sum, difference, product, quotient, plus_assigned, minus_assigned, negated;
    bool quotient_reported, eq, ne, lt, gt, le, ge, negative;
};

template<typename A, typename B>
Results compute(R a, R b) {
    const A x(a);
    const B y(b);
    Results r{};
    const A converted(y);
    r.converted = converted.raw();
    A t(1);
    t = y;
    r.assigned = t.raw();
    A u(1);
    u = B(b);
    r.moved = u.raw();
    r.back = B(converted).raw();
    r.sum = (x + y).raw();
    r.difference = (x - y).raw();
    r.product = (x * y).raw();
    r.quotient_reported = bool(thrown_by([&] { r.quotient = (x / y).raw(); }));
    A p(a);
    p += y;
    r.plus_assigned = p.raw();
    A m(a);
    m -= y;
    r.minus_assigned = m.raw();
    r.negated = (-y).raw();
    r.negative = y.is_negative();
    r.eq = x == y, r.ne = x != y, r.lt = x < y, r.gt = x > y, r.le = x <= y, r.ge = x >= y;
    return r;
}

struct Unit {
    std::string name;
    long double magnitude; // in the base unit of the quantity, independent of the code
};
using Fn = Results (*)(R, R);
struct Pair {
    Unit a, b;
    Fn fn;
};
struct Group {
    std::vector<Unit> units;
    std::vector<Pair> pairs;
};

bool near(R got, long double expected, long double scale, long double ulps) {
    return std::fabs(static_cast<long double>(got) - expected) <= ulps * EPS * std::fabs(scale) + std::numeric_limits<R>::min();
}

/// a value of around 10^e
R gen_value(Ctx& c, int lo_decade, int hi_decade) {
    const auto style = c.draw(3);
    const auto e = c.range(lo_decade, hi_decade);
    long double v;
    if (style == 0)
        v = static_cast<long double>(c.range(1, 9)) * powl(10, e);
    else if (style == 1)
        v = static_cast<long double>(c.range(1, 999999)) / 1000 * powl(10, e);
    else
        v = (1 + static_cast<long double>(c.draw((1ull << 52) - 1)) / (1ull << 52)) * powl(10, e);
    return static_cast<R>(c.chance(1, 3) ? -v : v);
}

void pair_case(Ctx& c, const Pair& p) {
    const long double ratio = p.b.magnitude / p.a.magnitude; // converts b to a
    const auto decades = static_cast<int>(std::lround(std::log10(ratio)));
    // both the value and its conversion (and products of them) are well within the range of a float
    const int lo = std::max(-14, -14 - decades), hi = std::min(14, 14 - decades);
    auto b = c.chance(1, 20) ? R(0) : gen_value(c, std::min(lo, hi), std::max(lo, hi));
    const auto exact = static_cast<long double>(b) * ratio;
    auto a = c.chance(1, 20) ? R(0) : gen_value(c, -14, 14);
    if (c.coin()) { // something close
        static const R factors[] = {1, R(1) + R(1e-3), R(1) - R(1e-3), -1, 2, R(1) + 100 * std::numeric_limits<R>::epsilon(), R(1) - 100 * std::numeric_limits<R>::epsilon()};
        a = static_cast<R>(exact) * factors[c.below(7)];
    }
    NOTE(c, str(a) << " " << p.a.name << " and " << str(b) << " " << p.b.name);
    const auto r = p.fn(a, b);
    const auto what = [&] { return str(a) + " " + p.a.name + " and " + str(b) + " " + p.b.name; };
    CHECK(near(r.converted, exact, exact, 4), what() << ": converted to " << str(r.converted) << ", expected " << double(exact));
    CHECK(r.assigned == r.converted && r.moved == r.converted, what() << ": assignment converts to " << str(r.assigned) << " and " << str(r.moved) << ", construction to " << str(r.converted));
    CHECK(near(r.back, b, b, 6), what() << ": converted there and back to " << str(r.back));
    const auto la = static_cast<long double>(a);
    const auto sum_scale = std::fabs(la) + std::fabs(exact);
    CHECK(near(r.sum, la + exact, sum_scale, 6), what() << ": sum " << str(r.sum) << ", expected " << double(la + exact));
    CHECK(near(r.plus_assigned, la + exact, sum_scale, 6), what() << ": += " << str(r.plus_assigned));
    CHECK(near(r.difference, la - exact, sum_scale, 6), what() << ": difference " << str(r.difference) << ", expected " << double(la - exact));
    CHECK(near(r.minus_assigned, la - exact, sum_scale, 6), what() << ": -= " << str(r.minus_assigned));
    CHECK(near(r.product, la * exact, la * exact, 8), what() << ": product " << str(r.product) << ", expected " << double(la * exact));
    CHECK_EQ(r.quotient_reported, b == 0, what() << ": division reported");
    if (b != 0) CHECK(near(r.quotient, la / exact, la / exact, 8), what() << ": quotient " << str(r.quotient) << ", expected " << double(la / exact));
    CHECK(r.negated == -b, what() << ": negation");
    CHECK(r.negative == (b < 0), what() << ": is_negative");
    // comparisons
    CHECK(r.ne == !r.eq, what() << ": == and != agree");
    const bool differ = std::fabs(la - exact) > 12 * EPS * std::max(std::fabs(la), std::fabs(exact));
    if (differ) {
        const bool less = la < exact;
        CHECK(!r.eq, what() << ": differ, but are equal");
        CHECK(r.lt == less && r.le == less && r.gt == !less && r.ge == !less, what() << ": wrong order: " << r.lt << r.le << r.gt << r.ge);
        c.label("differ");
    } else {
        CHECK(r.lt + r.gt <= 1 && r.le != r.gt && r.ge != r.lt, what() << ": orders disagree: " << r.lt << r.le << r.gt << r.ge);
        c.label("hardly differ");
    }
    if (p.a.name == p.b.name && a == b) CHECK(r.eq && r.le && r.ge && !r.lt && !r.gt, what() << ": are the same, but not equal");
    if (a != 0 && b != 0) c.nontrivial();
}

void group_case(Ctx& c, const Group& g) { pair_case(c, c.pick_from(const_cast<std::vector<Pair>&>(g.pairs))); }

template<typename... Us>
struct Types {};
template<typename A, typename... Bs>
void add_row(Group& g, size_t i, Types<Bs...>) {
    size_t j = 0;
    (g.pairs.push_back({g.units[i], g.units[j++], compute<A, Bs>}), ...);
}
template<typename... Us>
Group make_group(std::vector<Unit> units, Types<Us...> all) {
    Group g;
    g.units = std::move(units);
    size_t i = 0;
    (add_row<Us>(g, i++, all), ...);
    return g;
}

/// one scalar
template<typename U>
void scalar_case(Ctx& c) {
    const auto a = gen_value(c, -12, 12);
    const auto s = c.chance(1, 12) ? R(0) : gen_value(c, -6, 6);
    const auto n = c.coin() ? c.range(-1000, 1000) : c.nasty(-(1ll << 40), 1ll << 40);
    NOTE(c, str(a) << " with scalars " << str(s) << " and " << n);
    const U x(a);
    const auto la = static_cast<long double>(a);
    const auto with = [&](const auto scalar) {
        const auto ls = static_cast<long double>(scalar);
        const auto name = str(a) + " and " + str(static_cast<double>(scalar)) + ": ";
        CHECK(near((x * scalar).raw(), la * ls, la * ls, 3), name << "product is " << str((x * scalar).raw()));
        U y(a);
        CHECK(&(y *= scalar) == &y && near(y.raw(), la * ls, la * ls, 3), name << "*= gives " << str(y.raw()));
        U q, z(a);
        CHECK_EQ(bool(thrown_by([&] { q = x / scalar; })), ls == 0, name << "division by zero is reported");
        CHECK_EQ(bool(thrown_by([&] { CHECK(&(z /= scalar) == &z, "/= returns another object"); })), ls == 0, name << "division by zero is reported");
        if (ls == 0) {
            CHECK(z.raw() == a, name << "a refused division changes the value");
            return;
        }
        CHECK(near(q.raw(), la / ls, la / ls, 3), name << "quotient is " << str(q.raw()));
        CHECK(near(z.raw(), la / ls, la / ls, 3), name << "/= gives " << str(z.raw()));
    };
    with(s);
    with(static_cast<float>(s));
    with(static_cast<int>(n % (1ll << 31)));
    with(static_cast<long long>(n));
    with(static_cast<int64_t>(n) % 30000);
    with(static_cast<int16_t>(n % 32768));
    with(static_cast<int8_t>(n % 128));
    with(static_cast<unsigned>(std::abs(n) % (1ll << 32)));
    with(static_cast<uint8_t>(std::abs(n) % 256));
    with(static_cast<unsigned long long>(std::abs(n)));
    CHECK((-x).raw() == -a, "negation of " << str(a));
    CHECK(x.template raw<double>() == static_cast<double>(a), "raw<double>");
    CHECK(U().raw() == 0, "default");
    c.nontrivial();
}

} // namespace

#define U(x, m) {#x, m}
#if PART == 0
PROP(time, 6) {
    static const auto g = make_group({{"time_us", 1e-6L}, {"time_ms", 1e-3L}, {"time_s", 1}, {"time_m", 60}, {"time_h", 3600}, {"time_d", 86400}, {"time_W", 604800}, {"time_M", 2419200}, {"time_Y", 31536000}},
                                     Types<time_us, time_ms, time_s, time_m, time_h, time_d, time_W, time_M, time_Y>());
    group_case(c, g);
}
#elif PART == 1
PROP(energy, 4) {
    static const auto g = make_group({{"joule_p", 1e-12L}, {"joule_n", 1e-9L}, {"joule_u", 1e-6L}, {"joule_m", 1e-3L}, {"joule", 1}, {"joule_k", 1e3L}, {"joule_M", 1e6L}, {"joule_G", 1e9L}, {"joule_T", 1e12L}},
                                     Types<joule_p, joule_n, joule_u, joule_m, joule, joule_k, joule_M, joule_G, joule_T>());
    group_case(c, g);
}
#elif PART == 2
PROP(length, 4) {
    static const auto g = make_group({{"meter_n", 1e-9L}, {"meter_u", 1e-6L}, {"meter_m", 1e-3L}, {"meter_c", 1e-2L}, {"meter_d", 1e-1L}, {"meter", 1}, {"meter_k", 1e3L}},
                                     Types<meter_n, meter_u, meter_m, meter_c, meter_d, meter, meter_k>());
    group_case(c, g);
}
PROP(capacitance_charge, 3) {
    static const auto f = make_group({{"farad_p", 1e-12L}, {"farad_n", 1e-9L}, {"farad_u", 1e-6L}, {"farad_m", 1e-3L}, {"farad", 1}}, Types<farad_p, farad_n, farad_u, farad_m, farad>());
    static const auto q = make_group({{"coulomb_n", 1e-9L}, {"coulomb_u", 1e-6L}, {"coulomb_m", 1e-3L}, {"coulomb", 1}}, Types<coulomb_n, coulomb_u, coulomb_m, coulomb>());
    group_case(c, c.coin() ? f : q);
}
#elif PART == 3
// every other magnitude that the library knows, on a quantity of our own
struct TagOurs {};
using namespace spn::structure::units;
template<typename M>
using Ours = spnu::Unit<TagOurs, M, spnu::RealRawType>;
PROP(magnitudes, 4) {
    static const auto g = make_group({{"nano", 1e-9L}, {"centi", 1e-2L}, {"deci", 1e-1L}, {"base", 1}, {"deca", 1e1L}, {"hecto", 1e2L}, {"kilo", 1e3L}, {"mega", 1e6L}},
                                     Types<Ours<Nano>, Ours<Centi>, Ours<Deci>, Ours<Base>, Ours<Deca>, Ours<Hecto>, Ours<Kilo>, Ours<Mega>>());
    static const auto far = make_group({{"atto", 1e-18L}, {"femto", 1e-15L}, {"pico", 1e-12L}, {"base", 1}}, Types<Ours<Atto>, Ours<Femto>, Ours<Pico>, Ours<Base>>());
    static const auto big = make_group({{"base", 1}, {"tera", 1e12L}, {"peta", 1e15L}, {"exa", 1e18L}}, Types<Ours<Base>, Ours<Tera>, Ours<Peta>, Ours<Exa>>());
    group_case(c, c.pick<const Group*>({&g, &far, &big})[0]);
}
#elif PART == 4
PROP(others, 8) {

    static const std::vector<Group> gs = {
        make_group({U(hertz, 1), U(hertz_k, 1e3L), U(hertz_M, 1e6L), U(hertz_G, 1e9L)}, Types<hertz, hertz_k, hertz_M, hertz_G>()),
        make_group({U(gram_u, 1e-6L), U(gram_m, 1e-3L), U(gram, 1), U(gram_k, 1e3L)}, Types<gram_u, gram_m, gram, gram_k>()),
        make_group({U(amp_u, 1e-6L), U(amp_m, 1e-3L), U(amp, 1)}, Types<amp_u, amp_m, amp>()),
        make_group({U(volt_u, 1e-6L), U(volt_m, 1e-3L), U(volt, 1)}, Types<volt_u, volt_m, volt>()),
        make_group({U(litre_ml, 1e-3L), U(litre, 1), U(cubic_metre, 1e3L)}, Types<litre_ml, litre, cubic_metre>()),
        make_group({U(ohm_m, 1e-3L), U(ohm, 1), U(ohm_k, 1e3L), U(ohm_M, 1e6L)}, Types<ohm_m, ohm, ohm_k, ohm_M>()),
        make_group({U(pascal, 1), U(pascal_k, 1e3L), U(pascal_M, 1e6L)}, Types<pascal, pascal_k, pascal_M>()),
        make_group({U(siemens_u, 1e-6L), U(siemens_m, 1e-3L), U(siemens, 1)}, Types<siemens_u, siemens_m, siemens>()),
        make_group({U(watt_m, 1e-3L), U(watt, 1), U(watt_k, 1e3L), U(watt_M, 1e6L), U(watt_G, 1e9L)}, Types<watt_m, watt, watt_k, watt_M, watt_G>()),
        make_group({U(newton, 1), U(newton_k, 1e3L)}, Types<newton, newton_k>()),
    };
    group_case(c, gs[c.below(gs.size())]);
}
#else
PROP(single, 2) {
    static const std::vector<Group> gs = {
        make_group({U(becquerel, 1)}, Types<becquerel>()), make_group({U(gray, 1)}, Types<gray>()), make_group({U(henry, 1)}, Types<henry>()),
        make_group({U(katal, 1)}, Types<katal>()), make_group({U(kelvin, 1)}, Types<kelvin>()), make_group({U(celsius, 1)}, Types<celsius>()),
        make_group({U(lumen, 1)}, Types<lumen>()), make_group({U(lux, 1)}, Types<lux>()), make_group({U(mole, 1)}, Types<mole>()),
        make_group({U(sievert, 1)}, Types<sievert>()), make_group({U(tesla, 1)}, Types<tesla>()), make_group({U(weber, 1)}, Types<weber>()),
    };
    group_case(c, gs[c.below(gs.size())]);
}
PROP(scalars, 2) {
    switch (c.draw(3)) {
    case 0: scalar_case<time_s>(c); break;
    case 1: scalar_case<joule_k>(c); break;
    case 2: scalar_case<meter_n>(c); break;
    default: scalar_case<celsius>(c);
    }
}
PROP(temperature, 2) {
    const auto t = c.chance(1, 10) ? R(0) : gen_value(c, -6, 6);
    NOTE(c, str(t));
    const auto lt = static_cast<long double>(t);
    const auto scale = std::fabs(lt) + 273.15L;
    CHECK(near(to_kelvin(celsius(t)).raw(), lt + 273.15L, scale, 2), str(t) << " degrees to kelvin: " << str(to_kelvin(celsius(t)).raw()));
    CHECK(near(to_celsius(kelvin(t)).raw(), lt - 273.15L, scale, 2), str(t) << " kelvin to degrees: " << str(to_celsius(kelvin(t)).raw()));
    CHECK(near(to_celsius(to_kelvin(celsius(t))).raw(), lt, scale, 3), str(t) << " degrees to kelvin and back");
    CHECK(to_kelvin(kelvin(t)).raw() == t && to_celsius(celsius(t)).raw() == t, str(t) << " to itself");
    c.nontrivial();
}
#endif
