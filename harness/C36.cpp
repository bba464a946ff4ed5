// C36: quantities of different kinds do not mix
#include "pbt.hpp"

#include "spine/structure/units/primitives/compound_unit.hpp"
#include "spine/structure/units/si.hpp"

using namespace pbt;

namespace {

// what an operation on two types may do: not compile, or give something
enum Op : unsigned { CONVERT, CONSTRUCT, ASSIGN, ASSIGN_TEMPORARY, PLUS, MINUS, PLUS_ASSIGN, MINUS_ASSIGN, TIMES, OVER, EQ, NE, LT, GT, LE, GE, SHARED_OPS,
    TIMES_ASSIGN = SHARED_OPS, OVER_ASSIGN, OPS };
const char* const op_names[OPS] = {"converts", "constructs", "assigns", "assigns a temporary", "+", "-", "+=", "-=", "*", "/", "==", "!=", "<", ">", "<=", ">=", "*=", "/="};

struct Verdict {
    uint32_t compiles = 0; // per operation
    uint32_t keeps = 0; // the result is of the type of the left operand
};

#define DETECT(name, expression)                                                                                       \
    template<typename A, typename B, typename = void>                                                                  \
    struct name {                                                                                                      \
        static constexpr bool compiles = false, keeps = false, truth = false;                                          \
    };                                                                                                                 \
    template<typename A, typename B>                                                                                   \
    struct name<A, B, std::void_t<decltype(expression)>> {                                                             \
        using R = decltype(expression);                                                                                \
        static constexpr bool compiles = true, keeps = std::is_same_v<std::decay_t<R>, A>, truth = std::is_same_v<std::decay_t<R>, bool>; \
    };
DETECT(has_plus, std::declval<const A&>() + std::declval<const B&>())
DETECT(has_minus, std::declval<const A&>() - std::declval<const B&>())
DETECT(has_plus_assign, std::declval<A&>() += std::declval<const B&>())
DETECT(has_minus_assign, std::declval<A&>() -= std::declval<const B&>())
DETECT(has_times, std::declval<const A&>() * std::declval<const B&>())
DETECT(has_over, std::declval<const A&>() / std::declval<const B&>())
DETECT(has_eq, std::declval<const A&>() == std::declval<const B&>())
DETECT(has_ne, std::declval<const A&>() != std::declval<const B&>())
DETECT(has_lt, std::declval<const A&>() < std::declval<const B&>())
DETECT(has_gt, std::declval<const A&>() > std::declval<const B&>())
DETECT(has_le, std::declval<const A&>() <= std::declval<const B&>())
DETECT(has_ge, std::declval<const A&>() >= std::declval<const B&>())
DETECT(has_times_assign, std::declval<A&>() *= std::declval<const B&>())
DETECT(has_over_assign, std::declval<A&>() /= std::declval<const B&>())

template<typename A, typename B>
constexpr Verdict verdict() {
    Verdict v;
    const auto set = [&](Op op, bool compiles, bool keeps) {
        v.compiles |= uint32_t(compiles) << op;
        v.keeps |= uint32_t(keeps) << op;
    };
    set(CONVERT, std::is_convertible_v<const B&, A>, true);
    set(CONSTRUCT, std::is_constructible_v<A, const B&>, true);
    set(ASSIGN, std::is_assignable_v<A&, const B&>, true);
    set(ASSIGN_TEMPORARY, std::is_assignable_v<A&, B>, true);
    set(PLUS, has_plus<A, B>::compiles, has_plus<A, B>::keeps);
    set(MINUS, has_minus<A, B>::compiles, has_minus<A, B>::keeps);
    set(PLUS_ASSIGN, has_plus_assign<A, B>::compiles, has_plus_assign<A, B>::keeps);
    set(MINUS_ASSIGN, has_minus_assign<A, B>::compiles, has_minus_assign<A, B>::keeps);
    set(TIMES, has_times<A, B>::compiles, has_times<A, B>::keeps);
    set(OVER, has_over<A, B>::compiles, has_over<A, B>::keeps);
    set(EQ, has_eq<A, B>::compiles, has_eq<A, B>::truth);
    set(NE, has_ne<A, B>::compiles, has_ne<A, B>::truth);
    set(LT, has_lt<A, B>::compiles, has_lt<A, B>::truth);
    set(GT, has_gt<A, B>::compiles, has_gt<A, B>::truth);
    set(LE, has_le<A, B>::compiles, has_le<A, B>::truth);
    set(GE, has_ge<A, B>::compiles, has_ge<A, B>::truth);
    set(TIMES_ASSIGN, has_times_assign<A, B>::compiles, has_times_assign<A, B>::keeps);
    set(OVER_ASSIGN, has_over_assign<A, B>::compiles, has_over_assign<A, B>::keeps);
    return v;
}

struct Type {
    const char* name;
    const char* kind; // what it measures, and in what type of number, independent of the code
};

template<typename... Us>
struct Types {
    static constexpr size_t count = sizeof...(Us);
};
template<typename A, typename... Bs>
void fill_row(std::vector<Verdict>& out, Types<Bs...>) {
    (out.push_back(verdict<A, Bs>()), ...);
}

// volumes are lengths to some, and real time is not the time of the kernel
#define KINDS(X)                                                                                                       \
    X("dose", gray) X("substance", mole) X("catalysis", katal) X("equivalent dose", sievert) X("illuminance", lux)     \
    X("inductance", henry) X("luminous flux", lumen) X("magnetic flux", weber) X("flux density", tesla)                \
    X("radioactivity", becquerel) X("kelvin", kelvin) X("celsius", celsius)                                            \
    X("capacitance", farad_p) X("capacitance", farad_n) X("capacitance", farad_u) X("capacitance", farad_m) X("capacitance", farad) \
    X("charge", coulomb_n) X("charge", coulomb_u) X("charge", coulomb_m) X("charge", coulomb)                          \
    X("conductance", siemens_u) X("conductance", siemens_m) X("conductance", siemens)                                  \
    X("current", amp_u) X("current", amp_m) X("current", amp)                                                          \
    X("energy", joule_p) X("energy", joule_n) X("energy", joule_u) X("energy", joule_m) X("energy", joule)             \
    X("energy", joule_k) X("energy", joule_M) X("energy", joule_G) X("energy", joule_T)                                \
    X("force", newton) X("force", newton_k)                                                                            \
    X("frequency", hertz) X("frequency", hertz_k) X("frequency", hertz_M) X("frequency", hertz_G)                      \
    X("length", meter_n) X("length", meter_u) X("length", meter_m) X("length", meter_c) X("length", meter_d)           \
    X("length", meter) X("length", meter_k)                                                                            \
    X("mass", gram_u) X("mass", gram_m) X("mass", gram) X("mass", gram_k)                                              \
    X("potential", volt_u) X("potential", volt_m) X("potential", volt)                                                 \
    X("power", watt_m) X("power", watt) X("power", watt_k) X("power", watt_M) X("power", watt_G)                       \
    X("pressure", pascal) X("pressure", pascal_k) X("pressure", pascal_M)                                              \
    X("resistance", ohm_m) X("resistance", ohm) X("resistance", ohm_k) X("resistance", ohm_M)                          \
    X("time", time_us) X("time", time_ms) X("time", time_s) X("time", time_m) X("time", time_h) X("time", time_d)      \
    X("time", time_W) X("time", time_M) X("time", time_Y)                                                              \
    X("kernel time", k_time_us) X("kernel time", k_time_ms) X("kernel time", k_time_s) X("kernel time", k_time_m)      \
    X("kernel time", k_time_h) X("kernel time", k_time_d)                                                              \
    X("volume", litre_ml) X("volume", litre) X("volume", cubic_metre)                                                  \
    X("counted length", counted_mm) X("counted length", counted_m) X("counted time", counted_ms)

// the same kinds, counted in whole numbers of another type
using counted_mm = spnu::Unit<spnu::TagLength, spnu::Milli, int32_t>;
using counted_m = spnu::Unit<spnu::TagLength, spnu::Base, int32_t>;
using counted_ms = spnu::Unit<spnu::TagTime, spnu::Milli, int32_t>;

struct End;
template<typename... Us>
constexpr Types<Us...> without_end(Types<End, Us...>);
#define AS_TYPE(kind, type) , type
#define AS_NAME(kind, type) {#type, kind},
using All = decltype(without_end(std::declval<Types<End KINDS(AS_TYPE)>>()));
const std::vector<Type> types = {KINDS(AS_NAME)};

// numbers
#define NUMBERS(X) X(bool) X(char) X(int8_t) X(uint8_t) X(int16_t) X(uint16_t) X(int) X(unsigned) X(int64_t) X(uint64_t) X(float) X(double) X(long double)
#define NUMBER_TYPE(t) , t
#define NUMBER_NAME(t) #t,
using Numbers = decltype(without_end(std::declval<Types<End NUMBERS(NUMBER_TYPE)>>()));
const std::vector<const char*> number_names = {NUMBERS(NUMBER_NAME)};

template<typename U, typename... Us>
std::vector<Verdict> table(Types<Us...>) {
    std::vector<Verdict> out;
    (fill_row<Us>(out, U{}), ...);
    return out;
}
template<typename... Ns, typename... Us>
void numbers_left(std::vector<Verdict>& out, Types<Ns...>, Types<Us...>) {
    (fill_row<Ns>(out, Types<Us...>{}), ...);
}
const std::vector<Verdict>& pairs() {
    static const auto t = table<All>(All{});
    return t;
}
const std::vector<Verdict>& units_with_numbers() {
    static const auto t = table<Numbers>(All{});
    return t;
}
const std::vector<Verdict>& numbers_with_units() {
    static const auto t = [] {
        std::vector<Verdict> out;
        numbers_left(out, Numbers{}, All{});
        return out;
    }();
    return t;
}

void check_pair(Ctx& c, size_t i, size_t j) {
    const auto& a = types[i];
    const auto& b = types[j];
    const auto& v = pairs()[i * types.size() + j];
    const bool same = std::string(a.kind) == b.kind;
    for (unsigned op = 0; op < OPS; ++op) {
        const bool compiles = v.compiles >> op & 1;
        if (!same)
            CHECK(!compiles, a.name << " (" << a.kind << ") and " << b.name << " (" << b.kind << ") mix: " << op_names[op]);
        else if (op < SHARED_OPS) {
            CHECK(compiles, a.name << " and " << b.name << " are both " << a.kind << ", but do not mix: " << op_names[op]);
            CHECK(v.keeps >> op & 1, a.name << " " << op_names[op] << " " << b.name << " is not given in " << a.name);
        }
    }
    c.label(same ? "same kind" : "other kind");
    if (same && i != j) c.label("same kind, other magnitude");
    c.nontrivial();
}

void check_number(Ctx& c, size_t i, size_t n) {
    const auto& a = types[i];
    const auto number = number_names[n];
    const auto& left = units_with_numbers()[i * Numbers::count + n];
    const auto& right = numbers_with_units()[n * types.size() + i];
    for (unsigned op = 0; op < OPS; ++op) {
        const bool compiles = left.compiles >> op & 1;
        switch (op) {
        case CONSTRUCT: break; // that is how they are made
        case TIMES:
        case OVER:
        case TIMES_ASSIGN:
        case OVER_ASSIGN:
            CHECK(compiles, a.name << " does not scale by a " << number << ": " << op_names[op]);
            CHECK(left.keeps >> op & 1, a.name << " " << op_names[op] << " a " << number << " is not given in " << a.name);
            break;
        default: CHECK(!compiles, a.name << " takes a bare " << number << " for a quantity: " << op_names[op]);
        }
        // a factor may stand on the left one day
        if (op != TIMES && op != OVER) CHECK(!(right.compiles >> op & 1), "a " << number << " takes " << a.name << " for a number: " << op_names[op]);
    }
    c.label("number");
    c.nontrivial();
}

// ratios
#define RATIOS(X)                                                                                                      \
    X(meter, time_s) X(meter_k, time_h) X(meter_m, time_ms) X(time_s, meter) X(time_h, meter_k) X(litre, time_s)       \
    X(litre_ml, time_m) X(gram, litre) X(gram_m, litre_ml) X(gram_k, cubic_metre) X(volt, amp) X(volt_m, amp_u)        \
    X(amp, volt) X(joule, time_s) X(watt, meter) X(meter, meter_k) X(k_time_ms, k_time_s) X(k_time_s, k_time_d)        \
    X(celsius, time_s) X(kelvin, time_s) X(counted_mm, counted_ms) X(counted_m, counted_ms) X(litre, litre)
#define RATIO_TYPE(n, d) , spnu::CompoundUnit<n, d>
#define RATIO_NAME(n, d) {#n, #d},
using Ratios = decltype(without_end(std::declval<Types<End RATIOS(RATIO_TYPE)>>()));
const std::vector<std::pair<const char*, const char*>> ratio_names = {RATIOS(RATIO_NAME)};

/// without what is not an overload that can be ruled out, but a function that does not compile
template<typename A, typename B>
uint32_t ratio_verdict() {
    return uint32_t(std::is_convertible_v<const B&, A>) << CONVERT | uint32_t(std::is_constructible_v<A, const B&>) << CONSTRUCT
           | uint32_t(std::is_assignable_v<A&, const B&>) << ASSIGN | uint32_t(std::is_assignable_v<A&, B>) << ASSIGN_TEMPORARY
           | uint32_t(has_plus_assign<A, B>::compiles) << PLUS_ASSIGN | uint32_t(has_minus_assign<A, B>::compiles) << MINUS_ASSIGN;
}
template<typename A, typename... Bs>
void ratio_row(std::vector<uint32_t>& out, Types<Bs...>) {
    (out.push_back(ratio_verdict<A, Bs>()), ...);
}
template<typename... As, typename U>
std::vector<uint32_t> ratio_table(Types<As...>, U) {
    std::vector<uint32_t> out;
    (ratio_row<As>(out, U{}), ...);
    return out;
}
const char* kind_of(const std::string& name) {
    for (auto& t : types)
        if (name == t.name) return t.kind;
    return "?";
}
void check_ratio(Ctx& c, size_t i, size_t j) {
    static const auto t = ratio_table(Ratios{}, Ratios{});
    const auto &a = ratio_names[i], &b = ratio_names[j];
    const bool same = std::string(kind_of(a.first)) == kind_of(b.first) && std::string(kind_of(a.second)) == kind_of(b.second);
    for (auto op : {CONVERT, CONSTRUCT, ASSIGN, ASSIGN_TEMPORARY, PLUS_ASSIGN, MINUS_ASSIGN})
        CHECK_EQ(bool(t[i * ratio_names.size() + j] >> op & 1), same,
                 a.first << " per " << a.second << " and " << b.first << " per " << b.second << ": " << op_names[op]);
    c.label(same ? "same ratio" : "other ratio");
    c.nontrivial();
}
void check_ratio_and_unit(Ctx& c, size_t i, size_t j) {
    static const auto left = ratio_table(Ratios{}, All{});
    static const auto right = ratio_table(All{}, Ratios{});
    const auto& a = ratio_names[i];
    const auto what = [&] { return std::string(a.first) + " per " + a.second + " and " + types[j].name; };
    CHECK_EQ(left[i * types.size() + j], 0u, what() << " mix");
    CHECK_EQ(right[j * ratio_names.size() + i], 0u, what() << " mix");
    c.label("ratio and unit");
    c.nontrivial();
}

} // namespace

PROP(pairs_drawn, 10) {
    auto i = c.below(types.size()), j = c.below(types.size());
    NOTE(c, types[i].name << ", " << types[j].name);
    check_pair(c, i, j);
}
// neighbours of the list are of one kind more often
PROP(kind_drawn, 6) {
    auto i = c.below(types.size()), j = std::min<size_t>(types.size() - 1, i + c.below(8));
    if (c.coin()) std::swap(i, j);
    NOTE(c, types[i].name << ", " << types[j].name);
    check_pair(c, i, j);
}
PROP(numbers, 4) {
    auto i = c.below(types.size()), n = c.below(Numbers::count);
    NOTE(c, types[i].name << ", " << number_names[n]);
    check_number(c, i, n);
}
PROP(ratios, 4) {
    auto i = c.below(ratio_names.size()), j = c.below(ratio_names.size());
    NOTE(c, ratio_names[i].first << "/" << ratio_names[i].second << ", " << ratio_names[j].first << "/" << ratio_names[j].second);
    check_ratio(c, i, j);
}
PROP(ratios_and_units, 1) {
    auto i = c.below(ratio_names.size()), j = c.below(types.size());
    NOTE(c, ratio_names[i].first << "/" << ratio_names[i].second << ", " << types[j].name);
    check_ratio_and_unit(c, i, j);
}
// all of them, now and then
PROP(everything, 1) {
    if (c.chance(1, 50)) {
        for (size_t i = 0; i < types.size(); ++i) {
            for (size_t j = 0; j < types.size(); ++j)
                check_pair(c, i, j);
            for (size_t n = 0; n < Numbers::count; ++n)
                check_number(c, i, n);
            for (size_t j = 0; j < ratio_names.size(); ++j)
                check_ratio_and_unit(c, j, i);
        }
        for (size_t i = 0; i < ratio_names.size(); ++i)
            for (size_t j = 0; j < ratio_names.size(); ++j)
                check_ratio(c, i, j);
        c.label("everything");
    }
}
// the only ways from one kind of temperature or time to the other are the ones that say so
PROP(said_so, 2) {
    const auto v = spnu::RealRawType(c.range(-2000, 5000)) / 4;
    NOTE(c, str(v));
    CHECK((std::is_same_v<decltype(to_celsius(kelvin(v))), celsius>), "to_celsius");
    CHECK((std::is_same_v<decltype(to_kelvin(celsius(v))), kelvin>), "to_kelvin");
    const auto tolerance = 1e-3;
    CHECK(std::fabs(to_celsius(kelvin(v)).raw() - (double(v) - 273.15)) < tolerance, "to_celsius of " << str(v) << " kelvin is " << str(to_celsius(kelvin(v)).raw()));
    CHECK(std::fabs(to_kelvin(celsius(v)).raw() - (double(v) + 273.15)) < tolerance, "to_kelvin of " << str(v) << " celsius is " << str(to_kelvin(celsius(v)).raw()));
    CHECK(to_celsius(celsius(v)).raw() == v && to_kelvin(kelvin(v)).raw() == v, "conversion to itself changes " << str(v));
    c.label("temperatures");
    c.nontrivial();
}
