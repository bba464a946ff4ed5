// C18: kernel time converts and computes exactly
#include "pbt.hpp"

#include "spine/structure/units/si.hpp"

using namespace pbt;

namespace {

using i128 = __int128;

template<typename U>
struct Info;
#define INFO(U, N, F)                                                                                                  \
    template<>                                                                                                         \
    struct Info<U> {                                                                                                   \
        static constexpr const char* name = N;                                                                         \
        static constexpr int64_t us = F;                                                                               \
    }
INFO(k_time_us, "us", 1);
INFO(k_time_ms, "ms", 1000);
INFO(k_time_s, "s", 1000000);
INFO(k_time_m, "m", 60000000ll);
INFO(k_time_h, "h", 3600000000ll);
INFO(k_time_d, "d", 86400000000ll);

constexpr i128 LIMIT = (i128(1) << 62);

i128 div_round(i128 v, i128 d) { return v >= 0 ? (v + d / 2) / d : -((-v + d / 2) / d); }

/// exact, halves away from zero
template<typename To, typename From>
i128 convert(i128 v) {
    return div_round(v * Info<From>::us, Info<To>::us);
}
bool fits(i128 v) { return v > -LIMIT && v < LIMIT; }

/// a value of From that fits To as well, with a preference for the edges of rounding
template<typename From, typename To>
int64_t gen(Ctx& c) {
    const i128 f = Info<From>::us, t = Info<To>::us;
    const int64_t max = f > t ? int64_t(LIMIT / (f / t)) - 1 : int64_t(LIMIT - 1);
    if (t > f && c.coin()) { // about n and a half of the coarser unit
        const int64_t r = int64_t(t / f);
        const auto n = c.nasty(-(max / r - 2), max / r - 2);
        return n * r + (c.coin() ? r / 2 : -(r / 2)) + c.range(-1, 1);
    }
    return c.nasty(-max, max);
}

template<typename A, typename B>
void pair(Ctx& c) {
    const char *an = Info<A>::name, *bn = Info<B>::name;
    const auto b = gen<B, A>(c);
    const auto conv = convert<A, B>(b);
    CHECK(fits(conv), "harness: does not fit");
    auto a = gen<A, B>(c);
    if (c.chance(1, 4)) a = int64_t(conv) + c.range(-1, 1); // (nearly) the same
    const A x(a);
    const B y(b);
    NOTE(c, a << an << " and " << b << bn);
    // every way of converting
    CHECK_EQ(A(y).raw(), int64_t(conv), b << bn << " to " << an);
    A z(7);
    z = y;
    CHECK_EQ(z.raw(), int64_t(conv), b << bn << " assigned to " << an);
    A z2(7);
    z2 = B(b);
    CHECK_EQ(z2.raw(), int64_t(conv), b << bn << " moved to " << an);
    const A z3 = y;
    CHECK_EQ(z3.raw(), int64_t(conv), b << bn << " implicitly converted to " << an);
    if (Info<B>::us >= Info<A>::us) CHECK_EQ(B(A(y)).raw(), b, b << bn << " to " << an << " and back");
    CHECK_EQ(y.raw(), b, "raw of " << b << bn);
    CHECK_EQ(y.is_negative(), b < 0, "is_negative of " << b << bn);
    CHECK_EQ((-y).raw(), -b, "negation of " << b << bn);
    CHECK_EQ(y.template raw<double>(), static_cast<double>(b), "raw<double> of " << b);
    CHECK_EQ(y.template raw<int32_t>(), static_cast<int32_t>(b), "raw<int32_t> of " << b);
    // arithmetic in the unit of the left
    const auto other = int64_t(conv);
    if (fits(i128(a) + conv)) {
        CHECK_EQ((x + y).raw(), a + other, a << an << " + " << b << bn);
        A s(a);
        CHECK(&(s += y) == &s, "+= does not return its left");
        CHECK_EQ(s.raw(), a + other, a << an << " += " << b << bn);
    }
    if (fits(i128(a) - conv)) {
        CHECK_EQ((x - y).raw(), a - other, a << an << " - " << b << bn);
        A s(a);
        CHECK(&(s -= y) == &s, "-= does not return its left");
        CHECK_EQ(s.raw(), a - other, a << an << " -= " << b << bn);
    }
    if (fits(i128(a) * conv)) CHECK_EQ((x * y).raw(), a * other, a << an << " * " << b << bn);
    const auto thrown = thrown_by([&] {
        const auto q = x / y;
        CHECK(other != 0, a << an << " / " << b << bn << ", which is zero, is not reported");
        CHECK_EQ(q.raw(), a / other, a << an << " / " << b << bn);
    });
    CHECK_EQ(bool(thrown), other == 0, "dividing by " << b << bn << " is reported");
    // comparisons in the unit of the left
    CHECK_EQ(x == y, a == other, a << an << " == " << b << bn);
    CHECK_EQ(x != y, a != other, a << an << " != " << b << bn);
    CHECK_EQ(x < y, a < other, a << an << " < " << b << bn);
    CHECK_EQ(x > y, a > other, a << an << " > " << b << bn);
    CHECK_EQ(x <= y, a <= other, a << an << " <= " << b << bn);
    CHECK_EQ(x >= y, a >= other, a << an << " >= " << b << bn);
    if (a != 0 && b != 0) c.nontrivial();
    if (i128(b) * Info<B>::us % Info<A>::us != 0) c.label("rounded");
    if (i128(b) * Info<B>::us % Info<A>::us * 2 == Info<A>::us || i128(b) * Info<B>::us % Info<A>::us * -2 == Info<A>::us) c.label("exactly half");
    if (other == 0 && b != 0) c.label("divides by what rounds to zero");
    if (b > (1ll << 53) || b < -(1ll << 53)) c.label("beyond 2^53");
}

template<typename A>
void scalars(Ctx& c) {
    const auto a = c.nasty(-(1ll << 62), 1ll << 62);
    const auto s = c.coin() ? c.range(-9, 9) : c.nasty(-(1ll << 40), 1ll << 40);
    NOTE(c, a << Info<A>::name << " and scalar " << s);
    const A x(a);
    const auto small = static_cast<int>(s % 1000);
    const auto with = [&](auto n) {
        const int64_t v = n;
        if (fits(i128(a) * v)) {
            CHECK_EQ((x * n).raw(), a * v, a << " * " << v);
            A y(a);
            CHECK(&(y *= n) == &y, "*= does not return its left");
            CHECK_EQ(y.raw(), a * v, a << " *= " << v);
        }
        const auto t = thrown_by([&] {
            const auto q = x / n;
            CHECK(v != 0, "division by zero is not reported");
            CHECK_EQ(q.raw(), a / v, a << " / " << v);
        });
        CHECK_EQ(bool(t), v == 0, "division of " << a << " by " << v << " is reported");
        const auto t2 = thrown_by([&] {
            A y(a);
            y /= n;
            CHECK(v != 0, "/= zero is not reported");
            CHECK_EQ(y.raw(), a / v, a << " /= " << v);
        });
        CHECK_EQ(bool(t2), v == 0, "/= of " << a << " by " << v << " is reported");
    };
    with(static_cast<long long>(s));
    with(small);
    with(static_cast<int8_t>(small % 100));
    with(static_cast<int16_t>(s % 32768));
    with(static_cast<int>(s % (1ll << 31)));
    with(static_cast<unsigned>(std::abs(s) % (1ll << 32)));
    with(static_cast<uint8_t>(std::abs(s) % 256));
    { // in place, by a number with a fraction that a double represents exactly, as does the product
        const auto b = a % (1ll << 30);
        const auto m = s % (1ll << 20);
        const auto f = static_cast<double>(m) / 16;
        A y(b);
        y *= f;
        CHECK_EQ(y.raw(), b * m / 16, b << " *= " << m << "/16");
        A z(b);
        z *= static_cast<float>(m % 1024) / 16;
        if (b < (1 << 13) && b > -(1 << 13)) CHECK_EQ(z.raw(), b * (m % 1024) / 16, b << " *= float of " << m % 1024 << "/16");
        if (m != 0) {
            A d(b);
            d /= f;
            const auto num = b * 16;
            if (num % m == 0) CHECK_EQ(d.raw(), num / m, b << " /= " << m << "/16");
        }
    }
    CHECK_EQ((-x).raw(), -a, "negation");
    CHECK_EQ(A().raw(), int64_t(0), "default");
    if (a != 0 && s != 0) c.nontrivial();
}

using Fn = void (*)(Ctx&);
using R = spnu::TimeRawType;

template<typename K, typename T>
void real(Ctx& c) {
    // a number with a fraction that the type can hold
    const auto whole = c.coin() ? c.range(-20, 20) : c.nasty(-(1ll << 52), 1ll << 52);
    const auto fraction = static_cast<R>(c.draw(15)) / 16;
    const R v = static_cast<R>(whole) + fraction;
    NOTE(c, "real " << str(v) << Info<K>::name);
    const T t(v);
    CHECK_EQ(to_kernel_time(t).raw(), static_cast<int64_t>(std::ceil(v)), "to_kernel_time of " << str(v));
    using F = R (*)(R);
    const std::pair<const char*, F> fs[] = {{"floor", std::floor}, {"ceil", std::ceil}, {"round", std::round}, {"trunc", std::trunc}};
    const auto& f = fs[c.below(4)];
    // the expected value, without the function that is passed
    const auto lower = static_cast<int64_t>(v) - (static_cast<R>(static_cast<int64_t>(v)) > v ? 1 : 0);
    const auto rest = v - static_cast<R>(lower); // in [0, 1)
    const auto expected = f.first[0] == 'f' ? lower
        : f.first[0] == 'c' ? lower + (rest > 0)
        : f.first[0] == 'r' ? lower + (rest > R(0.5) || (rest == R(0.5) && v > 0))
                            : lower + (rest > 0 && v < 0);
    CHECK_EQ(to_kernel_time(t, f.second).raw(), expected, "to_kernel_time of " << str(v) << " with " << f.first);
    const auto k = c.nasty(-(1ll << 61), 1ll << 61);
    CHECK_EQ(to_real_time(K(k)).raw(), static_cast<R>(k), "to_real_time of " << k);
    if (fraction != 0) c.nontrivial();
}

template<typename A>
void with(Ctx& c) {
    static const Fn fns[] = {pair<A, k_time_us>, pair<A, k_time_ms>, pair<A, k_time_s>, pair<A, k_time_m>, pair<A, k_time_h>, pair<A, k_time_d>};
    fns[c.below(6)](c);
}

// Kernel time of the other magnitudes there are, some of which do not divide each other
template<typename M>
using Kernel = spnu::Unit<spnu::TagKernelTime, M, spnu::KernelTimeRawType>;
INFO(Kernel<spnu::Centi>, "cs", 10000);
INFO(Kernel<spnu::Deci>, "ds", 100000);
INFO(Kernel<spnu::Deca>, "das", 10000000);
INFO(Kernel<spnu::Hecto>, "hs", 100000000);
INFO(Kernel<spnu::Kilo>, "ks", 1000000000ll);
INFO(Kernel<spnu::Week>, "weeks", 7 * 86400000000ll);
INFO(Kernel<spnu::Month>, "months", 28 * 86400000000ll);
INFO(Kernel<spnu::Year>, "years", 365 * 86400000000ll);

template<typename A, typename B>
void other(Ctx& c) {
    const i128 f = Info<B>::us, t = Info<A>::us;
    const bool divides = f % t == 0 || t % f == 0;
    // a ratio that is no whole number goes by way of a double
    const int64_t most = divides ? (f > t ? int64_t(LIMIT / (f / t)) - 1 : int64_t(LIMIT - 1)) : int64_t(1) << 45;
    const int64_t max = int64_t(std::min(i128(most), divides ? LIMIT - 1 : (i128(1) << 45) * t / f));
    auto b = c.nasty(-max, max);
    if (t > f && c.coin()) b = int64_t((2 * c.nasty(-max * f / t, max * f / t) + 1) * t / f / 2 + c.range(-1, 1));
    const B y(b);
    NOTE(c, b << Info<B>::name << " to " << Info<A>::name);
    const auto r = A(y).raw();
    if (divides) {
        CHECK_EQ(r, int64_t(div_round(i128(b) * f, t)), b << Info<B>::name << " to " << Info<A>::name);
    } else {
        const i128 exact = i128(b) * f, off = i128(r) * t - exact, slack = t / 100000 + (exact < 0 ? -exact : exact) / (i128(1) << 48);
        CHECK(2 * (off < 0 ? -off : off) <= t + slack, b << Info<B>::name << " to " << Info<A>::name << " gives " << r);
    }
    A z(7);
    z = y;
    CHECK_EQ(z.raw(), r, "assigned");
    // comparisons convert to the unit at the left
    const A w(r + c.range(-1, 1));
    CHECK_EQ(w < y, w.raw() < r, "<");
    CHECK_EQ(w == y, w.raw() == r, "==");
    CHECK_EQ((w + y).raw(), w.raw() + r, "+");
    CHECK_EQ((w - y).raw(), w.raw() - r, "-");
    c.label(divides ? "other magnitudes" : "a ratio that is no whole number");
    if (b != 0 && r != 0) c.nontrivial();
}

template<typename A>
void other_with(Ctx& c) {
    using namespace spnu;
    static const Fn fns[] = {other<A, Kernel<Centi>>, other<A, Kernel<Deci>>, other<A, Kernel<Deca>>, other<A, Kernel<Hecto>>, other<A, Kernel<Kilo>>, other<A, Kernel<Week>>, other<A, Kernel<Month>>,
                             other<A, Kernel<Year>>, other<A, k_time_us>, other<A, k_time_s>, other<A, k_time_m>, other<A, k_time_h>, other<A, k_time_d>};
    fns[c.below(std::size(fns))](c);
}

} // namespace

#if PART == 0
PROP(pairs_us, 2) { with<k_time_us>(c); }
PROP(pairs_ms, 3) { with<k_time_ms>(c); }
#elif PART == 1
PROP(pairs_s, 3) { with<k_time_s>(c); }
PROP(pairs_m, 2) { with<k_time_m>(c); }
#elif PART == 2
PROP(pairs_h, 2) { with<k_time_h>(c); }
PROP(pairs_d, 2) { with<k_time_d>(c); }
#else
PROP(scalars, 2) {
    static const Fn fns[] = {scalars<k_time_us>, scalars<k_time_ms>, scalars<k_time_s>, scalars<k_time_m>, scalars<k_time_h>, scalars<k_time_d>};
    fns[c.below(6)](c);
}
PROP(real_times, 2) {
    static const Fn fns[] = {real<k_time_us, time_us>, real<k_time_ms, time_ms>, real<k_time_s, time_s>, real<k_time_m, time_m>, real<k_time_h, time_h>, real<k_time_d, time_d>};
    fns[c.below(6)](c);
}
PROP(other_magnitudes, 2) {
    using namespace spnu;
    static const Fn fns[] = {other_with<Kernel<Week>>, other_with<Kernel<Month>>, other_with<Kernel<Year>>, other_with<Kernel<Kilo>>, other_with<Kernel<Hecto>>, other_with<k_time_s>, other_with<k_time_m>, other_with<k_time_d>};
    fns[c.below(std::size(fns))](c);
}
#endif
