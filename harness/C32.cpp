// C32: points compute component-wise, exactly
#include "pbt.hpp"

#include <cmath>

#include "spine/structure/point.hpp"

using namespace pbt;
using spn::structure::XYPoint;
using spn::structure::XYZPoint;

namespace {

template<typename T>
T gen(Ctx& c) {
    if constexpr (std::is_integral_v<T>) {
        return T(c.coin() ? c.range(-10, 10) : c.range(-30000, 30000));
    } else {
        switch (c.below(6)) {
        case 5: { // far apart, as long as a double can hold the squares
            const auto e = sizeof(T) == 4 ? 17 : 100;
            return T(c.range(-100, 100)) / 7 * T(std::pow(10.0, double(c.range(-e, e))));
        }
        case 0: return T(c.range(-10, 10));
        case 1: return T(c.range(-1000000, 1000000)) / 1000;
        case 2: return T(c.range(-100, 100)) / 7 * T(std::pow(10.0, double(c.range(-8, 8))));
        case 3: return c.pick<T>({T(0), T(-0.0), T(1), T(1e-10), T(1e10), T(-1)});
        default: return T(c.range(-(1 << 23), 1 << 23));
        }
    }
}
template<typename T>
bool same(T a, T b) {
    return a == b || (a != a && b != b);
}
template<typename P>
auto comp(const P& p, int i) {
    if constexpr (sizeof(p) == 3 * sizeof(p.x)) return i == 0 ? p.x : i == 1 ? p.y : p.z;
    else return i == 0 ? p.x : p.y;
}
template<typename P>
struct Dim;
template<typename T>
struct Dim<XYPoint<T>> {
    static constexpr int n = 2;
    static XYPoint<T> make(const T* v) { return XYPoint<T>(v[0], v[1]); }
};
template<typename T>
struct Dim<XYZPoint<T>> {
    static constexpr int n = 3;
    static XYZPoint<T> make(const T* v) { return XYZPoint<T>(v[0], v[1], v[2]); }
};
template<typename P, typename T, int N>
std::string text(const P& p) {
    std::string s = "(";
    for (int i = 0; i < N; ++i) s += (i ? ", " : "") + str(comp(p, i));
    return s + ")";
}

template<template<typename> class Point, typename T>
void points(Ctx& c) {
    using P = Point<T>;
    constexpr int N = Dim<P>::n;
    const auto show = [](const P& p) { return text<P, T, N>(p); };
    T av[3], bv[3];
    for (int i = 0; i < N; ++i) av[i] = gen<T>(c), bv[i] = c.chance(1, 3) ? av[i] : gen<T>(c);
    const P a = Dim<P>::make(av), b = Dim<P>::make(bv);
    const T s = gen<T>(c);
    NOTE(c, show(a) << " and " << show(b) << ", " << str(s));
    const P zero;
    for (int i = 0; i < N; ++i) CHECK(comp(zero, i) == 0, "a new point is at " << show(zero));
    for (int i = 0; i < N; ++i) CHECK(same(comp(a, i), av[i]), "component " << i << " is " << str(comp(a, i)));
    const auto expect = [&](const P& got, auto f, const char* what) {
        for (int i = 0; i < N; ++i) CHECK(same(comp(got, i), T(f(av[i], bv[i]))), show(a) << " " << what << " " << show(b) << ": component " << i << " is " << str(comp(got, i)) << ", expected " << str(T(f(av[i], bv[i]))));
    };
    expect(a + b, [](T x, T y) { return x + y; }, "+");
    expect(a - b, [](T x, T y) { return x - y; }, "-");
    expect(a * b, [](T x, T y) { return x * y; }, "*");
    expect(a.dot(b), [](T x, T y) { return x * y; }, "dot");
    bool zero_in_b = false;
    for (int i = 0; i < N; ++i) zero_in_b |= bv[i] == 0;
    if (!zero_in_b) {
        expect(a / b, [](T x, T y) { return x / y; }, "/");
        if constexpr (std::is_integral_v<T>) expect(a % b, [](T x, T y) { return x % y; }, "%");
    }
    P p = a;
    p.add(b);
    expect(p, [](T x, T y) { return x + y; }, "add");
    p = a;
    p.subtract(b);
    expect(p, [](T x, T y) { return x - y; }, "subtract");
    p = a;
    p.scalar_multiplication(s);
    expect(p, [s](T x, T) { return x * s; }, "scaled");
    if (c.chance(1, 8)) { // by itself
        p = a;
        p.add(p);
        expect(p, [](T x, T) { return x + x; }, "add itself");
        p = a;
        p.subtract(p);
        expect(p, [](T x, T) { return x - x; }, "subtract itself");
        p = a;
        p.scalar_multiplication(p.x);
        expect(p, [&](T x, T) { return x * av[0]; }, "scaled by its first component");
        p = a;
        p.scalar_multiplication(p.y);
        expect(p, [&](T x, T) { return x * av[1]; }, "scaled by its second component");
        if constexpr (N == 3) {
            p = a;
            p.scalar_multiplication(p.z);
            expect(p, [&](T x, T) { return x * av[2]; }, "scaled by its third component");
        }
    }
    bool equal = true;
    int differences = 0;
    for (int i = 0; i < N; ++i) equal &= av[i] == bv[i], differences += !(av[i] == bv[i]);
    CHECK_EQ(a == b, equal, show(a) << " == " << show(b));
    CHECK_EQ(a != b, !equal, show(a) << " != " << show(b));
    CHECK_EQ(a == a, true, show(a) << " == itself");
    if (equal) c.label("equal");
    if (differences == 1) c.label("differ in one component");
    if (differences == N) c.nontrivial();

    long double square = 0, most = 0;
    for (int i = 0; i < N; ++i) square += (long double)av[i] * av[i], most = std::max(most, std::fabs((long double)av[i]));
    const auto length = std::sqrt(square);
    if constexpr (std::is_floating_point_v<T>) {
        const auto eps = (long double)std::numeric_limits<T>::epsilon();
        CHECK(std::fabs(a.mag() - length) <= 4 * eps * length, show(a) << " is " << str(a.mag()) << " long, expected " << double(length));
        if (most > 0) {
            p = a;
            p.normalize();
            for (int i = 0; i < N; ++i) CHECK(std::fabs(comp(p, i) - av[i] / length) <= 8 * eps, show(a) << " normalised: component " << i << " is " << str(comp(p, i)) << ", expected " << double(av[i] / length));
            c.label("normalised");
        }
    } else {
        CHECK_EQ(int64_t(a.mag()), int64_t(length), show(a) << " is as long as");
    }
}

/// the length of points whose components lie far beyond what fits the type when squared
template<template<typename> class Point, typename T>
void length(Ctx& c) {
    using P = Point<T>;
    constexpr int N = Dim<P>::n;
    T v[3];
    unsigned __int128 square = 0;
    const auto most = std::min<int64_t>(std::numeric_limits<T>::max(), 1 << 25) / 2;
    for (int i = 0; i < N; ++i) {
        const auto m = c.pick<int64_t>({most, 10, 1000, most});
        v[i] = T(c.range(std::is_signed_v<T> ? -std::min(m, most) : 0, std::min(m, most)));
        square += (unsigned __int128)(int64_t(v[i]) * int64_t(v[i]));
    }
    const P p = Dim<P>::make(v);
    auto expected = uint64_t(std::sqrt((long double)square));
    NOTE(c, (text<P, T, N>(p)));
    CHECK_EQ(int64_t(p.mag()), int64_t(expected), "length");
    if (square > (unsigned __int128)std::numeric_limits<T>::max()) c.label("squares do not fit"), c.nontrivial();
}

} // namespace

PROP(length_xy, 1) {
    switch (c.below(4)) {
    case 0: length<XYPoint, int>(c); break;
    case 1: length<XYPoint, int64_t>(c); break;
    case 2: length<XYPoint, int16_t>(c); break;
    default: length<XYPoint, uint16_t>(c);
    }
}
PROP(length_xyz, 1) {
    switch (c.below(4)) {
    case 0: length<XYZPoint, int>(c); break;
    case 1: length<XYZPoint, int64_t>(c); break;
    case 2: length<XYZPoint, int16_t>(c); break;
    default: length<XYZPoint, uint16_t>(c);
    }
}
PROP(xy_int, 1) { points<XYPoint, int>(c); }
PROP(xyz_int, 1) { points<XYZPoint, int>(c); }
PROP(xy_int64, 1) { points<XYPoint, int64_t>(c); }
PROP(xyz_int64, 1) { points<XYZPoint, int64_t>(c); }
PROP(xy_float, 1) { points<XYPoint, float>(c); }
PROP(xyz_float, 1) { points<XYZPoint, float>(c); }
PROP(xy_double, 1) { points<XYPoint, double>(c); }
PROP(xyz_double, 1) { points<XYZPoint, double>(c); }
