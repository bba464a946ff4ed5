// C08: string helpers agree with their definition on every string
#include "pbt.hpp"

#include "spine/core/utils/concatenate.hpp"
#include "spine/core/utils/string.hpp"
#include "spine/structure/static_string.hpp"

#include <charconv>

using namespace pbt;
namespace utils = spn::core::utils;
using spn::structure::StaticString;

namespace {

/// A view on exactly as many bytes as there are
struct Exact {
    std::unique_ptr<char[]> p;
    size_t n;
    explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
    std::string_view view() const { return {p.get(), n}; }
};

char letter(Ctx& c) {
    static const char common[] = {'a', 'b', ' ', 'c', '\n', '\t', '\0', '\r', '\v', '\f', '\xff', '\x80'};
    return c.chance(1, 8) ? char(c.draw(255)) : common[c.draw(sizeof common - 1)];
}
std::string text(Ctx& c, size_t max) {
    std::string s;
    if (max >= 12 && c.chance(1, 4)) { // a few runs, so that what is to be found may be far away
        const size_t limit = c.chance(1, 4) ? c.chance(1, 200) ? 70000 : 300 : 40;
        for (auto n = 1 + c.draw(3); n > 0; --n)
            s += std::string(c.draw(1) ? 1 : c.draw(limit), letter(c));
        return s;
    }
    // few different letters, so that runs and matches are common
    const char few[2] = {letter(c), letter(c)};
    for (auto n = c.draw(max); n > 0; --n)
        s += c.coin() ? few[c.draw(1)] : letter(c);
    return s;
}
std::string delimiters(Ctx& c, const std::string& s) {
    std::string d;
    for (auto n = c.draw(c.chance(1, 8) ? 20 : 4); n > 0; --n)
        d += !s.empty() && c.coin() ? s[c.below(s.size())] : letter(c);
    return d;
}
std::string needle(Ctx& c, const std::string& s) {
    switch (c.draw(4)) {
    case 0: return s.substr(0, c.draw(s.size())); // a prefix
    case 1: return s.substr(s.size() - c.draw(s.size())); // a suffix
    case 2: return s + text(c, 3);
    case 3: {
        auto x = s.substr(c.draw(s.size()));
        if (!x.empty()) x[c.below(x.size())] = letter(c);
        return x;
    }
    default: return text(c, 5);
    }
}

const std::string whitespace = " \f\n\r\t\v";

bool contains(const std::string& d, char ch) {
    for (auto x : d)
        if (x == ch) return true;
    return false;
}
std::string ref_lstrip(std::string s, const std::string& d) {
    while (!s.empty() && contains(d, s.front()))
        s.erase(0, 1);
    return s;
}
std::string ref_rstrip(std::string s, const std::string& d) {
    while (!s.empty() && contains(d, s.back()))
        s.pop_back();
    return s;
}
bool ref_starts(const std::string& s, const std::string& n) {
    for (size_t i = 0; i < n.size(); ++i)
        if (i >= s.size() || s[i] != n[i]) return false;
    return true;
}
bool ref_ends(const std::string& s, const std::string& n) {
    for (size_t i = 0; i < n.size(); ++i)
        if (i >= s.size() || s[s.size() - 1 - i] != n[n.size() - 1 - i]) return false;
    return true;
}

#if PART == 0

PROP(views, 4) {
    const auto s = text(c, 12);
    const auto d = delimiters(c, s);
    const auto n = needle(c, s);
    NOTE(c, "string " << str(s) << ", delimiters " << str(d) << ", needle " << str(n));
    const Exact es(s), ed(d), en(n);
    const auto l = utils::lstrip(es.view(), ed.view());
    CHECK_EQ(std::string(l), ref_lstrip(s, d), "lstrip");
    if (!l.empty()) CHECK(l.data() == es.view().data() + s.size() - l.size(), "lstrip views something else");
    const auto r = utils::rstrip(es.view(), ed.view());
    CHECK_EQ(std::string(r), ref_rstrip(s, d), "rstrip");
    if (!r.empty()) CHECK(r.data() == es.view().data(), "rstrip views something else");
    CHECK_EQ(std::string(utils::lstrip(es.view())), ref_lstrip(s, whitespace), "lstrip of white space");
    CHECK_EQ(std::string(utils::rstrip(es.view())), ref_rstrip(s, whitespace), "rstrip of white space");
    CHECK_EQ(utils::starts_with(es.view(), en.view()), ref_starts(s, n), "starts_with");
    CHECK_EQ(utils::ends_with(es.view(), en.view()), ref_ends(s, n), "ends_with");
    size_t first = std::string::npos;
    for (size_t i = s.size(); i-- > 0;)
        if (contains(d, s[i])) first = i;
    CHECK_EQ(utils::find_first_of(es.view(), ed.view()), first, "find_first_of");
    if (s.size() >= 2 && !d.empty() && !n.empty()) c.nontrivial();
    if (ref_lstrip(s, d).empty() && !s.empty()) c.label("strips everything");
    if (n.size() > s.size()) c.label("needle longer than the string");
    if (ref_ends(s, n) && !n.empty()) c.label("suffix matches");
}

std::string digits(Ctx& c, size_t max) {
    std::string s;
    for (auto n = 1 + c.draw(max - 1); n > 0; --n)
        s += char('0' + c.draw(9));
    return s;
}

PROP(to_float, 2) {
    std::string s;
    const auto kind = c.weighted({6, 3, 1, 1});
    float expected = 0;
    bool check = true;
    if (kind <= 1) {
        if (c.chance(1, 3)) s += '-';
        switch (c.draw(2)) {
        case 0: s += digits(c, 12); break;
        case 1: s += digits(c, 8) + "." + digits(c, 10); break;
        case 2: s += "." + digits(c, 8); break;
        }
        if (c.chance(1, 4)) s += std::string("e") + (c.coin() ? "-" : "") + std::to_string(c.draw(42));
        const auto [ptr, ec] = std::from_chars(s.data(), s.data() + s.size(), expected);
        check = ec == std::errc() && ptr == s.data() + s.size();
    }
    if (kind == 1) {
        static const char garbage[] = {' ', 'a', ',', '_', '\n', '\0', ':', '/'};
        s += garbage[c.draw(sizeof garbage - 1)];
        s += text(c, 3);
        if (c.coin()) s += digits(c, 2);
        expected = 0, check = true;
    }
    if (kind == 2) s = std::string(1, "agz,_:/"[c.draw(6)]) + digits(c, 3);
    const Exact e(s);
    NOTE(c, "to_float " << str(s));
    const auto got = utils::to_float(e.view());
    if (check) CHECK(got == expected, "to_float(" << str(s) << "): got " << str(got) << ", expected " << str(expected));
    if (s.size() > 2) c.nontrivial();
    if (kind == 1) c.label("number with garbage");
    if (kind == 3) c.label("empty number");
}

/// a view within a longer text: what surrounds it must not matter
PROP(view_in_context, 1) {
    const auto s = digits(c, 6);
    const auto ctx = digits(c, 3) + s + (c.coin() ? "." : "") + digits(c, 4);
    const auto at = ctx.size() - s.size();
    (void)at;
    const auto pos = ctx.find(s);
    const std::string_view v = std::string_view(ctx).substr(pos, s.size());
    NOTE(c, str(s) << " in " << str(ctx));
    float expected = 0;
    std::from_chars(s.data(), s.data() + s.size(), expected);
    CHECK(utils::to_float(v) == expected, "to_float of a view within " << ctx);
    CHECK_EQ(std::string(utils::rstrip(v, "0123456789")), std::string(), "rstrip of a view");
    CHECK_EQ(utils::find_first_of(v, "."), std::string::npos, "find_first_of in a view");
    CHECK(!utils::starts_with(v, std::string_view(ctx).substr(pos)) || pos + s.size() == ctx.size(), "starts_with past the view");
    c.nontrivial();
}

#else

PROP(static_string, 4) {
    const auto len = c.chance(1, 12) ? 40 + c.draw(600) : c.draw(c.coin() ? 12 : 40);
    StaticString s(len);
    const auto cap = s.capacity();
    CHECK(cap >= len, "capacity below what was asked for");
    const char* const base = s.c_str();
    std::string m(s.view());
    CHECK_EQ(m.size(), cap, "initial size");
    NOTE(c, "StaticString(" << len << ")");
    c.scale();
    int ops = 0;
    while (c.more()) {
        ++ops;
        switch (c.draw(6)) {
        case 0:
        case 1: {
            auto t = text(c, 20);
            if (cap > 40) t += std::string(c.draw(cap), letter(c)) + text(c, 4);
            t = t.substr(0, cap);
            if (t.empty()) break;
            NOTE(c, "write " << str(t));
            char* p = s.data(t.size());
            memcpy(p, t.data(), t.size());
            m = t;
            break;
        }
        case 2: {
            const auto n = c.draw(cap + 2);
            NOTE(c, "set_size " << n);
            const auto t = thrown_by([&] { s.set_size(n); });
            if (n > cap) {
                CHECK_EQ(t.has_value(), debug_build, "exceeding the capacity is asserted");
                if (!t) CHECK_EQ(s.size(), cap, "size beyond the capacity");
            } else {
                CHECK(!t, "set_size reports");
                CHECK_EQ(s.size(), size_t(n), "size");
            }
            const auto before = m;
            m = std::string(s.view());
            const auto common = std::min(m.size(), before.size());
            CHECK_EQ(m.substr(0, common), before.substr(0, common), "set_size changes the contents");
            break;
        }
        case 3: {
            const auto d = delimiters(c, m);
            NOTE(c, "lstrip " << str(d));
            const bool def = c.chance(1, 4);
            auto& r = def ? s.lstrip() : s.lstrip(d);
            CHECK(&r == &s, "lstrip returns something else");
            m = ref_lstrip(m, def ? whitespace : d);
            break;
        }
        case 4: {
            const auto d = delimiters(c, m);
            NOTE(c, "rstrip " << str(d));
            const bool def = c.chance(1, 4);
            auto& r = def ? s.rstrip() : s.rstrip(d);
            CHECK(&r == &s, "rstrip returns something else");
            m = ref_rstrip(m, def ? whitespace : d);
            break;
        }
        case 5:
        case 6: {
            const auto n = needle(c, m);
            const Exact e(n);
            CHECK_EQ(s.starts_with(e.view()), ref_starts(m, n), "starts_with " << str(n) << " of " << str(m));
            CHECK_EQ(s.ends_with(e.view()), ref_ends(m, n), "ends_with " << str(n) << " of " << str(m));
            break;
        }
        }
        CHECK_EQ(std::string(s.view()), m, "contents");
        CHECK_EQ(s.size(), m.size(), "size");
        CHECK_EQ(s.capacity(), cap, "capacity");
        CHECK(s.c_str() == base && s.data() == base, "the string was reallocated");
        CHECK(s.c_str()[s.size()] == '\0', "not terminated");
    }
    if (ops >= 3) c.nontrivial();
}

template<size_t N>
struct Lit {
    char s[N];
    Lit(Ctx& c) {
        for (size_t i = 0; i + 1 < N; ++i)
            s[i] = letter(c);
        s[N - 1] = '\0';
    }
    std::string str() const { return std::string(s, N - 1); }
};
template<typename A>
void is(const A& a, const std::string& expected, const char* what) {
    CHECK_EQ(a.size(), expected.size() + 1, what << " size");
    CHECK_EQ(std::string(a.data(), expected.size()), expected, what);
    CHECK(a[expected.size()] == '\0', what << " is not terminated");
}

PROP(concatenation, 1) {
    const Lit<1> e(c);
    const Lit<2> a(c);
    const Lit<4> b(c);
    const Lit<7> d(c);
    const Lit<13> f(c);
    NOTE(c, "concat of " << str(a.str()) << ", " << str(b.str()) << ", " << str(d.str()));
    is(utils::concat(), "", "concat of nothing");
    is(utils::concat(b.s), b.str(), "concat of one");
    is(utils::concat(e.s), "", "concat of one empty");
    is(utils::concat(a.s, b.s), a.str() + b.str(), "concat of two");
    is(utils::concat(e.s, b.s), b.str(), "concat with empty");
    is(utils::concat(b.s, e.s), b.str(), "concat with empty");
    is(utils::concat(a.s, b.s, d.s), a.str() + b.str() + d.str(), "concat of three");
    is(utils::concat(d.s, e.s, a.s, f.s), d.str() + a.str() + f.str(), "concat of four");
    is(utils::concat(f.s, a.s, b.s, d.s, a.s), f.str() + a.str() + b.str() + d.str() + a.str(), "concat of five");
    is(utils::concat(utils::concat(a.s, b.s), d.s), a.str() + b.str() + d.str(), "nested concat");
    c.nontrivial();
}

PROP(concatenation_of_long_texts, 1) {
    const Lit<4> b(c);
    const Lit<129> h(c);
    const Lit<257> k(c);
    const Lit<301> l(c);
    const Lit<513> x(c);
    NOTE(c, "concat of texts of up to 512 characters");
    is(utils::concat(h.s, h.s), h.str() + h.str(), "concat of two of 128");
    is(utils::concat(k.s, b.s), k.str() + b.str(), "concat of 256 and 3");
    is(utils::concat(b.s, l.s, b.s), b.str() + l.str() + b.str(), "concat around 300");
    is(utils::concat(x.s, k.s), x.str() + k.str(), "concat of 512 and 256");
    is(utils::concat(x.s), x.str(), "concat of one of 512");
    c.nontrivial();
}

#endif
} // namespace
