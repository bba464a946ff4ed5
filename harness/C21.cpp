// C21: durations print and parse consistently
#include "pbt.hpp"
#include "timerepr.hpp"

#include "spine/core/utils/time_repr.hpp"

using namespace pbt;
namespace utils = spn::core::utils;

namespace {

using i128 = __int128;
struct Parsed {
    std::string unit;
    int64_t number;
    bool operator==(const Parsed& o) const { return unit == o.unit && number == o.number; }
};
std::ostream& operator<<(std::ostream& os, const std::optional<Parsed>& p) { return p ? os << p->number << " " << p->unit : os << "nothing"; }

/// runs the code on text that has nothing behind it
std::optional<Parsed> parse(const std::string& text) {
    std::unique_ptr<char[]> exact(new char[text.size()]);
    std::copy(text.begin(), text.end(), exact.get());
    const auto v = utils::parse_time(std::string_view(exact.get(), text.size()));
    if (!v) return std::nullopt;
    static const char* names[] = {"us", "ms", "s", "m", "h", "d"};
    return Parsed{names[v->index()], std::visit([](auto t) { return int64_t(t.raw()); }, *v)};
}

/// what the text means
std::optional<Parsed> meaning(const std::string& text) {
    size_t i = 0;
    i128 n = 0;
    while (i < text.size() && text[i] >= '0' && text[i] <= '9') {
        n = n * 10 + (text[i] - '0');
        if (n > INT64_MAX) n = i128(INT64_MAX) + 1;
        if (n > INT64_MAX) {
            while (i < text.size() && text[i] >= '0' && text[i] <= '9') ++i;
            break;
        }
        ++i;
    }
    if (i == 0 || n > INT64_MAX) return std::nullopt;
    const auto unit = text.substr(i);
    for (auto& u : repr_units())
        if (unit == u.name) return Parsed{unit, int64_t(n)};
    return std::nullopt;
}

std::string repr_in(size_t unit, int64_t v) {
    switch (unit) {
    case 0: return utils::repr(k_time_us(v));
    case 1: return utils::repr(k_time_ms(v));
    case 2: return utils::repr(k_time_s(v));
    case 3: return utils::repr(k_time_m(v));
    case 4: return utils::repr(k_time_h(v));
    default: return utils::repr(k_time_d(v));
    }
}

} // namespace

PROP(print_and_parse, 3) {
    const auto unit = c.below(6);
    const auto us = int64_t(repr_units()[unit].us);
    const auto limit = (int64_t(1) << 62) / us;
    int64_t v;
    switch (c.below(3)) {
    case 0: v = c.range(0, limit); break;
    case 1: v = c.nasty(0, limit); break;
    default: { // about an edge of some unit
        const auto& u = repr_units()[c.below(6)];
        const auto n = c.pick<int64_t>({0, 1, 2, 23, 24, 899, 900, 999, 1000, 1439, 1440, 60, 59});
        const auto half = c.below(3) * (int64_t(u.us) / 2);
        v = std::clamp<i128>((i128(n) * u.us + half) / us + c.range(-2, 2), 0, limit);
    }
    }
    NOTE(c, v << " " << repr_units()[unit].name);
    const auto text = repr_in(unit, v);
    std::string expected_unit;
    int64_t expected_number = 0;
    const auto expected = expected_repr(v, us, &expected_unit, &expected_number);
    CHECK_EQ(text, expected, v << " " << repr_units()[unit].name << " printed");
    const auto back = parse(text);
    CHECK(back.has_value(), text << " does not parse");
    CHECK_EQ(back->unit, expected_unit, text << " parsed back: unit");
    CHECK_EQ(back->number, expected_number, text << " parsed back: number");
    size_t at = 0;
    while (back->unit != repr_units()[at].name) ++at;
    const auto parsed_us = i128(back->number) * repr_units()[at].us, given_us = i128(v) * us;
    const auto off = parsed_us > given_us ? parsed_us - given_us : given_us - parsed_us;
    CHECK(off * 2 <= repr_units()[at].us, v << " " << repr_units()[unit].name << " prints as " << text << ", which is more than half a unit off");
    if (at != unit) c.nontrivial();
    if (off != 0) c.label("rounded");
    if (at == 5) c.label("days");
    if (expected_number == repr_units()[at].below - 1) c.label("just below the cutoff");
    if (at > 0 && round_div(given_us, int64_t(repr_units()[at - 1].us)) == repr_units()[at - 1].below) c.label("at the cutoff");
}

PROP(parse_text, 3) {
    std::string text;
    static const char* units[] = {"us", "ms", "s", "m", "h", "d"};
    static const char* odd[] = {"u", "min", "MS", "S", "H", "D", "sec", "ns", "uss", "ss", "mm", "hd", "d ", " d", "\xc2\xb5s", "ms0", "s1", "w", "y", "."};
    // a number
    switch (c.weighted({4, 2, 3, 2, 1, 1})) {
    case 0: text = std::to_string(c.nasty(0, INT64_MAX)); break;
    case 1: { // about the limit of what fits
        auto v = i128(INT64_MAX) + c.range(-12, 12) + i128(c.below(4)) * ((i128(1) << 64) * c.range(0, 20) / 2);
        std::string digits;
        for (; v > 0; v /= 10) digits.insert(digits.begin(), char('0' + int(v % 10)));
        text = digits;
        break;
    }
    case 2:
        for (auto n = c.below(40); n-- > 0;) text += char('0' + c.below(10));
        break;
    case 3: text = std::string(c.below(12), '0') + std::to_string(c.range(0, 9999)); break;
    case 4: text = c.pick<const char*>({"-1", "+1", " 1", "1 ", "1.5", "0x10", "1e3", "", "1,000", "\xd9\xa1", "1_000", "--", "1-"}); break;
    default: text = std::string(1 + c.below(300), char('0' + c.below(10)));
    }
    if (text.size() > 18) c.label("long number");
    switch (c.weighted({6, 2, 1, 1, 1})) {
    case 0: text += units[c.below(6)]; break;
    case 1: text += odd[c.below(20)]; break;
    case 2: break;
    case 3: text += std::string(units[c.below(6)]) + units[c.below(6)]; break;
    default:
        for (auto n = c.below(4); n-- > 0;) text += char(c.draw(255));
    }
    // sometimes spoil it
    if (c.chance(1, 4) && !text.empty()) {
        const auto at = c.below(text.size() + 1);
        switch (c.below(3)) {
        case 0: text.insert(at, 1, char(c.draw(255))); break;
        case 1: text.erase(at < text.size() ? at : at - 1, 1); break;
        default: text.insert(at, 1, c.pick<char>({' ', '\0', '-', '+', '.', 's', '0', '\n', '/', ':'}));
        }
    }
    NOTE(c, str(text));
    const auto expected = meaning(text);
    const auto got = parse(text);
    CHECK(got == expected, str(text) << " parsed to " << got << ", expected " << expected);
    if (expected) c.nontrivial(), c.label("means something");
    else c.label("means nothing");
}

PROP(parse_bytes, 1) {
    std::string text;
    static const char alphabet[] = "0123456789usmhd usmhd0199";
    while (text.size() < 64 && c.more(8)) text += c.chance(1, 12) ? char(c.draw(255)) : alphabet[c.below(sizeof(alphabet) - 1)];
    NOTE(c, str(text));
    const auto expected = meaning(text);
    const auto got = parse(text);
    CHECK(got == expected, str(text) << " parsed to " << got << ", expected " << expected);
    if (expected) c.nontrivial();
}
