// C40: pairs and type lists hold each thing once
#include "pbt.hpp"

#include <climits>

#include "spine/core/meta/enum.hpp"
#include "spine/core/meta/unique_type_variant.hpp"
#include "spine/core/types.hpp"
#include "spine/structure/tuple.hpp"

using namespace pbt;
using spn::structure::Tuple;
namespace uv = spn::core::meta::unique_variant;

namespace {

struct Small {
    int8_t a;
    bool operator==(const Small& o) const { return a == o.a; }
};
struct Large : Small { // converts into the other
    std::string s;
    bool operator==(const Large& o) const { return a == o.a && s == o.s; }
};
enum class Colour : uint8_t { RED, GREEN, LAST = 255 };

template<typename T>
T gen(Ctx& c) {
    if constexpr (std::is_same_v<T, std::string>) return std::string(c.draw(30), char('a' + c.draw(25)));
    else if constexpr (std::is_same_v<T, std::shared_ptr<int>>) return c.chance(1, 8) ? nullptr : std::make_shared<int>(int(c.range(-1000, 1000)));
    else if constexpr (std::is_same_v<T, Small>) return Small{int8_t(c.range(-128, 127))};
    else if constexpr (std::is_same_v<T, Large>) {
        Large l;
        l.a = int8_t(c.range(-128, 127));
        l.s = gen<std::string>(c);
        return l;
    } else if constexpr (std::is_same_v<T, std::vector<int>>) return std::vector<int>(c.draw(5), int(c.range(-9, 9)));
    else if constexpr (std::is_same_v<T, Tuple<int, std::string>>) {
        const auto i = gen<int>(c);
        return Tuple<int, std::string>(i, gen<std::string>(c));
    } else if constexpr (std::is_enum_v<T>) return T(c.draw(255));
    else if constexpr (std::is_same_v<T, bool>) return c.coin();
    else if constexpr (std::is_floating_point_v<T>) return T(c.range(-1000000, 1000000)) / 64;
    else return T(c.nasty(std::numeric_limits<T>::min(), std::numeric_limits<T>::max()));
}
template<typename T>
bool same(const T& a, const T& b) {
    if constexpr (std::is_same_v<T, Tuple<int, std::string>>) return a.first() == b.first() && a.second() == b.second();
    else return a == b;
}

template<typename A, typename B>
void tuples(Ctx& c) {
    constexpr bool assigns_a = std::is_copy_assignable_v<A>;
    std::vector<std::unique_ptr<Tuple<A, B>>> ts;
    std::vector<std::pair<std::unique_ptr<A>, std::unique_ptr<B>>> model;
    int changed = 0, copied = 0;
    c.scale();
    while (c.more()) {
        const auto op = ts.empty() ? 0 : c.draw(4);
        const auto k = ts.empty() ? 0 : c.below(ts.size());
        switch (op) {
        case 0: {
            auto a = std::make_unique<A>(gen<A>(c));
            auto b = std::make_unique<B>(gen<B>(c));
            ts.push_back(std::make_unique<Tuple<A, B>>(*a, *b)); // outlives what it was made from
            model.emplace_back(std::make_unique<A>(*a), std::make_unique<B>(*b));
            NOTE(c, "new");
            break;
        }
        case 1:
            if constexpr (assigns_a) {
                const auto a = gen<A>(c);
                ts[k]->first() = a;
                *model[k].first = a;
                ++changed;
                NOTE(c, "first of " << k);
            }
            break;
        case 2: {
            const auto b = gen<B>(c);
            const Tuple<A, B>& t = *ts[k];
            t.second() = b; // a reference to the value, whoever looks
            *model[k].second = b;
            ++changed;
            NOTE(c, "second of " << k);
            break;
        }
        case 3:
            if (ts.size() > 8) break;
            if (c.coin())
                ts.push_back(std::make_unique<Tuple<A, B>>(*ts[k]));
            else
                ts.push_back(std::make_unique<Tuple<A, B>>(std::move(Tuple<A, B>(*ts[k]))));
            model.emplace_back(std::make_unique<A>(*model[k].first), std::make_unique<B>(*model[k].second));
            ++copied;
            NOTE(c, "copy of " << k);
            break;
        case 4:
            ts.erase(ts.begin() + k);
            model.erase(model.begin() + k);
            NOTE(c, "drop " << k);
            break;
        }
        for (size_t i = 0; i < ts.size(); ++i) {
            CHECK(same<A>(ts[i]->first(), *model[i].first), "first of tuple " << i);
            CHECK(same<B>(ts[i]->second(), *model[i].second), "second of tuple " << i);
            CHECK(&ts[i]->first() == &std::as_const(*ts[i]).first() && static_cast<const void*>(&ts[i]->first()) != static_cast<const void*>(&ts[i]->second()), "where the values of tuple " << i << " are");
        }
    }
    if (changed && copied) c.nontrivial();
    if (changed) c.label("changed");
    if (copied) c.label("copied");
}

// lists of types, made up by the compiler
using Types = std::tuple<int, char, float, std::string, Small, Large, Colour, uint32_t, std::shared_ptr<int>, bool>;
constexpr size_t KINDS = std::tuple_size_v<Types>;
constexpr uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
constexpr size_t length_of(size_t list) { return 1 + mix(list) % 7; }
constexpr size_t kinds_of(size_t list) { return 1 + mix(list + 1000) % KINDS; } // few kinds: many repetitions
constexpr size_t kind(size_t list, size_t i) { return (mix(list * 64 + i + 77) % kinds_of(list) + list) % KINDS; }

template<typename L>
struct Size;
template<typename... Ts>
struct Size<uv::TypeList<Ts...>> : std::integral_constant<size_t, sizeof...(Ts)> {};

template<size_t LIST, typename Is = std::make_index_sequence<length_of(LIST)>>
struct List;
template<size_t LIST, size_t... I>
struct List<LIST, std::index_sequence<I...>> {
    using Plain = uv::Unique<std::tuple_element_t<kind(LIST, I), Types>...>;
    using Wrapped = uv::Unique<uv::Wrapper<std::tuple_element_t<kind(LIST, I), Types>>...>;

    template<size_t K>
    static void one(Ctx& c, std::optional<typename uv::ToVariant<Wrapped>::type>& v, bool expected) {
        using T = std::tuple_element_t<K, Types>;
        CHECK_EQ((uv::Contains_v<Plain, T>), expected, "list " << LIST << " contains type " << K);
        CHECK_EQ((uv::Contains_v<Wrapped, uv::Wrapper<T>>), expected, "list " << LIST << " contains type " << K << ", wrapped");
        CHECK(!(uv::Contains_v<Plain, uv::Wrapper<T>>) && !(uv::Contains_v<Wrapped, T>), "a type and its wrapper are one in list " << LIST);
        // goes without compiling when the list has not got it exactly once
        if constexpr (((kind(LIST, I) == K) || ...)) {
            const T value = gen<T>(c);
            if (c.coin()) v.emplace(std::in_place_type<uv::Wrapper<T>>, value);
            else {
                T gone(value);
                v.emplace(std::in_place_type<uv::Wrapper<T>>, std::move(gone));
            }
            const auto copy = v;
            CHECK(std::holds_alternative<uv::Wrapper<T>>(*v) && std::holds_alternative<uv::Wrapper<T>>(*copy), "variant " << LIST << " holds another type than " << K);
            const T& back = std::get<uv::Wrapper<T>>(*copy);
            CHECK(same<T>(back, value), "value of type " << K << " in variant " << LIST);
            T& reference = std::get<uv::Wrapper<T>>(*v);
            const T other = gen<T>(c);
            reference = other;
            CHECK(same<T>(std::get<uv::Wrapper<T>>(*v).value, other) && same<T>(std::get<uv::Wrapper<T>>(*copy).value, value), "value of type " << K << " that was assigned in variant " << LIST);
        }
    }
    template<size_t... K>
    static void all(Ctx& c, std::index_sequence<K...>) {
        std::set<size_t> distinct{kind(LIST, I)...};
        CHECK_EQ(Size<Plain>::value, distinct.size(), "types in list " << LIST);
        CHECK_EQ(Size<Wrapped>::value, distinct.size(), "types in list " << LIST << ", wrapped");
        CHECK_EQ((std::variant_size_v<typename uv::ToVariant<Plain>::type>), distinct.size(), "types in the variant of list " << LIST);
        std::optional<typename uv::ToVariant<Wrapped>::type> v;
        (one<K>(c, v, distinct.count(K) > 0), ...);
        if (distinct.size() < sizeof...(I)) {
            c.label("repeated");
            if (distinct.size() > 1) c.nontrivial();
        } else
            c.label("no repetition");
    }
    static void check(Ctx& c) { all(c, std::make_index_sequence<KINDS>()); }
};
constexpr size_t LISTS = 64;
template<size_t... L>
constexpr auto table(std::index_sequence<L...>) {
    return std::array<void (*)(Ctx&), sizeof...(L)>{&List<L>::check...};
}

} // namespace

PROP(pairs, 4) {
    switch (c.draw(7)) {
    case 0: return tuples<int, int>(c);
    case 1: return tuples<char, int64_t>(c);
    case 2: return tuples<std::string, std::string>(c);
    case 3: return tuples<std::shared_ptr<int>, double>(c);
    case 4: return tuples<Large, Small>(c);
    case 5: return tuples<std::vector<int>, Colour>(c);
    case 6: return tuples<bool, uint8_t>(c);
    default: return tuples<Tuple<int, std::string>, Large>(c);
    }
}

PROP(type_lists, 2) {
    static constexpr auto lists = table(std::make_index_sequence<LISTS>());
    const auto i = c.below(LISTS);
    NOTE(c, "list " << i);
    lists[i](c);
}

PROP(numbers_of_names, 1) {
    using namespace spn::core;
    const auto v = c.draw(255);
    NOTE(c, "number " << v);
    CHECK_EQ(meta::ENUM_IDX(Colour(v)), int(v), "number of an enumerator");
    const auto i = int(c.nasty(INT_MIN, INT_MAX));
    enum class Wide : int {};
    CHECK_EQ(meta::ENUM_IDX(Wide(i)), i, "number of an enumerator");
    static_assert(meta::ENUM_IDX(LogicalState::OFF) == 0 && meta::ENUM_IDX(LogicalState::ON) == 1, "the states of a pin");
    if (v > 127 || i < 0) c.nontrivial();
}
