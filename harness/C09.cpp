// C09: Result carries exactly one outcome through every combinator
#include "pbt.hpp"

#include "spine/structure/result.hpp"

using namespace pbt;
using spn::structure::Result;

namespace {

/// An error that is made implicitly from an int
struct Err {
    int code;
    Err(int code) : code(code) {}
    bool operator==(const Err& o) const { return code == o.code; }
};
/// A type that nothing converts to or from
struct Tag {
    explicit Tag(int id) : id(id) {}
    int id;
    std::string ballast = "some text that does not fit into a small string buffer";
    bool operator==(const Tag& o) const { return id == o.id && ballast == o.ballast; }
};

template<typename V>
V make(int id) {
    if constexpr (std::is_same_v<V, std::string>)
        return (id % 2 ? "a text long enough to live on the heap: " : "") + std::to_string(id);
    else if constexpr (std::is_same_v<V, std::shared_ptr<int>>)
        return std::make_shared<int>(id);
    else if constexpr (std::is_same_v<V, bool>)
        return id % 2;
    else if constexpr (std::is_floating_point_v<V>)
        return id + V(0.5);
    else
        return V(id);
}
template<typename V>
bool is(const V& v, int id) {
    if constexpr (std::is_same_v<V, std::shared_ptr<int>>)
        return v && *v == id;
    else
        return v == make<V>(id);
}

enum State { NONE, OK, INTER, FAIL };
const char* const names[] = {"no value", "success", "intermediary", "failed"};

struct Model {
    State s = NONE;
    int id = 0;
};

template<typename T, typename E, typename I>
void same(const Result<T, E, I>& r, const Model& m, const char* what) {
    CHECK(r.is_success() == (m.s == OK), what << ": is_success of a result that is " << names[m.s]);
    CHECK(r.is_intermediary() == (m.s == INTER), what << ": is_intermediary of a result that is " << names[m.s]);
    CHECK(r.is_failed() == (m.s == FAIL), what << ": is_failed of a result that is " << names[m.s]);
    CHECK(bool(r) == (m.s == OK), what << ": operator bool of a result that is " << names[m.s]);
    if (m.s == OK) {
        CHECK(is(r.value(), m.id), what << ": value");
        CHECK(is(*r, m.id), what << ": operator*");
        CHECK(r.operator->() == &r.value(), what << ": operator->");
    }
    if (m.s == INTER) CHECK(is(r.intermediary_value(), m.id), what << ": intermediary value");
    if (m.s == FAIL) CHECK(is(r.error_value(), m.id), what << ": error value");
    if (debug_build) { // exceptions are slow under ASan: one probe of the three per value
        if (m.s != OK && m.id % 6 == 0) CHECK(thrown_by([&] { (void)r.value(); }), what << ": value() of a result that is " << names[m.s] << " is not asserted");
        if (m.s != INTER && m.id % 6 == 2) CHECK(thrown_by([&] { (void)r.intermediary_value(); }), what << ": intermediary_value() is not asserted");
        if (m.s != FAIL && m.id % 6 == 4) CHECK(thrown_by([&] { (void)r.error_value(); }), what << ": error_value() is not asserted");
    }
}

template<typename R, typename T, typename E, typename I>
R construct(Ctx& c, Model& m, int& next) {
    m.id = next++;
    switch (c.draw(10)) {
    case 0: m.s = NONE; return R();
    case 1: {
        m.s = OK;
        const T v = make<T>(m.id);
        return R(v);
    }
    case 2: m.s = OK; return R(make<T>(m.id));
    case 3: {
        m.s = OK;
        T v = make<T>(m.id); // not const
        return R(v);
    }
    case 4: {
        m.s = OK;
        T v = make<T>(m.id);
        return v; // implicitly
    }
    case 5: {
        m.s = INTER;
        const I v = make<I>(m.id);
        return R::intermediary(v);
    }
    case 6: m.s = INTER; return R::intermediary(make<I>(m.id));
    case 7: {
        m.s = FAIL;
        const E v = make<E>(m.id);
        return R::failed(v);
    }
    case 8: m.s = FAIL; return R::failed(make<E>(m.id));
    case 9:
        if constexpr (!std::is_same_v<T, E>) {
            m.s = FAIL;
            E v = make<E>(m.id);
            if (c.coin()) {
                const E cv = v;
                return R(cv);
            }
            return R(v);
        }
        [[fallthrough]];
    default:
        if constexpr (!std::is_same_v<T, E>) {
            m.s = FAIL;
            return make<E>(m.id); // implicitly
        }
        m.s = NONE;
        return R();
    }
}

template<typename T, typename E, typename I>
void history(Ctx& c) {
    using R = Result<T, E, I>;
    int next = 1;
    Model m[2];
    R r[2] = {construct<R, T, E, I>(c, m[0], next), construct<R, T, E, I>(c, m[1], next)};
    same(r[0], m[0], "construction"), same(r[1], m[1], "construction");
    c.scale();
    unsigned combinators = 0;
    std::set<int> states;
    while (c.more()) {
        const auto k = c.below(2);
        auto& x = r[k];
        auto& y = r[1 - k];
        auto& mx = m[k];
        const R& cx = x;
        const int fresh = next++;
        states.insert(mx.s);
        int calls = 0;
        /// the function passed to a combinator: for the state it belongs to, and given the value held
        const auto called = [&](State s, bool value_matches, const char* what) {
            ++calls;
            CHECK(mx.s == s, what << " calls its function on a result that is " << names[mx.s]);
            CHECK(value_matches, what << " passes another value");
        };
        const auto calls_are = [&](bool expected, const char* what) {
            CHECK_EQ(calls, int(expected), what << " of a result that is " << names[mx.s] << ": number of calls");
            ++combinators;
        };
        switch (const auto op = c.draw(17); op) {
        case 0: {
            NOTE(c, k << " = new");
            x = construct<R, T, E, I>(c, mx, next);
            break;
        }
        case 1: {
            NOTE(c, k << " copied");
            const R a(x);
            same(a, mx, "copy of a const");
            R b(x); // from a non-const
            same(b, mx, "copy of a non-const");
            R d(std::move(b));
            same(d, mx, "moved");
            R e;
            e = d;
            same(e, mx, "assigned");
            R f(a);
            f = std::move(e);
            same(f, mx, "move assigned");
            break;
        }
        case 2:
            NOTE(c, k << " = the other");
            x = y;
            mx = m[1 - k];
            break;
        case 3: {
            NOTE(c, k << " = itself, or moved through another");
            auto& self = x;
            if (c.coin())
                x = self;
            else {
                R t = std::move(x);
                x = std::move(t);
            }
            break;
        }
        case 4:
        case 5: { // chain
            Model after = mx;
            const auto to = static_cast<State>(c.draw(3));
            const bool changes = c.coin(); // the function changes the value held
            const auto changed = next++;
            const bool was_inter = mx.s == INTER;
            const auto out = x.chain([&](I& i) -> R {
                called(INTER, is(i, mx.id), "chain");
                if (changes) i = make<I>(changed);
                after = {to, fresh};
                switch (to) {
                case OK: return R(make<T>(fresh));
                case INTER: return R::intermediary(make<I>(fresh));
                case FAIL: return R::failed(make<E>(fresh));
                default: return R();
                }
            });
            NOTE(c, k << " = chain to " << names[to]);
            calls_are(mx.s == INTER, "chain");
            same(out, after, "result of chain");
            if (changes && was_inter) mx.id = changed;
            same(x, mx, "chained");
            x = out;
            mx = after;
            break;
        }
        case 6: {
            NOTE(c, "map " << k);
            const auto out = cx.map([&](const T& v) {
                called(OK, is(v, mx.id), "map");
                return Tag(fresh);
            });
            calls_are(mx.s == OK, "map");
            same(out, {mx.s, mx.s == OK ? fresh : mx.id}, "result of map");
            break;
        }
        case 7: {
            NOTE(c, "map " << k << " to the same type");
            const auto out = cx.map([&](const T& v) {
                called(OK, is(v, mx.id), "map");
                return make<T>(fresh);
            });
            calls_are(mx.s == OK, "map");
            const Model after{mx.s, mx.s == OK ? fresh : mx.id};
            same(out, after, "result of map");
            x = out;
            mx = after;
            break;
        }
        case 8: {
            NOTE(c, "map " << k << " to the type of the error and of the intermediary");
            const auto a = cx.map([&](const T& v) {
                called(OK, is(v, mx.id), "map");
                return make<E>(fresh);
            });
            same(a, {mx.s, mx.s == OK ? fresh : mx.id}, "result of map to the error type");
            const auto b = cx.map([&](const T& v) { return make<I>(fresh); });
            same(b, {mx.s, mx.s == OK ? fresh : mx.id}, "result of map to the intermediary type");
            calls_are(mx.s == OK, "map");
            break;
        }
        case 9: {
            NOTE(c, "map_error " << k);
            const auto out = cx.map_error([&](const E& v) {
                called(FAIL, is(v, mx.id), "map_error");
                return Tag(fresh);
            });
            same(out, {mx.s, mx.s == FAIL ? fresh : mx.id}, "result of map_error");
            const auto out2 = cx.map_error([&](const E&) { return make<T>(fresh); });
            same(out2, {mx.s, mx.s == FAIL ? fresh : mx.id}, "result of map_error to the success type");
            calls_are(mx.s == FAIL, "map_error");
            break;
        }
        case 10: {
            NOTE(c, "map_intermediary " << k);
            const auto out = cx.map_intermediary([&](const I& v) {
                called(INTER, is(v, mx.id), "map_intermediary");
                return Tag(fresh);
            });
            same(out, {mx.s, mx.s == INTER ? fresh : mx.id}, "result of map_intermediary");
            const auto out2 = cx.map_intermediary([&](const I&) { return make<E>(fresh); });
            same(out2, {mx.s, mx.s == INTER ? fresh : mx.id}, "result of map_intermediary to the error type");
            calls_are(mx.s == INTER, "map_intermediary");
            break;
        }
        case 11: {
            const auto to = static_cast<State>(c.draw(3));
            using Next = Result<Tag, E, I>;
            const auto out = cx.and_then([&](const T& v) -> Next {
                called(OK, is(v, mx.id), "and_then");
                switch (to) {
                case OK: return Next(Tag(fresh));
                case INTER: return Next::intermediary(make<I>(fresh));
                case FAIL: return Next::failed(make<E>(fresh));
                default: return Next();
                }
            });
            NOTE(c, "and_then " << k << " to " << names[to]);
            calls_are(mx.s == OK, "and_then");
            same(out, mx.s == OK ? Model{to, fresh} : mx, "result of and_then");
            break;
        }
        case 12: {
            const auto to = static_cast<State>(c.draw(3));
            using Next = Result<T, Tag, I>;
            const auto out = cx.or_else([&](const E& v) -> Next {
                called(FAIL, is(v, mx.id), "or_else");
                switch (to) {
                case OK: return Next(make<T>(fresh));
                case INTER: return Next::intermediary(make<I>(fresh));
                case FAIL: return Next::failed(Tag(fresh));
                default: return Next();
                }
            });
            NOTE(c, "or_else " << k << " to " << names[to]);
            calls_are(mx.s == FAIL, "or_else");
            same(out, mx.s == FAIL ? Model{to, fresh} : mx, "result of or_else");
            break;
        }
        case 13: {
            if (mx.s == NONE) break; // match has no function for it
            NOTE(c, "match " << k);
            const int out = cx.match(
                [&](const T& v) {
                    called(OK, is(v, mx.id), "match");
                    return 1;
                },
                [&](const E& v) {
                    called(FAIL, is(v, mx.id), "match");
                    return 3;
                },
                [&](const I& v) {
                    called(INTER, is(v, mx.id), "match");
                    return 2;
                });
            calls_are(true, "match");
            CHECK_EQ(out, int(mx.s), "match returns");
            break;
        }
        case 14: {
            NOTE(c, "value_or " << k);
            CHECK(is(cx.value_or(make<T>(fresh)), mx.s == OK ? mx.id : fresh), "value_or of a result that is " << names[mx.s]);
            CHECK(is(cx.error_or(make<E>(fresh)), mx.s == FAIL ? mx.id : fresh), "error_or of a result that is " << names[mx.s]);
            const auto v = cx.unwrap_or_else([&] {
                ++calls;
                return make<T>(fresh);
            });
            calls_are(mx.s != OK, "unwrap_or_else");
            CHECK(is(v, mx.s == OK ? mx.id : fresh), "unwrap_or_else of a result that is " << names[mx.s]);
            break;
        }
        case 15: {
            NOTE(c, "unwrap " << k);
            if (mx.s == OK) CHECK(is(x.unwrap(), mx.id), "unwrap");
            if (mx.s == INTER) CHECK(is(x.unwrap_intermediary_value(), mx.id), "unwrap_intermediary_value");
            if (mx.s == FAIL) CHECK(is(x.unwrap_error_value(), mx.id), "unwrap_error_value");
            ++combinators;
            x = construct<R, T, E, I>(c, mx, next); // the value has been moved out
            break;
        }
        case 16: { // a longer chain, as a processor would use it
            auto start = R::intermediary(make<I>(fresh));
            const int stop = c.draw(3);
            const auto how = c.coin() ? OK : FAIL;
            int ran = 0;
            const auto step = [&](int n) {
                return [&, n](I& i) -> R {
                    CHECK(is(i, fresh + n), "step " << n << " of a chain gets another value");
                    CHECK_EQ(ran, n, "steps run");
                    ++ran;
                    if (n == stop) return how == OK ? R(make<T>(fresh + 9)) : R::failed(make<E>(fresh + 9));
                    return R::intermediary(make<I>(fresh + n + 1));
                };
            };
            NOTE(c, "chain of three, " << names[how] << " at " << stop);
            const auto out = start.chain(step(0)).chain(step(1)).chain(step(2));
            CHECK_EQ(ran, std::min(3, stop + 1), "steps run in the end");
            same(out, stop < 3 ? Model{how, fresh + 9} : Model{INTER, fresh + 3}, "result of the chain");
            next += 10;
            ++combinators;
            break;
        }
        case 17: { // the intermediary value may be changed in place by the function that gets it
            if (mx.s != INTER) break;
            NOTE(c, "modify the intermediary of " << k);
            const auto out = x.chain([&](I& i) -> R {
                i = make<I>(fresh);
                return R::intermediary(i);
            });
            same(out, {INTER, fresh}, "result of a chain that modifies");
            x = out;
            mx.id = fresh;
            break;
        }
        }
        same(r[0], m[0], "first"), same(r[1], m[1], "second");
    }
    if (combinators >= 2) c.nontrivial();
    if (states.size() >= 3) c.label("3+ states");
}

#if PART == 0
PROP(same_types, 2) { history<int, int, int>(c); }
PROP(same_strings, 1) { history<std::string, std::string, std::string>(c); }
#elif PART == 1
PROP(int_string, 2) { history<int, std::string, int>(c); }
PROP(converting, 2) { history<int, double, float>(c); }
#elif PART == 2
PROP(string_int_double, 1) { history<std::string, int, double>(c); }
PROP(error_from_int, 2) { history<int, Err, char>(c); }
#else
PROP(bool_success, 1) { history<bool, std::string, bool>(c); }
PROP(shared, 1) { history<std::shared_ptr<int>, Err, std::string>(c); }
#endif

} // namespace

// two of them at once have nothing in common
PROP(two_results, 1) { twins(c, [&] { history<int, std::string, int>(c); }); }
