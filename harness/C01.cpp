// C01: Vector is a bounded double-ended sequence
#include "pbt.hpp"

#include "spine/structure/vector.hpp"

using namespace pbt;
using spn::structure::Vector;

namespace {

struct Wide {
    int id;
    double half;
    char tag[5];
    bool operator==(const Wide& o) const { return id == o.id && half == o.half && tag[0] == o.tag[0] && tag[4] == o.tag[4]; }
};
std::ostream& operator<<(std::ostream& os, const Wide& w) { return os << w.id; }

template<typename T>
T make(int id) {
    if constexpr (std::is_same_v<T, Wide>)
        return Wide{id, id / 2.0, {char(id), 0, 0, 0, char(id + 1)}};
    else if constexpr (std::is_same_v<T, std::shared_ptr<int>>)
        return std::make_shared<int>(id);
    else if constexpr (std::is_same_v<T, std::string>) // some fit into the object itself, some do not
        return std::to_string(id) + std::string(id % 3 ? 0 : 24 + id % 9, char('a' + id % 26));
    else
        return static_cast<T>(id);
}
template<typename T>
std::string text(const T& v) {
    if constexpr (std::is_same_v<T, std::shared_ptr<int>>)
        return v ? std::to_string(*v) : "null";
    else
        return str(v);
}
template<typename T>
std::string text(const std::deque<T>& v) {
    std::string s = "[";
    for (auto& x : v)
        s += text(x) + " ";
    return s + "]";
}

/// a vector, its model and, if it is not its own, its storage
template<typename T>
struct Subject {
    std::unique_ptr<Vector<T>> v;
    std::deque<T> m;
    size_t cap = 0;
    std::function<bool()> intact = [] { return true; };
    std::shared_ptr<void> keep;
};

template<typename T, size_t CAP>
Subject<T> external(Ctx& c, int& next) {
    struct Store {
        T pre[3];
        T store[CAP];
        T post[3];
    };
    auto st = std::make_shared<Store>();
    for (int i = 0; i < 3; ++i)
        st->pre[i] = make<T>(101 + i), st->post[i] = make<T>(111 + i);
    Subject<T> s;
    s.cap = CAP;
    const auto n = c.draw(CAP);
    for (size_t i = 0; i < CAP; ++i)
        st->store[i] = make<T>(next++);
    for (size_t i = 0; i < n; ++i)
        s.m.push_back(st->store[i]);
    s.v = n == 0 && c.coin() ? std::make_unique<Vector<T>>(st->store) : std::make_unique<Vector<T>>(st->store, n);
    auto pre = std::make_shared<std::vector<T>>();
    for (int i = 0; i < 3; ++i)
        pre->push_back(st->pre[i]), pre->push_back(st->post[i]);
    s.intact = [st, pre] {
        for (int i = 0; i < 3; ++i)
            if (!(st->pre[i] == (*pre)[2 * i] && st->post[i] == (*pre)[2 * i + 1])) return false;
        return true;
    };
    s.keep = st;
    NOTE(c, "external store of " << CAP << " holding " << n);
    return s;
}

template<typename T>
Subject<T> create(Ctx& c, int& next) {
    Subject<T> s;
    switch (c.weighted({4, 1, 2, 2})) {
    case 0:
        s.cap = c.draw(c.chance(1, 12) ? 40 : 8);
        s.v = std::make_unique<Vector<T>>(s.cap);
        NOTE(c, "Vector(" << s.cap << ")");
        break;
    case 1: {
        s.cap = c.draw(8);
        const auto x = make<T>(next++);
        s.v = std::make_unique<Vector<T>>(s.cap, x);
        s.m.assign(s.cap, x);
        NOTE(c, "Vector(" << s.cap << ", " << text(x) << ")");
        break;
    }
    case 2: {
        s.cap = c.draw(8);
        for (size_t i = 0; i < s.cap; ++i)
            s.m.push_back(make<T>(next++));
        with_list<T>(s.m, [&](std::initializer_list<T> l) { s.v = std::make_unique<Vector<T>>(l); });
        NOTE(c, "Vector{" << text(s.m) << "}");
        break;
    }
    default:
        switch (c.draw(4)) {
        case 0: return external<T, 1>(c, next);
        case 1: return external<T, 2>(c, next);
        case 2: return external<T, 3>(c, next);
        case 3: return external<T, 5>(c, next);
        default: return external<T, 9>(c, next);
        }
    }
    return s;
}

template<typename T, typename It, typename M>
void same_walk(It b, It e, const M& m, const char* what) {
    size_t i = 0;
    for (auto it = b; it != e; ++it, ++i) {
        CHECK(i < m.size(), what << " visits more than the " << m.size() << " elements");
        CHECK(*it == m[i], what << " element " << i << ": got " << text<T>(*it) << ", expected " << text<T>(m[i]));
        CHECK(!(it == e), what << ": == and != disagree");
    }
    CHECK_EQ(i, m.size(), what << " number of elements");
}

template<typename T>
void same(const Vector<T>& cv, Vector<T>& v, const std::deque<T>& m, size_t cap, const char* who) {
    CHECK_EQ(cv.size(), m.size(), who << " size");
    CHECK_EQ(cv.max_size(), cap, who << " capacity");
    CHECK_EQ(cv.empty(), m.empty(), who << " empty");
    CHECK_EQ(cv.full(), m.size() == cap, who << " full");
    for (size_t i = 0; i < m.size(); ++i) {
        CHECK(v[i] == m[i], who << "[" << i << "]: got " << text<T>(v[i]) << ", expected " << text<T>(m[i]) << " of " << text(m));
        CHECK(cv[i] == m[i], who << " const [" << i << "]: got " << text<T>(cv[i]) << ", expected " << text<T>(m[i]));
        CHECK(cv.at(i) == m[i], who << ".at(" << i << "): got " << text<T>(cv.at(i)) << ", expected " << text<T>(m[i]));
        CHECK(v.data()[i] == m[i] && cv.data()[i] == m[i], who << ".data()[" << i << "]");
    }
    if (!m.empty()) {
        CHECK(v.front() == m.front(), who << " front: got " << text<T>(v.front()) << " expected " << text<T>(m.front()));
        CHECK(v.back() == m.back(), who << " back: got " << text<T>(v.back()) << " expected " << text<T>(m.back()));
        CHECK(cv.peek_front() == m.front(), who << " peek_front: got " << text<T>(cv.peek_front()) << " expected " << text<T>(m.front()));
        CHECK(cv.peek_back() == m.back(), who << " peek_back: got " << text<T>(cv.peek_back()) << " expected " << text<T>(m.back()));
    }
    same_walk<T>(v.begin(), v.end(), m, "forward iteration");
    same_walk<T>(cv.begin(), cv.end(), m, "const forward iteration");
    same_walk<T>(cv.cbegin(), cv.cend(), m, "cbegin iteration");
    const std::deque<T> r(m.rbegin(), m.rend());
    same_walk<T>(v.rbegin(), v.rend(), r, "reverse iteration");
    same_walk<T>(cv.rbegin(), cv.rend(), r, "const reverse iteration");
    same_walk<T>(cv.crbegin(), cv.crend(), r, "crbegin iteration");
    size_t i = 0;
    for (auto& x : v) {
        CHECK(i < m.size() && x == m[i], "range for");
        ++i;
    }
}

template<typename T>
void history(Ctx& c) {
    int next = 1;
    std::vector<Subject<T>> s;
    s.push_back(create<T>(c, next));
    if (c.coin()) s.push_back(create<T>(c, next));
    for (auto& x : s)
        same<T>(*x.v, *x.v, x.m, x.cap, "new vector");
    const auto w = c.swarm(20);
    c.scale();
    bool shifted = false, overfull = false, mixed = false;
    int steps = 0;
    // adding to a full vector is refused: silently in a release, by an assertion in a debug build
    const auto add = [&](Subject<T>& x, auto f) {
        const bool full = x.m.size() >= x.cap;
        overfull |= full;
        const auto t = thrown_by(f);
        if (!full)
            CHECK(!t, "adding to a vector that is not full reported " << t->what);
        else if (debug_build)
            CHECK(t && t->type == "Assertion exception", "adding to a full vector was not asserted");
        else
            CHECK(!t, "adding to a full vector reported an exception");
        return !full;
    };
    // what is added can be an element of the vector itself
    const auto own_element = [&](Subject<T>& x) -> std::optional<size_t> {
        if (x.m.empty() || !c.chance(1, 5)) return std::nullopt;
        return c.below(x.m.size());
    };
    while (c.more()) {
        auto& x = s[c.below(s.size())];
        auto& v = *x.v;
        auto& m = x.m;
        ++steps;
        switch (c.weighted(w)) {
        case 0: {
            const auto own = own_element(x);
            const auto e = own ? m[*own] : make<T>(next++);
            NOTE(c, "push_back " << text(e) << (own ? ", an element of its own" : ""));
            if (add(x, [&] { v.push_back(own ? v[*own] : e); })) m.push_back(e);
            break;
        }
        case 1: {
            const auto own = own_element(x);
            const auto e = own ? m[*own] : make<T>(next++);
            NOTE(c, "push_front " << text(e) << (own ? ", an element of its own" : ""));
            if (add(x, [&] { v.push_front(own ? v[*own] : e); })) m.push_front(e);
            break;
        }
        case 2: {
            auto e = make<T>(next++);
            const auto kept = e;
            NOTE(c, "emplace_back " << text(e));
            if (add(x, [&] { v.emplace_back(std::move(e)); })) m.push_back(kept);
            break;
        }
        case 3: {
            auto e = make<T>(next++);
            const auto kept = e;
            NOTE(c, "emplace_front " << text(e));
            if (add(x, [&] { v.emplace_front(std::move(e)); })) m.push_front(kept);
            break;
        }
        case 4:
        case 5:
            if (m.empty()) {
                if (debug_build) CHECK(thrown_by([&] { const auto _ = v.pop_back(); }), "popping an empty vector was not asserted");
                break;
            } else {
                const T e = v.pop_back();
                NOTE(c, "pop_back -> " << text(e));
                CHECK(e == m.back(), "pop_back: got " << text(e) << ", expected " << text(m.back()));
                m.pop_back();
            }
            break;
        case 6:
        case 7:
            if (m.empty()) {
                // not popped in a release build: misuse
                break;
            } else {
                const T e = v.pop_front();
                NOTE(c, "pop_front -> " << text(e));
                CHECK(e == m.front(), "pop_front: got " << text(e) << ", expected " << text(m.front()));
                m.pop_front();
                shifted |= !m.empty();
            }
            break;
        case 8:
        case 9: {
            const auto own = own_element(x);
            const auto e = own ? m[*own] : make<T>(next++);
            const auto i = c.draw(m.size() + 2);
            NOTE(c, "insert " << i << " " << text(e) << (own ? ", an element of its own" : ""));
            if (add(x, [&] { v.insert(i, own ? v[*own] : e); })) m.insert(m.begin() + std::min<size_t>(i, m.size()), e);
            mixed = true;
            break;
        }
        case 10:
        case 11: {
            if (m.empty()) break;
            const auto i = c.draw(m.size());
            const T e = v.remove(i);
            NOTE(c, "remove " << i << " -> " << text(e));
            const auto k = std::min<size_t>(i, m.size() - 1); // removing at the size removes the last
            CHECK(e == m[k], "remove(" << i << "): got " << text(e) << ", expected " << text(m[k]));
            m.erase(m.begin() + k);
            mixed = true;
            break;
        }
        case 12: {
            const auto e = make<T>(next++);
            NOTE(c, "fill " << text(e));
            v.fill(e);
            m.assign(x.cap, e);
            break;
        }
        case 13:
            NOTE(c, "clear");
            v.clear();
            m.clear();
            break;
        case 14:
            if (s.size() == 2) {
                NOTE(c, "swap");
                s[0].v->swap(*s[1].v);
                std::swap(s[0].m, s[1].m);
                std::swap(s[0].cap, s[1].cap);
                std::swap(s[0].intact, s[1].intact);
                std::swap(s[0].keep, s[1].keep);
                mixed = true;
            }
            break;
        case 15: { // assign a list
            const auto n = c.draw(8);
            NOTE(c, "assign a list of " << n);
            m.clear();
            for (size_t i = 0; i < n; ++i)
                m.push_back(make<T>(next++));
            with_list<T>(m, [&](std::initializer_list<T> l) { v = l; });
            x.cap = n;
            x.intact = [] { return true; };
            x.keep = nullptr;
            break;
        }
        case 16: { // move the vector elsewhere, by construction or assignment
            NOTE(c, "move");
            if (c.coin()) {
                x.v = std::make_unique<Vector<T>>(std::move(v));
            } else {
                auto other = std::make_unique<Vector<T>>(c.draw(4));
                if (other->max_size() > 0) other->push_back(make<T>(next++));
                *other = std::move(v);
                x.v = std::move(other);
            }
            mixed = true;
            break;
        }
        case 17: { // a copy views the same sequence
            NOTE(c, "copy");
            Vector<T> copy(v);
            same<T>(copy, copy, m, x.cap, "copy");
            Vector<T> assigned(c.draw(3));
            assigned = v;
            same<T>(assigned, assigned, m, x.cap, "copy by assignment");
            auto& self = v;
            switch (c.draw(3)) { // nothing happens to what is assigned to or swapped with itself
            case 1: v = self; break;
            case 2: v = std::move(self); break;
            case 3: v.swap(self); break;
            }
            break;
        }
        case 18: // write through an accessor
            if (!m.empty()) {
                const auto i = c.below(m.size());
                const auto e = make<T>(next++);
                NOTE(c, "write " << i << " " << text(e));
                switch (c.draw(4)) {
                case 0: v[i] = e, m[i] = e; break;
                case 1: v.at(i) = e, m[i] = e; break;
                case 2: v.front() = e, m.front() = e; break;
                case 3: v.back() = e, m.back() = e; break;
                case 4: {
                    auto it = v.begin();
                    for (size_t k = 0; k < i; ++k)
                        it++;
                    *it = e;
                    m[i] = e;
                    break;
                }
                }
            }
            break;
        case 19:
            if (debug_build) {
                const auto i = m.size() + c.draw(2);
                CHECK(thrown_by([&] { (void)v[i]; }), "index beyond the end was not asserted");
            }
            break;
        }
        for (auto& y : s) {
            same<T>(*y.v, *y.v, y.m, y.cap, "vector");
            CHECK(y.intact(), "wrote outside its storage");
        }
    }
    if (steps >= 4 && (shifted || mixed)) c.nontrivial();
    if (shifted) c.label("shifted head");
    if (overfull) c.label("add to full");
    if (steps >= 20) c.label("20+ steps");
}

/// few steps on many elements at a time
template<typename T>
void large(Ctx& c) {
    const auto cap = gen_large(c);
    Vector<T> v(cap);
    std::deque<T> m;
    int next = 1;
    NOTE(c, "Vector(" << cap << ")");
    const auto look = [&] {
        const auto& cv = v;
        CHECK_EQ(cv.size(), m.size(), "size");
        CHECK_EQ(cv.empty(), m.empty(), "empty");
        CHECK_EQ(cv.full(), m.size() == cap, "full");
        if (m.empty()) return;
        CHECK(v.front() == m.front() && cv.peek_front() == m.front(), "front: got " << text<T>(v.front()) << ", expected " << text<T>(m.front()));
        CHECK(v.back() == m.back() && cv.peek_back() == m.back(), "back: got " << text<T>(v.back()) << ", expected " << text<T>(m.back()));
        for (int k = 0; k < 4; ++k) {
            const auto i = c.below(m.size());
            CHECK(cv[i] == m[i], "[" << i << "]: got " << text<T>(cv[i]) << ", expected " << text<T>(m[i]));
        }
    };
    const auto steps = 3 + c.draw(9);
    for (size_t step = 0; step < steps; ++step) {
        switch (c.draw(7)) {
        case 0:
        case 1: {
            const auto n = gen_part(c, cap - m.size());
            NOTE(c, "push_back " << n);
            for (size_t i = 0; i < n; ++i) {
                const auto e = make<T>(next++);
                v.push_back(e);
                m.push_back(e);
            }
            break;
        }
        case 2: {
            const auto n = std::min<size_t>(gen_part(c, cap - m.size()), 2000000 / (m.size() + cap));
            NOTE(c, "push_front " << n);
            for (size_t i = 0; i < n; ++i) {
                const auto e = make<T>(next++);
                v.push_front(e);
                m.push_front(e);
            }
            break;
        }
        case 3:
        case 4: {
            const auto n = gen_part(c, m.size());
            NOTE(c, "pop_front " << n);
            for (size_t i = 0; i < n; ++i) {
                const T e = v.pop_front();
                CHECK(e == m.front(), "pop_front: got " << text<T>(e) << ", expected " << text<T>(m.front()));
                m.pop_front();
            }
            break;
        }
        case 5: {
            const auto n = gen_part(c, m.size());
            NOTE(c, "pop_back " << n);
            for (size_t i = 0; i < n; ++i) {
                const T e = v.pop_back();
                CHECK(e == m.back(), "pop_back: got " << text<T>(e) << ", expected " << text<T>(m.back()));
                m.pop_back();
            }
            break;
        }
        case 6:
            for (auto n = 1 + c.draw(5); n > 0 && m.size() < cap; --n) {
                const auto i = c.draw(m.size());
                const auto e = make<T>(next++);
                NOTE(c, "insert " << i);
                v.insert(i, e);
                m.insert(m.begin() + i, e);
            }
            break;
        default:
            for (auto n = 1 + c.draw(5); n > 0 && !m.empty(); --n) {
                const auto i = c.below(m.size());
                NOTE(c, "remove " << i);
                const T e = v.remove(i);
                CHECK(e == m[i], "remove(" << i << "): got " << text<T>(e) << ", expected " << text<T>(m[i]));
                m.erase(m.begin() + i);
            }
        }
        look();
    }
    if (m.size() < 5000)
        same<T>(v, v, m, cap, "vector");
    else
        same_walk<T>(v.begin(), v.end(), m, "forward iteration");
    if (m.size() > 255) c.label("large: 256+ elements");
    if (m.size() > 65535) c.label("large: 65536+ elements");
    if (next > 100) c.nontrivial();
}

#if PART == 0
PROP(ints, 160) { history<int>(c); }
PROP(large_ints, 4) { large<int>(c); }
#elif PART == 1
PROP(bytes, 80) { history<uint8_t>(c); }
#elif PART == 2
PROP(structs, 80) { history<Wide>(c); }
#elif PART == 3
PROP(strings, 80) { history<std::string>(c); }
PROP(large_strings, 1) { large<std::string>(c); }
#else
PROP(shared, 160) { history<std::shared_ptr<int>>(c); }
PROP(large_shared, 1) { large<std::shared_ptr<int>>(c); }
#endif

} // namespace

// two of them at once have nothing in common
PROP(two_vectors, 10) { twins(c, [&] { history<int>(c); }); }
PROP(two_vectors_of_strings, 5) { twins(c, [&] { history<std::string>(c); }); }
