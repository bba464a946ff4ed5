// C03: Array is a fixed sequence that iterates correctly in every direction
#include "pbt.hpp"

#include "spine/structure/array.hpp"

using namespace pbt;
using spn::structure::Array;

namespace {

struct Wide {
    int id;
    float x[3];
    bool operator==(const Wide& o) const { return id == o.id && x[0] == o.x[0] && x[2] == o.x[2]; }
};
std::ostream& operator<<(std::ostream& os, const Wide& w) { return os << w.id; }

template<typename T>
T make(int id) {
    if constexpr (std::is_same_v<T, Wide>)
        return Wide{id, {float(id), 0, float(-id)}};
    else if constexpr (std::is_same_v<T, std::string>) // some fit into the object itself, some do not
        return std::to_string(id) + std::string(id % 3 ? 0 : 24 + id % 9, char('a' + id % 26));
    else
        return static_cast<T>(id);
}

/// The expected contents of an array, and its external storage if it has any
template<typename T>
struct Subject {
    std::unique_ptr<Array<T>> a;
    std::vector<T> m;
    T* store = nullptr; // external storage, all of it in a struct with canaries
    std::function<bool()> intact = [] { return true; };
};

template<typename T, size_t CAP>
Subject<T> external(Ctx& c, int& next) {
    struct Store {
        T pre[2], store[CAP], post[2];
    };
    auto st = std::make_shared<Store>();
    Subject<T> s;
    for (int i = 0; i < 2; ++i)
        st->pre[i] = make<T>(99 + i), st->post[i] = make<T>(77 + i);
    for (size_t i = 0; i < CAP; ++i) {
        st->store[i] = make<T>(next++);
        s.m.push_back(st->store[i]);
    }
    s.a = std::make_unique<Array<T>>(st->store);
    s.store = st->store;
    s.intact = [st] {
        for (int i = 0; i < 2; ++i)
            if (!(st->pre[i] == make<T>(99 + i)) || !(st->post[i] == make<T>(77 + i))) return false;
        return true;
    };
    NOTE(c, "array over external storage of " << CAP);
    return s;
}

template<typename T>
Subject<T> create(Ctx& c, int& next) {
    Subject<T> s;
    switch (c.weighted({4, 2, 2, 3, 1})) {
    case 0: {
        const auto n = c.draw(c.chance(1, 10) ? 60 : 7);
        s.a = std::make_unique<Array<T>>(n);
        s.m.resize(n);
        if constexpr (std::is_trivially_copyable_v<T>)
            for (auto& x : s.m)
                memset((void*)&x, 0, sizeof x);
        NOTE(c, "Array(" << n << ")");
        break;
    }
    case 1: {
        const auto n = c.draw(7);
        const auto x = make<T>(next++);
        s.a = std::make_unique<Array<T>>(n, x);
        s.m.assign(n, x);
        NOTE(c, "Array(" << n << ", " << str(x) << ")");
        break;
    }
    case 2: {
        const auto n = c.draw(8);
        for (size_t i = 0; i < n; ++i)
            s.m.push_back(make<T>(next++));
        with_list<T>(s.m, [&](std::initializer_list<T> l) { s.a = std::make_unique<Array<T>>(l); });
        NOTE(c, "Array from a list of " << n);
        break;
    }
    case 3:
        switch (c.draw(3)) {
        case 0: return external<T, 1>(c, next);
        case 1: return external<T, 2>(c, next);
        case 2: return external<T, 4>(c, next);
        default: return external<T, 9>(c, next);
        }
    default:
        if constexpr (std::is_same_v<T, uint8_t>) { // a raw buffer
            const auto n = c.draw(9);
            auto buf = std::shared_ptr<uint8_t>(new uint8_t[n + 4], std::default_delete<uint8_t[]>());
            memset(buf.get(), 0x5a, n + 4);
            s.a = std::make_unique<Array<T>>(buf.get() + 2, n);
            s.store = buf.get() + 2;
            s.m.assign(n, 0);
            s.intact = [buf, n] {
                return buf.get()[0] == 0x5a && buf.get()[1] == 0x5a && buf.get()[n + 2] == 0x5a && buf.get()[n + 3] == 0x5a;
            };
            NOTE(c, "Array over a raw buffer of " << n);
        } else
            return external<T, 3>(c, next);
    }
    return s;
}

/// A walk with generated steps: prefix or postfix, forward or backward, within [begin, end]
template<typename It, typename T>
void stroll(Ctx& c, It begin, It end, const std::vector<T>& m, const char* what) {
    auto it = begin;
    size_t pos = 0;
    size_t steps = 0;
    const auto at_place = [&](const It& i, size_t p, const char* step) {
        if (p < m.size())
            CHECK(*i == m[p], what << " after " << step << " at " << p << ": got " << str(*i) << ", expected " << str(m[p]));
        CHECK_EQ(i == end, p == m.size(), what << " after " << step << ": == end at " << p << " of " << m.size());
        CHECK_EQ(i != end, p != m.size(), what << " after " << step << ": != end at " << p << " of " << m.size());
        CHECK_EQ(i == begin, p == 0, what << " after " << step << ": == begin at " << p);
        CHECK_EQ(i != begin, p != 0, what << " after " << step << ": != begin at " << p);
    };
    at_place(it, 0, "begin");
    while (steps++ < 3 * m.size() + 2) {
        switch (c.draw(3)) {
        case 0:
            if (pos == m.size()) break;
            at_place(++it, ++pos, "++it");
            break;
        case 1:
            if (pos == m.size()) break;
            at_place(it++, pos, "it++");
            ++pos;
            break;
        case 2:
            if (pos == 0) break;
            at_place(--it, --pos, "--it");
            break;
        case 3:
            if (pos == 0) break;
            at_place(it--, pos, "it--");
            --pos;
            break;
        }
        at_place(it, pos, "a step");
    }
}

template<typename It, typename T>
void walk(It it, It end, const std::vector<T>& m, bool postfix, const char* what) {
    size_t i = 0;
    for (; it != end; ++i) {
        CHECK(i < m.size(), what << " visits more than the " << m.size() << " elements");
        if (postfix) {
            CHECK(*it++ == m[i], what << " (postfix) at " << i);
        } else {
            CHECK(*it == m[i], what << " at " << i << ": got " << str(*it) << ", expected " << str(m[i]));
            ++it;
        }
    }
    CHECK_EQ(i, m.size(), what << " number of elements visited");
}

template<typename T>
void same(Subject<T>& s) {
    auto& a = *s.a;
    const auto& ca = a;
    const auto& m = s.m;
    CHECK_EQ(ca.size(), m.size(), "size");
    CHECK_EQ(ca.max_size(), m.size(), "max_size");
    CHECK_EQ(ca.empty(), m.empty(), "empty");
    for (size_t i = 0; i < m.size(); ++i) {
        CHECK(a[i] == m[i], "[" << i << "]: got " << str(a[i]) << ", expected " << str(m[i]));
        CHECK(ca[i] == m[i], "const [" << i << "]");
        CHECK(ca.at(i) == m[i], "at " << i);
        CHECK(a.data()[i] == m[i] && ca.data()[i] == m[i], "data " << i);
        if (s.store) CHECK(s.store[i] == m[i], "external storage at " << i << ": got " << str(s.store[i]) << ", expected " << str(m[i]));
    }
    if (!m.empty()) {
        CHECK(a.front() == m.front(), "front");
        CHECK(a.back() == m.back(), "back");
        CHECK(&a.front() == a.data() && &a.back() == a.data() + m.size() - 1, "front and back refer to the elements");
        if (s.store) CHECK(a.data() == s.store, "data is the external storage");
    }
    const std::vector<T> r(m.rbegin(), m.rend());
    for (bool postfix : {false, true}) {
        walk(a.begin(), a.end(), m, postfix, "forward iteration");
        walk(ca.begin(), ca.end(), m, postfix, "const forward iteration");
        walk(ca.cbegin(), ca.cend(), m, postfix, "cbegin iteration");
        walk(a.rbegin(), a.rend(), r, postfix, "reverse iteration");
        walk(ca.rbegin(), ca.rend(), r, postfix, "const reverse iteration");
        walk(ca.crbegin(), ca.crend(), r, postfix, "crbegin iteration");
    }
    CHECK(s.intact(), "wrote outside its storage");
}

template<typename T>
void history(Ctx& c) {
    int next = 1;
    Subject<T> s[2] = {create<T>(c, next), create<T>(c, next)};
    same(s[0]), same(s[1]);
    c.scale();
    int writes = 0, transfers = 0, strolls = 0;
    while (c.more()) {
        const auto i = c.below(2);
        auto& x = s[i];
        switch (c.weighted({5, 2, 1, 2, 2, 2, 3, 1, 2})) {
        case 0: {
            if (x.m.empty()) break;
            const auto k = c.below(x.m.size());
            const auto e = make<T>(next++);
            NOTE(c, i << "[" << k << "] = " << str(e));
            switch (c.draw(5)) {
            case 0: (*x.a)[k] = e, x.m[k] = e; break;
            case 1: x.a->at(k) = e, x.m[k] = e; break;
            case 2: x.a->front() = e, x.m.front() = e; break;
            case 3: x.a->back() = e, x.m.back() = e; break;
            case 4: x.a->data()[k] = e, x.m[k] = e; break;
            case 5: {
                auto it = x.a->rbegin();
                for (size_t j = x.m.size() - 1; j > k; --j)
                    ++it;
                *it = e, x.m[k] = e;
                break;
            }
            }
            ++writes;
            break;
        }
        case 1: {
            const auto e = make<T>(next++);
            NOTE(c, i << " fill " << str(e));
            x.a->fill(e);
            x.m.assign(x.m.size(), e);
            ++writes;
            break;
        }
        case 2: {
            const auto n = c.draw(8);
            NOTE(c, i << " = list of " << n);
            x.m.clear();
            for (size_t k = 0; k < n; ++k)
                x.m.push_back(make<T>(next++));
            with_list<T>(x.m, [&](std::initializer_list<T> l) { *x.a = l; });
            x.store = nullptr;
            ++transfers;
            break;
        }
        case 3:
            NOTE(c, "swap");
            s[0].a->swap(*s[1].a);
            std::swap(s[0].m, s[1].m);
            std::swap(s[0].store, s[1].store);
            std::swap(s[0].intact, s[1].intact);
            ++transfers;
            break;
        case 4:
            NOTE(c, "move construct " << i);
            x.a = std::make_unique<Array<T>>(std::move(*x.a));
            ++transfers;
            break;
        case 5: {
            NOTE(c, "move " << i << " to the other");
            *s[1 - i].a = std::move(*x.a);
            s[1 - i].m = x.m;
            s[1 - i].store = x.store;
            s[1 - i].intact = x.intact;
            s[i] = create<T>(c, next);
            ++transfers;
            break;
        }
        case 6: // iterate with generated steps
            ++strolls;
            NOTE(c, "stroll " << i);
            {
                const std::vector<T> r(x.m.rbegin(), x.m.rend());
                const auto& ca = *x.a;
                switch (c.draw(3)) {
                case 0: stroll(c, x.a->begin(), x.a->end(), x.m, "forward iterator"); break;
                case 1: stroll(c, ca.begin(), ca.end(), x.m, "const iterator"); break;
                case 2: stroll(c, x.a->rbegin(), x.a->rend(), r, "reverse iterator"); break;
                case 3: stroll(c, ca.rbegin(), ca.rend(), r, "const reverse iterator"); break;
                }
            }
            break;
        case 7: {
            NOTE(c, "copy " << i);
            Subject<T> v;
            v.m = x.m;
            v.a = std::make_unique<Array<T>>(*x.a);
            same(v);
            *v.a = *x.a; // to a view of the same
            same(v);
            Array<T> other(c.draw(3));
            *v.a = other;
            *v.a = *x.a;
            same(v);
            break;
        }
        case 8: {
            auto& self = *x.a;
            NOTE(c, "self assignment");
            switch (c.draw(2)) {
            case 0: *x.a = self; break;
            case 1: *x.a = std::move(self); break;
            case 2: x.a->swap(self); break;
            }
            break;
        }
        }
        same(s[0]), same(s[1]);
    }
    if ((writes && (transfers || strolls)) && s[0].m.size() + s[1].m.size() > 1) c.nontrivial();
    if (strolls) c.label("stroll");
    if (transfers) c.label("transfer");
    if (s[0].store || s[1].store) c.label("external storage at the end");
}

template<typename T>
void large(Ctx& c) {
    const auto n = gen_large(c);
    int next = 1;
    Subject<T> s[2];
    s[0].a = c.coin() ? std::make_unique<Array<T>>(n) : std::make_unique<Array<T>>(n, make<T>(3));
    s[0].m.resize(n);
    s[1] = create<T>(c, next);
    NOTE(c, "Array(" << n << ")");
    for (size_t i = 0; i < n; ++i)
        (*s[0].a)[i] = s[0].m[i] = make<T>(next++);
    if (c.coin()) {
        s[0].a->swap(*s[1].a);
        std::swap(s[0].m, s[1].m), std::swap(s[0].store, s[1].store), std::swap(s[0].intact, s[1].intact);
    }
    if (c.coin()) {
        const auto e = make<T>(next++);
        s[0].a->fill(e);
        s[0].m.assign(s[0].m.size(), e);
    }
    if (c.coin()) {
        *s[1].a = std::move(*s[0].a);
        s[1].m = s[0].m, s[1].store = s[0].store, s[1].intact = s[0].intact;
        s[0] = create<T>(c, next);
    }
    same(s[0]), same(s[1]);
    c.label("large");
    c.nontrivial();
}

#if PART == 0
PROP(bytes, 100) { history<uint8_t>(c); }
#elif PART == 1
PROP(ints, 150) { history<int>(c); }
PROP(large, 1) { large<int>(c); }
#elif PART == 2
PROP(structs, 100) { history<Wide>(c); }
PROP(doubles, 50) { history<double>(c); }
#else
PROP(strings, 60) { history<std::string>(c); }
#endif

} // namespace

// two of them at once have nothing in common
PROP(two_arrays, 10) { twins(c, [&] { history<int>(c); }); }
