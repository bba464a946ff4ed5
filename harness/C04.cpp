// C04: ring buffer is a bounded FIFO with exact accounting
#include "pbt.hpp"

#include "spine/structure/ringbuffer.hpp"

using namespace pbt;
using spn::structure::RingBuffer;

namespace {

struct Pair {
    int a, b;
    bool operator==(const Pair& o) const { return a == o.a && b == o.b; }
};
std::ostream& operator<<(std::ostream& os, const Pair& w) { return os << w.a; }

template<typename T>
T make(int id) {
    if constexpr (std::is_same_v<T, Pair>)
        return Pair{id, -id};
    else if constexpr (std::is_same_v<T, std::string>) // some fit into the object itself, some do not
        return std::to_string(id) + std::string(id % 3 ? 0 : 24 + id % 9, char('a' + id % 26));
    else
        return static_cast<T>(id);
}

template<typename T>
void same(RingBuffer<T>& r, const std::deque<T>& m, size_t cap, size_t overrun) {
    const auto& cr = r;
    CHECK_EQ(cr.used_space(), m.size(), "used_space");
    CHECK_EQ(cr.free_space(), cap - m.size(), "free_space");
    CHECK_EQ(cr.capacity(), cap, "capacity");
    CHECK_EQ(cr.empty(), m.empty(), "empty");
    CHECK_EQ(cr.full(), m.size() == cap, "full");
    CHECK_EQ(cr.overrun_space(), overrun, "overrun_space");
    for (size_t i = 0; i < m.size() + 2; ++i) {
        T v = make<T>(120);
        CHECK_EQ(cr.peek_at(v, i), i < m.size(), "peek_at(" << i << ") succeeds");
        if (i < m.size())
            CHECK(v == m[i], "peek_at(" << i << "): got " << str(v) << ", expected " << str(m[i]) << " of " << str(m));
        else
            CHECK(v == make<T>(120), "a refused peek writes");
        T* p = nullptr;
        CHECK_EQ(r.peek_at(&p, i), i < m.size(), "peek_at(pointer, " << i << ") succeeds");
        if (i < m.size()) CHECK(p && *p == m[i], "peek_at(pointer, " << i << ")");
    }
    T v;
    CHECK(!cr.peek_at(v, SIZE_MAX), "peek at an enormous index");
}

template<typename T>
void history(Ctx& c) {
    const size_t cap = 1 + c.draw(c.chance(1, 10) ? 40 : 8);
    std::unique_ptr<RingBuffer<T>> rb = c.coin() ? std::make_unique<RingBuffer<T>>(cap) : std::make_unique<RingBuffer<T>>(cap, make<T>(7));
    auto& r = *rb;
    std::deque<T> m;
    size_t overrun = 0;
    int next = 1;
    NOTE(c, "RingBuffer(" << cap << ")");
    same(r, m, cap, overrun);
    c.scale();
    const auto w = c.swarm(11);
    size_t pushed = 0;
    bool rolled = false, refused = false, dropped = false;
    const auto model_push = [&](const T& v, bool roll) {
        if (m.size() == cap) {
            if (!roll) {
                refused = true;
                return false;
            }
            rolled = true;
            m.pop_front();
            ++overrun;
        }
        m.push_back(v);
        ++pushed;
        return true;
    };
    // what a drop leaves of the overrun count is not specified further than that it does not grow
    const auto after_drop = [&] {
        dropped = true;
        CHECK(r.overrun_space() <= overrun, "dropping raises the overrun count from " << overrun << " to " << r.overrun_space());
        overrun = r.overrun_space();
    };
    while (c.more()) {
        switch (c.weighted(w)) {
        case 0:
        case 1: {
            const auto v = make<T>(next++);
            NOTE(c, "push " << str(v));
            const auto ok = r.push(v);
            CHECK_EQ(ok, model_push(v, false), "push succeeds");
            break;
        }
        case 2:
        case 3: {
            const auto v = make<T>(next++);
            NOTE(c, "push rolling over " << str(v));
            const auto ok = r.push(v, true);
            CHECK_EQ(ok, model_push(v, true), "push with rollover succeeds");
            break;
        }
        case 4:
        case 5: {
            const auto n = c.draw(cap + 3);
            const bool roll = c.coin();
            std::unique_ptr<T[]> vs(new T[n]);
            size_t expected = 0;
            for (size_t i = 0; i < n; ++i)
                vs[i] = make<T>(next++);
            NOTE(c, "push " << n << (roll ? " rolling over" : ""));
            const auto written = r.push(vs.get(), n, roll);
            for (size_t i = 0; i < n; ++i)
                if (model_push(vs[i], roll))
                    ++expected;
                else
                    break;
            CHECK_EQ(written, expected, "bulk push writes");
            break;
        }
        case 6: {
            T v = make<T>(99);
            NOTE(c, "pop");
            CHECK_EQ(r.pop(v), !m.empty(), "pop succeeds");
            if (!m.empty()) {
                CHECK(v == m.front(), "pop: got " << str(v) << ", expected " << str(m.front()));
                m.pop_front();
                overrun = 0;
            }
            break;
        }
        case 7:
            NOTE(c, "pop()");
            CHECK_EQ(r.pop(), !m.empty(), "pop() succeeds");
            if (!m.empty()) {
                m.pop_front();
                overrun = 0;
            }
            break;
        case 8: {
            const auto n = c.draw(cap + 2);
            std::unique_ptr<T[]> vs(new T[n]);
            for (size_t i = 0; i < n; ++i)
                vs[i] = make<T>(99);
            NOTE(c, "pop " << n);
            const auto got = r.pop(vs.get(), n);
            if (n > m.size()) {
                CHECK_EQ(got, size_t(0), "bulk pop of more than is there");
                for (size_t i = 0; i < n; ++i)
                    CHECK(vs[i] == make<T>(99), "bulk pop of more than is there writes");
            } else {
                CHECK_EQ(got, size_t(n), "bulk pop");
                for (size_t i = 0; i < n; ++i) {
                    CHECK(vs[i] == m.front(), "bulk pop element " << i << ": got " << str(vs[i]) << ", expected " << str(m.front()));
                    m.pop_front();
                }
                if (n) overrun = 0;
            }
            break;
        }
        case 9: {
            const auto n = c.draw(cap + 2);
            const bool first = c.coin();
            NOTE(c, (first ? "drop_first " : "drop_last ") << n);
            const size_t expected = n ? std::min<size_t>(n, m.size()) : m.size();
            CHECK_EQ(first ? r.drop_first(n) : r.drop_last(n), expected, "dropped");
            if (first)
                m.erase(m.begin(), m.begin() + expected);
            else
                m.erase(m.end() - expected, m.end());
            after_drop();
            break;
        }
        case 10:
            switch (c.draw(2)) {
            case 0:
                NOTE(c, "clear");
                r.clear();
                m.clear();
                after_drop();
                break;
            case 1: { // write through a pointer
                if (m.empty()) break;
                const auto i = c.below(m.size());
                T* p = nullptr;
                if (!r.peek_at(&p, i)) fail("peek_at failed");
                *p = make<T>(next++);
                m[i] = *p;
                NOTE(c, "write at " << i);
                break;
            }
            case 2: CHECK(!r.peek_at(static_cast<T**>(nullptr), 0), "peek into a nullptr succeeds"); break;
            }
            break;
        }
        same(r, m, cap, overrun);
    }
    if (pushed > cap) c.nontrivial();
    if (rolled) c.label("rolled over");
    if (refused) c.label("refused");
    if (dropped) c.label("dropped");
    if (cap == 1) c.label("capacity 1");
}

/// few steps on many elements at a time
template<typename T>
void large(Ctx& c) {
    const auto cap = gen_large(c);
    RingBuffer<T> r(cap);
    std::deque<T> m;
    size_t overrun = 0;
    int next = 1;
    NOTE(c, "RingBuffer(" << cap << ")");
    for (auto steps = 3 + c.draw(9); steps > 0; --steps) {
        switch (c.draw(5)) {
        case 0:
        case 1:
        case 2: {
            const bool roll = c.coin();
            const auto n = roll ? gen_part(c, cap + cap / 2) : gen_part(c, cap - m.size() + c.draw(3));
            std::unique_ptr<T[]> vs(new T[n]);
            for (size_t i = 0; i < n; ++i)
                vs[i] = make<T>(next++);
            size_t expected = 0;
            if (c.coin()) {
                NOTE(c, "push " << n << (roll ? " rolling over" : ""));
                expected = r.push(vs.get(), n, roll);
            } else {
                NOTE(c, "push one by one " << n << (roll ? " rolling over" : ""));
                for (size_t i = 0; i < n; ++i)
                    expected += r.push(vs[i], roll);
            }
            CHECK_EQ(expected, roll ? n : std::min<size_t>(n, cap - m.size()), "pushed");
            for (size_t i = 0; i < expected; ++i) {
                if (m.size() == cap) {
                    m.pop_front();
                    ++overrun;
                }
                m.push_back(vs[i]);
            }
            break;
        }
        case 3: {
            const auto n = gen_part(c, m.size());
            std::unique_ptr<T[]> vs(new T[n]);
            NOTE(c, "pop " << n);
            CHECK_EQ(r.pop(vs.get(), n), n, "pop");
            for (size_t i = 0; i < n; ++i) {
                CHECK(vs[i] == m.front(), "pop element " << i << ": got " << str(vs[i]) << ", expected " << str(m.front()));
                m.pop_front();
            }
            if (n) overrun = 0;
            break;
        }
        case 4: {
            const auto n = gen_part(c, m.size());
            NOTE(c, "pop one by one " << n);
            for (size_t i = 0; i < n; ++i) {
                T v;
                CHECK(r.pop(v), "pop " << i);
                CHECK(v == m.front(), "pop " << i << ": got " << str(v) << ", expected " << str(m.front()));
                m.pop_front();
            }
            if (n) overrun = 0;
            break;
        }
        default: {
            if (m.empty()) break;
            const auto n = std::max<size_t>(1, gen_part(c, m.size()));
            const bool first = c.coin();
            NOTE(c, (first ? "drop_first " : "drop_last ") << n);
            CHECK_EQ(first ? r.drop_first(n) : r.drop_last(n), n, "dropped");
            if (first)
                m.erase(m.begin(), m.begin() + n);
            else
                m.erase(m.end() - n, m.end());
            CHECK(r.overrun_space() <= overrun, "dropping raises the overrun count");
            overrun = r.overrun_space();
        }
        }
        CHECK_EQ(r.used_space(), m.size(), "used_space");
        CHECK_EQ(r.free_space(), cap - m.size(), "free_space");
        CHECK_EQ(r.overrun_space(), overrun, "overrun_space");
        CHECK_EQ(r.empty(), m.empty(), "empty");
        CHECK_EQ(r.full(), m.size() == cap, "full");
        for (int k = 0; k < 4 && !m.empty(); ++k) {
            T v;
            const auto i = k == 0 ? m.size() - 1 : c.below(m.size());
            CHECK(r.peek_at(v, i) && v == m[i], "peek_at(" << i << "): got " << str(v) << ", expected " << str(m[i]));
        }
    }
    same(r, m, cap, overrun);
    c.label("large");
    if (next > 100) c.nontrivial();
}

#if PART == 0
PROP(ints, 150) { history<int>(c); }
PROP(chars, 150) { history<char>(c); }
PROP(large_ints, 4) { large<int>(c); }
#else
PROP(pairs, 100) { history<Pair>(c); }
PROP(large_pairs, 2) { large<Pair>(c); }
PROP(strings, 80) { history<std::string>(c); }
#endif

} // namespace

// two of them at once have nothing in common
PROP(two_rings, 10) { twins(c, [&] { history<char>(c); }); }
