// C02: containers neither leak, duplicate nor overrun what they hold
#include "pbt.hpp"

#include "spine/eventsystem/eventsystem.hpp"
#include "spine/structure/array.hpp"
#include "spine/structure/pool.hpp"
#include "spine/structure/ringbuffer.hpp"
#include "spine/structure/stack.hpp"
#include "spine/structure/vector.hpp"

using namespace pbt;
using namespace spn::structure;

namespace {

/// The payloads that are alive, by number
std::set<int> g_alive;
struct Payload {
    explicit Payload(int id) : id(id) { g_alive.insert(id); }
    ~Payload() {
        g_alive.erase(id);
        id = -1;
    }
    Payload(const Payload&) = delete;
    int id;
};
using P = std::shared_ptr<Payload>;


/// Elements that can only be copied: nothing is moved out of a slot, so what leaves has to be let go of
struct CopyOnly {
    CopyOnly() = default;
    CopyOnly(P p) : p(std::move(p)) {}
    CopyOnly(const CopyOnly&) = default;
    CopyOnly& operator=(const CopyOnly&) = default;
    explicit operator bool() const { return bool(p); }
    const Payload* operator->() const { return p.get(); }
    P p;
};

/// Elements that cannot be made from nothing
struct Given : CopyOnly {
    Given() = delete;
    using CopyOnly::CopyOnly;
};

struct Ids {
    int next = 1;
    P make() { return std::make_shared<Payload>(next++); }
};

using Model = std::deque<int>; // 0: a slot that holds nothing

std::set<int> held(std::initializer_list<const Model*> ms) {
    std::set<int> s;
    for (auto m : ms)
        for (auto i : *m)
            if (i) s.insert(i);
    return s;
}
void alive_is(const std::set<int>& expected, const char* when) {
    if (g_alive == expected) return;
    std::vector<int> extra, missing;
    std::set_difference(g_alive.begin(), g_alive.end(), expected.begin(), expected.end(), std::back_inserter(extra));
    std::set_difference(expected.begin(), expected.end(), g_alive.begin(), g_alive.end(), std::back_inserter(missing));
    CHECK(false, when << ": kept alive without being in there: " << str(extra) << ", in there but destroyed: " << str(missing));
}

/// Runs a case and checks that nothing is left of it. Says whether it was non-trivial.
template<typename F>
void balanced(Ctx& c, F body) {
    g_alive.clear();
    const auto before = allocated_bytes();
    const bool nontrivial = body();
    alive_is({}, "after destruction of the container");
    const auto after = allocated_bytes();
    CHECK(before == after, "memory left allocated after destruction: " << static_cast<long long>(after - before) << " bytes");
    if (nontrivial) c.nontrivial();
}

#if PART == 0

template<typename E>
bool vectors(Ctx& c) {
    Ids ids;
    std::unique_ptr<Vector<E>> v[2];
    Model m[2];
    size_t cap[2];
    for (int i = 0; i < 2; ++i) {
        cap[i] = c.draw(6);
        if (c.chance(1, 6)) {
            cap[i] = std::max<size_t>(cap[i], 1);
            const auto p = ids.make();
            v[i] = std::make_unique<Vector<E>>(cap[i], E(p));
            m[i].assign(cap[i], p->id);
        } else
            v[i] = std::make_unique<Vector<E>>(cap[i]);
        NOTE(c, "vector of " << cap[i] << (m[i].empty() ? "" : " full"));
    }
    c.scale();
    const auto w = c.swarm(15);
    int ops = 0;
    while (c.more()) {
        const auto i = c.below(2);
        auto& x = *v[i];
        auto& mm = m[i];
        const bool full = mm.size() == cap[i];
        const auto op = c.weighted(w);
        if (op <= 4 && full && debug_build) continue; // asserted
        const auto p = op <= 6 ? ids.make() : P();
        const int id = p ? p->id : 0;
        NOTE(c, "op " << op << " on " << i << " (" << id << ")");
        ++ops;
        switch (op) {
        case 0: x.push_back(E(p)); if (!full) mm.push_back(id); break;
        case 1: x.push_front(E(p)); if (!full) mm.push_front(id); break;
        case 2: x.emplace_back(E(p)); if (!full) mm.push_back(id); break;
        case 3: x.emplace_front(E(p)); if (!full) mm.push_front(id); break;
        case 4: {
            const auto k = c.draw(mm.size());
            x.insert(k, E(p));
            if (!full) mm.insert(mm.begin() + k, id);
            break;
        }
        case 5: x.fill(E(p)); mm.assign(cap[i], id); break;
        case 6:
            if (mm.empty()) break;
            if (c.coin()) x[mm.size() - 1] = E(p), mm.back() = id;
            else x.front() = E(p), mm.front() = id;
            break;
        case 7:
            if (mm.empty()) break;
            switch (c.draw(2)) {
            case 0: {
                const auto e = x.pop_back();
                CHECK(e && e->id == mm.back(), "pop_back gives another element");
                break;
            }
            case 1: CHECK(x.pop_back()->id == mm.back(), "pop_back gives another element"); break;
            case 2: (void)x.pop_back(); break; // the caller does not care for it
            }
            mm.pop_back();
            break;
        case 8:
            if (mm.empty()) break;
            switch (c.draw(2)) {
            case 0: {
                const auto e = x.pop_front();
                CHECK(e && e->id == mm.front(), "pop_front gives another element");
                break;
            }
            case 1: CHECK(x.pop_front()->id == mm.front(), "pop_front gives another element"); break;
            case 2: (void)x.pop_front(); break;
            }
            mm.pop_front();
            break;
        case 9: {
            if (mm.empty()) break;
            const auto k = c.below(mm.size());
            if constexpr (!std::is_default_constructible_v<E>)
                break; // what a remove of nothing returns is made from nothing
            else if (c.coin()) {
                const auto e = x.remove(k);
                CHECK(e && e->id == mm[k], "remove gives another element");
            } else
                x.remove(k);
            mm.erase(mm.begin() + k);
            break;
        }
        case 10: x.clear(); mm.clear(); break;
        case 11: {
            std::vector<E> e;
            mm.clear();
            cap[i] = c.draw(8);
            for (size_t k = 0; k < cap[i]; ++k) {
                const auto q = ids.make();
                e.push_back(E(q));
                mm.push_back(q->id);
            }
            with_list<E>(e, [&](std::initializer_list<E> l) { x = l; });
            break;
        }
        case 12: // the other one is destroyed or replaced
            if (c.coin()) {
                *v[1 - i] = std::move(x);
                v[i] = std::make_unique<Vector<E>>(2);
            } else {
                v[1 - i] = std::make_unique<Vector<E>>(std::move(x));
                v[i] = std::make_unique<Vector<E>>(2);
            }
            m[1 - i] = mm;
            cap[1 - i] = cap[i];
            mm.clear();
            cap[i] = 2;
            break;
        case 13:
            v[0]->swap(*v[1]);
            std::swap(m[0], m[1]);
            std::swap(cap[0], cap[1]);
            break;
        case 14: { // views come and go without an effect
            Vector<E> copy(x);
            Vector<E> assigned(c.draw(2));
            if (assigned.max_size() > 0) assigned.push_back(E(ids.make()));
            assigned = copy;
            break;
        }
        }
        // p is held by the test itself until the end of this step
        auto expected = held({&m[0], &m[1]});
        if (id) expected.insert(id);
        alive_is(expected, "vector");
    }
    alive_is(held({&m[0], &m[1]}), "vector");
    return ops >= 4;
}
PROP(vector, 5) {
    balanced(c, [&] {
        switch (c.weighted({3, 2, 1})) {
        case 0: return vectors<P>(c);
        case 1: return vectors<CopyOnly>(c);
        default: return vectors<Given>(c);
        }
    });
}

template<typename E>
bool arrays(Ctx& c) {
    Ids ids;
    std::unique_ptr<Array<E>> a[2];
    Model m[2];
    for (int i = 0; i < 2; ++i) {
        const auto n = c.draw(6);
        a[i] = std::make_unique<Array<E>>(n);
        m[i].assign(n, 0);
        NOTE(c, "array of " << n);
    }
    c.scale();
    int ops = 0;
    while (c.more()) {
        const auto i = c.below(2);
        auto& x = *a[i];
        auto& mm = m[i];
        const auto p = ids.make();
        const auto op = c.draw(7);
        NOTE(c, "op " << op << " on " << i << " (" << p->id << ")");
        ++ops;
        switch (op) {
        case 0:
        case 1: {
            if (mm.empty()) break;
            const auto k = c.below(mm.size());
            if (c.coin()) x[k] = E(p);
            else x.at(k) = E(p);
            mm[k] = p->id;
            break;
        }
        case 2: x.fill(E(p)); mm.assign(mm.size(), p->id); break;
        case 3: {
            const auto n = c.draw(5);
            a[i] = std::make_unique<Array<E>>(n, E(p));
            mm.assign(n, p->id);
            break;
        }
        case 4: {
            std::vector<E> e;
            mm.clear();
            for (auto n = c.draw(8); e.size() < n;) {
                e.push_back(e.size() % 3 == 2 ? E(e.back()) : E(ids.make()));
                mm.push_back(e.back()->id);
            }
            with_list<E>(e, [&](std::initializer_list<E> l) { x = l; });
            break;
        }
        case 5:
            if (c.coin()) {
                *a[1 - i] = std::move(x);
                a[i] = std::make_unique<Array<E>>(1);
            } else {
                a[1 - i] = std::make_unique<Array<E>>(std::move(x));
                a[i] = std::make_unique<Array<E>>(1);
            }
            m[1 - i] = mm;
            mm.assign(1, 0);
            break;
        case 6: {
            a[0]->swap(*a[1]);
            std::swap(m[0], m[1]);
            break;
        }
        case 7: {
            Array<E> view(x);
            Array<E> other(c.draw(3), E(p));
            other = x;
            break;
        }
        }
        auto expected = held({&m[0], &m[1]});
        expected.insert(p->id);
        alive_is(expected, "array");
    }
    alive_is(held({&m[0], &m[1]}), "array");
    return ops >= 3;
}
PROP(array, 3) {
    balanced(c, [&] {
        switch (c.weighted({3, 2, 1})) {
        case 0: return arrays<P>(c);
        case 1: return arrays<CopyOnly>(c);
        default: return arrays<Given>(c);
        }
    });
}

/// external storage keeps what is in it, the array over it destroys nothing
bool external(Ctx& c) {
    Ids ids;
    P store[4];
    Model m(4, 0);
    {
        Array<P> a(store);
        c.scale();
        while (c.more()) {
            const auto k = c.below(4);
            const auto p = ids.make();
            NOTE(c, "write " << k);
            a[k] = p;
            m[k] = p->id;
        }
        if (c.coin()) {
            Array<P> moved(std::move(a));
        }
        alive_is(held({&m}), "array over external storage");
    }
    alive_is(held({&m}), "after destruction of an array over external storage");
    for (size_t i = 0; i < 4; ++i)
        CHECK_EQ(store[i] ? store[i]->id : 0, m[i], "external storage after destruction of the array");
    return !held({&m}).empty();
}
PROP(external_array, 1) { balanced(c, [&] { return external(c); }); }

#elif PART == 1

template<typename E>
bool ring(Ctx& c) {
    Ids ids;
    const auto cap = 1 + c.draw(7);
    NOTE(c, "ring buffer of " << cap);
    auto r = std::make_unique<RingBuffer<E>>(cap);
    Model m;
    c.scale();
    const auto w = c.swarm(9);
    int ops = 0;
    const auto push_model = [&](int id, bool roll) {
        if (m.size() == cap) {
            if (!roll) return;
            m.pop_front();
        }
        m.push_back(id);
    };
    while (c.more()) {
        const auto op = c.weighted(w);
        NOTE(c, "op " << op);
        ++ops;
        switch (op) {
        case 0:
        case 1: {
            const auto p = ids.make();
            r->push(E(p), op == 1);
            push_model(p->id, op == 1);
            break;
        }
        case 2: {
            E ps[4];
            const auto n = c.draw(4);
            for (size_t i = 0; i < n; ++i)
                ps[i] = E(ids.make());
            const bool roll = c.coin();
            r->push(ps, n, roll);
            for (size_t i = 0; i < n; ++i)
                push_model(ps[i]->id, roll);
            break;
        }
        case 3:
            CHECK_EQ(r->pop(), !m.empty(), "pop");
            if (!m.empty()) m.pop_front();
            break;
        case 4: {
            E p;
            CHECK_EQ(r->pop(p), !m.empty(), "pop");
            if (!m.empty()) {
                CHECK(p && p->id == m.front(), "pop gives another element");
                m.pop_front();
            }
            break;
        }
        case 5: {
            E ps[3];
            const auto n = c.draw(3);
            r->pop(ps, n);
            if (n <= m.size()) m.erase(m.begin(), m.begin() + n);
            break;
        }
        case 6: {
            const auto n = c.draw(cap);
            r->drop_first(n);
            m.erase(m.begin(), m.begin() + (n ? std::min<size_t>(n, m.size()) : m.size()));
            break;
        }
        case 7: {
            const auto n = c.draw(cap);
            r->drop_last(n);
            m.erase(m.end() - (n ? std::min<size_t>(n, m.size()) : m.size()), m.end());
            break;
        }
        case 8: r->clear(); m.clear(); break;
        }
        alive_is(held({&m}), "ring buffer");
    }
    return ops >= 4;
}
PROP(ringbuffer, 4) { balanced(c, [&] { return c.coin() ? ring<P>(c) : ring<CopyOnly>(c); }); }

template<typename E>
bool stack(Ctx& c) {
    Ids ids;
    const auto cap = c.draw(6);
    auto s = std::make_unique<Stack<E>>(cap);
    Model m;
    NOTE(c, "stack of " << cap);
    c.scale();
    int ops = 0;
    while (c.more()) {
        const auto op = c.draw(3);
        NOTE(c, "op " << op);
        ++ops;
        switch (op) {
        case 0: {
            if (debug_build && m.size() == cap) break;
            auto p = E(ids.make());
            const auto id = p->id;
            s->push(p);
            if (m.size() < cap) m.push_back(id);
            break;
        }
        case 1: {
            if (debug_build && m.size() == cap) break;
            auto p = E(ids.make());
            const auto id = p->id;
            s->emplace(std::move(p));
            if (m.size() < cap) m.push_back(id);
            break;
        }
        case 2:
            if (m.empty()) break;
            s->pop();
            m.pop_back();
            break;
        case 3:
            if (m.empty()) break;
            s->top() = E(ids.make());
            m.back() = ids.next - 1;
            break;
        }
        alive_is(held({&m}), "stack");
    }
    return ops >= 4;
}
PROP(stack, 2) { balanced(c, [&] { return c.coin() ? stack<P>(c) : stack<CopyOnly>(c); }); }

bool pool(Ctx& c) {
    Ids ids;
    const auto n = c.draw(6);
    auto pool = std::make_unique<Pool<Payload>>(n);
    Model in; // in the pool, in order
    for (size_t i = 0; i < n; ++i) {
        const auto how = c.draw(1);
        if (how == 0) {
            pool->populate(ids.make());
        } else
            pool->populate(new Payload(ids.next++));
        in.push_back(ids.next - 1);
    }
    NOTE(c, "pool of " << n);
    alive_is(held({&in}), "pool");
    std::vector<P> mine; // acquired
    Model out;
    c.scale();
    int ops = 0;
    while (c.more()) {
        const auto op = c.draw(6);
        NOTE(c, "op " << op);
        ++ops;
        switch (op) {
        case 0:
        case 1:
        case 2:
            if (!pool) break;
            if (in.size() < n && debug_build) break; // asserted: not populated
            if (auto p = pool->acquire()) {
                out.push_back(p->id);
                mine.push_back(p);
            }
            break;
        case 3:
        case 4:
            if (mine.empty()) break;
            {
                const auto k = c.below(mine.size());
                mine.erase(mine.begin() + k);
                out.erase(out.begin() + k);
            }
            break;
        case 5: {
            if (!pool || in.empty() || !c.chance(1, 3)) break;
            switch (c.draw(2)) {
            case 0: {
                const auto p = pool->depopulate();
                CHECK(p && p->id == in.front(), "depopulate gives another object");
                break;
            }
            case 1: CHECK(pool->depopulate()->id == in.front(), "depopulate gives another object"); break;
            case 2: (void)pool->depopulate(); break;
            }
            in.pop_front();
            break;
        }
        case 6:
            if (!c.chance(1, 6)) break;
            if (pool && c.coin()) {
                NOTE(c, "move");
                if (c.coin())
                    pool = std::make_unique<Pool<Payload>>(std::move(*pool));
                else {
                    Pool<Payload> other(1);
                    other.populate(ids.make());
                    other = std::move(*pool);
                    pool = std::make_unique<Pool<Payload>>(std::move(other));
                }
                break;
            }
            NOTE(c, "destroy");
            pool.reset();
            in.clear();
            break;
        }
        alive_is(held({&in, &out}), "pool");
    }
    pool.reset();
    alive_is(held({&out}), "after destruction of the pool");
    return ops >= 4 && n > 0;
}
PROP(pool, 3) { balanced(c, [&] { return pool(c); }); }

#else

using spn::eventsystem::Future;
using spn::eventsystem::Pipeline;

struct CountedFuture : Future {
    CountedFuture(int64_t ms, int id) : Future(k_time_ms(ms)), payload(id) {}
    Payload payload;
};

bool pipeline(Ctx& c) {
    const auto cap = 1 + c.draw(7);
    auto pipe = std::make_unique<Pipeline>(cap);
    NOTE(c, "pipeline of " << cap);
    std::vector<std::pair<int64_t, int>> m; // due, id
    int next = 1;
    set_now_ms(c.nasty(0, 1000000));
    c.scale();
    int ops = 0;
    while (c.more()) {
        ++ops;
        switch (c.draw(3)) {
        case 0:
        case 1: {
            if (m.size() == cap) break;
            const int64_t d = 1 + c.draw(20);
            pipe->push(std::make_shared<CountedFuture>(d, next));
            NOTE(c, "push " << d);
            m.emplace_back(now_ms() + d, next++);
            std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) { return a.first < b.first; });
            break;
        }
        case 2: {
            const auto d = c.draw(15);
            advance_ms(d);
            NOTE(c, "advance " << d);
            break;
        }
        case 3:
            while (pipe->contains_expired_futures()) {
                CHECK(!m.empty(), "expires more than was pushed");
                {
                    const auto f = pipe->expire();
                    CHECK(f && static_cast<CountedFuture*>(f.get())->payload.id == m.front().second, "expires another future");
                }
                m.erase(m.begin());
            }
            NOTE(c, "expire");
            break;
        }
        std::set<int> expected;
        for (auto& f : m)
            expected.insert(f.second);
        alive_is(expected, "pipeline");
    }
    return ops >= 4;
}
PROP(pipeline, 3) { balanced(c, [&] { return pipeline(c); }); }

using namespace spn::core;

bool eventsystem(Ctx& c) {
    struct Handler : EventHandler {
        Handler(EventSystem* es, int* n) : EventHandler(es), n(n) {}
        void handle_event(const Event&) override { ++*n; }
        int* n;
    };
    const size_t cap = 1 + c.draw(6);
    int delivered = 0;
    size_t scheduled = 0, expected = 0;
    auto es = std::make_unique<EventSystem>(EventSystem::Config{2, cap, 2, false});
    auto h = std::make_unique<Handler>(es.get(), &delivered);
    es->attach(0, h.get());
    es->attach(1, h.get());
    NOTE(c, "event system of " << cap);
    std::vector<std::shared_ptr<Event>> mine;
    std::vector<std::weak_ptr<Event>> seen;
    c.scale();
    int ops = 0;
    while (c.more()) {
        ++ops;
        switch (c.draw(4)) {
        case 0:
        case 1:
            if (scheduled + mine.size() >= cap) break;
            es->schedule(c.draw(1), k_time_ms(1 + c.draw(10)), Event::Data(float(1)));
            NOTE(c, "schedule");
            ++scheduled;
            break;
        case 2:
            if (scheduled + mine.size() >= cap) break;
            mine.push_back(es->event(0, k_time_ms(1 + c.draw(10))));
            CHECK(mine.back(), "no event although there is capacity");
            seen.push_back(mine.back());
            NOTE(c, "obtain");
            break;
        case 3:
            if (mine.empty()) break;
            if (c.coin()) {
                NOTE(c, "drop");
                mine.pop_back();
            } else {
                NOTE(c, "schedule obtained");
                es->schedule(std::move(mine.back()));
                mine.pop_back();
                ++scheduled;
            }
            break;
        case 4:
            advance_ms(c.coin() ? 100 : 5);
            delivered = 0;
            es->loop();
            CHECK(delivered <= int(scheduled), "delivered more than was scheduled");
            scheduled -= delivered;
            NOTE(c, "loop");
            break;
        }
    }
    es.reset();
    for (auto& s : seen) {
        bool is_mine = false;
        for (auto& p : mine)
            is_mine |= p == s.lock();
        CHECK(s.expired() || is_mine, "an event outlives its event system");
    }
    mine.clear();
    for (auto& s : seen)
        CHECK(s.expired(), "an event outlives its event system and its user");
    return ops >= 4;
}
PROP(eventsystem, 2) { balanced(c, [&] { return eventsystem(c); }); }

#endif

} // namespace
