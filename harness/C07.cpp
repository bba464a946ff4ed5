// C07: stack is last-in first-out
#include "pbt.hpp"

#include "spine/structure/stack.hpp"

using namespace pbt;
using spn::structure::Stack;

namespace {

struct Rec {
    int id;
    char pad[7];
    bool operator==(const Rec& o) const { return id == o.id && pad[6] == o.pad[6]; }
};
std::ostream& operator<<(std::ostream& os, const Rec& w) { return os << w.id; }

template<typename T>
T make(int id) {
    if constexpr (std::is_same_v<T, Rec>)
        return Rec{id, {0, 0, 0, 0, 0, 0, char(id)}};
    else if constexpr (std::is_same_v<T, std::shared_ptr<int>>)
        return std::make_shared<int>(id);
    else if constexpr (std::is_same_v<T, std::string>) // some fit into the object itself, some do not
        return std::to_string(id) + std::string(id % 3 ? 0 : 24 + id % 9, char('a' + id % 26));
    else
        return static_cast<T>(id);
}

template<typename T>
void history(Ctx& c) {
    const auto cap = c.draw(c.chance(1, 8) ? 60 : 7);
    NOTE(c, "Stack(" << cap << ")");
    Stack<T> s(cap);
    std::vector<T> m;
    int next = 1;
    c.scale();
    const auto w = c.swarm(5);
    bool full = false, modified = false;
    int pops = 0;
    while (c.more()) {
        switch (c.weighted(w)) {
        case 0:
        case 1: {
            auto v = make<T>(next++);
            const auto kept = v;
            const bool emplace = c.coin();
            NOTE(c, (emplace ? "emplace " : "push ") << next - 1);
            const auto t = thrown_by([&] {
                if (emplace)
                    s.emplace(std::move(v));
                else
                    s.push(v);
            });
            if (m.size() < cap) {
                CHECK(!t, "push reports " << t->what);
                m.push_back(kept);
            } else {
                full = true;
                CHECK_EQ(t.has_value(), debug_build, "push onto a full stack is asserted");
            }
            break;
        }
        case 2:
        case 3:
            if (m.empty()) {
                if (debug_build) CHECK(thrown_by([&] { s.pop(); }), "pop of an empty stack is not asserted");
                break;
            }
            NOTE(c, "pop");
            s.pop();
            m.pop_back();
            ++pops;
            break;
        case 4:
            if (m.empty()) break;
            s.top() = make<T>(next++);
            m.back() = s.top();
            NOTE(c, "top = " << next - 1);
            modified = true;
            break;
        }
        CHECK_EQ(s.size(), m.size(), "size");
        CHECK_EQ(s.empty(), m.empty(), "empty");
        if (!m.empty()) CHECK(s.top() == m.back(), "top is not the most recent element");
    }
    if (m.size() >= 2 && pops >= 1) c.nontrivial();
    if (full) c.label("full");
    if (modified) c.label("top modified");
    // and all the way down
    while (!m.empty()) {
        CHECK(s.top() == m.back(), "top on the way down, at " << m.size());
        s.pop();
        m.pop_back();
        CHECK_EQ(s.size(), m.size(), "size on the way down");
    }
    CHECK(s.empty(), "empty in the end");
}

PROP(ints, 150) { history<int>(c); }
PROP(records, 100) { history<Rec>(c); }
PROP(shared, 100) { history<std::shared_ptr<int>>(c); }
PROP(strings, 80) { history<std::string>(c); }
PROP(large, 1) {
    const auto cap = gen_large(c);
    NOTE(c, "Stack(" << cap << ")");
    Stack<int> s(cap);
    std::vector<int> m;
    int next = 1;
    for (auto steps = 2 + c.draw(6); steps > 0; --steps) {
        if (c.draw(2)) {
            const auto n = gen_part(c, cap - m.size());
            NOTE(c, "push " << n);
            for (size_t i = 0; i < n; ++i, ++next) {
                if (next % 2)
                    s.push(next);
                else
                    s.emplace(int(next));
                m.push_back(next);
                CHECK_EQ(s.top(), next, "top");
            }
        } else {
            const auto n = gen_part(c, m.size());
            NOTE(c, "pop " << n);
            for (size_t i = 0; i < n; ++i) {
                CHECK_EQ(s.top(), m.back(), "top");
                s.pop();
                m.pop_back();
            }
        }
        CHECK_EQ(s.size(), m.size(), "size");
        CHECK_EQ(s.empty(), m.empty(), "empty");
        if (!m.empty()) CHECK_EQ(s.top(), m.back(), "top");
    }
    c.label("large");
    if (next > 100) c.nontrivial();
}

} // namespace

// two of them at once have nothing in common
PROP(two_stacks, 10) { twins(c, [&] { history<int>(c); }); }
