// C16: the pipeline keeps futures in chronological order and reports them truthfully
#include "timerepr.hpp"

#include "spine/eventsystem/pipeline.hpp"

using namespace pbt;
using spn::eventsystem::Future;
using spn::eventsystem::Pipeline;

namespace {

struct Entry {
    int64_t due;
    std::shared_ptr<Future> f;
    int64_t delay;
};

} // namespace

PROP(histories, 12) {
    switch (c.draw(3)) {
    case 0:
    case 1: break;
    case 2: set_now_ms((1ll << 32) - int64_t(c.draw(50))); break;
    default: set_now_ms(c.nasty(0, 1ll << 41));
    }
    const size_t cap = 1 + c.draw(c.chance(1, 40) ? 700 : c.chance(1, 4) ? 150 : 8);
    const bool by_default = c.chance(1, 8);
    const size_t room = by_default ? 128 : cap;
    auto pp = by_default ? std::make_unique<Pipeline>() : std::make_unique<Pipeline>(cap);
    auto& p = *pp;
    NOTE(c, "at " << now_ms() << ": Pipeline(" << room << ")");
    std::deque<Entry> m;
    std::vector<std::shared_ptr<Future>> idle; // not in the pipeline
    std::map<const Future*, int64_t> delays;
    size_t ties = 0, expired = 0, again = 0, texts = 0, peak = 0, overdue = 0;
    const auto check = [&] {
        CHECK_EQ(p.contains_futures(), !m.empty(), "contains_futures");
        CHECK_EQ(p.contains_expired_futures(), !m.empty() && m.front().due <= now_ms(), "contains_expired_futures at " << now_ms());
        const auto until = m.empty() ? 0 : std::max<int64_t>(0, m.front().due - now_ms());
        CHECK_EQ(p.time_until_next_future().raw(), until, "time_until_next_future");
        if (!m.empty() && m.front().due < now_ms()) ++overdue;
        if (m.size() > 1) {
            const auto &a = c.pick_from(m), &b = c.pick_from(m);
            CHECK_EQ(*a.f < *b.f, a.due < b.due, "a future due at " << a.due << " is before one due at " << b.due);
            CHECK_EQ(*a.f == *b.f, a.due == b.due, "a future due at " << a.due << " is due with one due at " << b.due);
        }
    };
    const auto gen_delay = [&]() -> int64_t {
        if (!debug_build && c.chance(1, 12)) return 0; // due at once; an error in a debug build
        switch (c.draw(4)) {
        case 0:
        case 1: return c.range(1, 5);
        case 2: return c.range(1, 3000);
        case 3: return c.nasty(1, 1ll << 38);
        default: {
            if (m.empty()) return 1;
            const auto d = c.pick_from(m).due - now_ms();
            return d > 0 ? d : 1;
        }
        }
    };
    const auto push = [&](std::shared_ptr<Future> f) {
        const auto delay = delays[f.get()];
        const auto due = now_ms() + delay;
        auto it = std::upper_bound(m.begin(), m.end(), due, [](int64_t d, const Entry& e) { return d < e.due; });
        if (it != m.begin() && std::prev(it)->due == due) ++ties;
        m.insert(it, {due, f, delay});
        peak = std::max(peak, m.size());
        p.push(std::move(f));
    };
    check();
    if (cap > 150 && c.coin()) { // a lot of them at once
        const auto n = room - c.below(std::min<size_t>(room, 20));
        const auto step = c.range(0, 9);
        NOTE(c, "push " << n << " with delays of multiples of " << step << " ms up to 5000");
        for (size_t i = 0; i < n; ++i) {
            auto f = std::make_shared<Future>(k_time_ms(1 + int64_t(i * 37) * step % 5000));
            delays[f.get()] = 1 + int64_t(i * 37) * step % 5000;
            push(std::move(f));
        }
        check();
    }
    c.scale();
    const auto w = c.swarm(8);
    while (c.more()) {
        switch (c.weighted(w)) {
        case 0:
        case 1:
        case 2: {
            if (m.size() == room) {
                if (debug_build) {
                    NOTE(c, "push to full");
                    CHECK(thrown_by([&] { p.push(std::make_shared<Future>(k_time_ms(5))); }), "pushing to a full pipeline is not asserted");
                }
                break;
            }
            const auto d = gen_delay();
            NOTE(c, "push " << d);
            auto f = d == 0 && c.coin() ? std::make_shared<Future>() : std::make_shared<Future>(k_time_ms(d));
            delays[f.get()] = d;
            if (c.chance(1, 4)) { // it waits before it is pushed
                idle.push_back(f);
                NOTE(c, "later");
                break;
            }
            push(std::move(f));
            break;
        }
        case 3:
            if (m.size() < room && !idle.empty()) {
                const auto i = c.below(idle.size());
                auto f = std::move(idle[i]);
                idle.erase(idle.begin() + i);
                NOTE(c, "push one of " << delays[f.get()] << " that waited");
                ++again;
                push(std::move(f));
            }
            break;
        case 4:
            if (!idle.empty()) {
                auto& f = c.pick_from(idle);
                const auto d = c.chance(1, 4) ? 0 : gen_delay();
                NOTE(c, "reschedule from " << delays[f.get()] << " to " << d);
                f->reschedule(k_time_ms(d));
                if (d) delays[f.get()] = d;
                CHECK_EQ(f->future().raw(), now_ms() + delays[f.get()], "due time of a rescheduled future");
                CHECK_EQ(f->time_until_future().raw(), delays[f.get()], "time until a rescheduled future");
                CHECK_EQ(f->expired(), delays[f.get()] == 0, "a rescheduled future is expired");
            }
            break;
        case 5: {
            int64_t dt;
            switch (c.draw(3)) {
            case 0: dt = int64_t(c.draw(4)); break;
            case 1: dt = m.empty() ? 1 : std::max<int64_t>(0, c.pick_from(m).due - now_ms() - int64_t(c.draw(1))); break;
            case 2: {
                HAL::delay_us(k_time_us(c.draw(2500)));
                dt = 0;
                break;
            }
            default: dt = c.nasty(0, 1ll << 38); break;
            }
            NOTE(c, dt << " ms pass");
            advance_ms(dt);
            break;
        }
        case 6: {
            if (!p.contains_expired_futures()) {
                if (debug_build && m.empty()) CHECK(thrown_by([&] { (void)p.expire(); }), "expiring from an empty pipeline is not asserted");
                break;
            }
            NOTE(c, "expire");
            const auto f = p.expire();
            CHECK(!m.empty() && f == m.front().f, "another future expired than the first one due");
            CHECK_EQ(f->future().raw(), m.front().due, "due time of an expired future");
            CHECK_EQ(f->time_until_future().raw(), m.front().due - now_ms(), "time until an expired future");
            CHECK(f->expired(), "an expired future says that it is not");
            m.pop_front();
            ++expired;
            if (c.coin()) idle.push_back(f);
            break;
        }
        default: {
            if (!m.empty() && m.front().due < now_ms()) break; // negative durations have no defined text
            std::string expected = "Pipeline: [";
            for (size_t i = 0; i < m.size(); ++i)
                expected += (i ? ", " : "") + expected_repr(m[i].due - now_ms(), 1000);
            NOTE(c, "to_string");
            CHECK_EQ(p.to_string(), expected + "]", "to_string");
            if (m.size() > 1) ++texts;
        }
        }
        check();
    }
    for (auto& e : m) {
        set_now_ms(std::max(now_ms(), e.due));
        CHECK(p.contains_expired_futures() && p.expire() == e.f, "future at the end");
    }
    m.clear();
    check();
    if (ties) c.label("due at the same time");
    if (again) c.label("pushed some time after creation");
    if (texts) c.label("text of several");
    if (peak > 20) c.label("20+ futures");
    if (peak > 255) c.label("256+ futures");
    if (overdue) c.label("overdue");
    if (peak >= 2 && expired) c.nontrivial();
}

// two of them at once have nothing in common
PROP(two_pipelines, 1) { twins(c, [&] { prop_histories(c); }); }
