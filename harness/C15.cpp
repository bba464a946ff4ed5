// C15: between ticks the event loop sleeps exactly as long as configured
#include "events.hpp"

using namespace pbt;

namespace {

EventSystem::Config config(Ctx& c, bool delay) {
    EventSystem::Config cfg{};
    GIVE(cfg.events_count, size_t(1 + c.draw(3)));
    GIVE(cfg.events_cap, size_t(1 + c.draw(c.chance(1, 5) ? 40 : 8)));
    GIVE(cfg.handler_cap, size_t(2));
    cfg.delay_between_ticks = delay;
    if (!c.chance(1, 4)) { // else: the defaults
        GIVE(cfg.min_delay_between_ticks, k_time_ms(c.chance(1, 3) ? 1 + c.draw(9) : c.nasty(1, 100000)));
        GIVE(cfg.max_delay_between_ticks, k_time_ms(c.chance(1, 3) ? 1 + c.draw(9) : c.nasty(1, 100000)));
    }
    NOTE(c, "at " << now_ms() << ": EventSystem(" << cfg.events_cap << " events, "
                  << (delay ? "sleeps " + std::to_string(k_time_ms(cfg.min_delay_between_ticks).raw()) + " to " +
                                  std::to_string(k_time_ms(cfg.max_delay_between_ticks).raw()) + " ms"
                            : std::string("does not sleep"))
                  << ")");
    return cfg;
}
int64_t clock_us() { return HAL::micros().raw(); }

} // namespace

PROP(sleeps, 3) {
    set_now_ms(gen_uptime(c));
    const auto cfg = config(c, !c.chance(1, 5));
    EventWorld w(c, cfg);
    w.attach(0, w.new_handler());
    for (size_t id = 1; id < cfg.events_count; ++id)
        w.attach(id, c.coin() ? 0 : w.new_handler());
    const bool busy = c.coin(), slow = c.chance(1, 3);
    size_t chain = 0;
    int64_t worked = 0; // us, by handlers
    w.in_handler = [&](EventWorld::Handler&) {
        if (slow) {
            const auto us = int64_t(c.draw(3) * 1000 + (c.coin() ? c.draw(999) : 0));
            HAL::delay_us(k_time_us(us));
            worked += us;
        }
        if (busy && chain < 100 && w.used() < cfg.events_cap && c.coin()) {
            ++chain;
            w.schedule(w.gen_id(), w.gen_delay(), {});
        }
    };
    c.scale();
    size_t idle = 0, until_due = 0, capped = 0, none = 0;
    const auto weights = c.swarm(5);
    while (c.more()) {
        switch (c.weighted(weights)) {
        case 0:
        case 1:
            if (w.used() < cfg.events_cap) w.schedule(w.gen_id(), w.gen_delay(), {});
            break;
        case 2: w.pass_time(); break;
        default: {
            const auto before = clock_us();
            worked = 0;
            chain = 0;
            w.loop();
            // what is pending now was pending when it went to sleep
            const auto slept = clock_us() - before - worked;
            const auto at = (before + worked) / 1000;
            int64_t expected = 0;
            if (!cfg.delay_between_ticks)
                ++none;
            else if (w.pending.empty()) {
                expected = k_time_us(cfg.min_delay_between_ticks).raw();
                ++idle;
            } else {
                const auto until = std::max<int64_t>(0, w.pending.front().due - at);
                const auto max = k_time_ms(cfg.max_delay_between_ticks).raw();
                expected = std::min(until, max) * 1000;
                if (until > max)
                    ++capped;
                else
                    ++until_due;
            }
            CHECK_EQ(slept, expected, "us slept in a loop run that leaves " << w.pending.size() << " events");
        }
        }
    }
    if (idle) c.label("idle");
    if (until_due) c.label("until the next is due");
    if (capped) c.label("no longer than the maximum");
    if (none) c.label("delays disabled");
    if (idle + until_due + capped + none >= 2 && w.delivered) c.nontrivial();
}

// nothing but the loop runs: each event is delivered at the very millisecond that it is due
PROP(punctual, 2) {
    set_now_ms(gen_uptime(c));
    auto cfg = config(c, true);
    EventWorld w(c, cfg);
    for (size_t id = 0; id < cfg.events_count; ++id)
        w.attach(id, w.new_handler());
    size_t budget = c.draw(40);
    w.in_handler = [&](EventWorld::Handler&) {
        for (auto n = c.draw(2); n > 0 && budget > 0 && w.used() < cfg.events_cap; --n, --budget)
            w.schedule(w.gen_id(), 1 + int64_t(c.draw(400)), {});
    };
    for (auto n = 1 + c.draw(8); n > 0 && w.used() < cfg.events_cap; --n)
        w.schedule(w.gen_id(), 1 + int64_t(c.draw(c.coin() ? 20 : 3000)), {});
    size_t total = 0;
    for (int i = 0; i < 4000 && !w.pending.empty(); ++i) {
        const auto first = w.pending.front().due;
        const auto n = w.delivered;
        const auto start = now_ms();
        w.loop();
        if (w.delivered > n) {
            CHECK_EQ(start, first, "moment of delivery of an event");
            total += w.delivered - n;
        }
        CHECK(w.pending.empty() || now_ms() > start, "the loop neither sleeps nor delivers");
    }
    if (total >= 2) c.nontrivial();
}
