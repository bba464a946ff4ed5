// C13: every scheduled event fires exactly once, on time, in order, to all handlers
#include "events.hpp"

using namespace pbt;

PROP(histories, 12) {
    set_now_ms(gen_uptime(c));
    EventSystem::Config cfg{};
    GIVE(cfg.events_count, size_t(1 + c.draw(c.chance(1, 25) ? 400 : c.chance(1, 6) ? 20 : 3)));
    const auto size = c.draw(9);
    GIVE(cfg.events_cap, size_t(size == 0 ? 200 + c.draw(c.chance(1, 8) ? 1200 : 200) : size < 4 ? 1 + c.draw(60) : 1 + c.draw(12)));
    GIVE(cfg.handler_cap, size_t(1 + c.draw(c.chance(1, 6) ? 60 : 4)));
    cfg.delay_between_ticks = c.chance(1, 4);
    NOTE(c, "at " << now_ms() << ": EventSystem(" << cfg.events_count << " ids, " << cfg.events_cap << " events"
                  << (cfg.delay_between_ticks ? ", with delays" : "") << ")");
    EventWorld w(c, cfg);
    const auto nh = 1 + c.draw(cfg.handler_cap > 5 ? 9 : 3);
    for (size_t i = 0; i < nh; ++i)
        w.new_handler();
    const auto attach_some = [&] {
        const auto id = w.gen_id();
        const auto h = c.below(w.handlers.size());
        auto& a = w.attached[id];
        // a handler that is attached twice is called twice
        const auto again = c.chance(1, 3);
        for (auto n = again && cfg.handler_cap > 5 ? 1 + c.draw(cfg.handler_cap) : 1; n > 0; --n)
            if (a.size() < cfg.handler_cap && (again || std::find(a.begin(), a.end(), h) == a.end())) w.attach(id, h);
    };
    for (auto n = c.draw(2 + cfg.events_count); n > 0; --n)
        attach_some();
    attach_some();
    const bool busy = c.coin(); // handlers schedule events
    const bool slow = c.chance(1, 5); // handlers take time
    const bool nests = c.chance(1, 4); // handlers run the loop
    size_t chain = 0, let_go = 0, nested_loops = 0, attached_within = 0;
    const auto id_to_use = [&]() -> size_t {
        // in a debug build, an event that nobody listens to is an error
        return debug_build ? w.gen_heard_id().value_or(0) : w.gen_id();
    };
    w.in_handler = [&](EventWorld::Handler&) {
        if (slow && c.chance(1, 3)) advance_ms(int64_t(c.draw(5)));
        if (nests && w.loops < 4 && c.chance(1, 10)) { // waits for something
            ++nested_loops;
            if (c.coin()) w.pass_time();
            w.loop();
        }
        if (busy && c.chance(1, 16)) { // one more handler, for an event that is not being delivered
            const auto id = w.gen_id();
            auto& a = w.attached[id];
            if (a.size() < cfg.handler_cap && std::none_of(w.going_on.begin(), w.going_on.end(), [&](auto& g) { return g.id == id; })) {
                w.attach(id, c.below(w.handlers.size()));
                ++attached_within;
            }
        }
        if (!busy || chain > 200) return;
        for (auto n = c.weighted({6, 3, 1}); n > 0 && w.used() < cfg.events_cap; --n) {
            ++chain;
            ++w.from_handlers;
            if (!w.held.empty() && c.coin())
                w.schedule_held(c.below(w.held.size()));
            else
                w.schedule(id_to_use(), w.gen_delay(), Payload::draw(c));
        }
        if (c.chance(1, 8) && w.used() < cfg.events_cap && w.going_on.size() < 4)
            if (const auto id = w.gen_heard_id()) w.trigger(*id, Payload::draw(c));
    };
    c.scale();
    const auto weights = c.swarm(12);
    size_t loops = 0, loops_after_gap = 0;
    while (c.more()) {
        switch (c.weighted(weights)) {
        case 0:
        case 1:
        case 2:
            if (w.used() < cfg.events_cap) w.schedule(id_to_use(), w.gen_delay(), Payload::draw(c));
            break;
        case 3: { // a burst
            const auto n = c.draw(cfg.events_cap > 400 ? cfg.events_cap : std::min<size_t>(cfg.events_cap, 40));
            for (size_t i = 0; i < n && w.used() < cfg.events_cap; ++i)
                w.schedule(id_to_use(), w.gen_delay(), Payload::draw(c));
            break;
        }
        case 4:
            if (w.used() < cfg.events_cap) w.obtain(id_to_use(), w.gen_delay(), Payload::draw(c));
            break;
        case 5:
            if (!w.held.empty()) w.schedule_held(c.below(w.held.size()));
            break;
        case 6:
            if (!w.kept.empty() && c.coin()) {
                w.let_go(c.below(w.kept.size()), c.coin());
                ++let_go;
            } else if (!w.held.empty()) {
                if (c.coin())
                    w.drop_held(c.below(w.held.size()));
                else if (!w.attached[w.held[0].id].empty())
                    w.trigger_held(0);
            }
            break;
        case 7: attach_some(); break;
        case 8:
        case 9: w.pass_time(); break;
        case 10:
            if (const auto id = w.gen_heard_id(); id && w.used() < cfg.events_cap) w.trigger(*id, Payload::draw(c));
            break;
        default: {
            const auto before = w.delivered;
            chain = 0;
            w.loop();
            ++loops;
            if (w.delivered > before + 1) ++loops_after_gap;
            break;
        }
        }
    }
    // everything left is delivered in the end, and then nothing more
    w.in_handler = nullptr;
    while (!w.held.empty())
        w.schedule_held(0);
    for (int i = 0; i < 3 && !w.pending.empty(); ++i) {
        set_now_ms(std::max(now_ms(), w.pending[c.below(w.pending.size())].due));
        w.loop();
    }
    if (!w.pending.empty()) set_now_ms(std::max(now_ms(), w.pending.back().due));
    w.loop();
    CHECK(w.pending.empty(), "events were never delivered");
    advance_ms(1ll << 40);
    w.loop();
    if (nested_loops) c.label("loop within a handler");
    if (attached_within) c.label("handler attached by a handler");
    if (let_go) c.label("a copy was kept");
    if (w.ties) c.label("due at the same time");
    if (w.from_handlers) c.label("scheduled by handlers");
    if (w.peak > 20) c.label("20+ pending");
    if (loops_after_gap) c.label("several due in one loop run");
    for (auto& a : w.attached)
        if (a.size() > 1) {
            c.label("several handlers");
            if (a.size() > 10) c.label("10+ handlers");
            break;
        }
    if (w.delivered >= 3 && w.peak >= 2) c.nontrivial();
}

// two of them at once have nothing in common
PROP(two_systems, 1) { twins(c, [&] { prop_histories(c); }); }
