// C14: event capacity is honoured forever, and exhaustion disturbs nothing
#include "events.hpp"

using namespace pbt;

PROP(histories, 60) {
    set_now_ms(gen_uptime(c));
    EventSystem::Config cfg{};
    GIVE(cfg.events_count, size_t(1 + c.draw(3)));
    GIVE(cfg.events_cap, size_t(1 + c.draw(c.chance(1, 5) ? 40 : 5)));
    GIVE(cfg.handler_cap, size_t(1 + c.draw(3)));
    NOTE(c, "EventSystem(" << cfg.events_cap << " events, " << cfg.handler_cap << " handlers)");
    EventWorld w(c, cfg);
    for (size_t i = 0; i < 5; ++i)
        w.new_handler();
    size_t surplus = 0;
    const auto attach = [&] {
        const auto id = w.gen_id();
        const auto h = c.below(w.handlers.size());
        auto& a = w.attached[id];
        if (std::find(a.begin(), a.end(), h) != a.end()) return;
        if (a.size() == cfg.handler_cap) ++surplus;
        w.attach(id, h);
    };
    attach();
    const auto id_to_use = [&]() -> size_t { return debug_build ? w.gen_heard_id().value_or(0) : w.gen_id(); };
    size_t chain = 0, nested_refusals = 0;
    const bool greedy = c.coin(); // handlers ask for events as well
    w.in_handler = [&](EventWorld::Handler&) {
        if (!greedy || chain > 100) return;
        for (auto n = c.draw(2); n > 0; --n) {
            ++chain;
            const auto before = w.refused;
            switch (c.draw(3)) {
            case 0:
            case 1: w.schedule(id_to_use(), w.gen_delay(), Payload::draw(c)); break;
            case 2: w.obtain(id_to_use(), w.gen_delay(), Payload::draw(c)); break;
            default:
                if (w.going_on.size() < 5)
                    if (const auto id = w.gen_heard_id()) w.trigger(*id, Payload::draw(c));
            }
            nested_refusals += w.refused - before;
        }
    };
    c.scale();
    const auto weights = c.swarm(9);
    size_t refused_while_pending = 0;
    while (c.more()) {
        const auto before = w.refused;
        switch (c.weighted(weights)) {
        case 0:
        case 1: w.schedule(id_to_use(), w.gen_delay(), Payload::draw(c)); break;
        case 2: {
            for (auto n = c.draw(cfg.events_cap + 1); n > 0; --n)
                w.schedule(id_to_use(), w.gen_delay(), Payload::draw(c));
            break;
        }
        case 3: w.obtain(id_to_use(), w.gen_delay(), Payload::draw(c)); break;
        case 4:
            if (!w.kept.empty() && c.chance(1, 3)) {
                w.let_go(c.below(w.kept.size()), c.coin());
            } else if (!w.held.empty()) {
                if (c.coin())
                    w.schedule_held(c.below(w.held.size()));
                else
                    w.drop_held(c.below(w.held.size()));
            }
            break;
        case 5:
            if (const auto id = w.gen_heard_id()) w.trigger(*id, Payload::draw(c));
            break;
        case 6: attach(); break;
        case 7: w.pass_time(); break;
        default:
            chain = 0;
            w.loop();
        }
        if (w.refused > before && !w.pending.empty()) ++refused_while_pending;
    }
    w.in_handler = nullptr;
    // the places are all there still
    NOTE(c, "empty and fill");
    w.held.clear();
    w.kept.clear();
    if (!w.pending.empty()) set_now_ms(std::max(now_ms(), w.pending.back().due));
    w.loop();
    CHECK(w.pending.empty(), "events are left");
    for (size_t i = 0; i < cfg.events_cap; ++i)
        CHECK(w.obtain(0, 1, {}), "event " << i << " of " << cfg.events_cap << " can not be obtained any more");
    CHECK(!w.obtain(0, 1, {}), "more events than configured");
    w.held.clear();
    if (w.delivered >= cfg.events_cap * 2) c.label("places reused");
    if (refused_while_pending) c.label("refused while events are pending");
    if (nested_refusals) c.label("refused within a handler");
    if (surplus) c.label("surplus handlers");
    if (w.refused && w.delivered) c.nontrivial();
}

// thousands of events, one after another
PROP(forever, 10) {
    EventSystem::Config cfg{};
    GIVE(cfg.events_count, size_t(2));
    GIVE(cfg.events_cap, size_t(1 + c.draw(8)));
    GIVE(cfg.handler_cap, size_t(1));
    EventWorld w(c, cfg);
    w.attach(0, w.new_handler());
    w.attach(1, 0);
    const auto rounds = c.chance(1, 1500) ? 66000 / (cfg.events_cap) : 50 + c.draw(250);
    if (rounds > 300) c.label("more than 65536 events");
    const auto hold = rounds > 300 ? 0 : c.below(cfg.events_cap); // held all the time
    c.narrate = false;
    for (size_t i = 0; i < hold; ++i)
        CHECK(w.obtain(1, 1, {}), "an event of " << cfg.events_cap);
    for (size_t r = 0; r < rounds; ++r) {
        const auto n = cfg.events_cap - hold;
        for (size_t i = 0; i < n; ++i)
            CHECK(w.schedule(i % 2, int64_t(1 + (i * 7 + r) % 5), {2, int64_t(r)}), "event refused in round " << r);
        advance_ms(rounds > 300 ? int64_t(r % 5) : int64_t(c.draw(6)));
        w.loop();
        advance_ms(5);
        w.loop();
        CHECK(w.pending.empty(), "events are left in round " << r);
    }
    c.nontrivial();
}

// a store of very many events, all of them held, some of them scheduled
PROP(large_stores, 1) {
    struct Counter : EventHandler {
        using EventHandler::EventHandler;
        void handle_event(const Event& e) override { seen.push_back(e.data().unsigned_value()); }
        std::vector<uint32_t> seen;
    };
    // either as many kinds of event, or as many events of one kind
    const bool many_kinds = c.chance(1, 4);
    const auto kinds = many_kinds ? gen_large(c) : size_t(1);
    const auto cap = many_kinds ? size_t(3 + c.draw(60)) : gen_large(c);
    const auto id = int(kinds - 1 - c.below(std::min<size_t>(kinds, 3)));
    NOTE(c, "EventSystem(" << cap << " events, " << kinds << " kinds), using " << id);
    EventSystem::Config cfg{};
    GIVE(cfg.events_count, size_t(kinds));
    GIVE(cfg.events_cap, size_t(cap));
    GIVE(cfg.handler_cap, size_t(1));
    EventSystem sys(cfg);
    Counter counter(&sys);
    sys.attach(id, &counter);
    std::vector<std::shared_ptr<Event>> held;
    for (auto rounds = 1 + c.draw(cap < 5000 ? 1 : 0); rounds > 0; --rounds) {
        held.reserve(cap);
        for (size_t i = 0; i < cap; ++i) {
            held.push_back(sys.event(id, k_time_ms(1 + i % 3), Event::Data(uint32_t(i))));
            CHECK(held.back(), "event " << i << " of " << cap << " is refused");
        }
        if (!debug_build) CHECK(!sys.event(id, k_time_ms(1)), "more events than " << cap);
        for (size_t i = 0; i < cap; ++i)
            CHECK_EQ(held[i]->data().unsigned_value(), uint32_t(i), "data of an event held is changed");
        const auto before = counter.seen.size();
        const auto first = c.below(cap), second = (first + 1 + c.below(cap - 2)) % cap, third = first == cap - 1 ? second : cap - 1;
        std::vector<size_t> scheduled{first};
        if (second != first) scheduled.push_back(second);
        if (third != first && third != second) scheduled.push_back(third);
        for (const auto i : scheduled)
            sys.schedule(std::move(held[i]));
        held.clear();
        std::stable_sort(scheduled.begin(), scheduled.end(), [](size_t a, size_t b) { return a % 3 < b % 3; });
        for (int i = 0; i < 3; ++i) {
            advance_ms(1);
            sys.loop();
        }
        CHECK_EQ(counter.seen.size() - before, scheduled.size(), "events delivered");
        for (size_t i = 0; i < scheduled.size(); ++i)
            CHECK_EQ(counter.seen[before + i], uint32_t(scheduled[i]), "event delivered");
    }
    c.label(cap > 65535 ? "more than 65535 events" : many_kinds ? "many kinds" : "64+ events");
    c.nontrivial();
}

// as many handlers for an event as are configured, each of them called
PROP(many_handlers, 2) {
    EventSystem::Config cfg{};
    GIVE(cfg.events_count, size_t(1 + c.draw(2)));
    GIVE(cfg.events_cap, size_t(1 + c.draw(2)));
    GIVE(cfg.handler_cap, size_t(1 + c.draw(c.chance(1, 8) ? 300 : 40)));
    NOTE(c, "EventSystem(" << cfg.events_cap << " events, " << cfg.handler_cap << " handlers)");
    EventWorld w(c, cfg);
    const auto surplus = c.draw(2);
    for (size_t i = 0; i < cfg.handler_cap + surplus; ++i)
        w.new_handler();
    for (size_t id = 0; id < cfg.events_count; ++id) {
        const auto n = c.coin() ? w.handlers.size() : c.draw(w.handlers.size());
        const auto first = c.below(w.handlers.size());
        for (size_t i = 0; i < n; ++i)
            w.attach(id, (first + i) % w.handlers.size());
    }
    for (auto n = 1 + c.draw(3); n > 0; --n) {
        if (const auto id = w.gen_heard_id()) {
            if (c.coin())
                w.trigger(*id, Payload::draw(c));
            else
                w.schedule(*id, 1 + int64_t(c.draw(3)), Payload::draw(c));
        }
        if (c.coin()) {
            advance_ms(int64_t(c.draw(4)));
            w.loop();
        }
    }
    advance_ms(5);
    w.loop();
    if (w.delivered) c.nontrivial();
    if (cfg.handler_cap >= 64) c.label("64+ handlers");
}

// two of them at once have nothing in common
PROP(two_systems, 5) { twins(c, [&] { prop_histories(c); }); }
