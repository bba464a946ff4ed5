// A model of the event system: what is pending, and who hears of it
#pragma once
#include "pbt.hpp"

#include "spine/eventsystem/eventsystem.hpp"

namespace pbt {

using spn::core::Event;
using spn::core::EventHandler;
using spn::core::EventSystem;

/// What an event carries
struct Payload {
    int kind = 0; // nothing, float, unsigned, ms, s
    int64_t v = 0;

    Event::Data data() const {
        switch (kind) {
        case 1: return Event::Data(static_cast<float>(v) / 4);
        case 2: return Event::Data(static_cast<uint32_t>(v));
        case 3: return Event::Data(k_time_ms(v));
        case 4: return Event::Data(k_time_s(v));
        default: return {};
        }
    }
    bool is(const Event::Data& d) const {
        if (d.has_value() != (kind != 0)) return false;
        switch (kind) {
        case 1: return d.value() == static_cast<float>(v) / 4;
        case 2: return d.unsigned_value() == static_cast<uint32_t>(v);
        case 3: return d.ms().raw() == v;
        case 4: return d.s().raw() == v;
        // without the checks of a debug build, no data reads as nothing
        default: return debug_build || (d.value() == 0 && d.unsigned_value() == 0 && d.ms().raw() == 0 && d.s().raw() == 0);
        }
    }
    static Payload draw(Ctx& c) {
        Payload p;
        p.kind = int(c.draw(4));
        p.v = p.kind == 2 ? c.nasty(0, UINT32_MAX) : p.kind == 1 ? c.range(-1000, 1000) : p.kind ? c.nasty(-1000000, 1ll << 40) : 0;
        return p;
    }
};

class EventWorld {
public:
    struct Pending {
        int64_t due;
        uint64_t seq;
        size_t id;
        Payload data;
    };
    struct Held {
        std::shared_ptr<Event> event;
        size_t id;
        int64_t delay;
        Payload data;
        uint64_t seq = UINT64_MAX; // when it was last scheduled
    };
    struct Handler : EventHandler {
        EventWorld& w;
        size_t no;
        Handler(EventWorld& world, size_t n) : EventHandler(nullptr), w(world), no(n) {}
        void handle_event(const Event& e) override { w.on_event(*this, e); }
    };

    Ctx& c;
    EventSystem::Config cfg;
    std::unique_ptr<EventSystem> sys;
    std::vector<std::unique_ptr<Handler>> handlers;
    std::vector<std::vector<size_t>> attached; // per id, in order
    std::vector<Pending> pending; // sorted by due time and sequence
    std::vector<Held> held;
    std::vector<Held> kept; // copies of what was scheduled
    uint64_t seq = 0;
    size_t delivered = 0, refused = 0, from_handlers = 0, ties = 0, peak = 0, triggered = 0;

    // the delivery that is going on
    struct Delivery {
        size_t id;
        Payload data;
        size_t next_handler; // to be called
        bool from_loop;
        bool slot; // takes a slot of the store
        uint64_t seq = UINT64_MAX;
    };
    std::vector<Delivery> going_on;
    size_t floor = 0; // of `going_on`: what is below was going on when the loop that runs now was called
    size_t loops = 0; // that run, within each other
    int64_t last_delivery_time = INT64_MIN;
    int64_t looked_at = 0; // when the loop last looked for events that are due
    std::function<void(Handler&)> in_handler; // what a handler does besides
    std::function<void()> on_delivery; // called as a delivery from the loop begins

    EventWorld(Ctx& ctx, EventSystem::Config config) : c(ctx), cfg(config), attached(config.events_count) {
        sys = std::make_unique<EventSystem>(cfg);
    }

    size_t used() const {
        size_t n = pending.size() + held.size();
        for (auto& g : going_on)
            n += g.slot;
        for (auto& k : kept)
            n += is_over(k);
        return n;
    }
    /// whether an event that was scheduled has been delivered
    bool is_over(const Held& k) const {
        for (auto& p : pending)
            if (p.seq == k.seq) return false;
        for (auto& g : going_on)
            if (g.seq == k.seq) return false;
        return true;
    }

    size_t new_handler() {
        handlers.push_back(std::make_unique<Handler>(*this, handlers.size()));
        handlers.back()->attach_event_system(sys.get());
        return handlers.size() - 1;
    }
    void attach(size_t id, size_t h) {
        NOTE(c, "attach handler " << h << " to " << id);
        const bool fits = attached[id].size() < cfg.handler_cap;
        const auto t = thrown_by([&] { sys->attach(id, handlers[h].get()); });
        CHECK_EQ(bool(t), debug_build && !fits, "attaching handler " << attached[id].size() + 1 << " of " << cfg.handler_cap << " is asserted");
        if (fits) attached[id].push_back(h);
    }

    void enqueue(size_t id, int64_t delay, const Payload& data) {
        Pending p{now_ms() + delay, seq++, id, data};
        auto it = std::upper_bound(pending.begin(), pending.end(), p,
                                   [](const Pending& a, const Pending& b) { return a.due < b.due; });
        if (it != pending.begin() && std::prev(it)->due == p.due) ++ties;
        pending.insert(it, p);
        peak = std::max(peak, pending.size());
    }

    /// schedules by id; true if there was place
    bool schedule(size_t id, int64_t delay, const Payload& data) {
        NOTE(c, "schedule " << id << " in " << delay << " ms");
        const bool fits = used() < cfg.events_cap;
        const auto t = thrown_by([&] {
            if (data.kind == 0 && (delay & 1))
                sys->schedule(id, k_time_ms(delay));
            else
                sys->schedule(id, k_time_ms(delay), data.data());
        });
        CHECK_EQ(bool(t), debug_build && !fits, "schedule asserts with " << used() << " of " << cfg.events_cap << " in use"
                                                                         << (t ? ": " + t->what : ""));
        if (fits)
            enqueue(id, delay, data);
        else
            ++refused;
        return fits;
    }
    /// obtains an event; true if there was one
    bool obtain(size_t id, int64_t delay, const Payload& data) {
        NOTE(c, "obtain event " << id << " of " << delay << " ms");
        const bool fits = used() < cfg.events_cap;
        std::shared_ptr<Event> e;
        const auto t = thrown_by([&] { e = sys->event(id, k_time_ms(delay), data.data()); });
        CHECK_EQ(bool(e), fits, "an event is available with " << used() << " of " << cfg.events_cap << " in use");
        CHECK_EQ(bool(t), debug_build && !fits, "event() asserts");
        if (!e) {
            ++refused;
            return false;
        }
        CHECK_EQ(size_t(e->id()), id, "id of an event");
        CHECK(data.is(e->data()), "data of an event");
        for (auto& h : held)
            CHECK(h.event != e, "an event that is held is handed out again");
        for (auto& h : kept)
            CHECK(h.event != e, "an event that is kept is handed out again");
        held.push_back({std::move(e), id, delay, data});
        return true;
    }
    void schedule_held(size_t i) {
        NOTE(c, "schedule held event " << i);
        auto h = std::move(held[i]);
        held.erase(held.begin() + i);
        CHECK(h.event && h.event->id() == h.id && h.data.is(h.event->data()), "a held event changed");
        enqueue(h.id, h.delay, h.data);
        h.seq = seq - 1;
        if (kept.size() < 3 && c.chance(1, 4)) {
            NOTE(c, "(and keep a copy)");
            kept.push_back(h);
        }
        sys->schedule(std::move(h.event));
    }
    /// lets go of a copy, or uses the event again if it was delivered
    void let_go(size_t i, bool again) {
        auto k = std::move(kept[i]);
        kept.erase(kept.begin() + i);
        const bool over = is_over(k);
        NOTE(c, "let go of the copy of event " << k.id << (!over ? ", which is still due" : again ? ", to hold it" : ""));
        CHECK(k.event && k.event->id() == k.id && k.data.is(k.event->data()), "an event that is kept changed");
        if (over && again) held.push_back(std::move(k));
    }
    void drop_held(size_t i) {
        NOTE(c, "drop held event " << i);
        CHECK(held[i].event->id() == held[i].id && held[i].data.is(held[i].event->data()), "a held event changed");
        held.erase(held.begin() + i);
    }
    /// delivers at once
    void trigger(size_t id, const Payload& data) {
        NOTE(c, "trigger " << id);
        const bool fits = used() < cfg.events_cap;
        const bool heard = !attached[id].empty();
        if (fits) going_on.push_back({id, data, 0, false, true});
        const auto t = thrown_by([&] { sys->trigger(id, data.data()); });
        CHECK_EQ(bool(t), debug_build && (!fits || !heard), "trigger asserts" << (t ? ": " + t->what : ""));
        if (!fits) {
            ++refused;
            return;
        }
        CHECK_EQ(going_on.back().next_handler, attached[id].size(), "handlers of a triggered event called");
        going_on.pop_back();
        ++triggered;
    }
    void trigger_held(size_t i) {
        NOTE(c, "trigger held event " << i);
        auto h = std::move(held[i]); // nobody does anything else to it meanwhile
        held.erase(held.begin() + i);
        const auto& e = h.event;
        const auto id = h.id;
        going_on.push_back({id, h.data, 0, false, true});
        const auto t = thrown_by([&] {
            if (c.coin())
                sys->trigger(e);
            else
                sys->trigger(*e);
        });
        CHECK_EQ(bool(t), debug_build && attached[id].empty(), "trigger asserts");
        CHECK_EQ(going_on.back().next_handler, attached[id].size(), "handlers of a triggered event called");
        going_on.pop_back();
        held.insert(held.begin() + std::min(i, held.size()), std::move(h));
        ++triggered;
    }

    void on_event(Handler& h, const Event& e) {
        const bool complete = going_on.size() <= floor || going_on.back().next_handler == attached[going_on.back().id].size();
        if (complete) {
            // a new delivery, by the loop
            CHECK(loops > 0, "handler " << h.no << " is called for event " << e.id() << " outside of the loop");
            finish_loop_delivery();
            begin_loop_delivery();
            CHECK(going_on.size() > floor, "handler " << h.no << " is called for event " << e.id() << ", but nothing is due");
        }
        auto& g = going_on.back();
        CHECK_EQ(size_t(e.id()), g.id, "id of the event delivered");
        CHECK(g.next_handler < attached[g.id].size(), "a handler is called once too often");
        CHECK_EQ(h.no, attached[g.id][g.next_handler], "handler called for event " << g.id);
        CHECK(g.data.is(e.data()), "data of the event delivered");
        ++g.next_handler;
        if (in_handler) in_handler(h);
        looked_at = now_ms();
    }

    void finish_loop_delivery() {
        if (going_on.size() > floor && going_on.back().from_loop) {
            CHECK_EQ(going_on.back().next_handler, attached[going_on.back().id].size(), "handlers called for event " << going_on.back().id);
            going_on.pop_back();
        }
    }
    void begin_loop_delivery() {
        while (!pending.empty() && pending.front().due <= now_ms()) {
            const auto p = pending.front();
            pending.erase(pending.begin());
            ++delivered;
            last_delivery_time = now_ms();
            if (attached[p.id].empty()) continue; // nobody hears of it
            going_on.push_back({p.id, p.data, 0, true, true, p.seq});
            if (on_delivery) on_delivery();
            return;
        }
    }

    void loop() {
        NOTE(c, "loop at " << now_ms());
        // what becomes due while a handler takes its time is delivered by the same run
        looked_at = now_ms();
        ++loops;
        const auto outer = std::exchange(floor, going_on.size());
        sys->loop();
        --loops;
        finish_loop_delivery();
        CHECK_EQ(going_on.size(), floor, "deliveries going on");
        floor = outer;
        // unheard events
        while (!pending.empty() && pending.front().due <= looked_at && attached[pending.front().id].empty()) {
            pending.erase(pending.begin());
            ++delivered;
        }
        if (!pending.empty())
            CHECK(pending.front().due > looked_at, "event " << pending.front().id << ", due at " << pending.front().due
                                                        << ", was not delivered by the loop that was busy until " << looked_at);
    }

    int64_t gen_delay() {
        const int64_t lo = debug_build ? 1 : 0;
        switch (c.draw(4)) {
        case 0:
        case 1: return c.range(lo, lo + 4);
        case 2: return c.range(lo, lo + 200);
        case 3: return c.nasty(std::max<int64_t>(lo, 1), 1ll << 36);
        default: // so that it becomes due together with another one
            if (!pending.empty()) {
                const auto d = c.pick_from(pending).due - now_ms();
                if (d >= lo) return d;
            }
            return c.range(lo, lo + 4);
        }
    }
    size_t gen_id() { return c.below(cfg.events_count); }
    /// an identifier that someone listens to
    std::optional<size_t> gen_heard_id() {
        std::vector<size_t> ids;
        for (size_t i = 0; i < attached.size(); ++i)
            if (!attached[i].empty()) ids.push_back(i);
        if (ids.empty()) return std::nullopt;
        return c.pick_from(ids);
    }
    /// lets time pass, with a preference for moments at which something becomes due
    void pass_time() {
        auto& st = spn::platform::MockStateInstance();
        int64_t dt = 0;
        switch (c.draw(5)) {
        case 0:
        case 1: dt = int64_t(c.draw(5)); break;
        case 2:
            if (!pending.empty()) dt = std::max<int64_t>(0, c.pick_from(pending).due - now_ms() - int64_t(c.draw(1)));
            break;
        case 3: dt = int64_t(c.draw(300)); break;
        case 4: {
            const auto us = c.draw(2500);
            NOTE(c, us << " us pass");
            HAL::delay_us(k_time_us(us));
            return;
        }
        default: dt = c.nasty(0, 1ll << 37); break;
        }
        NOTE(c, dt << " ms pass");
        st.millis += k_time_ms(dt);
    }
};

inline int64_t gen_uptime(Ctx& c) {
    switch (c.draw(5)) {
    case 0:
    case 1: return 0;
    case 2: return int64_t(c.draw(1000));
    case 3: return (1ll << 31) - int64_t(c.draw(500));
    case 4: return (1ll << 32) - int64_t(c.draw(500));
    default: return c.nasty(0, 1ll << 41); // decades
    }
}

} // namespace pbt
