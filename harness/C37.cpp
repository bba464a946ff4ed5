// C37: nothing depends on the clock standing still
//
// Built for Zephyr on a stand-in for its kernel, whose clock moves whenever it is looked at: by nothing, a part of a
// millisecond, or some milliseconds. What is expected is given by the time before and after each operation.
#include "pbt.hpp"

#include "spine/controller/pid.hpp"
#include "spine/controller/sr_latch.hpp"
#include "spine/core/utils/time_repr.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/structure/time/timers.hpp"

using namespace pbt;
using spn::core::Event;
using spn::core::EventHandler;
using spn::core::EventSystem;
using spn::core::Future;
using spn::core::Pipeline;
using namespace spn::structure::time;

namespace {

/// the time, without looking at it
int64_t at() { return int64_t(fake::state().us / 1000); }
void pass_us(int64_t us) { fake::state().us += uint64_t(us); }

struct Ticking {
    Ctx& c;
    int64_t looks = 0, ticks = 0; // ticks: looks that saw another millisecond
    uint32_t odds, largest;
    explicit Ticking(Ctx& ctx) : c(ctx) {
        odds = 1 + uint32_t(c.draw(5));
        largest = c.pick<uint32_t>({1000, 400, 3000, 20000});
        fake::state().us = c.coin() ? c.below(3000000) : uint64_t(c.range(0, 1ll << 40)) * 1000 + c.below(1000);
        fake::state().on_look = [this] {
            ++looks;
            if (!c.chance(1, odds)) return;
            const auto before = at();
            pass_us(c.coin() ? 1000 : int64_t(c.draw(largest)));
            ticks += at() > before;
        };
        NOTE(c, "clock at " << fake::state().us << " us, moves by up to " << largest << " us at one of " << odds << " looks");
    }
    ~Ticking() { fake::state().on_look = nullptr; }
};

/// while something runs
struct Window {
    int64_t from = at(), to = 0;
    Window& end() {
        to = at();
        return *this;
    }
    std::string text() const { return "[" + std::to_string(from) + ", " + std::to_string(to) + "]"; }
};
template<typename F>
auto during(Window& w, F&& f) {
    w.from = at();
    if constexpr (std::is_void_v<decltype(f())>) {
        f();
        w.end();
    } else {
        auto r = f();
        w.end();
        return r;
    }
}
/// what is relative to the clock lies within what it is at either end
#define CHECK_WITHIN(got, low, high, what)                                                                                          \
    do {                                                                                                                            \
        const int64_t g_ = (got), l_ = (low), h_ = (high);                                                                          \
        CHECK(g_ >= l_ && g_ <= h_, what << " is " << g_ << ", expected from " << l_ << " to " << h_);                              \
    } while (0)

} // namespace

PROP(pipeline, 6) {
    Ticking clock(c);
    const size_t cap = 1 + c.draw(c.chance(1, 6) ? 40 : 7);
    Pipeline pipe(cap);
    struct Entry {
        std::shared_ptr<Future> f;
        int64_t due;
    };
    std::vector<Entry> model;
    size_t ticked = 0, expired = 0, neighbours = 0;
    c.scale();
    const auto w = c.swarm(6);
    while (c.more()) {
        Window win;
        const auto ticks = clock.ticks;
        switch (c.weighted(w)) {
        case 0:
        case 1: {
            if (model.size() == cap) break;
            // preferably about as far away as one that is in there
            const int64_t d = model.empty() || c.coin() ? 1 + int64_t(c.draw(30)) : std::max<int64_t>(1, c.pick_from(model).due - at() + int64_t(c.draw(4)) - 2);
            auto f = std::make_shared<Future>(k_time_ms(d));
            NOTE(c, "push " << d << " at " << at());
            during(win, [&] { pipe.push(std::shared_ptr<Future>(f)); });
            const auto due = int64_t(f->future().raw());
            CHECK_WITHIN(due - d, win.from, win.to, "the moment a future of " << d << " ms was pushed");
            const auto where = std::upper_bound(model.begin(), model.end(), due, [](int64_t a, const Entry& b) { return a < b.due; });
            if (where != model.end() && where->due - due <= 3) ++neighbours;
            model.insert(where, {f, due});
            ticked += clock.ticks > ticks + 1;
            break;
        }
        case 2: {
            const bool any = during(win, [&] { return pipe.contains_expired_futures(); });
            if (model.empty() || model.front().due > win.to)
                CHECK(!any, "contains expired futures at " << win.text() << (model.empty() ? ", but none" : ", but none is due"));
            else if (model.front().due <= win.from)
                CHECK(any, "contains no expired futures at " << win.text() << ", but one due at " << model.front().due);
            if (!any) break;
            NOTE(c, "expire at " << at());
            const auto f = pipe.expire();
            CHECK(f == model.front().f, "the future that is expired is not the first, due at " << model.front().due);
            CHECK(model.front().due <= at(), "a future due at " << model.front().due << " is expired at " << at());
            model.erase(model.begin());
            ++expired;
            break;
        }
        case 3: {
            const auto t = during(win, [&] { return pipe.time_until_next_future(); }).raw();
            const auto due = model.empty() ? 0 : model.front().due;
            CHECK_WITHIN(t, std::max<int64_t>(0, due - win.to), std::max<int64_t>(0, due - win.from), "time until the next future at " << win.text());
            break;
        }
        case 4: {
            if (model.empty()) break;
            const auto &a = c.pick_from(model), &b = c.pick_from(model);
            CHECK_EQ(*a.f < *b.f, a.due < b.due, "a future due at " << a.due << " comes before one due at " << b.due);
            CHECK_EQ(*a.f == *b.f, a.due == b.due, "futures due at " << a.due << " and " << b.due << " are equal");
            const auto t = during(win, [&] { return a.f->time_until_future(); }).raw();
            CHECK_WITHIN(t, a.due - win.to, a.due - win.from, "time until a future at " << win.text());
            break;
        }
        default: {
            if (c.coin()) {
                pass_us(int64_t(c.draw(20000)));
                break;
            }
            const auto s = during(win, [&] { return pipe.to_string(); });
            std::string rest = s;
            const std::string head = "Pipeline: [";
            CHECK(rest.compare(0, head.size(), head) == 0 && rest.back() == ']', "text " << str(s));
            rest = rest.substr(head.size(), rest.size() - head.size() - 1);
            for (size_t i = 0; i < model.size(); ++i) {
                const auto end = rest.find(", ");
                CHECK((end == std::string::npos) == (i + 1 == model.size()), "text " << str(s) << " for " << model.size() << " futures");
                const auto item = rest.substr(0, end);
                bool ok = false;
                for (auto t = model[i].due - win.to; !ok && t <= model[i].due - win.from; ++t)
                    ok = spn::core::utils::repr(k_time_ms(t)) == item;
                CHECK(ok, "text " << str(s) << " at " << win.text() << ", future " << i << " is due at " << model[i].due);
                rest = end == std::string::npos ? "" : rest.substr(end + 2);
            }
            CHECK(rest.empty(), "text " << str(s) << " for " << model.size() << " futures");
        }
        }
        // the order
        CHECK_EQ(pipe.pipe().size(), model.size(), "futures");
        CHECK_EQ(pipe.contains_futures(), !model.empty(), "contains futures");
        for (size_t i = 0; i < model.size(); ++i)
            CHECK(pipe.pipe()[i] == model[i].f, "future " << i << " is the one due at " << pipe.pipe()[i]->future().raw() << ", expected the one due at " << model[i].due);
    }
    if (neighbours) c.label("due within milliseconds of another");
    if (ticked) c.label("clock moved while pushing");
    if (ticked && expired && neighbours) c.nontrivial();
}

PROP(events, 8) {
    Ticking clock(c);
    struct Scheduled {
        int64_t from, to; // due then
        size_t order; // of scheduling
        size_t after; // so many deliveries
        bool delivered = false;
        int64_t due = 0, at = 0; // as known on delivery
        int run = -1;
    };
    std::vector<Scheduled> all;
    const size_t cap = 1 + c.draw(c.chance(1, 5) ? 30 : 7), ids = 1 + c.draw(2);
    const bool delays = c.chance(1, 3);
    EventSystem sys(EventSystem::Config{.events_count = ids, .events_cap = cap, .handler_cap = 2, .delay_between_ticks = delays});
    NOTE(c, "EventSystem(" << cap << (delays ? " events, sleeping)" : " events)"));
    size_t pending = 0, in_delivery = 0;
    int run = 0;
    int64_t last_end = 0; // of a delivery in this run
    std::vector<size_t> delivered;
    size_t heard = 0;
    std::function<void()> busy; // what a handler does besides
    const auto schedule = [&](int64_t d) {
        if (pending + in_delivery >= cap) return;
        const auto no = all.size();
        const auto id = c.below(ids);
        NOTE(c, "schedule " << no << " in " << d << " at " << at());
        Window w;
        // by id, or as an event
        if (c.coin()) {
            during(w, [&] { sys.schedule(id, k_time_ms(d), Event::Data(uint32_t(no))); });
        } else {
            auto e = sys.event(id, k_time_ms(d), Event::Data(uint32_t(no)));
            CHECK(e, "an event is refused with " << pending << " of " << cap << " pending");
            pass_us(int64_t(c.draw(2000)));
            during(w, [&] { sys.schedule(std::move(e)); });
        }
        all.push_back({w.from + d, w.to + d, no, delivered.size()});
        ++pending;
    };
    struct H : EventHandler {
        std::function<void(const Event&)> f;
        H(EventSystem* s) : EventHandler(s) {}
        void handle_event(const Event& e) override { f(e); }
    };
    H first(&sys), second(&sys);
    const auto deliver = [&](const Event& e) {
        Event copy = e;
        const auto no = copy.data().unsigned_value();
        CHECK(no < all.size(), "event " << no << " was never scheduled");
        auto& s = all[no];
        CHECK(!s.delivered, "event " << no << " is delivered twice");
        s.delivered = true;
        s.due = copy.future().raw();
        s.at = at();
        s.run = run;
        NOTE(c, "(event " << no << ", due at " << s.due << ")");
        CHECK_WITHIN(s.due, s.from, s.to, "due time of event " << no);
        CHECK(s.due <= s.at, "event " << no << " due at " << s.due << " is delivered at " << s.at);
        delivered.push_back(no);
        --pending;
        ++in_delivery;
        heard = 1;
    };
    first.f = [&](const Event& e) {
        deliver(e);
        if (busy) busy();
    };
    second.f = [&](const Event& e) {
        CHECK(heard == 1 && e.data().unsigned_value() == delivered.back(), "the second handler hears of another event");
        heard = 2;
        in_delivery = 0;
        last_end = at();
    };
    for (size_t id = 0; id < ids; ++id) {
        sys.attach(id, &first);
        sys.attach(id, &second);
    }
    size_t nested = 0, chain = 0;
    busy = [&] {
        if (c.chance(1, 4)) pass_us(int64_t(c.draw(6000)));
        if (chain < 30 && c.chance(1, 3)) ++chain, ++nested, schedule(1 + int64_t(c.draw(6)));
    };
    const auto loop = [&] {
        chain = 0;
        ++run;
        last_end = at();
        const auto start = fake::state().slept_us;
        const auto upto = all.size();
        const auto before = at();
        NOTE(c, "loop at " << before);
        sys.loop();
        CHECK_EQ(in_delivery, size_t(0), "a handler did not hear of an event");
        for (size_t i = 0; i < upto; ++i) // what had to be delivered
            CHECK(all[i].delivered || all[i].to > std::max(before, last_end), "event " << i << " due at " << all[i].to << " at the latest is not delivered by the run that ended at " << last_end);
        const auto slept = int64_t(fake::state().slept_us - start);
        if (!delays)
            CHECK_EQ(slept, 0, "time that a loop without delays sleeps");
        else if (pending > 0) {
            int64_t from = INT64_MAX, to = INT64_MAX; // the next one is due
            for (auto& s : all)
                if (!s.delivered) from = std::min(from, s.from), to = std::min(to, s.to);
            CHECK(slept / 1000 <= std::max<int64_t>(0, to - last_end), "a loop sleeps for " << slept << " us although an event is due at " << to << ", it is " << last_end);
            if (slept < 1000000) CHECK(at() >= from, "a loop sleeps for " << slept << " us until " << at() << ", the next event is due at " << from);
        }
    };
    c.scale();
    const auto w = c.swarm(4);
    while (c.more()) {
        switch (c.weighted(w)) {
        case 0: schedule(1 + int64_t(c.draw(c.coin() ? 4 : 40))); break;
        case 1: // together
            for (auto n = 1 + c.draw(4); n > 0; --n)
                schedule(5 + int64_t(c.draw(2)));
            break;
        case 2: pass_us(int64_t(c.draw(c.coin() ? 3000 : 50000))); break;
        default: loop();
        }
    }
    for (int i = 0; i < 400 && pending > 0; ++i) {
        if (!delays) pass_us(20000);
        if (i > 30) busy = nullptr;
        loop();
    }
    CHECK_EQ(pending, size_t(0), "events that are never delivered");
    // each was first of what was there at the time
    for (size_t i = 0; i < delivered.size(); ++i)
        for (size_t j = i + 1; j < delivered.size(); ++j) {
            const auto &a = all[delivered[i]], &b = all[delivered[j]];
            if (b.after > i) continue; // not scheduled yet
            CHECK(a.due < b.due || (a.due == b.due && a.order < b.order), "event " << a.order << " due at " << a.due << " is delivered before event " << b.order << " due at " << b.due);
        }
    if (nested) c.label("scheduled by handlers");
    if (delivered.size() >= 3 && clock.ticks >= 3) c.nontrivial();
}

PROP(timers, 4) {
    Ticking clock(c);
    switch (c.below(3)) {
    case 0: { // laps: no time is lost between them
        const auto epoch = at();
        Window w;
        const bool explicitly = c.coin();
        w.from = w.to = epoch;
        Timer t = explicitly ? Timer(k_time_ms(epoch)) : during(w, [] { return Timer(); });
        int64_t sum = 0;
        int laps = 0;
        while (c.more(20)) {
            pass_us(int64_t(c.draw(c.coin() ? 2000 : 100000)));
            Window v;
            if (c.coin()) {
                const auto lap = during(v, [&] { return t.time_since_last(); }).raw();
                NOTE(c, "lap of " << lap << " at " << v.text());
                sum += lap;
                ++laps;
                CHECK_WITHIN(sum, v.from - w.to, v.to - w.from, "the sum of " << laps << " laps since " << epoch);
            } else if (c.coin()) {
                const auto since = during(v, [&] { return t.time_since_last(Timer::NoReset); }).raw();
                CHECK_WITHIN(sum + since, v.from - w.to, v.to - w.from, "the sum of " << laps << " laps and the time since");
            } else {
                during(w, [&] { t.reset(); });
                sum = 0, laps = 0;
            }
        }
        if (laps > 2) c.nontrivial();
        c.label("laps");
        break;
    }
    case 1: {
        Window w;
        const auto d = 1 + int64_t(c.draw(50));
        // at a moment, which is kept to, or so long after the moment it is made
        const bool absolute = c.coin();
        const auto moment = at() + 60 + d;
        AlarmTimer a = during(w, [&] { return absolute ? AlarmTimer(k_time_ms(moment), true) : AlarmTimer(k_time_ms(d)); });
        const auto due = int64_t(a.future().raw());
        if (absolute) CHECK_EQ(due, moment, "the moment of an alarm");
        else CHECK_WITHIN(due - d, w.from, w.to, "the moment the alarm was set");
        bool seen = false;
        while (c.more(20)) {
            pass_us(int64_t(c.draw(c.coin() ? 2000 : 20000)));
            Window v;
            const auto e = during(v, [&] { return a.expired(); });
            if (seen || v.from >= due) CHECK(e, "an alarm due at " << due << " is not expired at " << v.text());
            if (v.to < due) CHECK(!e, "an alarm due at " << due << " is expired at " << v.text());
            if (e && !seen) c.nontrivial();
            seen |= e;
            const auto left = during(v, [&] { return a.time_from_now(); }).raw();
            CHECK_WITHIN(left, due - v.to, due - v.from, "time left");
        }
        break;
    }
    default: {
        Window w;
        const bool catch_up = c.coin();
        const auto interval = 1 + int64_t(c.draw(30));
        IntervalTimer t = during(w, [&] { return IntervalTimer(k_time_ms(interval), catch_up); });
        auto next = int64_t(t.future().raw());
        CHECK_WITHIN(next - interval, w.from, w.to, "the moment the interval began");
        int fired = 0;
        while (c.more(20)) {
            pass_us(int64_t(c.draw(c.coin() ? 2000 : 40000)));
            Window v;
            const auto e = during(v, [&] { return t.expired(); });
            if (v.from > next) CHECK(e, "an interval up at " << next << " has not fired at " << v.text());
            if (v.to <= next) CHECK(!e, "an interval up at " << next << " has fired at " << v.text());
            const auto now = int64_t(t.future().raw());
            if (!e)
                CHECK_EQ(now, next, "end of the interval");
            else if (catch_up)
                CHECK_EQ(now, next + interval, "end of the next interval");
            else
                CHECK_WITHIN(now - interval, v.from, v.to, "the moment the interval fired");
            next = now;
            fired += e;
            const auto left = during(v, [&] { return t.time_until_next(); }).raw();
            CHECK_WITHIN(left, next - v.to, next - v.from, "time left");
        }
        if (fired > 1) c.nontrivial();
    }
    }
}

PROP(latch, 2) {
    Ticking clock(c);
    using spn::controller::SRLatch;
    const auto limit = [&] { return c.coin() ? int64_t(0) : 1 + int64_t(c.draw(40)); };
    const int64_t min_on = limit(), max_on = c.coin() ? 0 : min_on + limit(), min_off = limit(), max_off = c.coin() ? 0 : min_off + limit();
    NOTE(c, "on " << min_on << " to " << max_on << ", off " << min_off << " to " << max_off);
    Window since;
    SRLatch latch = during(since, [&] {
        return SRLatch({.high = 10, .low = 5, .minimal_on_time = k_time_ms(min_on), .maximal_on_time = k_time_ms(max_on), .minimal_off_time = k_time_ms(min_off), .maximal_off_time = k_time_ms(max_off)});
    });
    since.from -= min_off, since.to -= min_off;
    bool on = false;
    int switched = 0;
    while (c.more()) {
        if (c.coin()) pass_us(int64_t(c.draw(c.coin() ? 2000 : 40000)));
        const auto v = c.pick<float>({20, 7, 1});
        Window w;
        during(w, [&] { latch.new_reading(v); });
        const auto shortest = w.from - since.to, longest = w.to - since.from; // in this state
        const auto least = on ? min_on : min_off, most = on ? max_on : max_off;
        const bool now = latch.response();
        NOTE(c, "reading " << v << " at " << w.text() << (now != on ? " switches" : ""));
        if (longest < least)
            CHECK_EQ(now, on, "state after at most " << longest << " ms, at least " << least << " are to pass");
        else if (shortest >= least) {
            if (most && shortest > most)
                CHECK_EQ(now, !on, "state after at least " << shortest << " ms, at most " << most << " may pass");
            else if (!most || longest <= most)
                CHECK_EQ(now, v == 7 ? on : v > 7, "state after reading " << v);
        }
        if (now != on) ++switched, since = w;
        on = now;
    }
    if (switched > 1 && clock.ticks > 2) c.nontrivial();
}
