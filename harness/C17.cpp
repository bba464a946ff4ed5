// C17: timers are exact to the millisecond at any uptime
#include "pbt.hpp"

#include "spine/structure/time/timers.hpp"

using namespace pbt;
using namespace spn::structure::time;

namespace {

int64_t uptime(Ctx& c) {
    switch (c.draw(5)) {
    case 0:
    case 1: return 0;
    case 2: return int64_t(c.draw(1000));
    case 3: return (1ll << c.range(23, 33)) - int64_t(c.draw(100));
    case 4: return int64_t(365.25 * 86400000) * int64_t(c.draw(100)) + int64_t(c.draw(1000));
    default: return c.nasty(0, 1ll << 45);
    }
}

struct Clock {
    __int128 us = 0;
    int64_t ms() const { return int64_t(us / 1000); }
    void set(int64_t ms) {
        us = __int128(ms) * 1000;
        set_now_ms(ms);
    }
    /// lets time pass, with a preference for arriving near one of the given moments
    void pass(Ctx& c, std::initializer_list<int64_t> moments, int64_t span) {
        int64_t dt = 0;
        switch (c.draw(6)) {
        case 0:
        case 1: dt = int64_t(c.draw(4)); break;
        case 2:
        case 3: dt = std::max<int64_t>(0, c.pick(moments) - ms() + c.range(-1, 1)); break;
        case 4: dt = int64_t(c.draw(std::min<int64_t>(span * 5, 1ll << 44))); break;
        case 5: {
            const auto d = c.draw(3000);
            NOTE(c, d << " us pass");
            us += d;
            HAL::delay_us(k_time_us(d));
            return;
        }
        default: dt = c.nasty(0, 1ll << 41); break;
        }
        NOTE(c, dt << " ms pass");
        us += __int128(dt) * 1000;
        switch (c.draw(2)) {
        case 0: HAL::delay_ms(k_time_ms(dt)); break;
        case 1: HAL::delay(k_time_ms(dt)); break;
        default: advance_ms(dt);
        }
    }
};

} // namespace

PROP(stopwatch, 20) {
    Clock clock;
    clock.set(uptime(c));
    int64_t last = clock.ms();
    std::unique_ptr<Timer> t;
    if (c.chance(1, 3)) {
        last = c.chance(1, 4) ? clock.ms() + c.range(1, 2000) : c.nasty(0, clock.ms());
        t = std::make_unique<Timer>(k_time_ms(last));
    } else
        t = std::make_unique<Timer>();
    NOTE(c, "at " << clock.ms() << ": Timer since " << last);
    c.scale();
    size_t measured = 0, resets = 0;
    while (c.more()) {
        switch (c.draw(6)) {
        case 0:
        case 1:
        case 2: clock.pass(c, {last + 1000}, 1000); break;
        case 3:
            NOTE(c, "lap");
            CHECK_EQ((c.coin() ? t->time_since_last() : t->time_since_last(true)).raw(), clock.ms() - last, "time since the last reset");
            last = clock.ms();
            ++measured;
            break;
        case 4:
            NOTE(c, "read");
            CHECK_EQ(t->time_since_last(Timer::NoReset).raw(), clock.ms() - last, "time since the last reset");
            ++measured;
            break;
        case 5:
            NOTE(c, "reset");
            t->reset();
            last = clock.ms();
            ++resets;
            break;
        default:
            last = c.chance(1, 4) ? clock.ms() + c.range(1, 2000) : c.nasty(0, clock.ms()); // also a moment still to come
            NOTE(c, "reset to " << last);
            t->reset(k_time_ms(last));
            ++resets;
        }
    }
    CHECK_EQ(t->time_since_last(false).raw(), clock.ms() - last, "time since the last reset");
    if (measured >= 2) c.nontrivial();
}

PROP(alarm, 30) {
    Clock clock;
    clock.set(uptime(c));
    const bool absolute = c.chance(1, 3);
    int64_t due;
    std::unique_ptr<AlarmTimer> t;
    if (absolute) {
        due = clock.ms() + (c.coin() ? c.range(1, 20) : c.nasty(1, 1ll << 42));
        t = std::make_unique<AlarmTimer>(k_time_ms(due), true);
    } else {
        const auto d = c.coin() ? c.range(0, 20) : c.nasty(0, 1ll << 42);
        due = clock.ms() + d;
        t = c.coin() ? std::make_unique<AlarmTimer>(k_time_ms(d)) : std::make_unique<AlarmTimer>(k_time_ms(d), false);
    }
    NOTE(c, "at " << clock.ms() << ": alarm at " << due << (absolute ? " (absolute)" : ""));
    bool observed = false;
    c.scale();
    size_t early = 0, late = 0;
    const auto look = [&] {
        CHECK_EQ(t->future().raw(), due, "moment of the alarm");
        CHECK_EQ(t->time_from_now().raw(), due - clock.ms(), "time left");
        const bool expected = observed || clock.ms() >= due;
        CHECK_EQ(t->expired(), expected, "expired at " << clock.ms() << " of " << due);
        observed = expected;
        ++(expected ? late : early);
    };
    while (c.more()) {
        if (c.draw(2) < 2)
            clock.pass(c, {due, due, now_ms()}, std::max<int64_t>(1, due - clock.ms()));
        else {
            NOTE(c, "look");
            look();
            if (observed && c.chance(1, 10)) { // the clock starts over, the alarm does not forget
                NOTE(c, "clock goes back");
                clock.set(due > 1000 ? due - int64_t(c.draw(1000)) : 0);
            }
        }
        if (c.chance(1, 12)) {
            NOTE(c, "copy");
            t = std::make_unique<AlarmTimer>(*t);
        }
    }
    look();
    if (early && late) c.label("looked at before and after");
    if (early + late >= 2) c.nontrivial();
}

PROP(interval, 40) {
    Clock clock;
    clock.set(uptime(c));
    const auto interval = c.coin() ? c.range(0, 12) : c.nasty(1, 1ll << 38);
    const bool catch_up = c.coin();
    IntervalTimer t = catch_up ? IntervalTimer(k_time_ms(interval), true) : c.coin() ? IntervalTimer(k_time_ms(interval)) : IntervalTimer(k_time_ms(interval), false);
    NOTE(c, "at " << clock.ms() << ": interval of " << interval << (catch_up ? " catching up" : ""));
    int64_t previous = clock.ms();
    size_t fired = 0, quiet = 0, boundary = 0, caught_up = 0, resets = 0;
    c.scale();
    bool fired_at_once = false;
    while (c.more()) {
        switch (c.draw(7)) {
        case 0:
        case 1:
        case 2:
            clock.pass(c, {previous + interval, previous + interval + 1, previous + 2 * interval}, interval);
            fired_at_once = false;
            break;
        case 7:
            NOTE(c, "reset");
            t.reset();
            previous = clock.ms();
            ++resets;
            break;
        case 6:
            CHECK_EQ(t.interval().raw(), interval, "interval");
            break;
        default: {
            const auto gone = clock.ms() - previous;
            const bool expected = gone > interval;
            NOTE(c, "look");
            CHECK_EQ(t.expired(), expected, "fires " << gone << " ms after the last time, with an interval of " << interval);
            if (gone == interval || gone == interval + 1) ++boundary;
            if (expected) {
                previous = catch_up ? previous + interval : clock.ms();
                ++fired;
                if (fired_at_once) ++caught_up;
                fired_at_once = true;
            } else
                ++quiet;
        }
        }
        CHECK_EQ(t.future().raw(), previous + interval, "moment of the next firing");
        CHECK_EQ(t.time_until_next().raw(), previous + interval - clock.ms(), "time until the next firing");
    }
    if (catch_up && interval > 0 && clock.ms() - previous < interval * 1000) { // no interval is lost
        NOTE(c, "catch up");
        const auto lag = clock.ms() - previous;
        const auto n = lag > 0 ? (lag - 1) / interval : 0; // the number of whole intervals that are strictly in the past
        for (int64_t i = 0; i < n; ++i)
            CHECK(t.expired(), "interval " << i << " of " << n << " was lost");
        CHECK(!t.expired(), "one interval too many");
        if (n > 1) c.label("caught up");
    }
    if (boundary) c.label("at the boundary");
    if (caught_up) c.label("fired repeatedly");
    if (fired && quiet) c.nontrivial();
}

// two of them at once have nothing in common
PROP(two_stopwatches, 3) { twins(c, [&] { prop_stopwatch(c); }); }
PROP(two_alarms, 3) { twins(c, [&] { prop_alarm(c); }); }
PROP(two_intervals, 3) { twins(c, [&] { prop_interval(c); }); }
