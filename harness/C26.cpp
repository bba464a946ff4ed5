// C26: the latch switches on its thresholds within its minimal and maximal times
#include "pbt.hpp"

#include "spine/controller/sr_latch.hpp"

using namespace pbt;
using spn::controller::SRLatch;

namespace {
int64_t gen_time(Ctx& c) {
    switch (c.below(4)) {
    case 0: return 0;
    case 1: return c.range(1, 10);
    case 2: return c.range(1, 100000);
    default: return c.pick<int64_t>({1, 1000, 60000, 3600000, 86400000});
    }
}
} // namespace

PROP(history, 8) {
    // in eighths, so that an edge is exact
    const auto low8 = c.range(-80, 80), high8 = low8 + int64_t(c.chance(1, 4) ? 0 : c.below(80));
    const float low = float(low8) / 8, high = float(high8) / 8;
    const int64_t min_on = gen_time(c), min_off = gen_time(c);
    // none, or any time (also below the minimal time)
    const auto gen_max = [&](int64_t min) { return c.coin() ? 0 : c.chance(1, 4) ? gen_time(c) : min + 1 + gen_time(c); };
    const int64_t max_on = gen_max(min_on), max_off = gen_max(min_off);
    const int64_t start = c.chance(1, 3) ? 0 : c.nasty(0, 1ll << 45);
    set_now_ms(start);
    NOTE(c, "[" << low << ", " << high << "], on " << min_on << ".." << max_on << " ms, off " << min_off << ".." << max_off << " ms, at " << start);
    SRLatch latch(SRLatch::Config{.high = high, .low = low, .minimal_on_time = k_time_ms(min_on), .maximal_on_time = k_time_ms(max_on), .minimal_off_time = k_time_ms(min_off), .maximal_off_time = k_time_ms(max_off)});
    if (c.coin()) latch.initialize();
    bool on = false;
    int64_t now = start, since = start - min_off; // a new latch has been off for its minimal time
    CHECK_EQ(latch.response(), false, "response at the start");
    int switches = 0;
    while (c.more(60)) {
        // time passes
        const auto min = on ? min_on : min_off, max = on ? max_on : max_off;
        switch (c.weighted({3, 3, 3, 2, 2, 1})) {
        case 0: break;
        case 1: now = std::max(now, since + min + c.range(-1, 1)); break;
        case 2: now = std::max(now, since + max + c.range(-1, 1)); break;
        case 3: now += c.range(0, 10); break;
        case 4: now += int64_t(c.below(uint64_t(min + max) + 2)); break;
        default: now += c.nasty(0, 1ll << 35);
        }
        set_now_ms(now);
        float v;
        switch (c.weighted({4, 4, 3, 2, 2, 1, 1})) {
        case 0: v = high + float(c.range(1, 80)) / 8; break;
        case 1: v = low - float(c.range(1, 80)) / 8; break;
        case 2: v = low + float(c.below(uint64_t(high8 - low8) + 1)) / 8; break;
        case 3: v = high; break;
        case 4: v = low; break;
        case 5: v = c.coin() ? std::nextafter(high, 1e9f) : std::nextafter(low, -1e9f); break;
        default: v = c.pick<float>({INFINITY, -INFINITY, NAN, 1e30f, -1e30f});
        }
        NOTE(c, "after " << now - since << " ms: " << str(v));
        const auto elapsed = now - since;
        const char* why;
        bool next = on;
        if (elapsed < min) {
            why = "within the minimal time";
            if ((v > high && !on) || (v < low && on)) c.label("held by the minimal time");
        } else if (max != 0 && elapsed > max) {
            next = !on;
            why = "after the maximal time";
            c.label("switched by the maximal time");
            if ((v > high && on) || (v < low && !on)) c.label("switched against the reading");
        } else if (v > high) {
            next = true;
            why = "above the high limit";
        } else if (v < low) {
            next = false;
            why = "below the low limit";
        } else
            why = "in between";
        if (next != on) {
            ++switches;
            since = now;
        } else if (v > high || v < low)
            c.label("kept");
        on = next;
        latch.new_reading(v);
        CHECK_EQ(latch.response(), on, why << ": response after " << elapsed << " ms to a reading of " << str(v));
        // time alone does nothing
        if (c.chance(1, 4)) {
            now += gen_time(c);
            set_now_ms(now);
            CHECK_EQ(latch.response(), on, "response changed without a reading");
        }
    }
    if (switches >= 2) c.nontrivial();
    if (switches >= 10) c.label("10+ switches");
}

// without limits on its times it is a plain hysteresis
PROP(plain, 8) {
    const float low = float(c.range(-50, 50)), high = low + float(c.below(20));
    SRLatch latch(SRLatch::Config{.high = high, .low = low});
    bool on = false;
    int changes = 0;
    NOTE(c, "[" << low << ", " << high << "]");
    while (c.more(30)) {
        const float v = float(c.range(-60, 80));
        NOTE(c, v);
        advance_ms(c.range(0, 5));
        latch.new_reading(v);
        const bool next = v > high ? true : v < low ? false : on;
        changes += next != on;
        on = next;
        CHECK_EQ(latch.response(), on, "response to " << v);
    }
    if (changes > 1) c.nontrivial();
}

// two of them at once have nothing in common
PROP(two_latches, 1) { twins(c, [&] { prop_history(c); }); }
