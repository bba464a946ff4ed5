// C31: the simulated clock adds up and outputs fade smoothly to their setpoint
#include "pbt.hpp"

#include "spine/platform/gpio.hpp"
#include "spine/platform/hal.hpp"

using namespace pbt;

namespace {

/// an output that remembers what it was told, and when
struct Output : spn::platform::AnalogueOutput<Output> {
    struct Set {
        float value;
        int64_t at_us;
    };
    std::vector<Set> sets;
    void set_value_impl(float v) { sets.push_back({v, int64_t(HAL::micros().raw())}); }
};
struct Pin : spn::platform::DigitalOutput<Pin> {
    std::vector<int> driven; // -1: initialised
    void initialize_impl() { driven.push_back(-1); }
    void set_state_impl(spn::core::LogicalState s) { driven.push_back(int(s)); }
};

} // namespace

PROP(clock, 1) {
    const auto start_ms = c.chance(1, 3) ? 0 : c.nasty(0, 1ll << 42);
    set_now_ms(start_ms);
    __int128 us = __int128(start_ms) * 1000;
    NOTE(c, "at " << start_ms << " ms");
    int kinds = 0;
    while (c.more(20)) {
        const auto n = c.below(6) == 0 ? c.nasty(0, 1ll << 31) : c.chance(1, 3) ? c.range(0, 3) : c.range(0, 2000);
        switch (c.below(9)) {
        case 0: NOTE(c, n << " ms"); HAL::delay(k_time_ms(n)), us += __int128(n) * 1000, kinds |= 1; break;
        case 1: NOTE(c, n << " us"); HAL::delay_us(k_time_us(n)), us += n, kinds |= 2; break;
        case 2: NOTE(c, n << " ms"); HAL::delay_ms(k_time_ms(n)), us += __int128(n) * 1000, kinds |= 1; break;
        case 3: NOTE(c, n << " us (number)"); HAL::delay_us(uint32_t(n)), us += n, kinds |= 2; break;
        case 4: NOTE(c, n << " ms (number)"); HAL::delay_ms(uint32_t(n)), us += __int128(n) * 1000, kinds |= 1; break;
        case 5: NOTE(c, n << " s"); HAL::delay(k_time_s(n)), us += __int128(n) * 1000000, kinds |= 4; break;
        case 6: NOTE(c, n % 100000 << " min"); HAL::delay(k_time_m(n % 100000)), us += __int128(n % 100000) * 60000000, kinds |= 4; break;
        case 7: NOTE(c, n % 1000 << " h"); HAL::delay(k_time_h(n % 1000)), us += __int128(n % 1000) * 3600000000ll, kinds |= 4; break;
        default: NOTE(c, n << " ms in us"); HAL::delay_us(k_time_us(k_time_ms(n))), us += __int128(n) * 1000, kinds |= 2;
        }
        CHECK_EQ(int64_t(HAL::micros().raw()), int64_t(us), "microseconds");
        CHECK_EQ(int64_t(HAL::millis().raw()), int64_t(us / 1000), "milliseconds");
    }
    if ((kinds & 2) && (kinds & 5)) c.nontrivial();
    if (us % 1000) c.label("part of a millisecond");
}

PROP(fade, 2) {
    const bool eighths = c.coin();
    const auto level = [&] { return eighths ? float(c.below(9)) / 8 : c.chance(1, 4) ? float(c.below(11)) / 10 : c.chance(1, 4) ? float(c.below(2)) : float(c.below(1000001)) / 1000000; };
    Output out;
    const auto start_ms = c.range(0, 100000);
    set_now_ms(start_ms);
    CHECK(out.value() == 0, "value of a new output");
    int steps_total = 0;
    while (c.more(4)) {
        if (c.coin()) {
            const float v = level();
            NOTE(c, "set " << str(v));
            out.sets.clear();
            out.set_value(v);
            CHECK_EQ(out.sets.size(), 1u, "times that the output is set");
            CHECK(out.sets[0].value == v && out.value() == v, "set to " << str(v) << ", reads " << str(out.value()));
        }
        const float from = out.value(), to = level();
        const float inc = c.chance(1, 3) ? 0.1f : eighths && c.coin() ? 1.0f / float(1 << c.below(5)) : c.coin() ? float(1 + c.below(1000)) / 1000 : float(1 + c.below(200)) / 97;
        const auto interval = c.chance(1, 3) ? 250 : c.range(0, 1000);
        const auto defaults = c.chance(1, 10);
        const float increment = defaults ? 0.1f : inc;
        const int64_t every = (defaults ? 250 : interval) * 1000;
        NOTE(c, "fade from " << str(from) << " to " << str(to) << " by " << str(increment) << " every " << every / 1000 << " ms");
        out.sets.clear();
        const auto began = int64_t(HAL::micros().raw());
        if (defaults) out.fade_to(to);
        else out.fade_to(to, inc, k_time_ms(interval));
        const auto what = [&] { return "fading from " + str(from) + " to " + str(to) + " by " + str(increment) + ": "; };
        CHECK(!out.sets.empty(), what() << "the output is not set");
        CHECK(out.sets.back().value == to, what() << "ends at " << str(out.sets.back().value));
        CHECK(out.value() == to, what() << "reads " << str(out.value()));
        float last = from;
        const float lo = std::min(from, to), hi = std::max(from, to);
        int moves = 0;
        int64_t moved_at = began;
        for (auto& s : out.sets) {
            CHECK(s.value >= lo && s.value <= hi, what() << "passes " << str(s.value));
            CHECK(to >= from ? s.value >= last : s.value <= last, what() << "moves back from " << str(last) << " to " << str(s.value));
            const auto step = std::fabs(double(s.value) - double(last));
            CHECK(step <= double(increment) * (1 + 1e-6) + 1e-6, what() << "jumps from " << str(last) << " to " << str(s.value));
            if (s.value != last) {
                if (moves > 0) CHECK(s.at_us - moved_at >= every, what() << "step " << moves << " comes " << s.at_us - moved_at << " us after the one before it");
                ++moves, moved_at = s.at_us;
            }
            last = s.value;
        }
        const auto least = std::ceil(std::fabs(double(from) - double(to)) / double(increment) - 1e-4);
        CHECK(moves <= least + 2, what() << moves << " steps, when " << least << " would do");
        const auto took = int64_t(HAL::micros().raw()) - began;
        CHECK(took <= (moves + 1) * every, what() << "takes " << took << " us for " << moves << " steps");
        steps_total += moves;
        if (moves > 1) c.nontrivial();
        if (moves > 1 && to < from) c.label("down");
        if (moves > 1 && to > from) c.label("up");
        if (moves == 0) c.label("there already");
        if (moves == 1) c.label("in one step");
        if (moves > 50) c.label("50+ steps");
    }
    if (debug_build && c.chance(1, 20)) {
        const float to = c.coin() ? -float(1 + c.below(100)) / 100 : 1 + float(1 + c.below(100)) / 100;
        CHECK(bool(thrown_by([&] { out.fade_to(to); })), "fading to " << str(to) << " is not reported");
    }
}

PROP(mock_outputs, 1) {
    const bool low = c.coin();
    HAL::AnalogueOutput a(HAL::AnalogueOutput::Config{.pin = uint8_t(c.below(256)), .active_on_low = low});
    HAL::DigitalOutput d(HAL::DigitalOutput::Config{.pin = uint8_t(c.below(256)), .active_on_low = low});
    NOTE(c, (low ? "active on low" : "active on high"));
    float value = 0;
    int state = 0;
    if (c.coin()) {
        a.initialize();
        d.initialize();
    }
    while (c.more(10)) {
        switch (c.below(6)) {
        case 0: value = float(c.below(101)) / 100; NOTE(c, "set " << value); a.set_value(value); break;
        case 1: value = float(c.below(101)) / 100; NOTE(c, "fade " << value); a.fade_to(value, 0.05f, k_time_ms(c.range(0, 10))); break;
        case 2: state = int(c.below(2)); NOTE(c, "state " << state); d.set_state(bool(state)); break;
        case 3: state = int(c.below(2)); NOTE(c, "state " << state); d.set_state(state ? spn::core::LogicalState::ON : spn::core::LogicalState::OFF); break;
        case 4: NOTE(c, "flip"); d.flip(), state = !state; break;
        default:
            state = int(c.below(2)), value = 0;
            NOTE(c, "initialise " << state);
            d.initialize(bool(state)), a.initialize();
        }
        CHECK(a.value() == value, "the output reads " << str(a.value()) << ", expected " << str(value));
        CHECK_EQ(int(d.state()), state, "state");
        c.nontrivial();
    }
}

PROP(digital, 1) {
    Pin pin;
    int state = 0;
    CHECK_EQ(int(pin.state()), 0, "state of a new output");
    int flips = 0;
    while (c.more(12)) {
        pin.driven.clear();
        std::vector<int> expected;
        switch (c.below(5)) {
        case 0: state = int(c.below(2)); NOTE(c, "set " << state); pin.set_state(bool(state)); break;
        case 1: state = int(c.below(2)); NOTE(c, "set " << state); pin.set_state(state ? spn::core::LogicalState::ON : spn::core::LogicalState::OFF); break;
        case 2: NOTE(c, "flip"); pin.flip(), state = !state, ++flips; break;
        case 3: state = int(c.below(2)); NOTE(c, "initialise " << state); pin.initialize(bool(state)), expected.push_back(-1); break;
        default: state = 0; NOTE(c, "initialise"); pin.initialize(), expected.push_back(-1);
        }
        expected.push_back(state);
        CHECK(pin.driven == expected, "the pin is driven " << str(pin.driven) << ", expected " << str(expected));
        CHECK_EQ(int(pin.state()), state, "state");
    }
    if (flips) c.nontrivial();
}
