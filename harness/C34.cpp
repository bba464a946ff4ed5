// C34: the Zephyr platform keeps time and logs as the HAL and the logging promise
#include "pbt.hpp"

#include "spine/core/debugging.hpp"
#include "spine/structure/time/timers.hpp"

#include <zephyr/logging/log.h>

using namespace pbt;
using spn::logging::LogLevel;

PROP(clock, 3) {
    auto& w = fake::state();
    int moves = 0;
    while (c.more(30)) {
        switch (c.below(5)) {
        case 0: w.us = uint64_t(c.nasty(0, (1ll << 41) * 1000)); break;
        case 1: w.us = uint64_t(c.nasty(0, (1ll << 32) - 1)); break;
        case 2: // around the point where 32 bits of ticks are used up
            w.us = ((1ull << 32) * 1000000 / CONFIG_SYS_CLOCK_TICKS_PER_SEC) * (1 + c.below(4)) + c.below(2000000) - 1000000;
            c.label("ticks past 32 bits");
            break;
        case 3: w.us += c.below(100000); break;
        default: break;
        }
        const auto us = w.us;
        NOTE(c, "at " << us);
        CHECK_EQ(int64_t(HAL::millis().raw()), int64_t(us / 1000), "millis at " << us);
        // within a tick of the clock, and it may roll around at 32 bits
        const auto off = int64_t(int32_t(uint32_t(uint64_t(HAL::micros().raw()) - us)));
        CHECK(std::llabs(off) <= 1000000 / CONFIG_SYS_CLOCK_TICKS_PER_SEC + 1, "micros is " << HAL::micros().raw() << " at " << us);
        CHECK_EQ(w.us, us, "reading the clock takes time");
        const auto n = c.coin() ? int64_t(c.below(5000)) : c.nasty(0, 2000000000);
        const auto form = c.below(5);
        int64_t expected = n * 1000;
        switch (form) {
        case 0: HAL::delay(k_time_ms(n)); break;
        case 1: HAL::delay_ms(k_time_ms(n)); break;
        case 2: HAL::delay_ms(uint32_t(n)); break;
        case 3:
            HAL::delay_us(k_time_us(n));
            expected = n;
            break;
        default:
            HAL::delay_us(uint32_t(n));
            expected = n;
        }
        NOTE(c, "delay " << n << " form " << form);
        if (form >= 3 && n > 1000 && n % 1000) c.label("long delay in us");
        CHECK_EQ(int64_t(w.us - us), expected, "time that a delay of " << n << " (form " << form << ") took");
        ++moves;
    }
    if (moves >= 3) c.nontrivial();
}

PROP(logging, 4) {
    auto& w = fake::state();
    auto level = LogLevel::OFF;
    int printed = 0, suppressed = 0;
    while (c.more(15)) {
        if (c.chance(1, 3)) {
            level = c.pick<LogLevel>({LogLevel::OFF, LogLevel::ERR, LogLevel::WARN, LogLevel::INFO, LogLevel::DEBUG});
            NOTE(c, "level " << int(level));
            spn::logging::set_log_level(level);
            CHECK_EQ(w.filter, int(level), "level the backend is set to");
            CHECK(spn::logging::log_level() == level, "level reads back as " << int(spn::logging::log_level()));
            if (level == LogLevel::OFF) c.label("off");
        }
        const auto at = LogLevel(1 + c.below(4));
        const auto n = c.coin() ? c.below(30) : c.below(3 * SPINE_LOGGING_MAX_MSG_SIZE);
        std::string text;
        for (size_t i = 0; i < n; ++i) text += char('!' + (i * 7 + n) % 90);
        // what would be taken for a format
        if (n >= 2 && c.chance(1, 3)) text.replace(c.below(n - 1), 2, c.coin() ? "%%" : "%d");
        const auto i = int(c.range(-100000, 100000));
        set_now_ms(c.nasty(0, 1ll << 40));
        NOTE(c, "message of level " << int(at) << " with " << n << " characters");
        int where = 0;
        switch (at) {
        case LogLevel::ERR: where = __LINE__; SPN_ERR("%s|%d", text.c_str(), i); break;
        case LogLevel::WARN: where = __LINE__; SPN_WARN("%s|%d", text.c_str(), i); break;
        case LogLevel::INFO: where = __LINE__; SPN_LOG("%s|%d", text.c_str(), i); break;
        default: where = __LINE__; SPN_DBG("%s|%d", text.c_str(), i); break;
        }
        const size_t room = SPINE_LOGGING_MAX_MSG_SIZE - 1;
        auto message = (text + "|" + std::to_string(i)).substr(0, room);
        if (at == LogLevel::DEBUG) message = (message + " (" + __FILE__ + ":" + std::to_string(where) + " " + __func__ + ")").substr(0, room);
        const bool expected = int(at) <= int(level) && (at != LogLevel::DEBUG || debug_build);
        CHECK_EQ(w.log.size(), size_t(expected), "messages logged with level " << int(at) << " at level " << int(level));
        if (expected) {
            CHECK_EQ(w.log[0].first, int(at), "level of the message");
            CHECK_EQ(w.log[0].second, message, "message");
            ++printed;
        } else
            ++suppressed;
        w.log.clear();
    }
    if (printed && suppressed) c.nontrivial();
}

PROP(halt, 1) {
    auto& w = fake::state();
    spn::logging::set_log_level(c.coin() ? LogLevel::DEBUG : LogLevel::ERR);
    HAL::initialize(ZephyrConfig{});
    const auto level = spn::logging::log_level();
    const auto form = c.below(3);
    const std::string reason = "reason " + std::to_string(c.below(1000000));
    NOTE(c, "halt form " << form);
    bool halted = false;
    try {
        if (form == 0) HAL::halt(reason.c_str());
        else if (form == 1)
            HAL::halt();
        else
            HAL::halt(nullptr);
    } catch (const fake::Halted&) { halted = true; }
    CHECK(halted, "halt returns");
    size_t naming = 0;
    for (auto& [l, m] : w.log) naming += m.find(reason) != std::string::npos && l == LOG_LEVEL_WRN;
    CHECK_EQ(naming, size_t(form == 0 && level == LogLevel::DEBUG), "messages that name the reason");
    c.nontrivial();
}

// what is built on the clock follows it
PROP(timer, 2) {
    const auto start = uint64_t(c.nasty(0, 1ll << 40));
    fake::state().us = start * 1000;
    spn::structure::time::Timer t;
    const auto period = c.nasty(1, 1ll << 33);
    spn::structure::time::AlarmTimer alarm{k_time_ms(period)};
    uint64_t passed = 0;
    while (c.more(10)) {
        const auto n = c.coin() ? c.below(1000) : uint64_t(c.nasty(0, 1ll << 32));
        passed += n;
        if (c.coin()) advance_ms(int64_t(n));
        else
            for (auto left = n; left;) {
                const auto d = std::min<uint64_t>(left, 2000000000);
                HAL::delay(k_time_ms(d));
                left -= d;
            }
        NOTE(c, n << " ms pass");
        CHECK_EQ(int64_t(k_time_ms(t.time_since_last(false)).raw()), int64_t(passed), "time the timer measured");
        CHECK_EQ(alarm.expired(), passed >= uint64_t(period), "whether an alarm of " << period << " went off after " << passed);
        c.nontrivial();
    }
}
