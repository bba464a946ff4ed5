// A stand-in for the kernel of Zephyr: a clock that a check moves, and a record of what was asked.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <string>
#include <utility>
#include <vector>

#ifndef CONFIG_SYS_CLOCK_TICKS_PER_SEC
#    define CONFIG_SYS_CLOCK_TICKS_PER_SEC 32768
#endif

namespace fake {
struct Halted {};
struct State {
    uint64_t us = 0;
    uint64_t slept_us = 0;
    std::vector<std::pair<int, std::string>> log; // level and message
    int filter = -1; // the level that was last set
    std::function<void()> on_look; // called whenever the clock is about to be looked at
};
inline State& state() {
    static State s;
    return s;
}
inline void pass(uint64_t us) { state().us += us, state().slept_us += us; }
inline int64_t ticks() { return int64_t((unsigned __int128)state().us * CONFIG_SYS_CLOCK_TICKS_PER_SEC / 1000000); }
inline uint64_t ticks_to_us(uint64_t t, bool nearest) {
    return uint64_t(((unsigned __int128)t * 1000000 + (nearest ? CONFIG_SYS_CLOCK_TICKS_PER_SEC / 2 : 0)) / CONFIG_SYS_CLOCK_TICKS_PER_SEC);
}
} // namespace fake

typedef struct {
    int64_t us;
} k_timeout_t;
#define K_NO_WAIT (k_timeout_t{0})
#define K_MSEC(v) (k_timeout_t{int64_t(v) * 1000})
#define K_USEC(v) (k_timeout_t{int64_t(v)})
#define K_SECONDS(v) (k_timeout_t{int64_t(v) * 1000000})

inline int64_t k_uptime_get() {
    if (fake::state().on_look) fake::state().on_look();
    return int64_t(fake::state().us / 1000);
}
inline uint32_t k_uptime_get_32() { return uint32_t(k_uptime_get()); }
inline int64_t k_uptime_seconds() { return k_uptime_get() / 1000; }
inline int64_t k_uptime_ticks() { return fake::ticks(); }
inline uint32_t k_ticks_to_us_near32(uint32_t t) { return uint32_t(fake::ticks_to_us(t, true)); }
inline uint32_t k_ticks_to_us_floor32(uint32_t t) { return uint32_t(fake::ticks_to_us(t, false)); }
inline uint64_t k_ticks_to_us_near64(uint64_t t) { return fake::ticks_to_us(t, true); }
inline uint64_t k_ticks_to_us_floor64(uint64_t t) { return fake::ticks_to_us(t, false); }
inline int32_t k_msleep(int32_t ms) {
    if (ms > 0) fake::pass(uint64_t(ms) * 1000);
    return 0;
}
inline int32_t k_usleep(int32_t us) {
    if (us > 0) fake::pass(uint64_t(us));
    return 0;
}
inline int32_t k_sleep(k_timeout_t t) {
    if (t.us > 0) fake::pass(uint64_t(t.us));
    return 0;
}
inline void k_busy_wait(uint32_t us) { fake::pass(us); }
inline void k_yield() {}
[[noreturn]] inline void fake_panic() { throw fake::Halted{}; }
#define k_panic() fake_panic()
#define k_oops() fake_panic()
