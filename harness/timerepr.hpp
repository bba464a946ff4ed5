// Independent reading of how durations are to be printed
#pragma once
#include "pbt.hpp"
namespace pbt {
/// us: a duration in microseconds, exact
inline int64_t round_div(__int128 v, int64_t d) { return int64_t(v >= 0 ? (v + d / 2) / d : -((-v + d / 2) / d)); }
struct ReprUnit {
    const char* name;
    __int128 us;
    int64_t below;
};
inline const std::vector<ReprUnit>& repr_units() {
    static const std::vector<ReprUnit> u = {{"us", 1, 1000}, {"ms", 1000, 1000}, {"s", 1000000, 900}, {"m", 60000000, 1440}, {"h", 3600000000ll, 24}, {"d", 86400000000ll, INT64_MAX}};
    return u;
}
/// the text for a duration that is `v` times `unit_us` long
inline std::string expected_repr(__int128 v, int64_t unit_us, std::string* unit = nullptr, int64_t* number = nullptr) {
    const __int128 us = v * unit_us;
    for (auto& u : repr_units()) {
        const auto n = round_div(us, int64_t(u.us));
        if (n < u.below) {
            if (unit) *unit = u.name;
            if (number) *number = n;
            return std::to_string(n) + u.name;
        }
    }
    return "?";
}
} // namespace pbt
