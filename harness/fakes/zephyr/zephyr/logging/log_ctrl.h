#pragma once
#include <zephyr/logging/log.h>
struct log_backend {
    const char* name;
};
inline const log_backend* log_backend_get_by_name(const char* name) {
    static log_backend b{"spine"};
    return &b;
}
inline uint32_t log_filter_set(const log_backend*, uint32_t, int16_t, uint32_t level) {
    fake::state().filter = int(level);
    return level;
}
