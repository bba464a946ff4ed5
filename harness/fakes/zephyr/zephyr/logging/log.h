#pragma once
#include <zephyr/kernel.h>
#include <cstdarg>
#include <cstdio>

#define LOG_LEVEL_NONE 0
#define LOG_LEVEL_ERR 1
#define LOG_LEVEL_WRN 2
#define LOG_LEVEL_INF 3
#define LOG_LEVEL_DBG 4

namespace fake {
template<typename... A>
void logged(int level, int compiled, const char* format, A... a) {
    if (level > compiled) return;
    char b[2048];
    snprintf(b, sizeof b, format, a...);
    state().log.emplace_back(level, b);
}
} // namespace fake

#define LOG_MODULE_REGISTER(name, level) static constexpr int fake_module_level = level
#define LOG_MODULE_DECLARE(name, level) [[maybe_unused]] static const char* fake_module = #name
#define LOG_ERR(...) ::fake::logged(LOG_LEVEL_ERR, fake_module_level, __VA_ARGS__)
#define LOG_WRN(...) ::fake::logged(LOG_LEVEL_WRN, fake_module_level, __VA_ARGS__)
#define LOG_INF(...) ::fake::logged(LOG_LEVEL_INF, fake_module_level, __VA_ARGS__)
#define LOG_DBG(...) ::fake::logged(LOG_LEVEL_DBG, fake_module_level, __VA_ARGS__)
