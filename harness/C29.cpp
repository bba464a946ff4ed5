// C29: logging prints exactly the enabled levels and never overruns its buffer
#include "pbt.hpp"

#include "spine/core/debugging.hpp"
#include "spine/core/logging.hpp"

#include <cinttypes>

using namespace pbt;
using spn::logging::LogLevel;

namespace {

constexpr size_t ROOM = SPINE_LOGGING_MAX_MSG_SIZE - 1; // what fits
const LogLevel LEVELS[] = {LogLevel::ERR, LogLevel::WARN, LogLevel::INFO, LogLevel::DEBUG};
const char* name(LogLevel l) { return l == LogLevel::ERR ? "ERR" : l == LogLevel::WARN ? "WARN" : l == LogLevel::INFO ? "INFO" : "DBG"; }

/// what is printed while it exists
struct Capture {
    std::ostringstream text;
    std::streambuf* before;
    Capture() : before(std::cout.rdbuf(text.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(before); }
    std::string take() {
        auto s = text.str();
        text.str("");
        return s;
    }
};

std::string line(LogLevel level, const std::string& message, const std::string& where) {
    char prefix[64];
    snprintf(prefix, sizeof prefix, "[%08" PRIu32 "] [%s] ", uint32_t(now_ms()), name(level));
    auto s = prefix + message;
    s = s.substr(0, ROOM);
    if (level == LogLevel::DEBUG) s = (s + where).substr(0, ROOM);
    return s + "\n";
}

std::string gen_text(Ctx& c) {
    size_t n;
    switch (c.below(4)) {
    case 0: n = c.below(40); break;
    case 1: n = ROOM - std::min<size_t>(ROOM, c.below(40)); break;
    case 2: n = c.below(3 * ROOM); break;
    default: n = ROOM + c.below(4);
    }
    std::string s;
    const auto seed = c.below(90);
    for (size_t i = 0; i < n; ++i) s += char('!' + (seed + i * 7) % 90);
    // what would be taken for a format
    if (n >= 2 && c.chance(1, 3)) s.replace(c.below(n - 1), 2, c.coin() ? "%%" : "%d");
    return s;
}
/// a buffer with nothing behind it
struct Exact {
    std::unique_ptr<char[]> p;
    explicit Exact(const std::string& s) : p(new char[s.size() + 1]) { memcpy(p.get(), s.c_str(), s.size() + 1); }
    operator const char*() const { return p.get(); }
};

} // namespace

PROP(levels, 3) {
    Capture out;
    auto level = LogLevel::OFF;
    int printed = 0, suppressed = 0;
    while (c.more(12)) {
        if (c.chance(1, 3)) {
            level = c.pick<LogLevel>({LogLevel::OFF, LogLevel::ERR, LogLevel::WARN, LogLevel::INFO, LogLevel::DEBUG});
            NOTE(c, "level " << int(level));
            spn::logging::set_log_level(level);
            CHECK(spn::logging::log_level() == level, "level reads back as " << int(spn::logging::log_level()) << ", expected " << int(level));
            CHECK_EQ(out.take(), std::string(), "setting the level prints");
        }
        for (auto l : LEVELS) CHECK_EQ(spn::logging::is_loggable(l), int(l) <= int(level), "whether level " << int(l) << " is enabled at " << int(level));
        if (c.coin()) set_now_ms(c.nasty(0, 1ll << 40));
        const auto at = LEVELS[c.below(4)];
        const auto kind = c.below(5);
        const auto text = gen_text(c);
        const Exact exact(text);
        const auto i = int(c.range(-100000, 100000));
        const auto u = unsigned(c.range(0, 4000000000ll));
        const auto d = double(c.range(-100000, 100000)) / 64;
        NOTE(c, name(at) << " with form " << kind << " and " << text.size() << " characters");
        std::string message;
        int where = 0;
        // the same statement on each level; debug messages carry their location
#define STATEMENT(...)                                                                                                 \
    {                                                                                                                  \
        where = __LINE__;                                                                                              \
        switch (at) {                                                                                                  \
        case LogLevel::ERR: SPN_ERR(__VA_ARGS__); break;                                                               \
        case LogLevel::WARN: SPN_WARN(__VA_ARGS__); break;                                                             \
        case LogLevel::INFO: SPN_LOG(__VA_ARGS__); break;                                                              \
        default: SPN_DBG(__VA_ARGS__);                                                                                 \
        }                                                                                                              \
        char b[4096];                                                                                                  \
        snprintf(b, sizeof b, __VA_ARGS__);                                                                            \
        message = b;                                                                                                   \
    }
        switch (kind) {
        case 0: STATEMENT("%s", (const char*)exact); break;
        case 1: STATEMENT("nothing to fill in"); break;
        case 2: STATEMENT("%d and %u, %.3f is 100%%", i, u, d); break;
        case 3: STATEMENT("%s: %08x %c (%5d)", (const char*)exact, u, 'x', i); break;
        default: STATEMENT("%.*s|%" PRId64, int(c.below(20)), (const char*)exact, int64_t(i) * 1000000007); break;
        }
#undef STATEMENT
        if (kind == 4) message.clear(); // computed with another draw: done below
        if (kind == 4) {
            // the precision was drawn twice: repeat with one that is known
            out.take();
            const auto n = int(c.below(20));
            where = __LINE__ + 1;
            SPN_LOG_IMPL(at, "%.*s|%" PRId64, n, (const char*)exact, int64_t(i) * 1000000007);
            message = text.substr(0, size_t(n)) + "|" + std::to_string(int64_t(i) * 1000000007);
        }
        const bool compiled_in = at != LogLevel::DEBUG || debug_build || kind == 4;
        const bool enabled = compiled_in && int(at) <= int(level);
        const auto expected = enabled ? line(at, message, std::string(" (") + __FILE__ + ":" + std::to_string(where) + " " + __func__ + ")") : std::string();
        CHECK_EQ(out.take(), expected, "printed by " << name(at) << " at level " << int(level));
        enabled ? ++printed : ++suppressed;
        if (enabled && expected.size() == ROOM + 1) c.label("cut off");
        if (enabled && expected.size() == ROOM) c.label("just fits");
    }
    if (printed && suppressed) c.nontrivial();
}

// what the macros end up in, with any location
PROP(print, 2) {
    Capture out;
    set_now_ms(c.nasty(0, 1ll << 40));
    const auto at = LEVELS[c.below(4)];
    const auto file = gen_text(c), function = gen_text(c), text = gen_text(c);
    const auto number = int(c.nasty(0, INT32_MAX));
    NOTE(c, name(at) << " of " << text.size() << " characters from a file of " << file.size() << ", line " << number << ", function of " << function.size());
    const Exact f(file), g(function), t(text);
    spn::logging::detail::print(at, f, number, g, "%s", (const char*)t);
    CHECK_EQ(out.take(), line(at, text, " (" + file + ":" + std::to_string(number) + " " + function + ")"), "printed");
    if (text.size() + 20 > ROOM) c.nontrivial();
}

// printing without logging
PROP(hal_print, 1) {
    Capture out;
    std::string expected;
    while (c.more(4)) {
        const auto text = gen_text(c);
        const Exact exact(text);
        const auto i = int(c.range(-100000, 100000));
        NOTE(c, text.size() << " characters");
        switch (c.below(5)) {
        case 0: HAL::print((const char*)exact), expected = text; break;
        case 1: HAL::println((const char*)exact), expected = text + "\n"; break;
        case 2: HAL::print(i), expected = std::to_string(i); break;
        case 3: HAL::println(std::string(text)), expected = text + "\n"; break;
        default: HAL::printf("%d:%s", i, (const char*)exact), expected = (std::to_string(i) + ":" + text).substr(0, 255);
        }
        HAL::printflush();
        CHECK_EQ(out.take(), expected, "printed");
        if (text.size() > 10) c.nontrivial();
    }
}
