// Choice-sequence property testing engine.
//
// A case is a pure function of a sequence of bounded integers ("choices") which Ctx::draw hands out. A random run draws
// them from a seeded generator, a replay and the shrinker feed a stored sequence (exhausted: 0), libFuzzer its bytes.
// Cases run in a forked child that records each choice in shared memory before it is used, so that a sanitizer report,
// a crash or a hang leaves a replayable case behind just as a failed check does.
#pragma once

#include "spine/core/exception.hpp"
#include "spine/core/logging.hpp"
#include "spine/platform/hal.hpp"

#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#    define PBT_ASAN 1
#elif defined(__has_feature)
#    if __has_feature(address_sanitizer)
#        define PBT_ASAN 1
#    endif
#endif
#ifdef PBT_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" void __asan_set_death_callback(void (*callback)());
extern "C" void __asan_unpoison_memory_region(void const volatile* p, size_t n);
extern "C" void __sanitizer_start_switch_fiber(void** fake_stack_save, const void* bottom, size_t size);
extern "C" void __sanitizer_finish_switch_fiber(void* fake_stack_save, const void** bottom_old, size_t* size_old);
#endif

#ifdef DEBUG_SPINE
constexpr bool debug_build = true;
#else
constexpr bool debug_build = false;
#endif

namespace pbt {

// ------------------------------------------------------------------------------------------------ failures

struct Failure {
    std::string what;
};
struct Discard {};

/// What the test exception handler throws for an exception that Spine reports
struct Thrown {
    std::string type, what;
};

inline int g_thrown_count = 0;

struct ThrowingHandler : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception& e) override {
        ++g_thrown_count;
        throw Thrown{e.error_type(), e.what()};
    }
};

// ------------------------------------------------------------------------------------------------ shared memory

constexpr size_t MAX_CHOICES = 1 << 16;

struct Shared {
    uint64_t evaluations;
    uint64_t index; // of the running case
    uint64_t n; // number of choices drawn in the running case
    uint64_t in_case;
    char message[4096];
    uint64_t choices[MAX_CHOICES];
};

inline Shared* g_shared = nullptr;

inline void make_shared_memory() {
    if (g_shared) return;
    int fd = -1;
    int flags = MAP_SHARED | MAP_ANONYMOUS;
    if (const char* path = getenv("PBT_SHARED_FILE")) {
        fd = open(path, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) abort();
        flags = MAP_SHARED;
    }
    g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, flags, fd, 0));
    if (g_shared == MAP_FAILED) abort();
}

// ------------------------------------------------------------------------------------------------ choices

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

/// Text in static memory: telling the story of a case must not disturb the count of allocated bytes
class Story {
public:
    Story() : _os(&_buf) {}
    std::ostream& operator<<(const char* s) { return _os << s; }
    template<typename T>
    std::ostream& operator<<(const T& v) {
        return _os << v;
    }
    std::string str() const { return std::string(_buf.begin(), _buf.used()); }

private:
    struct Buf : std::streambuf {
        Buf() { setp(memory(), memory() + SIZE); }
        static char* memory() {
            static char m[SIZE];
            return m;
        }
        const char* begin() const { return pbase(); }
        size_t used() const { return static_cast<size_t>(pptr() - pbase()); }
        static constexpr size_t SIZE = 1 << 15;
    };
    Buf _buf;
    std::ostream _os;
};

inline size_t allocated_bytes() {
#ifdef PBT_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

class Ctx {
public:
    // sources
    void use_random(uint64_t seed) { _mode = RANDOM, _state = seed; }
    void use_choices(const std::vector<uint64_t>* in) { _mode = CHOICES, _in = in, _pos = 0; }
    void use_bytes(const uint8_t* data, size_t size) { _mode = BYTES, _data = data, _size = size, _pos = 0; }

    /// the elementary draw: a number in [0, max]. 0 is the simplest choice.
    uint64_t draw(uint64_t max) {
        uint64_t v = 0;
        if (_count >= MAX_CHOICES) return 0;
        if (before_draw && !_before_draw_runs) {
            _before_draw_runs = true;
            before_draw(*this);
            _before_draw_runs = false;
            if (_count >= MAX_CHOICES) return 0;
        }
        switch (_mode) {
        case RANDOM: {
            const auto r = splitmix(_state);
            v = max == UINT64_MAX ? r : r % (max + 1);
            break;
        }
        case CHOICES:
            if (_pos < _in->size()) v = std::min((*_in)[_pos++], max);
            break;
        case BYTES: {
            if (max == 0) break;
            for (auto m = max; m != 0 && _pos < _size; m >>= 8)
                v = v << 8 | _data[_pos++];
            if (max != UINT64_MAX) v %= max + 1;
            break;
        }
        }
        g_shared->choices[_count++] = v;
        g_shared->n = _count;
        return v;
    }

    size_t count() const { return _count; }

    // derived draws
    /// in [0, n)
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : draw(n - 1); }
    /// in [lo, hi]
    int64_t range(int64_t lo, int64_t hi) {
        return static_cast<int64_t>(static_cast<uint64_t>(lo) + draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
    }
    /// true with a probability of num in den; shrinks towards false
    bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }
    bool coin() { return draw(1) == 1; }

    /// integers in [lo, hi] with a preference for small ones, the ends, powers of two and of ten and their neighbours
    int64_t nasty(int64_t lo, int64_t hi) {
        if (lo >= hi) return lo;
        const auto clamp = [&](__int128 v) -> int64_t {
            return v < lo ? lo : v > hi ? hi : static_cast<int64_t>(v);
        };
        const __int128 origin = lo > 0 ? lo : hi < 0 ? hi : 0;
        const auto kind = draw(11);
        if (kind <= 3) {
            const __int128 d = draw(16);
            return clamp(lo < 0 && hi > 0 && coin() ? origin - d : hi <= 0 ? origin - d : origin + d);
        }
        if (kind <= 5) return coin() ? clamp(static_cast<__int128>(hi) - draw(3)) : clamp(static_cast<__int128>(lo) + draw(3));
        if (kind <= 8) {
            __int128 p = 1;
            if (kind == 6) {
                p = static_cast<__int128>(1) << draw(62);
            } else {
                for (auto e = draw(18); e > 0; --e)
                    p *= 10;
                if (kind == 8) p *= static_cast<__int128>(range(1, 9));
            }
            p += range(-2, 2);
            return clamp(lo < 0 && coin() ? -p : p);
        }
        if (kind == 9) { // uniform in the exponent
            const auto bits = draw(62);
            const __int128 p = draw((1ull << bits));
            return clamp(lo < 0 && coin() ? -p : p);
        }
        return range(lo, hi);
    }

    /// index according to weights
    size_t weighted(std::initializer_list<unsigned> ws) { return weighted(ws.begin(), ws.size()); }
    size_t weighted(const std::vector<unsigned>& ws) { return weighted(ws.data(), ws.size()); }
    size_t weighted(const unsigned* ws, size_t n) {
        uint64_t sum = 0;
        for (size_t i = 0; i < n; ++i)
            sum += ws[i];
        auto r = below(sum);
        for (size_t i = 0; i < n; ++i) {
            if (r < ws[i]) return i;
            r -= ws[i];
        }
        return 0;
    }
    /// generates a weight per operation (swarm testing): some off, some rare, some often
    std::vector<unsigned> swarm(size_t n) {
        std::vector<unsigned> w(n);
        const bool all = draw(2) == 0;
        for (auto& x : w) {
            static const unsigned ws[] = {3, 3, 8, 1, 0};
            x = all ? 3 : ws[draw(4)];
        }
        bool any = false;
        for (auto x : w)
            any |= x > 0;
        if (!any) w[0] = 1;
        return w;
    }
    template<typename T>
    T pick(std::initializer_list<T> l) {
        return *(l.begin() + below(l.size()));
    }
    template<typename C>
    auto& pick_from(C& container) {
        return container[below(container.size())];
    }

    /// draws the scale of a case: the average number of steps that `more` will allow
    uint64_t scale() {
        static const uint64_t scales[] = {4, 10, 25, 60, 150};
        return _scale = scales[weighted({2, 4, 4, 2, 1})];
    }
    /// continue a loop? shrinks to no.
    bool more() { return _count < MAX_CHOICES - 4096 && draw(_scale) != 0; }
    bool more(uint64_t average) { return _count < MAX_CHOICES - 4096 && draw(average) != 0; }

    /// called before each draw, and may draw itself
    void (*before_draw)(Ctx&) = nullptr;
    void leave_before_draw() { _before_draw_runs = false; }
    uint64_t current_scale() const { return _scale; }
    void restore_scale(uint64_t s) { _scale = s; }

    // observation
    void nontrivial() { _nontrivial = true; }
    void label(const char* l) {
        if (labels) (*labels)[l]++;
    }

    // narration of a case, used for samples and for reports of violations
    bool narrate = false;
    Story story;
    std::map<std::string, uint64_t>* labels = nullptr;

    bool is_nontrivial() const { return _nontrivial; }

private:
    enum { RANDOM, CHOICES, BYTES } _mode = RANDOM;
    uint64_t _state = 0;
    const std::vector<uint64_t>* _in = nullptr;
    const uint8_t* _data = nullptr;
    size_t _size = 0;
    size_t _pos = 0;
    size_t _count = 0;
    bool _before_draw_runs = false;
    uint64_t _scale = 25;
    bool _nontrivial = false;
};

#define NOTE(c, ...)                                                                                                   \
    do {                                                                                                               \
        if ((c).narrate) (c).story << __VA_ARGS__ << "; ";                                                             \
    } while (0)

// ------------------------------------------------------------------------------------------------ checks

template<typename T, typename = void>
struct printable : std::false_type {};
template<typename T>
struct printable<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<const T&>())>> : std::true_type {};

template<typename T>
void show(std::ostream& os, const T& v) {
    if constexpr (std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t> || std::is_same_v<T, char>)
        os << int(v);
    else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>) {
        os << '"';
        for (unsigned char ch : v) {
            if (ch >= 32 && ch < 127 && ch != '"' && ch != '\\')
                os << ch;
            else {
                char b[8];
                snprintf(b, sizeof b, "\\x%02x", ch);
                os << b;
            }
        }
        os << '"';
    } else if constexpr (std::is_floating_point_v<T>) {
        char b[64];
        snprintf(b, sizeof b, "%.17g", double(v));
        os << b;
    } else if constexpr (std::is_enum_v<T>)
        os << static_cast<long long>(v);
    else if constexpr (printable<T>::value)
        os << v;
    else
        os << "<?>";
}
template<typename T>
void show(std::ostream& os, const std::vector<T>& v) {
    os << '[';
    for (size_t i = 0; i < v.size(); ++i) {
        if (i) os << ' ';
        show(os, v[i]);
    }
    os << ']';
}
template<typename T>
void show(std::ostream& os, const std::deque<T>& v) {
    show(os, std::vector<T>(v.begin(), v.end()));
}
template<typename T>
void show(std::ostream& os, const std::optional<T>& v) {
    if (v)
        show(os, *v);
    else
        os << "nullopt";
}
template<typename T>
std::string str(const T& v) {
    std::ostringstream os;
    show(os, v);
    return os.str();
}

[[noreturn]] inline void fail(const std::string& what) { throw Failure{what}; }
/// the message under construction. Global, so that checks stay cheap to compile and to run.
inline std::ostringstream& message() {
    static std::ostringstream os;
    os.str("");
    return os;
}
struct Sink {
    [[noreturn, gnu::cold, gnu::noinline]] void operator&(std::ostream& os) const {
        throw Failure{static_cast<std::ostringstream&>(os).str()};
    }
};
template<typename A, typename B>
[[noreturn, gnu::cold, gnu::noinline]] void fail_eq(std::ostream& os, const A& a, const B& b) {
    os << ": got ";
    show(os, a);
    os << ", expected ";
    show(os, b);
    throw Failure{static_cast<std::ostringstream&>(os).str()};
}

#define CHECK(cond, ...)                                                                                               \
    do {                                                                                                               \
        if (__builtin_expect(!(cond), 0)) ::pbt::Sink() & (::pbt::message() << __VA_ARGS__);                           \
    } while (0)

/// compares what the code did (a) with what the oracle says (b)
#define CHECK_EQ(a, b, ...)                                                                                            \
    do {                                                                                                               \
        const auto _va = (a);                                                                                          \
        const auto _vb = (b);                                                                                          \
        if (__builtin_expect(!(_va == _vb), 0)) ::pbt::fail_eq(::pbt::message() << __VA_ARGS__, _va, _vb);             \
    } while (0)

/// Runs f, returns what Spine reported through its exception handler, if anything
template<typename F>
std::optional<Thrown> thrown_by(F&& f) {
    try {
        f();
    } catch (const Thrown& t) {
        return t;
    }
    return std::nullopt;
}

// ------------------------------------------------------------------------------------------------ registry

using PropFn = void (*)(Ctx&);
struct Prop {
    const char* name;
    unsigned weight;
    PropFn fn;
};
inline std::vector<Prop>& props() {
    static std::vector<Prop> p;
    return p;
}
struct Register {
    Register(const char* name, unsigned weight, PropFn fn) {
        auto& p = props();
        p.push_back({name, weight, fn});
        // the order must not depend on the order in which translation units are initialised
        std::sort(p.begin(), p.end(), [](const Prop& a, const Prop& b) { return strcmp(a.name, b.name) < 0; });
    }
};
#ifndef PART
#    define PART 0
#endif

#define PROP(name, weight)                                                                                             \
    static void prop_##name(::pbt::Ctx& c);                                                                            \
    static ::pbt::Register reg_##name(#name, weight, prop_##name);                                                     \
    static void prop_##name([[maybe_unused]] ::pbt::Ctx& c)

// ------------------------------------------------------------------------------------------------ the world

/// global state of Spine, back to its beginning
inline void reset_world() {
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    // a handler that is kept for the life of the process: the code under test may replace it within a case
    spn::core::set_machine_exception_handler(std::make_unique<ThrowingHandler>());
#if defined(NATIVE)
    auto& ms = spn::platform::MockStateInstance();
    ms.millis = k_time_ms(0);
    ms.micros = k_time_us(0);
#else
    fake::state() = fake::State();
#endif
    g_thrown_count = 0;
}
#if defined(NATIVE)
inline void set_now_ms(int64_t ms) {
    spn::platform::MockStateInstance().millis = k_time_ms(ms);
    spn::platform::MockStateInstance().micros = k_time_us(0);
}
inline void advance_ms(int64_t ms) { spn::platform::MockStateInstance().millis += k_time_ms(ms); }
struct WorldClock {
    spn::platform::MockState state = spn::platform::MockStateInstance();
    void restore() const { spn::platform::MockStateInstance() = state; }
};
#else
inline void set_now_ms(int64_t ms) { fake::state().us = uint64_t(ms) * 1000; }
inline void advance_ms(int64_t ms) { fake::state().us += uint64_t(ms) * 1000; }
struct WorldClock {
    void restore() const {}
};
#endif
inline int64_t now_ms() { return HAL::millis().raw(); }

/// Calls `f` with a std::initializer_list of (at most eight of) the elements of `e`
template<typename T, typename C, typename F>
void with_list(const C& e, F&& f) {
    const auto at = [&](size_t i) { return e[i]; };
    using L = std::initializer_list<T>;
    switch (e.size()) {
    case 0: f(L{}); break;
    case 1: f(L{at(0)}); break;
    case 2: f(L{at(0), at(1)}); break;
    case 3: f(L{at(0), at(1), at(2)}); break;
    case 4: f(L{at(0), at(1), at(2), at(3)}); break;
    case 5: f(L{at(0), at(1), at(2), at(3), at(4)}); break;
    case 6: f(L{at(0), at(1), at(2), at(3), at(4), at(5)}); break;
    case 7: f(L{at(0), at(1), at(2), at(3), at(4), at(5), at(6)}); break;
    default: f(L{at(0), at(1), at(2), at(3), at(4), at(5), at(6), at(7)}); break;
    }
}

/// a size beyond what a history can fill step by step, about the limits of narrow counters
inline size_t gen_large(Ctx& c) {
    static const size_t sizes[] = {64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 1000, 1024, 4096, 32767, 32768, 65535, 65536, 65537, 70000};
    return c.chance(1, 4) ? 60 + c.draw(4000) : sizes[c.draw(c.chance(1, 3) ? std::size(sizes) - 1 : 14)];
}
/// sets a setting, which has to hold what it is given: the models are made from the settings
#define GIVE(field, ...)                                                                                               \
    do {                                                                                                               \
        const auto given_ = (__VA_ARGS__);                                                                             \
        field = given_;                                                                                                \
        CHECK(given_ == field, #field " does not hold what it is given");                                              \
    } while (0)
/// an amount of at most n: all, none, nearly all, or anything
inline size_t gen_part(Ctx& c, size_t n) {
    switch (c.draw(4)) {
    case 0: return c.draw(n);
    case 1: return n;
    case 2: return n - c.draw(std::min<size_t>(n, 3));
    case 3: return c.draw(std::min<size_t>(n, 300));
    default: return n / 2;
    }
}

// ------------------------------------------------------------------------------------------------ twins

/// Two cases at once in one program, which take turns whenever a choice is drawn: what they use may have nothing in common
class Twins {
public:
    static void run(Ctx& c, const std::function<void()>& body) {
        Twins t(c, body);
        t.run();
    }

private:
    static constexpr size_t STACK = 1 << 20;
    struct Fiber {
        ucontext_t context;
        uint64_t scale = 10;
        WorldClock clock; // each lives in a time of its own
        bool done = false;
        void* fake_stack = nullptr;
    };
    Ctx& _c;
    const std::function<void()>& _body;
    Fiber _fibers[2];
    ucontext_t _main;
    void* _main_fake_stack = nullptr;
    const void* _main_bottom = nullptr;
    size_t _main_size = 0;
    int _current = 0;
    std::exception_ptr _failure;
    inline static Twins* s_active = nullptr;

    Twins(Ctx& c, const std::function<void()>& body) : _c(c), _body(body) {}
    ~Twins() {
        _c.before_draw = nullptr;
        s_active = nullptr;
    }
    static char* stack(int i) {
        static char* const memory = static_cast<char*>(mmap(nullptr, 2 * STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        return memory + i * STACK;
    }
    void run() {
        s_active = this;
        for (int i = 0; i < 2; ++i) {
#ifdef PBT_ASAN
            __asan_unpoison_memory_region(stack(i), STACK); // what a failure left behind
#endif
            getcontext(&_fibers[i].context);
            _fibers[i].context.uc_stack.ss_sp = stack(i);
            _fibers[i].context.uc_stack.ss_size = STACK;
            _fibers[i].context.uc_link = nullptr;
            makecontext(&_fibers[i].context, &Twins::entry, 0);
        }
        _c.before_draw = [](Ctx& c) {
            if (c.draw(11) != 11) return;
            c.leave_before_draw();
            s_active->yield();
        };
        while (!_failure && !(_fibers[0].done && _fibers[1].done)) {
            if (_fibers[_current].done) _current = 1 - _current;
            if (_fibers[1 - _current].done) _c.before_draw = nullptr; // nobody to take turns with
            resume();
            if (!_fibers[_current].done) _current = 1 - _current;
        }
        _c.before_draw = nullptr;
        if (_failure) std::rethrow_exception(_failure);
    }
    void resume() {
        auto& f = _fibers[_current];
        _c.restore_scale(f.scale);
        f.clock.restore();
#ifdef PBT_ASAN
        __sanitizer_start_switch_fiber(&_main_fake_stack, stack(_current), STACK);
#endif
        swapcontext(&_main, &f.context);
#ifdef PBT_ASAN
        __sanitizer_finish_switch_fiber(_main_fake_stack, nullptr, nullptr);
#endif
    }
    void yield() {
        auto& f = _fibers[_current];
        f.scale = _c.current_scale();
        f.clock = WorldClock();
        NOTE(_c, "| other one");
#ifdef PBT_ASAN
        __sanitizer_start_switch_fiber(&f.fake_stack, _main_bottom, _main_size);
#endif
        swapcontext(&f.context, &_main);
#ifdef PBT_ASAN
        __sanitizer_finish_switch_fiber(f.fake_stack, &_main_bottom, &_main_size);
#endif
    }
    static void entry() {
        auto& t = *s_active;
#ifdef PBT_ASAN
        __sanitizer_finish_switch_fiber(nullptr, &t._main_bottom, &t._main_size);
#endif
        t.in_fiber();
        t._fibers[t._current].done = true;
#ifdef PBT_ASAN
        __sanitizer_start_switch_fiber(nullptr, t._main_bottom, t._main_size);
#endif
        setcontext(&t._main);
    }
    void in_fiber() {
        try {
            _body();
        } catch (...) {
            _failure = std::current_exception();
        }
    }
};
/// runs `body` twice at once
inline void twins(Ctx& c, const std::function<void()>& body) {
    c.label("two at once");
    Twins::run(c, body);
}

} // namespace pbt

#ifdef PBT_MAIN
namespace pbt {
// ------------------------------------------------------------------------------------------------ running

struct Outcome {
    enum { PASS, FAIL, DISCARD } result = PASS;
    std::string what;
    const char* prop = "";
};

inline std::string current_exception_name() {
    const auto t = abi::__cxa_current_exception_type();
    if (!t) return "unknown exception";
    int status = 0;
    char* n = abi::__cxa_demangle(t->name(), nullptr, nullptr, &status);
    std::string s = status == 0 && n ? n : t->name();
    free(n);
    return s;
}

inline unsigned g_total_weight = 0;
inline int g_cpu_limit_s = 20;

inline void arm_timer(int seconds) {
    itimerval it{};
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &it, nullptr);
}

inline const Prop& select_prop(Ctx& c) {
    if (!g_total_weight)
        for (auto& p : props())
            g_total_weight += p.weight;
    auto r = c.below(g_total_weight);
    for (auto& p : props()) {
        if (r < p.weight) return p;
        r -= p.weight;
    }
    return props()[0];
}

inline Outcome run_case(Ctx& c) {
    Outcome o;
    g_shared->n = 0;
    g_shared->in_case = 1;
    reset_world();
    const auto& p = select_prop(c);
    o.prop = p.name;
    arm_timer(g_cpu_limit_s);
    try {
        p.fn(c);
    } catch (const Failure& f) {
        o.result = Outcome::FAIL, o.what = f.what;
    } catch (const Discard&) {
        o.result = Outcome::DISCARD;
    } catch (const Thrown& t) {
        o.result = Outcome::FAIL, o.what = "unexpected spine exception: " + t.type + ": " + t.what;
    } catch (const std::exception& e) {
        o.result = Outcome::FAIL, o.what = "unexpected C++ exception " + current_exception_name() + ": " + e.what();
    } catch (...) {
        o.result = Outcome::FAIL, o.what = "unexpected C++ exception " + current_exception_name();
    }
    reset_world();
    g_shared->in_case = 0;
    return o;
}

inline uint64_t hash_choices() {
    uint64_t h = 1469598103934665603ull;
    for (uint64_t i = 0; i < g_shared->n; ++i) {
        h ^= g_shared->choices[i] + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 1099511628211ull;
    }
    return h;
}

inline void write_shared_message(const std::string& s) {
    const auto n = std::min(s.size(), sizeof(g_shared->message) - 1);
    memcpy(g_shared->message, s.data(), n);
    g_shared->message[n] = 0;
}

enum ExitCode { EXIT_OK = 0, EXIT_PROPERTY = 77, EXIT_HANG = 78, EXIT_SANITIZER = 99 };

inline void on_sigprof(int) {
    const char m[] = "hang: the case exceeded its CPU time limit";
    memcpy(g_shared->message, m, sizeof m);
    _exit(EXIT_HANG);
}

inline uint64_t case_seed(uint64_t seed, uint64_t worker, uint64_t index) {
    uint64_t s = seed * 0x9e3779b97f4a7c15ull + worker * 0xd1342543de82ef95ull + index * 0x2545f4914f6cdd1dull;
    splitmix(s);
    return splitmix(s);
}

inline std::string json_escape(const std::string& s) {
    std::string r;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\')
            r += '\\', r += ch;
        else if (ch < 32 || ch > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            r += b;
        } else
            r += ch;
    }
    return r;
}

inline double seconds() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

#ifndef PBT_FUZZER

inline void silence(const std::string& err_path) {
    const int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    const int e = err_path.empty() ? n : open(err_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(e, 2);
}

struct Attempt {
    bool failed = false;
    std::string what;
    std::vector<uint64_t> choices;
};

inline std::string describe_exit(int status) {
    if (WIFSIGNALED(status)) return std::string("killed by signal ") + strsignal(WTERMSIG(status));
    if (WEXITSTATUS(status) == EXIT_SANITIZER) return "sanitizer report";
    return "exit status " + std::to_string(WEXITSTATUS(status));
}

/// A line that says what a sanitizer reported
inline std::string sanitizer_summary(const std::string& path) {
    std::ifstream f(path);
    std::string line, runtime, summary;
    while (std::getline(f, line)) {
        if (runtime.empty() && (line.find("runtime error:") != std::string::npos || line.find("Error: ") != std::string::npos))
            runtime = line;
        if (line.rfind("SUMMARY:", 0) == 0) summary = line;
    }
    return runtime.empty() ? summary : runtime + " " + summary;
}

inline std::string g_scratch;

inline Attempt attempt(const std::vector<uint64_t>& in, int cpu_limit, std::string* story = nullptr, bool keep_report = false) {
    g_shared->message[0] = 0;
    const auto story_path = g_scratch + "/story";
    const auto report_path = g_scratch + "/report";
    fflush(nullptr);
    const auto pid = fork();
    if (pid == 0) {
        silence(keep_report ? report_path : "");
        signal(SIGPROF, on_sigprof);
        g_cpu_limit_s = cpu_limit;
        Ctx c;
        c.use_choices(&in);
        c.narrate = story != nullptr;
        static Ctx* current = nullptr;
        static std::string where;
        current = &c;
        where = story_path;
        static const auto tell = [] {
            std::ofstream f(where);
            f << current->story.str();
        };
#    ifdef PBT_ASAN
        if (story) __asan_set_death_callback([] { tell(); });
#    endif
        const auto o = run_case(c);
        if (story) tell();
        if (o.result == Outcome::FAIL) {
            write_shared_message(std::string(o.prop) + ": " + o.what);
            _exit(EXIT_PROPERTY);
        }
        _exit(EXIT_OK);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    Attempt a;
    a.choices.assign(g_shared->choices, g_shared->choices + g_shared->n);
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == EXIT_OK)) {
        a.failed = true;
        a.what = g_shared->message[0] ? g_shared->message : describe_exit(status);
        if (keep_report && !g_shared->message[0]) {
            const auto s = sanitizer_summary(report_path);
            if (!s.empty()) a.what = s;
        }
    }
    if (story) {
        std::ifstream f(story_path);
        story->assign(std::istreambuf_iterator<char>(f), {});
    }
    return a;
}

inline std::vector<uint64_t> shrink(std::vector<uint64_t> best, double budget_s) {
    const auto deadline = seconds() + budget_s;
    const auto late = [&] { return seconds() > deadline; };
    const auto shorter = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
        return a.size() != b.size() ? a.size() < b.size() : a < b;
    };
    const auto strip = [](std::vector<uint64_t>& v) {
        while (!v.empty() && v.back() == 0)
            v.pop_back();
    };
    strip(best);
    const auto try_it = [&](std::vector<uint64_t> cand) {
        strip(cand);
        if (!shorter(cand, best)) return false;
        auto a = attempt(cand, 4);
        if (!a.failed) return false;
        strip(a.choices);
        best = shorter(a.choices, cand) ? a.choices : cand;
        return true;
    };
    // truncate
    for (size_t keep = best.size() / 2; keep > 0 && !late();) {
        auto cand = best;
        if (keep < cand.size()) cand.resize(keep);
        if (try_it(cand))
            keep = best.size() / 2;
        else
            keep += std::max<size_t>(1, (best.size() - keep) / 2);
        if (keep >= best.size()) break;
    }
    for (bool progress = true; progress && !late();) {
        progress = false;
        for (size_t len : {64, 32, 16, 8, 6, 5, 4, 3, 2, 1}) {
            for (size_t i = best.size(); i-- > 1 && !late();) { // the first choice selects the property
                if (i + len > best.size()) continue;
                auto cand = best;
                cand.erase(cand.begin() + i, cand.begin() + i + len);
                if (try_it(cand)) {
                    progress = true;
                    i = std::min(i + 1, best.size());
                }
            }
        }
        for (size_t i = 1; i < best.size() && !late(); ++i) {
            if (best[i] == 0) continue;
            auto cand = best;
            cand[i] = 0;
            if (try_it(cand)) {
                progress = true;
                continue;
            }
            // binary search for the smallest value that fails
            uint64_t lo = 0, hi = best[i];
            for (int guard = 0; lo + 1 < hi && guard < 70 && !late(); ++guard) {
                const auto mid = lo + (hi - lo) / 2;
                cand = best;
                if (i >= cand.size()) break;
                cand[i] = mid;
                if (try_it(cand)) {
                    progress = true;
                    if (i >= best.size()) break;
                    hi = std::min(mid, best[i]);
                } else
                    lo = mid;
            }
            if (i < best.size() && best[i] > 0) {
                cand = best;
                cand[i]--;
                if (try_it(cand)) progress = true;
            }
        }
    }
    return best;
}

inline void write_choices(std::ostream& os, const std::vector<uint64_t>& v) {
    for (size_t i = 0; i < v.size(); ++i)
        os << (i ? " " : "") << v[i];
}

/// Runs the cases [from, to] of a worker in one child process, true if one fails
inline Attempt attempt_history(uint64_t seed, uint64_t worker, uint64_t from, uint64_t to) {
    g_shared->message[0] = 0;
    fflush(nullptr);
    const auto pid = fork();
    if (pid == 0) {
        silence("");
        signal(SIGPROF, on_sigprof);
        for (auto i = from; i <= to; ++i) {
            Ctx c;
            c.use_random(case_seed(seed, worker, i));
            const auto o = run_case(c);
            if (o.result == Outcome::FAIL) {
                write_shared_message(std::string(o.prop) + ": " + o.what);
                _exit(EXIT_PROPERTY);
            }
        }
        _exit(EXIT_OK);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    Attempt a;
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == EXIT_OK)) {
        a.failed = true;
        a.what = g_shared->message[0] ? g_shared->message : describe_exit(status);
    }
    return a;
}

struct Options {
    uint64_t seed = 1, worker = 0, min_cases = 0, max_cases = UINT64_MAX;
    double secs = 5, shrink_secs = 30;
    std::string out, replay, shrink_file;
    std::string config = "rel";
};

inline void report_failure(const Options& opt, const std::string& kind, const Attempt& a, const std::string& payload,
                           const std::string& story) {
    std::ofstream f(opt.out + ".failure");
    f << "kind=" << kind << "\nwhat=";
    for (auto ch : a.what)
        f << (ch == '\n' ? ' ' : ch);
    f << "\nstory=";
    for (auto ch : story)
        f << (ch == '\n' ? ' ' : ch);
    f << "\n" << payload << "\n";
}

/// Shrinks a failing case, makes sure that it fails each time and writes it down. False if it is not reproducible.
inline bool conclude(const Options& opt, const std::vector<uint64_t>& choices) {
    if (!attempt(choices, 15).failed) return false;
    auto best = shrink(choices, opt.shrink_secs);
    Attempt a;
    std::string story;
    for (int i = 0; i < 3; ++i) {
        a = attempt(best, 15, &story, true);
        if (!a.failed) {
            best = choices;
            a = attempt(best, 15, &story, true);
            if (!a.failed) return false;
        }
    }
    std::ostringstream os;
    os << "choices=";
    write_choices(os, best);
    report_failure(opt, "choices", a, os.str(), story);
    return true;
}

/// Loop of the search, in a child of its own
inline int search_child(const Options& opt, uint64_t first_index, double deadline, double hard_deadline) {
    silence("");
    signal(SIGPROF, on_sigprof);
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t discarded = 0, nontrivial = 0, since_sample = 1;
    constexpr size_t max_distinct = 400000;
    auto index = first_index;
    const auto started = g_shared->evaluations;
    for (;; ++index) {
        const auto n = g_shared->evaluations;
        if (n >= opt.max_cases) break;
        const auto t = seconds();
        if (t > deadline && (n >= opt.min_cases || t > hard_deadline)) break;
        g_shared->index = index;
        Ctx c;
        c.use_random(case_seed(opt.seed, opt.worker, index));
        c.labels = &labels;
        c.narrate = samples.size() < 6 && since_sample++ % 7 == 0;
        const auto o = run_case(c);
        g_shared->evaluations++;
        if (o.result == Outcome::FAIL) {
            write_shared_message(std::string(o.prop) + ": " + o.what);
            _exit(EXIT_PROPERTY);
        }
        labels[std::string("prop:") + o.prop]++;
        if (o.result == Outcome::DISCARD) discarded++;
        if (c.is_nontrivial()) {
            nontrivial++;
            if (distinct.size() < max_distinct) distinct.insert(hash_choices());
            if (c.narrate) {
                auto s = std::string(o.prop) + ": " + c.story.str();
                if (s.size() > 600) s = s.substr(0, 600) + " ...";
                samples.push_back(s);
            }
        }
    }
    arm_timer(0);
    std::ofstream f(opt.out);
    f << "{\"evaluations\": " << g_shared->evaluations - started << ", \"nontrivial\": " << nontrivial
      << ", \"discarded\": " << discarded << ", \"distinct\": " << distinct.size() << ", \"labels\": {";
    bool first = true;
    for (auto& [k, v] : labels) {
        f << (first ? "" : ", ") << "\"" << json_escape(k) << "\": " << v;
        first = false;
    }
    f << "}, \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i)
        f << (i ? ", " : "") << "\"" << json_escape(samples[i]) << "\"";
    f << "]}\n";
    f.close();
    std::ofstream h(opt.out + ".hashes", std::ios::binary);
    for (auto x : distinct)
        h.write(reinterpret_cast<const char*>(&x), sizeof x);
    h.close();
    _exit(f.good() && h.good() ? EXIT_OK : 3);
}

inline int run_search(const Options& opt) {
    const auto start = seconds();
    const auto deadline = start + opt.secs;
    const auto hard_deadline = start + opt.secs * 2 + 10;
    uint64_t first = 0;
    int unreproduced = 0;
    for (;;) {
        g_shared->message[0] = 0;
        g_shared->index = first;
        fflush(nullptr);
        const auto pid = fork();
        if (pid == 0) search_child(opt, first, deadline, hard_deadline);
        int status = 0;
        waitpid(pid, &status, 0);
        if (WIFEXITED(status) && WEXITSTATUS(status) == EXIT_OK) break;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 3) return 3;
        // a case failed
        const std::string message = g_shared->message[0] ? g_shared->message : describe_exit(status);
        const auto index = g_shared->index;
        const std::vector<uint64_t> choices(g_shared->choices, g_shared->choices + g_shared->n);
        fprintf(stderr, "worker %llu: case %llu failed: %s\n", (unsigned long long)opt.worker,
                (unsigned long long)index, message.c_str());
        if (conclude(opt, choices)) return 1;
        // it may need the cases that ran before it in the same process
        for (uint64_t back = 1;; back *= 4) {
            const auto from = index >= first + back ? index - back : first;
            int hits = 0;
            Attempt a;
            for (int i = 0; i < 3; ++i) {
                a = attempt_history(opt.seed, opt.worker, from, index);
                if (a.failed)
                    ++hits;
                else
                    break;
            }
            if (hits == 3) {
                std::ostringstream os;
                os << "seed=" << opt.seed << "\nworker=" << opt.worker << "\nfrom=" << from << "\nto=" << index;
                report_failure(opt, "history", a, os.str(), "fails only after the preceding cases");
                return 1;
            }
            if (from == first) break;
        }
        fprintf(stderr, "worker %llu: not reproducible, going on\n", (unsigned long long)opt.worker);
        if (++unreproduced > 20) return 4;
        first = index + 1;
    }
    return 0;
}

inline std::string read_value(const std::string& path, const std::string& key) {
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line))
        if (line.rfind(key + "=", 0) == 0) return line.substr(key.size() + 1);
    return "";
}

inline std::vector<uint64_t> parse_choices(const std::string& s) {
    std::vector<uint64_t> v;
    std::istringstream is(s);
    uint64_t x;
    while (is >> x)
        v.push_back(x);
    return v;
}

inline int pbt_main(int argc, char** argv) {
    setenv("TZ", "UTC", 1);
    Options opt;
    for (int i = 1; i + 1 < argc; i += 2) {
        const std::string k = argv[i];
        const char* v = argv[i + 1];
        if (k == "--seed") opt.seed = strtoull(v, nullptr, 10);
        if (k == "--worker") opt.worker = strtoull(v, nullptr, 10);
        if (k == "--secs") opt.secs = atof(v);
        if (k == "--shrink-secs") opt.shrink_secs = atof(v);
        if (k == "--min-cases") opt.min_cases = strtoull(v, nullptr, 10);
        if (k == "--max-cases") opt.max_cases = strtoull(v, nullptr, 10);
        if (k == "--out") opt.out = v;
        if (k == "--replay") opt.replay = v;
        if (k == "--shrink") opt.shrink_file = v;
    }
    make_shared_memory();
    char dir[] = "/tmp/pbt.XXXXXX";
    if (!mkdtemp(dir)) return 5;
    g_scratch = dir;
    int rc = 0;
    if (!opt.replay.empty()) {
        Attempt a;
        std::string story;
        if (read_value(opt.replay, "kind") == "history")
            a = attempt_history(strtoull(read_value(opt.replay, "seed").c_str(), nullptr, 10),
                                strtoull(read_value(opt.replay, "worker").c_str(), nullptr, 10),
                                strtoull(read_value(opt.replay, "from").c_str(), nullptr, 10),
                                strtoull(read_value(opt.replay, "to").c_str(), nullptr, 10));
        else
            a = attempt(parse_choices(read_value(opt.replay, "choices")), 20, &story, true);
        if (a.failed) printf("FAILS: %s\n", a.what.c_str());
        printf("%s\n", story.c_str());
        rc = a.failed ? 1 : 0;
    } else if (!opt.shrink_file.empty()) {
        rc = conclude(opt, parse_choices(read_value(opt.shrink_file, "choices"))) ? 1 : 0;
    } else {
        rc = run_search(opt);
    }
    unlink((g_scratch + "/story").c_str());
    unlink((g_scratch + "/report").c_str());
    rmdir(g_scratch.c_str());
    return rc;
}

#endif

} // namespace pbt

// leaks are decided by the properties themselves: the search leaves its processes with _exit
extern "C" inline const char* pbt_asan_options() {
    return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=2000:"
           "malloc_fill_byte=190:max_malloc_fill_size=1048576:detect_stack_use_after_return=1:"
           "hard_rss_limit_mb=4000:handle_abort=1:quarantine_size_mb=16:print_suppressions=0";
}
extern "C" __attribute__((used, visibility("default"))) const char* __asan_default_options() { return pbt_asan_options(); }
extern "C" __attribute__((used, visibility("default"))) const char* __ubsan_default_options() {
    return "exitcode=99:print_stacktrace=0";
}

#ifdef PBT_FUZZER
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    setenv("TZ", "UTC", 1);
    pbt::make_shared_memory();
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    pbt::Ctx c;
    c.use_bytes(data, size);
    pbt::g_shared->evaluations++;
    const auto o = pbt::run_case(c);
    if (o.result == pbt::Outcome::FAIL) {
        pbt::write_shared_message(std::string(o.prop) + ": " + o.what);
        pbt::g_shared->in_case = 1;
        abort();
    }
    return 0;
}
#else
int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
#endif
#endif // PBT_MAIN
