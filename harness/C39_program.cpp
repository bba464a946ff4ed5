// The program of C39. It is built several times (platforms, compilers, with and without assertions), reads a script and
// writes down whatever a user of the library can see. All builds have to write the same.
#include "spine/controller/pid.hpp"
#include "spine/controller/sr_latch.hpp"
#include "spine/core/debugging.hpp"
#include "spine/core/exception.hpp"
#include "spine/core/logging.hpp"
#include "spine/core/utils/string.hpp"
#include "spine/core/utils/time_repr.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/io/stream/stream.hpp"
#include "spine/io/stream/transaction.hpp"
#include "spine/platform/gpio.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/array.hpp"
#include "spine/structure/linebuffer.hpp"
#include "spine/structure/point.hpp"
#include "spine/structure/pool.hpp"
#include "spine/structure/result.hpp"
#include "spine/structure/ringbuffer.hpp"
#include "spine/structure/stack.hpp"
#include "spine/structure/static_string.hpp"
#include "spine/structure/time/datetime.hpp"
#include "spine/structure/time/schedule.hpp"
#include "spine/structure/time/timers.hpp"
#include "spine/structure/units/si.hpp"
#include "spine/structure/vector.hpp"

#include <array>
#include <cstdarg>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>

#ifdef ARDUINO
char* __brkval = nullptr; // of the Arduino runtime
#endif

using namespace spn;
using namespace spn::structure;

namespace {

struct Script {
    const uint32_t* p;
    size_t n, i = 0;
    bool more() const { return i < n; }
    uint32_t next(uint32_t below) { return i < n ? p[i++] % below : 0; }
    uint32_t raw() { return i < n ? p[i++] : 0; }
};

std::string g_out;
size_t g_budget;
void out(const char* format, ...) {
    char b[512];
    va_list a;
    va_start(a, format);
    vsnprintf(b, sizeof b, format, a);
    va_end(a);
    if (g_out.size() < g_budget) g_out += b, g_out += '\n';
}
void out_bytes(const char* what, std::string_view v) {
    std::string s;
    char b[8];
    for (unsigned char ch : v)
        if (ch >= ' ' && ch < 127 && ch != '\\') s += char(ch);
        else snprintf(b, sizeof b, "\\%02x", ch), s += b;
    out("%s [%zu] %.400s", what, v.size(), s.c_str());
}

struct Raised {
    std::string type, what;
};
struct Handler : core::ExceptionHandler {
    void handle_exception(const core::Exception& e) override { throw Raised{e.error_type(), e.what()}; }
};

// the platform
void start(int64_t ms) {
#if defined(NATIVE)
    platform::MockStateInstance().millis = k_time_ms(ms);
    platform::MockStateInstance().micros = k_time_us(0);
#else
    fake::state() = fake::State();
    fake::state().us = uint64_t(ms) * 1000;
#endif
}
void pass(int64_t ms) {
#if defined(NATIVE)
    platform::MockStateInstance().millis += k_time_ms(ms);
#else
    fake::state().us += uint64_t(ms) * 1000;
#endif
}
/// what `f` puts on the console
template<typename F>
std::string console(F&& f) {
#if defined(NATIVE)
    std::ostringstream os;
    auto* const before = std::cout.rdbuf(os.rdbuf());
    f();
    std::cout.rdbuf(before);
    return os.str();
#elif defined(ARDUINO)
    Serial.out.clear();
    f();
    return Serial.out;
#else
    fake::state().log.clear();
    f();
    std::string s;
    for (auto& [level, text] : fake::state().log)
        s += text + "\n";
    return s;
#endif
}

int64_t big(Script& s) {
    switch (s.next(5)) {
    case 0: return int64_t(s.next(20));
    case 1: return int64_t(s.next(100000));
    case 2: return int64_t(s.raw());
    case 3: {
        const auto v = int64_t(s.raw());
        return v * int64_t(s.next(1000));
    }
    default: return int64_t(s.next(2000)) - 1000;
    }
}
float real(Script& s) {
    switch (s.next(4)) {
    case 0: return float(s.next(20));
    case 1: return (float(s.next(20000)) - 10000) / 8;
    case 2: return (float(s.next(2000000)) - 1000000) / 777;
    default: return float(s.next(1000)) / 1000;
    }
}
std::string text(Script& s) {
    static const char alphabet[] = "ab1. -\t\n\r;\xff\x80\x7f";
    std::string t;
    for (auto k = s.next(24); k > 0; --k)
        t += alphabet[s.next(sizeof alphabet - 1)];
    return t;
}

void run_vectors(Script& s) {
    const size_t cap = 1 + s.next(7);
    Vector<int> v(cap);
    Array<int> a(cap, 7);
    while (s.more()) {
        const int e = int(s.next(100));
        const bool room = v.size() < v.max_size();
        switch (s.next(13)) {
        case 0: if (room) v.push_back(e); break;
        case 1: if (room) v.push_front(e); break;
        case 2: if (room) v.emplace_back(int(e)); break;
        case 3: if (room) v.emplace_front(int(e)); break;
        case 4: if (room) v.insert(s.next(uint32_t(v.size()) + 1), e); break;
        case 5: if (!v.empty()) out("remove %d", v.remove(s.next(uint32_t(v.size())))); break;
        case 6: if (!v.empty()) { const int t = v.pop_back(); out("back %d", t); } break;
        case 7: if (!v.empty()) { const int t = v.pop_front(); out("front %d", t); } break;
        case 8: if (s.next(6) == 0) v.clear(); break;
        case 9: a[s.next(uint32_t(cap))] = e; break;
        case 10: if (s.next(4) == 0) v.fill(e); break;
        case 11: {
            Vector<int> w = {e, e + 1, e + 2};
            v.swap(w);
            out("held %zu", w.size());
            a = {e, 2, 3, 4, 5, 6, 7};
            break;
        }
        default: {
            unsigned long sum = 0;
            for (auto it = v.rbegin(); it != v.rend(); ++it)
                sum = sum * 31 + unsigned(*it);
            for (auto it = a.begin(); it != a.end(); it++)
                sum = sum * 31 + unsigned(*it);
            out("sum %lu", sum);
        }
        }
        std::string all;
        for (auto& x : v)
            all += std::to_string(x) + " ";
        out("%zu/%zu %d%d: %s", v.size(), v.max_size(), v.empty(), v.full(), all.c_str());
        if (!v.empty()) out("%d..%d, %d..%d, %d", v.front(), v.back(), v.peek_front(), v.peek_back(), v[0]);
    }
}

void run_rings(Script& s) {
    RingBuffer<int> r(1 + s.next(9));
    structure::Stack<int> k(5);
    Pool<int> pool(3);
    for (int i = 0; i < 3; ++i)
        pool.populate(std::make_shared<int>(i));
    std::array<std::shared_ptr<int>, 4> held;
    int b[16] = {};
    while (s.more()) {
        int e = int(s.next(100));
        switch (s.next(10)) {
        case 0: case 1: out("push %d", r.push(e, s.next(2))); break;
        case 2: {
            for (auto& x : b)
                x = ++e;
            const size_t n = s.next(16);
            out("push %zu", r.push(b, n, s.next(2)));
            break;
        }
        case 3: out("pop %d", r.pop(b[0])), out("%d", b[0]); break;
        case 4: out("pop %zu", r.pop(b, s.next(16))); break;
        case 5: out("peek %d", r.peek_at(b[1], s.next(12))), out("%d", b[1]); break;
        case 6: out("drop %zu", s.next(2) ? r.drop_first(s.next(5)) : r.drop_last(s.next(5))); break;
        case 7: if (k.size() < 5) k.push(e); break;
        case 8: if (!k.empty()) out("top %d", k.top()), k.pop(); break;
        default: {
            auto& h = held[s.next(4)];
            if (h) h.reset();
            else if ((h = pool.acquire())) out("acquired %d", *h);
            else out("exhausted");
        }
        }
        out("%zu %zu %zu %d%d, %zu", r.used_space(), r.free_space(), r.overrun_space(), r.empty(), r.full(), k.size());
    }
}

struct FixedStream final : io::Stream {
    std::string in, sent;
    size_t pos = 0, offer = 0, room = 0;
    void initialize() override {}
    bool read(uint8_t& v) override {
        if (!available()) return false;
        --offer;
        v = uint8_t(in[pos++]);
        return true;
    }
    size_t read(uint8_t* b, size_t n) override {
        size_t i = 0;
        while (i < n && read(b[i]))
            ++i;
        return i;
    }
    bool write(const uint8_t v) override {
        if (!room) return false;
        --room;
        sent += char(v);
        return true;
    }
    size_t write(const uint8_t* const b, size_t n) override {
        size_t i = 0;
        while (i < n && write(b[i]))
            ++i;
        return i;
    }
    size_t available() const override { return in.size() - pos < offer ? in.size() - pos : offer; }
    size_t available_for_write() const override { return room; }
    void flush() override {}
};

void run_streams(Script& s) {
    auto raw = std::make_shared<FixedStream>();
    static const char* const sets[] = {"\r\n", "\n", ";\xff", "\x80"};
    const char* const delimiters = sets[s.next(4)];
    io::BufferedStream b(raw, io::BufferedStream::Config{1 + s.next(20), 1 + s.next(20), delimiters});
    LineBuffer lines(1 + s.next(20), delimiters);
    char line[64];
    while (s.more()) {
        switch (s.next(9)) {
        case 0: raw->in += text(s), raw->offer += s.next(30); break;
        case 1: raw->room += s.next(30); break;
        case 2: out("in %zu", b.pull_in_data()); break;
        case 3: out("out %zu", b.push_out_data()); break;
        case 4: out("line [%zu]", b.get_next_line(line, 1 + s.next(63))); break;
        case 5: {
            auto t = b.new_transaction();
            if (!t) break;
            out_bytes("request", t->incoming());
            const auto reply = text(s);
            const auto n = reply.size() < t->outgoing_space_left() ? reply.size() : t->outgoing_space_left();
            out("reply %zu", t->outgoing(reply.data(), n));
            if (s.next(3) == 0) t->abort();
            else if (s.next(2)) t->commit();
            break;
        }
        case 6: out("buffered %zu", s.next(2) ? b.buffered_write(uint8_t(s.next(256))) : b.buffered_write(text(s))); break;
        case 7: {
            const auto t = text(s);
            for (auto ch : t)
                lines.push(ch, true);
            const auto view = lines.get_next_line_view();
            if (view) out_bytes("view", *view);
            out("drop %d", lines.drop_next_line());
            break;
        }
        default: out("drop %d", b.drop_next_line());
        }
        out("%zu %zu %zu", b.input_buffer_space_used(), b.output_buffer_space_used(), b.length_of_next_line());
    }
    out_bytes("sent", raw->sent);
}

void run_events(Script& s) {
    using namespace core;
    enum class Id : uint8_t { A, B, C, COUNT };
    struct Hd : EventHandler {
        char name;
        Script& s;
        int left;
        Hd(EventSystem* e, char n, Script& script) : EventHandler(e), name(n), s(script), left(20) {}
        void handle_event(const Event& e) override {
            out("%c hears of %zu at %lld, %s %g", name, e.id(), (long long)HAL::millis().raw(), e.data().has_value() ? "with" : "without", 0.0);
            if (left > 0 && s.next(4) == 0) {
                --left;
                const auto id = Id(s.next(3));
                evsys()->schedule(id, k_time_ms(1 + s.next(20)), Event::Data(float(left)));
            }
        }
    };
    const size_t cap = 30;
    EventSystem sys({.events_count = size_t(Id::COUNT), .events_cap = cap + 50, .handler_cap = 2, .delay_between_ticks = s.next(2) == 1, .min_delay_between_ticks = k_time_ms(s.next(200)), .max_delay_between_ticks = k_time_ms(1 + s.next(500))});
    Hd a(&sys, 'a', s), b(&sys, 'b', s);
    sys.attach(Id::A, &a), sys.attach(Id::A, &b), sys.attach(Id::B, &b), sys.attach(Id::C, &a);
    size_t scheduled = 0;
    while (s.more()) {
        switch (s.next(5)) {
        case 0: case 1: {
            if (++scheduled >= cap) break;
            const auto id = Id(s.next(3));
            const k_time_ms in(1 + big(s) % 5000 + 5000);
            sys.schedule(id, in, s.next(2) ? Event::Data(uint32_t(s.raw())) : Event::Data());
            break;
        }
        case 2: {
            const auto id = Id(s.next(3));
            sys.trigger(id, Event::Data(k_time_s(int64_t(s.next(100)))));
            break;
        }
        case 3: pass(s.next(6000)); break;
        default:
            sys.loop();
            out("looped, now %lld", (long long)HAL::millis().raw());
        }
        out("%s", sys.pipeline_as_string().c_str());
    }
}

void run_controllers(Script& s) {
    using namespace controller;
    using namespace structure::time;
    PID pid(PID::Config{.tunings = {.Kp = std::abs(real(s)), .Ki = float(s.next(10)), .Kd = float(s.next(5)) / 4}, .output_lower_limit = -100, .sample_interval = k_time_ms(1 + s.next(500)), .proportionality = s.next(2) ? PID::Proportionality::ON_ERROR : PID::Proportionality::ON_MEASUREMENT, .direction = s.next(2) ? PID::Direction::FORWARD : PID::Direction::REVERSE});
    SRLatch latch(SRLatch::Config{.high = 5, .low = 1, .minimal_on_time = k_time_ms(s.next(50)), .maximal_on_time = k_time_ms(s.next(3) ? 0 : 100), .minimal_off_time = k_time_ms(s.next(50)), .maximal_off_time = k_time_ms(s.next(3) ? 0 : 100)});
    pid.initialize();
    Timer timer;
    AlarmTimer alarm(k_time_ms(s.next(1000)));
    IntervalTimer interval{k_time_ms(1 + s.next(100)), s.next(2) == 1};
    while (s.more()) {
        pass(s.next(100));
        switch (s.next(6)) {
        case 0: pid.set_target_setpoint(real(s)); break;
        case 1: case 2: pid.new_reading(real(s)), out("pid %a, off by %a", pid.response(), pid.error()); break;
        case 3: latch.new_reading(float(s.next(8))), out("latch %d", latch.response()); break;
        case 4: out("timer %lld", (long long)timer.time_since_last(s.next(2)).raw()); break;
        default:
            out("alarm %d", alarm.expired()), out("in %lld", (long long)alarm.time_from_now().raw());
            out("interval %d", interval.expired()), out("in %lld", (long long)interval.time_until_next().raw());
        }
    }
    float process = 0, drive = 0;
    const auto t = pid.autotune({.setpoint = 50, .startpoint = float(s.next(100)), .hysteresis = 0.5f, .cycles = 3}, [&](float v) { drive = v; }, [&] { return process += (drive - process) * 0.1f; });
    out("tuned %a %a %a at %lld", t.Kp, t.Ki, t.Kd, (long long)HAL::millis().raw());
}

void run_filters(Script& s) {
    using namespace filter;
    filter::Stack<> stack(3);
    BandPass<> band(BandPass<>::Config{.mode = s.next(2) ? BandPass<>::Mode::RELATIVE : BandPass<>::Mode::ABSOLUTE, .mantissa = 1.0f + float(s.next(8)), .decades = float(s.next(4)) - 2, .rejection_limit = int(s.next(4)), .throw_on_rejection_limit = s.next(2) == 1});
    for (int i = 0; i < 3; ++i)
        switch (s.next(4)) {
        case 0: stack.attach_filter(EWMA<>::Short()); break;
        case 1: stack.attach_filter(MappedRange<>::Percentage(-1000, 1000)); break;
        case 2: stack.attach_filter(std::make_unique<Passthrough<>>(Passthrough<>::Config{})); break;
        default: stack.attach_filter(EWMA<>::Long());
        }
    while (s.more()) {
        const auto v = real(s);
        switch (s.next(4)) {
        case 0:
            try {
                band.new_sample(v);
            } catch (const Raised& e) {
                out("%s: %s", e.type.c_str(), e.what.c_str());
            }
            out("band %a", band.value());
            break;
        case 1: out("stack %a", stack.value(v)); break;
        case 2: if (s.next(5) == 0) stack.reset_to(v); break;
        default: out("value %a", stack.value());
        }
    }
}

void run_units(Script& s) {
    namespace u = core::utils;
    while (s.more()) {
        switch (s.next(8)) {
        case 0: {
            const auto v = big(s);
            const k_time_ms ms(v);
            out("%lld us, %lld s, %lld m, %lld h, %lld d", (long long)k_time_us(ms).raw(), (long long)k_time_s(ms).raw(), (long long)k_time_m(ms).raw(), (long long)k_time_h(ms).raw(), (long long)k_time_d(ms).raw());
            out("%s, %s", u::repr(ms).c_str(), u::repr(k_time_us(v)).c_str());
            break;
        }
        case 1: {
            const k_time_s a(big(s));
            const k_time_m b(big(s));
            out("%lld %lld %d%d%d", (long long)(a + b).raw(), (long long)(a - b).raw(), a < b, a == b, a >= b);
            break;
        }
        case 2: {
            const meter_m a(real(s));
            const meter_k b(real(s));
            out("%a %a %a %d", double((a + b).raw()), double((b - a).raw()), double(meter(a).raw()), a < b);
            break;
        }
        case 3: {
            const auto t = to_kernel_time(time_ms(real(s)));
            out("%lld %a", (long long)t.raw(), double(to_real_time(t).raw()));
            break;
        }
        case 4: {
            auto t = std::to_string(s.next(100000000));
            t += (const char*[]){"us", "ms", "s", "m", "h", "d", "", "x"}[s.next(8)];
            const auto p = u::parse_time(t);
            if (p) std::visit([](auto v) { out("parsed %lld us", (long long)k_time_us(v).raw()); }, *p);
            else out("not a time");
            break;
        }
        case 5: {
            const auto seconds = time_t(s.raw());
            DateTime d(seconds * (1 + time_t(s.next(3))));
            char b[64];
            d.strf_DateTime(b, sizeof b);
            out("%s; %d-%d-%d %d %d, %lld", b, d.getYear(), d.getMonth(), d.getDay(), d.getWeekDay(), d.getYearDay(), (long long)d.getY2kTime());
            break;
        }
        case 6: {
            const structure::time::Schedule day({{k_time_s(int64_t(s.next(40000))), k_time_s(1 + int64_t(s.next(30000))), 1.5f}, {k_time_s(70000), k_time_s(1 + int64_t(s.next(16400))), 2.5f}});
            const k_time_s t(int64_t(s.next(86400)));
            out("%g until %lld", day.value_at(t), (long long)day.start_of_next_block(t).raw());
            break;
        }
        default: {
            const XYPoint<int> p{int(s.next(100)), int(s.next(100))}, q{1 + int(s.next(9)), 1 + int(s.next(9))};
            const auto r = (p + q) * q - p / q;
            out("%d %d %d %d", r.x, r.y, r.mag(), p == q);
        }
        }
    }
}

void run_strings(Script& s) {
    namespace u = core::utils;
    StaticString fixed(20 + s.next(40));
    while (s.more()) {
        const auto t = text(s), d = text(s);
        out_bytes("left", u::lstrip(t, d)), out_bytes("right", u::rstrip(t));
        out("%d %d %zd", u::starts_with(t, d), u::ends_with(t, d), ssize_t(u::find_first_of(t, d)));
        auto number = std::to_string(int(s.next(2000)) - 1000) + ".";
        number += std::to_string(s.next(1000));
        number += s.next(4) ? "" : "x";
        out("%a", double(u::to_float(number)));
        const auto n = t.size() < fixed.capacity() ? t.size() : fixed.capacity();
        if (n) {
            memcpy(fixed.data(n), t.data(), n);
            fixed.lstrip(d).rstrip();
            out_bytes("fixed", fixed.view());
        }
    }
}

void run_results(Script& s) {
    struct E {
        int code;
    };
    using R = Result<int, E, float>;
    while (s.more()) {
        const int v = int(s.next(100));
        R r = s.next(4) == 0 ? R() : s.next(3) == 0 ? R(v) : s.next(2) ? R::failed(E{v}) : R::intermediary(float(v));
        r = r.chain([](float& f) { return f > 50 ? R(int(f)) : R::intermediary(f + 1); });
        out("%d%d%d", r.is_success(), r.is_intermediary(), r.is_failed());
        const auto m = r.map([](const int& x) { return double(x) / 2; }).map_error([](const E& e) { return long(e.code); });
        if (r.is_success() || r.is_intermediary() || r.is_failed()) out("%g", m.match([](double x) { return x; }, [](long e) { return double(-e); }, [](float f) { return double(f * 3); }));
        out("%d %d", r.value_or(-1), r.unwrap_or_else([] { return 5; }));
        const auto n = r.and_then([](const int& x) { return x % 2 ? R(x + 1) : R::failed(E{x}); }).or_else([](const E& e) { return e.code > 10 ? R(e.code) : R::intermediary(1.5f); });
        out("%d%d%d", n.is_success(), n.is_intermediary(), n.is_failed());
    }
}

void run_logs(Script& s) {
    using namespace logging;
    while (s.more()) {
        const auto level = (const LogLevel[]){LogLevel::OFF, LogLevel::ERR, LogLevel::WARN, LogLevel::INFO}[s.next(4)];
        set_log_level(level);
        out("level %d: %d%d%d", int(log_level()), is_loggable(LogLevel::ERR), is_loggable(LogLevel::WARN), is_loggable(LogLevel::INFO));
        char what[32];
        snprintf(what, sizeof what, "<%u>", s.raw());
        const auto which = s.next(4);
        const auto got = console([&] {
            switch (which) {
            case 0: SPN_LOG("%s", what); break;
            case 1: SPN_WARN("%s", what); break;
            case 2: SPN_ERR("%s", what); break;
            default:
                try {
                    spn::throw_exception(runtime_exception("went wrong"));
                    out("went on");
                } catch (const Raised& e) {
                    out("%s: %s", e.type.c_str(), e.what.c_str());
                }
            }
        });
        size_t times = 0;
        for (auto at = got.find(what); at != std::string::npos; at = got.find(what, at + 1))
            ++times;
        out("printed %zu times", times);
        set_log_level(LogLevel::OFF);
    }
}

void run_delays(Script& s) {
    struct Out : platform::AnalogueOutput<Out> {
        void set_value_impl(float v) { out("value %a at %lld", double(v), (long long)HAL::millis().raw()); }
    } o;
    struct Dig : platform::DigitalOutput<Dig> {
        void initialize_impl() { out("initialised"); }
        void set_state_impl(core::LogicalState v) { out("state %d", int(v)); }
    } d;
    while (s.more()) {
        const auto n = int64_t(s.next(50));
        switch (s.next(8)) {
        case 0: HAL::delay(k_time_s(n)); break;
        case 1: HAL::delay(k_time_ms(n)); break;
        case 2: HAL::delay(k_time_us(n * 1000)); break;
        case 3: HAL::delay_ms(k_time_ms(n)); break;
        case 4: HAL::delay_us(k_time_us(n * 1000)); break;
        case 5: HAL::delay(k_time_m(n % 3)); break;
        case 6: {
            const auto to = float(s.next(9)) / 8;
            o.fade_to(to, float(1 + s.next(4)) / 16, k_time_ms(n));
            break;
        }
        default: s.next(2) ? d.flip() : s.next(2) ? d.set_state(s.next(2) == 1) : d.initialize(s.next(2) == 1);
        }
        out("now %lld ms, %g", (long long)HAL::millis().raw(), double(o.value()));
    }
}

} // namespace

extern "C" __attribute__((visibility("default"))) const char* spine_program(const uint32_t* script, size_t n, size_t budget) {
    static const bool once = [] {
        core::set_machine_exception_handler(std::make_unique<Handler>());
        return true;
    }();
    (void)once;
    g_out.clear();
    g_budget = budget;
    Script s{script, n};
    const auto which = s.next(10);
    // what is logged differs between builds, so it is not looked at (but for run_logs)
    struct Nowhere : std::streambuf {
        int overflow(int c) override { return c; }
        std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
    } nowhere;
    auto* const before = std::cout.rdbuf(&nowhere);
#ifdef ARDUINO
    Serial.out.clear();
#endif
    logging::set_log_level(s.next(3) ? logging::LogLevel::OFF : logging::LogLevel::DEBUG);
    start(int64_t(s.next(4) ? s.next(100000) : s.next(1u << 31)));
    try {
        switch (which) {
        case 0: run_vectors(s); break;
        case 1: run_rings(s); break;
        case 2: run_streams(s); break;
        case 3: run_events(s); break;
        case 4: run_controllers(s); break;
        case 5: run_filters(s); break;
        case 6: run_units(s); break;
        case 7: run_strings(s); break;
        case 8: run_results(s); break;
        default: s.next(2) ? run_logs(s) : run_delays(s);
        }
    } catch (const Raised& e) {
        out("%s: %s", e.type.c_str(), e.what.c_str());
    }
    std::cout.rdbuf(before);
    return g_out.c_str();
}
