// C33: the Arduino platform does to pins, interrupts, serial port and clock what was asked of the HAL
#include "pbt.hpp"

#include "spine/core/debugging.hpp"

using namespace pbt;
using spn::core::LogicalState;
using spn::core::TriggerType;

namespace {

const int INTERRUPT_PINS[] = {2, 3, 21, 20, 19, 18};

struct Port {
    HardwareSerial& s;
    explicit Port(HardwareSerial& s) : s(s) { s = HardwareSerial(); }
    ~Port() { s = HardwareSerial(); }
};

/// each of the handlers counts its calls
int g_calls[4];
template<int I>
void handler() {
    ++g_calls[I];
}
using Handler = void (*)();
const Handler HANDLERS[] = {handler<0>, handler<1>, handler<2>, handler<3>};

fake::Pin& pin(int p) { return fake::state().pins[p]; }

} // namespace

PROP(digital_output, 3) {
    using Out = HAL::DigitalOutput;
    struct One {
        Out out;
        int pin;
        bool low;
        bool known = false; // initialised or set
        bool state = false;
    };
    std::vector<std::unique_ptr<One>> all;
    std::set<int> taken;
    const auto n = 1 + c.below(4);
    for (size_t i = 0; i < n; ++i) {
        const int p = int(c.below(70));
        if (!taken.insert(p).second) continue;
        const bool low = c.coin();
        NOTE(c, "output on pin " << p << (low ? ", active on low" : ""));
        all.push_back(std::make_unique<One>(One{Out(spn::platform::ArduinoDigitalOutput::Config{uint8_t(p), low}), p, low}));
        CHECK(pin(p).driven == 0, "pin " << p << " is driven by a constructor");
    }
    int sets = 0;
    while (c.more(30)) {
        auto& o = *all[c.below(all.size())];
        const auto before = fake::state().pins;
        switch (c.weighted({2, 4, 3, 3})) {
        case 0: {
            const auto how = c.below(3);
            NOTE(c, "initialize pin " << o.pin << " form " << how);
            if (how == 0) o.out.initialize();
            else
                o.out.initialize(how == 1);
            o.state = how == 1;
            CHECK_EQ(pin(o.pin).mode, OUTPUT, "mode of pin " << o.pin << " after initialize");
            break;
        }
        case 1: {
            const bool v = c.coin();
            NOTE(c, "set pin " << o.pin << " to " << v);
            o.out.set_state(v);
            o.state = v;
            break;
        }
        case 2: {
            const bool v = c.coin();
            NOTE(c, "set pin " << o.pin << " to state " << v);
            o.out.set_state(v ? LogicalState::ON : LogicalState::OFF);
            o.state = v;
            break;
        }
        default:
            NOTE(c, "flip pin " << o.pin);
            o.out.flip();
            o.state = !o.state;
            if (o.known) c.label("flipped");
            break;
        }
        o.known = true;
        ++sets;
        CHECK(pin(o.pin).driven > before.at(o.pin).driven, "pin " << o.pin << " is not driven");
        for (auto& other : all) {
            CHECK_EQ(int(other->out.state()), int(other->state), "state of the output on pin " << other->pin);
            if (other->known) CHECK_EQ(pin(other->pin).level, int(other->state != other->low), "level of pin " << other->pin);
            if (other.get() != &o) CHECK(pin(other->pin) == before.at(other->pin), "pin " << other->pin << " changed along");
        }
        for (auto& [p, s] : fake::state().pins) CHECK(taken.count(p), "pin " << p << " is touched");
    }
    if (sets >= 3) c.nontrivial();
}

PROP(inputs, 3) {
    struct D {
        HAL::DigitalInput in;
        int pin;
        bool up;
    };
    struct A {
        HAL::AnalogueInput in;
        int pin;
        bool up;
    };
    std::vector<std::unique_ptr<D>> ds;
    std::vector<std::unique_ptr<A>> as;
    std::set<int> taken;
    const auto n = 1 + c.below(5);
    for (size_t i = 0; i < n; ++i) {
        const int p = int(c.below(70));
        if (!taken.insert(p).second) continue;
        const bool up = c.coin();
        if (c.coin()) {
            NOTE(c, "digital input on pin " << p << (up ? ", pulled up" : ""));
            ds.push_back(std::make_unique<D>(D{HAL::DigitalInput(spn::platform::ArduinoDigitalInput::Config{uint8_t(p), up}), p, up}));
            ds.back()->in.initialize();
            CHECK_EQ(pin(p).mode, up ? INPUT_PULLUP : INPUT, "mode of pin " << p);
        } else {
            NOTE(c, "analogue input on pin " << p << (up ? ", pulled up" : ""));
            as.push_back(std::make_unique<A>(A{HAL::AnalogueInput(spn::platform::ArduinoAnalogueInput::Config{uint8_t(p), up}), p, up}));
            as.back()->in.initialize();
            CHECK_EQ(pin(p).mode == INPUT_PULLUP, up, "whether pin " << p << " is pulled up");
            CHECK(pin(p).mode != OUTPUT, "pin " << p << " is an output");
        }
    }
    int reads = 0;
    while (c.more(30)) {
        const auto p = *std::next(taken.begin(), c.below(taken.size()));
        pin(p).level = c.coin();
        pin(p).adc = int(c.nasty(0, 1023));
        NOTE(c, "pin " << p << " is at " << pin(p).level << " and " << pin(p).adc);
        const auto before = fake::state().pins;
        for (auto& d : ds) CHECK_EQ(int(std::as_const(d->in).state()), pin(d->pin).level, "state of the input on pin " << d->pin);
        for (auto& a : as) {
            const auto v = a->in.read();
            CHECK(v == float(pin(a->pin).adc / 1024.0), "read of pin " << a->pin << " at " << pin(a->pin).adc << " gives " << v);
        }
        CHECK(before == fake::state().pins, "reading changed a pin");
        ++reads;
    }
    if (reads >= 3) c.nontrivial();
}

PROP(analogue_output, 3) {
    using Out = HAL::AnalogueOutput;
    struct One {
        Out out;
        int pin;
        bool low;
        bool known = false;
        float value = 0;
    };
    const auto bits = c.pick<int>({8, 8, 8, 10, 12, 16, 1, 4});
    const int top = (1 << bits) - 1;
    std::vector<std::unique_ptr<One>> all;
    std::set<int> taken;
    const auto n = 1 + c.below(3);
    for (size_t i = 0; i < n; ++i) {
        const int p = int(c.below(70));
        if (!taken.insert(p).second) continue;
        const bool low = c.coin();
        NOTE(c, "output on pin " << p << " with " << bits << " bits" << (low ? ", active on low" : ""));
        all.push_back(std::make_unique<One>(One{Out(spn::platform::ArduinoAnalogueOutput::Config{uint8_t(p), low, uint8_t(bits)}), p, low}));
    }
    const auto settle = [&](const One& o) {
        const auto duty = pin(o.pin).pwm;
        const auto ideal = double(o.low ? 1 - o.value : o.value) * top;
        CHECK(duty >= 0 && duty <= top, "pin " << o.pin << " is given a duty of " << duty << " of " << top << " for " << o.value);
        CHECK(std::fabs(duty - ideal) <= 1 + 1e-3, "pin " << o.pin << " is given a duty of " << duty << " of " << top << " for " << o.value << (o.low ? " active on low" : ""));
        if (o.value == 0) CHECK_EQ(duty, o.low ? top : 0, "duty of pin " << o.pin << " when it is off");
        if (o.value == 1) CHECK_EQ(duty, o.low ? 0 : top, "duty of pin " << o.pin << " when it is on");
        CHECK(o.out.value() == o.value, "value of the output on pin " << o.pin << " is " << o.out.value() << ", expected " << o.value);
    };
    int sets = 0;
    for (auto& o : all) {
        o->out.initialize();
        CHECK_EQ(fake::state().resolution, bits, "resolution");
        o->known = true;
        settle(*o);
    }
    while (c.more(30)) {
        auto& o = *all[c.below(all.size())];
        const auto before = fake::state().pins;
        const auto v = c.chance(1, 4) ? float(c.below(2)) : c.coin() ? float(c.below(top + 1)) / float(top) : float(c.below(1000001)) / 1000000.0f;
        switch (c.weighted({6, 1, 2})) {
        case 0:
            NOTE(c, "set pin " << o.pin << " to " << v);
            o.out.set_value(v);
            o.value = v;
            break;
        case 1:
            NOTE(c, "initialize pin " << o.pin);
            o.out.initialize();
            o.value = 0;
            break;
        default: {
            const auto step = float(1 + c.below(50)) / 100.0f;
            const auto interval = int64_t(c.below(500));
            NOTE(c, "fade pin " << o.pin << " to " << v << " by " << step);
            const auto at = fake::state().us;
            const auto distance = std::fabs(v - o.value);
            o.out.fade_to(v, step, k_time_ms(interval));
            o.value = v;
            const auto steps = double(fake::state().us - at) / 1000;
            CHECK(steps <= (distance / step + 1) * double(interval) + 1e-6, "fading by " << distance << " in steps of " << step << " took " << steps << " ms");
            c.label("faded");
            break;
        }
        }
        ++sets;
        for (auto& other : all) {
            settle(*other);
            if (other.get() != &o) CHECK(pin(other->pin) == before.at(other->pin), "pin " << other->pin << " changed along");
        }
        for (auto& [p, s] : fake::state().pins) CHECK(taken.count(p), "pin " << p << " is touched");
    }
    if (sets >= 3) c.nontrivial();
}

PROP(interrupts, 4) {
    struct One {
        HAL::Interrupt irq;
        int pin;
        TriggerType mode;
        int handler; // -1: none
        bool attached = false;
    };
    std::vector<std::unique_ptr<One>> all;
    std::set<int> taken;
    for (auto& n : g_calls) n = 0;
    const TriggerType MODES[] = {TriggerType::RISING_EDGE, TriggerType::FALLING_EDGE, TriggerType::RISING_AND_FALLING_EDGE, TriggerType::UNDEFINED};
    const auto n = 1 + c.below(4);
    for (size_t i = 0; i < n; ++i) {
        const int p = INTERRUPT_PINS[c.below(6)];
        if (!taken.insert(p).second) continue;
        const auto mode = MODES[c.below(4)];
        const auto h = int(c.below(5)) - 1;
        const bool up = c.coin();
        NOTE(c, "interrupt on pin " << p << " mode " << int(mode) << " handler " << h);
        all.push_back(std::make_unique<One>(One{HAL::Interrupt(spn::platform::ArduinoInterrupt::Config{uint8_t(p), mode, up, h < 0 ? nullptr : HANDLERS[h]}), p, mode, h}));
        all.back()->irq.initialize();
        CHECK_EQ(pin(p).mode, up ? INPUT_PULLUP : INPUT, "mode of pin " << p);
        CHECK(fake::state().irqs.empty(), "initialize attaches");
    }
    int expected[4] = {};
    int fired = 0, detached = 0;
    while (c.more(40)) {
        auto& o = *all[c.below(all.size())];
        switch (c.weighted({3, 1, 6})) {
        case 0: {
            auto mode = MODES[c.below(4)];
            auto h = int(c.below(5)) - 1;
            // one of both is required
            if (h < 0 && o.handler < 0) h = 0;
            if (mode == TriggerType::UNDEFINED && o.mode == TriggerType::UNDEFINED) mode = TriggerType::RISING_EDGE;
            NOTE(c, "attach pin " << o.pin << " handler " << h << " mode " << int(mode));
            if (h < 0 && mode == TriggerType::UNDEFINED && c.coin()) o.irq.attach_interrupt();
            else if (mode == TriggerType::UNDEFINED && c.coin())
                o.irq.attach_interrupt(HANDLERS[h < 0 ? o.handler : h]);
            else
                o.irq.attach_interrupt(h < 0 ? nullptr : HANDLERS[h], mode);
            if (h >= 0) o.handler = h;
            if (mode != TriggerType::UNDEFINED) o.mode = mode;
            o.attached = true;
            break;
        }
        case 1:
            NOTE(c, "detach pin " << o.pin);
            o.irq.detach_interrupt();
            if (o.attached) ++detached;
            o.attached = false;
            break;
        default: {
            const int level = c.coin();
            const int p = c.chance(1, 6) ? int(c.below(22)) : o.pin;
            const bool changes = pin(p).level != level;
            NOTE(c, "pin " << p << " goes to " << level);
            for (auto& w : all)
                if (w->pin == p && w->attached && changes && (w->mode == TriggerType::RISING_AND_FALLING_EDGE || (w->mode == TriggerType::RISING_EDGE) == (level == 1))) {
                    ++expected[w->handler];
                    ++fired;
                }
            fake::drive(p, level);
            break;
        }
        }
        for (int i = 0; i < 4; ++i) CHECK_EQ(g_calls[i], expected[i], "calls of handler " << i);
        CHECK(fake::state().interrupts, "interrupts are left disabled");
    }
    if (fired) c.label("fired");
    if (detached) c.label("detached");
    if (fired && all.size() > 1) c.nontrivial();
}

PROP(uart, 4) {
    const bool first = c.coin();
    Port port(first ? Serial1 : Serial2);
    Port other(first ? Serial2 : Serial1);
    auto& s = port.s;
    const auto timeout = c.nasty(0, 100000);
    HAL::UART uart(spn::platform::ArduinoUART::Config{&s, k_time_ms(timeout)});
    spn::io::Stream& stream = uart;
    stream.initialize();
    NOTE(c, "timeout " << timeout);
    CHECK_EQ(int64_t(s.timeout), timeout, "timeout");
    std::deque<uint8_t> in;
    std::string out;
    size_t room = HardwareSerial::ENDLESS;
    uint8_t next = 0;
    int flushes = 0, got = 0, put = 0;
    while (c.more(40)) {
        switch (c.weighted({3, 2, 2, 2, 2, 1, 1})) {
        case 0: {
            const auto n = c.below(20);
            NOTE(c, n << " arrive");
            for (size_t i = 0; i < n; ++i) s.in.push_back(next), in.push_back(next), next += c.coin() ? 1 : 255;
            break;
        }
        case 1: {
            const auto n = c.below(25);
            std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
            NOTE(c, "read " << n);
            const auto done = c.coin() ? stream.read(b.get(), n) : stream.read((char*)b.get(), n);
            CHECK_EQ(done, std::min<size_t>(n, in.size()), "bytes read");
            for (size_t i = 0; i < done; ++i) {
                CHECK_EQ(int(b[i]), int(in.front()), "byte " << i << " of a read of " << n);
                in.pop_front();
                ++got;
            }
            break;
        }
        case 2: {
            uint8_t v = 0xA5;
            NOTE(c, "read one");
            const bool ok = stream.read(v);
            CHECK_EQ(ok, !in.empty(), "outcome of reading one byte with " << in.size() << " available");
            if (ok) {
                CHECK_EQ(int(v), int(in.front()), "the byte read");
                in.pop_front();
                ++got;
            } else
                c.label("nothing to read");
            break;
        }
        case 3: {
            std::string b;
            const auto n = c.below(20);
            for (size_t i = 0; i < n; ++i) b += char(next++);
            std::unique_ptr<uint8_t[]> exact(new uint8_t[n]);
            memcpy(exact.get(), b.data(), n);
            NOTE(c, "write " << n);
            const auto fits = std::min(n, room);
            size_t done = 0;
            switch (c.below(3)) {
            case 0: done = stream.write((const uint8_t*)exact.get(), n); break;
            case 1: done = stream.write((const char*)exact.get(), n); break;
            default: done = stream.write(std::string_view((const char*)exact.get(), n)); break;
            }
            CHECK_EQ(done, fits, "bytes written of " << n);
            out += b.substr(0, fits);
            if (room != HardwareSerial::ENDLESS) room -= fits;
            put += int(fits);
            break;
        }
        case 4: {
            NOTE(c, "write one");
            const auto v = next++;
            const bool ok = c.coin() ? stream.write(v) : stream.write(char(v));
            CHECK_EQ(ok, room > 0, "outcome of writing one byte");
            if (ok) out += char(v), ++put, room -= room != HardwareSerial::ENDLESS;
            break;
        }
        case 5:
            room = c.coin() ? HardwareSerial::ENDLESS : c.below(64);
            s.room = room;
            NOTE(c, "room for " << room);
            break;
        default:
            NOTE(c, "flush");
            stream.flush();
            ++flushes;
            break;
        }
        CHECK_EQ(stream.available(), in.size(), "available");
        CHECK_EQ(stream.available_for_write(), room, "available for write");
        CHECK(s.out == out, "what went out differs: " << str(s.out) << " instead of " << str(out));
        CHECK_EQ(s.in.size(), in.size(), "what is left in the port");
        CHECK_EQ(s.flushes >= flushes, true, "flushed");
        CHECK(other.s.out.empty() && other.s.in.empty(), "another port is touched");
    }
    if (got && put) c.nontrivial();
}

PROP(clock, 2) {
    int moves = 0;
    while (c.more(20)) {
        auto& w = fake::state();
        switch (c.below(4)) {
        case 0: w.us = c.nasty(0, (1ll << 32) * 1000 - 1); break;
        case 1: w.us = c.nasty(0, (1ll << 32) - 1); break;
        case 2: w.us += c.below(100000); break;
        default: break;
        }
        const auto us = w.us;
        NOTE(c, "at " << us);
        CHECK_EQ(int64_t(HAL::millis().raw()), int64_t(uint32_t(us / 1000)), "millis at " << us);
        CHECK_EQ(int64_t(HAL::micros().raw()), int64_t(uint32_t(us)), "micros at " << us);
        CHECK_EQ(w.us, us, "reading the clock takes time");
        const auto n = c.coin() ? int64_t(c.below(16384)) : c.nasty(0, 100000);
        const auto form = c.below(5);
        int64_t expected = n * 1000;
        switch (form) {
        case 0: HAL::delay(k_time_ms(n)); break;
        case 1: HAL::delay_ms(k_time_ms(n)); break;
        case 2: HAL::delay_ms(uint32_t(n)); break;
        case 3:
            HAL::delay_us(k_time_us(n));
            expected = n;
            break;
        default:
            HAL::delay_us(uint32_t(n));
            expected = n;
        }
        NOTE(c, "delay " << n << " form " << form);
        CHECK_EQ(int64_t(w.us - us), expected, "time that a delay of " << n << " (form " << form << ") took");
        ++moves;
    }
    if (moves >= 3) c.nontrivial();
}

PROP(console, 3) {
    Port port(Serial);
    auto& s = port.s;
    const auto baud = c.coin() ? uint32_t(c.nasty(0, 2000000)) : 0u;
    if (c.chance(3, 4)) {
        const bool plain = c.chance(1, 3);
        NOTE(c, "initialize with " << (plain ? 115200 : baud));
        if (plain) HAL::initialize(ArduinoConfig{});
        else
            HAL::initialize(ArduinoConfig{baud});
        const auto b = plain ? 115200 : baud;
        CHECK_EQ(s.begun > 0, b > 0, "whether the console is opened with a baud rate of " << b);
        if (b) CHECK_EQ(uint32_t(s.baud), b, "baud rate");
    }
    CHECK(s.out.empty(), "something is printed");
    spn::logging::set_log_level(spn::logging::LogLevel::DEBUG);
    int prints = 0;
    std::string expected;
    const auto take = [&] {
        auto t = s.out;
        s.out.clear();
        return t;
    };
    while (c.more(15)) {
        set_now_ms(c.nasty(0, 0xffffffffll));
        std::string text;
        const auto n = c.coin() ? c.below(20) : c.below(400);
        for (size_t i = 0; i < n; ++i) text += char('!' + (i * 7 + n) % 90);
        // what would be taken for a format
        if (n >= 2 && c.chance(1, 3)) text.replace(c.below(n - 1), 2, c.coin() ? "%%" : "%d");
        const auto i = int(c.range(-100000, 100000));
        const auto kind = c.below(10);
        NOTE(c, "print kind " << kind << " of " << n);
        switch (kind) {
        case 0: HAL::print(text.c_str()), expected = text; break;
        case 1: HAL::println(text.c_str()), expected = text + "\r\n"; break;
        case 2: HAL::print(i), expected = std::to_string(i); break;
        case 3: HAL::println(int(i)), expected = std::to_string(i) + "\r\n"; break;
        case 4: {
            const int v = i;
            HAL::print(v), expected = std::to_string(i);
            break;
        }
        case 5: HAL::print(1.5), expected = "1.50"; break;
        case 6: {
            char b[64];
            snprintf(b, sizeof b, "%d", i);
            HAL::println(b), expected = std::string(b) + "\r\n";
            break;
        }
        case 7:
            HAL::printf("%s|%d", text.c_str(), i);
            expected = (text + "|" + std::to_string(i)).substr(0, 255);
            break;
        case 8: {
            const auto f = s.flushes;
            SPN_WARN("%s", text.c_str());
            char p[64];
            snprintf(p, sizeof p, "[%08u] [WARN] ", unsigned(now_ms()));
            expected = (p + text).substr(0, SPINE_LOGGING_MAX_MSG_SIZE - 1) + "\r\n";
            CHECK(s.flushes > f, "a message is not flushed");
            break;
        }
        default: {
            const auto f = s.flushes;
            HAL::printflush();
            expected.clear();
            CHECK(s.flushes > f, "not flushed");
        }
        }
        ++prints;
        CHECK_EQ(take(), expected, "printed");
    }
    if (prints >= 3) c.nontrivial();
    if (c.chance(1, 4)) {
        fake::state().throw_when_halted = true;
        const bool reason = c.coin();
        bool halted = false;
        NOTE(c, "halt");
        try {
            if (reason) HAL::halt("the reason");
            else
                HAL::halt();
        } catch (const fake::Halted&) { halted = true; }
        CHECK(halted, "halt returns");
        CHECK(!fake::state().interrupts, "interrupts are left enabled when halted");
        if (reason) CHECK(s.out.find("the reason") != std::string::npos, "the reason is not printed: " << str(s.out));
        c.label("halted");
    }
}

// the end of the heap, which the C library of a target keeps
char* __brkval;

#if !defined(__SANITIZE_ADDRESS__) // which keeps locals elsewhere than on the stack
PROP(memory, 1) {
    char here;
    const auto base = &here - 100000 - c.below(100000);
    unsigned long free[2];
    const auto used = c.below(50000);
    for (int i = 0; i < 2; ++i) {
        __brkval = base + (i ? used : 0);
        free[i] = HAL::free_memory();
    }
    NOTE(c, used << " more are allocated");
    // the calls need not be made at the same depth of the stack
    CHECK(std::llabs(int64_t(free[0] - free[1]) - int64_t(used)) < 2000, "free memory went from " << free[0] << " to " << free[1] << " after allocating " << used);
    CHECK(std::llabs(int64_t(free[0]) - (&here - base)) < 2000, "free memory is " << free[0] << " with " << &here - base << " between heap and stack");
    if (used) c.nontrivial();
    c.label("memory");
}
#endif
