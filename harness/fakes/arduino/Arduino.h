// A stand-in for the Arduino core: pins, interrupts, serial ports and the clock are plain memory that a check inspects.
// The interface and its macros are those of the Arduino reference (AVR core), behaviour included where it matters.
#pragma once

#include <algorithm>
#include <cctype>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <type_traits>

typedef uint8_t byte;
typedef bool boolean;
typedef uint16_t word;

namespace fake {
enum Edge { EDGE_RISING, EDGE_FALLING };
struct Pin {
    int mode = -1;
    int level = 0; // of the pin itself: what drives it, or what is read from it
    int pwm = -1;
    int adc = 0;
    int driven = 0; // times it was driven
    bool operator==(const Pin& o) const {
        return mode == o.mode && level == o.level && pwm == o.pwm && adc == o.adc && driven == o.driven;
    }
};
struct Irq {
    void (*fn)() = nullptr;
    int mode = 0;
};
struct Halted {};
struct State {
    std::map<int, Pin> pins;
    std::map<int, Irq> irqs; // by interrupt number
    uint64_t us = 0;
    uint64_t slept_us = 0;
    int resolution = 8;
    bool interrupts = true;
    bool throw_when_halted = false;
};
inline State& state() {
    static State s;
    return s;
}
inline void pass(uint64_t us) { state().us += us, state().slept_us += us; }
} // namespace fake

#define HIGH 0x1
#define LOW 0x0
#define INPUT 0x0
#define OUTPUT 0x1
#define INPUT_PULLUP 0x2
#define CHANGE 1
#define FALLING 2
#define RISING 3
#define DEFAULT 1
#define EXTERNAL 0
#define SERIAL 0x0
#define NOT_AN_INTERRUPT -1
#define LED_BUILTIN 13

inline void pinMode(uint8_t pin, uint8_t mode) { fake::state().pins[pin].mode = mode; }
inline void digitalWrite(uint8_t pin, uint8_t level) {
    auto& p = fake::state().pins[pin];
    p.level = level ? 1 : 0;
    ++p.driven;
}
inline int digitalRead(uint8_t pin) { return fake::state().pins[pin].level; }
inline int analogRead(uint8_t pin) { return fake::state().pins[pin].adc; }
inline void analogReference(uint8_t) {}
inline void analogReadResolution(int) {}
inline void analogWriteResolution(int bits) { fake::state().resolution = bits; }
inline void analogWrite(uint8_t pin, int value) {
    auto& p = fake::state().pins[pin];
    p.mode = OUTPUT;
    p.pwm = value;
    ++p.driven;
}

// the mapping of an Arduino Mega
inline int fake_pin_to_interrupt(int pin) {
    switch (pin) {
    case 2: return 0;
    case 3: return 1;
    case 21: return 2;
    case 20: return 3;
    case 19: return 4;
    case 18: return 5;
    default: return NOT_AN_INTERRUPT;
    }
}
#define digitalPinToInterrupt(p) (::fake_pin_to_interrupt(p))
inline void attachInterrupt(uint8_t number, void (*fn)(), int mode) { fake::state().irqs[number] = {fn, mode}; }
inline void detachInterrupt(uint8_t number) { fake::state().irqs.erase(number); }
inline void interrupts() { fake::state().interrupts = true; }
inline void noInterrupts() {
    fake::state().interrupts = false;
    if (fake::state().throw_when_halted) throw fake::Halted{};
}
#define cli() noInterrupts()
#define sei() interrupts()

// 32 bits, as on a target
inline unsigned long millis() { return uint32_t(fake::state().us / 1000); }
inline unsigned long micros() { return uint32_t(fake::state().us); }
inline void delay(unsigned long ms) { fake::pass(uint64_t(ms) * 1000); }
inline void delayMicroseconds(unsigned int us) { fake::pass(us); }
inline void yield() {}

class __FlashStringHelper;
#define F(s) (s)
#define PROGMEM
#define DEC 10
#define HEX 16
#define OCT 8
#define BIN 2

class String {
public:
    String(const char* s = "") : _s(s) {}
    const char* c_str() const { return _s.c_str(); }
    unsigned int length() const { return _s.size(); }

private:
    std::string _s;
};

class Print {
public:
    virtual ~Print() = default;
    virtual size_t write(uint8_t) = 0;
    virtual size_t write(const uint8_t* b, size_t n) {
        size_t done = 0;
        while (done < n && write(b[done])) ++done;
        return done;
    }
    size_t write(const char* s) { return s ? write((const uint8_t*)s, strlen(s)) : 0; }
    size_t write(const char* s, size_t n) { return write((const uint8_t*)s, n); }
    virtual int availableForWrite() { return 0; }
    virtual void flush() {}

    size_t print(const String& s) { return write(s.c_str()); }
    size_t print(const char* s) { return write(s); }
    size_t print(char c) { return write(uint8_t(c)); }
    size_t print(unsigned char v, int base = DEC) { return number(v, base); }
    size_t print(int v, int base = DEC) { return base == DEC ? integer(v) : number((unsigned)v, base); }
    size_t print(unsigned int v, int base = DEC) { return number(v, base); }
    size_t print(long v, int base = DEC) { return base == DEC ? integer(v) : number((unsigned long)v, base); }
    size_t print(unsigned long v, int base = DEC) { return number(v, base); }
    size_t print(double v, int digits = 2) {
        char b[512];
        snprintf(b, sizeof b, "%.*f", digits, v);
        return write(b);
    }
    size_t println() { return write("\r\n"); }
    template<typename T>
    size_t println(T&& v) {
        const auto n = print(std::forward<T>(v));
        return n + println();
    }
    template<typename T>
    size_t println(T&& v, int how) {
        const auto n = print(std::forward<T>(v), how);
        return n + println();
    }

private:
    size_t integer(long long v) { return write(std::to_string(v).c_str()); }
    size_t number(unsigned long long v, int base) {
        std::string s;
        do s += "0123456789ABCDEF"[v % base];
        while (v /= base);
        return write(std::string(s.rbegin(), s.rend()).c_str());
    }
};

class Stream : public Print {
public:
    virtual int available() = 0;
    virtual int read() = 0;
    virtual int peek() = 0;
    void setTimeout(unsigned long ms) { timeout = ms; }
    unsigned long getTimeout() { return timeout; }
    /// waits for what does not arrive
    size_t readBytes(char* b, size_t n) {
        size_t done = 0;
        while (done < n) {
            const int v = read();
            if (v < 0) {
                fake::pass(uint64_t(timeout) * 1000);
                break;
            }
            b[done++] = char(v);
        }
        return done;
    }
    size_t readBytes(uint8_t* b, size_t n) { return readBytes((char*)b, n); }
    unsigned long timeout = 1000;
};

class HardwareSerial : public Stream {
public:
    using Print::write;
    void begin(unsigned long b, uint8_t = 6) { baud = b, ++begun; }
    void end() { begun = 0; }
    int available() override { return int(std::min<size_t>(in.size(), 0x7fff)); }
    int peek() override { return in.empty() ? -1 : in.front(); }
    int read() override {
        if (in.empty()) return -1;
        const int v = in.front();
        in.pop_front();
        return v;
    }
    int availableForWrite() override { return int(room); }
    void flush() override { ++flushes; }
    size_t write(uint8_t v) override {
        if (!room) return 0;
        if (room != ENDLESS) --room;
        out += char(v);
        return 1;
    }
    size_t write(const uint8_t* b, size_t n) override { return Print::write(b, n); }
    operator bool() const { return true; }

    static constexpr size_t ENDLESS = 1 << 20;
    std::deque<uint8_t> in;
    std::string out;
    size_t room = ENDLESS;
    unsigned long baud = 0;
    int begun = 0;
    int flushes = 0;
};
inline HardwareSerial Serial, Serial1, Serial2;

// the macros of the AVR core
#define min(a, b) ((a) < (b) ? (a) : (b))
#define max(a, b) ((a) > (b) ? (a) : (b))
#define abs(x) ((x) > 0 ? (x) : -(x))
#define constrain(v, lo, hi) ((v) < (lo) ? (lo) : ((v) > (hi) ? (hi) : (v)))
#define round(x) ((x) >= 0 ? (long)((x) + 0.5) : (long)((x)-0.5))
inline long map(long v, long a, long b, long c, long d) { return (v - a) * (d - c) / (b - a) + c; }

namespace fake {
/// the pin changes its level: whoever is attached to it is told
inline void drive(int pin, int level) {
    auto& p = state().pins[pin];
    const auto before = p.level;
    p.level = level;
    const auto number = fake_pin_to_interrupt(pin);
    if (number < 0) return;
    const auto it = state().irqs.find(number);
    if (it == state().irqs.end() || !it->second.fn) return;
    const auto mode = it->second.mode;
    const bool hit = mode == 1 ? before != level : mode == 2 ? before && !level : mode == 3 ? !before && level : !level;
    if (hit) it->second.fn();
}
} // namespace fake
