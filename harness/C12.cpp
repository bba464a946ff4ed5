// C12: mock stream and UART are faithful loopbacks
#include "streams.hpp"

using namespace pbt;
using spn::io::MockStream;

namespace {

std::vector<uint8_t> gen_bytes(Ctx& c, size_t max) {
    std::vector<uint8_t> v(c.draw(max));
    for (auto& b : v)
        b = uint8_t(c.draw(255));
    v.shrink_to_fit();
    return v;
}
std::string hex(const std::vector<uint8_t>& v) {
    std::string s = "[";
    char b[4];
    for (auto x : v)
        snprintf(b, sizeof b, "%02x", x), s += b;
    return s + "]";
}

void history(Ctx& c) {
    const size_t in_cap = 1 + c.draw(c.chance(1, 5) ? 300 : 9), out_cap = 1 + c.draw(c.chance(1, 5) ? 300 : 9);
    MockStream mock(MockStream::Config{.input_buffer_size = in_cap, .output_buffer_size = out_cap});
    spn::platform::MockUART uart(spn::platform::MockUART::Config{.stream = &mock});
    NOTE(c, "MockStream(in " << in_cap << ", out " << out_cap << ")");
    std::deque<uint8_t> in, out;
    mock.initialize();
    uart.initialize();
    c.scale();
    const auto w = c.swarm(10);
    size_t through_in = 0, through_out = 0;
    const auto check = [&] {
        for (const spn::io::Stream* s : {static_cast<const spn::io::Stream*>(&mock), static_cast<const spn::io::Stream*>(&uart)}) {
            CHECK_EQ(s->available(), in.size(), "available");
            CHECK_EQ(s->available_for_write(), out_cap - out.size(), "available_for_write");
        }
    };
    check();
    while (c.more()) {
        // the same thing either directly or through the UART
        const bool via_uart = c.coin();
        spn::io::Stream& s = via_uart ? static_cast<spn::io::Stream&>(uart) : mock;
        const char* who = via_uart ? "uart " : "mock ";
        switch (c.weighted(w)) {
        case 0:
        case 1: {
            const auto v = gen_bytes(c, in_cap + 2);
            NOTE(c, "inject " << hex(v));
            mock.inject_bytestream(v);
            for (auto b : v)
                if (in.size() < in_cap) {
                    in.push_back(b);
                    ++through_in;
                }
            break;
        }
        case 2: {
            const auto v = mock.extract_bytestream();
            NOTE(c, "extract");
            CHECK(v, "nothing is extracted");
            CHECK(std::equal(v->begin(), v->end(), out.begin(), out.end()),
                  "extracted " << hex(*v) << ", expected " << hex({out.begin(), out.end()}));
            out.clear();
            break;
        }
        case 3: {
            uint8_t b = 0x55;
            const auto ok = s.read(b);
            NOTE(c, who << "read");
            CHECK_EQ(ok, !in.empty(), "read of a byte succeeds");
            if (ok) {
                CHECK_EQ(b, in.front(), "byte read");
                in.pop_front();
            } else
                CHECK_EQ(b, uint8_t(0x55), "a read that fails writes");
            break;
        }
        case 4:
        case 5: {
            const auto n = c.draw(in.size() + 2);
            std::vector<uint8_t> buf(n, 0xAA);
            size_t got;
            if (c.coin())
                got = s.read(buf.data(), n);
            else
                got = s.read(reinterpret_cast<char*>(buf.data()), n);
            NOTE(c, who << "read " << n << ": " << got);
            CHECK_EQ(got, n <= in.size() ? n : 0, "read of " << n << " bytes where " << in.size() << " are there");
            for (size_t i = 0; i < n; ++i)
                CHECK_EQ(buf[i], got ? in[i] : uint8_t(0xAA), "byte " << i << " of a read");
            in.erase(in.begin(), in.begin() + got);
            break;
        }
        case 6: {
            const auto b = uint8_t(c.draw(255));
            const auto room = out_cap - out.size();
            const auto ok = c.coin() ? s.write(b) : s.write(char(b));
            NOTE(c, who << "write " << int(b));
            CHECK_EQ(ok, room > 0, "write of a byte");
            if (ok) out.push_back(b), ++through_out;
            break;
        }
        case 7:
        case 8: {
            const auto v = gen_bytes(c, out_cap + 2);
            const auto room = out_cap - out.size();
            size_t n;
            switch (c.draw(2)) {
            case 0: n = s.write(v.data(), v.size()); break;
            case 1: n = s.write(reinterpret_cast<const char*>(v.data()), v.size()); break;
            default: n = s.write(std::string_view(reinterpret_cast<const char*>(v.data()), v.size())); break;
            }
            NOTE(c, who << "write " << hex(v));
            CHECK_EQ(n, std::min(room, v.size()), "write of " << v.size() << " bytes into " << room);
            for (size_t i = 0; i < n; ++i)
                out.push_back(v[i]), ++through_out;
            break;
        }
        default:
            NOTE(c, who << "flush");
            s.flush();
            break;
        }
        check();
    }
    const auto v = mock.extract_bytestream();
    CHECK(v && std::equal(v->begin(), v->end(), out.begin(), out.end()), "extracted in the end");
    out.clear();
    check();
    for (; !in.empty(); in.pop_front()) {
        uint8_t b;
        CHECK(uart.read(b) && b == in.front(), "read in the end");
    }
    check();
    if (through_in > in_cap) c.label("input wrapped around");
    if (through_out > out_cap) c.label("output wrapped around");
    if (through_in && through_out && through_in + through_out > std::min(in_cap, out_cap)) c.nontrivial();
}

// a UART hands every call on to whatever stream it is given, and nothing else
struct Recorder final : spn::io::Stream {
    std::string log;
    std::vector<uint8_t> next;
    size_t result = 0;
    void initialize() override { log = "initialize"; }
    using Stream::read;
    using Stream::write;
    size_t read(uint8_t* b, size_t n) override {
        log = "read " + std::to_string(n);
        for (size_t i = 0; i < std::min(n, next.size()); ++i)
            b[i] = next[i];
        return result;
    }
    bool read(uint8_t& v) override {
        log = "read";
        if (!next.empty()) v = next[0];
        return result & 1;
    }
    size_t write(const uint8_t* const b, size_t n) override {
        log = "write " + hex({b, b + n});
        return result;
    }
    bool write(const uint8_t v) override {
        log = "write " + std::to_string(v);
        return result & 1;
    }
    size_t available() const override { return result; }
    size_t available_for_write() const override { return result + 1; }
    void flush() override { log = "flush"; }
};

void forwarding(Ctx& c) {
    Recorder r;
    spn::platform::MockUART uart(spn::platform::MockUART::Config{.stream = &r});
    c.scale();
    int steps = 0;
    while (c.more()) {
        ++steps;
        r.log.clear();
        r.next = gen_bytes(c, 6);
        r.result = c.draw(9);
        switch (c.draw(6)) {
        case 0:
            uart.initialize();
            CHECK_EQ(r.log, std::string("initialize"), "initialize");
            break;
        case 1: {
            std::vector<uint8_t> b(c.draw(6), 0xAA);
            CHECK_EQ(uart.read(b.data(), b.size()), r.result, "result of read");
            CHECK_EQ(r.log, "read " + std::to_string(b.size()), "read");
            for (size_t i = 0; i < b.size(); ++i)
                CHECK_EQ(b[i], i < r.next.size() ? r.next[i] : uint8_t(0xAA), "byte read");
            break;
        }
        case 2: {
            uint8_t v = 0xAA;
            CHECK_EQ(uart.read(v), bool(r.result & 1), "result of read");
            CHECK_EQ(v, r.next.empty() ? uint8_t(0xAA) : r.next[0], "byte read");
            CHECK_EQ(r.log, std::string("read"), "read");
            break;
        }
        case 3:
            CHECK_EQ(uart.write(r.next.data(), r.next.size()), r.result, "result of write");
            CHECK_EQ(r.log, "write " + hex(r.next), "write");
            break;
        case 4: {
            const auto b = uint8_t(c.draw(255));
            CHECK_EQ(uart.write(b), bool(r.result & 1), "result of write");
            CHECK_EQ(r.log, "write " + std::to_string(b), "write");
            break;
        }
        case 5:
            CHECK_EQ(uart.available(), r.result, "available");
            CHECK_EQ(uart.available_for_write(), r.result + 1, "available_for_write");
            break;
        default:
            uart.flush();
            CHECK_EQ(r.log, std::string("flush"), "flush");
        }
    }
    NOTE(c, steps << " calls forwarded");
    if (steps > 3) c.nontrivial();
}

} // namespace

PROP(loopback, 500) { history(c); }
// much at a time
PROP(large, 1) {
    const auto in_cap = gen_large(c), out_cap = gen_large(c);
    MockStream mock(MockStream::Config{.input_buffer_size = in_cap, .output_buffer_size = out_cap});
    spn::platform::MockUART uart(spn::platform::MockUART::Config{.stream = &mock});
    mock.initialize();
    uart.initialize();
    NOTE(c, "MockStream(in " << in_cap << ", out " << out_cap << ")");
    std::deque<uint8_t> in, out;
    unsigned salt = 1;
    const auto make = [&](size_t n) {
        std::vector<uint8_t> v(n);
        for (size_t i = 0; i < n; ++i)
            v[i] = uint8_t(i * salt + 1);
        ++salt;
        return v;
    };
    for (auto steps = 2 + c.draw(7); steps > 0; --steps) {
        spn::io::Stream& s = c.coin() ? static_cast<spn::io::Stream&>(uart) : mock;
        switch (c.draw(3)) {
        case 0: {
            const auto v = make(gen_part(c, in_cap - in.size()) + c.draw(3));
            NOTE(c, "inject " << v.size());
            mock.inject_bytestream(v);
            in.insert(in.end(), v.begin(), v.begin() + std::min(v.size(), in_cap - in.size()));
            break;
        }
        case 1: {
            const auto n = gen_part(c, in.size());
            NOTE(c, "read " << n);
            std::vector<uint8_t> v(n);
            CHECK_EQ(s.read(v.data(), n), n, "read");
            CHECK(std::equal(v.begin(), v.end(), in.begin()), "what was read differs");
            in.erase(in.begin(), in.begin() + n);
            break;
        }
        case 2: {
            const auto v = make(gen_part(c, out_cap - out.size()) + c.draw(3));
            const auto fit = std::min(v.size(), out_cap - out.size());
            NOTE(c, "write " << v.size());
            CHECK_EQ(s.write(v.data(), v.size()), fit, "write");
            out.insert(out.end(), v.begin(), v.begin() + fit);
            break;
        }
        default: {
            if (out.empty()) break;
            const auto x = mock.extract_bytestream();
            CHECK(x && std::vector<uint8_t>(out.begin(), out.end()) == std::vector<uint8_t>(x->begin(), x->end()), "what was extracted differs");
            NOTE(c, "extract " << out.size());
            out.clear();
        }
        }
        CHECK_EQ(s.available(), in.size(), "available");
        CHECK_EQ(s.available_for_write(), out_cap - out.size(), "available_for_write");
        if (in.size() > 255 || out.size() > 255) {
            c.label("large");
            c.nontrivial();
        }
    }
}
PROP(uart_forwards, 100) { forwarding(c); }

// two of them at once have nothing in common
PROP(two_loopbacks, 20) { twins(c, [&] { history(c); }); }
