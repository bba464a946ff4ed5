// A stream that offers its bytes in portions and fails on command
#pragma once
#include "pbt.hpp"

#include "spine/io/stream/buffered_stream.hpp"
#include "spine/io/stream/implementations/mock.hpp"

namespace pbt {

/// Records each byte that crosses it. `plan_*` decides how much is on offer and which transfer fails.
class ScriptedStream final : public spn::io::Stream {
public:
    std::deque<uint8_t> source; // what will ever be read
    std::vector<uint8_t> sink; // what was written
    size_t on_offer = 0; // bytes that `available` admits to
    size_t room = 0; // bytes that `available_for_write` admits to
    int64_t read_failure_in = -1, write_failure_in = -1; // fails once, after so many transfers
    size_t reads = 0, writes = 0, failed_reads = 0, failed_writes = 0;
    uint64_t calls = 0;

    void initialize() override {}
    using Stream::read;
    using Stream::write;
    bool read(uint8_t& v) override {
        guard();
        if (read_failure_in == 0) {
            read_failure_in = -1;
            ++failed_reads;
            v = 0xEE; // a failed read may well leave something behind
            return false;
        }
        if (on_offer == 0 || source.empty()) return false;
        if (read_failure_in > 0) --read_failure_in;
        v = source.front();
        source.pop_front();
        --on_offer;
        ++reads;
        return true;
    }
    size_t read(uint8_t* b, size_t n) override {
        size_t i = 0;
        if (n > available()) return 0;
        for (; i < n; ++i) {
            uint8_t v;
            if (!read(v)) break;
            b[i] = v;
        }
        return i;
    }
    bool write(const uint8_t v) override {
        guard();
        if (write_failure_in == 0) {
            write_failure_in = -1;
            ++failed_writes;
            return false;
        }
        if (room == 0) return false;
        if (write_failure_in > 0) --write_failure_in;
        sink.push_back(v);
        --room;
        ++writes;
        return true;
    }
    size_t write(const uint8_t* const b, size_t n) override {
        size_t i = 0;
        for (; i < n; ++i)
            if (!write(b[i])) break;
        return i;
    }
    size_t available() const override { return std::min(on_offer, source.size()); }
    size_t available_for_write() const override { return room; }
    void flush() override {}

private:
    void guard() { CHECK(++calls < 1000000, "the stream is called without end"); }
};

/// the first complete line of a queue of bytes, delimiter included; 0 without one
inline size_t next_line(const std::deque<uint8_t>& q, const std::string& delimiters) {
    for (size_t i = 0; i < q.size(); ++i)
        if (delimiters.find(char(q[i])) != std::string::npos) return i + 1;
    return 0;
}

inline std::string as_string(const std::deque<uint8_t>& q, size_t n) { return std::string(q.begin(), q.begin() + n); }

/// bytes with a preference for delimiters
inline uint8_t gen_byte(Ctx& c, const std::string& delimiters, unsigned one_in) {
    if (!delimiters.empty() && c.chance(1, one_in)) return uint8_t(c.pick_from(delimiters));
    return c.chance(1, 8) ? uint8_t(c.draw(255)) : uint8_t('a' + c.draw(25));
}

} // namespace pbt
