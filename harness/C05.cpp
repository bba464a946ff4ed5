// C05: line buffer frames its bytes into exactly the lines that were written
#include "pbt.hpp"

#include "spine/structure/linebuffer.hpp"

using namespace pbt;
using spn::structure::LineBuffer;
using namespace std::literals;

namespace {

constexpr std::string_view delimiter_sets[] = {"\r\n"sv, "\n"sv, ";"sv, "\0"sv, "ab\n"sv, "\xff;"sv, ""sv, "\n\0"sv};

char byte(Ctx& c, const std::string_view& delims) {
    if (!delims.empty() && c.chance(1, 4)) return delims[c.below(delims.size())];
    static const char common[] = {'x', 'a', 'b', '\r', '\n', ';', '\0', ' ', '\xff', '\x80', 'y'};
    return c.chance(1, 8) ? char(c.draw(255)) : common[c.draw(sizeof common - 1)];
}

struct Model {
    std::string bytes; // all that is in the buffer
    size_t cap;
    std::string_view delims;

    /// the length of the next line with its delimiter, 0 if there is none
    size_t next() const {
        for (size_t i = 0; i < bytes.size(); ++i)
            for (auto d : delims)
                if (bytes[i] == d) return i + 1;
        return 0;
    }
};

PROP(framing, 60) {
    Model m;
    m.cap = 1 + c.draw(c.chance(1, 8) ? 80 : 14);
    const auto di = c.coin() ? c.below(std::size(delimiter_sets)) : 0;
    m.delims = delimiter_sets[di];
    auto lb = di == 0 && c.coin() ? std::make_unique<LineBuffer>(m.cap) : std::make_unique<LineBuffer>(m.cap, m.delims);
    NOTE(c, "LineBuffer(" << m.cap << ", " << str(m.delims) << ")");
    c.scale();
    const auto w = c.swarm(9);
    int lines = 0, written = 0;
    bool too_long = false, rolled = false;
    const auto same = [&] {
        const auto& cb = *lb;
        const auto n = m.next();
        CHECK_EQ(cb.used_space(), m.bytes.size(), "used_space");
        CHECK_EQ(cb.length_of_next_line(), n, "length_of_next_line in " << str(m.bytes));
        CHECK_EQ(cb.has_line(), n > 0, "has_line in " << str(m.bytes));
        CHECK(cb.delimiters() == m.delims, "delimiters");
        for (size_t i = 0; i < m.bytes.size(); ++i) {
            char v;
            CHECK(cb.peek_at(v, i) && v == m.bytes[i], "byte " << i << " of " << str(m.bytes));
        }
    };
    same();
    while (c.more()) {
        auto& b = *lb;
        switch (c.weighted(w)) {
        case 0:
        case 1:
        case 2: {
            std::string chunk;
            for (auto n = c.draw(m.cap + 1); n > 0; --n)
                chunk += byte(c, m.delims);
            const bool roll = c.chance(1, 3);
            // exactly as large as it is
            std::unique_ptr<char[]> p(new char[chunk.size()]);
            memcpy(p.get(), chunk.data(), chunk.size());
            size_t n;
            if (roll)
                n = b.push(p.get(), chunk.size(), true);
            else if (c.coin())
                n = b.push(std::string_view(p.get(), chunk.size()));
            else
                n = b.push(p.get(), chunk.size());
            NOTE(c, "push " << str(chunk) << (roll ? " rolling over" : ""));
            size_t expected = 0;
            for (auto ch : chunk) {
                if (m.bytes.size() == m.cap) {
                    if (!roll) break;
                    m.bytes.erase(0, 1);
                    rolled = true;
                }
                m.bytes += ch;
                ++expected;
            }
            CHECK_EQ(n, expected, "bytes pushed");
            written += n;
            break;
        }
        case 3: {
            const auto n = m.next();
            const auto len = c.coin() ? std::optional<size_t>(b.length_of_next_line()) : std::nullopt;
            const auto v = b.get_next_line_view(len);
            NOTE(c, "view");
            CHECK_EQ(v.has_value(), n > 0, "a view on a line of " << str(m.bytes));
            if (v) CHECK_EQ(*v, std::string_view(m.bytes).substr(0, n - 1), "view on the line");
            break;
        }
        case 4:
        case 5:
        case 6: {
            const auto n = m.next();
            size_t max = c.coin() ? n + c.draw(3) : c.draw(m.cap + 1);
            if (n > 0 && c.chance(1, 4)) max = n - 1;
            std::unique_ptr<char[]> out(new char[max]);
            memset(out.get(), 0x5a, max);
            const auto len = c.coin() ? std::optional<size_t>(b.length_of_next_line()) : std::nullopt;
            const auto got = b.get_next_line(out.get(), max, len);
            NOTE(c, "get_next_line(" << max << ")");
            if (n == 0 || n > max) {
                too_long |= n > max;
                CHECK_EQ(got, size_t(0), "a line that is not there or does not fit");
                for (size_t i = 0; i < max; ++i)
                    CHECK(out[i] == 0x5a, "writes although there is no line that fits");
            } else {
                CHECK_EQ(got, n - 1, "length of the line that was read");
                CHECK_EQ(std::string_view(out.get(), n - 1), std::string_view(m.bytes).substr(0, n - 1), "the line that was read");
                CHECK(out[n - 1] == '\0', "the line that was read is not null-terminated");
                for (size_t i = n; i < max; ++i)
                    CHECK(out[i] == 0x5a, "writes behind the null-termination");
                m.bytes.erase(0, n);
                ++lines;
            }
            break;
        }
        case 7: {
            const auto n = m.next();
            const auto len = c.coin() ? std::optional<size_t>(b.length_of_next_line()) : std::nullopt;
            NOTE(c, "drop_next_line");
            CHECK_EQ(b.drop_next_line(len), n > 0, "drop_next_line succeeds");
            m.bytes.erase(0, n);
            if (n) ++lines;
            break;
        }
        case 8:
            switch (c.draw(7)) {
            case 0: {
                m.delims = delimiter_sets[c.below(std::size(delimiter_sets))];
                NOTE(c, "delimiters " << str(m.delims));
                b.set_delimiters(m.delims);
                break;
            }
            case 1: {
                char v = 0;
                NOTE(c, "pop");
                CHECK_EQ(b.pop(v), !m.bytes.empty(), "pop succeeds");
                if (!m.bytes.empty()) {
                    CHECK_EQ(v, m.bytes[0], "pop");
                    m.bytes.erase(0, 1);
                }
                break;
            }
            case 2: {
                const auto n = 1 + c.draw(m.cap);
                NOTE(c, "drop_last " << n);
                CHECK_EQ(b.drop_last(n), std::min<size_t>(n, m.bytes.size()), "drop_last");
                m.bytes.resize(m.bytes.size() - std::min<size_t>(n, m.bytes.size()));
                break;
            }
            case 3:
                NOTE(c, "clear");
                b.clear();
                m.bytes.clear();
                break;
            case 4: {
                const auto n = c.draw(m.cap + 1);
                std::unique_ptr<char[]> out(new char[n]);
                NOTE(c, "pop " << n);
                const auto got = n <= m.bytes.size() ? n : 0;
                CHECK_EQ(b.pop(out.get(), n), got, "bytes popped");
                CHECK_EQ(std::string_view(out.get(), got), std::string_view(m.bytes).substr(0, got), "bytes popped");
                m.bytes.erase(0, got);
                break;
            }
            case 5: {
                const auto n = 1 + c.draw(m.cap);
                NOTE(c, "drop_first " << n);
                CHECK_EQ(b.drop_first(n), std::min<size_t>(n, m.bytes.size()), "drop_first");
                m.bytes.erase(0, n);
                break;
            }
            case 6: { // byte by byte
                const bool roll = c.coin();
                const auto ch = byte(c, m.delims);
                NOTE(c, "push byte " << int(ch) << (roll ? " rolling over" : ""));
                CHECK_EQ(b.push(ch, roll), roll || m.bytes.size() < m.cap, "push succeeds");
                if (m.bytes.size() == m.cap) {
                    if (!roll) break;
                    m.bytes.erase(0, 1);
                    rolled = true;
                }
                m.bytes += ch;
                ++written;
                break;
            }
            case 7: { // goes on in another place
                NOTE(c, "move");
                lb = std::make_unique<LineBuffer>(std::move(*lb));
                break;
            }
            }
            break;
        }
        same();
    }
    if (lines >= 1 && written > int(m.cap)) c.nontrivial();
    if (lines >= 3) c.label("3+ lines");
    if (too_long) c.label("line too long");
    if (rolled) c.label("rolled over");
}

/// long lines in a large buffer
PROP(long_lines, 1) {
    const auto delims = delimiter_sets[c.below(6)];
    const auto cap = gen_large(c);
    LineBuffer b(cap, delims);
    std::string bytes;
    NOTE(c, "LineBuffer(" << cap << ", " << str(delims) << ")");
    const char filler = 'q';
    for (auto steps = 2 + c.draw(8); steps > 0; --steps) {
        if (c.draw(2)) {
            // a line, or a part of one
            auto line = std::string(gen_part(c, cap - bytes.size()), filler);
            for (size_t i = 0; i < line.size(); i += 7)
                line[i] = char('A' + i % 13);
            if (!line.empty() && c.coin()) line.back() = delims[c.below(delims.size())];
            NOTE(c, "push " << line.size() << (line.empty() || delims.find(line.back()) == std::string_view::npos ? "" : " with a delimiter"));
            CHECK_EQ(b.push(std::string_view(line)), line.size(), "bytes pushed");
            bytes += line;
        } else {
            size_t n = 0;
            for (size_t i = 0; i < bytes.size() && !n; ++i)
                if (delims.find(bytes[i]) != std::string_view::npos) n = i + 1;
            CHECK_EQ(b.length_of_next_line(), n, "length_of_next_line");
            CHECK_EQ(b.has_line(), n > 0, "has_line");
            const auto v = b.get_next_line_view();
            CHECK_EQ(v.has_value(), n > 0, "a view");
            if (v) CHECK(*v == std::string_view(bytes).substr(0, n - 1), "view on a line of " << n - 1 << " of " << v->size());
            NOTE(c, "take a line of " << n);
            if (c.coin()) {
                CHECK_EQ(b.drop_next_line(), n > 0, "drop_next_line");
                bytes.erase(0, n);
            } else {
                const auto max = c.coin() || n == 0 ? n + c.draw(3) : n - 1;
                std::unique_ptr<char[]> out(new char[max]);
                const auto got = b.get_next_line(out.get(), max);
                CHECK_EQ(got, n == 0 || n > max ? 0 : n - 1, "length of the line that was read into " << max);
                if (n > 0 && n <= max) {
                    CHECK(std::string_view(out.get(), n - 1) == std::string_view(bytes).substr(0, n - 1), "the line that was read");
                    CHECK(out[n - 1] == 0, "not null-terminated");
                    bytes.erase(0, n);
                }
            }
            if (n > 256) {
                c.label("line longer than 255");
                c.nontrivial();
            }
        }
        CHECK_EQ(b.used_space(), bytes.size(), "used_space");
        CHECK_EQ(b.free_space(), cap - bytes.size(), "free_space");
    }
}

/// writes a text line by line through a small buffer, in chunks, and reads it back
PROP(stream_of_lines, 60) {
    const auto delims = delimiter_sets[c.below(6)];
    std::vector<std::string> written, read;
    std::string text;
    const size_t cap = 8 + c.draw(24);
    c.scale();
    while (c.more()) {
        std::string line;
        for (auto n = c.draw(7); n > 0; --n) {
            const auto ch = byte(c, {});
            if (delims.find(ch) == std::string_view::npos) line += ch;
        }
        written.push_back(line);
        text += line + delims[c.below(delims.size())];
    }
    std::string tail;
    for (auto n = c.draw(6); n > 0; --n) {
        const auto ch = byte(c, {});
        if (delims.find(ch) == std::string_view::npos) tail += ch;
    }
    text += tail;
    NOTE(c, str(text) << " through " << cap);
    LineBuffer b(cap, delims);
    size_t pos = 0;
    const auto take = [&] {
        if (const auto v = b.get_next_line_view()) {
            read.emplace_back(*v);
            if (c.coin()) {
                CHECK(b.drop_next_line(), "cannot drop the line that was viewed");
            } else {
                char buf[64];
                const auto n = b.get_next_line(buf, sizeof buf);
                CHECK_EQ(std::string(buf, n), read.back(), "copy after view");
            }
            return true;
        }
        return false;
    };
    while (pos < text.size()) {
        const auto n = 1 + c.draw(cap - 1);
        pos += b.push(std::string_view(text).substr(pos, n));
        if (c.coin() || b.full())
            while (take() && c.coin())
                ;
        if (b.full() && !b.has_line()) fail("no line in a full buffer although all lines fit");
    }
    while (take())
        ;
    CHECK(read == written, "lines read " << str(read) << " expected " << str(written));
    CHECK_EQ(b.used_space(), tail.size(), "rest");
    if (written.size() >= 3) c.nontrivial();
}

} // namespace

// two of them at once have nothing in common
PROP(two_buffers, 5) { twins(c, [&] { prop_framing(c); }); }
