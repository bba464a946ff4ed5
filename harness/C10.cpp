// C10: buffered stream delivers every byte once, in order, despite failures
#include "streams.hpp"

using namespace pbt;
using spn::io::BufferedStream;

namespace {

void history(Ctx& c, const std::string& delimiters) {
    const size_t in_cap = 1 + c.draw(c.chance(1, 6) ? 60 : 12), out_cap = 1 + c.draw(c.chance(1, 6) ? 60 : 12);
    const auto one_in = c.pick<unsigned>({3, 2, 6, 15, 40});
    auto dev = std::make_shared<ScriptedStream>();
    BufferedStream s(dev, BufferedStream::Config{.input_buffer_size = in_cap, .output_buffer_size = out_cap, .delimiters = delimiters});
    NOTE(c, "BufferedStream(in " << in_cap << ", out " << out_cap << ", delimiters " << str(delimiters) << ")");
    std::deque<uint8_t> in, out; // models of both buffers
    std::vector<uint8_t> sent;
    size_t lines = 0, discarded = 0, pulled = 0;
    c.scale();
    const auto w = c.swarm(10);
    const auto check = [&] {
        CHECK_EQ(s.input_buffer_space_used(), in.size(), "input_buffer_space_used");
        CHECK_EQ(s.input_buffer_space_left(), in_cap - in.size(), "input_buffer_space_left");
        CHECK_EQ(s.output_buffer_space_used(), out.size(), "output_buffer_space_used");
        CHECK_EQ(s.output_buffer_space_left(), out_cap - out.size(), "output_buffer_space_left");
        CHECK_EQ(s.length_of_next_line(), next_line(in, delimiters), "length_of_next_line");
        CHECK_EQ(s.has_line(), next_line(in, delimiters) > 0, "has_line");
        CHECK(dev->sink == sent, "the stream got " << str(std::string(dev->sink.begin(), dev->sink.end())) << ", expected "
                                                   << str(std::string(sent.begin(), sent.end())));
    };
    const auto pull = [&] {
        const auto before = dev->reads;
        // what should come in
        size_t n = 0;
        auto src = dev->source;
        auto offer = dev->available();
        auto failure = dev->read_failure_in;
        while (offer > 0) {
            if (in.size() == in_cap && next_line(in, delimiters)) break;
            if (failure == 0) break;
            if (failure > 0) --failure;
            if (in.size() == in_cap) {
                in.pop_front();
                ++discarded;
            }
            in.push_back(src.front());
            src.pop_front();
            --offer;
            ++n;
        }
        pulled += n;
        const auto got = s.pull_in_data();
        CHECK_EQ(got, dev->reads - before, "pull_in_data returns another number than it took from the stream");
        CHECK_EQ(got, n, "bytes pulled in");
        NOTE(c, "pull: " << got);
    };
    const auto push = [&] {
        size_t n = 0;
        auto room = dev->room;
        auto failure = dev->write_failure_in;
        while (room > 0 && !out.empty()) {
            if (failure == 0) break;
            if (failure > 0) --failure;
            sent.push_back(out.front());
            out.pop_front();
            --room;
            ++n;
        }
        const auto before = dev->writes;
        const auto got = s.push_out_data();
        NOTE(c, "push: " << got);
        CHECK_EQ(got, dev->writes - before, "push_out_data returns another number than the stream accepted");
        CHECK_EQ(got, n, "bytes pushed out");
    };
    check();
    while (c.more()) {
        switch (c.weighted(w)) {
        case 0: {
            const auto n = c.draw(in_cap + 4);
            std::string made;
            for (size_t i = 0; i < n; ++i) {
                dev->source.push_back(gen_byte(c, delimiters, one_in));
                made += char(dev->source.back());
            }
            dev->on_offer = c.coin() ? dev->source.size() : c.draw(dev->source.size());
            dev->read_failure_in = c.chance(1, 3) ? int64_t(c.draw(in_cap)) : -1;
            NOTE(c, "stream offers " << dev->on_offer << " after adding " << str(made)
                                     << (dev->read_failure_in >= 0 ? ", read fails after " : "")
                                     << (dev->read_failure_in >= 0 ? std::to_string(dev->read_failure_in) : ""));
            break;
        }
        case 1:
            dev->room = c.draw(out_cap + 4);
            dev->write_failure_in = c.chance(1, 3) ? int64_t(c.draw(out_cap)) : -1;
            NOTE(c, "stream takes " << dev->room << ", write fails after " << dev->write_failure_in);
            break;
        case 2: pull(); break;
        case 3: push(); break;
        case 4: {
            const auto n = c.draw(out_cap + 3);
            std::string text;
            for (size_t i = 0; i < n; ++i)
                text += char(gen_byte(c, delimiters, one_in));
            const auto roll = c.chance(1, 4);
            size_t written = 0, expected = 0;
            for (auto ch : text) {
                if (out.size() == out_cap) {
                    if (!roll) break;
                    out.pop_front();
                }
                out.push_back(uint8_t(ch));
                ++expected;
            }
            const std::vector<char> exact(text.begin(), text.end());
            if (roll || c.coin())
                written = s.buffered_write(exact.data(), exact.size(), roll);
            else
                written = s.buffered_write(std::string_view(exact.data(), exact.size()));
            NOTE(c, "write " << str(text) << (roll ? " rolling over" : ""));
            CHECK_EQ(written, expected, "buffered_write");
            break;
        }
        case 5: {
            const auto b = gen_byte(c, delimiters, one_in);
            const auto roll = c.chance(1, 4);
            const bool ok = out.size() < out_cap || roll;
            if (ok) {
                if (out.size() == out_cap) out.pop_front();
                out.push_back(b);
            }
            CHECK_EQ(s.buffered_write(b, roll), size_t(ok), "buffered_write of a byte");
            NOTE(c, "write byte " << int(b) << (roll ? " rolling over" : ""));
            break;
        }
        case 6: {
            const auto n = next_line(in, delimiters);
            const auto discovered = c.coin() ? std::optional<size_t>(s.length_of_next_line()) : std::nullopt;
            const auto v = s.get_next_line_view(discovered);
            NOTE(c, "view of line");
            CHECK_EQ(bool(v), n > 0, "get_next_line_view finds a line");
            if (v) CHECK_EQ(std::string(*v), as_string(in, n - 1), "viewed line");
            break;
        }
        case 7: {
            const auto n = next_line(in, delimiters);
            const auto size = c.draw(in_cap + 2);
            std::vector<char> buf(size);
            const auto discovered = c.coin() ? std::optional<size_t>(s.length_of_next_line()) : std::nullopt;
            const auto got = s.get_next_line(buf.data(), size, discovered);
            NOTE(c, "get line into " << size << ": " << got);
            CHECK_EQ(got, n > 0 && n <= size ? n - 1 : 0, "get_next_line");
            if (n > 0 && n <= size) {
                CHECK_EQ(std::string(buf.data(), got), as_string(in, n - 1), "line");
                CHECK_EQ(buf[got], '\0', "termination of line");
                in.erase(in.begin(), in.begin() + n);
                ++lines;
            }
            break;
        }
        case 8: { // what was written is taken back. 0 is all
            const auto n = c.draw(out.size() + 2);
            const bool last = c.coin();
            const auto expected = n ? std::min(n, out.size()) : out.size();
            NOTE(c, "drop " << n << " of the " << (last ? "last" : "first") << " bytes written");
            CHECK_EQ(last ? s.output_buffer_drop_last(n) : s.output_buffer_drop_first(n), expected, "bytes dropped from the output buffer");
            if (last) out.erase(out.end() - expected, out.end());
            else out.erase(out.begin(), out.begin() + expected);
            if (expected) c.label("output taken back");
            break;
        }
        default: {
            const auto n = next_line(in, delimiters);
            const auto discovered = c.coin() ? std::optional<size_t>(s.length_of_next_line()) : std::nullopt;
            CHECK_EQ(s.drop_next_line(discovered), n > 0, "drop_next_line");
            NOTE(c, "drop line");
            in.erase(in.begin(), in.begin() + n);
            lines += n > 0;
            break;
        }
        }
        check();
    }
    // in the end everything that was accepted comes out
    NOTE(c, "flush");
    for (int i = 0; i < 3; ++i) {
        dev->room = out.size();
        push();
        check();
    }
    CHECK(out.empty() && s.output_buffer_space_used() == 0, "bytes are left behind in the output buffer");
    while (const auto n = next_line(in, delimiters)) {
        const auto v = s.get_next_line_view();
        CHECK(v && std::string(*v) == as_string(in, n - 1), "line at the end");
        CHECK(s.drop_next_line(), "drop at the end");
        in.erase(in.begin(), in.begin() + n);
    }
    check();
    if (dev->failed_reads) c.label("failed reads");
    if (dev->failed_writes) c.label("refused writes");
    if (discarded) c.label("input discarded");
    if (lines) c.label("lines read");
    if (pulled > in_cap || sent.size() > out_cap) {
        c.label("more than fits at once");
        if (dev->failed_reads || dev->failed_writes || lines) c.nontrivial();
    }
}

} // namespace

PROP(faulty_stream, 240) {
    static const std::string ds[] = {"\r\n", "\n", ";", "\r\n", std::string("\0", 1), "abc", ""};
    history(c, ds[c.weighted({4, 2, 2, 1, 1, 1, 1})]);
}

// a text, sent in portions through a mock stream and a buffered stream, arrives as its lines
PROP(lines_through, 120) {
    const size_t cap = 2 + c.draw(30), in_cap = 2 + c.draw(30);
    std::vector<std::string> lines;
    c.scale();
    std::deque<uint8_t> text;
    while (c.more()) {
        std::string l;
        for (auto n = c.draw(std::min<size_t>(in_cap - 1, 20)); n > 0; --n)
            l += char('a' + c.draw(25));
        for (auto ch : l)
            text.push_back(uint8_t(ch));
        text.push_back('\n');
        lines.push_back(l);
    }
    auto mock = std::make_shared<spn::io::MockStream>(spn::io::MockStream::Config{.input_buffer_size = cap, .output_buffer_size = cap});
    BufferedStream s(mock, BufferedStream::Config{.input_buffer_size = in_cap, .output_buffer_size = in_cap, .delimiters = "\n"});
    NOTE(c, lines.size() << " lines, mock stream of " << cap << ", input buffer of " << in_cap);
    size_t mocked = 0, i = 0;
    std::vector<uint8_t> echoed;
    std::string all;
    for (size_t idle = 0; i < lines.size();) {
        const auto n = c.draw(std::min(cap - mocked, text.size()));
        mock->inject_bytestream(std::vector<uint8_t>(text.begin(), text.begin() + n));
        text.erase(text.begin(), text.begin() + n);
        mocked += n;
        const auto p = s.pull_in_data();
        CHECK(p <= mocked, "pulled " << p << " of " << mocked);
        mocked -= p;
        CHECK_EQ(mock->available(), mocked, "left in the stream");
        size_t read = 0;
        while (const auto v = s.get_next_line_view()) {
            CHECK(i < lines.size(), "more lines than were sent");
            CHECK_EQ(std::string(*v), lines[i], "line " << i);
            // echo it back, as far as there is space
            const auto e = s.buffered_write(*v);
            CHECK_EQ(e, v->size(), "echo fits an empty buffer");
            all += std::string(*v);
            ++i;
            CHECK(s.drop_next_line(), "drop of a line");
            ++read;
            while (s.output_buffer_space_used() > 0) {
                s.push_out_data();
                const auto x = mock->extract_bytestream();
                CHECK(x, "extraction");
                echoed.insert(echoed.end(), x->begin(), x->end());
            }
            if (c.chance(1, 3)) break;
        }
        idle = n == 0 && p == 0 && read == 0 ? idle + 1 : 0;
        if (idle > 3) { // the draws ran dry
            const auto m = std::min(cap - mocked, text.size());
            mock->inject_bytestream(std::vector<uint8_t>(text.begin(), text.begin() + m));
            text.erase(text.begin(), text.begin() + m);
            mocked += m;
            CHECK(idle < 10, "no progress");
        }
    }
    CHECK_EQ(std::string(echoed.begin(), echoed.end()), all, "echo");
    if (lines.size() > 2) c.nontrivial();
}

// long lines and much output, in few steps
PROP(large, 4) {
    const auto in_cap = gen_large(c), out_cap = c.coin() ? gen_large(c) : in_cap;
    auto dev = std::make_shared<ScriptedStream>();
    BufferedStream s(dev, BufferedStream::Config{.input_buffer_size = in_cap, .output_buffer_size = out_cap, .delimiters = "\n"});
    NOTE(c, "BufferedStream(in " << in_cap << ", out " << out_cap << ")");
    std::deque<uint8_t> in, out;
    std::vector<uint8_t> sent;
    unsigned salt = 1;
    size_t most = 0;
    for (auto steps = 3 + c.draw(9); steps > 0; --steps) {
        switch (c.draw(5)) {
        case 0:
        case 1: {
            if (dev->source.empty() || c.coin()) {
                const auto n = gen_part(c, in_cap);
                for (size_t i = 0; i < n; ++i)
                    dev->source.push_back(uint8_t('a' + (i * salt) % 23));
                ++salt;
                if (n > 0 && c.draw(3)) dev->source.back() = '\n';
            }
            auto offered = gen_part(c, dev->source.size());
            // looking for a line in a full buffer takes as long as it is large, for each byte
            if (in_cap > 2000) offered = std::min(offered, in_cap - in.size() + 3);
            const auto fails = c.chance(1, 3) ? int64_t(gen_part(c, offered)) : -1;
            NOTE(c, "pull, on offer " << offered << ", failing after " << fails);
            dev->on_offer = offered;
            dev->read_failure_in = fails;
            const auto before = dev->source.size();
            const auto source = dev->source;
            const auto n = s.pull_in_data();
            CHECK_EQ(n, before - dev->source.size(), "pull_in_data returns another number than it took from the stream");
            dev->read_failure_in = -1;
            // the model: what does not fit pushes out the oldest as long as there is no complete line
            auto left = fails < 0 ? offered : std::min<size_t>(offered, size_t(fails));
            const auto first_line = next_line(in, "\n");
            size_t line = first_line, taken = 0;
            for (; left > 0 && !(in.size() == in_cap && line); --left, ++taken) {
                if (in.size() == in_cap) in.pop_front();
                in.push_back(source[taken]);
                if (!line && source[taken] == '\n') line = in.size();
            }
            CHECK_EQ(n, taken, "pull_in_data");
            CHECK_EQ(s.input_buffer_space_used(), in.size(), "input_buffer_space_used");
            break;
        }
        case 2: {
            const auto n = gen_part(c, out_cap - out.size()) + (c.chance(1, 4) ? 3 : 0);
            std::vector<uint8_t> data(n);
            for (size_t i = 0; i < n; ++i)
                data[i] = uint8_t(i * salt + 3);
            ++salt;
            NOTE(c, "write " << n);
            const auto fit = std::min(n, out_cap - out.size());
            CHECK_EQ(s.buffered_write(reinterpret_cast<const char*>(data.data()), n), fit, "buffered_write");
            out.insert(out.end(), data.begin(), data.begin() + fit);
            break;
        }
        case 3: {
            const auto room = gen_part(c, out.size() + 2);
            NOTE(c, "push, room for " << room);
            dev->room = room;
            const auto k = std::min(room, out.size());
            CHECK_EQ(s.push_out_data(), k, "push_out_data");
            sent.insert(sent.end(), out.begin(), out.begin() + k);
            out.erase(out.begin(), out.begin() + k);
            CHECK(dev->sink == sent, "what was sent differs");
            break;
        }
        case 4: {
            if (out.empty()) break;
            const auto n = std::max<size_t>(1, gen_part(c, out.size()));
            const bool first = c.coin();
            NOTE(c, (first ? "drop the first " : "drop the last ") << n);
            CHECK_EQ(first ? s.output_buffer_drop_first(n) : s.output_buffer_drop_last(n), n, "dropped");
            if (first)
                out.erase(out.begin(), out.begin() + n);
            else
                out.erase(out.end() - n, out.end());
            break;
        }
        default: {
            const auto n = next_line(in, "\n");
            NOTE(c, "take a line of " << n);
            CHECK_EQ(s.length_of_next_line(), n, "length_of_next_line");
            const auto v = s.get_next_line_view();
            CHECK_EQ(bool(v), n > 0, "a line");
            if (!v) break;
            CHECK_EQ(v->size(), n - 1, "length of the line");
            CHECK(std::equal(v->begin(), v->end(), in.begin(), [](char a, uint8_t b) { return uint8_t(a) == b; }), "a line of " << n << " differs");
            CHECK(s.drop_next_line(), "drop_next_line");
            in.erase(in.begin(), in.begin() + n);
        }
        }
        most = std::max({most, out.size(), s.input_buffer_space_used()});
        CHECK_EQ(s.output_buffer_space_used(), out.size(), "output_buffer_space_used");
        CHECK_EQ(s.output_buffer_space_left(), out_cap - out.size(), "output_buffer_space_left");
    }
    if (most > 255) {
        c.label("large");
        c.nontrivial();
    }
}

// two of them at once have nothing in common
PROP(two_streams, 20) { twins(c, [&] { prop_faulty_stream(c); }); }
