// C11: a transaction replies completely or not at all and consumes one request
#include "streams.hpp"

using namespace pbt;
using spn::io::BufferedStream;
using spn::io::Transaction;

namespace {

struct Queued {
    uint8_t b;
    bool reply;
};

void history(Ctx& c) {
    const std::string delimiters = c.pick<const char*>({"\r\n", "\n", ";"});
    const size_t in_cap = 2 + c.draw(c.chance(1, 6) ? 60 : 14), out_cap = 1 + c.draw(c.chance(1, 6) ? 60 : 14);
    const auto one_in = c.pick<unsigned>({3, 2, 6, 12});
    auto dev = std::make_shared<ScriptedStream>();
    BufferedStream s(dev, BufferedStream::Config{.input_buffer_size = in_cap, .output_buffer_size = out_cap, .delimiters = delimiters});
    NOTE(c, "BufferedStream(in " << in_cap << ", out " << out_cap << ")");
    std::deque<uint8_t> in;
    std::deque<Queued> out;
    std::vector<uint8_t> sent;
    std::optional<Transaction> t;
    std::string request; // of the transaction
    size_t queued = 0; // by the transaction
    bool flushed = false; // while it was going on
    size_t started = 0, committed = 0, aborted = 0, dropped = 0, replies = 0;
    c.scale();
    const auto w = c.swarm(15);
    const auto pull = [&] {
        auto src = dev->source;
        while (!src.empty() && !(in.size() == in_cap && next_line(in, delimiters))) {
            if (in.size() == in_cap) in.pop_front();
            in.push_back(src.front());
            src.pop_front();
        }
        dev->on_offer = dev->source.size();
        s.pull_in_data();
        CHECK(dev->source == src, "pull_in_data leaves another rest in the stream than expected");
    };
    const auto flush = [&](size_t room) {
        dev->room = room;
        for (; room > 0 && !out.empty(); --room) {
            sent.push_back(out.front().b);
            out.pop_front();
        }
        s.push_out_data();
    };
    const auto check = [&] {
        CHECK_EQ(s.input_buffer_space_used(), in.size(), "input buffer");
        CHECK_EQ(s.output_buffer_space_used(), out.size(), "output buffer");
        CHECK_EQ(s.output_buffer_space_left(), out_cap - out.size(), "space in the output buffer");
        CHECK_EQ(s.length_of_next_line(), next_line(in, delimiters), "length of the next line");
        CHECK(dev->sink == sent, "the stream got " << str(std::string(dev->sink.begin(), dev->sink.end())) << ", expected "
                                                   << str(std::string(sent.begin(), sent.end())));
        if (t && !t->is_finalized()) {
            CHECK_EQ(std::string(t->incoming()), request, "incoming line of the transaction");
            CHECK_EQ(t->outgoing_space_left(), out_cap - out.size(), "outgoing_space_left");
            if (!flushed) CHECK_EQ(t->outgoing_space_used(), queued, "outgoing_space_used");
        }
    };
    const auto consumed = [&] {
        const auto n = next_line(in, delimiters);
        CHECK(n > 0, "harness: no line to consume");
        in.erase(in.begin(), in.begin() + n);
        for (auto& q : out)
            q.reply = false;
    };
    const auto open = [&] { return t && !t->is_finalized(); };
    const auto close = [&](unsigned how) {
        switch (how) {
        case 0:
            NOTE(c, "commit");
            t->commit();
            ++committed;
            break;
        case 1: {
            NOTE(c, "abort");
            t->abort();
            ++aborted;
            while (!out.empty() && out.back().reply)
                out.pop_back();
            break;
        }
        default:
            NOTE(c, "out of scope");
            t.reset();
            ++dropped;
            break;
        }
        if (how < 2) CHECK(t->is_finalized(), "a transaction that was committed or aborted is finalized");
        consumed();
        if (queued) ++replies;
    };
    check();
    while (c.more()) {
        switch (c.weighted(w)) {
        case 0:
        case 1: { // request comes in
            const auto n = c.draw(in_cap);
            std::string made;
            for (size_t i = 0; i < n; ++i) {
                dev->source.push_back(gen_byte(c, delimiters, one_in));
                made += char(dev->source.back());
            }
            NOTE(c, "pull " << str(made));
            pull();
            break;
        }
        case 2:
        case 3:
        case 4: {
            if (open()) break;
            t.reset();
            const auto n = next_line(in, delimiters);
            auto fresh = s.new_transaction();
            CHECK_EQ(bool(fresh), n > 0, "a transaction is offered");
            NOTE(c, "new transaction: " << bool(fresh));
            if (!fresh) break;
            if (c.coin()) {
                t.emplace(std::move(*fresh));
                CHECK(fresh->is_finalized(), "a transaction that was moved from is finalized");
            } else {
                t = std::move(fresh);
            }
            fresh.reset(); // must not consume anything
            CHECK(!t->is_finalized(), "a new transaction is finalized");
            request = as_string(in, n - 1);
            queued = 0;
            flushed = false;
            ++started;
            break;
        }
        case 5:
        case 6:
        case 7: { // reply
            if (!open()) break;
            const auto space = out_cap - out.size();
            const auto n = c.chance(1, 3) ? space + c.draw(2) : c.draw(space);
            std::string text;
            for (size_t i = 0; i < n; ++i)
                text += char(gen_byte(c, delimiters, 5));
            const std::vector<char> exact(text.begin(), text.end());
            NOTE(c, "reply " << str(text));
            if (debug_build && n > space) {
                CHECK(thrown_by([&] { t->outgoing(exact.data(), n); }), "a reply of " << n << " bytes where " << space << " fit is not asserted");
                break;
            }
            const auto got = c.coin() ? t->outgoing(exact.data(), n) : t->outgoing(std::string_view(exact.data(), n));
            CHECK_EQ(got, std::min<size_t>(n, space), "outgoing");
            for (size_t i = 0; i < got; ++i)
                out.push_back({uint8_t(text[i]), true});
            queued += got;
            break;
        }
        case 8: {
            if (!open()) break;
            const auto space = out_cap - out.size();
            const auto b = gen_byte(c, delimiters, 5);
            NOTE(c, "reply byte " << int(b));
            if (debug_build && space == 0) {
                CHECK(thrown_by([&] { t->outgoing(char(b)); }), "a byte that does not fit is not asserted");
                break;
            }
            const auto got = t->outgoing(char(b));
            CHECK_EQ(got, std::min<size_t>(1, space), "outgoing byte");
            if (got) out.push_back({b, true});
            queued += got;
            break;
        }
        case 9: // between transactions: bytes that are queued before
            if (!open()) {
                const auto b = gen_byte(c, delimiters, 5);
                NOTE(c, "write " << int(b));
                const bool ok = out.size() < out_cap;
                CHECK_EQ(s.buffered_write(b), size_t(ok), "buffered_write");
                if (ok) out.push_back({b, false});
            }
            break;
        case 10: {
            const auto room = c.draw(out_cap);
            NOTE(c, "flush " << room);
            flush(room);
            if (room) flushed = true;
            break;
        }
        case 11: {
            const auto n = next_line(in, delimiters);
            const auto v = s.get_next_line_view();
            NOTE(c, "view");
            CHECK_EQ(bool(v), n > 0, "view of the next line");
            if (v) CHECK_EQ(std::string(*v), as_string(in, n - 1), "viewed line");
            break;
        }
        case 12:
            if (open()) {
                close(0);
                if (c.coin()) { // once is enough
                    NOTE(c, "finalized again");
                    if (debug_build)
                        CHECK(thrown_by([&] { t->commit(); }), "a second commit is not asserted");
                    else if (c.coin())
                        t->commit();
                    else
                        t->abort();
                }
            }
            break;
        case 13:
            if (open()) {
                close(1);
                if (c.coin()) {
                    NOTE(c, "finalized again");
                    if (debug_build)
                        CHECK(thrown_by([&] { t->abort(); }), "a second abort is not asserted");
                    else if (c.coin())
                        t->commit();
                    else
                        t->abort();
                }
            }
            break;
        default:
            if (open()) {
                close(2);
            } else if (t && c.coin()) { // finalized before: it stays so
                NOTE(c, "move the finalized one");
                Transaction u(std::move(*t));
                CHECK(u.is_finalized() && t->is_finalized(), "a finalized transaction that was moved is finalized");
                if (c.coin()) {
                    t.emplace(std::move(u));
                    CHECK(u.is_finalized() && t->is_finalized(), "a finalized transaction that was moved is finalized");
                }
                if (c.coin()) {
                    *t = std::move(u);
                    CHECK(u.is_finalized() && t->is_finalized(), "a finalized transaction that was move assigned is finalized");
                }
            } else {
                t.reset(); // finalized before: nothing may happen
            }
            break;
        }
        check();
    }
    if (open()) close(unsigned(c.draw(2)));
    t.reset();
    check();
    flush(out_cap);
    check();
    CHECK_EQ(s.output_buffer_space_used(), size_t(0), "output buffer at the end");
    if (started) c.label("transactions");
    if (committed) c.label("committed");
    if (aborted) c.label("aborted");
    if (dropped) c.label("out of scope");
    if (replies && started >= 2) {
        c.label("2+ with a reply");
        c.nontrivial();
    }
}

} // namespace

PROP(histories, 400) { history(c); }

// long requests and long replies
PROP(large, 4) {
    const auto in_cap = gen_large(c), out_cap = gen_large(c);
    auto dev = std::make_shared<ScriptedStream>();
    BufferedStream s(dev, BufferedStream::Config{.input_buffer_size = in_cap, .output_buffer_size = out_cap, .delimiters = "\n"});
    NOTE(c, "BufferedStream(in " << in_cap << ", out " << out_cap << ")");
    std::vector<uint8_t> out;
    size_t longest = 0;
    unsigned salt = 1;
    for (auto rounds = 1 + c.draw(4); rounds > 0; --rounds) {
        const auto n = gen_part(c, in_cap - 1), before = gen_part(c, out_cap - out.size()) / (1 + c.draw(3));
        std::string request(n, 'r');
        for (size_t i = 0; i < n; ++i)
            request[i] = char('a' + i * salt % 25);
        for (auto ch : request)
            dev->source.push_back(uint8_t(ch));
        dev->source.push_back('\n');
        dev->on_offer = dev->source.size();
        CHECK_EQ(s.pull_in_data(), n + 1, "pull_in_data");
        const auto make = [&](size_t size) {
            std::string t(size, 'x');
            for (size_t i = 0; i < size; ++i)
                t[i] = char(i * salt + 7);
            ++salt;
            return t;
        };
        const auto earlier = make(before);
        CHECK_EQ(s.buffered_write(earlier), before, "buffered_write");
        out.insert(out.end(), earlier.begin(), earlier.end());
        const auto kept = out;
        {
            auto t = s.new_transaction();
            CHECK(bool(t), "no transaction");
            CHECK_EQ(t->incoming().size(), n, "length of the request");
            CHECK(t->incoming() == request, "the request of " << n << " differs");
            size_t used = 0;
            for (auto replies = c.draw(3); replies > 0; --replies) {
                const auto size = gen_part(c, out_cap - out.size());
                const auto reply = make(size);
                NOTE(c, "request of " << n << ", reply of " << size);
                const bool bytewise = c.coin();
                if (bytewise)
                    for (auto ch : reply)
                        CHECK_EQ(t->outgoing(ch), 1u, "outgoing");
                else
                    CHECK_EQ(t->outgoing(reply), size, "outgoing");
                out.insert(out.end(), reply.begin(), reply.end());
                used += size;
                CHECK_EQ(t->outgoing_space_used(), used, "outgoing_space_used");
                CHECK_EQ(t->outgoing_space_left(), out_cap - out.size(), "outgoing_space_left");
            }
            longest = std::max({longest, used, n});
            switch (c.draw(2)) {
            case 0:
                NOTE(c, "abort");
                t->abort();
                out = kept;
                break;
            case 1:
                NOTE(c, "commit");
                t->commit();
                break;
            }
        }
        CHECK_EQ(s.input_buffer_space_used(), size_t(0), "input buffer");
        CHECK_EQ(s.output_buffer_space_used(), out.size(), "output buffer");
        if (c.coin()) {
            dev->room = out.size();
            const auto sent = dev->sink.size();
            s.push_out_data();
            CHECK(std::vector<uint8_t>(dev->sink.begin() + sent, dev->sink.end()) == out, "what was sent differs from the " << out.size() << " bytes queued");
            out.clear();
        }
    }
    if (longest > 255) {
        c.label("large");
        c.nontrivial();
    }
}

// transactions of two streams in variables that are assigned to one another
PROP(two_streams, 60) {
    struct Side {
        std::shared_ptr<ScriptedStream> dev = std::make_shared<ScriptedStream>();
        std::unique_ptr<BufferedStream> s;
        std::deque<std::string> requests;
        std::string out;
        int holder = -1; // the variable with its transaction
        char next = 'a';
    } side[2];
    const size_t out_cap = 4 + c.draw(12);
    for (auto& x : side)
        x.s = std::make_unique<BufferedStream>(x.dev, BufferedStream::Config{.input_buffer_size = 24, .output_buffer_size = out_cap, .delimiters = "\n"});
    struct Variable {
        std::optional<Transaction> t;
        int of = -1; // the stream of which it holds an open transaction
        size_t queued = 0;
    } var[3];
    const auto let_go = [&](Variable& v) { // what is held is consumed, its reply stays
        if (v.of < 0) return;
        side[v.of].requests.pop_front();
        side[v.of].holder = -1;
        v.of = -1;
    };
    size_t assigned = 0, across = 0, finished = 0;
    const auto check = [&] {
        for (int i = 0; i < 2; ++i) {
            auto& x = side[i];
            CHECK_EQ(x.s->length_of_next_line(), x.requests.empty() ? 0 : x.requests.front().size() + 1, "next line of stream " << i);
            size_t n = 0;
            for (auto& r : x.requests)
                n += r.size() + 1;
            CHECK_EQ(x.s->input_buffer_space_used(), n, "input buffer of stream " << i);
            CHECK_EQ(x.s->output_buffer_space_used(), x.out.size(), "output buffer of stream " << i);
        }
        for (int v = 0; v < 3; ++v) {
            if (!var[v].t) continue;
            CHECK_EQ(var[v].t->is_finalized(), var[v].of < 0, "transaction " << v << " is finalized");
            if (var[v].of < 0) continue;
            CHECK_EQ(std::string(var[v].t->incoming()), side[var[v].of].requests.front(), "request of transaction " << v);
            CHECK_EQ(var[v].t->outgoing_space_used(), var[v].queued, "outgoing_space_used of transaction " << v);
            CHECK_EQ(var[v].t->outgoing_space_left(), out_cap - side[var[v].of].out.size(), "outgoing_space_left of transaction " << v);
        }
    };
    const auto drain = [&](int i) {
        auto& x = side[i];
        x.dev->room = x.out.size();
        x.dev->sink.clear();
        x.s->push_out_data();
        CHECK_EQ(std::string(x.dev->sink.begin(), x.dev->sink.end()), x.out, "what stream " << i << " sent");
        x.out.clear();
    };
    c.scale();
    while (c.more()) {
        const int i = int(c.below(2)), v = int(c.below(3));
        auto &x = side[i];
        auto &a = var[v];
        switch (c.draw(9)) {
        case 0:
        case 1: {
            std::string line(c.draw(3), x.next);
            x.next = x.next == 'z' ? 'a' : x.next + 1;
            size_t n = 0;
            for (auto& r : x.requests)
                n += r.size() + 1;
            if (n + line.size() + 1 > 24) break;
            NOTE(c, "request " << str(line) << " for stream " << i);
            if (x.holder >= 0) break; // a line that is viewed stays where it is
            for (auto ch : line)
                x.dev->source.push_back(uint8_t(ch));
            x.dev->source.push_back('\n');
            while (!x.dev->source.empty()) {
                x.dev->on_offer = x.dev->source.size();
                const auto left = x.dev->source.size();
                x.s->pull_in_data();
                if (x.dev->source.size() == left) break;
            }
            CHECK(x.dev->source.empty(), "a line that fits was not pulled in");
            x.requests.push_back(line);
            break;
        }
        case 2:
        case 3:
        case 4: {
            if (x.holder >= 0) break;
            auto fresh = x.s->new_transaction();
            CHECK_EQ(bool(fresh), !x.requests.empty(), "a transaction is offered");
            if (!fresh) break;
            NOTE(c, "variable " << v << " = transaction of stream " << i << (a.t ? a.of < 0 ? " over a finalized one" : " over an open one" : ""));
            if (a.t && a.of != i) ++across;
            if (a.t) {
                ++assigned;
                *a.t = std::move(*fresh);
            } else
                a.t.emplace(std::move(*fresh));
            CHECK(fresh->is_finalized(), "a transaction that was moved from is finalized");
            let_go(a);
            a.of = i;
            a.queued = 0;
            x.holder = v;
            break;
        }
        case 5: {
            const int w = int(c.below(3));
            if (w == v || !a.t || !var[w].t) break;
            NOTE(c, "variable " << w << " = variable " << v);
            auto& b = var[w];
            *b.t = std::move(*a.t);
            ++assigned;
            let_go(b);
            b.of = a.of;
            b.queued = a.queued;
            if (a.of >= 0) side[a.of].holder = w;
            a.of = -1;
            break;
        }
        case 6: {
            if (a.of < 0) break;
            auto& y = side[a.of];
            const std::string reply(c.draw(out_cap - y.out.size()), char('A' + c.draw(25)));
            NOTE(c, "reply of " << reply.size() << " through " << v);
            CHECK_EQ(a.t->outgoing(reply), reply.size(), "outgoing");
            y.out += reply;
            a.queued += reply.size();
            break;
        }
        case 7: {
            if (a.of < 0) break;
            ++finished;
            auto& y = side[a.of];
            switch (c.draw(2)) {
            case 0:
                NOTE(c, "commit " << v);
                a.t->commit();
                break;
            case 1:
                NOTE(c, "abort " << v);
                a.t->abort();
                y.out.resize(y.out.size() - a.queued);
                break;
            case 2:
                NOTE(c, "scope of " << v << " ends");
                a.t.reset();
                break;
            }
            let_go(a);
            break;
        }
        case 8:
            if (x.holder >= 0) break;
            NOTE(c, "drain stream " << i);
            drain(i);
            break;
        case 9: {
            if (x.holder >= 0 || x.out.size() == out_cap) break;
            NOTE(c, "write");
            CHECK_EQ(x.s->buffered_write(uint8_t('0')), 1u, "buffered_write");
            x.out += '0';
            break;
        }
        }
        check();
    }
    for (auto& a : var) {
        a.t.reset();
        let_go(a);
        check();
    }
    drain(0);
    drain(1);
    if (across && finished) {
        c.label("assigned across streams");
        c.nontrivial();
    }
}

// two of them at once have nothing in common
PROP(two_transactions, 20) { twins(c, [&] { history(c); }); }
