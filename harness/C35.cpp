// C35: a device put together from the parts serves each request once
#include "streams.hpp"

#include "spine/eventsystem/eventsystem.hpp"
#include "spine/structure/array.hpp"
#include "spine/structure/vector.hpp"

using namespace pbt;
using spn::core::Event;
using spn::core::EventHandler;
using spn::core::EventSystem;
using spn::io::BufferedStream;
using spn::io::MockStream;
using spn::structure::Array;
using spn::structure::Vector;

namespace {

enum class Events : uint8_t { Tick, Notice, SIZE };

/// What a device is to do: registers, sums, text, answers that are taken back, and notices later on
struct Meaning {
    std::string answer; // nothing: the request is dropped
    std::string taken_back; // queued first, and then given up
    bool fill = false; // of it, as much as there is room for
    std::optional<uint32_t> notice_in;
};

/// The rules, for the device and its model alike; `reg(i)` is a reference to a register
template<typename Registers>
Meaning interpret(const std::string& line, Registers&& reg) {
    Meaning m;
    const auto number = [&](size_t at) { return at < line.size() ? uint32_t(strtoul(line.c_str() + at, nullptr, 10)) : 0u; };
    switch (line.empty() ? ' ' : line[0]) {
    case 's': // s<i><v>
        reg(line.size() > 1 ? size_t(line[1]) % 4 : 0) = number(2);
        m.answer = "k";
        break;
    case 'g': // g<i>
        m.answer = "=" + std::to_string(reg(line.size() > 1 ? size_t(line[1]) % 4 : 0));
        break;
    case 'x': // gives up halfway
        m.taken_back = line;
        break;
    case 'z': // gives up after having filled all there is
        m.taken_back = line;
        m.fill = true;
        break;
    case 'y': // changes its mind
        m.taken_back = line;
        m.answer = "no";
        break;
    case 'n': // n<ms>
        m.answer = "n";
        m.notice_in = std::max(1u, number(1)); // not right now
        break;
    case 'q': break; // quiet
    default: m.answer = ">" + line; break;
    }
    if (!m.answer.empty()) m.answer += '\n';
    return m;
}

constexpr size_t NOTICE = 8; // at most so many bytes

struct Device : EventHandler {
    Ctx& c;
    BufferedStream stream;
    Array<uint32_t> registers = Array<uint32_t>(4, 0u);
    Vector<uint32_t> waiting; // notices that are to come
    size_t needed, notices_cap; // room for the longest answer
    uint32_t next_notice = 0;
    size_t served = 0, waited_for_room = 0;
    bool bytewise = false, patient = false; // patient: sends when a step is over
    size_t filled = 0; // taken back while it filled the buffer, with other output before it
    k_time_ms period{10};
    // what the harness checks notices against
    struct Planned {
        uint32_t no;
        int64_t due;
    };
    std::vector<Planned> planned; // in order of being due
    std::vector<uint32_t> told;

    Device(Ctx& ctx, EventSystem* evsys, std::shared_ptr<spn::io::Stream> s, size_t in_cap, size_t out, const char* delimiters, size_t need, size_t notices)
        : EventHandler(evsys), c(ctx),
          stream(std::move(s), BufferedStream::Config{.input_buffer_size = in_cap, .output_buffer_size = out, .delimiters = delimiters}),
          waiting(notices), needed(need), notices_cap(notices) {
        evsys->attach(Events::Tick, this);
        evsys->attach(Events::Notice, this);
    }

    void handle_event(const Event& e) override {
        switch (Events(e.id())) {
        case Events::Tick:
            step();
            evsys()->schedule(Events::Tick, period);
            break;
        case Events::Notice: {
            const auto no = e.data().unsigned_value();
            CHECK(waiting.size() > 0, "notice " << no << " comes, but none is waited for");
            if (stream.output_buffer_space_left() < NOTICE) { // once more, later
                ++waited_for_room;
                evsys()->schedule(Events::Notice, k_time_ms(1), Event::Data(no));
                for (auto& p : planned)
                    if (p.no == no) p.due = INT64_MIN; // whenever there is room
                stream.push_out_data();
                break;
            }
            size_t at = 0;
            while (at < waiting.size() && waiting[at] != no)
                ++at;
            CHECK(at < waiting.size(), "notice " << no << " comes, but is not waited for");
            waiting.remove(at);
            told.push_back(no);
            for (auto& p : planned)
                if (p.no == no) CHECK(p.due == INT64_MIN || now_ms() >= p.due, "notice " << no << " comes at " << now_ms() << ", it was due at " << p.due);
            const auto text = "!" + std::to_string(no) + "\n";
            CHECK_EQ(stream.buffered_write(text), text.size(), "buffered_write of a notice");
            break;
        }
        default: CHECK(false, "the device hears of event " << e.id());
        }
    }

    void step() {
        stream.pull_in_data();
        for (int i = 0; i < 1000; ++i) {
            if (!patient && stream.output_buffer_space_used() > 0) stream.push_out_data();
            if (stream.has_line() && stream.output_buffer_space_left() < needed) break;
            auto t = stream.new_transaction();
            if (!t) break;
            serve(*t);
            stream.pull_in_data();
        }
        stream.push_out_data();
    }

    size_t put(BufferedStream::Transaction& t, const std::string& s) {
        if (!bytewise) return t.outgoing(s);
        size_t n = 0;
        for (auto ch : s)
            n += t.outgoing(ch);
        return n;
    }

    void serve(BufferedStream::Transaction& t) {
        const std::string line(t.incoming());
        ++served;
        const auto m = interpret(line, [&](size_t i) -> uint32_t& { return registers[i]; });
        if (m.notice_in) {
            if (waiting.size() == notices_cap) {
                CHECK_EQ(put(t, "busy\n"), 5u, "outgoing");
                t.commit();
                return;
            }
            waiting.push_back(next_notice);
            const Planned p{next_notice, now_ms() + *m.notice_in};
            planned.insert(std::upper_bound(planned.begin(), planned.end(), p, [](auto& a, auto& b) { return a.due < b.due; }), p);
            evsys()->schedule(Events::Notice, k_time_ms(*m.notice_in), Event::Data(next_notice));
            ++next_notice;
        }
        if (!m.taken_back.empty()) {
            const auto before = stream.output_buffer_space_used();
            CHECK_EQ(put(t, m.taken_back), m.taken_back.size(), "outgoing");
            if (m.fill) {
                const std::string more(t.outgoing_space_left(), '#');
                CHECK_EQ(put(t, more), more.size(), "outgoing, all there is");
                if (before > 0) ++filled;
            }
            t.abort();
            CHECK_EQ(stream.output_buffer_space_used(), before, "output buffer after an answer was taken back");
            if (!m.answer.empty()) CHECK_EQ(stream.buffered_write(m.answer), m.answer.size(), "buffered_write");
            return;
        }
        if (!m.answer.empty()) CHECK_EQ(put(t, m.answer), m.answer.size(), "outgoing");
        if (line.size() % 2) t.commit(); // otherwise by going out of scope
    }
};

/// The other side: sends, receives, and knows what is to come
struct Host {
    std::string delimiters;
    std::array<uint32_t, 4> registers{};
    std::string partial; // of a request
    std::deque<std::string> expected; // answers to come
    size_t expected_bytes = 0;
    std::string received; // not a complete line yet
    std::vector<uint32_t> notices;
    size_t requests = 0, answers = 0, refused = 0;

    void sent(char b) {
        if (delimiters.find(b) == std::string::npos) {
            partial += b;
            return;
        }
        ++requests;
        auto m = interpret(partial, [&](size_t i) -> uint32_t& { return registers[i]; });
        if (!m.answer.empty()) expected.push_back(m.answer);
        partial.clear();
    }
    void got(char b) {
        received += b;
        if (b != '\n') return;
        auto line = std::move(received);
        received.clear();
        if (line[0] == '!') {
            notices.push_back(uint32_t(strtoul(line.c_str() + 1, nullptr, 10)));
            return;
        }
        CHECK(!expected.empty(), "answer " << str(line) << ", but no request is open");
        if (line == "busy\n" && expected.front() == "n\n")
            ++refused;
        else
            CHECK_EQ(str(line), str(expected.front()), "answer number " << answers);
        ++answers;
        expected.pop_front();
    }
};

std::string gen_request(Ctx& c, size_t max) {
    std::string s;
    switch (c.draw(8)) {
    case 0:
    case 1: s = "s" + std::to_string(c.draw(3)) + std::to_string(c.draw(99999)); break;
    case 2:
    case 3: s = "g" + std::to_string(c.draw(3)); break;
    case 4: s = "n" + std::to_string(c.coin() ? c.draw(400) : 10 * c.draw(20)); break;
    case 5: s = c.pick<const char*>({"x", "y", "z"}); break;
    case 6: s = "q"; break;
    default: s = "t"; break;
    }
    if (s[0] == 't' || s[0] == 'x' || s[0] == 'y' || s[0] == 'z' || s[0] == 'q') {
        const bool binary = c.chance(1, 3); // any byte that ends no request
        auto n = c.draw(c.coin() ? max : 8);
        if (max > 127 && c.coin()) n = std::min<uint64_t>(max - 1, c.pick<uint64_t>({127, 255, 511}) - c.draw(3)); // about a power of two, with what comes before
        for (; n > 0; --n) {
            auto b = char(binary ? c.coin() ? c.draw(255) : c.draw(3) : 'a' + c.draw(25));
            if (b == '\r' || b == '\n') b = 0;
            s += b;
        }
    }
    if (s.size() > max) s.resize(max);
    if (c.chance(1, 12)) s.clear();
    return s;
}

void loop(Ctx& c, bool large) {
    const std::string delimiters = c.pick<const char*>({"\r\n", "\n"});
    const size_t in_cap = large ? 32 + gen_large(c) : 2 + c.draw(c.chance(1, 4) ? 60 : 14);
    // an answer is at most two longer than the request, or =4294967295
    const size_t needed = std::max<size_t>(in_cap + 2, 13);
    const size_t out_cap = needed + c.draw(c.coin() ? 30 : 0);
    const size_t notices_cap = 1 + c.draw(5);
    EventSystem sys(EventSystem::Config{.events_count = size_t(Events::SIZE), .events_cap = notices_cap + 4, .handler_cap = 2, .delay_between_ticks = c.coin()});
    // the wire
    const int kind = int(c.draw(2));
    std::shared_ptr<MockStream> mock;
    std::shared_ptr<ScriptedStream> scripted;
    std::shared_ptr<spn::io::Stream> dev;
    size_t wire_in = 0;
    if (kind == 2) {
        scripted = std::make_shared<ScriptedStream>();
        dev = scripted;
    } else {
        wire_in = 1 + c.draw(large ? 600 : 20);
        mock = std::make_shared<MockStream>(MockStream::Config{.input_buffer_size = wire_in, .output_buffer_size = 1 + c.draw(large ? 600 : 20)});
        dev = mock;
        if (kind == 1) dev = std::make_shared<spn::platform::MockUART>(spn::platform::MockUART::Config{.stream = mock.get()});
    }
    dev->initialize();
    NOTE(c, "device(in " << in_cap << ", out " << out_cap << ", notices " << notices_cap << ") on a " << (kind == 2 ? "failing stream" : kind ? "UART" : "mock stream"));
    Device device(c, &sys, dev, in_cap, out_cap, delimiters.c_str(), needed, notices_cap);
    device.patient = c.coin();
    device.bytewise = c.coin();
    Host host;
    host.delimiters = delimiters;
    std::deque<char> to_send;
    size_t failures = 0, chunks = 0, most_waiting = 0;
    sys.schedule(Events::Tick, k_time_ms(1));

    const auto feed = [&](size_t n) {
        if (!scripted) n = std::min(n, wire_in - mock->available());
        n = std::min(n, to_send.size());
        if (n == 0) return;
        std::vector<uint8_t> bytes(to_send.begin(), to_send.begin() + n);
        to_send.erase(to_send.begin(), to_send.begin() + n);
        for (auto b : bytes)
            host.sent(char(b));
        if (scripted)
            scripted->source.insert(scripted->source.end(), bytes.begin(), bytes.end());
        else
            mock->inject_bytestream(bytes);
        ++chunks;
    };
    const auto drain = [&] {
        if (scripted) {
            for (auto b : scripted->sink)
                host.got(char(b));
            scripted->sink.clear();
            return;
        }
        const auto v = mock->extract_bytestream();
        CHECK(v, "nothing is extracted");
        for (auto b : *v)
            host.got(char(b));
    };
    const auto run = [&](int64_t ms) {
        advance_ms(ms);
        sys.loop();
        most_waiting = std::max<size_t>(most_waiting, device.waiting.size());
    };
    c.scale();
    const auto w = c.swarm(8);
    while (c.more()) {
        switch (c.weighted(w)) {
        case 0:
        case 1: {
            auto s = gen_request(c, in_cap - 1);
            if (delimiters.size() > 1 && c.chance(1, 4))
                s += delimiters;
            else
                s += c.pick_from(delimiters);
            NOTE(c, "request " << str(s));
            to_send.insert(to_send.end(), s.begin(), s.end());
            break;
        }
        case 2:
        case 3: {
            const auto n = c.coin() ? to_send.size() : c.draw(in_cap);
            NOTE(c, "feed " << n);
            feed(n);
            if (scripted) scripted->on_offer = c.coin() ? scripted->source.size() : c.draw(scripted->source.size());
            break;
        }
        case 4:
            NOTE(c, "drain");
            drain();
            if (scripted) scripted->room = c.draw(2 * out_cap);
            break;
        case 5:
            if (!scripted) break;
            if (c.coin())
                scripted->read_failure_in = int64_t(c.draw(10));
            else
                scripted->write_failure_in = int64_t(c.draw(10));
            NOTE(c, "next failures " << scripted->read_failure_in << ", " << scripted->write_failure_in);
            break;
        default: {
            const auto ms = c.coin() ? 10 : int64_t(c.draw(c.chance(1, 5) ? 500 : 30));
            NOTE(c, "run " << ms);
            run(ms);
            break;
        }
        }
    }
    if (scripted) failures = scripted->failed_reads + scripted->failed_writes;
    // in the end everything gets through
    NOTE(c, "until all is done");
    const auto rest = to_send.size() + (scripted ? scripted->source.size() : mock->available());
    size_t budget = 400 + 4 * rest + 4 * device.stream.output_buffer_space_used() + (large ? 40 * (in_cap + out_cap) : 60 * (in_cap + out_cap));
    const auto done = [&] { return to_send.empty() && device.served >= host.requests && host.expected.empty() && device.waiting.empty() && host.notices.size() == device.told.size(); };
    while (!done()) {
        CHECK(budget-- > 0, "the device has not answered: " << host.expected.size() << " answers are missing, the first is " << (host.expected.empty() ? "-" : str(host.expected.front()))
                                                            << "; " << device.waiting.size() << " notices are missing, " << to_send.size() << " bytes were not taken");
        feed(to_send.size());
        if (scripted) {
            scripted->on_offer = scripted->source.size();
            scripted->room = out_cap;
        }
        run(10);
        drain();
    }
    for (int i = 0; i < 3; ++i) {
        if (scripted) scripted->room = out_cap;
        run(10);
        drain();
    }
    CHECK(host.received.empty(), "incomplete answer " << str(host.received));
    CHECK_EQ(device.served, host.requests, "requests served");
    CHECK_EQ(device.stream.input_buffer_space_used(), host.partial.size(), "input buffer");
    CHECK_EQ(device.stream.output_buffer_space_used(), size_t(0), "output buffer");
    CHECK(host.notices == device.told, "notices told and received differ");
    for (size_t i = 0; i < 4; ++i)
        CHECK_EQ(device.registers[i], host.registers[i], "register " << i);
    // notices come in the order of being due; those that waited for room aside
    if (device.waited_for_room == 0) {
        std::vector<uint32_t> order;
        for (auto& p : device.planned)
            order.push_back(p.no);
        CHECK(host.notices == order, "notices do not come in the order of being due");
    } else {
        auto got = host.notices;
        std::sort(got.begin(), got.end());
        for (size_t i = 0; i < got.size(); ++i)
            CHECK_EQ(got[i], uint32_t(i), "notice " << i);
        CHECK_EQ(got.size(), size_t(device.next_notice), "notices");
        c.label("no room for a notice");
    }
    if (device.filled) c.label("a full output buffer taken back in part");
    if (failures) c.label("failures");
    if (host.notices.size() > 1) c.label("2+ notices");
    if (host.refused) c.label("refused a notice");
    if (chunks > host.requests) c.label("requests in parts");
    if (host.answers >= 2) {
        c.label("2+ answers");
        c.nontrivial();
    }
}

} // namespace

PROP(device, 60) { loop(c, false); }
PROP(large, 1) { loop(c, true); }

// two of them at once have nothing in common
PROP(two_devices, 2) { twins(c, [&] { prop_device(c); }); }
