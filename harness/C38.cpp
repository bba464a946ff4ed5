// C38: memory is reserved once; using what was set up neither allocates nor releases
#include "pbt.hpp"

#include "spine/controller/pid.hpp"
#include "spine/controller/sr_latch.hpp"
#include "spine/core/logging.hpp"
#include "spine/core/utils/string.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/io/stream/implementations/mock.hpp"
#include "spine/structure/linebuffer.hpp"
#include "spine/structure/result.hpp"
#include "spine/structure/ringbuffer.hpp"
#include "spine/structure/stack.hpp"
#include "spine/structure/static_string.hpp"
#include "spine/structure/time/datetime.hpp"
#include "spine/structure/time/schedule.hpp"
#include "spine/structure/time/timers.hpp"
#include "spine/structure/units/si.hpp"

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

using namespace pbt;
using namespace spn::structure;

namespace {

size_t g_allocated = 0, g_released = 0, g_bytes = 0;
bool g_counting = false;
void on_malloc(const volatile void*, size_t n) {
    if (g_counting) ++g_allocated, g_bytes += n;
}
void on_free(const volatile void* p) {
    if (g_counting && p) ++g_released;
}
struct Counting {
    Counting() {
        static const bool installed = [] {
            __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
            SPN_LOG("the first message may allocate a buffer");
            std::ostringstream os;
            os << std::showpos << 1.5f;
            return true;
        }();
        (void)installed;
        g_allocated = g_released = g_bytes = 0;
        g_counting = true;
    }
    ~Counting() { g_counting = false; }
};

/// Does what neither allocates nor releases
template<typename F>
void quietly(const char* what, F&& f) {
    {
        Counting counting;
        f();
    }
    CHECK(g_allocated == 0 && g_released == 0, what << ": " << g_allocated << " blocks (" << g_bytes << " bytes) were allocated, " << g_released << " released");
}
/// Constructs what may reserve so many blocks, and hold on to that many only
template<typename F>
auto reserving(size_t blocks, const char* what, F&& f, size_t released = 0) {
    const auto check = [&] {
        CHECK(g_allocated <= blocks, what << ": " << g_allocated << " blocks (" << g_bytes << " bytes) were allocated, expected " << blocks);
        CHECK(g_released <= released, what << ": " << g_released << " blocks were released");
    };
    std::optional<Counting> counting(std::in_place);
    auto r = f();
    counting.reset();
    check();
    return r;
}

struct Plain {
    int64_t a = 0;
    int32_t b = 0;
    char c[12] = {};
    Plain() = default;
    Plain(int64_t v) : a(v), b(int32_t(v)) {}
};
struct Counted { // neither trivially copyable nor destructible
    int64_t a = 0;
    Counted() = default;
    Counted(int64_t v) : a(v) {}
    Counted(const Counted& o) : a(o.a) {}
    Counted& operator=(const Counted& o) {
        a = o.a;
        return *this;
    }
    ~Counted() {}
};

size_t gen_capacity(Ctx& c, size_t least = 0) { return c.chance(1, 40) ? gen_large(c) : least + c.draw(c.chance(1, 4) ? 60 : 9); }

template<typename T>
bool use_vector(Ctx& c, Vector<T>& v) {
    bool own = false; // took a block of its own
    while (c.more(40)) {
        const auto n = v.size();
        const T e(c.range(0, 1000));
        switch (c.draw(17)) {
        case 0:
        case 1:
            if (n < v.max_size() || !debug_build) quietly("push_back", [&] { v.push_back(e); });
            c.label(n < v.max_size() ? "room" : "full");
            break;
        case 2:
            if (n < v.max_size() || !debug_build) quietly("push_front", [&] { v.push_front(e); });
            break;
        case 3:
            if (n < v.max_size()) quietly("emplace_back", [&] { v.emplace_back(T(e)); });
            break;
        case 4:
            if (n < v.max_size()) quietly("emplace_front", [&] { v.emplace_front(T(e)); });
            break;
        case 5: {
            const auto at = c.draw(n);
            if (n < v.max_size()) quietly("insert", [&] { v.insert(at, e); });
            break;
        }
        case 6: {
            if (n == 0) break;
            const auto at = c.draw(n - 1);
            quietly("remove", [&] { v.remove(at); });
            break;
        }
        case 7:
            if (n) quietly("pop_back", [&] { [[maybe_unused]] const T t = v.pop_back(); });
            break;
        case 8:
            if (n) quietly("pop_front", [&] { [[maybe_unused]] const T t = v.pop_front(); });
            break;
        case 9: quietly("clear", [&] { v.clear(); }); break;
        case 10: quietly("fill", [&] { v.fill(e); }); break;
        case 11: {
            volatile size_t seen = 0;
            quietly("iteration", [&] {
                for (auto& x : v)
                    seen = seen + sizeof(x);
                for (auto it = v.rbegin(); it != v.rend(); ++it)
                    seen = seen + 1;
                for (auto it = v.cbegin(); it != v.cend(); it++)
                    seen = seen + 1;
            });
            break;
        }
        case 12:
            if (n) quietly("access", [&] { v.at(0) = v.back(), v.front() = v.peek_back(), v[n - 1] = v.peek_front(); });
            break;
        case 13:
            quietly("a copy that views the same", [&] {
                const Vector<T> view(v);
                (void)view.size();
            });
            break;
        case 14:
            quietly("moved there and back", [&] {
                Vector<T> other(std::move(v));
                v = std::move(other);
            });
            break;
        case 15: {
            auto other = std::make_unique<Vector<T>>(3);
            other->push_back(e);
            quietly("swap", [&] { v.swap(*other); });
            quietly("swap back", [&] { other->swap(v); });
            break;
        }
        case 16:
            // the list takes a block of its own in place of the former one; it is a new vector
            reserving(1, "assignment of a list", [&] {
                v = {e, e, e};
                return 0;
            }, 1);
            own = true;
            break;
        default: quietly("size", [&] { (void)(v.empty() || v.full() || v.data() == nullptr); });
        }
    }
    return own;
}

template<typename T>
void vectors(Ctx& c) {
    if (c.chance(1, 4)) {
        T store[6];
        auto v = reserving(0, "a vector over an external store", [&] { return Vector<T>(store, c.draw(6)); });
        c.label("external store");
        if (!use_vector(c, v)) quietly("the end of a vector over an external store", [&] { Vector<T> gone(std::move(v)); });
    } else {
        const auto n = gen_capacity(c);
        const auto filled = c.chance(1, 4);
        auto v = reserving(1, "a vector", [&] { return filled ? Vector<T>(n, T(1)) : Vector<T>(n); });
        use_vector(c, v);
    }
    c.nontrivial();
}

} // namespace

PROP(vector, 6) {
    switch (c.draw(3)) {
    case 0: return vectors<int>(c);
    case 1: return vectors<Plain>(c);
    case 2: return vectors<Counted>(c);
    default: return vectors<uint8_t>(c);
    }
}

PROP(array, 3) {
    const auto n = gen_capacity(c, 1);
    const auto filled = c.coin();
    auto a = reserving(1, "an array", [&] { return filled ? Array<Plain>(n, Plain(3)) : Array<Plain>(n); });
    auto list = reserving(1, "an array of a list", [&] { return Array<Plain>({Plain(1), Plain(2), Plain(3)}); });
    while (c.more(20)) {
        const Plain e(c.range(0, 1000));
        const auto at = c.draw(n - 1);
        switch (c.draw(6)) {
        case 0: quietly("write", [&] { a[at] = e, a.at(at) = e, a.front() = a.back(); }); break;
        case 1: quietly("fill", [&] { a.fill(e); }); break;
        case 2: {
            volatile size_t seen = 0;
            quietly("iteration", [&] {
                for (auto& x : a)
                    seen = seen + size_t(x.a);
                for (auto it = a.rbegin(); it != a.rend(); it++)
                    seen = seen + 1;
                for (auto it = a.crbegin(); it != a.crend(); ++it)
                    seen = seen + 1;
            });
            break;
        }
        case 3:
            quietly("swap", [&] { a.swap(list); });
            quietly("swap back", [&] { list.swap(a); });
            break;
        case 4:
            quietly("a copy that views the same", [&] {
                Array<Plain> view(a);
                view = a;
            });
            break;
        case 5:
            quietly("moved there and back", [&] {
                Array<Plain> other(std::move(a));
                a = std::move(other);
            });
            break;
        default: quietly("size", [&] { (void)(a.empty() || a.size() != a.max_size()); });
        }
    }
    c.nontrivial();
}

PROP(rings, 5) {
    const auto n = gen_capacity(c, 1);
    auto r = std::make_unique<std::optional<RingBuffer<Counted>>>();
    reserving(1, "a ring buffer", [&] { return r->emplace(n, Counted(1)).capacity(); });
    auto& ring = **r;
    std::vector<Counted> several(std::max<size_t>(8, n + 2));
    auto* const some = several.data();
    bool wrapped = false;
    while (c.more(40)) {
        const auto k = c.draw(c.coin() ? 7 : several.size());
        const Counted e(int64_t(c.draw(9)));
        const bool over = c.coin();
        switch (c.draw(8)) {
        case 0: quietly("push", [&] { ring.push(e, over); }); break;
        case 1: quietly("push of several", [&] { ring.push(some, k, over); }); break;
        case 2: quietly("pop", [&] { ring.pop(some[0]); }); break;
        case 3: quietly("pop of several", [&] { ring.pop(some, k); }); break;
        case 4: quietly("peek", [&] { ring.peek_at(some[0], k); }); break;
        case 5: quietly("drop_first", [&] { ring.drop_first(k); }); break;
        case 6: quietly("drop_last", [&] { ring.drop_last(k); }); break;
        case 7: quietly("clear", [&] { ring.clear(); }); break;
        default: quietly("pop of nothing in particular", [&] { ring.pop(); });
        }
        wrapped |= ring.full();
    }
    if (wrapped) c.nontrivial();
}

PROP(lines, 5) {
    const auto n = gen_capacity(c, 1);
    // views only: longer than a string stores without memory of its own
    const std::string delimiters = c.coin() ? "\r\n" : "\n;,.:-_#+*'|<>0123456789";
    auto l = std::make_unique<std::optional<LineBuffer>>();
    reserving(1, "a line buffer", [&] { return l->emplace(n, delimiters).capacity(); });
    auto& lines = **l;
    char out[64];
    bool read = false;
    while (c.more(40)) {
        std::string text;
        for (auto k = c.draw(c.chance(1, 4) ? 60 : 10); k > 0; --k)
            text += c.chance(1, 4) ? c.pick_from(delimiters) : 'x';
        switch (c.draw(8)) {
        case 0:
        case 1: quietly("push", [&] { lines.push(std::string_view(text)); }); break;
        case 2:
            quietly("push of a byte with rollover", [&] {
                for (auto b : text)
                    lines.push(b, true);
            });
            break;
        case 3: read |= lines.has_line(), quietly("view of a line", [&] { lines.get_next_line_view(); }); break;
        case 4: read |= lines.has_line(), quietly("read of a line", [&] { lines.get_next_line(out, sizeof out); }); break;
        case 5: quietly("drop of a line", [&] { lines.drop_next_line(); }); break;
        case 6: quietly("length", [&] { (void)lines.length_of_next_line(); }); break;
        case 7: quietly("set_delimiters", [&] { lines.set_delimiters(delimiters); }); break;
        default: quietly("clear", [&] { lines.clear(); });
        }
    }
    if (read) c.nontrivial();
}

PROP(stacks_and_pools, 4) {
    const auto n = gen_capacity(c, 1);
    {
        auto s = std::make_unique<std::optional<Stack<Counted>>>();
        reserving(1, "a stack", [&] { return s->emplace(n).size(); });
        auto& stack = **s;
        while (c.more(20)) {
            Counted e(1);
            switch (c.draw(3)) {
            case 0:
                if (stack.size() < n) quietly("push", [&] { stack.push(e); });
                break;
            case 1:
                if (stack.size() < n) quietly("emplace", [&] { stack.emplace(Counted(2)); });
                break;
            case 2:
                if (!stack.empty()) quietly("pop", [&] { stack.pop(); });
                break;
            default:
                if (!stack.empty()) quietly("top", [&] { stack.top().a++; });
            }
        }
    }
    auto pool = std::make_unique<std::optional<Pool<Plain>>>();
    reserving(1, "a pool", [&] { return pool->emplace(n).size(); });
    for (size_t i = 0; i < n; ++i) {
        auto object = std::make_shared<Plain>(int64_t(i));
        quietly("populate", [&] { (*pool)->populate(std::move(object)); });
    }
    std::vector<std::shared_ptr<Plain>> held(8);
    size_t acquired = 0;
    while (c.more(30)) {
        auto& h = held[c.draw(7)];
        quietly(h ? "release" : "acquire", [&] {
            if (h) h.reset();
            else h = (*pool)->acquire(), acquired += h != nullptr;
        });
    }
    quietly("release of all", [&] {
        for (auto& h : held)
            h.reset();
    });
    while ((*pool)->size()) {
        std::shared_ptr<Plain> object;
        quietly("depopulate", [&] { object = (*pool)->depopulate(); });
    }
    if (acquired) c.nontrivial();
}

PROP(events, 8) {
    using namespace spn::core;
    const size_t ids = 1 + c.draw(4), cap = 1 + (c.chance(1, 20) ? 60 + c.draw(300) : c.draw(8)), handlers = 1 + c.draw(3);
    set_now_ms(c.chance(1, 3) ? 0 : c.nasty(0, 1ll << 40));
    struct World {
        EventSystem* sys;
        size_t pending = 0, cap = 0, ids = 0;
        int depth = 0;
        uint32_t reschedule = 0; // bits: whether the next ones schedule another
        size_t handled = 0, peak = 0;
        std::array<std::shared_ptr<Event>, 4> held{};
        size_t used() const {
            size_t n = pending;
            for (auto& h : held)
                n += h != nullptr;
            return n;
        }
    } w;
    struct Handler : EventHandler {
        World& w;
        bool first;
        Handler(World& world, bool f) : EventHandler(world.sys), w(world), first(f) {}
        void handle_event(const Event& e) override {
            ++w.handled;
            if (!first) return;
            if (w.pending && w.depth == 0) --w.pending; // delivered by the loop
            const auto again = w.reschedule & 1;
            w.reschedule >>= 1;
            // what is being delivered still takes a slot
            if (again && w.used() + 1 < w.cap) {
                ++w.pending;
                evsys()->schedule(e.id(), k_time_ms(1 + int64_t(w.handled % 50)), e.data());
            }
        }
    };
    const bool delays = c.coin();
    auto sys = std::make_unique<EventSystem>(EventSystem::Config{.events_count = ids, .events_cap = cap, .handler_cap = handlers, .delay_between_ticks = delays});
    w.sys = sys.get();
    w.cap = cap, w.ids = ids;
    std::vector<std::unique_ptr<Handler>> hs;
    for (size_t id = 0; id < ids; ++id)
        for (size_t h = 0; h < handlers; ++h) {
            hs.push_back(std::make_unique<Handler>(w, h == 0));
            quietly("attach", [&] { sys->attach(id, hs.back().get()); });
        }
    NOTE(c, ids << " events, " << cap << " at once, " << handlers << " handlers each");
    const auto data = [&]() -> Event::Data {
        switch (c.draw(4)) {
        case 1: return Event::Data(1.5f);
        case 2: return Event::Data(uint32_t(7));
        case 3: return Event::Data(k_time_ms(9));
        case 4: return Event::Data(k_time_s(4));
        default: return {};
        }
    };
    while (c.more(60)) {
        const auto id = c.draw(ids - 1);
        const auto d = data();
        const auto delay = k_time_ms(1 + int64_t(c.draw(c.coin() ? 10 : 5000)));
        const bool room = w.used() < cap;
        switch (c.draw(8)) {
        case 0:
        case 1:
        case 2:
            if (!room && debug_build) break; // reported
            NOTE(c, "schedule");
            quietly("schedule", [&] { sys->schedule(id, delay, d); });
            w.pending += room;
            if (!room) c.label("scheduled without room");
            break;
        case 3: {
            if (!room) break;
            NOTE(c, "trigger");
            w.depth = 1;
            quietly("trigger", [&] { sys->trigger(id, d); });
            w.depth = 0;
            break;
        }
        case 4: {
            auto& h = w.held[c.draw(3)];
            if (h) {
                NOTE(c, "schedule of a held event");
                quietly("schedule of an event", [&] { sys->schedule(std::move(h)), h = nullptr; });
                ++w.pending;
            } else if (room) {
                NOTE(c, "hold an event");
                quietly("event", [&] { h = sys->event(id, delay, d); });
            }
            break;
        }
        case 5: {
            auto& h = w.held[c.draw(3)];
            NOTE(c, "drop");
            quietly("drop of an event", [&] { h.reset(); });
            break;
        }
        case 6: advance_ms(int64_t(c.draw(6000))); break;
        default:
            w.reschedule = uint32_t(c.draw(UINT32_MAX));
            NOTE(c, "loop");
            quietly("loop", [&] { sys->loop(); });
        }
        w.peak = std::max(w.peak, w.pending);
    }
    if (w.handled >= 3) c.nontrivial();
    if (w.peak >= 30) c.label("30+ pending");
}

PROP(streams, 8) {
    using namespace spn::io;
    // keeps what it was given within itself
    struct FixedStream final : Stream {
        std::array<uint8_t, 4096> in{}, out{};
        size_t in_size = 0, in_pos = 0, offer = 0, out_size = 0, room = 0;
        void initialize() override {}
        bool read(uint8_t& v) override {
            if (offer == 0 || in_pos == in_size) return false;
            --offer;
            v = in[in_pos++];
            return true;
        }
        size_t read(uint8_t* b, size_t n) override {
            size_t i = 0;
            while (i < n && read(b[i]))
                ++i;
            return i;
        }
        bool write(const uint8_t v) override {
            if (room == 0 || out_size == out.size()) return false;
            --room;
            out[out_size++] = v;
            return true;
        }
        size_t write(const uint8_t* const b, size_t n) override {
            size_t i = 0;
            while (i < n && write(b[i]))
                ++i;
            return i;
        }
        size_t available() const override { return std::min(offer, in_size - in_pos); }
        size_t available_for_write() const override { return std::min(room, out.size() - out_size); }
        void flush() override {}
    };
    auto fixed = std::make_shared<FixedStream>();
    std::shared_ptr<MockStream> mock;
    const bool scripted = c.coin();
    const size_t in = gen_capacity(c, 1), out = gen_capacity(c, 1);
    if (!scripted) mock = std::make_shared<MockStream>(MockStream::Config{.input_buffer_size = 80, .output_buffer_size = 80});
    for (auto& b : fixed->in)
        b = c.story.str().empty() && (&b - &fixed->in[0]) % 7 == 6 ? '\n' : uint8_t('a');
    fixed->in_size = fixed->in.size();
    BufferedStream s(scripted ? std::static_pointer_cast<Stream>(fixed) : std::static_pointer_cast<Stream>(mock), BufferedStream::Config{.input_buffer_size = in, .output_buffer_size = out, .delimiters = "\r\n"});
    char line[128];
    size_t transactions = 0;
    while (c.more(50)) {
        switch (c.draw(8)) {
        case 0:
            fixed->offer += c.draw(20), fixed->room += c.draw(20);
            if (mock) {
                std::vector<uint8_t> bytes;
                for (auto k = c.draw(30); k > 0; --k)
                    bytes.push_back(c.chance(1, 4) ? '\n' : 'b');
                if (bytes.size() <= 80 - mock->available()) mock->inject_bytestream(bytes);
                if (c.coin()) mock->extract_bytestream();
            }
            break;
        case 1: quietly("pull_in_data", [&] { s.pull_in_data(); }); break;
        case 2: quietly("push_out_data", [&] { s.push_out_data(); }); break;
        case 3: quietly("a buffered byte", [&] { s.buffered_write(uint8_t('x')); }); break;
        case 4: quietly("buffered text", [&] { s.buffered_write(std::string_view("a text of some length, longer than a short string")); }); break;
        case 5: quietly("read of a line", [&] { s.get_next_line(line, sizeof line); }); break;
        case 6: quietly("drop of a line", [&] { s.drop_next_line(); }); break;
        case 7: quietly("view of a line", [&] { s.get_next_line_view(); }); break;
        default: {
            const auto end = c.draw(2);
            const auto n = std::min<size_t>(s.output_buffer_space_left(), c.draw(40));
            quietly("transaction", [&] {
                auto t = s.new_transaction();
                if (!t) return;
                ++transactions;
                if (!t->incoming().empty() && n) t->outgoing('>');
                const auto left = std::min(n, t->outgoing_space_left());
                if (left) t->outgoing("0123456789012345678901234567890123456789", left);
                if (end == 0) t->commit();
                if (end == 1) t->abort();
                // or falls out of scope
            });
        }
        }
    }
    if (transactions) c.nontrivial();
}

PROP(controllers_and_filters, 5) {
    using namespace spn::controller;
    using namespace spn::filter;
    using namespace spn::structure::time;
    set_now_ms(c.chance(1, 3) ? 0 : c.nasty(0, 1ll << 40));
    std::optional<PID> pid;
    std::optional<SRLatch> latch;
    quietly("a PID controller", [&] {
        pid.emplace(PID::Config{.sample_interval = k_time_ms(10)});
        pid->initialize();
    });
    quietly("a latch", [&] { latch.emplace(SRLatch::Config{.high = 5, .low = 1, .minimal_on_time = k_time_ms(5), .minimal_off_time = k_time_ms(5)}); });
    BandPass<> band(BandPass<>::Config{.rejection_limit = 3, .throw_on_rejection_limit = false});
    EWMA<> average(EWMA<>::Config{.K = 10});
    MappedRange<> range(MappedRange<>::Config{.input_upper_limit = 10});
    Passthrough<> pass(Passthrough<>::Config{});
    Invert<> invert(Invert<>::Config{.input_lower_limit = -1000, .input_upper_limit = 1000});
    const size_t slots = 1 + c.draw(9);
    auto stack = std::make_unique<std::optional<spn::filter::Stack<>>>();
    reserving(1, "a filter stack", [&] { return stack->emplace(uint8_t(slots)).filter_slots(); });
    auto& filters = **stack;
    Timer timer;
    IntervalTimer interval(k_time_ms(7), c.coin());
    AlarmTimer alarm(k_time_ms(100));
    const Schedule day({{k_time_s(100), k_time_s(1000), 1.5f}, {k_time_s(80000), k_time_s(7000), 2.5f}});
    size_t readings = 0;
    while (c.more(40)) {
        const auto v = float(c.range(-20, 20));
        switch (c.draw(11)) {
        case 0:
        case 1:
            advance_ms(int64_t(c.draw(30)));
            ++readings;
            quietly("reading of a PID", [&] { pid->new_reading(v), (void)pid->response(), (void)pid->error(); });
            break;
        case 2: quietly("settings of a PID", [&] { pid->set_target_setpoint(v), pid->set_tunings({.Kp = 1, .Ki = 2, .Kd = 3}), (void)pid->tunings(); }); break;
        case 3:
            advance_ms(int64_t(c.draw(10)));
            quietly("reading of a latch", [&] { latch->new_reading(v), (void)latch->response(); });
            break;
        case 4: quietly("filters", [&] { band.value(v), average.value(v), range.value(v), pass.value(v), invert.value(v); }); break;
        case 5: quietly("reset of filters", [&] { band.reset_to(v), average.reset_to(v), range.reset_to(v), pass.reset_to(v), invert.reset_to(v); }); break;
        case 6: {
            if (filters.filter_slots_occupied() == slots && debug_build) break; // a full one is reported
            std::unique_ptr<Filter<float>> f;
            switch (c.draw(2)) {
            case 0: f = EWMA<>::Short(); break;
            case 1: f = std::make_unique<Passthrough<>>(Passthrough<>::Config{}); break;
            default: f = Invert<>::NormalizedInverter(-1000, 1000);
            }
            // a filter that finds no slot is destroyed
            if (filters.filter_slots_occupied() < slots) quietly("attach_filter", [&] { filters.attach_filter(std::move(f)); });
            break;
        }
        case 7: {
            std::unique_ptr<Filter<float>> f;
            const auto at = uint8_t(c.draw(slots));
            if (at < filters.filter_slots_occupied()) quietly("detach_filter", [&] { f = filters.detach_filter(at); });
            break;
        }
        case 8: quietly("a stack of filters", [&] { filters.value(v), (void)filters.value(), filters.new_sample(v); }); break;
        case 9: quietly("reset of a stack of filters", [&] { filters.reset_to(v); }); break;
        case 10: {
            const auto now = int64_t(c.draw(86399));
            quietly("schedule", [&] { (void)day.value_at(k_time_s(now)), (void)day.start_of_next_block(k_time_s(now)); });
            break;
        }
        default:
            advance_ms(int64_t(c.draw(200)));
            quietly("timers", [&] {
                timer.time_since_last(v > 0);
                (void)(interval.expired() || alarm.expired());
                (void)interval.time_until_next(), (void)alarm.time_from_now();
                interval.reset();
            });
        }
    }
    if (readings >= 2) c.nontrivial();
}

PROP(text_and_logs, 3) {
    using namespace spn::core;
    const auto n = c.draw(80);
    auto s = std::make_unique<std::optional<StaticString>>();
    reserving(1, "a static string", [&] { return s->emplace(n).capacity(); });
    auto& fixed = **s;
    std::string text;
    for (auto k = c.draw(100); k > 0; --k)
        text += c.chance(1, 3) ? ' ' : 'q';
    while (c.more(20)) {
        switch (c.draw(5)) {
        case 0: {
            const auto k = c.draw(fixed.capacity());
            quietly("set_size", [&] { fixed.set_size(k); });
            break;
        }
        case 1: {
            const auto k = std::min(text.size(), fixed.capacity());
            quietly("data", [&] { memcpy(fixed.data(k), text.data(), k); });
            break;
        }
        case 2: quietly("strip", [&] { fixed.lstrip().rstrip(); }); break;
        case 3: quietly("questions to a string", [&] { (void)(fixed.starts_with(text) || fixed.ends_with(text) || fixed.view().empty()); }); break;
        case 4:
            quietly("views", [&] {
                using namespace spn::core::utils;
                const auto v = rstrip(lstrip(text, " "), " ");
                (void)(starts_with(v, text) || ends_with(v, text)), (void)find_first_of(v, " \t");
            });
            break;
        default: quietly("a message", [&] { SPN_LOG("%s %d", text.c_str(), 42); SPN_DBG("%d", 1); SPN_ERR("%s", text.c_str()); }); c.label("logged");
        }
    }
    if (n > 20) c.nontrivial();
}

PROP(results_and_units, 3) {
    struct Bad {
        int code;
    };
    using R = Result<int64_t, Bad, double>;
    const auto v = c.range(-100, 100);
    R r = c.coin() ? R(v) : c.coin() ? R::failed(Bad{int(v)}) : R::intermediary(double(v));
    volatile double sink = 0;
    quietly("combinators of results", [&] {
        R copy = r;
        copy = copy.chain([](double& d) { return d > 0 ? R(int64_t(d)) : R::failed(Bad{1}); });
        const auto m = copy.map([](const int64_t& x) { return float(x) / 2; }).map_error([](const Bad& b) { return b.code; }).map_intermediary([](const double& d) { return int(d); });
        sink = sink + m.match([](float f) { return double(f); }, [](int e) { return double(e); }, [](int i) { return double(i); });
        sink = sink + double(copy.value_or(3)) + double(copy.unwrap_or_else([] { return int64_t(4); }));
        copy = copy.and_then([](const int64_t& x) { return R(x + 1); }).or_else([](const Bad&) { return R(int64_t(0)); });
    });
    quietly("units", [&] {
        k_time_ms t = k_time_s(v) + k_time_ms(5);
        t += k_time_m(2);
        meter a = meter(float(v)) + meter_k(1);
        sink = sink + double(t.raw()) + double(a.raw());
    });
    c.nontrivial();
}
