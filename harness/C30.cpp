// C30: every reported error reaches the handler once, and assertions guard misuse
#include "pbt.hpp"

#include "spine/core/debugging.hpp"
#include "spine/core/exception.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/structure/array.hpp"
#include "spine/structure/pool.hpp"
#include "spine/structure/result.hpp"
#include "spine/structure/ringbuffer.hpp"
#include "spine/structure/time/timers.hpp"
#include "spine/structure/vector.hpp"

using namespace pbt;
using spn::core::ExceptionHandler;
using spn::core::machine_exception_handler;
using spn::core::set_machine_exception_handler;

namespace {

struct Log {
    int handler;
    std::string type, what;
    const void* object;
    bool operator==(const Log& o) const { return handler == o.handler && type == o.type && what == o.what && object == o.object; }
};
std::ostream& operator<<(std::ostream& os, const Log& l) { return os << "{handler " << l.handler << ": " << l.type << " '" << l.what << "'}"; }
std::vector<Log> g_log;
int g_handlers = 0;

struct Recorder : ExceptionHandler {
    int id;
    std::function<void()> then;
    explicit Recorder(int id) : id(id) { ++g_handlers; }
    ~Recorder() override { --g_handlers; }
    void handle_exception(const spn::core::Exception& e) override {
        g_log.push_back({id, e.error_type(), e.what(), &e});
        if (then) {
            auto f = std::move(then);
            then = {};
            f();
        }
    }
};
/// an error of one's own
struct custom_exception : spn::core::Exception {
    using Exception::Exception;
    const char* error_type() const override { return "Custom exception"; }
};
struct plain_exception : spn::core::Exception {
    using Exception::Exception;
};

/// what an error says: anything, nothing as well
std::string gen_text(Ctx& c) {
    switch (c.draw(5)) {
    case 0: {
        std::string s;
        for (auto n = c.draw(c.chance(1, 6) ? 400 : 6); n > 0; --n)
            s += char(1 + c.draw(254));
        return s;
    }
    default: return "error " + std::to_string(c.below(1000));
    }
}

} // namespace

PROP(handlers, 3) {
    g_log.clear();
    g_handlers = 0;
    auto original = set_machine_exception_handler(nullptr);
    // whatever happens, the handler of the test machinery comes back
    struct Restore {
        std::unique_ptr<ExceptionHandler>& h;
        ~Restore() { set_machine_exception_handler(std::move(h)); }
    } restore{original};
    CHECK(dynamic_cast<ThrowingHandler*>(original.get()) != nullptr, "replacing the handler does not return the previous one");

    std::vector<std::unique_ptr<ExceptionHandler>> kept;
    Recorder* current = nullptr;
    int next = 1, raised = 0, replaced = 0;
    while (c.more(20)) {
        switch (c.weighted({2, 4, 1, 1})) {
        case 0: {
            auto h = c.chance(1, 4) ? nullptr : std::make_unique<Recorder>(next++);
            auto* raw = h.get();
            NOTE(c, (raw ? "handler " + std::to_string(raw->id) : "no handler"));
            auto old = set_machine_exception_handler(std::move(h));
            CHECK(old.get() == current, "replacing a handler returns another one than the previous one");
            current = raw;
            if (old && c.coin()) kept.push_back(std::move(old));
            ++replaced;
            break;
        }
        case 1: {
            const auto text = gen_text(c);
            const auto kind = c.below(5);
            const bool nested = current && c.chance(1, 8), replacing = current && !nested && c.chance(1, 8);
            NOTE(c, "raise " << kind << " " << text << (nested ? ", which raises another" : replacing ? ", which replaces the handler" : ""));
            std::vector<Log> expected;
            std::unique_ptr<ExceptionHandler> replaced_handler;
            static const spn::runtime_exception inner("inner");
            Recorder* incoming = nullptr;
            auto* const before = current;
            if (nested) current->then = [] { spn::throw_exception(inner); };
            if (replacing) {
                auto h = std::make_unique<Recorder>(next++);
                incoming = h.get();
                current->then = [&replaced_handler, p = std::make_shared<std::unique_ptr<Recorder>>(std::move(h))] { replaced_handler = set_machine_exception_handler(std::move(*p)); };
            }
            const auto raise = [&](const auto& e, const char* type) {
                if (current) expected.push_back({current->id, type, text, &e});
                if (nested) expected.push_back({current->id, "Runtime exception", "inner", &inner});
                g_log.clear();
                c.coin() ? spn::throw_exception(e) : e.throw_error();
            };
            switch (kind) {
            case 0: raise(spn::runtime_exception(text.c_str()), "Runtime exception"); break;
            case 1: raise(spn::logic_exception(text.c_str()), "Logic exception"); break;
            case 2: raise(spn::assertion_exception(text.c_str()), "Assertion exception"); break;
            case 3: raise(custom_exception(text.c_str()), "Custom exception"); break;
            default: raise(plain_exception(text.c_str()), "Exception");
            }
            CHECK_EQ(g_log, expected, "what reached a handler");
            if (replacing) {
                CHECK(replaced_handler.get() == before, "replacing a handler while it handles an error returns another one");
                current = incoming;
                kept.push_back(std::move(replaced_handler));
                c.label("handler replaced while handling");
            }
            if (nested) c.label("raised while handling");
            if (!before) c.label("no handler");
            ++raised;
            break;
        }
        case 2: {
            CHECK(machine_exception_handler() == current, "the current handler is another one");
            break;
        }
        default: kept.clear();
        }
        CHECK_EQ(g_handlers, int(kept.size()) + (current ? 1 : 0), "handlers alive");
    }
    auto last = set_machine_exception_handler(nullptr);
    CHECK(last.get() == current, "replacing a handler returns another one than the previous one");
    if (raised > 1 && replaced > 1) c.nontrivial();
}

// a handler that throws: nothing is done after it
PROP(thrown, 1) {
    const auto text = gen_text(c);
    NOTE(c, text);
    const auto t = thrown_by([&] { spn::throw_exception(spn::runtime_exception(text.c_str())); });
    CHECK(t && t->type == "Runtime exception" && t->what == text, "the handler was given " << (t ? t->type + " " + t->what : "nothing"));
    CHECK_EQ(g_thrown_count, 1, "calls of the handler");
    c.nontrivial();
}

PROP(assertions, 2) {
    const auto a = c.range(-3, 3), b = c.range(-3, 3);
    NOTE(c, a << " and " << b);
    int evaluated = 0;
    const auto t = thrown_by([&] { spn_assert((++evaluated, a < b)); });
    CHECK_EQ(bool(t), debug_build && !(a < b), "whether an assertion is reported");
    CHECK_EQ(evaluated, debug_build ? 1 : 0, "times that the condition is evaluated");
    if (t) {
        CHECK_EQ(t->type, std::string("Assertion exception"), "type");
        CHECK_EQ(t->what, std::string("(++evaluated, a < b)"), "condition");
    }
    CHECK_EQ(g_thrown_count, t ? 1 : 0, "reports");
    g_thrown_count = 0;
    // several in a row, the first one that fails counts
    const auto u = thrown_by([&] {
        spn_assert(a != 0);
        spn_assert(b != 0);
        if (a > 0) spn_assert(b > a) else spn_assert(b < a);
    });
    const std::string expected = a == 0 ? "a != 0" : b == 0 ? "b != 0" : a > 0 ? (b > a ? "" : "b > a") : (b < a ? "" : "b < a");
    CHECK_EQ(u ? u->what : "", debug_build ? expected : "", "the assertion that fails");
    g_thrown_count = 0;
    CHECK(!thrown_by([&] { spn_expect(a < b); }), "an expectation raises an error");
    CHECK_EQ(g_thrown_count, 0, "expectations that reach the handler");
    // and without a handler to stop it, execution goes on
    if (c.chance(1, 4)) {
        auto recorder = std::make_unique<Recorder>(7);
        g_log.clear();
        auto old = set_machine_exception_handler(std::move(recorder));
        struct Restore {
            std::unique_ptr<ExceptionHandler>& h;
            ~Restore() { set_machine_exception_handler(std::move(h)); }
        } restore{old};
        int after = 0;
        spn_assert(a < b);
        ++after;
        CHECK_EQ(g_log.size(), size_t(debug_build && !(a < b)), "reports of an assertion");
        if (!g_log.empty()) CHECK(g_log[0].type == "Assertion exception" && g_log[0].what == "a < b", "reported: " << g_log[0]);
    }
    if (!(a < b)) c.nontrivial();
}

// misuse is reported before harm is done, proper use never is
#ifdef DEBUG_SPINE
PROP(misuse, 4) {
    using namespace spn::structure;
    std::string what;
    bool wrong = false;
    std::function<void()> use;
    const auto cap = size_t(c.range(1, 6));
    const auto n = size_t(c.below(cap + 1));
    Vector<int> v(cap);
    for (size_t i = 0; i < n; ++i) v.push_back(int(i));
    // start somewhere in the store
    if (c.coin() && n > 0) (void)v.pop_front();
    const auto size = v.size();
    const auto& cv = v;
    switch (c.below(17)) {
    case 0: {
        const auto i = size_t(c.below(cap + 2));
        wrong = i >= size, what = "vector of " + std::to_string(size) + "[" + std::to_string(i) + "]";
        use = [&, i] { (void)(i % 2 ? v[i] : cv[i]); };
        break;
    }
    case 1: wrong = size == 0, what = "peek_front", use = [&] { (void)v.peek_front(); }; break;
    case 2: wrong = size == 0, what = "peek_back", use = [&] { (void)v.peek_back(); }; break;
    case 3: wrong = size == 0, what = "pop_front", use = [&] { (void)v.pop_front(); }; break;
    case 4: wrong = size == 0, what = "pop_back", use = [&] { (void)v.pop_back(); }; break;
    case 5: wrong = size == cap, what = "push_back", use = [&] { v.push_back(1); }; break;
    case 6: wrong = size == cap, what = "push_front", use = [&] { v.push_front(1); }; break;
    case 7: {
        const auto i = c.below(cap + 1);
        wrong = size == cap, what = "insert", use = [&, i] { v.insert(i, 1); };
        break;
    }
    case 8: {
        const auto i = size_t(c.below(cap + 3));
        wrong = size == 0 || i > size, what = "remove " + std::to_string(i) + " of " + std::to_string(size), use = [&, i] { (void)v.remove(i); };
        break;
    }
    case 9: {
        wrong = n == cap, what = "populate";
        use = [&, n, cap] {
            Pool<int> p(cap);
            for (size_t i = 0; i < n; ++i) p.populate(int(i));
            p.populate(7);
        };
        break;
    }
    case 10: {
        wrong = n < cap, what = "acquire with " + std::to_string(n) + " of " + std::to_string(cap);
        use = [&, n, cap] {
            Pool<int> p(cap);
            for (size_t i = 0; i < n; ++i) p.populate(int(i));
            (void)p.acquire();
        };
        break;
    }
    case 11: {
        const auto capacity = c.below(3);
        wrong = capacity == 0, what = "ring buffer of " + std::to_string(capacity), use = [capacity] { RingBuffer<int> r(capacity); };
        break;
    }
    case 12: {
        const auto state = c.below(3), asked = c.below(6);
        static const char* names[] = {"value", "error_value", "intermediary_value", "unwrap", "unwrap_error_value", "unwrap_intermediary_value"};
        wrong = asked % 3 != state && !(asked == 3 && state == 2 && false);
        what = std::string(names[asked]) + " of a result in state " + std::to_string(state);
        if (asked == 3 && state == 2) return; // may or may not: see C09
        using R = Result<int, std::string, double>;
        use = [state, asked] {
            auto r = state == 0 ? R(1) : state == 1 ? R::failed("x") : R::intermediary(1.5);
            switch (asked) {
            case 0: (void)r.value(); break;
            case 1: (void)r.error_value(); break;
            case 2: (void)r.intermediary_value(); break;
            case 3: (void)r.unwrap(); break;
            case 4: (void)r.unwrap_error_value(); break;
            default: (void)r.unwrap_intermediary_value();
            }
        };
        break;
    }
    case 13: {
        const auto now = c.range(0, 1000), at = now + c.range(-3, 3);
        set_now_ms(now);
        wrong = at <= now, what = "absolute alarm at " + std::to_string(at) + ", at " + std::to_string(now), use = [at] { spn::structure::time::AlarmTimer t(k_time_ms(at), true); };
        break;
    }
    case 14: {
        const auto in = c.range(-3, 3);
        wrong = in < 0, what = "reschedule in " /* 0: as before */ + std::to_string(in);
        use = [in] {
            spn::core::Future f(k_time_ms(1));
            f.reschedule(k_time_ms(in));
        };
        break;
    }
    case 15: {
        const auto given = c.below(5), asked = c.below(4);
        wrong = given != asked;
        what = "event data " + std::to_string(given) + " read as " + std::to_string(asked);
        use = [given, asked] {
            using Data = spn::core::Event::Data;
            const auto d = given == 0 ? Data(1.5f) : given == 1 ? Data(uint32_t(2)) : given == 2 ? Data(k_time_ms(3)) : given == 3 ? Data(k_time_s(4)) : Data();
            switch (asked) {
            case 0: CHECK(d.value() == 1.5f, "float event data is " << d.value()); break;
            case 1: CHECK_EQ(d.unsigned_value(), 2u, "unsigned event data"); break;
            case 2: CHECK_EQ(int64_t(d.ms().raw()), 3, "millisecond event data"); break;
            default: CHECK_EQ(int64_t(d.s().raw()), 4, "second event data");
            }
        };
        break;
    }
    default: {
        spn::eventsystem::Pipeline* p = nullptr;
        const auto futures = c.below(2), wait = c.below(2);
        wrong = !futures || !wait, what = std::string("expire of ") + (futures ? "a pipeline" : "an empty pipeline") + (wait ? " in time" : " too early");
        use = [futures, wait, p]() mutable {
            spn::eventsystem::Pipeline pipe(2);
            p = &pipe;
            if (futures) pipe.push(std::make_shared<spn::core::Future>(k_time_ms(10)));
            if (wait) advance_ms(10);
            (void)pipe.expire();
        };
    }
    }
    NOTE(c, what);
    const auto t = thrown_by(use);
    CHECK_EQ(bool(t), wrong, what << (wrong ? " is misuse" : " is proper use") << ", reported" << (t ? " as " + t->what : ""));
    CHECK_EQ(g_thrown_count, wrong ? 1 : 0, what << ": reports");
    if (t) CHECK_EQ(t->type, std::string("Assertion exception"), what << ": type");
    if (wrong) c.nontrivial();
    c.label(wrong ? "misuse" : "proper use");
}
#endif
