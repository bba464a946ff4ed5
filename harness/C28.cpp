// C28: filters compute their definition and stacks compose them in order
#include "pbt.hpp"

#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"

using namespace pbt;
using namespace spn::filter;

namespace {

template<typename T>
bool near(T got, long double expected, long double bound) {
    return std::fabs(static_cast<long double>(got) - expected) <= bound;
}
/// passes a sample in one of the ways there are, returns the value
template<typename T, typename F>
T feed(Ctx& c, F& f, T sample) {
    T got;
    switch (c.below(3)) {
    case 0: got = f.value(sample); break;
    case 1: got = f(sample); break;
    default:
        f.new_sample(sample);
        got = f.value();
    }
    CHECK(f.value() == got, "returned " << str(got) << ", then reads " << str(f.value()));
    CHECK(static_cast<const Filter<T>&>(f).value() == got, "reads differently the second time");
    return got;
}
template<typename T>
T gen(Ctx& c) {
    switch (c.below(4)) {
    case 0: return T(c.range(-8, 8));
    case 1: return T(c.range(-100000, 100000)) / 100;
    case 2: return T(c.range(-1000000, 1000000));
    default: return T(c.range(-1000, 1000)) / 8192;
    }
}

template<typename T>
void average(Ctx& c) {
    // the length of the frame need not be whole
    const int which = int(c.below(21) == 20 ? 5 : c.below(5));
    const T K = which == 5 ? T(c.pick<int>({127, 128, 200, 255, 256, 257, 300, 600})) : which == 0 ? T(10) : which == 1 ? T(100) : which == 2 ? T(1 + c.below(30)) : which == 3 ? T(2 + c.below(6)) : T(1) + T(c.below(400)) / 16;
    NOTE(c, "frame of " << K);
    std::unique_ptr<EWMA<T>> f = which == 0 ? EWMA<T>::Short() : which == 1 ? EWMA<T>::Long() : std::make_unique<EWMA<T>>(typename EWMA<T>::Config{.K = K});
    const long double EPS = std::numeric_limits<T>::epsilon();
    long double sum = 0, value = 0, most = 0, bound = 0;
    int n = 0, total = 0;
    CHECK(f->value() == 0, "value before the first sample is " << str(f->value()));
    if (which == 5) c.label("large frame"), total = -int(K) * 3 / 2, c.narrate = false;
    else if (c.chance(1, 6)) c.label("long"), total = -300;
    while (total < 0 ? true : c.more(40)) {
        ++total;
        if (c.chance(1, which == 5 ? 1500 : 40)) {
            const auto to = gen<T>(c);
            NOTE(c, "reset to " << str(to));
            f->reset_to(to);
            CHECK(f->value() == to, "reset to " << str(to) << ", reads " << str(f->value()));
            if (n) c.label("reset");
            n = 0, sum = 0, bound = 0;
            continue;
        }
        const auto v = gen<T>(c);
        NOTE(c, str(v));
        ++n;
        sum += v;
        most = std::max(most, std::fabs(static_cast<long double>(v)));
        const bool filling = n <= K;
        const auto before = value;
        if (n == 1) value = v;
        else if (filling) value = sum / n;
        else value = before + (v - before) / K;
        bound = n == 1 ? 0 : bound + 4 * EPS * (most + std::fabs(before));
        const auto got = feed<T>(c, *f, v);
        CHECK(near(got, value, bound), "sample " << n << ": average is " << str(got) << ", expected " << double(value));
        if (n > K) c.label("beyond its frame"), c.nontrivial();
        if (n > K && which == 5) c.label("large frame filled");
    }
}

/// a frame of which the samples do not fit in a small count
void long_average(Ctx& c) {
    const auto K = c.pick<int>({1000, 32767, 32768, 65535, 65536, 70000});
    uint32_t x = uint32_t(c.below(1u << 31));
    const auto beyond = c.draw(300);
    NOTE(c, "frame of " << K << ", values from " << x << ", " << beyond << " beyond");
    EWMA<double> f(EWMA<double>::Config{.K = double(K)});
    long double sum = 0, value = 0;
    const long double bound = 1000 * 8 * std::numeric_limits<double>::epsilon() * (K + beyond);
    for (int n = 1; n <= K + int(beyond); ++n) {
        x = x * 1664525 + 1013904223;
        const double v = double(x >> 16) / 65.536;
        sum += v;
        value = n <= K ? sum / n : value + (v - value) / K;
        const auto got = f.value(v);
        CHECK(near(got, value, bound), "sample " << n << ": average is " << str(got) << ", expected " << double(value));
    }
    c.label("frame of thousands");
    c.nontrivial();
}

template<typename T>
void invert(Ctx& c) {
    const bool normalized = c.chance(1, 3);
    const T lo = normalized ? T(0) : T(c.range(-1000, 1000)) / 8, hi = normalized ? T(1) : lo + T(c.below(2000)) / 8;
    NOTE(c, "[" << lo << ", " << hi << "]");
    auto f = normalized && c.coin() ? Invert<T>::NormalizedInverter() : c.coin() ? Invert<T>::NormalizedInverter(float(lo), float(hi)) : std::make_unique<Invert<T>>(typename Invert<T>::Config{.input_lower_limit = lo, .input_upper_limit = hi});
    const long double EPS = std::numeric_limits<T>::epsilon();
    while (c.more(12)) {
        const T v = c.chance(1, 4) ? lo : c.chance(1, 4) ? hi : std::clamp<T>(lo + (hi - lo) * T(c.below(1025)) / 1024, lo, hi);
        NOTE(c, str(v));
        const auto got = feed<T>(c, *f, v);
        const auto expected = static_cast<long double>(hi) + lo - v;
        CHECK(near(got, expected, 4 * EPS * (std::fabs((long double)hi) + std::fabs((long double)lo) + std::fabs((long double)v))), str(v) << " inverted is " << str(got) << ", expected " << double(expected));
        const auto back = f->value(std::clamp(got, lo, hi));
        CHECK(near(back, v, 8 * EPS * (std::fabs((long double)hi) + std::fabs((long double)lo) + std::fabs((long double)v))), str(v) << " inverted twice is " << str(back));
        if (v != lo && v != hi) c.nontrivial();
        if (c.chance(1, 8)) {
            f->reset_to(v);
            CHECK(f->value() == v, "reset to " << str(v) << ", reads " << str(f->value()));
        }
    }
    if (debug_build && c.chance(1, 20)) {
        const T out = c.coin() ? std::nextafter(lo, T(-1e9)) : std::nextafter(hi, T(1e9));
        CHECK(bool(thrown_by([&] { f->value(out); })), str(out) << " is outside of the range, and not reported");
        c.label("misuse");
    }
}

template<typename T>
void mapped(Ctx& c) {
    typename MappedRange<T>::Config cfg;
    const int which = int(c.below(4));
    GIVE(cfg.input_lower_limit, which == 0 ? T(0) : T(c.range(-1000, 1000)) / 8);
    GIVE(cfg.input_upper_limit, which == 0 ? T(1) : cfg.input_lower_limit + T(1 + c.below(2000)) / 8);
    if (which >= 2) {
        GIVE(cfg.output_lower_limit, T(c.range(-1000, 1000)) / 8);
        GIVE(cfg.output_upper_limit, T(c.range(-1000, 1000)) / 8); // may run the other way
        cfg.throw_for_value_out_of_range = c.coin();
    } else if (which == 1)
        cfg.output_lower_limit = 0, cfg.output_upper_limit = c.coin() ? T(100) : T(1000);
    NOTE(c, "[" << cfg.input_lower_limit << ", " << cfg.input_upper_limit << "] to [" << cfg.output_lower_limit << ", " << cfg.output_upper_limit << "]" << (cfg.throw_for_value_out_of_range ? ", reported" : ""));
    auto f = which == 0 && c.coin() ? MappedRange<T>::Percentage() : which == 1 && cfg.output_upper_limit == 100 ? MappedRange<T>::Percentage(float(cfg.input_lower_limit), float(cfg.input_upper_limit)) : which == 1 ? MappedRange<T>::Permillage(float(cfg.input_lower_limit), float(cfg.input_upper_limit)) : std::make_unique<MappedRange<T>>(typename MappedRange<T>::Config(cfg));
    const long double EPS = std::numeric_limits<T>::epsilon();
    const long double il = cfg.input_lower_limit, iu = cfg.input_upper_limit, ol = cfg.output_lower_limit, ou = cfg.output_upper_limit;
    while (c.more(12)) {
        const T v = c.chance(1, 5) ? T(il) : c.chance(1, 5) ? T(iu) : c.chance(1, 5) ? std::nextafter(c.coin() ? T(il) : T(iu), c.coin() ? T(-1e9) : T(1e9)) : c.chance(1, 4) ? gen<T>(c) : T(il + (iu - il) * c.below(1025) / 1024);
        NOTE(c, str(v));
        const bool outside = v < il || v > iu;
        if (outside && cfg.throw_for_value_out_of_range) {
            const auto before = f->value();
            CHECK(bool(thrown_by([&] { f->value(v); })), str(v) << " is out of range, and not reported");
            CHECK_EQ(g_thrown_count, 1, "reports of one value");
            g_thrown_count = 0;
            CHECK(f->value() == before, "a value out of range that is reported changes the output");
            c.label("reported");
            continue;
        }
        const auto got = feed<T>(c, *f, v);
        const auto in = std::clamp<long double>(v, il, iu);
        const auto expected = ol + (in - il) / (iu - il) * (ou - ol);
        const auto bound = 4 * EPS * (std::fabs(ol) + std::fabs(ou) + std::fabs(ou - ol) * ((std::fabs(in) + std::fabs(il)) / (iu - il) + 2));
        CHECK(near(got, expected, bound), str(v) << " maps to " << str(got) << ", expected " << double(expected));
        if (outside) c.label("clamped");
        else if (v != il && v != iu) c.nontrivial();
        if (c.chance(1, 8)) {
            f->reset_to(v);
            CHECK(f->value() == v, "reset to " << str(v) << ", reads " << str(f->value()));
        }
    }
}

template<typename T>
void passthrough(Ctx& c) {
    Passthrough<T> f(typename Passthrough<T>::Config{});
    CHECK(f.value() == 0, "value before the first sample");
    while (c.more(8)) {
        const T v = c.chance(1, 8) ? c.pick<T>({std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::infinity(), T(-0.0), std::numeric_limits<T>::denorm_min()}) : gen<T>(c);
        NOTE(c, str(v));
        const auto got = feed<T>(c, f, v);
        CHECK(got == v, str(v) << " passes as " << str(got));
        c.nontrivial();
        if (c.chance(1, 6)) {
            const auto to = gen<T>(c);
            f.reset_to(to);
            CHECK(f.value() == to, "reset to " << str(to) << ", reads " << str(f.value()));
        }
    }
}

// ---- stacks

int g_alive = 0;
/// an exact filter with a memory: whole numbers modulo a prime, that do not commute
struct Mix : Filter<double> {
    int id;
    int64_t factor;
    double last = 0;
    int samples = 0, resets = 0;
    Mix(int id, int64_t factor) : id(id), factor(factor) { ++g_alive; }
    ~Mix() override { --g_alive; }
    static constexpr int64_t P = 1000003;
    double value(double v) override {
        ++samples;
        return last = double((factor * int64_t(v) + id + int64_t(last)) % P);
    }
    double value() const override { return last; }
    void new_sample(double v) override { value(v); }
    void reset_to(double v) override { ++resets, last = v; }
};
struct MixModel {
    int id;
    int64_t factor;
    Mix* real;
    double last = 0;
    int samples = 0, resets = 0;
};

} // namespace

PROP(ewma_float, 20) { average<float>(c); }
PROP(ewma_double, 20) { average<double>(c); }
PROP(ewma_long, 1) { long_average(c); }
PROP(invert_float, 20) { invert<float>(c); }
PROP(invert_double, 20) { invert<double>(c); }
PROP(mapped_float, 20) { mapped<float>(c); }
PROP(mapped_double, 20) { mapped<double>(c); }
PROP(pass_float, 20) { passthrough<float>(c); }
PROP(pass_double, 20) { passthrough<double>(c); }

PROP(stack, 80) {
    const auto slots = c.coin() ? c.below(4) : c.chance(1, 8) ? (c.coin() ? 255 - c.below(3) : c.below(256)) : c.below(12);
    NOTE(c, slots << " slots");
    g_alive = 0;
    {
        Stack<double> stack{uint8_t(slots)};
        std::vector<MixModel> m;
        std::vector<std::unique_ptr<Filter<double>>> detached;
        int next = 1, samples = 0;
        CHECK_EQ(stack.filter_slots(), slots, "slots");
        CHECK_EQ(stack.filter_slots_occupied(), 0u, "slots occupied at the start");
        const auto fill = c.coin();
        const auto attach = [&](int64_t factor) {
            auto f = std::make_unique<Mix>(next, factor);
            auto* raw = f.get();
            NOTE(c, "attach " << next << "*" << factor);
            stack.attach_filter(std::move(f));
            if (m.size() < slots) m.push_back(MixModel{next, factor, raw});
            else c.label("attached to a full stack");
            ++next;
        };
        if (slots > 12 && c.coin()) { // as many as there are slots, give or take a few
            const auto n = slots + 2 - c.below(5);
            for (uint64_t i = 0; i < n; ++i) attach(int64_t(1 + (i * 37) % 1000));
            c.label("filled at once");
        }
        const auto weights = c.swarm(5);
        while (c.more(fill ? 60 : 30)) {
            switch (c.weighted({weights[0] * 2 + 2, weights[1], weights[2] * 4 + 2, weights[3], weights[4]})) {
            case 0: attach(int64_t(1 + c.below(1000))); break;
            case 1: {
                const auto i = m.empty() || c.chance(1, 8) ? m.size() + c.below(3) : c.below(m.size());
                if (i > 255) break;
                NOTE(c, "detach " << i);
                auto f = stack.detach_filter(uint8_t(i));
                if (i >= m.size()) {
                    CHECK(f == nullptr, "detached filter " << i << " of " << m.size());
                    c.label("detached nothing");
                } else {
                    CHECK(f.get() == m[i].real, "detached another filter than filter " << i);
                    CHECK(f->value() == m[i].last, "a detached filter reads " << f->value() << ", expected " << m[i].last);
                    m.erase(m.begin() + long(i));
                    detached.push_back(std::move(f));
                    c.label("detached");
                }
                break;
            }
            case 2: {
                const auto sample = double(c.below(100000));
                NOTE(c, "sample " << sample);
                double expected = sample;
                for (auto& f : m) {
                    expected = f.last = double((f.factor * int64_t(expected) + f.id + int64_t(f.last)) % Mix::P);
                    ++f.samples;
                }
                if (c.coin()) {
                    const auto got = stack.value(sample);
                    CHECK(got == expected, "sample " << sample << " through " << m.size() << " filters yields " << got << ", expected " << expected);
                } else
                    stack.new_sample(sample);
                ++samples;
                if (m.size() > 1) c.nontrivial();
                break;
            }
            case 3: {
                const auto to = double(c.below(1000));
                NOTE(c, "reset to " << to);
                stack.reset_to(to);
                for (auto& f : m) f.last = to, ++f.resets;
                if (m.size() > 1) c.label("reset all");
                break;
            }
            default:
                NOTE(c, "drop what was detached");
                detached.clear();
            }
            CHECK_EQ(stack.filter_slots_occupied(), m.size(), "slots occupied");
            CHECK_EQ(stack.filter_slots(), slots, "slots");
            CHECK_EQ(g_alive, int(m.size() + detached.size()), "filters alive");
            const auto reads = stack.value();
            const auto expected = m.empty() ? 0.0 : m.back().last;
            CHECK(reads == expected, "stack reads " << reads << ", expected " << expected);
            for (auto& f : m) {
                CHECK(f.real->last == f.last, "filter " << f.id << " reads " << f.real->last << ", expected " << f.last);
                CHECK_EQ(f.real->samples, f.samples, "samples seen by filter " << f.id);
                CHECK_EQ(f.real->resets, f.resets, "resets of filter " << f.id);
            }
        }
        if (m.size() == slots && slots > 1) c.label("full");
        if (m.size() > 8) c.label("more than eight");
    }
    CHECK_EQ(g_alive, 0, "filters alive after their stack");
}

// the real filters, in a stack and one by one
PROP(stack_of_filters, 40) {
    const auto n = 1 + c.below(5);
    Stack<float> stack{uint8_t(n)};
    std::vector<std::unique_ptr<Filter<float>>> single;
    std::string what;
    const auto make = [](uint64_t kind) -> std::unique_ptr<Filter<float>> {
        switch (kind) {
        case 0: return EWMA<float>::Short();
        case 1: return std::make_unique<EWMA<float>>(EWMA<float>::Config{.K = 3});
        case 2: return std::make_unique<Invert<float>>(Invert<float>::Config{.input_lower_limit = 0, .input_upper_limit = 100});
        case 3: return MappedRange<float>::Percentage(0, 100);
        case 4: return std::make_unique<MappedRange<float>>(MappedRange<float>::Config{.input_lower_limit = 20, .input_upper_limit = 80, .output_lower_limit = 100, .output_upper_limit = 0});
        default: return std::make_unique<Passthrough<float>>(Passthrough<float>::Config{});
        }
    };
    for (uint64_t i = 0; i < n; ++i) {
        const auto kind = c.below(6);
        what += std::to_string(kind) + " ";
        stack.attach_filter(make(kind));
        single.push_back(make(kind));
    }
    NOTE(c, what);
    while (c.more(20)) {
        if (c.chance(1, 10)) {
            const float to = float(c.below(101));
            NOTE(c, "reset to " << to);
            stack.reset_to(to);
            for (auto& f : single) f->reset_to(to);
        } else {
            const float v = float(c.below(10001)) / 100;
            NOTE(c, v);
            float expected = v;
            for (auto& f : single) expected = std::clamp(f->value(expected), 0.0f, 100.0f);
            const auto got = std::clamp(stack.value(v), 0.0f, 100.0f);
            CHECK(std::fabs(got - expected) <= 0.01f, v << " yields " << got << ", one by one " << expected);
            if (n > 1) c.nontrivial();
        }
    }
}

// two of them at once have nothing in common
PROP(two_averages, 10) { twins(c, [&] { average<float>(c); }); }
