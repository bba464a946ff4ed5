// C25: autotuning measures the oscillation it causes and returns its relay gains
#include "pbt.hpp"

#include "spine/controller/pid.hpp"

using namespace pbt;
using spn::controller::PID;
using Aggressiveness = spn::controller::PIDAutotuner::Aggressiveness;

namespace {

/// Observes a tuning from the outside and knows what it has to do next
struct Relay {
    double target, hysteresis, lower, upper;
    int64_t interval;
    int cycles;
    Aggressiveness how;

    bool high = true;
    int64_t switched_high = 0, switched_low = 0, t_high = 0;
    double max = -1e12, min = 1e12;
    int cycle = 0;
    double kp = 0, ki = 0, kd = 0; // of the last cycle
    double p = 0, i = 0, d = 0; // summed over the cycles after the first two
    bool done() const { return cycle >= cycles; }

    void start(int64_t t) { switched_high = switched_low = t; }
    /// the output that belongs to a reading
    double reading(double v, int64_t t) {
        max = std::max(max, v), min = std::min(min, v);
        if (high && v > target + hysteresis) {
            high = false;
            switched_low = t;
            t_high = switched_low - switched_high;
            max = target;
        } else if (!high && v < target - hysteresis) {
            high = true;
            switched_high = t;
            const double period = double(switched_high - switched_low + t_high);
            const double ultimate = 4 * ((upper - lower) / 2) / (M_PI * ((max - min) / 2));
            const double factors[3][3] = {{0.6, 0.5, 0.125}, {0.33, 0.5, 0.33}, {0.2, 0.5, 0.33}};
            const auto& f = factors[how == Aggressiveness::BasicPID ? 0 : how == Aggressiveness::LessOvershoot ? 1 : 2];
            kp = f[0] * ultimate;
            ki = kp / (f[1] * period) * double(interval);
            kd = f[2] * kp * period / double(interval);
            if (cycle >= 2) p += kp, i += ki, d += kd;
            min = target;
            ++cycle;
        }
        return high && !done() ? upper : lower;
    }
};

/// something to heat, or readings that make no sense. All readings are multiples of 1/64, so that sums are exact
struct Process {
    Ctx& c;
    int kind;
    double value, ambient, gain;
    std::deque<double> delay;
    double target, hysteresis;
    int64_t asked = 0;

    double read(bool high) {
        ++asked;
        const auto grid = [](double v) { return std::round(v * 64) / 64; };
        if (asked > 3000) return value = grid(value + (high ? 1 : -1) * (hysteresis + 1)); // it ends some time
        switch (kind) {
        case 0: // first order, with a dead time
            delay.push_back(high ? 1 : 0);
            value += gain * delay.front() - (value - ambient) * 0.02;
            if (delay.size() > 1 + size_t(gain * 2) % 5) delay.pop_front();
            return grid(value);
        case 1: // a noisy integrator
            value += (high ? 1 : -1) * gain + double(c.range(-32, 32)) / 64;
            return grid(value);
        case 2: // anything about the target, often exactly on an edge
            switch (c.below(6)) {
            case 0: return value = target;
            case 1: return value = target + hysteresis;
            case 2: return value = target - hysteresis;
            case 3: return value = target + hysteresis + 1.0 / 64;
            case 4: return value = target - hysteresis - 1.0 / 64;
            default: return value = grid(target + double(c.range(-640, 640)) / 64);
            }
        default: // straight up and down
            return value = grid(value + (high ? gain : -gain));
        }
    }
};

} // namespace

PROP(tune, 1) {
    PID::Config cfg;
    GIVE(cfg.sample_interval, k_time_ms(c.coin() ? c.pick<int64_t>({100, 1, 2, 10, 250, 1000}) : c.range(1, 300)));
    const auto interval = int64_t(cfg.sample_interval.raw());
    GIVE(cfg.output_lower_limit, c.coin() ? 0 : float(c.range(-1020, 1020)) / 4);
    GIVE(cfg.output_upper_limit, cfg.output_lower_limit + (c.coin() ? 255 : float(c.range(1, 400)) / 4));

    const auto setpoint = float(c.range(-640, 640)) / 8;
    PID::TuneConfig tc{.setpoint = setpoint};
    CHECK(tc.setpoint == setpoint, "the setpoint is not kept");
    const bool far = c.chance(1, 8); // from zero
    if (far) tc.setpoint *= 64;
    GIVE(tc.hysteresis, c.chance(1, 4) ? 0 : float(c.range(1, 64)) / 64);
    if (c.chance(1, 10)) tc.hysteresis *= 16;
    if (c.chance(1, 8)) tc.hysteresis = -tc.hysteresis; // its size counts
    if (const auto usual = c.chance(1, 4); usual) CHECK_EQ(tc.cycles, 10, "cycles by default");
    else GIVE(tc.cycles, c.chance(1, 60) ? c.pick<int>({127, 128, 255, 256, 257, 300}) : c.coin() ? int(c.range(1, 12)) : 10);
    tc.aggressiveness = c.pick<Aggressiveness>({Aggressiveness::LessOvershoot, Aggressiveness::BasicPID, Aggressiveness::NoOvershoot});
    const bool preheat = c.chance(1, 5);
    if (preheat) GIVE(tc.startpoint, float(c.range(1, 200)) / 4);

    Relay relay{tc.setpoint, std::fabs(tc.hysteresis), cfg.output_lower_limit, cfg.output_upper_limit, interval, tc.cycles, tc.aggressiveness};
    Process process{c, int(c.below(4)), 0, 0, 0, {}, relay.target, relay.hysteresis};
    process.ambient = relay.target - 10 - double(c.below(20));
    process.value = relay.target + double(c.range(-20, 3));
    process.gain = process.kind == 0 ? (relay.target - process.ambient + 5 + double(c.below(20))) * 0.04 : double(c.range(1, 512)) / 64;
    const bool own_clock = c.coin(), slow_loop = c.chance(1, 3), with_loop = slow_loop || c.coin();
    const int64_t start = c.coin() ? 0 : c.range(0, 1ll << 40);
    NOTE(c, "target " << tc.setpoint << "+-" << tc.hysteresis << ", " << tc.cycles << " cycles every " << interval << " ms in [" << cfg.output_lower_limit << ", " << cfg.output_upper_limit << "], process " << process.kind << ", aggressiveness " << int(tc.aggressiveness) << (preheat ? ", preheated to " + str(tc.startpoint) : "") << (slow_loop ? ", slow loop" : ""));

    int64_t clock = start; // own clock
    if (!own_clock) set_now_ms(start);
    const auto now = [&]() -> int64_t { return own_clock ? clock : now_ms(); };
    const auto pass = [&](int64_t ms) { own_clock ? void(clock += ms) : advance_ms(ms); };

    // what is seen from outside
    bool relaying = !preheat, ended = false, high = true, expect_output = false;
    double expected_output = 0, last_output = 0;
    int64_t last_reading = 0, readings = 0, outputs = 0;
    double last_seen = 0;
    int64_t warmed_at = 0;
    bool started = false;
    int64_t extra = 0, loops = 0; // time that the loop took, and calls of it, since the last reading
    const auto getter = [&]() -> float {
        CHECK(process.asked < 100000, "the tuning does not end");
        const double v = process.read(high);
        last_seen = v;
        if (!relaying) return float(v); // preheating
        CHECK(!ended, "the tuning goes on after its last cycle");
        CHECK(!expect_output, "a second reading without an output for the first");
        const auto t = now();
        if (!started) {
            relay.start(t); // nothing has passed
            started = true;
        } else {
            CHECK(t - last_reading >= interval, "reading " << readings << " is taken " << t - last_reading << " ms after the last one");
            CHECK(t - last_reading <= interval + extra, "reading " << readings << " is taken " << t - last_reading << " ms after the last one, of which " << extra << " in the loop");
        }
        if (readings && with_loop) CHECK(loops > 0, "the loop function is not called while waiting for reading " << readings);
        last_reading = t, extra = 0, loops = 0;
        ++readings;
        expected_output = relay.reading(v, t);
        expect_output = true;
        return float(v);
    };
    const auto setter = [&](float v) {
        ++outputs;
        if (!relaying) { // drives to the starting point, and is turned down then
            if (outputs > 1) {
                CHECK(now() > warmed_at, "no time passes between two outputs while warming up");
                if (with_loop) CHECK(loops > 0, "the loop function is not called while warming up");
            }
            warmed_at = now(), loops = 0;
            if (last_seen < tc.startpoint) {
                const bool too_long = now() - start >= 30 * 60 * 1000;
                CHECK(v == (too_long ? cfg.output_lower_limit : cfg.output_upper_limit), "output " << v << " while warming up for " << now() - start << " ms");
                if (too_long) {
                    relaying = true;
                    c.label("warm-up given up");
                }
            } else {
                CHECK(v == cfg.output_lower_limit, "output " << v << " having warmed up");
                relaying = true;
            }
            high = v == cfg.output_upper_limit;
            return;
        }
        if (!expect_output) {
            CHECK(relay.done() && !ended, "output " << v << " without a reading");
            CHECK(v == 0, "the process is left at " << v);
            ended = true;
        } else {
            CHECK(v == float(expected_output), "output " << v << " for reading " << readings << ", " << last_seen << ", expected " << expected_output << " in cycle " << relay.cycle);
            expect_output = false;
        }
        last_output = v;
        high = relay.high && !relay.done();
    };
    const auto loop = [&] {
        ++loops;
        if (slow_loop && c.chance(1, 16)) {
            const auto took = c.range(0, 3 * interval);
            pass(took);
            extra += took;
        }
    };
    PID pid(cfg);
    PID::Tunings got{};
    const std::function<void(void)> maybe_loop = with_loop ? std::function<void(void)>(loop) : std::function<void(void)>();
    if (own_clock)
        got = pid.autotune(tc, setter, getter, maybe_loop, [&] { return k_time_ms(clock); }, [&](k_time_ms t) { clock += t.raw(); });
    else
        got = pid.autotune(tc, setter, getter, maybe_loop);
    CHECK(ended, "the process is left at " << last_output);
    CHECK(relay.done(), "the tuning ended in cycle " << relay.cycle << " of " << tc.cycles);

    const int averaged = relay.cycle - 2;
    const double kp = averaged > 0 ? relay.p / averaged : relay.kp, ki = averaged > 0 ? relay.i / averaged : relay.ki, kd = averaged > 0 ? relay.d / averaged : relay.kd;
    const auto near = [&](double got, double expected) { return std::fabs(got - expected) <= (1e-5 + 1.2e-7 * tc.cycles) * std::fabs(expected); };
    CHECK(near(got.Kp, kp), "Kp is " << got.Kp << ", expected " << kp);
    CHECK(near(got.Ki, ki), "Ki is " << got.Ki << ", expected " << ki);
    CHECK(near(got.Kd, kd), "Kd is " << got.Kd << ", expected " << kd);
    if (averaged > 0) c.nontrivial();
    if (averaged <= 0) c.label("one or two cycles");
    if (preheat) c.label("preheated");
    if (slow_loop) c.label("slow loop");
    if (tc.cycles > 100) c.label("100+ cycles");
    if (far) c.label("far from zero");
    if (own_clock) c.label("own clock");
}
