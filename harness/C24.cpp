// C24: PID output obeys its limits, cadence and control law
#include "pbt.hpp"

#include "spine/controller/pid.hpp"

using namespace pbt;
using spn::controller::PID;

namespace {

using Proportionality = PID::Proportionality;
using Direction = PID::Direction;

/// The control law, in double precision next to a bound on what single precision may make of it
struct Model {
    double kp, ki, kd; // per second
    double dt;
    double lower, upper;
    bool on_error, reverse;

    double integral = 0, output = 0, last = 0, error_bound = 0, output_bound = 0;

    void initialize(double input) {
        output = std::clamp(output, lower, upper);
        integral = output, error_bound = output_bound;
        last = input;
    }
    void update(double setpoint, double input) {
        constexpr double EPS = std::numeric_limits<float>::epsilon();
        const double sign = reverse ? -1 : 1;
        const double e = setpoint - input, d = input - last;
        const double eps_e = EPS * std::fabs(e), eps_d = EPS * std::fabs(d);
        const double p = sign * kp, i = sign * ki * dt, dd = sign * kd / dt;
        // what an operation on that magnitude may be off
        const auto off = [&](double gain, double v, double eps_v) { return std::fabs(gain) * eps_v + 4 * EPS * std::fabs(gain * v); };
        integral += i * e;
        error_bound += off(i, e, eps_e) + EPS * (std::fabs(integral) + std::fabs(i * e));
        if (!on_error) {
            integral -= p * d;
            error_bound += off(p, d, eps_d) + EPS * (std::fabs(integral) + std::fabs(p * d));
        }
        integral = std::clamp(integral, lower, upper);
        const auto proportional = on_error ? p * e : 0.0;
        const auto sum = proportional + integral - dd * d;
        output_bound = error_bound + (on_error ? off(p, e, eps_e) : 0) + off(dd, d, eps_d) + 3 * EPS * (std::fabs(proportional) + std::fabs(integral) + std::fabs(dd * d) + std::fabs(sum));
        output = std::clamp(sum, lower, upper);
        last = input;
    }
};

float gen_gain(Ctx& c) {
    switch (c.below(5)) {
    case 0: return 0;
    case 1: return float(c.range(1, 10));
    case 2: return float(c.range(1, 1000)) / 1000;
    case 3: return float(c.range(1, 1000)) / 10;
    default: return float(c.pick<double>({0.1, 0.3, 20, 1, 0.001, 5}));
    }
}
float gen_reading(Ctx& c, float around) {
    switch (c.below(5)) {
    case 0: return around;
    case 1: return around + float(c.range(-100, 100)) / 100;
    case 2: return float(c.range(-1000, 1000));
    case 3: return float(c.range(-100000, 100000)) / 777;
    default: return around + float(c.range(-10, 10));
    }
}
/// tunings, at times with gains left out that are zero then
PID::Tunings gen_tunings(Ctx& c) {
    const auto is = [](const PID::Tunings& t, float kp, float ki, float kd = 0) { CHECK(t.Kp == kp && t.Ki == ki && t.Kd == kd, "tunings do not hold the gains given, or zero for one that is left out"); };
    if (c.chance(7, 8)) {
        const auto p = gen_gain(c), i = gen_gain(c), d = gen_gain(c);
        const PID::Tunings t{.Kp = p, .Ki = i, .Kd = d};
        is(t, p, i, d);
        return t;
    }
    const auto p = gen_gain(c), i = gen_gain(c);
    if (c.coin()) {
        const PID::Tunings t{.Kp = p};
        is(t, p, 0);
        return t;
    }
    const PID::Tunings t{.Kp = p, .Ki = i};
    is(t, p, i);
    return t;
}
PID::Config gen_config(Ctx& c) {
    PID::Config cfg;
    if (c.chance(7, 8)) cfg.tunings = gen_tunings(c);
    switch (c.below(4)) {
    case 0: break;
    case 1: GIVE(cfg.output_lower_limit, 0.0f); GIVE(cfg.output_upper_limit, 1.0f); break;
    case 2: GIVE(cfg.output_lower_limit, -float(c.range(1, 1000)) / (c.coin() ? 1 : 8)); GIVE(cfg.output_upper_limit, float(c.range(0, 1000))); break;
    default: GIVE(cfg.output_lower_limit, float(c.range(1, 100))); GIVE(cfg.output_upper_limit, cfg.output_lower_limit + float(c.range(1, 1000)) / 8);
    }
    GIVE(cfg.sample_interval, k_time_ms(c.coin() ? c.pick<int64_t>({100, 1, 10, 99, 101, 150, 250, 1000, 1500, 60000}) : c.range(1, 5000)));
    GIVE(cfg.proportionality, c.coin() ? Proportionality::ON_ERROR : Proportionality::ON_MEASUREMENT);
    GIVE(cfg.direction, c.coin() ? Direction::FORWARD : Direction::REVERSE);
    return cfg;
}
std::string text(const PID::Config& cfg) {
    std::ostringstream os;
    os << (cfg.direction == Direction::REVERSE ? "reverse" : "forward") << ", on " << (cfg.proportionality == Proportionality::ON_ERROR ? "error" : "measurement") << ", " << cfg.tunings.Kp << "/" << cfg.tunings.Ki << "/" << cfg.tunings.Kd << " every " << cfg.sample_interval.raw() << " ms in [" << cfg.output_lower_limit << ", " << cfg.output_upper_limit << "]";
    return os.str();
}

} // namespace

PROP(control_law, 30) {
    const auto cfg = gen_config(c);
    NOTE(c, text(cfg));
    const auto start = c.chance(1, 3) ? 0 : c.nasty(0, 1ll << 45);
    set_now_ms(start);
    PID pid(cfg);
    const int64_t interval = cfg.sample_interval.raw();
    Model m{cfg.tunings.Kp, cfg.tunings.Ki, cfg.tunings.Kd, double(interval) / 1000, cfg.output_lower_limit, cfg.output_upper_limit, cfg.proportionality == Proportionality::ON_ERROR, cfg.direction == Direction::REVERSE};
    float setpoint = 0, input = 0, last_response = 0;
    auto tunings = cfg.tunings;
    CHECK(pid.tunings() == tunings, "tunings read back as " << pid.tunings().Kp << "/" << pid.tunings().Ki << "/" << pid.tunings().Kd);
    pid.initialize();
    m.initialize(input);
    CHECK(pid.tunings() == tunings, "tunings read back as " << pid.tunings().Kp << "/" << pid.tunings().Ki << "/" << pid.tunings().Kd << " once initialised");
    CHECK(pid.response() == float(m.output), "response at the start is " << str(pid.response()) << ", expected " << m.output);
    last_response = pid.response();

    int64_t now = start, last_update = 0;
    bool first = true;
    int updates = 0;
    bool early = false, clamped = false, free_ = false;
    const bool own_clock = c.chance(1, 3);
    const auto weights = c.swarm(5);
    while (c.more()) {
        switch (c.weighted({weights[0] * 12 + 4, weights[1] * 2, weights[2], weights[3] ? 1u : 0u, weights[4] ? 1u : 0u})) {
        case 0: { // a reading
            if (first) now += interval + int64_t(c.below(3)) * interval;
            else switch (c.below(6)) {
                case 0: now += interval; break;
                case 1: now = std::max(now, last_update + interval - 1); break;
                case 2: now = std::max(now, last_update + interval); break;
                case 3: now += int64_t(c.below(3 * uint64_t(interval))); break;
                case 4: now += int64_t(c.below(4)); break;
                default: now += interval * c.range(1, 1000);
                }
            input = gen_reading(c, c.coin() ? setpoint : input);
            NOTE(c, "at " << now - start << " reading " << str(input));
            if (own_clock) {
                pid.new_reading(input, k_time_ms(now));
            } else {
                set_now_ms(now);
                pid.new_reading(input);
            }
            const auto got = pid.response();
            if (first || now - last_update >= interval) {
                m.update(setpoint, input);
                last_update = now;
                first = false;
                ++updates;
                CHECK(std::fabs(double(got) - m.output) <= m.output_bound + 1e-30, "update " << updates << ": response " << str(got) << ", expected " << m.output << " (within " << m.output_bound << ")");
                const bool at_limit = m.output == m.lower || m.output == m.upper;
                clamped |= at_limit;
                free_ |= !at_limit;
                // do not let the bound grow without end
                m.output = got;
            } else {
                CHECK(got == last_response, "response changed from " << str(last_response) << " to " << str(got) << ", " << now - last_update << " ms after the last update");
                early = true;
            }
            CHECK(got >= cfg.output_lower_limit && got <= cfg.output_upper_limit, "response " << str(got) << " is outside of the limits");
            last_response = got;
            break;
        }
        case 1:
            setpoint = gen_reading(c, input);
            NOTE(c, "setpoint " << str(setpoint));
            pid.set_target_setpoint(setpoint);
            break;
        case 2: {
            tunings = gen_tunings(c);
            const auto how = c.below(3);
            m.on_error = how != 2;
            NOTE(c, "tunings " << tunings.Kp << "/" << tunings.Ki << "/" << tunings.Kd << (how == 2 ? " on measurement" : ""));
            if (how == 0) pid.set_tunings(tunings);
            else pid.set_tunings(tunings, how == 1 ? Proportionality::ON_ERROR : Proportionality::ON_MEASUREMENT);
            m.kp = tunings.Kp, m.ki = tunings.Ki, m.kd = tunings.Kd;
            c.label("tuned anew");
            break;
        }
        case 3: // take over from the present output
            NOTE(c, "initialise");
            pid.initialize();
            m.output = last_response, m.output_bound = 0;
            m.initialize(input);
            c.label("initialised again");
            break;
        default: // nothing but time
            now += int64_t(c.below(2 * uint64_t(interval)));
            set_now_ms(now);
        }
        CHECK(pid.response() == last_response, "response changed without a reading from " << str(last_response) << " to " << str(pid.response()));
        CHECK(pid.tunings() == tunings, "tunings read back as " << pid.tunings().Kp << "/" << pid.tunings().Ki << "/" << pid.tunings().Kd);
        CHECK(pid.setpoint() == setpoint, "setpoint reads back as " << str(pid.setpoint()) << ", expected " << str(setpoint));
        CHECK(pid.error() == std::fabs(setpoint - input), "error is " << str(pid.error()));
    }
    if (updates >= 2) c.nontrivial();
    if (early) c.label("reading within the interval");
    if (clamped) c.label("at a limit");
    if (free_) c.label("between the limits");
    if (cfg.direction == Direction::REVERSE) c.label("reverse");
    if (!(cfg.proportionality == Proportionality::ON_ERROR)) c.label("on measurement");
}

// the controller itself, with limits, interval and direction that change while it runs
PROP(controller, 20) {
    using Controller = spn::controller::PIDController;
    float input = 0, output = 0, setpoint = 0;
    auto direction = c.coin() ? Direction::FORWARD : Direction::REVERSE;
    auto proportionality = c.coin() ? Proportionality::ON_ERROR : Proportionality::ON_MEASUREMENT;
    double g[3] = {gen_gain(c), gen_gain(c), gen_gain(c)};
    const auto start = c.chance(1, 3) ? 0 : c.nasty(0, 1ll << 45);
    set_now_ms(start);
    const bool plain = c.chance(1, 4);
    if (plain) proportionality = Proportionality::ON_ERROR;
    auto pid = plain ? Controller(&input, &output, &setpoint, float(g[0]), float(g[1]), float(g[2]), direction)
                     : Controller(&input, &output, &setpoint, float(g[0]), float(g[1]), float(g[2]), proportionality, direction);
    NOTE(c, g[0] << "/" << g[1] << "/" << g[2] << (direction == Direction::REVERSE ? " reverse" : "") << (proportionality == Proportionality::ON_ERROR ? " on error" : ""));
    constexpr double EPS = std::numeric_limits<float>::epsilon();
    int64_t interval = 100, now = start, last_update = 0;
    double lower = 0, upper = 255, integral = 0, last = 0, slack = 0;
    int rescaled = 0, updates = 0, changes = 0;
    bool first = true;
    while (c.more()) {
        switch (c.weighted({12, 2, 2, 2, 2, 1, 1, 1})) {
        case 0: {
            switch (c.below(4)) {
            case 0: now += interval; break;
            case 1: now = std::max(now, (first ? start : last_update) + interval - int64_t(c.below(2))); break;
            case 2: now += int64_t(c.below(2 * uint64_t(interval))); break;
            default: now += interval * c.range(1, 100);
            }
            input = gen_reading(c, c.coin() ? setpoint : input);
            NOTE(c, "at " << now - start << " reading " << str(input));
            const auto before = output;
            const bool updated = pid.update(k_time_ms(now));
            if (first) {
                if (now - start >= interval) CHECK_EQ(updated, true, "an update " << now - start << " ms after the start with an interval of " << interval);
            } else
                CHECK_EQ(updated, now - last_update >= interval, "whether the output is updated " << now - last_update << " ms after the last update with an interval of " << interval);
            if (!updated) {
                CHECK(output == before, "output changed from " << str(before) << " to " << str(output) << " without an update");
                break;
            }
            first = false;
            last_update = now;
            ++updates;
            const double sign = direction == Direction::REVERSE ? -1 : 1, dt = double(interval) / 1000;
            const double e = double(setpoint) - input, d = double(input) - last;
            const double p = sign * g[0], i = sign * g[1] * dt, dd = sign * g[2] / dt;
            // what single precision, and gains that were rescaled, may be off
            const auto off = [&](double gain, double v) { return (5 + 4 * rescaled) * EPS * std::fabs(gain * v) + 2 * EPS * std::fabs(gain) * (std::fabs(setpoint) + std::fabs(input) + std::fabs(last)); };
            integral += i * e;
            slack += off(i, e) + EPS * (std::fabs(integral) + std::fabs(i * e));
            if (proportionality == Proportionality::ON_MEASUREMENT) {
                integral -= p * d;
                slack += off(p, d) + EPS * (std::fabs(integral) + std::fabs(p * d));
            }
            integral = std::clamp(integral, lower, upper);
            const auto prop = proportionality == Proportionality::ON_ERROR ? p * e : 0.0;
            const auto sum = prop + integral - dd * d;
            const auto bound = slack + off(p, e) + off(dd, d) + 4 * EPS * (std::fabs(prop) + std::fabs(integral) + std::fabs(dd * d));
            const auto expected = std::clamp(sum, lower, upper);
            CHECK(std::fabs(output - expected) <= bound + 1e-30, "update " << updates << ": output " << str(output) << ", expected " << expected << " (within " << bound << ")");
            last = input;
            break;
        }
        case 1:
            setpoint = gen_reading(c, input);
            NOTE(c, "setpoint " << str(setpoint));
            break;
        case 2: { // also limits that do not make sense and are ignored
            float lo = float(c.range(-1000, 1000)) / 4, hi = c.chance(1, 4) ? float(c.range(-1000, 1000)) / 4 : lo + float(c.range(1, 1000)) / 8;
            NOTE(c, "limits " << lo << " to " << hi);
            const auto before = output;
            pid.set_output_limits(lo, hi);
            if (!(lo < hi)) CHECK(output == before, "limits that are ignored change the output");
            else {
                lower = lo, upper = hi;
                CHECK(output == std::clamp(before, lo, hi), "output is " << str(output) << " after " << str(before) << " was limited to " << lo << " to " << hi);
                integral = std::clamp(integral, lower, upper);
                if (changes++) c.label("limits changed");
            }
            break;
        }
        case 3: {
            const auto t = c.chance(1, 5) ? c.range(-100, 0) : c.coin() ? c.pick<int64_t>({100, 1, 10, 1000, 60000}) : c.range(1, 5000);
            NOTE(c, "interval " << t);
            pid.set_sampling_time(k_time_ms(t));
            if (t > 0) {
                interval = t;
                ++rescaled;
                c.label("interval changed");
            }
            break;
        }
        case 4: {
            for (auto& v : g) v = gen_gain(c);
            rescaled = 0;
            const auto how = c.below(3);
            NOTE(c, "tunings " << g[0] << "/" << g[1] << "/" << g[2] << " form " << how);
            if (how == 0) {
                pid.set_tunings(float(g[0]), float(g[1]), float(g[2]));
                proportionality = Proportionality::ON_MEASUREMENT;
            } else {
                proportionality = how == 1 ? Proportionality::ON_ERROR : Proportionality::ON_MEASUREMENT;
                pid.set_tunings(float(g[0]), float(g[1]), float(g[2]), proportionality);
            }
            break;
        }
        case 5:
            direction = c.coin() ? Direction::FORWARD : Direction::REVERSE;
            NOTE(c, (direction == Direction::REVERSE ? "reverse" : "forward"));
            pid.set_controller_direction(direction);
            c.label("direction set");
            break;
        case 6: // by hand, and back
            if (c.coin()) output = float(c.range(-1000, 1000)) / 4;
            input = gen_reading(c, input);
            NOTE(c, "take over from " << str(output) << " at " << str(input));
            pid.initialize();
            integral = std::clamp(double(output), lower, upper);
            last = input, slack = 0;
            break;
        default: { // reading without an update in between
            const auto before = output;
            input = gen_reading(c, input);
            if (!first && now - last_update < interval) CHECK_EQ(pid.update(k_time_ms(now)), false, "updated within the interval");
            CHECK(output == before || first || now - last_update >= interval, "output changed within the interval");
            break;
        }
        }
        CHECK(pid.Kp() == float(g[0]) && pid.Ki() == float(g[1]) && pid.Kd() == float(g[2]), "gains read back as " << pid.Kp() << "/" << pid.Ki() << "/" << pid.Kd());
        CHECK(pid.direction() == direction, "direction reads back differently");
    }
    if (updates >= 2) c.nontrivial();
}

// a reversed controller does what a forward one does in a mirrored world
PROP(mirror, 10) {
    auto cfg = gen_config(c);
    NOTE(c, text(cfg));
    cfg.direction = Direction::FORWARD;
    auto mirrored = cfg;
    mirrored.direction = Direction::REVERSE;
    PID a(cfg), b(mirrored);
    a.initialize(), b.initialize();
    float setpoint = 0;
    int64_t now = 0;
    int n = 0;
    while (c.more()) {
        if (c.chance(1, 5)) {
            setpoint = gen_reading(c, setpoint);
            NOTE(c, "setpoint " << str(setpoint));
            a.set_target_setpoint(setpoint), b.set_target_setpoint(-setpoint);
        }
        const auto input = gen_reading(c, setpoint);
        now += int64_t(cfg.sample_interval.raw() / 2) * int64_t(1 + c.below(4));
        NOTE(c, "at " << now << " reading " << str(input));
        a.new_reading(input, k_time_ms(now)), b.new_reading(-input, k_time_ms(now));
        CHECK(a.response() == b.response(), "forward " << str(a.response()) << ", reverse " << str(b.response()));
        if (++n > 2) c.nontrivial();
    }
}

// misuse is reported, while debugging
PROP(misuse, 10) {
    auto cfg = gen_config(c);
    const auto interval = c.chance(1, 2) ? cfg.sample_interval.raw() : c.range(-3, 1);
    cfg.sample_interval = k_time_ms(interval);
    float* const gains[] = {&cfg.tunings.Kp, &cfg.tunings.Ki, &cfg.tunings.Kd};
    const bool negative = c.coin();
    if (negative) {
        auto& g = *gains[c.below(3)];
        g = -float(c.range(1, 100)) / 10;
    }
    NOTE(c, text(cfg));
    const auto thrown = thrown_by([&] { PID pid(cfg); });
    CHECK_EQ(bool(thrown), debug_build && (negative || interval <= 0), "a negative gain or no interval is reported");
    if (negative || interval <= 0) c.nontrivial();
}

// two of them at once have nothing in common
PROP(two_controllers, 4) { twins(c, [&] { prop_control_law(c); }); }
