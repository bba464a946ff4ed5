// C27: the band-pass filter rejects outliers, and only outliers
#include "pbt.hpp"

#include "spine/filter/implementations/bandpass.hpp"

using namespace pbt;
using spn::filter::BandPass;

namespace {

template<typename T>
void history(Ctx& c) {
    using Filter = BandPass<T>;
    typename Filter::Config cfg;
    const bool relative = c.coin();
    GIVE(cfg.mode, relative ? Filter::Mode::RELATIVE : Filter::Mode::ABSOLUTE);
    // mostly bands and samples that are exact
    bool exact = c.chance(3, 4);
    GIVE(cfg.mantissa, exact ? T(8 + c.below(72)) / 8 : T(1 + double(c.below(9000)) / 1000));
    if (cfg.mantissa >= 10) cfg.mantissa = 1;
    GIVE(cfg.decades, exact ? T(c.range(-1, 2)) : T(double(c.range(-200, 200)) / 100));
    if (c.coin()) { GIVE(cfg.offset, T(c.range(-800, 800)) / 8); } // none otherwise
    else CHECK(cfg.offset == 0, "an offset without one");
    GIVE(cfg.rejection_limit, int(c.chance(1, 40) ? c.pick<int64_t>({100, 127, 128, 254, 255, 256, 257, 300}) : c.coin() ? c.range(1, 4) : c.range(1, 12)));
    cfg.throw_on_rejection_limit = c.chance(1, 3);
    const bool broad = c.chance(1, 12);
    if (broad) exact = false, cfg.mode = Filter::Mode::RELATIVE, cfg.mantissa = T(1), cfg.decades = T(0.01), cfg.offset = 0, cfg.rejection_limit = 10, cfg.throw_on_rejection_limit = true;
    const bool rel = cfg.mode == Filter::Mode::RELATIVE;
    NOTE(c, (rel ? "relative" : "absolute") << " " << cfg.mantissa << "*10^(" << cfg.decades << "+1) around " << cfg.offset << ", limit " << cfg.rejection_limit << (cfg.throw_on_rejection_limit ? ", reported" : ", accepted"));
    std::unique_ptr<Filter> filter = broad ? Filter::Broad() : std::make_unique<Filter>(typename Filter::Config(cfg));
    const long double width = static_cast<long double>(cfg.mantissa) * powl(10.0L, static_cast<long double>(cfg.decades) + 1);

    bool primed = false;
    long double value = 0;
    int rejected = 0, outliers = 0, accepted = 0;
    int again = 0; // the last sample comes again
    T last = 0;
    while (again > 0 || c.more(40)) {
        if (again == 0 && primed && c.chance(1, 16)) {
            const T to = T(c.range(-8000, 8000)) / 8;
            NOTE(c, "reset to " << str(to));
            filter->reset_to(to);
            value = to;
            CHECK(filter->value() == to, "reset to " << str(to) << ", value is " << str(filter->value()));
            c.label("reset");
            continue;
        }
        if (!primed && c.chance(1, 8)) { // before the first sample
            const T to = T(c.range(-8000, 8000)) / 8;
            NOTE(c, "reset to " << str(to) << " at first");
            filter->reset_to(to);
            value = to, primed = true;
            CHECK(filter->value() == to, "reset to " << str(to) << ", value is " << str(filter->value()));
            continue;
        }
        // inside, on the edge, or outside of the band
        const auto middle = (rel && primed ? value : 0) + static_cast<long double>(cfg.offset);
        const auto sign = c.coin() ? 1 : -1;
        T sample;
        if (again > 0) sample = last, --again;
        else switch (c.weighted({3, 2, 2, 3, 1})) {
        case 0: sample = T(middle + width * (double(c.range(-1000, 1000)) / 1000)); break;
        case 1: sample = T(middle + sign * width); break;
        case 2: sample = T(middle + sign * width * (1 + (double(c.range(-10, 10)) / 8192))); break;
        case 3: sample = T(middle + sign * width * (1 + double(c.below(1000)) / 100)); break;
        default: sample = T(c.range(-8000, 8000)) / 8;
        }
        if (exact) sample = T(std::round(double(sample) * 8) / 8);
        if (std::fabs(double(sample) - -789.123456789) < 0.01) continue; // stands for "no value"
        const auto from = primed ? value : static_cast<long double>(sample);
        const auto around = (rel ? from : 0) + static_cast<long double>(cfg.offset);
        const auto distance = std::fabs(static_cast<long double>(sample) - around);
        // a band that is not exact has an edge of some width
        const auto blur = (exact ? 0.0L : 8 * std::numeric_limits<T>::epsilon() * (std::fabs(around) + width + std::fabs(static_cast<long double>(sample))));
        if (blur > 0 && std::fabs(distance - width) <= blur) continue;
        if (exact && std::fabs(distance - width) > 0 && std::fabs(distance - width) < 4 * std::numeric_limits<T>::epsilon() * (width + std::fabs(around))) continue;
        NOTE(c, str(sample));
        if (again == 0 && cfg.rejection_limit > 12 && distance > width && c.chance(1, 4)) {
            again = cfg.rejection_limit - int(c.below(3));
            NOTE(c, again << " times more");
            c.label("many outliers in a row");
        }
        last = sample;
        value = from, primed = true;
        const bool inside = distance <= width;
        if (distance == width) c.label("on the edge");
        bool report = false;
        if (inside) {
            value = sample;
            rejected = 0;
            ++accepted;
        } else {
            ++outliers;
            if (++rejected > cfg.rejection_limit) {
                if (cfg.throw_on_rejection_limit) {
                    report = true;
                    c.label("reported");
                } else {
                    value = sample;
                    c.label("accepted beyond the limit");
                }
            }
        }
        std::optional<T> got;
        std::optional<Thrown> thrown;
        const auto run = [&] {
            switch (c.below(3)) {
            case 0: got = filter->value(sample); break;
            case 1: got = (*filter)(sample); break;
            default: filter->new_sample(sample);
            }
        };
        if (report) thrown = thrown_by(run);
        else run();
        if (report) {
            CHECK(thrown.has_value(), "outlier " << rejected << " in a row, " << str(sample) << ", is not reported");
            CHECK_EQ(g_thrown_count, 1, "reports of one outlier");
            g_thrown_count = 0;
        }
        if (got) CHECK(*got == T(value), (inside ? "inside" : "outside") << " by " << double(distance) << " of " << double(width) << ", rejection " << rejected << ": sample " << str(sample) << " yields " << str(*got) << ", expected " << str(T(value)));
        CHECK(filter->value() == T(value), (inside ? "inside" : "outside") << " by " << double(distance) << " of " << double(width) << ", rejection " << rejected << ": after sample " << str(sample) << " the value is " << str(filter->value()) << ", expected " << str(T(value)));
    }
    if (outliers && accepted > 1) c.nontrivial();
    if (outliers) c.label("rejected");
}

} // namespace

PROP(of_float, 6) { history<float>(c); }
PROP(of_double, 6) { history<double>(c); }

// two of them at once have nothing in common
PROP(two_bands, 1) { twins(c, [&] { history<float>(c); }); }
