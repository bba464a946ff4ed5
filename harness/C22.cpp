// C22: a schedule gives the right value at every second of the day
#include "pbt.hpp"

#include "spine/structure/time/schedule.hpp"

using namespace pbt;
using spn::structure::time::Schedule;
using Block = Schedule::Block;

namespace {

constexpr int64_t DAY = 86400;

template<size_t N>
Schedule from_list(const std::vector<Block>& b, bool config) {
    return [&]<size_t... I>(std::index_sequence<I...>) {
        if (config) return Schedule(Schedule::Config{{b[I]...}});
        return Schedule({b[I]...});
    }(std::make_index_sequence<N>{});
}

template<size_t... N>
Schedule make(const std::vector<Block>& b, bool config, std::index_sequence<N...>) {
    std::optional<Schedule> s;
    ((b.size() == N + 1 ? (s.emplace(from_list<N + 1>(b, config)), 0) : 0), ...);
    return std::move(*s);
}

constexpr size_t MOST = 24;
/// a schedule of very many blocks
Schedule make_many(const std::vector<Block>& b, bool config) {
    switch (b.size()) {
    case 64: return from_list<64>(b, config);
    case 129: return from_list<129>(b, config);
    case 256: return from_list<256>(b, config);
    default: return from_list<300>(b, config);
    }
}

} // namespace

PROP(every_second, 1) {
    // cut a day, that starts at any second, in blocks and gaps
    const bool many = c.chance(1, 60);
    const auto n = many ? c.pick<size_t>({64, 129, 256, 300}) : 1 + size_t(c.coin() ? c.below(4) : c.below(MOST));
    const auto origin = c.chance(1, 3) ? 0 : c.chance(1, 4) ? c.pick<int64_t>({1, DAY - 1, DAY / 2}) : c.range(0, DAY - 1);
    const auto style = many ? 3 * c.below(2) : c.below(4);
    std::vector<int64_t> cuts; // 2n cuts in [0, DAY]: start, end, start, end
    if (style == 0 && c.coin()) {
        for (size_t i = 0; i <= n; ++i) { // the whole day, evenly or not
            const auto at = i == 0 ? 0 : i == n ? DAY : int64_t(DAY * i / n);
            if (i > 0) cuts.push_back(at);
            if (i < n) cuts.push_back(at);
        }
        c.label("covers the day");
    } else {
        std::set<int64_t> points;
        while (points.size() < 2 * n) {
            int64_t p = style == 1 ? c.range(0, 24) * 3600 : style == 2 ? c.range(0, int64_t(4 * n)) : c.nasty(0, DAY);
            while (points.count(p)) p = (p + 1) % (DAY + 1);
            points.insert(p);
        }
        cuts.assign(points.begin(), points.end());
        // some blocks follow each other at once
        for (size_t i = 1; i + 1 < cuts.size(); i += 2)
            if (c.chance(1, 3)) cuts[i] = cuts[i + 1];
    }
    std::vector<Block> blocks;
    struct Given { int64_t start, length; float value; }; // what was asked for, whatever a block makes of it
    std::vector<Given> given;
    bool midnight = false, until_midnight = false;
    for (size_t i = 0; i < n; ++i) {
        const auto start = (origin + cuts[2 * i]) % DAY, length = cuts[2 * i + 1] - cuts[2 * i];
        const auto value = c.chance(1, 8) ? float(c.range(-3, 3)) : c.chance(1, 8) ? c.pick<float>({0.001f, 0.25f, 300.75f, -70000.5f, 1e9f}) : float(int64_t(i) + 1) * (c.coin() ? 1.0f : -0.5f);
        blocks.push_back(Block{k_time_s(start), k_time_s(length), value});
        given.push_back({start, length, value});
        midnight |= start + length > DAY;
        until_midnight |= start + length == DAY;
    }
    // in any order
    for (size_t i = blocks.size(); i > 1; --i) {
        const auto j = i - 1 - c.below(i);
        std::swap(blocks[i - 1], blocks[j]);
        std::swap(given[i - 1], given[j]);
    }
    const bool config = c.coin();
    for (auto& b : given) NOTE(c, b.start << "+" << b.length << "=" << str(b.value));

    std::optional<Schedule> s;
    const auto thrown = thrown_by([&] { s.emplace(many ? make_many(blocks, config) : make(blocks, config, std::make_index_sequence<MOST>{})); });
    CHECK(!thrown, "a schedule of blocks that fit is reported: " << (thrown ? thrown->what : ""));

    // the model: every second of the day
    std::vector<float> value(DAY, 0.0f);
    std::set<int64_t> starts;
    for (auto& b : given) {
        for (int64_t t = 0; t < b.length; ++t) value[size_t((b.start + t) % DAY)] = b.value;
        starts.insert(b.start);
    }
    const auto look = [&](int64_t t) {
        const auto got = s->value_at(k_time_s(t));
        CHECK(got == value[size_t(t)], "value at " << t << ": " << str(got) << ", expected " << str(value[size_t(t)]));
        const auto next = starts.upper_bound(t);
        CHECK_EQ(int64_t(s->start_of_next_block(k_time_s(t)).raw()), next == starts.end() ? DAY : *next, "start of the block after " << t);
    };
    for (auto& b : given)
        for (const auto edge : {b.start, b.start + b.length})
            for (int64_t d = -1; d <= 1; ++d) look((edge + d + DAY) % DAY);
    look(0), look(DAY - 1), look(DAY / 2);
    if (c.chance(1, 300)) {
        for (int64_t t = 0; t < DAY; ++t) look(t);
        c.label("every second looked at");
    }
    for (int i = 0; i < 20; ++i) look(c.range(0, DAY - 1));
    if (n > 1) c.nontrivial();
    if (midnight) c.label("over midnight");
    if (until_midnight) c.label("until midnight");
    if (n > 8) c.label("many blocks");
    if (n > 24) c.label("very many blocks");
    if (n == 1 && given[0].length == DAY) c.label("one block of a day");
}

// what does not fit is reported, while debugging
PROP(misuse, 1) {
    const auto n = 1 + c.below(5);
    std::vector<Block> blocks;
    int64_t total = 0;
    bool empty = false;
    for (size_t i = 0; i < n; ++i) {
        const auto d = c.chance(1, 12) ? c.range(-2, 0) : c.chance(1, 4) ? c.range(1, 2 * DAY) : c.range(1, 2 * DAY / int64_t(n));
        const auto start = c.range(0, DAY - 1);
        empty |= d <= 0;
        total += d;
        blocks.push_back(Block{k_time_s(start), k_time_s(d), 1.0f});
    }
    if (c.chance(1, 3)) { // just fits, or just does not
        const auto off = c.range(0, 1);
        const auto rest = DAY + off - (total - blocks.back().duration.raw());
        total += rest - blocks.back().duration.raw();
        blocks.back().duration = k_time_s(rest);
        empty = false;
        for (auto& b : blocks) empty |= b.duration.raw() <= 0;
        c.label("just fits or just does not");
    }
    for (auto& b : blocks) NOTE(c, b.start.raw() << "+" << b.duration.raw());
    const bool wrong = empty || total > DAY;
    const auto thrown = thrown_by([&] { auto s = make(blocks, c.coin(), std::make_index_sequence<MOST>{}); });
    CHECK_EQ(bool(thrown), wrong && debug_build, "blocks of " << total << " s together" << (empty ? ", one of which is empty," : "") << " are reported");
    if (wrong) c.nontrivial();
}
