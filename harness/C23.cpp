// C23: calendar dates and timestamps map one to one
#include "pbt.hpp"

#include "spine/structure/time/datetime.hpp"

#include <ctime>

using namespace pbt;

namespace {

bool leap(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int days_in(int64_t y, int m) {
    static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : d[m - 1];
}
const char* const MONTHS[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
const char* const DAYS[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};

struct Date {
    int year, month, day, hour, minute, second;
    int weekday() const { return int((days() + 4) % 7); } // 1970-01-01 was a Thursday
    int yearday() const {
        int n = day - 1;
        for (int m = 1; m < month; ++m) n += days_in(year, m);
        return n;
    }
    int64_t days() const { // since the epoch
        const int64_t y = year - 1; // full years before this one, since year 1
        const auto before = [](int64_t y) { return 365 * y + y / 4 - y / 100 + y / 400; };
        return before(y) - before(1969) + yearday();
    }
    int64_t stamp() const { return days() * 86400 + hour * 3600 + minute * 60 + second; }
    std::string text() const {
        char b[64];
        snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, minute, second);
        return b;
    }
};

Date gen_date(Ctx& c, int last_year) {
    Date d;
    d.year = c.coin() ? int(c.range(1970, std::min(2100, last_year))) : c.chance(1, 3) ? int(std::min<int64_t>(last_year, c.pick<int>({1970, 1972, 1999, 2000, 2001, 2037, 2038, 2039, 2100, 2101, 2106, 2200, 2400, 9999}))) : int(c.range(1970, last_year));
    if (c.chance(1, 6)) d.year = std::min(last_year / 100, d.year / 100 + 1) * 100;
    d.month = c.chance(1, 4) ? 2 + int(c.below(2)) : 1 + int(c.below(12));
    d.day = c.chance(1, 3) ? days_in(d.year, d.month) : c.chance(1, 3) ? 1 : 1 + int(c.below(days_in(d.year, d.month)));
    const auto edge = c.below(4);
    d.hour = edge == 1 ? 0 : edge == 2 ? 23 : int(c.below(24));
    d.minute = edge == 1 ? 0 : edge == 2 ? 59 : int(c.below(60));
    d.second = edge == 1 ? 0 : edge == 2 ? 59 : int(c.below(60));
    return d;
}

void check(DateTime& t, const Date& d, const std::string& how) {
    CHECK_EQ(t.getYear(), d.year, d.text() << " " << how << ": year");
    CHECK_EQ(t.getMonth(), d.month, d.text() << " " << how << ": month");
    CHECK_EQ(t.getDay(), d.day, d.text() << " " << how << ": day");
    CHECK_EQ(t.getHour(), d.hour, d.text() << " " << how << ": hour");
    CHECK_EQ(t.getMinute(), d.minute, d.text() << " " << how << ": minute");
    CHECK_EQ(t.getSecond(), d.second, d.text() << " " << how << ": second");
    CHECK_EQ(t.getWeekDay(), d.weekday(), d.text() << " " << how << ": weekday");
    CHECK_EQ(t.getYearDay(), d.yearday(), d.text() << " " << how << ": day of the year");
    CHECK(t.getDST() <= 0, d.text() << " " << how << ": there is no summer time in UTC");
    CHECK_EQ(int64_t(t.getUnixTime()), d.stamp(), d.text() << " " << how << ": unix timestamp");
    CHECK_EQ(int64_t(t.getY2kTime()), d.stamp() - 946684800ll, d.text() << " " << how << ": year 2000 timestamp");
}

void label(Ctx& c, const Date& d) {
    if (d.month == 2 && d.day == 29) c.label("29 february");
    if (d.year % 100 == 0) c.label("century");
    if (d.year >= 2038) c.label("2038 and on");
    if (d.year < 2000) c.label("before 2000");
    if (d.year != 1970) c.nontrivial();
}

void utc() {
    static const bool done = [] {
        setenv("TZ", "UTC", 1);
        tzset();
        return true;
    }();
    (void)done;
}

/// everything that can be made of a date agrees
void formatting(Ctx& c, DateTime& t, const Date& d) {
    struct Format {
        const char* spec;
        std::string text;
    };
    const auto two = [](int v) { return std::string(v < 10 ? "0" : "") + std::to_string(v); };
    const auto time = two(d.hour) + ":" + two(d.minute) + ":" + two(d.second);
    const auto day3 = std::to_string(1000 + d.yearday() + 1).substr(1);
    const auto h12 = d.hour % 12 ? d.hour % 12 : 12;
    const Format formats[] = {
        {"%Y-%m-%d %H:%M:%S", std::to_string(d.year) + "-" + two(d.month) + "-" + two(d.day) + " " + time},
        {"%j", day3},
        {"at %H o'clock on day %w of the week, 100%%", "at " + two(d.hour) + " o'clock on day " + std::to_string(d.weekday()) + " of the week, 100%"},
        {"%y", two(d.year % 100)},
        {"nothing to fill in", "nothing to fill in"},
        {"%a %b", std::string(DAYS[d.weekday()]) + " " + MONTHS[d.month - 1]},
        {"%I %p", two(h12) + (d.hour < 12 ? " AM" : " PM")},
        {"%T", time},
        {"%C", two(d.year / 100)},
        {"%u", std::to_string(d.weekday() ? d.weekday() : 7)},
    };
    constexpr size_t n_formats = sizeof(formats) / sizeof(*formats);
    std::string spec, text;
    const bool by_default = c.chance(1, 5);
    if (by_default) {
        spec = "the default";
        text = std::string(DAYS[d.weekday()]) + " " + MONTHS[d.month - 1] + " " + two(d.day) + " " + time + " " + std::to_string(d.year);
    } else
        for (auto n = 1 + (c.chance(1, 3) ? c.draw(c.chance(1, 8) ? 60 : 9) : 0); n > 0; --n) {
            const auto& f = formats[c.below(n_formats)];
            spec += f.spec;
            text += f.text;
        }
    if (!by_default && c.chance(1, 300)) { // a very long text
        const std::string filler(c.pick<size_t>({250, 32760, 65530, 66000}) + c.below(10), '-');
        spec += filler, text += filler;
        c.label("formatted: very long");
    }
    const auto room = c.chance(1, 3)   ? text.size() + 1
                      : c.chance(1, 3) ? text.size()
                      : c.chance(1, 3) ? text.size() + c.below(2000)
                     : text.size() > 65536 && c.coin() ? text.size() - 65536
                                       : 1 + c.below(60);
    std::unique_ptr<char[]> buffer(new char[room]); // nothing behind it
    const auto n = by_default ? t.strf_DateTime(buffer.get(), room) : t.strf_DateTime(buffer.get(), room, spec.c_str());
    if (text.size() > 64) c.label("formatted: long");
    if (room > text.size()) {
        CHECK_EQ(n, text.size(), d.text() << " formatted as " << spec << " in " << room << ": length");
        CHECK_EQ(std::string(buffer.get()), text, d.text() << " formatted as " << spec);
        c.label("formatted");
    } else {
        CHECK_EQ(n, 0u, d.text() << " formatted in a buffer of " << room << " for a text of " << text.size());
        c.label("formatted: does not fit");
    }
}

} // namespace

PROP(from_timestamp, 2) {
    utc();
    const auto d = gen_date(c, 200000);
    NOTE(c, d.text() << " is " << d.stamp());
    DateTime t(time_t(d.stamp()));
    CHECK_EQ(DateTime().getUnixTime(), time_t(0), "a date without a moment");
    check(t, d, "from its timestamp");
    label(c, d);
    if (c.coin() && d.year < 10000 && d.year >= 1000) formatting(c, t, d);
}
PROP(from_fields, 2) {
    utc();
    const auto d = gen_date(c, 200000);
    const auto extra = c.below(6);
    NOTE(c, d.text() << " from fields, " << extra);
    // weekday and day of the year do not take part
    DateTime t = extra == 0   ? DateTime(d.year, d.month, d.day, d.hour, d.minute, d.second)
                 : extra == 1 ? DateTime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.weekday() + 1)
                 : extra == 2 ? DateTime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.weekday() + 1, d.yearday())
                 : extra == 3 ? DateTime(d.year, d.month, d.day, d.hour, d.minute, d.second, int(c.below(8)), int(c.below(366)))
                 : extra == 4 ? DateTime(d.year, d.month, d.day, d.hour, d.minute, d.second, 0, 0, 0)
                              : DateTime(d.year, d.month, d.day, d.hour, d.minute, d.second, 0, 0, -1);
    check(t, d, "from its fields");
    DateTime u(t.getUnixTime());
    check(u, d, "from its fields, from its timestamp");
    if (extra != 5) c.label("with weekday and day of the year");
    label(c, d);
    if (c.coin() && d.year < 10000 && d.year >= 1000) formatting(c, t, d);
}
PROP(from_date_only, 1) {
    utc();
    auto d = gen_date(c, 9999);
    d.hour = d.minute = d.second = 0;
    NOTE(c, d.text());
    DateTime t(d.year, d.month, d.day);
    check(t, d, "from a date");
    DateTime copy(t);
    check(copy, d, "copied");
    label(c, d);
}
// as __DATE__ and __TIME__ are: a day below ten has a space before it
PROP(from_text, 2) {
    utc();
    const auto d = gen_date(c, 9999);
    char date[32], time[32];
    snprintf(date, sizeof date, "%s %2d %4d", MONTHS[d.month - 1], d.day, d.year);
    snprintf(time, sizeof time, "%02d:%02d:%02d", d.hour, d.minute, d.second);
    NOTE(c, date << " " << time);
    DateTime t(date, time);
    check(t, d, "from text");
    label(c, d);
    if (c.coin()) formatting(c, t, d);
    if (d.day < 10) c.label("text with a space");
    // one after the other
    if (c.coin()) {
        const auto e = gen_date(c, 9999);
        snprintf(date, sizeof date, "%s %2d %4d", MONTHS[e.month - 1], e.day, e.year);
        snprintf(time, sizeof time, "%02d:%02d:%02d", e.hour, e.minute, e.second);
        DateTime u(date, time);
        check(u, e, "from a second text");
        check(t, d, "after a second one");
    }
}
// consecutive seconds are consecutive dates
PROP(steps, 1) {
    utc();
    auto d = gen_date(c, 9999);
    const auto from = d.stamp();
    const auto step = c.pick<int64_t>({1, 60, 3600, 86400, 7 * 86400, 86399, 31 * 86400});
    NOTE(c, d.text() << " in steps of " << step);
    for (int64_t i = 0; i < 20; ++i) {
        const auto stamp = from + i * step;
        DateTime t{time_t(stamp)};
        const Date shown{t.getYear(), t.getMonth(), t.getDay(), t.getHour(), t.getMinute(), t.getSecond()};
        CHECK(shown.month >= 1 && shown.month <= 12 && shown.day >= 1 && shown.day <= days_in(shown.year, shown.month) && shown.hour >= 0 && shown.hour < 24 && shown.minute >= 0 && shown.minute < 60 && shown.second >= 0 && shown.second < 60, stamp << " is no date: " << shown.text());
        CHECK_EQ(shown.stamp(), stamp, stamp << " is shown as " << shown.text() << ", which is");
        check(t, shown, "as it is shown");
        DateTime u(shown.year, shown.month, shown.day, shown.hour, shown.minute, shown.second);
        CHECK_EQ(int64_t(u.getUnixTime()), stamp, shown.text() << " from its fields");
    }
    label(c, d);
}
