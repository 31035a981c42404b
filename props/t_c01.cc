// C01: the current local time denotes the instant at which it was taken
#include "../sim/sched.h"
#include "local_time.h"
#include <cstdlib>
#include <cstring>
#include <set>
#include <time.h>

using namespace sim;
using std::string;
using std::vector;

static int64_t days_from_civil(int64_t y, int m, int d)
{
	y -= m <= 2;
	int64_t const era = (y >= 0 ? y : y - 399) / 400;
	int64_t const yoe = y - era * 400;
	int64_t const doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
	int64_t const doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + doe - 719468;
}

namespace {

struct Zone {
	char const* tz;
	// what it means: seconds east of UTC in winter and in summer (here: the part of the year
	// between the two changes), and when the changes happen
	int standard, summer;
	int from_month, from_week, from_day, from_time;     // local standard time, seconds
	int to_month, to_week, to_day, to_time;             // local summer time, seconds
};

}

static int const H = 3600;

static Zone const zones[] = {
	{"UTC0", 0, 0, 0, 0, 0, 0, 0, 0, 0, 0},
	{"CET-1CEST,M3.5.0,M10.5.0/3", H, 2 * H, 3, 5, 0, 2 * H, 10, 5, 0, 3 * H},
	{"EST5EDT,M3.2.0,M11.1.0", -5 * H, -4 * H, 3, 2, 0, 2 * H, 11, 1, 0, 2 * H},
	{"NST3:30NDT,M3.2.0,M11.1.0", -(3 * H + 1800), -(2 * H + 1800), 3, 2, 0, 2 * H, 11, 1, 0, 2 * H},
	{"LHST-10:30LHDT-11,M10.1.0,M4.1.0", 10 * H + 1800, 11 * H, 10, 1, 0, 2 * H, 4, 1, 0, 2 * H},
	{"NZST-12NZDT,M9.5.0,M4.1.0/3", 12 * H, 13 * H, 9, 5, 0, 2 * H, 4, 1, 0, 3 * H},
	{"IST-5:30", 5 * H + 1800, 5 * H + 1800, 0, 0, 0, 0, 0, 0, 0, 0},
	{"NPT-5:45", 5 * H + 2700, 5 * H + 2700, 0, 0, 0, 0, 0, 0, 0, 0},
	{"LINT-14", 14 * H, 14 * H, 0, 0, 0, 0, 0, 0, 0, 0},
	{"AOE12", -12 * H, -12 * H, 0, 0, 0, 0, 0, 0, 0, 0},
	{"MART9:30", -(9 * H + 1800), -(9 * H + 1800), 0, 0, 0, 0, 0, 0, 0, 0},
	{"XXX0:30", -1800, -1800, 0, 0, 0, 0, 0, 0, 0, 0},
};

static int const ZONES = sizeof(zones) / sizeof(zones[0]);

// days since the epoch of the given weekday of the given week of a month
static int64_t nth_day(int64_t year, int month, int week, int weekday)
{
	int64_t const first = days_from_civil(year, month, 1);
	int const wd = int(((first + 4) % 7 + 7) % 7);
	int64_t d = first + (weekday - wd + 7) % 7 + (week - 1) * 7;
	int64_t const next = month == 12 ? days_from_civil(year + 1, 1, 1) : days_from_civil(year, month + 1, 1);
	while (d >= next) d -= 7;
	return d;
}

static int64_t change(Zone const& z, int64_t year, bool to_summer)
{
	if (to_summer) return nth_day(year, z.from_month, z.from_week, z.from_day) * 86400 + z.from_time - z.standard;
	return nth_day(year, z.to_month, z.to_week, z.to_day) * 86400 + z.to_time - z.summer;
}

static int offset_at(Zone const& z, int64_t utc)
{
	if (!z.from_month) return z.standard;
	// the year by local standard time
	int64_t const days = (utc + z.standard) / 86400;
	int64_t year = 1970 + days / 366;
	while (days_from_civil(year + 1, 1, 1) <= days) ++year;
	int64_t const on = change(z, year, true), off = change(z, year, false);
	bool const summer = on < off ? (utc >= on && utc < off) : !(utc >= off && utc < on);
	return summer ? z.summer : z.standard;
}

namespace {

struct Taken {
	bool busy = false;
	int kind = 0;                          // 0: the current time; 1 and 2: a time which the caller has
	struct tm given;
	std::set<int> offsets;                 // what the zone had from the start to the end of the call
	int64_t lowest = 0, highest = 0;       // what the clock showed from the start to the end of the call
	int year = 0, month = 0, day = 0, hour = 0, minute = 0, second = 0, millisecond = 0;
	int offset_hour = 0, offset_minute = 0;
	std::shared_ptr<dcp::LocalTime> time;
};

}

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	threads_reset();
	auto const& zone = zones[c.choose(ZONES)];
	setenv("TZ", zone.tz, 1);
	tzset();
	ctx.note("time zone %s", zone.tz);
	// an instant, often just before something changes
	int64_t const year = 2000 + int64_t(c.choose(38));
	int64_t t = days_from_civil(year, 1 + int(c.choose(12)), 1 + int(c.choose(28))) * 86400 + c.choose(86400);
	switch (c.choose(4)) {
	case 1: if (zone.from_month) t = change(zone, year, c.choose(2)) - int64_t(c.choose(4)); break;
	case 2: t = days_from_civil(year, 1, 1) * 86400 - zone.standard - int64_t(c.choose(3)); break;
	case 3: t = (t / 86400) * 86400 - offset_at(zone, t) - int64_t(c.choose(3)); break;
	}
	int64_t clock = t * 1000000000ll + int64_t(c.choose(2) ? 999999000 + c.choose(1000) : c.choose(1000000000));
	bool const jumps = c.choose(4) == 3;
	size_t const threads = c.choose(2) ? 2 + c.choose(2) : 1;
	vector<vector<Taken>> taken(threads);
	for (auto& p: taken) {
		p.resize(1 + c.choose(3));
		for (auto& k: p) {
			memset(&k.given, 0, sizeof(k.given));
			if (!c.chance(1, 3)) continue;
			k.kind = 1 + int(c.choose(2));
			k.given.tm_year = 71 + int(c.choose(130));
			k.given.tm_mon = int(c.choose(12));
			k.given.tm_mday = 1 + int(c.choose(28));
			k.given.tm_hour = int(c.choose(24));
			k.given.tm_min = int(c.choose(60));
			k.given.tm_sec = int(c.choose(60));
		}
	}
	start_clock(clock);
	int readings = 0;
	bool crossed = false;
	// every reading of the clock may find it later, sometimes by much, or set back
	clock_source = [&]() {
		Unseen unseen;
		++readings;
		auto const before = clock;
		switch (c.choose(6)) {
		case 1: clock += c.choose(1000); break;
		case 2: clock += c.choose(2000000000); break;
		case 3: clock += int64_t(c.choose(5)) * 1000000000ll; ctx.count("fault.clock.skip"); break;
		case 4: clock += int64_t(c.choose(2) ? 3600 : 1800) * 1000000000ll; ctx.count("fault.clock.forward"); break;
		case 5: if (jumps) { clock -= int64_t(c.choose(7200)) * 1000000000ll; ctx.count("fault.clock.back"); } break;
		}
		if (offset_at(zone, before / 1000000000) != offset_at(zone, clock / 1000000000)) {
			crossed = true;
			ctx.count("offset.changed");
		}
		ctx.note("reading %d by thread %d: %lld.%09lld", readings, this_thread(), (long long)(clock / 1000000000), (long long)(clock % 1000000000));
		for (auto& p: taken) {
			for (auto& k: p) {
				if (!k.busy) continue;
				k.lowest = std::min(k.lowest, clock);
				k.highest = std::max(k.highest, clock);
				k.offsets.insert(offset_at(zone, clock / 1000000000));
			}
		}
		return clock;
	};
	ThreadRun r;
	if (threads > 1) {
		r.plan = draw_plan(ctx, int(threads), nullptr, 6);
		ctx.note("%s", describe_plan(r.plan).c_str());
	}
	for (auto& p: taken) {
		r.bodies.push_back([&]() {
			for (auto& k: p) {
				{
					Unseen unseen;
					k.lowest = k.highest = clock;
					k.offsets.insert(offset_at(zone, clock / 1000000000));
					k.busy = true;
				}
				auto make = [&k]() {
					if (k.kind == 1) return dcp::LocalTime(k.given);
					if (k.kind == 2) return dcp::LocalTime(boost::posix_time::ptime_from_tm(k.given));
					return dcp::LocalTime();
				};
				auto const now = make();
				Unseen unseen;
				k.busy = false;
				k.time = std::make_shared<dcp::LocalTime>(now);
				k.year = now.year();
				k.month = now.month();
				k.day = now.day();
				k.hour = now.hour();
				k.minute = now.minute();
				k.second = now.second();
				k.millisecond = now.millisecond();
				// the offset can only be seen in the text: ...+hh:mm
				auto const text = now.as_string();
				auto const sign = text.length() > 6 ? text[text.length() - 6] : '?';
				int const s = sign == '-' ? -1 : 1;
				if (sign == '-' || sign == '+') {
					k.offset_hour = s * atoi(text.substr(text.length() - 5, 2).c_str());
					k.offset_minute = s * atoi(text.substr(text.length() - 2).c_str());
				} else {
					k.offset_hour = 99;
				}
			}
		});
	}
	enable_clock(true);
	run_threads(ctx, r);
	enable_clock(false);
	clock_source = nullptr;
	judge_threads(ctx, r);
	if (ctx.violated) return;
	for (size_t n = 0; n < threads; ++n) {
		for (auto const& k: taken[n]) {
			int64_t const local = days_from_civil(k.year, k.month, k.day) * 86400 + k.hour * 3600 + k.minute * 60 + k.second;
			int64_t const offset = int64_t(k.offset_hour) * 3600 + int64_t(k.offset_minute) * 60;
			int64_t const utc = local - offset;
			auto const text = format_string("%04d-%02d-%02dT%02d:%02d:%02d.%03d and %d:%d from UTC", k.year, k.month, k.day, k.hour, k.minute, k.second, k.millisecond, k.offset_hour, k.offset_minute);
			ctx.note("thread %zu: %s, between %lld and %lld", n, text.c_str(), (long long)(k.lowest / 1000000000), (long long)(k.highest / 1000000000));
			ctx.count("timestamps");
			if (k.kind) {
				auto const& g = k.given;
				if (k.year != g.tm_year + 1900 || k.month != g.tm_mon + 1 || k.day != g.tm_mday || k.hour != g.tm_hour || k.minute != g.tm_min || k.second != g.tm_sec || k.millisecond) {
					ctx.violate("not the time which was given", "%s from %04d-%02d-%02dT%02d:%02d:%02d", text.c_str(), g.tm_year + 1900, g.tm_mon + 1, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec);
					return;
				}
				if (!k.offsets.count(int(offset))) {
					ctx.violate("not an offset of that zone", "%s in %s", text.c_str(), zone.tz);
					return;
				}
				ctx.count("timestamps from a given time");
				ctx.sig(uint64_t(offset));
				continue;
			}
			if (utc < k.lowest / 1000000000 || utc > k.highest / 1000000000) {
				ctx.violate("not the current time", "%s in %s: %lld seconds from the time of the call", text.c_str(), zone.tz, (long long)(utc < k.lowest / 1000000000 ? utc - k.lowest / 1000000000 : utc - k.highest / 1000000000));
				return;
			}
			if (offset != offset_at(zone, utc)) {
				ctx.violate("not the offset at that time", "%s in %s: should be %d seconds", text.c_str(), zone.tz, offset_at(zone, utc));
				return;
			}
			dcp::LocalTime const same(boost::posix_time::from_time_t(0) + boost::posix_time::seconds(utc), dcp::UTCOffset(0, 0));
			if (!(*k.time == same) || *k.time < same || *k.time > same) {
				ctx.violate("not the same time when compared", "%s in %s", text.c_str(), zone.tz);
				return;
			}
			if (k.month < 1 || k.month > 12 || k.day < 1 || k.day > 31 || k.hour < 0 || k.hour > 23 || k.minute < 0 || k.minute > 59 || k.second < 0 || k.second > 60 || k.millisecond < 0 || k.millisecond > 999) {
				ctx.violate("not a time", "%s", text.c_str());
				return;
			}
			ctx.sig(uint64_t(utc / 3600));
			ctx.sig(uint64_t(offset));
		}
	}
	ctx.sig(zone.tz);
	ctx.sig(r.shape);
	ctx.stats.nontrivial = crossed || r.switches > 0;
	ctx.stats.sample = format_string("%s, %zu threads, %d readings%s", zone.tz, threads, readings, crossed ? ", across a change of offset" : "");
}

SIM_PROPERTY(C01, nullptr, run, 64, "A run makes 1-9 timestamps, two thirds of them for the current time and the others from a time which is given, in one to three threads with up to six preemptions, in one of twelve time zone rules, at an instant often within seconds of a daylight-saving change, midnight or new year; at every reading the clock may advance by nanoseconds to an hour or be set back. Non-trivial: the offset changed between two readings or threads were preempted. Distinct: by zone, hours denoted, offsets and order of shared accesses.")
