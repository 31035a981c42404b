// C02: recorded timestamps keep their instant and their order
#include "../sim/sim.h"
#include "local_time.h"
#include <sstream>
#include "exceptions.h"
#include <boost/date_time/posix_time/posix_time.hpp>
#include <stdlib.h>
#include <string.h>
#include <time.h>

using namespace sim;
using std::string;
using std::vector;

namespace {

// what a timestamp denotes: local civil time in milliseconds, and minutes from UTC
struct Model {
	int64_t local = 0;
	int offset = 0;
	int64_t utc() const { return local - int64_t(offset) * 60000; }
};

struct Stamp {
	dcp::LocalTime t;
	Model m;
	explicit Stamp(dcp::LocalTime const& t_, Model m_) : t(t_), m(m_) {}
};

struct Civil { int64_t year; int month, day; };

}

static int64_t days_from_civil(int64_t y, int m, int d)
{
	y -= m <= 2;
	int64_t const era = (y >= 0 ? y : y - 399) / 400;
	int64_t const yoe = y - era * 400;
	int64_t const doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
	int64_t const doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + doe - 719468;
}

static Civil civil_from_days(int64_t z)
{
	z += 719468;
	int64_t const era = (z >= 0 ? z : z - 146096) / 146097;
	int64_t const doe = z - era * 146097;
	int64_t const yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
	int64_t const doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
	int64_t const mp = (5 * doy + 2) / 153;
	Civil c;
	c.day = int(doy - (153 * mp + 2) / 5 + 1);
	c.month = int(mp < 10 ? mp + 3 : mp - 9);
	c.year = yoe + era * 400 + (c.month <= 2);
	return c;
}

static int last_day(int64_t y, int m)
{
	int const n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	return m == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0) ? 29 : n[m - 1];
}

static int64_t const DAY = 86400000;

static string text_of(Model const& m, bool ms, bool zulu)
{
	int64_t const d = m.local >= 0 ? m.local / DAY : -((-m.local + DAY - 1) / DAY);
	int64_t const r = m.local - d * DAY;
	auto const c = civil_from_days(d);
	string s = format_string("%04d-%02d-%02dT%02d:%02d:%02d", int(c.year), c.month, c.day, int(r / 3600000), int(r / 60000 % 60), int(r / 1000 % 60));
	if (ms) s += format_string(".%03d", int(r % 1000));
	if (zulu && m.offset == 0) return s + "Z";
	return s + format_string("%c%02d:%02d", m.offset < 0 ? '-' : '+', abs(m.offset) / 60, abs(m.offset) % 60);
}

static dcp::UTCOffset make_offset(int minutes)
{
	return dcp::UTCOffset(minutes / 60, minutes % 60);
}

static int draw_offset(Choices& c)
{
	// those in use, and any other
	static vector<int> const used = {0, 60, 120, -300, -480, 330, 345, 570, -210, -150, 525, 630, 720, 765, 780, 840, -660, -720, -570, 765, -30, -44, -59, 30, 1, -1};
	if (c.chance(1, 4)) return c.range(-12 * 60, 14 * 60);
	return c.pick(used);
}

static int64_t draw_local(Choices& c)
{
	int const y = c.chance(1, 8) ? c.range(1971, 2400) : c.range(1999, 2040);
	int m = c.range(1, 12), d = c.range(1, 28);
	int h = c.range(0, 23), mi = c.range(0, 59), s = c.range(0, 59);
	if (c.choose(3) == 2) { d = last_day(y, m); }
	if (c.choose(4) == 3) { h = 23; mi = 59; s = c.choose(2) ? 59 : 0; }
	if (c.choose(4) == 3) { h = mi = s = 0; }
	if (c.choose(6) == 5) { m = c.choose(2) ? 12 : 2; d = last_day(y, m); }
	return days_from_civil(y, m, d) * DAY + h * 3600000ll + mi * 60000ll + s * 1000ll;
}

static void set_zone(int offset)
{
	// POSIX: the sign is that of what to add to get UTC
	auto z = format_string("SIM%c%02d:%02d", offset < 0 ? '+' : '-', abs(offset) / 60, abs(offset) % 60);
	setenv("TZ", z.c_str(), 1);
	tzset();
}

// a zone with summer time from 02:00 on 1st March to 03:00 on 27th October; what is to be added to UTC at the instant
static int set_summer_zone(int offset, int64_t utc)
{
	auto z = format_string("SIM%c%02d:%02dSUM,J60/2,J300/3", offset < 0 ? '+' : '-', abs(offset) / 60, abs(offset) % 60);
	setenv("TZ", z.c_str(), 1);
	tzset();
	int64_t const local = utc + offset * 60000ll;
	auto const y = civil_from_days(local / DAY).year;
	int64_t const from = days_from_civil(y, 3, 1) * DAY + 2 * 3600000, to = days_from_civil(y, 10, 27) * DAY + 2 * 3600000;
	return local >= from && local < to ? offset + 60 : offset;
}

static string fields(dcp::LocalTime const& t)
{
	return format_string("%04d-%02d-%02dT%02d:%02d:%02d.%03d", t.year(), t.month(), t.day(), t.hour(), t.minute(), t.second(), t.millisecond());
}

static void check(Ctx& ctx, Stamp const& s, string const& what)
{
	auto const want = text_of(s.m, true, false);
	auto const got = fields(s.t);
	if (got != want.substr(0, 23)) {
		ctx.violate("wrong date and time", "after %s: %s, expected %s", what.c_str(), got.c_str(), want.c_str());
		return;
	}
	auto const text = s.t.as_string(true, true);
	if (text != want) {
		ctx.violate("wrong text", "after %s: %s, expected %s", what.c_str(), text.c_str(), want.c_str());
	}
	std::ostringstream stream;
	stream << s.t;
	string const parts[] = {s.t.date(), s.t.time_of_day(true, true), s.t.time_of_day(true, false), s.t.time_of_day(false, false), s.t.as_string(false, false), s.t.as_string(true, false), s.t.as_string(false, true), stream.str()};
	string const wants[] = {want.substr(0, 10), want.substr(11, 12), want.substr(11, 8), want.substr(11, 5), want.substr(0, 19), want.substr(0, 23), want.substr(0, 19) + want.substr(23), want.substr(0, 19) + want.substr(23)};
	for (int i = 0; i < 8; ++i) {
		if (parts[i] != wants[i]) ctx.violate("wrong text", "after %s: %s, expected %s", what.c_str(), parts[i].c_str(), wants[i].c_str());
	}
	if (s.m.offset == 0 && s.t.as_time_t() != s.m.local / 1000) {
		ctx.violate("wrong count of seconds", "after %s: %lld, expected %lld", what.c_str(), (long long)(s.t.as_time_t()), (long long)(s.m.local / 1000));
	}
}

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	vector<Stamp> stamps;
	int64_t now = draw_local(c);    // of the simulated clock, in ms
	if (now > 80000 * DAY) now = 80000 * DAY;
	if (now < 2 * DAY) now = 2 * DAY;
	start_clock(now * 1000000);
	int zone = 0;
	put_dir("/sim/store");
	int stored = 0;
	int const steps = c.range(2, 14);
	for (int step = 0; step < steps && !ctx.violated; ++step) {
		int const op = int(c.choose(16));
		string what;
		if (stamps.empty() || op <= 5) {
			int const how = int(c.choose(7));
			Model m;
			try {
				switch (how) {
				case 0: {
					m.local = draw_local(c) + (c.choose(2) ? c.choose(1000) : c.choose(10) * 100);
					m.offset = draw_offset(c);
					auto text = text_of(m, c.choose(2) || m.local % 1000, c.choose(2));
					if (text[19] == '.') {
						// fewer digits where that makes no difference, or more, which are cut off
						string fraction = text.substr(20, 3);
						while (fraction.size() > 1 && fraction.back() == '0' && c.choose(2)) fraction.pop_back();
						if (fraction.size() == 3 && c.choose(4) == 3) fraction += std::to_string(c.choose(100000));
						text = text.substr(0, 20) + fraction + text.substr(23);
					}
					what = "parse " + text;
					stamps.push_back(Stamp(dcp::LocalTime(text), m));
					break;
				}
				case 1: {
					// the same instant as an earlier one, or nearly, in another zone
					m.offset = draw_offset(c);
					int64_t utc = stamps.empty() ? draw_local(c) : stamps[c.choose(uint32_t(stamps.size()))].m.utc();
					static vector<int64_t> const near = {0, 0, 1, -1, 1000, -1000, 60000, -60000, 3600000, -3600000, DAY, -DAY};
					utc += c.pick(near);
					m.local = utc + m.offset * 60000ll;
					auto const text = text_of(m, true, false);
					what = "parse " + text;
					stamps.push_back(Stamp(dcp::LocalTime(text), m));
					break;
				}
				case 2: {
					m.local = draw_local(c) + c.choose(1000);
					m.offset = draw_offset(c);
					boost::posix_time::ptime p(boost::gregorian::date(1970, 1, 1), boost::posix_time::milliseconds(m.local));
					what = "make " + text_of(m, true, false);
					stamps.push_back(Stamp(dcp::LocalTime(p, make_offset(m.offset)), m));
					break;
				}
				case 3: case 4: {
					// the clock runs or jumps, the zone may change
					now += c.choose(2) ? int64_t(c.choose(100000)) : (int64_t(c.choose(2000000)) - 1000000) * 1000;
					if (now < 2 * DAY) now = 2 * DAY;
					if (now > 80000 * DAY) now = 80000 * DAY;
					if (c.choose(2)) zone = draw_offset(c);
					set_zone(zone);
					m.offset = zone;
					if (c.choose(3) == 2 && zone <= 12 * 60) {
						// summer time; often just about when it begins or ends
						if (c.choose(2)) {
							auto const y = civil_from_days(now / DAY).year;
							now = days_from_civil(y, c.choose(2) ? 3 : 10, 1) * DAY + (c.choose(2) ? 0 : 26 * DAY) + 2 * 3600000 - zone * 60000ll + int64_t(c.choose(8)) * 1800000 - 2 * 3600000 + c.choose(3) * 999;
						}
						m.offset = set_summer_zone(zone, now - now % 1000);
					}
					int64_t const ns = now * 1000000;
					clock_source = [ns]() { return ns; };
					m.local = now - now % 1000 + m.offset * 60000ll;
					what = "now in " + string(getenv("TZ"));
					stamps.push_back(Stamp(dcp::LocalTime(), m));
					break;
				}
				case 5: {
					int64_t l = draw_local(c);
					if (c.choose(2)) {
						if (c.choose(6) == 5) {
							// the first and last years which two digits can tell
							static vector<int> const ends = {1970, 1971, 1999, 2000, 2049, 2050, 2068, 2069};
							auto const d = civil_from_days(l / DAY);
							l = days_from_civil(c.pick(ends), d.month, std::min(d.day, 28)) * DAY + l % DAY;
							if (l < 2 * DAY) l = 2 * DAY;
						}
						auto const t = text_of(Model{l, 0}, false, false);
						auto const y = civil_from_days(l / DAY).year;
						auto a = t.substr(0, 4) + t.substr(5, 2) + t.substr(8, 2) + t.substr(11, 2) + t.substr(14, 2) + t.substr(17, 2);
						bool const two = y >= 1970 && y < 2070 && c.choose(2);
						if (two) a = a.substr(2);
						what = "certificate time " + a;
						m.local = l;
						stamps.push_back(Stamp(two ? dcp::LocalTime::from_asn1_utc_time(a + "Z") : dcp::LocalTime::from_asn1_generalized_time(a + "Z"), m));
					} else {
						l -= l % 60000;
						m.local = l;
						m.offset = draw_offset(c);
						auto const d = civil_from_days(l / DAY);
						what = "make " + text_of(m, false, false);
						stamps.push_back(Stamp(dcp::LocalTime(int(d.year), d.month, d.day, int(l / 3600000 % 24), int(l / 60000 % 60), make_offset(m.offset)), m));
					}
					break;
				}
				case 6: {
					m.local = draw_local(c);
					if (c.choose(2)) zone = draw_offset(c);
					set_zone(zone);
					int64_t const ns = now * 1000000;
					clock_source = [ns]() { return ns; };
					m.offset = zone;
					struct tm t;
					memset(&t, 0, sizeof(t));
					auto const d = civil_from_days(m.local / DAY);
					t.tm_year = int(d.year - 1900); t.tm_mon = d.month - 1; t.tm_mday = d.day;
					t.tm_hour = int(m.local / 3600000 % 24); t.tm_min = int(m.local / 60000 % 60); t.tm_sec = int(m.local / 1000 % 60);
					what = "tm " + text_of(m, false, false);
					if (c.choose(2)) {
						what = "local time " + text_of(m, false, false);
						stamps.push_back(Stamp(dcp::LocalTime(boost::posix_time::ptime(boost::gregorian::date(1970, 1, 1), boost::posix_time::milliseconds(m.local))), m));
					} else {
						stamps.push_back(Stamp(dcp::LocalTime(t), m));
					}
					break;
				}
				}
			} catch (std::exception& e) {
				ctx.violate("timestamp refused", "%s: %s", what.c_str(), e.what());
				break;
			}
			ctx.count("made");
			check(ctx, stamps.back(), what);
			ctx.sig(uint64_t(how) * 4096 + uint64_t(stamps.back().m.offset + 2000));
		} else {
			auto& s = stamps[c.choose(uint32_t(stamps.size()))];
			switch (op) {
			case 6: {
				int const n = c.choose(4) == 3 ? c.range(-4000, 4000) : c.range(-40, 40);
				if (s.m.local + n * DAY < 2 * DAY) break;
				what = format_string("adding %d days to %s", n, text_of(s.m, true, false).c_str());
				s.t.add_days(n);
				s.m.local += n * DAY;
				check(ctx, s, what);
				break;
			}
			case 7: {
				int const n = c.choose(4) == 3 ? c.range(-3000000, 3000000) : c.range(-2000, 2000);
				if (s.m.local + n * 60000ll < 2 * DAY) break;
				what = format_string("adding %d minutes to %s", n, text_of(s.m, true, false).c_str());
				s.t.add_minutes(n);
				s.m.local += n * 60000ll;
				check(ctx, s, what);
				break;
			}
			case 8: {
				int64_t const n = int64_t(c.word() % 20000000000ull) - 10000000000ll;
				int64_t const small = c.choose(2) ? n : n % 5000;
				if (s.m.local + small < 2 * DAY) break;
				what = format_string("adding %lld ms to %s", (long long)(small), text_of(s.m, true, false).c_str());
				s.t.add(boost::posix_time::milliseconds(small));
				s.m.local += small;
				check(ctx, s, what);
				break;
			}
			case 9: {
				int const n = c.range(-30, 30);
				int64_t const d = s.m.local / DAY, r = s.m.local % DAY;
				auto const from = civil_from_days(d);
				int64_t const months = from.year * 12 + (from.month - 1) + n;
				int64_t const y = months / 12;
				int const mo = int(months % 12) + 1;
				if (y < 1971) break;
				what = format_string("adding %d months to %s", n, text_of(s.m, true, false).c_str());
				s.t.add_months(n);
				int const last = last_day(y, mo);
				// from the last day of a month both the same day and the last day will do
				int day = std::min(from.day, last);
				if (from.day == last_day(from.year, from.month) && s.t.day() == last) day = last;
				s.m.local = days_from_civil(y, mo, day) * DAY + r;
				check(ctx, s, what);
				break;
			}
			case 10: {
				s.m.offset = draw_offset(c);
				s.t.set_offset(make_offset(s.m.offset));
				what = "changing the offset";
				check(ctx, s, what);
				break;
			}
			case 14: {
				auto const d = civil_from_days(s.m.local / DAY);
				int64_t y = d.year;
				int month = d.month, day = d.day;
				switch (c.choose(3)) {
				case 0: y = c.range(1971, 2400); if (day == 29 && month == 2) day = 28, s.t.set_day(28); s.t.set_year(int(y)); what = "setting the year"; break;
				case 1: month = c.range(1, 12); if (day > 28) day = 28, s.t.set_day(28); s.t.set_month(month); what = "setting the month"; break;
				default: day = c.range(1, last_day(y, month)); s.t.set_day(day); what = "setting the day"; break;
				}
				s.m.local = days_from_civil(y, month, day) * DAY + s.m.local % DAY;
				check(ctx, s, what);
				break;
			}
			case 13: {
				// stored text which was cut off or damaged
				auto const whole = s.t.as_string(c.choose(2), true);
				string text = whole;
				bool refused = true;
				size_t const zone_at = whole.size() - 6;
				if (c.chance(1, 3)) {
					// a zone which is nowhere in the world, or just is
					bool const west = c.choose(2);
					int const hour = c.pick(vector<int>{11, 12, 13, 14, 15, 24, 99});
					int const minute = c.pick(vector<int>{0, 59, 60, 75, 99});
					text = whole.substr(0, zone_at) + format_string("%c%02d:%02d", west ? '-' : '+', hour, minute);
					refused = hour > (west ? 12 : 14) || minute > 59;
				} else if (c.choose(2)) {
					size_t const n = c.choose(uint32_t(whole.size()));
					text = whole.substr(0, n);
					// what is left may be a whole timestamp
					refused = n < 19 || n == 20 || n > zone_at;
				} else {
					static vector<size_t> const marks = {4, 7, 10, 13, 16};
					size_t const at = c.choose(3) ? c.pick(marks) : c.choose(3) ? c.choose(19) : zone_at + c.choose(3);
					text[at] = c.choose(2) ? 'x' : ' ';
				}
				what = "reading damaged \"" + text + "\"";
				bool raised = false;
				try {
					dcp::LocalTime t(text);
				} catch (std::exception&) {
					raised = true;
				}
				if (raised != refused) ctx.violate(raised ? "timestamp refused" : "damaged timestamp accepted", "%s", what.c_str());
				ctx.count("fault.damaged text");
				break;
			}
			case 11: case 12: {
				// store, restart, read back
				bool const ms = c.choose(2);
				auto const path = format_string("/sim/store/%d", stored++);
				put_file(path, s.t.as_string(ms, true));
				restore(snapshot());
				string text;
				get_file(path, text);
				what = "reading back " + text;
				try {
					Model m = s.m;
					if (!ms) m.local -= m.local % 1000;
					Stamp r(dcp::LocalTime(text), m);
					check(ctx, r, what);
					if (!ctx.violated && ms && (!(r.t == s.t) || r.t != s.t)) ctx.violate("not equal after reading back", "%s", text.c_str());
					s = r;
				} catch (std::exception& e) {
					ctx.violate("timestamp refused", "%s: %s", what.c_str(), e.what());
				}
				ctx.count("stored and read back");
				break;
			}
			default: {
				// any stamp made from a time without zone is at UTC
				auto const t = text_of(s.m, true, false).substr(0, 19);
				Stamp r(dcp::LocalTime(t), Model{s.m.local - s.m.local % 1000, 0});
				check(ctx, r, "parse " + t);
				if (stamps.size() < 8) stamps.push_back(r);
				break;
			}
			}
			ctx.sig(uint64_t(op));
		}
		ctx.note("%d: %s", step, what.c_str());
		ctx.stats.sample += what + "; ";
	}
	// every pair compares as the instants do
	for (size_t i = 0; i < stamps.size() && !ctx.violated; ++i) {
		for (size_t j = 0; j < stamps.size() && !ctx.violated; ++j) {
			auto const& a = stamps[i];
			auto const& b = stamps[j];
			int64_t const x = a.m.utc(), y = b.m.utc();
			bool const got[] = {a.t < b.t, a.t <= b.t, a.t == b.t, a.t != b.t, a.t >= b.t, a.t > b.t};
			bool const want[] = {x < y, x <= y, x == y, x != y, x >= y, x > y};
			char const* names[] = {"<", "<=", "==", "!=", ">=", ">"};
			for (int k = 0; k < 6; ++k) {
				if (got[k] != want[k]) {
					ctx.violate("compare wrongly", "%s %s %s is %s", text_of(a.m, true, false).c_str(), names[k], text_of(b.m, true, false).c_str(), got[k] ? "true" : "false");
					break;
				}
			}
			auto const p = make_offset(a.m.offset), q = make_offset(b.m.offset);
			if ((p == q) != (a.m.offset == b.m.offset) || (p != q) != (a.m.offset != b.m.offset)) ctx.violate("offsets compare wrongly", "%d and %d minutes", a.m.offset, b.m.offset);
			ctx.count("pairs compared");
			ctx.sig(x < y ? 1 : x == y ? 2 : 3);
		}
	}
	ctx.stats.nontrivial = stamps.size() >= 2;
}

SIM_PROPERTY(C02, nullptr, run, 256, "A run is a history of 2-14 steps which take timestamps (from the simulated clock in a drawn zone, from text, from fields, from certificate times), shift them, change their offset, store them as text and read them back, whole or cut off or damaged; each is compared with a reference calendar after each step and all pairs are compared at the end. Non-trivial: at least two timestamps. Distinct: by the sequence of steps, offsets and order of the instants.")
