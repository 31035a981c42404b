// D07: text and list loading and file digests are exact or fail
#include "b_common.h"
#include "exceptions.h"
#include "language_tag.h"
#include "rating.h"
#include "util.h"
#include <cerrno>

using namespace sim;
using std::pair;
using std::string;
using std::vector;

static size_t draw_size(Ctx& ctx)
{
	auto& c = ctx.c;
	switch (c.choose(6)) {
	case 0: return c.choose(4);
	case 1: return c.choose(300);
	case 2: return 4096 * size_t(c.range(1, 3)) + c.choose(5) - 2;
	case 3: return 65536 * size_t(c.range(1, 3)) + c.choose(5) - 2;
	case 4: return c.choose(20000);
	default: return c.choose(200000);
	}
}

static string draw_line(Ctx& ctx)
{
	auto& c = ctx.c;
	string s = "a";
	auto const n = c.choose(8) == 7 ? c.choose(300) : c.choose(30);
	PRNG r(c.choose(1 << 16));
	for (uint32_t i = 0; i < n; ++i) s += "abcdefghijklmnopqrstuvwxyz0123456789 -/.,()"[r.below(43)];
	s += "z";
	return s;
}

struct System {
	string agency, name, country, code;
	vector<string> ratings;
};

static string show_system(System const& s)
{
	string r = s.agency + "|" + s.name + "|" + s.country + "|" + s.code;
	for (auto const& i: s.ratings) r += "|" + i;
	return r;
}

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	put_dir("/sim/d");
	int const kind = int(c.choose(4));
	string const path = "/sim/d/file";
	string content;
	vector<pair<string, string>> tags;
	vector<System> systems;
	uint64_t max_length = 1048576;
	static char const* names[] = {"language", "variant", "region", "script", "extlang", "dcnc"};
	int list = 0;
	bool possible = true;

	if (kind <= 1) {
		content = c.bytes(draw_size(ctx));
		if (kind == 0) {
			switch (c.choose(4)) {
			case 0: break;
			case 1: max_length = content.size(); break;
			case 2: max_length = content.size() + c.choose(3); break;
			case 3: if (!content.empty()) max_length = content.size() - 1 - c.choose(uint32_t(std::min<size_t>(content.size(), 3))); break;
			}
			if (max_length < content.size()) possible = false;
		}
		if (c.choose(8) == 7) {
			// nothing there
			possible = false;
		} else {
			put_file(path, content);
		}
	} else if (kind == 2) {
		list = int(c.choose(6));
		auto const n = c.choose(3) ? c.choose(200) : c.choose(5);
		for (uint32_t i = 0; i < n; ++i) {
			tags.push_back({draw_line(ctx), draw_line(ctx)});
			content += tags.back().first + "\n" + tags.back().second + "\n";
		}
		if (!content.empty() && c.choose(3) == 2) content.pop_back();
		for (int i = 0; i < 6; ++i) put_file(string("/sim/d/") + names[i], i == list ? content : string());
	} else {
		auto const n = 1 + c.choose(30);
		for (uint32_t i = 0; i < n; ++i) {
			System s;
			s.agency = "http://" + draw_line(ctx);
			s.name = draw_line(ctx);
			s.country = draw_line(ctx);
			s.code = draw_line(ctx);
			content += s.agency + "\n" + s.name + "\n" + s.country + "\n" + s.code + "\n";
			for (auto k = c.choose(6); k > 0; --k) {
				s.ratings.push_back(draw_line(ctx));
				content += s.ratings.back() + "\n";
			}
			systems.push_back(s);
		}
		if (c.choose(3) == 2) content.pop_back();
		put_file(path, content);
	}

	// a disk which transfers little at a time
	static std::vector<size_t> const transfers = {0, 0, 0, 4096, 1000, 300};
	auto const transfer = c.pick(transfers);
	set_max_transfer(transfer);
	auto const before = snapshot();
	static char const* what_kind[] = {"reading a file into a string", "digest of a file", "loading tags", "loading ratings"};

	auto go = [&](Window& w) {
		string got;
		bool raised = false;
		int64_t last = -1;
		bool backwards = false, past = false;
		vector<pair<string, string>> got_tags;
		vector<System> got_systems;
		auto const tag_type = dcp::LanguageTag::SubtagType(0);
		(void) tag_type;
		size_t const had_systems = dcp::rating_systems().size();
		auto const tag_list = [&]() {
			vector<pair<string, string>> r;
			if (list == 5) {
				r = dcp::dcnc_tags();
			} else {
				static dcp::LanguageTag::SubtagType const types[] = {
					dcp::LanguageTag::SubtagType::LANGUAGE, dcp::LanguageTag::SubtagType::VARIANT, dcp::LanguageTag::SubtagType::REGION,
					dcp::LanguageTag::SubtagType::SCRIPT, dcp::LanguageTag::SubtagType::EXTLANG
				};
				for (auto const& i: dcp::LanguageTag::get_all(types[list])) r.push_back({i.subtag, i.description});
			}
			return r;
		};
		size_t const had_tags = kind == 2 ? tag_list().size() : 0;
		string error;
		{
			WindowScope scope(w);
			try {
				switch (kind) {
				case 0:
					got = max_length == 1048576 ? dcp::file_to_string(path) : dcp::file_to_string(path, max_length);
					break;
				case 1:
					got = dcp::make_digest(boost::filesystem::path(path), [&](int64_t done, int64_t size) {
						if (done < last) backwards = true;
						if (done < 0 || done > size || size != int64_t(content.size())) past = true;
						last = done;
					});
					break;
				case 2: dcp::load_language_tag_lists("/sim/d"); break;
				case 3: dcp::load_rating_list(path); break;
				}
			} catch (std::exception& e) {
				raised = true;
				error = e.what();
			}
		}
		auto const fired = describe_fired(w);
		ctx.note("%s of %zu bytes with %s -> %s %s", what_kind[kind], content.size(), fired.c_str(), raised ? "raised" : "returned", error.c_str());
		bool stat_failed = false;
		for (auto const& i: w.fired) if (size_t(i.first) < w.ops.size() && w.ops[size_t(i.first)].op == Op::STAT) stat_failed = true;
		if (raised) {
			if (possible && w.fired.empty()) ctx.violate("raised on a healthy disk", "%s of %zu bytes raised although nothing failed: %s", what_kind[kind], content.size(), error.c_str());
		} else {
			switch (kind) {
			case 0:
				if (!possible) {
					ctx.violate("maximum size or missing file ignored", "reading %zu bytes with a maximum of %llu gave %s", content.size(), (unsigned long long) max_length, show(got).c_str());
				} else if (got != content) {
					ctx.violate("part of the file passed as the whole", "reading %s gave %s; %s", show(content).c_str(), show(got).c_str(), fired.c_str());
				}
				break;
			case 1:
				if (!possible) {
					ctx.violate("digest of a missing file", "digest of a missing file gave %s", got.c_str());
				} else if (got != b_digest(content)) {
					ctx.violate("wrong digest", "digest of %s is %s, not %s; %s", show(content).c_str(), b_digest(content).c_str(), got.c_str(), fired.c_str());
				}
				break;
			case 2: {
				auto now = tag_list();
				vector<pair<string, string>> added(now.begin() + long(std::min(had_tags, now.size())), now.end());
				if (added != tags) {
					size_t i = 0;
					while (i < added.size() && i < tags.size() && added[i] == tags[i]) ++i;
					ctx.violate("list loaded in part", "the %s list has %zu entries but %zu were loaded, first difference at %zu; %s", names[list], tags.size(), added.size(), i, fired.c_str());
				}
				break;
			}
			case 3: {
				auto now = dcp::rating_systems();
				vector<string> added, expected;
				for (size_t i = had_systems; i < now.size(); ++i) {
					System s{now[i].agency, now[i].name, now[i].country_and_region_names, now[i].country_code, {}};
					for (auto const& r: now[i].ratings) {
						s.ratings.push_back(r.label);
						if (r.agency != s.agency) s.ratings.push_back("(agency " + r.agency + ")");
					}
					added.push_back(show_system(s));
				}
				for (auto const& s: systems) expected.push_back(show_system(s));
				if (added != expected) {
					size_t i = 0;
					while (i < added.size() && i < expected.size() && added[i] == expected[i]) ++i;
					ctx.violate("list loaded in part", "the file has %zu rating systems but %zu were loaded, first difference at %zu; %s", expected.size(), added.size(), i, fired.c_str());
				}
				break;
			}
			}
		}
		if (!stat_failed && (backwards || past)) {
			ctx.violate("digest progress", "progress of a digest of %zu bytes ran %s; %s", content.size(), backwards ? "backwards" : "past the end", fired.c_str());
		}
		if (open_handles().size() > 0) ctx.violate("file left open", "%s left %zu files open; %s", what_kind[kind], open_handles().size(), fired.c_str());
		return raised;
	};

	Window dry;
	bool r = go(dry);
	ctx.sig(uint64_t(kind));
	ctx.sig(uint64_t(content.size() / 512));
	ctx.sig(uint64_t(possible));
	int const tries = c.range(1, 4);
	for (int i = 0; i < tries && !ctx.violated; ++i) {
		restore(before);
		Window w;
		FaultMenu menu;
		menu.storms = true;
		if (transfer) menu.max_faults = 6;
		w.faults = draw_faults(ctx, dry.ops, menu);
		// glibc's fgets keeps what it has after EAGAIN, which regular files do not give
		for (auto& f: w.faults) if (f.kind == FaultKind::ERRNO && f.err == EAGAIN) f.err = EIO;
		r = go(w);
		count_faults(ctx, w);
		ctx.sig(uint64_t(r));
		for (auto const& f: w.fired) ctx.sig(uint64_t(f.first));
		ctx.stats.sample = format_string("%s, %zu bytes: %s-> %s", what_kind[kind], content.size(), describe_fired(w).c_str(), r ? "raised" : "returned");
	}
}

SIM_PROPERTY(D07, b_setup, run, 32, "A run draws a file (bytes of a size biased to buffer boundaries, a list of language tags, or a list of ratings), has it read into a string, digested or loaded once on a healthy disk to number its operations, and then 1-4 times with 1-3 faults (1-6 on a disk which transfers little at a time) placed on those operations. Non-trivial: at least one fault took effect. Distinct: by kind, size class, positions of the faults and outcomes.")
