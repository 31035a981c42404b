// D12: a cancelled operation leaves nothing wrong behind
#include "b_package.h"
#include "equality_options.h"
#include "util.h"
#include "verify.h"
#include <set>

using namespace sim;
using std::shared_ptr;
using std::string;
using std::vector;

namespace {

// what the callbacks raise: like boost::thread_interrupted, or like any other error
struct Stop { int number; };
struct StopError : public std::runtime_error {
	explicit StopError(int n) : std::runtime_error("stopped"), number(n) {}
	int number;
};

struct Outcome {
	bool stopped = false;
	bool raised = false;
	int number = -1;
	string result;
};

}

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	start_clock(1830000000ll * 1000000000ll);
	static char const* names[] = {"digest of a file", "digests of assets", "compare", "verify"};
	int const kind = int(c.choose(4));
	PackageOptions o;
	o.max_cpls = 2;
	o.max_reels = 2;
	string const big = "/sim/lib/big";
	string content;
	vector<string> dirs;
	put_dir("/sim/lib");
	if (kind == 0) {
		content = c.bytes(c.choose(2) ? c.choose(400000) : c.choose(70000));
		put_file(big, content);
	} else {
		for (int i = 0; i < (kind == 2 ? 2 : 1); ++i) {
			o.prefix = format_string("p%d", kind == 2 && c.choose(2) ? 0 : i);
			auto const dir = format_string("/sim/lib/dcp%d", i);
			make_package(ctx, dir, o).dcp->write_xml();
			dirs.push_back(dir);
		}
	}
	// objects which live through all the tries
	vector<shared_ptr<dcp::DCP>> dcps;
	vector<shared_ptr<dcp::Asset>> assets;
	if (kind == 1 || kind == 2) {
		try {
			for (auto const& i: dirs) {
				dcps.push_back(std::make_shared<dcp::DCP>(boost::filesystem::path(i)));
				dcps.back()->read();
			}
		} catch (std::exception& e) {
			ctx.violate("raised on a healthy disk", "reading raised: %s", e.what());
			return;
		}
		if (kind == 1) {
			for (auto i: dcps[0]->assets()) {
				// what has no digest of its own yet
				i->unset_hash();
				assets.push_back(i);
			}
		}
	}
	bool const plain = c.choose(2);
	int calls = 0, stop_at = -1;
	auto callback = [&]() {
		if (calls++ == stop_at) {
			if (plain) throw Stop{stop_at};
			throw StopError(stop_at);
		}
	};
	auto perform = [&](int stop) {
		Outcome r;
		calls = 0;
		stop_at = stop;
		try {
			switch (kind) {
			case 0:
				r.result = dcp::make_digest(boost::filesystem::path(big), [&](int64_t, int64_t) { callback(); });
				break;
			case 1:
				for (auto i: assets) r.result += i->hash([&](int64_t, int64_t) { callback(); }) + "\n";
				break;
			case 2:
			{
				dcp::EqualityOptions options;
				options.keep_going = true;
				bool const same = dcps[0]->equals(*dcps[1], options, [&](dcp::NoteType t, string s) { r.result += format_string("%d ", int(t)) + s + "\n"; callback(); });
				r.result += same ? "same" : "different";
				break;
			}
			case 3:
			{
				auto const v = dcp::verify({dirs[0]}, {}, [&](string, boost::optional<boost::filesystem::path>) { callback(); }, [&](float) { callback(); }, {}, boost::filesystem::path(b_repository() + "/xsd"));
				for (auto const& i: v.notes) r.result += dcp::note_to_string(i) + "\n";
				break;
			}
			}
		} catch (Stop& s) {
			r.stopped = true;
			r.number = s.number;
		} catch (StopError& s) {
			r.stopped = true;
			r.number = s.number;
		} catch (std::exception& e) {
			r.raised = true;
			r.result = e.what();
		}
		return r;
	};
	auto const tree_before = tree("/sim");
	auto after = [&](Window const& w, string const& what) {
		if (!w.mutations.empty()) ctx.violate("the disk was changed", "%s: %s", what.c_str(), w.mutations[0].c_str());
		if (tree("/sim") != tree_before) ctx.violate("the disk was changed", "%s", what.c_str());
		if (!open_handles().empty()) ctx.violate("file left open", "%s: %s", what.c_str(), open_handles()[0].path.c_str());
	};
	auto forget = [&]() {
		for (auto i: assets) i->unset_hash();
	};

	// undisturbed
	Window dry;
	Outcome want;
	{
		WindowScope scope(dry);
		want = perform(-1);
	}
	int const total = calls;
	if (want.raised) {
		ctx.violate("raised on a healthy disk", "%s raised although nothing failed: %s", names[kind], want.result.c_str());
		return;
	}
	if (kind == 0 && want.result != b_digest(content)) ctx.violate("wrong digest", "of %zu bytes", content.size());
	after(dry, names[kind]);
	forget();
	ctx.sig(uint64_t(kind));
	ctx.sig(uint64_t(total));
	if (!total) return;
	int const tries = c.range(1, kind == 3 ? 3 : 6);
	for (int i = 0; i < tries && !ctx.violated; ++i) {
		int const stop = int(c.choose(uint32_t(total)));
		if (c.choose(2)) forget();
		Window w;
		if (c.choose(4) == 3) {
			FaultMenu menu;
			w.faults = draw_faults(ctx, dry.ops, menu);
		}
		Outcome got;
		{
			WindowScope scope(w);
			got = perform(stop);
		}
		count_faults(ctx, w);
		auto const what = format_string("%s, stopped at call %d of %d; ", names[kind], stop, total) + describe_fired(w);
		ctx.note("%s -> %s", what.c_str(), got.stopped ? "stopped" : got.raised ? "raised" : "returned");
		ctx.sig(uint64_t(stop) * 2 + got.stopped);
		ctx.stats.sample = what;
		if (calls > stop) {
			ctx.count("fault.cancelled");
			ctx.stats.nontrivial = true;
			if (!got.stopped) ctx.violate("cancelling was not passed on", "%s: %s", what.c_str(), got.raised ? got.result.c_str() : "returned");
			else if (got.number != stop || calls != stop + 1) ctx.violate("went on after it was cancelled", "%s: %d calls", what.c_str(), calls);
		} else if (w.fired.empty() && kind != 1) {
			// digests which are known already are not worked out again
			ctx.violate("fewer calls than before", "%s: %d calls", what.c_str(), calls);
		}
		after(w, what);
	}
	if (ctx.violated) return;
	// the same again, with the same objects
	Window w;
	Outcome again;
	{
		WindowScope scope(w);
		again = perform(-1);
	}
	if (again.raised || again.result != want.result) ctx.violate("another result after cancelling", "%s: %s instead of %s", names[kind], again.result.c_str(), want.result.c_str());
	after(w, names[kind]);
}

SIM_PROPERTY(D12, package_setup, run, 16, "A run digests a file or the assets of a package, compares two packages or verifies one, once undisturbed to count the calls of its callbacks, then 1-6 times with a callback which raises (something which is or is not a std::exception) at a drawn call, a quarter of them with I/O faults besides, and in the end undisturbed again with the same objects. Non-trivial: a callback raised. Distinct: by operation, number of calls, and calls at which it was cancelled.")
