// D11: a verification report is complete
#include "b_package.h"
#include "html_formatter.h"
#include "text_formatter.h"
#include "verify.h"
#include "verify_report.h"
#include "reel.h"
#include "reel_picture_asset.h"
#include "reel_sound_asset.h"
#include "reel_text_asset.h"
#include <libxml/HTMLparser.h>
#include <algorithm>
#include <map>

using namespace sim;
using std::map;
using std::shared_ptr;
using std::string;
using std::unique_ptr;
using std::vector;

static size_t occurrences(string const& text, string const& what)
{
	size_t n = 0;
	for (size_t i = text.find(what); i != string::npos; i = text.find(what, i + what.size())) ++n;
	return n;
}

// one space instead of many, none at the ends
static string squeeze(string const& s)
{
	string r;
	for (auto i: s) {
		if (i == ' ' || i == '\n' || i == '\t' || i == '\r') {
			if (!r.empty() && r.back() != ' ') r += ' ';
		} else {
			r += i;
		}
	}
	if (!r.empty() && r.back() == ' ') r.pop_back();
	return r;
}

// headings and items of a report as someone reading it sees them
static vector<string> read_text(string const& report)
{
	vector<string> r;
	string line;
	for (auto i: report + "\n") {
		if (i != '\n') {
			line += i;
			continue;
		}
		line = squeeze(line);
		if (!line.empty()) r.push_back(line);
		line.clear();
	}
	return r;
}

static void gather(xmlNode* node, vector<string>& r)
{
	for (auto n = node; n; n = n->next) {
		if (n->type != XML_ELEMENT_NODE) continue;
		string const name = reinterpret_cast<char const*>(n->name);
		if (name == "li" || name == "h1" || name == "h2") {
			auto c = xmlNodeGetContent(n);
			r.push_back(squeeze((name == "li" ? "* " : "") + string(reinterpret_cast<char const*>(c))));
			xmlFree(c);
		} else {
			gather(n->children, r);
		}
	}
}

static vector<string> read_html(string const& report)
{
	vector<string> r;
	auto doc = htmlReadMemory(report.data(), int(report.size()), "report", "UTF-8", HTML_PARSE_NOERROR | HTML_PARSE_NOWARNING | HTML_PARSE_NONET | HTML_PARSE_RECOVER);
	if (!doc) return r;
	gather(xmlDocGetRootElement(doc), r);
	xmlFreeDoc(doc);
	return r;
}

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	start_clock(1830000000ll * 1000000000ll);
	bool const html = c.choose(2);
	int const packages = c.range(1, 2);
	PackageOptions o;
	o.max_cpls = 2;
	o.max_reels = 2;
	vector<boost::filesystem::path> dirs;
	for (int i = 0; i < packages; ++i) {
		o.prefix = format_string("p%d", i);
		auto const dir = format_string("/sim/lib/dcp%d", i);
		auto p = make_package(ctx, dir, o);
		p.dcp->write_xml();
		dirs.push_back(dir);
	}
	// damage, so that there is something to report
	vector<string> files;
	for (auto const& i: tree("/sim/lib")) if (i.second[0] == 'f') files.push_back(i.first);
	for (auto k = c.choose(3); k; --k) {
		auto const path = c.pick(files);
		string content;
		get_file(path, content);
		switch (c.choose(3)) {
		case 0: remove_tree(path); break;
		case 1: if (!content.empty()) { content[c.choose(uint32_t(content.size()))] ^= 1; put_file(path, content); } break;
		case 2: put_file(path, content.substr(0, content.size() / 2)); break;
		}
	}
	// one result for all, or one for each
	vector<dcp::VerificationResult> results;
	vector<vector<boost::filesystem::path>> jobs;
	if (c.choose(2)) jobs.push_back(dirs); else for (auto const& i: dirs) jobs.push_back({i});
	try {
		for (auto const& j: jobs) results.push_back(dcp::verify(j, {}, [](string, boost::optional<boost::filesystem::path>) {}, [](float) {}, {}, boost::filesystem::path(b_repository() + "/xsd")));
	} catch (std::exception&) {
		// what cannot be verified cannot be reported
		return;
	}
	// further notes
	static vector<dcp::VerificationNote::Code> const codes = {
		dcp::VerificationNote::Code::MATCHING_CPL_HASHES, dcp::VerificationNote::Code::EMPTY_ASSET_PATH, dcp::VerificationNote::Code::MISSING_ASSETMAP, dcp::VerificationNote::Code::MISMATCHED_STANDARD
	};
	for (auto& r: results) {
		vector<string> ids = {""};
		for (auto d: r.dcps) for (auto i: d->cpls()) ids.push_back(i->id());
		for (auto k = c.choose(4) == 3 ? c.choose(150) : c.choose(4); k; --k) {
			dcp::VerificationNote n(c.pick(codes), boost::filesystem::path(format_string("/sim/lib/file%u", k)));
			auto const id = c.pick(ids);
			if (!id.empty()) n.set_cpl_id(id);
			r.notes.insert(r.notes.begin() + long(c.choose(uint32_t(r.notes.size() + 1))), n);
		}
	}

	string const path = "/sim/out/report";
	put_dir("/sim/out");
	if (c.choose(3) == 2) put_file(path, c.bytes(c.choose(20000)));
	auto const before = snapshot();
	string expect;
	bool known = false;

	auto go = [&](Window& w) {
		bool raised = false;
		string error;
		{
			WindowScope scope(w);
			try {
				unique_ptr<dcp::Formatter> f;
				if (html) {
					dcp::HTMLFormatter formatter(path);
					dcp::verify_report(results, formatter);
				} else {
					dcp::TextFormatter formatter(path);
					dcp::verify_report(results, formatter);
				}
			} catch (std::exception& e) {
				raised = true;
				error = e.what();
			}
		}
		auto const fired = describe_fired(w);
		ctx.note("report with %s -> %s %s", fired.c_str(), raised ? "raised" : "returned", error.c_str());
		if (raised) {
			if (w.fired.empty()) ctx.violate("raised on a healthy disk", "writing a report raised although nothing failed: %s", error.c_str());
		} else {
			string got;
			if (!get_file(path, got)) {
				ctx.violate("report missing", "writing a report returned but it is not there; %s", fired.c_str());
			} else if (!known) {
				expect = got;
				known = true;
			} else if (got != expect) {
				ctx.violate("incomplete report passed as written", "%zu bytes instead of %zu; %s", got.size(), expect.size(), fired.c_str());
			}
		}
		if (!open_handles().empty()) ctx.violate("file left open", "%s", fired.c_str());
		return raised;
	};

	Window dry;
	go(dry);
	if (ctx.violated) return;
	// it says all there is to say, in order
	vector<string> should = {"DCP verification report"};
	auto item = [&](string const& s) { should.push_back("* " + s); };
	auto details = [&](shared_ptr<dcp::ReelAsset> a) {
		item("UUID: " + a->id());
		item(format_string("Intrinsic duration: %lld", (long long) a->intrinsic_duration()));
		item(format_string("Entry point: %lld", (long long) a->entry_point().get_value_or(0)));
		item(format_string("Duration: %lld", (long long) a->duration().get_value_or(0)));
		if (a->annotation_text()) item("Annotation text: " + *a->annotation_text());
	};
	size_t notes = 0;
	for (auto const& r: results) {
		should.push_back(r.dcps.size() > 1 ? "DCPs" : "DCP");
		size_t elsewhere = 0;
		auto with = [&](string const& id) {
			for (auto const& n: r.notes) if (n.cpl_id().get_value_or("") == id) {
				item(dcp::note_to_string(n));
				++notes;
				if (id.empty()) ++elsewhere;
			}
		};
		for (auto d: r.dcps) for (auto i: d->cpls()) {
			if (i->annotation_text()) item(*i->annotation_text());
			item("CPL ID: " + i->id());
			int reel = 0;
			for (auto j: i->reels()) {
				item(format_string("Reel: %d", ++reel));
				if (auto a = j->main_picture()) {
					item("Main picture");
					details(a);
					item(format_string("Frame rate: %d", a->frame_rate().numerator));
					item(format_string("Screen aspect ratio: %dx%d", a->screen_aspect_ratio().numerator, a->screen_aspect_ratio().denominator));
				}
				if (auto a = j->main_sound()) {
					item("Main sound");
					details(a);
				}
				if (auto a = j->main_subtitle()) {
					item("Main subtitle");
					details(a);
					if (a->language()) item("Language: " + *a->language());
				}
			}
			with(i->id());
		}
		auto const at = should.size();
		with("");
		if (elsewhere) should.insert(should.begin() + long(at), "Report");
	}
	auto const says = html ? read_html(expect) : read_text(expect);
	vector<string> lines;
	for (auto const& i: should) {
		if (html) {
			lines.push_back(squeeze(i));
		} else {
			for (auto const& j: read_text(i)) lines.push_back(j);
		}
	}
	should = lines;
	for (size_t i = 0; i < std::max(should.size(), says.size()); ++i) {
		string const a = i < says.size() ? says[i] : "(end)", b = i < should.size() ? should[i] : "(end)";
		if (a != b) {
			ctx.violate("the report says something else", "item %zu: %s instead of %s", i, a.c_str(), b.c_str());
			break;
		}
	}
	static char const* classes[] = {"ok", "error", "bv21-error", "warning"};
	if (html) {
		map<string, size_t> kinds;
		for (auto const& r: results) for (auto const& n: r.notes) ++kinds[classes[n.type() == dcp::VerificationNote::Type::OK ? 0 : n.type() == dcp::VerificationNote::Type::ERROR ? 1 : n.type() == dcp::VerificationNote::Type::BV21_ERROR ? 2 : 3]];
		for (auto i: classes) if (occurrences(expect, format_string("<li class=\"%s\">", i)) != kinds[i]) ctx.violate("a note of another kind", "%zu items of kind %s instead of %zu", occurrences(expect, format_string("<li class=\"%s\">", i)), i, kinds[i]);
	}
	if (html) {
		if (expect.compare(0, 6, "<html>") != 0 || expect.size() < 14 || expect.compare(expect.size() - 14, 14, "</body></html>") != 0) ctx.violate("the report does not end", "%s", show(expect).c_str());
		if (occurrences(expect, "<ul>") != occurrences(expect, "</ul>")) ctx.violate("the report does not end", "lists which are not closed");
	}
	ctx.count("notes", notes);
	ctx.sig(html);
	ctx.sig(dry.ops.size());
	for (int i = c.range(1, 6); i && !ctx.violated; --i) {
		restore(before);
		set_disk_free(-1);
		Window w;
		FaultMenu menu;
		w.faults = draw_faults(ctx, dry.ops, menu);
		bool const r = go(w);
		count_faults(ctx, w);
		for (auto const& k: w.fired) { ctx.sig(uint64_t(k.first)); ctx.sig(uint64_t(k.second.kind)); }
		ctx.sig(uint64_t(r));
		ctx.stats.sample = format_string("%s report with %zu notes: %s -> %s", html ? "HTML" : "text", notes, describe_fired(w).c_str(), r ? "raised" : "returned");
	}
}

SIM_PROPERTY(D11, package_setup, run, 16, "A run makes one or two packages, damages up to two files, verifies them together or one by one, adds up to 150 further notes, and writes the report as text or HTML over nothing or over an older file, once undisturbed (all that it says is compared, in order) and then 1-6 times with 1-3 faults placed on the recorded operations. Non-trivial: a fault took effect. Distinct: by form, number of operations, positions and kinds of faults, and outcomes.")
