// D13: damaged documents never crash the reader or lead it astray
#include "b_package.h"
#include "certificate.h"
#include "combine.h"
#include "decrypted_kdm.h"
#include "encrypted_kdm.h"
#include "equality_options.h"
#include "exceptions.h"
#include "interop_text_asset.h"
#include "pkl.h"
#include "text_formatter.h"
#include "util.h"
#include "verify.h"
#include "verify_report.h"
#include <algorithm>
#include <cstring>

using namespace sim;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

namespace {

struct Element {
	size_t start, inside, close, end;     // of "<a>", after it, of "</a>", after it
	string name;
	size_t inner() const { return close - inside; }
};

// every element with a closing tag
vector<Element> scan(string const& xml)
{
	vector<Element> r, open;
	for (size_t i = xml.find('<'); i != string::npos; i = xml.find('<', i + 1)) {
		size_t const end = xml.find('>', i);
		if (end == string::npos) break;
		if (xml[i + 1] == '?' || xml[i + 1] == '!' || xml[end - 1] == '/') continue;
		if (xml[i + 1] == '/') {
			auto const name = xml.substr(i + 2, end - i - 2);
			if (open.empty() || open.back().name != name) break;
			auto e = open.back();
			open.pop_back();
			e.close = i;
			e.end = end + 1;
			r.push_back(e);
		} else {
			Element e;
			e.start = i;
			e.inside = end + 1;
			e.name = xml.substr(i + 1, xml.find_first_of(" \t\n>", i + 1) - i - 1);
			open.push_back(e);
		}
	}
	return r;
}

vector<string> const& values()
{
	static vector<string> const v = {
		"", "0", "1", "-1", "24", "24 1", "0 0", "24 0", "1 0", "-24 1", "99999999999999999999", "4294967296", "2147483647", "NaN", "1e400", "x", " ",
		"urn:uuid:", "urn:uuid:x", "urn:uuid:00000000-0000-4000-8000-000000000001", "..", "../../../up", "/sim/abs", "urn:uuid:../../up", "../victim", "/sim/victim", "true", "false",
		"2020-02-30T99:99:99+00:00", "2020-01-01T00:00:00", "00:00:00:00", "99:99:99:999", "00:00:00.000", "\xc3", "&amp;", "&#1;", "http://www.smpte-ra.org/schemas/429-7/2006/CPL", "http://example.com",
		"en", "zz-zz-zz-zz", "AAAA", "====", string(3000, 'a')
	};
	return v;
}

string damage(Choices& c, string xml, string& what)
{
	auto const e = scan(xml);
	int const how = e.empty() ? 7 + int(c.choose(2)) : int(c.choose(9));
	auto pick = [&]() { return e[c.choose(uint32_t(e.size()))]; };
	// one without others inside
	auto leaf = [&]() {
		vector<Element> l;
		for (auto const& i: e) if (xml.find('<', i.inside) == i.close) l.push_back(i);
		return l.empty() ? e[0] : l[c.choose(uint32_t(l.size()))];
	};
	switch (how) {
	case 0: case 1: {
		auto const i = leaf();
		auto const v = c.choose(3) == 2 ? ([&]() { auto const j = leaf(); return xml.substr(j.inside, j.inner()); })() : c.pick(values());
		what = i.name + " := " + v.substr(0, 40);
		return xml.replace(i.inside, i.inner(), v);
	}
	case 2: {
		auto const i = pick();
		what = "no " + i.name;
		return xml.erase(i.start, i.end - i.start);
	}
	case 3: {
		auto const i = pick();
		what = "another " + i.name;
		auto const copy = xml.substr(i.start, std::min<size_t>(i.end - i.start, 20000));
		return xml.insert(i.end, copy.size() == i.end - i.start ? copy : "");
	}
	case 4: {
		auto const i = pick(), j = pick();
		what = i.name + " called " + j.name;
		xml.replace(i.close + 2, i.name.size(), j.name);
		return xml.replace(i.start + 1, i.name.size(), j.name);
	}
	case 5: {
		// an attribute
		vector<std::pair<size_t, size_t>> a;
		for (size_t i = xml.find("=\""); i != string::npos; i = xml.find("=\"", i + 2)) {
			auto const end = xml.find('"', i + 2);
			if (end != string::npos) a.push_back({i + 2, end - i - 2});
		}
		if (a.empty()) return xml;
		auto const i = c.pick(a);
		auto const v = c.pick(values());
		what = "attribute " + xml.substr(i.first, std::min<size_t>(i.second, 40)) + " := " + v.substr(0, 40);
		return xml.replace(i.first, i.second, v);
	}
	case 6: {
		auto i = pick(), j = pick();
		if (i.start > j.start) std::swap(i, j);
		if (j.start < i.end) return xml;
		what = i.name + " and " + j.name + " exchanged";
		auto const a = xml.substr(i.start, i.end - i.start), b = xml.substr(j.start, j.end - j.start);
		xml.replace(j.start, b.size(), a);
		return xml.replace(i.start, a.size(), b);
	}
	case 7: {
		if (xml.empty()) return xml;
		auto const at = c.choose(uint32_t(xml.size()));
		xml[at] = char(c.choose(256));
		what = format_string("byte %u", at);
		return xml;
	}
	default: {
		auto const n = c.choose(uint32_t(xml.size() + 1));
		what = format_string("cut to %u bytes", n);
		return xml.substr(0, n);
	}
	}
}

bool is_xml(string const& path)
{
	return path.find("ASSETMAP") != string::npos || (path.size() > 4 && path.substr(path.size() - 4) == ".xml");
}

}

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	start_clock(1830000000ll * 1000000000ll);
	put_dir("/sim/lib");
	put_dir("/sim/out");
	put_file("/sim/victim", "victim");
	string const dir = "/sim/lib/dcp";
	string key, text;
	int const source = int(c.choose(8));
	vector<string> files;
	if (source == 0) {
		auto const standard = c.choose(2) ? dcp::Standard::INTEROP : dcp::Standard::SMPTE;
		dcp::DecryptedKDM d(dcp::LocalTime("2027-12-31T00:00:00+00:00"), dcp::LocalTime("2028-12-31T00:00:00+00:00"), "title", "text", "2027-12-30T00:00:00+00:00");
		for (auto n = 1 + c.choose(3); n; --n) d.add_key(string("MDIK"), format_string("%08x-0000-4000-8000-000000000001", n), dcp::Key(), "12345678-0000-4000-8000-000000000001", standard);
		put_file("/sim/lib/kdm.xml", d.encrypt(signer_chain(), recipient_chain()->leaf(), {}, dcp::Formulation::MODIFIED_TRANSITIONAL_1, true, 0).as_xml());
		files.push_back("/sim/lib/kdm.xml");
	} else {
		PackageOptions o;
		o.max_cpls = 2;
		o.max_reels = 2;
		if (source >= 5) o.standard = 1;
		auto p = make_package(ctx, dir, o);
		p.dcp->write_xml(c.choose(3) == 2 ? signer_chain() : nullptr);
		for (auto const& i: tree(dir)) if (i.second[0] == 'f' && is_xml(i.first)) files.push_back(i.first);
	}
	auto const original = snapshot();
	// the undamaged one, to compare with
	for (auto const& i: tree(dir)) {
		auto const to = "/sim/lib/whole" + i.first.substr(dir.size());
		if (i.second == "d") put_dir(to);
		else if (i.second[0] == 'f') put_file(to, i.second.substr(2));
	}
	string all;
	for (int n = c.range(1, 3); n; --n) {
		auto const path = c.pick(files);
		string xml, what;
		get_file(path, xml);
		put_file(path, damage(c, xml, what));
		all += path + ": " + what + "; ";
		ctx.sig(what);
	}
	ctx.note("%s", all.c_str());
	ctx.stats.sample = all;
	ctx.count("fault.damaged document");
	ctx.stats.nontrivial = true;
	(void) original;
	auto const before = tree("/sim");

	static char const* names[] = {"read", "read, ignoring errors", "documents alone", "verify and report", "compare", "combine", "write again", "key message"};
	int const op = source == 0 ? 7 : int(c.choose(7));
	Window w;
	string outcome = "returned";
	{
		WindowScope scope(w);
		try {
			switch (op) {
			case 0: { dcp::DCP d{boost::filesystem::path(dir)}; d.read(); for (auto i: d.cpls()) describe_cpl(i); break; }
			case 1: {
				dcp::DCP d{boost::filesystem::path(dir)};
				vector<dcp::VerificationNote> notes;
				d.read(&notes, true);
				for (auto const& i: notes) dcp::note_to_string(i);
				for (auto i: d.cpls()) describe_cpl(i);
				for (auto i: d.assets(true)) { i->hash(); i->id(); }
				break;
			}
			case 2:
				for (auto const& i: files) {
					auto one = [&](std::function<void ()> f) { try { f(); } catch (std::exception& e) { ctx.note("%s: %s", i.c_str(), e.what()); } };
					one([&]() { vector<dcp::VerificationNote> notes; auto p = make_shared<dcp::CPL>(boost::filesystem::path(i), &notes); describe_cpl(p); });
					one([&]() { dcp::PKL p{boost::filesystem::path(i)}; });
					one([&]() { dcp::AssetMap p{boost::filesystem::path(i)}; p.assets(); });
					one([&]() { dcp::InteropTextAsset p{boost::filesystem::path(i)}; p.xml_as_string(); p.latest_text_out(); });
					one([&]() { dcp::SMPTETextAsset p{boost::filesystem::path(i)}; p.xml_as_string(); p.latest_text_out(); });
				}
				break;
			case 3: {
				auto const v = dcp::verify({dir}, {}, [](string, boost::optional<boost::filesystem::path>) {}, [](float) {}, {}, boost::filesystem::path(b_repository() + "/xsd"));
				dcp::TextFormatter f("/sim/out/report");
				dcp::verify_report({v}, f);
				break;
			}
			case 4: {
				dcp::DCP a{boost::filesystem::path(dir)}, b{boost::filesystem::path("/sim/lib/whole")};
				vector<dcp::VerificationNote> notes;
				a.read(&notes, true);
				b.read();
				dcp::EqualityOptions options;
				options.keep_going = true;
				a.equals(b, options, [](dcp::NoteType, string) {});
				b.equals(a, options, [](dcp::NoteType, string) {});
				break;
			}
			case 5: dcp::combine({boost::filesystem::path(dir), boost::filesystem::path("/sim/lib/whole")}, "/sim/out/dcp", "issuer", "creator", "2027-01-01T00:00:00+00:00", "annotation"); break;
			case 6: {
				dcp::DCP d{boost::filesystem::path(dir)};
				vector<dcp::VerificationNote> notes;
				d.read(&notes, true);
				d.write_xml(c.choose(2) ? signer_chain() : nullptr);
				break;
			}
			case 7: {
				dcp::EncryptedKDM e(dcp::file_to_string("/sim/lib/kdm.xml"));
				e.keys();
				e.not_valid_before().as_string();
				e.as_xml();
				e.recipient_x509_subject_name();
				dcp::DecryptedKDM d(e, *recipient_chain()->key());
				for (auto const& i: d.keys()) i.key().hex();
				break;
			}
			}
		} catch (std::exception& e) {
			outcome = string("raised ") + e.what();
		} catch (...) {
			ctx.violate("raised something which is not an exception", "%s after %s", names[op], all.c_str());
			return;
		}
	}
	ctx.note("%s -> %s", names[op], outcome.c_str());
	ctx.sig(uint64_t(op));
	ctx.sig(outcome.substr(0, 30));
	ctx.count(outcome == "returned" ? "returned" : "raised");
	// only where it was told to
	string const mine = op == 5 ? "/sim/out/dcp" : op == 3 ? "/sim/out/report" : op == 6 ? dir : "/sim/nowhere";
	auto within = [&](string const& p) { return p == mine || p.compare(0, mine.size() + 1, mine + "/") == 0; };
	auto const after = tree("/sim");
	for (auto const& i: after) {
		auto const j = before.find(i.first);
		if ((j == before.end() || j->second != i.second) && !within(i.first)) ctx.violate("something outside was changed", "%s: %s after %s", names[op], i.first.c_str(), all.c_str());
	}
	for (auto const& i: before) {
		if (!after.count(i.first) && !within(i.first)) ctx.violate("something outside was removed", "%s: %s after %s", names[op], i.first.c_str(), all.c_str());
	}
	if (!escapes().empty()) ctx.violate("something outside was changed", "%s: %s after %s", names[op], escapes()[0].c_str(), all.c_str());
	if (!open_handles().empty()) ctx.violate("file left open", "%s after %s", names[op], all.c_str());
}

SIM_PROPERTY(D13, package_setup, run, 16, "A run makes a package or a key message, damages one to three places of its XML documents (values replaced by others or by odd ones, elements and attributes removed, repeated, renamed, exchanged, bytes changed, documents cut short), and reads, verifies and reports, compares, combines or writes it. Every run has a damaged document. Distinct: by what was damaged, the operation and its outcome.")
