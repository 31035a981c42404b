// D06: documents are written in full or the failure is reported
#include "b_package.h"
#include "decrypted_kdm.h"
#include "encrypted_kdm.h"
#include "exceptions.h"
#include "interop_text_asset.h"
#include "pkl.h"
#include "text_image.h"
#include "text_string.h"
#include "util.h"
#include <libxml/parser.h>
#include <cerrno>
#include <cstring>

using namespace sim;
using std::make_shared;
using std::map;
using std::shared_ptr;
using std::string;
using std::vector;

static string text_of(Ctx& ctx)
{
	static vector<string> const texts = {"plain", "Fish & chips <one>", "d\xc3\xa9j\xc3\xa0 vu", "\xe6\x9d\xb1\xe4\xba\xac \"x\""};
	return ctx.c.pick(texts);
}

static string uuid_of(uint32_t n) { return format_string("%08x-0000-4000-8000-%012x", n, n * 7 + 1); }

// the values of the attributes of every element of one name, in order
static void elements(xmlNodePtr n, string const& name, vector<map<string, string>>& out)
{
	for (auto i = n; i; i = i->next) {
		if (i->type != XML_ELEMENT_NODE) continue;
		if (name == reinterpret_cast<char const*>(i->name)) {
			map<string, string> m;
			for (auto a = i->properties; a; a = a->next) {
				auto v = xmlNodeGetContent(reinterpret_cast<xmlNodePtr>(a));
				m[reinterpret_cast<char const*>(a->name)] = reinterpret_cast<char*>(v);
				xmlFree(v);
			}
			auto v = xmlNodeGetContent(i);
			m[""] = reinterpret_cast<char*>(v);
			xmlFree(v);
			out.push_back(m);
		}
		elements(i->children, name, out);
	}
}

static vector<map<string, string>> elements(string const& xml, string const& name)
{
	vector<map<string, string>> r;
	auto doc = xmlReadMemory(xml.data(), int(xml.size()), "x", nullptr, XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
	if (!doc) return r;
	elements(xmlDocGetRootElement(doc), name, r);
	xmlFreeDoc(doc);
	return r;
}

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	start_clock(1830000000ll * 1000000000ll);
	int const kind = int(c.choose(6));
	static char const* names[] = {"string", "key message", "packing list", "asset map", "composition", "Interop text"};
	string const dir = "/sim/d";
	put_dir(dir);
	string const path = dir + "/document.xml";
	if (c.choose(3) == 2) put_file(path, c.bytes(c.choose(2) ? 100 : 30000));

	std::function<void ()> write;
	// everything the call should have stored, if it is known beforehand
	map<string, string> expect;
	bool known = false;
	std::function<string ()> check;       // looks at what an undisturbed call wrote

	auto standard = c.choose(2) ? dcp::Standard::INTEROP : dcp::Standard::SMPTE;
	shared_ptr<const dcp::CertificateChain> signer;
	if (kind >= 2 && kind <= 4 && c.choose(3) == 2) signer = signer_chain();
	string content;
	shared_ptr<dcp::EncryptedKDM> kdm;
	shared_ptr<dcp::PKL> pkl;
	shared_ptr<dcp::AssetMap> assetmap;
	shared_ptr<dcp::InteropTextAsset> text;
	Package package;
	vector<map<string, string>> want;

	// what is read and written again says the same
	auto again = [dir](string const& xml, std::function<void (string const&)> copy) -> string {
		auto const to = dir + "/again.xml";
		copy(to);
		string got;
		get_file(to, got);
		remove_tree(to);
		if (got == xml) return "";
		size_t at = 0;
		while (at < got.size() && at < xml.size() && got[at] == xml[at]) ++at;
		auto const from = at > 60 ? at - 60 : 0;
		return "read and written again it has " + got.substr(from, 160) + "\ninstead of\n" + xml.substr(from, 160);
	};

	switch (kind) {
	case 0:
	{
		static vector<uint32_t> const sizes = {0, 1, 10, 4095, 4096, 4097, 8192, 20000, 100000};
		content = c.bytes(c.pick(sizes) + c.choose(3));
		expect[path] = content;
		known = true;
		write = [&]() { dcp::write_string_to_file(content, path); };
		break;
	}
	case 1:
	{
		dcp::DecryptedKDM d(dcp::LocalTime("2027-12-31T00:00:00+00:00"), dcp::LocalTime("2028-12-31T00:00:00+00:00"), text_of(ctx), text_of(ctx), "2027-12-30T00:00:00+00:00");
		auto const n = 1 + c.choose(6);
		for (uint32_t i = 0; i < n; ++i) d.add_key(string("MDIK"), uuid_of(i + 1), dcp::Key(), uuid_of(99), standard);
		vector<string> trusted;
		for (auto i = c.choose(3); i; --i) trusted.push_back("1234");
		kdm = make_shared<dcp::EncryptedKDM>(d.encrypt(signer_chain(), recipient_chain()->leaf(), trusted, dcp::Formulation::MODIFIED_TRANSITIONAL_1, true, 0));
		expect[path] = kdm->as_xml();
		known = true;
		write = [&]() { kdm->as_xml(boost::filesystem::path(path)); };
		break;
	}
	case 2:
	{
		pkl = make_shared<dcp::PKL>(standard, text_of(ctx), "2027-01-01T00:00:00+00:00", text_of(ctx), text_of(ctx), c.choose(3) == 2 ? boost::optional<string>(uuid_of(77)) : boost::optional<string>());
		auto const n = c.choose(3) == 2 ? c.choose(120) : c.choose(5);
		for (uint32_t i = 0; i < n; ++i) {
			auto const hash = b_digest(uuid_of(i));
			auto const size = int64_t(i) * 123456789 + 1;
			auto const name = text_of(ctx);
			pkl->add_asset(uuid_of(i), boost::optional<string>(text_of(ctx)), hash, size, "application/mxf", name);
			want.push_back({{"Id", "urn:uuid:" + uuid_of(i)}, {"Hash", hash}, {"Size", std::to_string(size)}, {"OriginalFileName", name}});
		}
		write = [&]() { pkl->write_xml(path, signer); };
		check = [&]() -> string {
			string xml;
			get_file(path, xml);
			if (root_of(xml) != "PackingList") return "not a packing list: " + show(xml);
			for (auto const& tag: {"Hash", "Size", "OriginalFileName"}) {
				auto const e = elements(xml, tag);
				if (e.size() != want.size()) return format_string("%zu of %s instead of %zu", e.size(), tag, want.size());
				for (size_t i = 0; i < e.size(); ++i) if (e[i].at("") != want[i].at(tag)) return string(tag) + " is " + e[i].at("") + " instead of " + want[i].at(tag);
			}
			if (signer && elements(xml, "SignatureValue").size() != 1) return "not signed";
			return signer ? string() : again(xml, [&](string const& to) { dcp::PKL(boost::filesystem::path(path)).write_xml(to, {}); });
		};
		break;
	}
	case 3:
	{
		assetmap = make_shared<dcp::AssetMap>(standard, text_of(ctx), "2027-01-01T00:00:00+00:00", text_of(ctx), text_of(ctx));
		auto const n = c.choose(3) == 2 ? c.choose(60) : c.choose(5);
		for (uint32_t i = 0; i < n; ++i) {
			auto const name = format_string("file%u.mxf", i);
			uint64_t size = c.choose(50);
			put_file(dir + "/" + name, string(size, 'x'));
			if (c.chance(1, 10)) {
				// as large as a film is
				size = c.pick(vector<uint64_t>{0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000001ULL, 0x3b9aca0000ULL});
				put_facts(dir + "/" + name, size, 1830000000, 1);
			}
			assetmap->add_asset(uuid_of(i), dir + "/" + name, i == 0);
			want.push_back({{"Path", name}, {"Length", std::to_string(size)}});
		}
		write = [&]() { assetmap->write_xml(path); };
		check = [&]() -> string {
			string xml;
			get_file(path, xml);
			if (root_of(xml) != "AssetMap") return "not an asset map: " + show(xml);
			for (auto const& tag: {"Path", "Length"}) {
				auto const e = elements(xml, tag);
				if (e.size() != want.size()) return format_string("%zu of %s instead of %zu", e.size(), tag, want.size());
				for (size_t i = 0; i < e.size(); ++i) if (e[i].at("") != want[i].at(tag)) return string(tag) + " is " + e[i].at("") + " instead of " + want[i].at(tag);
			}
			return again(xml, [&](string const& to) { dcp::AssetMap(boost::filesystem::path(path)).write_xml(to); });
		};
		break;
	}
	case 4:
	{
		PackageOptions o;
		o.max_cpls = 1;
		package = make_package(ctx, dir, o);
		auto cpl = package.dcp->cpls()[0];
		write = [cpl, path, signer]() { cpl->write_xml(path, signer); };
		check = [cpl, path, signer, again]() -> string {
			string xml;
			get_file(path, xml);
			if (root_of(xml) != "CompositionPlaylist") return "not a composition: " + show(xml);
			auto back = make_shared<dcp::CPL>(boost::filesystem::path(path));
			// the references of the one read are not resolved
			auto a = describe_cpl(cpl), b = describe_cpl(back);
			for (size_t i; (i = a.find(" resolved ")) != string::npos; ) a.replace(i, 10, " unresolved ");
			if (a != b) return "reads back as\n" + b + "instead of\n" + a;
			if (signer) return "";
			auto const same = again(xml, [&](string const& to) { back->write_xml(to, {}); });
			if (!same.empty()) return same;
			// as others write it, with where the name of the territory comes from
			auto const t = xml.find("<meta:ReleaseTerritory>");
			if (t == string::npos) return "";
			xml.insert(t + 22, " scope=\"http://www.example.com/territories#1\"");
			auto const foreign = path + ".foreign";
			put_file(foreign, xml);
			auto theirs = make_shared<dcp::CPL>(boost::filesystem::path(foreign));
			remove_tree(foreign);
			return again(xml, [&](string const& to) { theirs->write_xml(to, {}); });
		};
		break;
	}
	case 5:
	{
		text = make_shared<dcp::InteropTextAsset>();
		text->set_language("en");
		text->set_movie_title(text_of(ctx));
		text->set_reel_number("1");
		map<string, string> fonts;
		for (auto f = c.choose(3); f; --f) {
			auto const bytes = c.bytes(c.choose(3) == 2 ? 9000 + c.choose(100) : c.choose(200));
			dcp::ArrayData data(int(bytes.size()));
			memcpy(data.data(), bytes.data(), bytes.size());
			auto const id = format_string("font%u", f);
			text->add_font(id, data);
			fonts[id] = bytes;
		}
		auto const n = 1 + (c.choose(4) == 3 ? c.choose(60) : c.choose(4));
		for (uint32_t i = 0; i < n; ++i) {
			dcp::Time const in(int(i + 1) * 48, 24, 24), out(int(i + 1) * 48 + 24, 24, 24);
			if (c.choose(4) == 3) {
				auto const png = png_bytes(ctx);
				auto im = make_shared<dcp::TextImage>(png, in, out, 0.0f, dcp::HAlign::CENTER, 0.8f, dcp::VAlign::TOP, 0.0f, vector<dcp::Text::VariableZPosition>(), dcp::Time(), dcp::Time());
				text->add(im);
				expect[dir + "/" + im->id() + ".png"] = string(reinterpret_cast<char const*>(png.data()), size_t(png.size()));
			} else {
				text->add(make_shared<dcp::TextString>(
					boost::optional<string>(), false, false, false, dcp::Colour(255, 255, 255), 42, 1.0f, in, out, 0.0f, dcp::HAlign::CENTER, 0.8f, dcp::VAlign::TOP, 0.0f,
					vector<dcp::Text::VariableZPosition>(), dcp::Direction::LTR, text_of(ctx), dcp::Effect::NONE, dcp::Colour(0, 0, 0), dcp::Time(), dcp::Time(), 0.0f, vector<dcp::Ruby>()));
			}
		}
		expect[path] = text->xml_as_string();
		for (auto const& i: elements(expect[path], "LoadFont")) expect[dir + "/" + i.at("URI")] = fonts[i.at("Id")];
		known = true;
		write = [&]() { text->write(path); };
		break;
	}
	}

	auto const before = snapshot();
	auto const tree_before = tree(dir);

	auto go = [&](Window& w) {
		bool raised = false;
		string error;
		{
			WindowScope scope(w);
			try {
				write();
			} catch (std::exception& e) {
				raised = true;
				error = e.what();
			}
		}
		auto const fired = describe_fired(w);
		ctx.note("%s with %s -> %s %s", names[kind], fired.c_str(), raised ? "raised" : "returned", error.c_str());
		if (raised) {
			if (w.fired.empty()) ctx.violate("raised on a healthy disk", "writing a %s raised although nothing failed: %s", names[kind], error.c_str());
		} else {
			if (w.fired.empty() && !known) {
				// this is what an undisturbed call writes
				auto const wrong = check();
				if (!wrong.empty()) ctx.violate("wrong document", "writing a %s: %s", names[kind], wrong.c_str());
				string xml;
				get_file(path, xml);
				expect[path] = xml;
				known = true;
			}
			for (auto const& i: expect) {
				string got;
				if (!get_file(i.first, got)) {
					ctx.violate("document missing", "writing a %s returned but %s is not there; %s", names[kind], i.first.c_str(), fired.c_str());
				} else if (got != i.second) {
					ctx.violate("incomplete document passed as written", "writing a %s returned but %s holds %s instead of %s; %s", names[kind], i.first.c_str(), show(got).c_str(), show(i.second).c_str(), fired.c_str());
				}
			}
		}
		// nothing else is touched
		for (auto const& i: tree(dir)) {
			if (expect.count(i.first) || i.first == path) continue;
			auto j = tree_before.find(i.first);
			if (j == tree_before.end() || j->second != i.second) ctx.violate("other file changed", "writing a %s changed %s; %s", names[kind], i.first.c_str(), fired.c_str());
		}
		if (!open_handles().empty()) ctx.violate("file left open", "%zu files left open after writing a %s; %s", open_handles().size(), names[kind], fired.c_str());
		return raised;
	};

	Window dry;
	go(dry);
	ctx.sig(uint64_t(kind));
	ctx.sig(dry.ops.size());
	int const tries = c.range(1, kind == 4 || kind == 1 ? 6 : 4);
	for (int i = 0; i < tries && !ctx.violated; ++i) {
		restore(before);
		set_disk_free(-1);
		Window w;
		FaultMenu menu;
		w.faults = draw_faults(ctx, dry.ops, menu);
		bool const r = go(w);
		count_faults(ctx, w);
		for (auto const& f: w.fired) { ctx.sig(uint64_t(f.first)); ctx.sig(uint64_t(f.second.kind)); }
		ctx.sig(uint64_t(r));
		ctx.stats.sample = format_string("%s: %s -> %s", names[kind], describe_fired(w).c_str(), r ? "raised" : "returned");
	}
}

SIM_PROPERTY(D06, package_setup, run, 32, "A run makes a string, key message, packing list, asset map, composition or Interop text asset with drawn content (signed or not), writes it over nothing or over an older file, once undisturbed (checked against its text form, or by an independent parser) and then 1-6 times with 1-3 faults placed on the recorded operations. Non-trivial: a fault took effect. Distinct: by kind, number of operations, positions and kinds of faults, and outcomes.")
