// X01: a command-line tool which ends with success has done its whole job
#include "b_package.h"
#include "atmos_asset.h"
#include "atmos_asset_reader.h"
#include "atmos_asset_writer.h"
#include "colour_conversion.h"
#include "cpl.h"
#include "dcp.h"
#include "decrypted_kdm.h"
#include "encrypted_kdm.h"
#include "equality_options.h"
#include "j2k_transcode.h"
#include "mono_j2k_picture_asset.h"
#include "mono_j2k_picture_asset_reader.h"
#include "mono_j2k_picture_asset_writer.h"
#include "openjpeg_image.h"
#include "reel.h"
#include "reel_mono_picture_asset.h"
#include "rgb_xyz.h"
#include "sound_asset.h"
#include "sound_asset_reader.h"
#include "sound_asset_writer.h"
#include "verify.h"
#include <algorithm>
#include <cstdio>
#include <functional>
#include <getopt.h>
#include <iostream>
#include <setjmp.h>
#include <sstream>

using namespace sim;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

// the tools' own main functions, renamed when they are built
#define TOOL(name) extern "C" int main_##name(int, char*[]) __attribute__((weak));
TOOL(dcpdecryptmxf) TOOL(dcpdiff) TOOL(dcpdumpimage) TOOL(dcpdumpsub) TOOL(dcpinfo) TOOL(dcpkdm) TOOL(dcprecover) TOOL(dcpthumb) TOOL(dcpverify)

static jmp_buf g_end;
static int g_status;

// what they call for exit: open streams are flushed, nothing is destroyed
extern "C" void tool_exit(int status)
{
	g_status = status;
	longjmp(g_end, 1);
}

namespace {

typedef int (*Main)(int, char*[]);

struct Result {
	int status = 0;          // as seen by the shell; 134 for an exception which nobody caught
	string out, err;
};

// what remains to be seen on a terminal: progress is overwritten
string without_progress(string const& s)
{
	string r, line;
	for (auto i: s) {
		if (i == '\r') { line.clear(); continue; }
		line += i;
		if (i == '\n') { r += line; line.clear(); }
	}
	return r + line;
}

Result go(Main tool, vector<string> const& arguments)
{
	static Result r;
	r = Result();
	static vector<string> words;
	static vector<char*> argv;
	words = arguments;
	argv.clear();
	for (auto& i: words) argv.push_back(&i[0]);
	argv.push_back(nullptr);
	optind = 0;
	opterr = 0;
	static std::stringbuf out, err;
	out.str("");
	err.str("");
	auto const cout_was = std::cout.rdbuf(&out);
	auto const cerr_was = std::cerr.rdbuf(&err);
	if (!setjmp(g_end)) {
		try {
			g_status = tool(int(words.size()), argv.data());
		} catch (std::exception& e) {
			g_status = 134;
			err.sputn(e.what(), long(strlen(e.what())));
		} catch (...) {
			g_status = 134;
		}
	}
	if (g_status != 134) fflush(nullptr);
	std::cout.rdbuf(cout_was);
	std::cerr.rdbuf(cerr_was);
	std::cout.clear();
	std::cerr.clear();
	r.status = g_status & 0xff;
	r.out = out.str();
	r.err = err.str();
	return r;
}

string text_of(uint8_t const* p, int n) { return string(reinterpret_cast<char const*>(p), size_t(n)); }

template <class Asset>
string frames_of(string const& path, boost::optional<dcp::Key> key)
{
	Asset a{boost::filesystem::path(path)};
	if (key) a.set_key(*key);
	auto reader = a.start_read();
	string r = format_string("%lld frames", (long long) a.intrinsic_duration());
	for (int i = 0; i < a.intrinsic_duration(); ++i) {
		auto f = reader->get_frame(i);
		r += format_string("\n%d %016llx", f->size(), (unsigned long long) hash_str(text_of(f->data(), f->size())));
	}
	if (a.key_id()) r += "\nencrypted";
	return r;
}

char const* const CPL_ID = "12345678-0000-4000-8000-000000000001";
char const* const KEY_ID = "c1d7ed50-0f4c-4a1c-8e37-000000000001";

void make_kdm(string const& path, string const& title, vector<std::pair<string, dcp::Key>> const& keys)
{
	dcp::DecryptedKDM d(dcp::LocalTime("2027-12-31T00:00:00+00:00"), dcp::LocalTime("2028-12-31T00:00:00+00:00"), "annotation", title, "2027-12-30T00:00:00+00:00");
	for (auto const& i: keys) d.add_key(string("MDIK"), i.first, i.second, CPL_ID, dcp::Standard::SMPTE);
	put_file(path, d.encrypt(signer_chain(), recipient_chain()->leaf(), {}, dcp::Formulation::MODIFIED_TRANSITIONAL_1, true, 0).as_xml());
}

void copy_tree(string const& from, string const& to, bool everything)
{
	for (auto const& i: tree(from)) {
		auto const path = to + i.first.substr(from.size());
		if (i.second == "d") put_dir(path);
		else if (i.second[0] == 'f' && (everything || path.find(".mxf") != string::npos)) put_file(path, i.second.substr(2));
	}
}

// makes some difference to a package which nobody can call the same
string change_something(Ctx& ctx, string const& dir)
{
	auto& c = ctx.c;
	vector<std::pair<string, string>> files;
	for (auto const& i: tree(dir)) if (i.second[0] == 'f') files.push_back({i.first, i.second.substr(2)});
	// every place at which something can be changed: file, position, length, what to put there
	struct Place { string path; size_t at, size; string now; };
	vector<Place> places;
	for (auto const& i: files) {
		if (i.second.compare(0, 5, "<?xml") != 0) continue;
		auto add = [&](string const& tag, std::function<string (string const&)> change) {
			for (size_t p = 0; (p = i.second.find("<" + tag, p)) != string::npos; ) {
				auto const close = i.second.find('>', p);
				auto const end = i.second.find("</", close);
				p = end;
				if (i.second[close - 1] == '/' || i.second.compare(end + 2, tag.size() + 1, tag + ">") != 0) continue;
				auto const was = i.second.substr(close + 1, end - close - 1);
				if (!was.empty()) places.push_back({i.first, close + 1, was.size(), change(was)});
			}
		};
		if (i.second.find("<CompositionPlaylist") != string::npos) {
			for (auto j: {"EntryPoint", "Duration", "IntrinsicDuration"}) add(j, [](string const& s) { return std::to_string(atoll(s.c_str()) + 1); });
			add("ContentKind", [](string const& s) { return s == "teaser" ? "trailer" : "teaser"; });
			// that of the metadata is not compared
			auto const metadata = i.second.find("<meta:CompositionMetadataAsset");
			if (metadata != string::npos) {
				auto const end = i.second.find("</meta:CompositionMetadataAsset");
				for (size_t k = 0; k < places.size(); ) {
					if (places[k].path == i.first && places[k].at > metadata && places[k].at < end) places.erase(places.begin() + long(k));
					else ++k;
				}
			}
		} else if (i.second.find("<DCSubtitle") != string::npos) {
			add("Text", [](string const& s) { return s + "x"; });
		}
	}
	// or a frame of the picture or the sound
	vector<string> pictures, sounds;
	for (auto const& i: files) {
		if (i.first.find(".mxf") == string::npos) continue;
		try {
			dcp::SoundAsset a{boost::filesystem::path(i.first)};
			if (!a.key_id()) sounds.push_back(i.first);
		} catch (std::exception&) {}
		try {
			dcp::MonoJ2KPictureAsset a{boost::filesystem::path(i.first)};
			if (!a.key_id()) pictures.push_back(i.first);
		} catch (std::exception&) {}
	}
	auto which = c.choose(3);
	string const made = "/sim/made.mxf";
	string r, path;
	if (which == 1 && !pictures.empty()) {
		path = c.pick(pictures);
		dcp::MonoJ2KPictureAsset a{boost::filesystem::path(path)}, b{boost::filesystem::path(path)};
		auto reader = b.start_read();
		int const at = int(c.choose(uint32_t(a.intrinsic_duration())));
		auto w = a.start_write(made, dcp::Behaviour::MAKE_NEW);
		for (int i = 0; i < b.intrinsic_duration(); ++i) {
			auto f = reader->get_frame(i);
			if (i == at) w->write(other_frame(0)); else w->write(f->data(), f->size());
		}
		w->finalize();
		r = format_string("frame %d of %s is another", at, path.c_str());
	} else if (which == 2 && !sounds.empty()) {
		path = c.pick(sounds);
		dcp::SoundAsset a{boost::filesystem::path(path)}, b{boost::filesystem::path(path)};
		auto reader = b.start_read();
		int const at = int(c.choose(uint32_t(a.intrinsic_duration())));
		int const channel = int(c.choose(uint32_t(b.channels())));
		auto w = a.start_write(made, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::DISABLED);
		for (int i = 0; i < b.intrinsic_duration(); ++i) {
			auto f = reader->get_frame(i);
			vector<vector<int32_t>> samples(size_t(b.channels()), vector<int32_t>(size_t(f->samples())));
			vector<int32_t*> pointers;
			for (int k = 0; k < b.channels(); ++k) {
				for (int l = 0; l < f->samples(); ++l) samples[size_t(k)][size_t(l)] = f->get(k, l);
				pointers.push_back(samples[size_t(k)].data());
			}
			if (i == at) samples[size_t(channel)][size_t(f->samples() / 2)] ^= 0x400000;
			w->write(pointers.data(), b.channels(), f->samples());
		}
		w->finalize();
		r = format_string("a sample of frame %d, channel %d of %s is another", at, channel, path.c_str());
	} else if (!places.empty()) {
		auto const p = c.pick(places);
		string content;
		get_file(p.path, content);
		r = format_string("%s has %s instead of %s", p.path.c_str(), p.now.c_str(), content.substr(p.at, p.size).c_str());
		put_file(p.path, content.replace(p.at, p.size, p.now));
		return r;
	} else {
		return r;
	}
	string content;
	get_file(made, content);
	put_file(path, content);
	remove_tree(made);
	return r;
}

struct Job {
	char const* name;
	Main tool = nullptr;
	vector<string> arguments;
	// whether a success which is not complete may be owned up to by a message instead
	bool may_tell = false;
	// what the disk holds of the result
	std::function<string ()> made = []() { return string(); };
	// what is wrong with the result on a healthy disk
	std::function<string (Result const&)> check = [](Result const&) { return string(); };
};

}

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	start_clock(1830000000ll * 1000000000ll);
	setenv("LIBDCP_RESOURCES", b_repository().c_str(), 1);
	put_dir("/sim/lib");
	put_dir("/sim/out");
	set_sim_cwd("/sim/out");
	put_file("/sim/lib/key.pem", *recipient_chain()->key());
	Job job;
	dcp::Key const key(string("0123456789abcdef0123456789abcdef"));
	PackageOptions o;
	o.max_cpls = 2;
	o.max_reels = 2;
	auto package = [&](string const& dir) { make_package(ctx, dir, o).dcp->write_xml(); };
	auto none = [](string, boost::optional<boost::filesystem::path>) {};
	vector<string> fonts;

	switch (c.choose(9)) {
	case 0: {
		job.name = "dcpkdm";
		job.tool = main_dcpkdm;
		job.arguments = {"dcpkdm"};
		bool const with_key = c.choose(4) != 3;
		if (with_key) { job.arguments.push_back("-p"); job.arguments.push_back("/sim/lib/key.pem"); }
		auto const options = job.arguments;
		int const n = c.range(1, 3);
		for (int i = 0; i < n; ++i) {
			auto const path = format_string("/sim/lib/kdm%d.xml", i);
			vector<std::pair<string, dcp::Key>> keys;
			for (int k = c.range(1, 2); k; --k) keys.push_back({format_string("%08x-0000-4000-8000-%012x", i, k), dcp::Key()});
			make_kdm(path, format_string("title %d", i), keys);
			job.arguments.push_back(path);
		}
		job.check = [=](Result const& r) {
			string want;
			for (int i = 0; i < n; ++i) {
				auto one = options;
				one.push_back(format_string("/sim/lib/kdm%d.xml", i));
				auto const got = go(main_dcpkdm, one);
				if (got.out.find(format_string("title %d\n", i)) == string::npos) return format_string("message %d is not described", i);
				want += got.out;
			}
			return r.out == want ? string() : format_string("%d messages together give something else than one by one", n);
		};
		break;
	}
	case 1: {
		job.name = "dcpdumpsub";
		job.tool = main_dcpdumpsub;
		string state;
		auto asset = make_smpte_text(ctx, state);
		bool const encrypted = c.choose(3) == 2;
		job.arguments = {"dcpdumpsub"};
		if (encrypted) {
			asset->set_key_id(KEY_ID);
			asset->set_key(key);
			make_kdm("/sim/lib/kdm.xml", "title", {{"00000000-0000-4000-8000-000000000007", dcp::Key()}, {KEY_ID, key}});
			for (auto i: {"-k", "/sim/lib/kdm.xml", "-p", "/sim/lib/key.pem"}) job.arguments.push_back(i);
		}
		if (c.choose(4) == 3) {
			// names which lead elsewhere: anything may come of them, but not there
			static char const* names[] = {"../lib/font", "/sim/lib/font", "x/../../lib/font", "../lib/key.pem/../font"};
			asset->add_font(names[c.choose(4)], dcp::ArrayData(reinterpret_cast<uint8_t const*>("a font"), 6));
		}
		asset->write("/sim/lib/sub.mxf");
		job.arguments.push_back("/sim/lib/sub.mxf");
		dcp::SMPTETextAsset stored("/sim/lib/sub.mxf");
		if (encrypted) stored.set_key(key);
		auto const xml = stored.xml_as_string();
		std::map<string, string> data;
		for (auto const& i: stored.font_data()) data[i.first] = text_of(i.second.data(), i.second.size());
		for (auto const& i: data) fonts.push_back(i.first);
		job.made = [=]() {
			string r;
			for (auto const& i: tree("/sim/out")) r += i.first + " " + i.second + "\n";
			return r;
		};
		job.check = [=](Result const& r) {
			if (r.out != xml + "\n") return string("the text is not that of the asset");
			for (auto const& i: data) {
				string got;
				if (!get_file("/sim/out/" + i.first + ".ttf", got) || got != i.second) return "font " + i.first + " is not that of the asset";
			}
			return string();
		};
		break;
	}
	case 2: {
		job.name = "dcpdecryptmxf";
		job.tool = main_dcpdecryptmxf;
		bool const encrypted = c.choose(3) != 2;
		int const kind = int(c.choose(3));
		int const frames = c.range(1, 4);
		static char const* kinds[] = {"picture", "sound", "atmos"};
		auto protect = [&](dcp::MXF& a) { if (encrypted) { a.set_key_id(KEY_ID); a.set_key(key); } };
		string const in = "/sim/lib/in.mxf", out = "/sim/out/out.mxf";
		if (kind == 0) {
			dcp::MonoJ2KPictureAsset a(dcp::Fraction(24, 1), dcp::Standard::SMPTE);
			protect(a);
			auto w = a.start_write(in, dcp::Behaviour::MAKE_NEW);
			for (int i = 0; i < frames; ++i) {
				auto const data = text_of(small_frame().data(), small_frame().size()) + c.bytes(c.choose(40));
				w->write(reinterpret_cast<uint8_t const*>(data.data()), int(data.size()));
			}
			w->finalize();
		} else if (kind == 1) {
			int const channels = c.range(1, 6);
			dcp::SoundAsset a(dcp::Fraction(24, 1), 48000, channels, dcp::LanguageTag("en-US"), dcp::Standard::SMPTE);
			protect(a);
			auto w = a.start_write(in, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::DISABLED);
			PRNG r(c.choose(1000));
			for (int i = 0; i < frames; ++i) {
				vector<vector<int32_t>> samples(size_t(channels), vector<int32_t>(2000));
				vector<int32_t*> pointers;
				for (auto& k: samples) { for (auto& l: k) l = int32_t(r.below(1 << 24)) - (1 << 23); pointers.push_back(k.data()); }
				w->write(pointers.data(), channels, 2000);
			}
			w->finalize();
		} else {
			dcp::AtmosAsset a(dcp::Fraction(24, 1), 0, 10, 118, 1);
			protect(a);
			auto w = a.start_write(in);
			for (int i = 0; i < frames; ++i) {
				auto const data = c.bytes(20 + c.choose(50));
				w->write(reinterpret_cast<uint8_t const*>(data.data()), int(data.size()));
			}
			w->finalize();
		}
		// the key among others
		vector<std::pair<string, dcp::Key>> keys = {{KEY_ID, key}};
		for (auto k = c.choose(3); k; --k) keys.insert(keys.begin() + long(c.choose(uint32_t(keys.size() + 1))), {format_string("%08x-0000-4000-8000-000000000009", k), dcp::Key()});
		make_kdm("/sim/lib/kdm.xml", "title", keys);
		if (c.choose(3) == 2) put_file(out, c.bytes(c.choose(5000)));
		job.arguments = {"dcpdecryptmxf", "-o", out, "-k", "/sim/lib/kdm.xml", "-p", "/sim/lib/key.pem", "-t", kinds[kind], in};
		auto const read = kind == 0 ? frames_of<dcp::MonoJ2KPictureAsset> : kind == 1 ? frames_of<dcp::SoundAsset> : frames_of<dcp::AtmosAsset>;
		auto want = read(in, encrypted ? boost::optional<dcp::Key>(key) : boost::optional<dcp::Key>());
		if (encrypted) want = want.substr(0, want.rfind('\n'));
		job.made = [=]() {
			try {
				return read(out, {});
			} catch (std::exception& e) {
				return string(e.what());
			}
		};
		auto const made = job.made;
		job.check = [=](Result const&) {
			auto const got = made();
			return got == want ? string() : "the frames are not those of the input: " + got + "\nrather than\n" + want;
		};
		break;
	}
	case 3: {
		job.name = "dcpdiff";
		job.tool = main_dcpdiff;
		package("/sim/lib/a");
		copy_tree("/sim/lib/a", "/sim/lib/b", true);
		// what was changed in the copy, if it was
		string changed;
		switch (c.choose(4)) {
		case 1:
		case 2:
			// another one
			remove_tree("/sim/lib/b");
			o.prefix = "b";
			package("/sim/lib/b");
			break;
		case 3:
			changed = change_something(ctx, "/sim/lib/b");
			break;
		default:
			break;
		}
		job.check = [=](Result const&) { return changed.empty() ? string() : "it takes packages to agree although " + changed; };
		job.arguments = {"dcpdiff"};
		if (c.choose(2)) job.arguments.push_back("-a");
		if (c.choose(2)) job.arguments.push_back("-d");
		job.arguments.push_back("/sim/lib/a");
		job.arguments.push_back("/sim/lib/b");
		break;
	}
	case 4: {
		job.name = "dcpverify";
		job.tool = main_dcpverify;
		o.valid = c.choose(6) == 5;
		package("/sim/lib/a");
		static char const* reports[] = {"/sim/out/report.txt", "/sim/out/report.html"};
		string const report = reports[c.choose(2)];
		job.arguments = {"dcpverify", "-q", "-o", report, "/sim/lib/a"};
		job.made = [=]() { string r = "none"; get_file(report, r); return r; };
		bool failed = false;
		for (auto const& i: dcp::verify({"/sim/lib/a"}, {}, none, [](float) {}, {}, boost::filesystem::path(b_repository() + "/xsd")).notes) {
			if (i.type() == dcp::VerificationNote::Type::ERROR) failed = true;
		}
		job.check = [=](Result const& r) {
			if ((r.status == 0) == failed) return format_string("status %d but verification %s", r.status, failed ? "found errors" : "found none");
			return string();
		};
		break;
	}
	case 5: {
		job.name = "dcpinfo";
		job.tool = main_dcpinfo;
		job.may_tell = true;
		package("/sim/lib/a");
		job.arguments = {"dcpinfo"};
		if (c.choose(2)) job.arguments.push_back("-s");
		job.arguments.push_back("/sim/lib/a");
		break;
	}
	case 6: {
		job.name = "dcpthumb";
		job.tool = main_dcpthumb;
		auto const certificate = c.choose(2) ? signer_chain()->leaf() : recipient_chain()->root();
		put_file("/sim/lib/certificate.pem", certificate.certificate(true));
		job.arguments = {"dcpthumb", "/sim/lib/certificate.pem"};
		auto const thumbprint = certificate.thumbprint();
		job.check = [=](Result const& r) { return r.out == thumbprint + "\n" ? string() : "the thumbprint is not " + thumbprint; };
		break;
	}
	case 7: {
		job.name = "dcpdumpimage";
		job.tool = main_dcpdumpimage;
		auto cpl = make_shared<dcp::CPL>("", dcp::ContentKind::FEATURE, dcp::Standard::SMPTE);
		vector<int> shown;
		for (int i = c.range(1, 3); i; --i) {
			int const frames = c.range(1, 4);
			int const entry = c.choose(3) == 2 ? c.range(0, frames - 1) : 0;
			auto a = make_shared<dcp::MonoJ2KPictureAsset>(dcp::Fraction(24, 1), dcp::Standard::SMPTE);
			put_dir("/sim/lib/a");
			auto w = a->start_write(format_string("/sim/lib/a/picture%d.mxf", i), dcp::Behaviour::MAKE_NEW);
			for (int k = 0; k < frames; ++k) {
				int const which = int(c.choose(4));
				w->write(other_frame(which));
				if (k >= entry) shown.push_back(which);
			}
			w->finalize();
			auto reel = make_shared<dcp::Reel>();
			auto picture = make_shared<dcp::ReelMonoPictureAsset>(a, entry);
			picture->set_duration(frames - entry);
			reel->add(picture);
			cpl->add(reel);
		}
		dcp::DCP d("/sim/lib/a");
		d.add(cpl);
		d.set_issuer("i");
		d.set_creator("c");
		d.set_issue_date("2027-12-30T00:00:00+00:00");
		d.set_annotation_text("a");
		d.write_xml();
		// sometimes beyond the end
		int const index = int(c.choose(uint32_t(shown.size() + 1)));
		job.arguments = {"dcpdumpimage", "-f", format_string("%d", index), "-o", "/sim/out/image.png"};
		if (c.choose(3) == 2) { job.arguments.push_back("--horizontal-line"); job.arguments.push_back("5"); }
		bool const line = job.arguments.size() > 5;
		job.arguments.push_back("/sim/lib/a");
		job.made = [=]() { string r = "none"; get_file("/sim/out/image.png", r); return r; };
		auto const made = job.made;
		job.check = [=](Result const&) {
			if (index >= int(shown.size())) return format_string("there is no frame %d", index);
			auto const xyz = dcp::decompress_j2k(other_frame(shown[size_t(index)]), 0);
			vector<uint8_t> rgba(size_t(xyz->size().width * xyz->size().height * 4));
			dcp::xyz_to_rgba(xyz, dcp::ColourConversion::srgb_to_xyz(), rgba.data(), xyz->size().width * 4);
			auto want = format_string("%d %d BGRA\n", xyz->size().width, xyz->size().height) + text_of(rgba.data(), int(rgba.size()));
			if (line) want += format_string("\nline 0 5 %d 5", xyz->size().width);
			return made() == want ? string() : format_string("the picture is not that of frame %d", index);
		};
		break;
	}
	default: {
		job.name = "dcprecover";
		job.tool = main_dcprecover;
		job.may_tell = true;
		o.max_cpls = 1;
		o.tricky_names = false;
		package("/sim/lib/a");
		string out = "/sim/lib/a";
		if (c.choose(2)) {
			out = "/sim/out/dcp";
			copy_tree("/sim/lib/a", out, false);
		}
		if (c.choose(2)) remove_tree("/sim/lib/a/ASSETMAP");
		if (c.choose(2)) remove_tree("/sim/lib/a/ASSETMAP.xml");
		job.arguments = {"dcprecover", "-o", out, "/sim/lib/a"};
		job.made = [=]() {
			string r;
			try {
				dcp::DCP d{boost::filesystem::path(out)};
				d.read();
				for (auto const& i: describe_cpls(d)) r += i.second + "\n";
			} catch (std::exception& e) {
				r = e.what();
			}
			return r;
		};
		break;
	}
	}
	if (!job.tool) return;
	string line;
	for (auto const& i: job.arguments) line += i + " ";
	auto const before = snapshot();
	auto const inputs = tree("/sim/lib");
	bool const inputs_kept = string(job.name) != "dcprecover";

	Window dry;
	Result healthy;
	{
		WindowScope scope(dry);
		healthy = go(job.tool, job.arguments);
	}
	ctx.note("%s-> %d\n%s\n%s", line.c_str(), healthy.status, show(healthy.out).c_str(), show(healthy.err).c_str());
	ctx.sig(string(job.name));
	ctx.sig(uint64_t(healthy.status));
	auto const made = job.made();
	if (inputs_kept && tree("/sim/lib") != inputs) ctx.violate("input changed", "%s: %s", line.c_str(), diff_trees(inputs, tree("/sim/lib")).c_str());
	if (ctx.violated) return;
	if (healthy.status == 134) {
		// nobody caught it; the same must happen each time, and it is not a success
		ctx.count("ended by an exception on a healthy disk");
	} else if (healthy.status == 0 || string(job.name) == "dcpverify") {
		auto const wrong = job.check(healthy);
		if (!wrong.empty()) ctx.violate("success without the whole job", "%s: %s", line.c_str(), wrong.c_str());
	}
	ctx.count(format_string("%s %s", job.name, healthy.status ? "failed" : "succeeded"));

	for (int i = c.range(1, 5); i && !ctx.violated; --i) {
		restore(before);
		set_disk_free(-1);
		set_sim_cwd("/sim/out");
		Window w;
		FaultMenu menu;
		// closing MXFs is up to asdcplib
		menu.filter = [](OpRec const& r) { return r.op != Op::CLOSE || r.path.find(".mxf") == string::npos; };
		w.faults = draw_faults(ctx, dry.ops, menu);
		Result r;
		{
			WindowScope scope(w);
			r = go(job.tool, job.arguments);
		}
		auto const now = snapshot();
		restore(now);
		set_disk_free(-1);
		count_faults(ctx, w);
		auto const fired = describe_fired(w);
		ctx.note("%swith %s -> %d %s", line.c_str(), fired.c_str(), r.status, show(r.err).c_str());
		for (auto const& k: w.fired) { ctx.sig(uint64_t(k.first)); ctx.sig(uint64_t(k.second.kind)); }
		ctx.sig(uint64_t(r.status));
		ctx.stats.sample = format_string("%s%s -> %d", line.c_str(), fired.c_str(), r.status);
		if (!w.fired.empty()) ctx.stats.nontrivial = true;
		if (inputs_kept && tree("/sim/lib") != inputs) ctx.violate("input changed", "%s: %s", line.c_str(), diff_trees(inputs, tree("/sim/lib")).c_str());
		if (r.status == 0) {
			bool const told = job.may_tell && (!r.err.empty() || r.out.find("Error") != string::npos);
			if (healthy.status) ctx.violate("success only because something failed", "%s: status %d undisturbed but success with %s", line.c_str(), healthy.status, fired.c_str());
			else if (!told && without_progress(r.out) != without_progress(healthy.out)) ctx.violate("success without the whole job", "%s: printed something else with %s\n%s\ninstead of\n%s", line.c_str(), fired.c_str(), r.out.c_str(), healthy.out.c_str());
			else if (!told && job.made() != made) ctx.violate("success without the whole job", "%s: made something else with %s", line.c_str(), fired.c_str());
		} else if (w.fired.empty() && !healthy.status) {
			ctx.violate("failure although nothing failed", "%s", line.c_str());
		}
	}
}

SIM_PROPERTY(X01, package_setup, run, 1, "A run draws one of nine tools and its input (key messages, certificates, text, picture, sound or Atmos assets, packages), runs the tool's own main function once undisturbed and compares what it printed and wrote with what the library or a decoder says, then runs it 1-5 times with 1-3 faults placed on the recorded operations. Non-trivial: a fault took effect. Distinct: by tool, exit statuses, positions and kinds of faults.")
