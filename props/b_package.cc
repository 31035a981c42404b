#include "b_package.h"
#include "certs.h"
#include "atmos_asset.h"
#include "atmos_asset_writer.h"
#include "certificate.h"
#include "font_asset.h"
#include "interop_text_asset.h"
#include "j2k_transcode.h"
#include "language_tag.h"
#include "mono_j2k_picture_asset.h"
#include "mono_j2k_picture_asset_writer.h"
#include "openjpeg_image.h"
#include "reel.h"
#include "reel_atmos_asset.h"
#include "reel_interop_text_asset.h"
#include "reel_markers_asset.h"
#include "reel_mono_picture_asset.h"
#include "reel_smpte_text_asset.h"
#include "reel_sound_asset.h"
#include "reel_stereo_picture_asset.h"
#include "smpte_text_asset.h"
#include "sound_asset.h"
#include "sound_asset_writer.h"
#include "stereo_j2k_picture_asset.h"
#include "stereo_j2k_picture_asset_writer.h"
#include "text_image.h"
#include "text_string.h"
#include "util.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <algorithm>
#include <cstring>

using namespace sim;
using std::dynamic_pointer_cast;
using std::make_shared;
using std::map;
using std::shared_ptr;
using std::string;
using std::vector;

static dcp::ArrayData small_j2k, full_j2k, other_j2k[4];
static shared_ptr<dcp::CertificateChain> chains[3];

dcp::ArrayData const& small_frame() { return small_j2k; }
dcp::ArrayData const& full_frame() { return full_j2k; }
dcp::ArrayData const& other_frame(int n) { return other_j2k[n]; }

static dcp::ArrayData compress(int width, int height, bool pattern, int seed = 0)
{
	auto image = make_shared<dcp::OpenJPEGImage>(dcp::Size(width, height));
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < width * height; ++j) image->data(i)[j] = pattern ? (j * 37 + i * 101 + seed) % 4096 : 0;
	}
	return dcp::compress_j2k(image, 100000000, 24, false, false);
}

static shared_ptr<dcp::CertificateChain> make_chain(char const* root, char const* intermediate, char const* leaf, char const* key)
{
	auto chain = make_shared<dcp::CertificateChain>();
	chain->add(dcp::Certificate(string(root)));
	chain->add(dcp::Certificate(string(intermediate)));
	chain->add(dcp::Certificate(string(leaf)));
	chain->set_key(key);
	return chain;
}

void package_setup()
{
	b_setup();
	if (chains[0]) return;
	small_j2k = compress(64, 32, true);
	full_j2k = compress(1998, 1080, false);
	for (int i = 0; i < 4; ++i) other_j2k[i] = compress(64, 32, true, (i + 1) * 777);
	chains[0] = make_chain(signer_root, signer_intermediate, signer_leaf, signer_key);
	chains[1] = make_chain(recipient_root, recipient_intermediate, recipient_leaf, recipient_key);
	chains[2] = make_chain(other_root, other_intermediate, other_leaf, other_key);
}

shared_ptr<dcp::CertificateChain> signer_chain() { return chains[0]; }
shared_ptr<dcp::CertificateChain> recipient_chain() { return chains[1]; }
shared_ptr<dcp::CertificateChain> other_chain() { return chains[2]; }

static string draw_text(Ctx& ctx)
{
	static vector<string> const texts = {"A Test DCP", "Fish & chips <one>", "d\xc3\xa9j\xc3\xa0 vu \"quoted\"", " spaced  out ", "x", "\xe6\x9d\xb1\xe4\xba\xac", "a'b;c"};
	return ctx.c.pick(texts);
}

dcp::ArrayData png_bytes(Ctx& ctx)
{
	static unsigned char const head[] = {0x89, 'P', 'N', 'G', 0x0d, 0x0a, 0x1a, 0x0a};
	auto const rest = ctx.c.bytes(ctx.c.choose(4) == 3 ? 20000 : 200 + ctx.c.choose(100));
	dcp::ArrayData data(int(sizeof(head) + rest.size()));
	memcpy(data.data(), head, sizeof(head));
	memcpy(data.data() + sizeof(head), rest.data(), rest.size());
	return data;
}

static dcp::MXFMetadata metadata()
{
	dcp::MXFMetadata m;
	m.company_name = "OpenDCP";
	m.product_name = "OpenDCP";
	m.product_version = "0.0.25";
	return m;
}

// directories and names which are free within the package
static string place(Ctx& ctx, Package& p, string const& stem, string const& extension, PackageOptions const& options)
{
	string name = stem + extension;
	string dir = p.dir;
	if (options.tricky_names) {
		switch (ctx.c.choose(4)) {
		case 0: break;
		case 1: dir += format_string("/r%u", ctx.c.choose(3)); break;
		case 2: name = stem + format_string("%u", ctx.c.choose(3)) + extension; break;
		case 3: name = "asset" + extension; break;
		}
	}
	string path = dir + "/" + name;
	for (int i = 0; p.files.count(path); ++i) path = dir + "/" + format_string("n%d_", i) + name;
	put_dir(dir);
	return path;
}

// whether the next asset is encrypted, and the key for it
static bool draw_encrypted(Ctx& ctx, PackageOptions const& options)
{
	if (options.keys) return ctx.c.choose(2);
	return options.encrypted && ctx.c.choose(6) == 5;
}

static dcp::Key key_for(PackageOptions const& options) { return options.key ? *options.key : dcp::Key(); }

static dcp::Standard standard_of(Package const& p, shared_ptr<dcp::CPL> cpl) { return cpl->standard(); }

static shared_ptr<dcp::ReelPictureAsset> make_picture(Ctx& ctx, Package& p, shared_ptr<dcp::CPL> cpl, int frames, PackageOptions const& options)
{
	auto& c = ctx.c;
	auto const path = place(ctx, p, "video", ".mxf", options);
	bool const stereo = !options.valid && c.choose(6) == 5;
	bool const encrypt = draw_encrypted(ctx, options);
	auto const& frame = options.valid ? full_j2k : small_j2k;
	shared_ptr<dcp::ReelPictureAsset> reel;
	shared_ptr<dcp::J2KPictureAsset> asset;
	if (stereo) {
		auto a = make_shared<dcp::StereoJ2KPictureAsset>(dcp::Fraction(24, 1), standard_of(p, cpl));
		asset = a;
	} else {
		auto a = make_shared<dcp::MonoJ2KPictureAsset>(dcp::Fraction(24, 1), standard_of(p, cpl));
		asset = a;
	}
	asset->set_metadata(metadata());
	if (encrypt) asset->set_key(key_for(options));
	auto writer = asset->start_write(path, dcp::Behaviour::MAKE_NEW);
	// frames differ by what follows the codestream
	for (int i = 0; i < frames * (stereo ? 2 : 1); ++i) {
		string data(reinterpret_cast<char const*>(frame.data()), size_t(frame.size()));
		if (!options.valid) data += ctx.c.bytes(ctx.c.choose(40));
		writer->write(reinterpret_cast<uint8_t const*>(data.data()), int(data.size()));
	}
	writer->finalize();
	if (stereo) {
		reel = make_shared<dcp::ReelStereoPictureAsset>(std::dynamic_pointer_cast<dcp::StereoJ2KPictureAsset>(asset), 0);
	} else {
		reel = make_shared<dcp::ReelMonoPictureAsset>(std::dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(asset), 0);
	}
	p.files[path] = asset->id();
	p.mxf.push_back(path);
	return reel;
}

static shared_ptr<dcp::ReelSoundAsset> make_sound(Ctx& ctx, Package& p, shared_ptr<dcp::CPL> cpl, int frames, PackageOptions const& options)
{
	auto& c = ctx.c;
	auto const path = place(ctx, p, "audio", ".mxf", options);
	int const channels = options.valid ? 6 : c.range(1, 2) * 2;
	auto asset = make_shared<dcp::SoundAsset>(dcp::Fraction(24, 1), 48000, channels, dcp::LanguageTag("en-US"), standard_of(p, cpl));
	asset->set_metadata(metadata());
	if (draw_encrypted(ctx, options)) asset->set_key(key_for(options));
	auto writer = asset->start_write(path, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::ENABLED);
	vector<vector<float>> samples(static_cast<size_t>(channels), vector<float>(2000));
	PRNG r(c.choose(1000));
	vector<float*> pointers;
	for (auto& i: samples) {
		for (auto& j: i) j = float(int(r.below(2000)) - 1000) / 4000;
		pointers.push_back(i.data());
	}
	for (int i = 0; i < frames; ++i) writer->write(pointers.data(), channels, 2000);
	writer->finalize();
	p.files[path] = asset->id();
	p.mxf.push_back(path);
	return make_shared<dcp::ReelSoundAsset>(asset, 0);
}

static shared_ptr<dcp::Text> make_string(Ctx& ctx, int index, bool font, bool valid)
{
	auto& c = ctx.c;
	return make_shared<dcp::TextString>(
		font ? boost::optional<string>(format_string("font%d", 0)) : boost::optional<string>(),
		c.choose(2), c.choose(2), false, dcp::Colour(255, 255, 255), 42, 1.0f,
		dcp::Time(0, 0, 4 + index * 2, 0, 24), dcp::Time(0, 0, 5 + index * 2, 0, 24),
		0.0f, dcp::HAlign::CENTER, 0.8f, dcp::VAlign::TOP, 0.0f, vector<dcp::Text::VariableZPosition>(), dcp::Direction::LTR,
		valid ? "Hello world" : draw_text(ctx), dcp::Effect::NONE, dcp::Colour(0, 0, 0), dcp::Time(), dcp::Time(), 0.0f, vector<dcp::Ruby>()
		);
}

static shared_ptr<dcp::Text> make_image(Ctx& ctx, int index)
{
	return make_shared<dcp::TextImage>(
		png_bytes(ctx), dcp::Time(0, 0, 4 + index * 2, 0, 24), dcp::Time(0, 0, 5 + index * 2, 0, 24),
		0.0f, dcp::HAlign::CENTER, 0.8f, dcp::VAlign::TOP, 0.0f, vector<dcp::Text::VariableZPosition>(), dcp::Time(), dcp::Time()
		);
}

static dcp::ArrayData make_font(Ctx& ctx)
{
	auto const bytes = ctx.c.bytes(ctx.c.choose(3) == 2 ? 5000 : 64);
	dcp::ArrayData data(int(bytes.size()));
	memcpy(data.data(), bytes.data(), bytes.size());
	return data;
}

// as if it came from another program: other formatting, and fonts in directories or used twice
static shared_ptr<dcp::InteropTextAsset> as_if_foreign(Ctx& ctx, string const& path, int fonts)
{
	auto& c = ctx.c;
	auto const dir = path.substr(0, path.rfind('/'));
	string xml;
	get_file(path, xml);
	xml += "<!-- made by another program -->\n";
	int const way = fonts ? int(c.choose(3)) : 0;
	vector<string> files;
	for (int i = 0; i < fonts; ++i) {
		auto const was = format_string("font_%d.ttf", i);
		auto now = was;
		if (way == 1) now = format_string("f%d/font.ttf", i);
		if (way == 2) now = "font_0.ttf";
		if (now != was) {
			auto const p = xml.find("URI=\"" + was + "\"");
			if (p != string::npos) xml.replace(p + 5, was.size(), now);
			string content;
			get_file(dir + "/" + was, content);
			remove_tree(dir + "/" + was);
			if (way == 1) {
				put_dir(dir + format_string("/f%d", i));
				put_file(dir + "/" + now, content);
			}
		}
		if (way != 2 || i == 0) files.push_back(dir + "/" + now);
	}
	put_file(path, xml);
	auto asset = make_shared<dcp::InteropTextAsset>(boost::filesystem::path(path));
	vector<shared_ptr<dcp::Asset>> assets;
	for (auto const& i: files) assets.push_back(make_shared<dcp::FontAsset>(dcp::make_uuid(), i));
	asset->resolve_fonts(assets);
	return asset;
}

// what the reel may say about a text
static void say_more(Ctx& ctx, dcp::ReelTextAsset& reel, PackageOptions const& options)
{
	if (options.valid) return;
	if (ctx.c.choose(3) == 2) reel.set_language(dcp::LanguageTag(ctx.c.choose(2) ? "fr-FR" : "en"));
	if (ctx.c.choose(6) == 5) reel.set_annotation_text(draw_text(ctx));
}

static shared_ptr<dcp::ReelTextAsset> make_text(Ctx& ctx, Package& p, shared_ptr<dcp::CPL> cpl, dcp::TextType type, int frames, PackageOptions const& options)
{
	auto& c = ctx.c;
	int const n = c.range(1, 3);
	int const fonts = options.valid ? 1 : int(c.choose(3));
	if (standard_of(p, cpl) == dcp::Standard::INTEROP) {
		// its own directory, as its fonts and images get names which the library chooses
		string dir;
		int i = 0;
		do dir = p.dir + format_string("/subs%d", i++); while (exists(dir));
		put_dir(dir);
		auto const path = dir + "/" + (c.choose(2) ? "subs.xml" : "titles.xml");
		auto asset = make_shared<dcp::InteropTextAsset>();
		asset->set_language("en");
		asset->set_movie_title(draw_text(ctx));
		asset->set_reel_number("1");
		for (int f = 0; f < fonts; ++f) asset->add_font(format_string("font%d", f), make_font(ctx));
		for (int t = 0; t < n; ++t) asset->add(!options.valid && c.choose(3) == 2 ? make_image(ctx, t) : make_string(ctx, t, fonts > 0, options.valid));
		asset->write(path);
		if (!options.valid && c.choose(3) == 2) asset = as_if_foreign(ctx, path, fonts);
		for (auto const& f: tree(dir)) {
			if (f.second[0] == 'f') p.files[f.first] = f.first == path ? asset->id() : "";
		}
		auto reel = make_shared<dcp::ReelInteropTextAsset>(type, asset, dcp::Fraction(24, 1), frames, 0);
		say_more(ctx, *reel, options);
		return reel;
	}
	auto const path = place(ctx, p, "subs", ".mxf", options);
	auto asset = make_shared<dcp::SMPTETextAsset>();
	asset->set_metadata(metadata());
	asset->set_language(dcp::LanguageTag("de-DE"));
	asset->set_start_time(dcp::Time());
	asset->set_issue_date(dcp::LocalTime("2026-01-01T00:00:00+00:00"));
	if (draw_encrypted(ctx, options)) asset->set_key(key_for(options));
	for (int f = 0; f < fonts; ++f) asset->add_font(format_string("font%d", f), make_font(ctx));
	for (int t = 0; t < n; ++t) asset->add(!options.valid && c.choose(3) == 2 ? make_image(ctx, t) : make_string(ctx, t, fonts > 0, options.valid));
	asset->write(path);
	p.files[path] = asset->id();
	p.mxf.push_back(path);
	auto reel = make_shared<dcp::ReelSMPTETextAsset>(type, asset, dcp::Fraction(24, 1), frames, 0);
	say_more(ctx, *reel, options);
	return reel;
}

shared_ptr<dcp::SMPTETextAsset> make_smpte_text(Ctx& ctx, string& state)
{
	auto& c = ctx.c;
	auto asset = make_shared<dcp::SMPTETextAsset>();
	asset->set_metadata(metadata());
	asset->set_language(dcp::LanguageTag("de-DE"));
	asset->set_start_time(dcp::Time());
	asset->set_issue_date(dcp::LocalTime("2026-01-01T00:00:00+00:00"));
	int const n = c.range(1, 3);
	int const fonts = int(c.choose(3));
	for (int f = 0; f < fonts; ++f) asset->add_font(format_string("font%d", f), make_font(ctx));
	for (int t = 0; t < n; ++t) asset->add(c.choose(3) == 2 ? make_image(ctx, t) : make_string(ctx, t, fonts > 0, false));
	state = describe_smpte_text(*asset);
	return asset;
}

string describe_smpte_text(dcp::SMPTETextAsset const& asset)
{
	string r = asset.id();
	vector<string> texts;
	for (auto i: asset.texts()) {
		string t = i->in().as_string(dcp::Standard::SMPTE) + "-" + i->out().as_string(dcp::Standard::SMPTE) + " ";
		if (auto s = std::dynamic_pointer_cast<const dcp::TextString>(i)) t += s->text();
		if (auto m = std::dynamic_pointer_cast<const dcp::TextImage>(i)) {
			auto const png = m->png_image();
			t += m->id() + format_string(" %d %016llx", png.size(), (unsigned long long) hash_bytes(png.data(), size_t(png.size())));
		}
		texts.push_back(t);
	}
	std::sort(texts.begin(), texts.end());
	for (auto const& i: texts) r += "\n" + i;
	for (auto const& i: asset.font_data()) r += "\n" + i.first + format_string(" %d %016llx", i.second.size(), (unsigned long long) hash_bytes(i.second.data(), size_t(i.second.size())));
	return r;
}

static shared_ptr<dcp::ReelAtmosAsset> make_atmos(Ctx& ctx, Package& p, int frames, PackageOptions const& options)
{
	auto const path = place(ctx, p, "atmos", ".mxf", options);
	auto asset = make_shared<dcp::AtmosAsset>(dcp::Fraction(24, 1), 0, 10, 118, 1);
	asset->set_metadata(metadata());
	if (options.keys && ctx.c.choose(2)) asset->set_key(key_for(options));
	auto writer = asset->start_write(path);
	for (int i = 0; i < frames; ++i) {
		auto const data = ctx.c.bytes(20 + ctx.c.choose(50));
		writer->write(reinterpret_cast<uint8_t const*>(data.data()), int(data.size()));
	}
	writer->finalize();
	p.files[path] = asset->id();
	p.mxf.push_back(path);
	return make_shared<dcp::ReelAtmosAsset>(asset, 0);
}

void add_reel(Ctx& ctx, Package& p, shared_ptr<dcp::CPL> cpl, PackageOptions const& options)
{
	auto& c = ctx.c;
	bool const smpte = cpl->standard() == dcp::Standard::SMPTE;
	int const frames = options.valid ? 192 : c.range(1, 3);

	// things which other reels have already, or which come from another package
	vector<shared_ptr<dcp::ReelFileAsset>> reusable;
	for (auto i: p.dcp->cpls()) for (auto j: i->reel_file_assets()) reusable.push_back(j);
	for (auto j: cpl->reel_file_assets()) reusable.push_back(j);

	auto reel = make_shared<dcp::Reel>();
	shared_ptr<dcp::ReelPictureAsset> picture;
	if (!options.valid && c.choose(4) == 3) {
		for (auto i: reusable) {
			if (auto q = std::dynamic_pointer_cast<dcp::ReelPictureAsset>(i)) picture = q->clone();
		}
	}
	if (!picture && !options.share.empty() && c.choose(2) == 1) {
		auto const from = c.pick(options.share);
		string content;
		if (from.find("video") != string::npos && get_file(from, content)) {
			auto path = place(ctx, p, "video", ".mxf", options);
			put_file(path, content);
			try {
				auto asset = make_shared<dcp::MonoJ2KPictureAsset>(path);
				// one file for one identity
				bool clash = false;
				for (auto const& f: p.files) if (f.second == asset->id()) clash = true;
				if (!clash) {
					p.files[path] = asset->id();
					picture = make_shared<dcp::ReelMonoPictureAsset>(asset, 0);
				} else {
					remove_tree(path);
				}
			} catch (std::exception&) {
				remove_tree(path);
			}
		}
	}
	if (!picture) picture = make_picture(ctx, p, cpl, frames, options);
	reel->add(picture);
	if (options.valid || c.choose(3)) {
		shared_ptr<dcp::ReelSoundAsset> sound;
		if (!options.valid && c.choose(6) == 5) {
			for (auto i: reusable) {
				if (auto q = std::dynamic_pointer_cast<dcp::ReelSoundAsset>(i)) sound = q->clone();
			}
		}
		reel->add(sound ? sound : make_sound(ctx, p, cpl, frames, options));
	}
	if (c.choose(2)) {
		shared_ptr<dcp::ReelTextAsset> text;
		if (!options.valid && c.choose(5) == 4) {
			for (auto i: reusable) {
				if (auto q = std::dynamic_pointer_cast<dcp::ReelTextAsset>(i)) if (q->type() == dcp::TextType::OPEN_SUBTITLE) text = q->clone();
			}
		}
		reel->add(text ? text : make_text(ctx, p, cpl, dcp::TextType::OPEN_SUBTITLE, frames, options));
	}
	if (!options.valid && c.choose(6) == 5) {
		reel->add(make_text(ctx, p, cpl, dcp::TextType::CLOSED_CAPTION, frames, options));
		if (c.choose(3) == 2) reel->add(make_text(ctx, p, cpl, dcp::TextType::CLOSED_CAPTION, frames, options));
		if (smpte && c.choose(3) == 2) reel->add(make_text(ctx, p, cpl, dcp::TextType::OPEN_CAPTION, frames, options));
		if (smpte && c.choose(3) == 2) reel->add(make_text(ctx, p, cpl, dcp::TextType::CLOSED_SUBTITLE, frames, options));
	}
	if (smpte && options.atmos && !options.valid && c.choose(6) == 5) {
		reel->add(make_atmos(ctx, p, frames, options));
	}
	if (options.valid || c.choose(2)) {
		auto markers = make_shared<dcp::ReelMarkersAsset>(dcp::Fraction(24, 1), frames);
		markers->set(dcp::Marker::FFOC, dcp::Time(0, 0, 0, 1, 24));
		markers->set(dcp::Marker::LFOC, dcp::Time(frames - 1, 24, 24));
		reel->add(markers);
	}
	cpl->add(reel);
}

// all the other things a composition may say about itself
static void add_metadata(Ctx& ctx, dcp::CPL& cpl)
{
	auto& c = ctx.c;
	cpl.set_content_kind(c.choose(4) == 3 ? dcp::ContentKind("a kind", string("http://www.example.com/kinds")) : c.pick(dcp::ContentKind::all()));
	vector<dcp::ContentVersion> versions;
	for (int i = c.range(1, 3); i; --i) versions.push_back(dcp::ContentVersion(format_string("urn:uri:version%d", i), draw_text(ctx)));
	cpl.set_content_versions(versions);
	vector<dcp::Rating> ratings;
	for (auto i = c.choose(3); i; --i) ratings.push_back(dcp::Rating(format_string("http://www.example.com/%u", i), draw_text(ctx)));
	cpl.set_ratings(ratings);
	if (c.choose(2)) cpl.set_full_content_title_text(draw_text(ctx));
	if (c.choose(2)) cpl.set_full_content_title_text_language(dcp::LanguageTag("de"));
	if (c.choose(2)) cpl.set_release_territory(dcp::LanguageTag::RegionSubtag("GB"));
	if (c.choose(2)) cpl.set_version_number(int(c.choose(100)));
	if (c.choose(2)) cpl.set_status(c.pick(vector<dcp::Status>{dcp::Status::FINAL, dcp::Status::TEMP, dcp::Status::PRE}));
	if (c.choose(2)) cpl.set_chain(draw_text(ctx));
	if (c.choose(2)) cpl.set_distributor(draw_text(ctx));
	if (c.choose(2)) cpl.set_facility(draw_text(ctx));
	if (c.choose(2)) cpl.set_luminance(dcp::Luminance(float(c.range(1, 80)) / 2, c.choose(2) ? dcp::Luminance::Unit::FOOT_LAMBERT : dcp::Luminance::Unit::CANDELA_PER_SQUARE_METRE));
	if (c.choose(2)) cpl.set_main_sound_configuration(dcp::MainSoundConfiguration("71/L,R,C,LFE,Lss,Rss,Lrs,Rrs"));
	if (c.choose(2)) cpl.set_main_sound_sample_rate(96000);
	if (c.choose(2)) cpl.set_main_picture_stored_area(dcp::Size(4096, 2160));
	if (c.choose(2)) cpl.set_main_picture_active_area(dcp::Size(1998, 830));
	if (c.choose(2)) cpl.set_additional_subtitle_languages({dcp::LanguageTag("fr-FR"), dcp::LanguageTag("de")});
	if (c.choose(3) == 2) cpl.set_sign_language_video_language(dcp::LanguageTag("sgn-GB"));
	if (c.choose(3) == 2) cpl.set_dolby_edr_image_transfer_function("PQ10K");
}

Package make_package(Ctx& ctx, string const& dir, PackageOptions const& options)
{
	auto& c = ctx.c;
	Package p;
	p.dir = dir;
	put_dir(dir);
	p.dcp = make_shared<dcp::DCP>(boost::filesystem::path(dir));
	bool const smpte = options.standard < 0 ? c.choose(2) == 0 : options.standard == 0;
	auto const standard = smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	int const cpls = 1 + (options.max_cpls > 1 && (options.more_cpls || c.choose(3) == 2) ? int(c.choose(uint32_t(options.max_cpls))) : 0);
	for (int i = 0; i < cpls; ++i) {
		auto cpl = make_shared<dcp::CPL>(options.valid ? "A Test DCP" : draw_text(ctx), c.choose(2) ? dcp::ContentKind::FEATURE : dcp::ContentKind::TRAILER, standard);
		cpl->set_annotation_text(options.valid ? "A Test DCP" : draw_text(ctx));
		cpl->set_content_title_text("A Test DCP");
		cpl->set_issuer("OpenDCP 0.0.25");
		cpl->set_creator("OpenDCP 0.0.25");
		cpl->set_issue_date("2012-07-17T04:45:18+00:00");
		cpl->set_content_version(dcp::ContentVersion("urn:uuid:75ac29aa-42ac-1234-ecae-49251abefd11", "content-version-label-text"));
		cpl->set_main_sound_configuration(dcp::MainSoundConfiguration("51/L,R,C,LFE,Ls,Rs"));
		cpl->set_main_sound_sample_rate(48000);
		cpl->set_main_picture_stored_area(dcp::Size(1998, 1080));
		cpl->set_main_picture_active_area(dcp::Size(1998, 1080));
		cpl->set_version_number(1);
		if (!options.valid && c.choose(3) == 2) add_metadata(ctx, *cpl);
		int const reels = c.range(1, options.max_reels);
		for (int j = 0; j < reels; ++j) add_reel(ctx, p, cpl, options);
		p.dcp->add(cpl);
	}
	p.dcp->set_annotation_text("A Test DCP");
	p.dcp->set_issue_date("2012-07-17T04:45:18+00:00");
	return p;
}

string describe_cpl(shared_ptr<dcp::CPL> cpl)
{
	string r = cpl->id() + "\n";
	auto opt = [&](boost::optional<string> s) { r += s ? "[" + *s + "]" : string("[]"); };
	r += cpl->content_title_text() + "|" + cpl->issuer() + "|" + cpl->creator() + "|" + cpl->content_kind().name() + "|";
	opt(cpl->annotation_text());
	r += cpl->standard() == dcp::Standard::SMPTE ? "smpte\n" : "interop\n";
	opt(cpl->content_kind().scope());
	for (auto const& i: cpl->ratings()) r += "rating " + i.agency + " " + i.label + "|";
	auto const versions = cpl->content_versions();
	bool const metadata = cpl->standard() == dcp::Standard::SMPTE && !cpl->reels().empty() && cpl->reels()[0]->main_picture();
	for (size_t i = 0; i < (metadata ? versions.size() : std::min(versions.size(), size_t(1))); ++i) r += "version " + versions[i].id + " " + versions[i].label_text + "|";
	if (metadata) {
		r += cpl->full_content_title_text().get_value_or("") + "|";
		opt(cpl->full_content_title_text_language());
		opt(cpl->release_territory());
		opt(cpl->version_number() ? std::to_string(*cpl->version_number()) + (cpl->status() ? dcp::status_to_string(*cpl->status()) : "") : boost::optional<string>());
		opt(cpl->chain());
		opt(cpl->distributor());
		opt(cpl->facility());
		if (auto i = cpl->luminance()) r += format_string("luminance %f %s|", double(i->value()), dcp::Luminance::unit_to_string(i->unit()).c_str());
		if (auto i = cpl->main_sound_configuration()) r += i->as_string() + "|";
		if (auto i = cpl->main_sound_sample_rate()) r += format_string("%d|", *i);
		if (auto i = cpl->main_picture_stored_area()) r += format_string("%dx%d|", i->width, i->height);
		if (auto i = cpl->main_picture_active_area()) r += format_string("%dx%d|", i->width, i->height);
		for (auto const& i: cpl->additional_subtitle_languages()) r += "also " + i + "|";
		opt(cpl->sign_language_video_language());
		opt(cpl->dolby_edr_image_transfer_function());
	}
	r += "\n";
	for (auto reel: cpl->reels()) {
		r += "reel " + reel->id() + "\n";
		auto file = [&](char const* what, shared_ptr<const dcp::ReelFileAsset> a) {
			if (!a) return;
			r += format_string(" %s %s ", what, a->asset_ref().id().c_str());
			r += a->asset_ref().resolved() ? "resolved " : "unresolved ";
			r += format_string("%d/%d %lld %lld %lld ", a->edit_rate().numerator, a->edit_rate().denominator, (long long) a->intrinsic_duration(),
				(long long) a->entry_point().get_value_or(-1), (long long) a->duration().get_value_or(-1));
			opt(a->hash());
			opt(a->key_id());
			opt(a->annotation_text());
			if (auto t = dynamic_pointer_cast<const dcp::ReelTextAsset>(a)) opt(t->language());
			r += "\n";
		};
		file("picture", reel->main_picture());
		file("sound", reel->main_sound());
		file("subtitle", reel->main_subtitle());
		file("caption", reel->main_caption());
		for (auto i: reel->closed_subtitles()) file("closed subtitle", i);
		for (auto i: reel->closed_captions()) file("closed caption", i);
		file("atmos", reel->atmos());
		if (auto m = reel->main_markers()) {
			r += " markers";
			for (auto const& i: m->get()) r += " " + dcp::marker_to_string(i.first) + "=" + i.second.as_string(dcp::Standard::SMPTE);
			r += "\n";
		}
	}
	return r;
}

map<string, string> describe_cpls(dcp::DCP const& dcp)
{
	map<string, string> r;
	for (auto i: dcp.cpls()) {
		auto& d = r[i->id()];
		if (!d.empty()) d += "AND AGAIN\n";
		d += describe_cpl(i);
	}
	return r;
}

// ---------------------------------------------------------------- reading without the library

namespace {

struct Doc {
	xmlDocPtr doc;
	explicit Doc(string const& xml) : doc(xmlReadMemory(xml.data(), int(xml.size()), "x.xml", nullptr, XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING)) {}
	~Doc() { if (doc) xmlFreeDoc(doc); }
	xmlNodePtr root() { return doc ? xmlDocGetRootElement(doc) : nullptr; }
};

string name_of(xmlNodePtr n) { return reinterpret_cast<char const*>(n->name); }

xmlNodePtr child(xmlNodePtr n, string const& name)
{
	for (auto i = n ? n->children : nullptr; i; i = i->next) if (i->type == XML_ELEMENT_NODE && name_of(i) == name) return i;
	return nullptr;
}

string text(xmlNodePtr n)
{
	if (!n) return "";
	auto c = xmlNodeGetContent(n);
	string s = c ? reinterpret_cast<char*>(c) : "";
	xmlFree(c);
	return s;
}

string id_of(xmlNodePtr n)
{
	auto s = text(child(n, "Id"));
	return s.compare(0, 9, "urn:uuid:") == 0 ? s.substr(9) : s;
}

}

string root_of(string const& xml)
{
	Doc d(xml);
	return d.root() ? name_of(d.root()) : "";
}

Listing read_listing(string const& dir, bool smpte)
{
	Listing l;
	string xml;
	string const map_path = dir + (smpte ? "/ASSETMAP.xml" : "/ASSETMAP");
	if (!get_file(map_path, xml)) {
		l.error = "no asset map";
		return l;
	}
	Doc assetmap(xml);
	if (!assetmap.root() || name_of(assetmap.root()) != "AssetMap" || !child(assetmap.root(), "AssetList")) {
		l.error = "asset map is not well formed: " + show(xml);
		return l;
	}
	for (auto a = child(assetmap.root(), "AssetList")->children; a; a = a->next) {
		if (a->type != XML_ELEMENT_NODE) continue;
		auto& e = l.entries[id_of(a)];
		e.id = id_of(a);
		++e.in_map;
		e.pkl = text(child(a, "PackingList")) == "true";
		auto chunk = child(child(a, "ChunkList"), "Chunk");
		e.path = text(child(chunk, "Path"));
		auto const length = text(child(chunk, "Length"));
		e.length = length.empty() ? -1 : strtoll(length.c_str(), nullptr, 10);
	}
	vector<string> pkls;
	for (auto const& i: l.entries) if (i.second.pkl) pkls.push_back(i.second.path);
	if (pkls.empty()) l.error = "no packing list in the asset map";
	for (auto const& i: pkls) {
		if (!get_file(dir + "/" + i, xml)) {
			l.error = "packing list " + i + " is missing";
			return l;
		}
		Doc pkl(xml);
		if (!pkl.root() || name_of(pkl.root()) != "PackingList" || !child(pkl.root(), "AssetList")) {
			l.error = "packing list is not well formed: " + show(xml);
			return l;
		}
		for (auto a = child(pkl.root(), "AssetList")->children; a; a = a->next) {
			if (a->type != XML_ELEMENT_NODE) continue;
			auto& e = l.entries[id_of(a)];
			e.id = id_of(a);
			++e.in_pkl;
			e.hash = text(child(a, "Hash"));
			e.size = strtoll(text(child(a, "Size")).c_str(), nullptr, 10);
			e.type = text(child(a, "Type"));
		}
	}
	return l;
}

string check_listing(string const& dir, Listing const& listing)
{
	if (!listing.error.empty()) return listing.error;
	map<string, string> by_path;
	for (auto const& i: listing.entries) {
		auto const& e = i.second;
		auto const what = e.id + " (" + e.path + ")";
		if (e.in_map != 1) return what + format_string(" is in the asset map %d times", e.in_map);
		if (e.in_pkl != (e.pkl ? 0 : 1)) return what + format_string(" is in the packing list %d times", e.in_pkl);
		string content;
		if (!get_file(dir + "/" + e.path, content)) return what + " does not exist";
		if (e.length != int64_t(content.size())) return what + format_string(" has length %lld in the asset map but %zu bytes", (long long) e.length, content.size());
		if (!e.pkl) {
			if (e.size != int64_t(content.size())) return what + format_string(" has size %lld in the packing list but %zu bytes", (long long) e.size, content.size());
			if (e.hash != b_digest(content)) return what + " has digest " + e.hash + " in the packing list but the file's is " + b_digest(content);
		}
		if (!by_path.insert({e.path, e.id}).second) return what + " has the same file as " + by_path[e.path];
	}
	return "";
}
