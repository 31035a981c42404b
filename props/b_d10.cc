// D10: operations do not leak open files
#include "b_package.h"
#include "atmos_asset.h"
#include "atmos_asset_reader.h"
#include "atmos_asset_writer.h"
#include "atmos_frame.h"
#include "combine.h"
#include "data.h"
#include "decrypted_kdm.h"
#include "encrypted_kdm.h"
#include "equality_options.h"
#include "exceptions.h"
#include "file.h"
#include "filesystem.h"
#include "interop_text_asset.h"
#include "mono_j2k_picture_asset.h"
#include "mono_j2k_picture_asset_reader.h"
#include "mono_j2k_picture_asset_writer.h"
#include "mono_j2k_picture_frame.h"
#include "mono_mpeg2_picture_asset.h"
#include "mono_mpeg2_picture_asset_reader.h"
#include "mono_mpeg2_picture_asset_writer.h"
#include "mono_mpeg2_picture_frame.h"
#include "search.h"
#include "sound_asset.h"
#include "sound_asset_reader.h"
#include "sound_asset_writer.h"
#include "sound_frame.h"
#include "stereo_j2k_picture_asset.h"
#include "stereo_j2k_picture_asset_reader.h"
#include "stereo_j2k_picture_asset_writer.h"
#include "stereo_j2k_picture_frame.h"
#include "text_string.h"
#include "util.h"
#include "verify.h"
#include <set>

using namespace sim;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

namespace {

typedef boost::filesystem::path path;

enum Kind { LOAD, SAVE, FILESYSTEM, SEARCH, WRITE_MXF, READ_MXF, TEXT, KDM, READ, WRITE_XML, COMPARE, COMBINE, VERIFY, KINDS };
char const* const names[] = {
	"loading", "saving", "filesystem calls", "searching", "writing an MXF file", "reading an MXF file", "text assets", "key messages",
	"reading a package", "writing a package", "comparing packages", "combining packages", "verifying"
};

// writes two frames; gives up between them if asked to
template <class Writer> void two_frames(Writer writer, dcp::ArrayData const& data, bool give_up)
{
	writer->write(data.data(), data.size());
	if (give_up) return;
	writer->write(data.data(), data.size());
	writer->finalize();
}

void write_mxf(int which, bool encrypted, bool give_up, dcp::ArrayData const& mpeg2)
{
	path const to = "/sim/asset.mxf";
	auto key = dcp::Key("0123456789abcdef0123456789abcdef");
	switch (which) {
	case 0:
	{
		dcp::MonoJ2KPictureAsset asset(dcp::Fraction(24, 1), dcp::Standard::SMPTE);
		if (encrypted) asset.set_key(key);
		two_frames(asset.start_write(to, dcp::Behaviour::MAKE_NEW), small_frame(), give_up);
		break;
	}
	case 1:
	{
		dcp::StereoJ2KPictureAsset asset(dcp::Fraction(24, 1), dcp::Standard::SMPTE);
		if (encrypted) asset.set_key(key);
		two_frames(asset.start_write(to, dcp::Behaviour::MAKE_NEW), small_frame(), give_up);
		break;
	}
	case 2:
	{
		dcp::SoundAsset asset(dcp::Fraction(24, 1), 48000, 2, dcp::LanguageTag("en-GB"), dcp::Standard::SMPTE);
		if (encrypted) asset.set_key(key);
		auto writer = asset.start_write(to, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::ENABLED);
		vector<float> samples(3000);
		float const* p[] = {samples.data(), samples.data()};
		writer->write(p, 2, 3000);
		if (!give_up) writer->finalize();
		break;
	}
	case 3:
	{
		dcp::AtmosAsset asset(dcp::Fraction(24, 1), 1, 10, 118, 0);
		if (encrypted) asset.set_key(key);
		two_frames(asset.start_write(to), mpeg2, give_up);
		break;
	}
	case 4:
	{
		dcp::MonoMPEG2PictureAsset asset(dcp::Fraction(24, 1));
		if (encrypted) asset.set_key(key);
		two_frames(asset.start_write(to, dcp::Behaviour::MAKE_NEW), mpeg2, give_up);
		break;
	}
	}
}

template <class Asset> void two_readers(path const& from, bool encrypted)
{
	Asset asset(from);
	if (encrypted) asset.set_key(dcp::Key("0123456789abcdef0123456789abcdef"));
	auto a = asset.start_read();
	a->get_frame(0);
	auto b = asset.start_read();
	b->get_frame(0);
	a->get_frame(1);
	// not there
	b->get_frame(9);
}

void read_mxf(int which, bool encrypted)
{
	path const from = "/sim/asset.mxf";
	switch (which) {
	case 0: two_readers<dcp::MonoJ2KPictureAsset>(from, encrypted); break;
	case 1: two_readers<dcp::StereoJ2KPictureAsset>(from, encrypted); break;
	case 2: two_readers<dcp::SoundAsset>(from, encrypted); break;
	case 3: two_readers<dcp::AtmosAsset>(from, encrypted); break;
	case 4: two_readers<dcp::MonoMPEG2PictureAsset>(from, encrypted); break;
	}
}

void run(Ctx& ctx)
{
	auto& c = ctx.c;
	start_clock(1830000000ll * 1000000000ll);
	put_dir("/sim");
	// the last kinds are slow
	auto const kind = Kind(c.choose(4) ? c.choose(READ) : READ + c.choose(uint32_t(c.choose(8) ? VERIFY : KINDS) - READ));
	bool allocations = false;
	std::function<void ()> go;
	int tries = c.range(1, 6);

	dcp::ArrayData mpeg2;
	shared_ptr<dcp::SMPTETextAsset> smpte;
	shared_ptr<dcp::InteropTextAsset> interop;
	shared_ptr<dcp::EncryptedKDM> kdm;
	string content, text;
	vector<Package> packages;

	auto make_packages = [&](int n) {
		PackageOptions o;
		o.max_cpls = 2;
		o.max_reels = 2;
		if (n > 1) o.standard = int(c.choose(2));
		for (int i = 0; i < n; ++i) {
			if (i) o.share = packages[0].mxf;
			o.prefix = format_string("p%d", i);
			packages.push_back(make_package(ctx, format_string("/sim/lib/dcp%d", i), o));
			packages.back().dcp->write_xml();
			if (kind != WRITE_XML) packages.back().dcp.reset();
		}
		// now and then with damage, which leads to other paths
		if (c.choose(3) == 2) {
			vector<string> files;
			for (auto const& i: tree("/sim/lib")) if (i.second[0] == 'f') files.push_back(i.first);
			auto const p = c.pick(files);
			string bytes;
			get_file(p, bytes);
			switch (c.choose(3)) {
			case 0: put_file(p, bytes.substr(0, bytes.size() / 2)); break;
			case 1: remove_tree(p); break;
			case 2: if (!bytes.empty()) { bytes[c.choose(uint32_t(bytes.size()))] ^= 1; put_file(p, bytes); } break;
			}
		}
	};

	switch (kind) {
	case LOAD:
	{
		static vector<uint32_t> const sizes = {0, 1, 4096, 70000, 300000};
		put_file("/sim/a", c.bytes(c.pick(sizes) + c.choose(3)));
		int const which = int(c.choose(4));
		allocations = true;
		go = [=]() {
			switch (which) {
			case 0: dcp::ArrayData(path("/sim/a")); break;
			case 1: dcp::file_to_string("/sim/a"); break;
			case 2: dcp::make_digest(path("/sim/a"), [](int64_t, int64_t) {}); break;
			case 3:
			{
				dcp::File f("/sim/a", "rb");
				char buffer[512];
				while (f.gets(buffer, sizeof(buffer))) {}
				f.seek(0, SEEK_SET);
				f.checked_read(buffer, 10);
				break;
			}
			}
		};
		break;
	}
	case SAVE:
	{
		content = c.bytes(c.choose(3) * 40000 + c.choose(3));
		if (c.choose(2)) put_file("/sim/b", c.bytes(100));
		int const which = int(c.choose(4));
		allocations = true;
		go = [=, &content]() {
			dcp::ArrayData data(reinterpret_cast<uint8_t const*>(content.data()), int(content.size()));
			switch (which) {
			case 0: data.write("/sim/b"); break;
			case 1: data.write_via_temp("/sim/b.tmp", "/sim/b"); break;
			case 2: dcp::write_string_to_file(content, "/sim/b"); break;
			case 3:
			{
				dcp::File f("/sim/b", "wb");
				f.checked_write(content.data(), content.size());
				dcp::File g("/sim/b2", "wb");
				g = std::move(f);
				g.write("x", 1, 1);
				break;
			}
			}
		};
		break;
	}
	case FILESYSTEM:
	{
		for (auto const* i: {"/sim/t/a", "/sim/t/b", "/sim/t/d/e", "/sim/t/d/f/g"}) put_file(i, c.bytes(5000));
		int const which = int(c.choose(5));
		allocations = true;
		go = [=]() {
			switch (which) {
			case 0: for (auto const& i: dcp::filesystem::recursive_directory_iterator("/sim/t")) dcp::filesystem::is_directory(i.path()); break;
			case 1: for (auto const& i: dcp::filesystem::directory_iterator("/sim/t")) if (i.path().filename() == "b") break; break;
			case 2: dcp::filesystem::copy_file("/sim/t/a", "/sim/t/c"); dcp::filesystem::copy("/sim/t/b", "/sim/t/h"); break;
			case 3: dcp::filesystem::remove_all("/sim/t"); break;
			case 4: dcp::filesystem::is_empty("/sim/t/d"); dcp::filesystem::rename("/sim/t/a", "/sim/t/z"); dcp::filesystem::create_directories("/sim/t/q/r"); break;
			}
		};
		break;
	}
	case SEARCH:
		for (auto i = c.choose(6); i; --i) put_file(format_string("/sim/s/%u/%s", c.choose(4), c.choose(2) ? "ASSETMAP" : "ASSETMAP.xml"), "x");
		put_file("/sim/s/q/r/file", "x");
		allocations = true;
		go = []() {
			dcp::find_potential_dcps("/sim/s");
			dcp::DCP::directories_from_files({path("/sim/s/0/ASSETMAP"), path("/sim/s/1/ASSETMAP.xml")});
		};
		break;
	case WRITE_MXF:
	case READ_MXF:
	{
		int const which = int(c.choose(5));
		bool const encrypted = c.choose(3) == 2;
		bool const give_up = kind == WRITE_MXF && c.choose(3) == 2;
		string const header("\0\0\x01\xb3\x78\x04\x38\x13", 8);
		auto const data = header + c.bytes(c.choose(2) * 60000 + 5);
		mpeg2 = dcp::ArrayData(reinterpret_cast<uint8_t const*>(data.data()), int(data.size()));
		allocations = true;
		if (kind == WRITE_MXF) {
			go = [=, &mpeg2]() { write_mxf(which, encrypted, give_up, mpeg2); };
		} else {
			write_mxf(which, encrypted, false, mpeg2);
			int const as = c.choose(8) == 7 ? int(c.choose(5)) : which;
			go = [=]() { read_mxf(as, encrypted); };
		}
		break;
	}
	case TEXT:
	{
		smpte = make_smpte_text(ctx, text);
		interop = make_shared<dcp::InteropTextAsset>();
		interop->add(make_shared<dcp::TextString>(
			boost::optional<string>("font"), false, false, false, dcp::Colour(255, 255, 255), 42, 1, dcp::Time(0, 0, 4, 0, 24), dcp::Time(0, 0, 6, 0, 24),
			0, dcp::HAlign::CENTER, 0.5, dcp::VAlign::TOP, 0, vector<dcp::Text::VariableZPosition>(), dcp::Direction::LTR, "Hello", dcp::Effect::NONE, dcp::Colour(0, 0, 0), dcp::Time(), dcp::Time(), 0, vector<dcp::Ruby>()
			));
		auto const font = c.bytes(5000);
		interop->add_font("font", dcp::ArrayData(reinterpret_cast<uint8_t const*>(font.data()), int(font.size())));
		smpte->write("/sim/smpte.mxf");
		put_dir("/sim/interop");
		interop->write("/sim/interop/text.xml");
		int const which = int(c.choose(4));
		go = [=, &smpte, &interop]() {
			switch (which) {
			case 0: smpte->write("/sim/other.mxf"); break;
			case 1: { dcp::SMPTETextAsset t(path("/sim/smpte.mxf")); dcp::SMPTETextAsset::valid_mxf("/sim/smpte.mxf"); break; }
			case 2: interop->write("/sim/interop/other.xml"); break;
			case 3: { dcp::InteropTextAsset t(path("/sim/interop/text.xml")); break; }
			}
		};
		break;
	}
	case KDM:
	{
		dcp::DecryptedKDM d(dcp::LocalTime("2027-12-31T00:00:00+00:00"), dcp::LocalTime("2028-12-31T00:00:00+00:00"), "a", "b", "2027-12-30T00:00:00+00:00");
		d.add_key(string("MDIK"), "c1d7ed50-0f4c-4a1c-8e37-000000000001", dcp::Key(), "c1d7ed50-0f4c-4a1c-8e37-000000000009", dcp::Standard::SMPTE);
		kdm = make_shared<dcp::EncryptedKDM>(d.encrypt(signer_chain(), recipient_chain()->leaf(), {}, dcp::Formulation::MODIFIED_TRANSITIONAL_1, true, 0));
		go = [&]() {
			kdm->as_xml(path("/sim/kdm.xml"));
			dcp::EncryptedKDM back(dcp::file_to_string("/sim/kdm.xml"));
		};
		break;
	}
	case READ:
	{
		make_packages(1);
		bool const notes = c.choose(2);
		go = [=]() {
			dcp::DCP d(path("/sim/lib/dcp0"));
			vector<dcp::VerificationNote> n;
			d.read(notes ? &n : nullptr, notes);
			for (auto i: d.assets()) i->hash();
		};
		break;
	}
	case WRITE_XML:
		make_packages(1);
		go = [&]() {
			dcp::DCP d(path("/sim/lib/dcp0"));
			for (auto i: packages[0].dcp->cpls()) d.add(i);
			for (auto i: d.assets(true)) i->unset_hash();
			d.write_xml();
		};
		break;
	case COMPARE:
		make_packages(2);
		go = []() {
			dcp::DCP a(path("/sim/lib/dcp0")), b(path("/sim/lib/dcp1"));
			a.read();
			b.read();
			dcp::EqualityOptions options;
			options.keep_going = true;
			options.max_mean_pixel_error = 5;
			options.max_std_dev_pixel_error = 5;
			options.max_audio_sample_error = 5;
			a.equals(a, options, [](dcp::NoteType, string) {});
			a.equals(b, options, [](dcp::NoteType, string) {});
		};
		break;
	case COMBINE:
		make_packages(2);
		go = []() { dcp::combine({path("/sim/lib/dcp0"), path("/sim/lib/dcp1")}, "/sim/out"); };
		break;
	case VERIFY:
		make_packages(1);
		tries = 1;
		go = []() {
			dcp::verify({path("/sim/lib/dcp0")}, {}, [](string, boost::optional<path>) {}, [](float) {}, {}, path(b_repository() + "/xsd"));
		};
		break;
	case KINDS:
		break;
	}

	auto const before = snapshot();
	auto execute = [&](Window& w) {
		// without allocations
		char outcome[256] = "returned";
		{
			WindowScope scope(w);
			try {
				go();
			} catch (std::exception& e) {
				snprintf(outcome, sizeof(outcome), "raised %s", e.what());
			}
		}
		auto const what = describe_fired(w);
		ctx.note("%s: %s -> %s", names[kind], what.c_str(), outcome);
		ctx.stats.sample = format_string("%s: %s -> %s", names[kind], what.c_str(), outcome);
		auto const open = open_handles();
		if (!open.empty()) {
			ctx.violate("a handle was left open", "%s %s open after %s: %s -> %s (%zu in all)",
				open[0].dir ? "directory" : "file", open[0].path.c_str(), names[kind], what.c_str(), outcome, open.size());
		}
	};

	Window dry;
	execute(dry);
	ctx.sig(uint64_t(kind));
	for (int i = 0; i < tries && !ctx.violated; ++i) {
		restore(before);
		set_disk_free(-1);
		Window w;
		int const how = int(c.choose(allocations ? 3 : 1));
		if (how != 1) w.faults = draw_faults(ctx, dry.ops, FaultMenu());
		if (how >= 1 && dry.allocs) w.alloc_fail_at = int(c.choose(uint32_t(dry.allocs)));
		execute(w);
		count_faults(ctx, w);
		if (w.alloc_failures) {
			ctx.count("fault.allocation", uint64_t(w.alloc_failures));
			ctx.stats.nontrivial = true;
			ctx.sig(uint64_t(w.alloc_fail_at));
		}
		for (auto const& f: w.fired) { ctx.sig(uint64_t(f.first)); ctx.sig(uint64_t(f.second.kind)); }
	}
	set_disk_free(-1);
}

}

SIM_PROPERTY(D10, package_setup, run, 16, "A run carries out one of 13 kinds of operation (loading, saving, filesystem calls, searching, writing and reading five kinds of MXF file, text assets, key messages, reading, writing, comparing, combining and verifying packages, some of them damaged), undisturbed and then 1-6 times with 1-3 faults placed on the recorded operations, a failing allocation, or both; afterwards no file or directory may be open. Non-trivial: a fault took effect. Distinct: by kind of operation and positions and kinds of faults.")
