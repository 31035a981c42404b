// M01: a finalised asset holds every frame that was accepted
// M02: an interrupted picture asset can be resumed without loss
#include "b_package.h"
#include "atmos_asset.h"
#include "atmos_asset_reader.h"
#include "atmos_asset_writer.h"
#include "atmos_frame.h"
#include "exceptions.h"
#include "mono_j2k_picture_asset.h"
#include "mono_j2k_picture_asset_reader.h"
#include "mono_j2k_picture_asset_writer.h"
#include "mono_j2k_picture_frame.h"
#include "mono_mpeg2_picture_asset.h"
#include "mono_mpeg2_picture_asset_reader.h"
#include "mono_mpeg2_picture_asset_writer.h"
#include "mono_mpeg2_picture_frame.h"
#include "smpte_text_asset.h"
#include "sound_asset.h"
#include "sound_asset_reader.h"
#include "sound_asset_writer.h"
#include "sound_frame.h"
#include "stereo_j2k_picture_asset.h"
#include "stereo_j2k_picture_asset_reader.h"
#include "stereo_j2k_picture_asset_writer.h"
#include "stereo_j2k_picture_frame.h"
#include "text_image.h"
#include <openssl/evp.h>
#include <cerrno>
#include <cstring>

using namespace sim;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

// the library lets a few named tests change identities
struct sync_test2 {
	static void set_id(dcp::Object& o, string id) { o._id = id; }
};

namespace {

enum Kind { MONO, STEREO, SOUND, ATMOS, MPEG2, TEXT, KINDS };
char const* const names[] = {"2D picture", "3D picture", "sound", "Atmos", "MPEG2 picture", "text"};

string const PATH = "/sim/asset.mxf";

string text_of(uint8_t const* p, int n) { return string(reinterpret_cast<char const*>(p), size_t(n)); }

string md5(string const& s)
{
	unsigned char d[64];
	unsigned n = 0;
	EVP_Digest(s.data(), s.size(), d, &n, EVP_md5(), nullptr);
	string r;
	for (unsigned i = 0; i < n; ++i) r += format_string("%02x", d[i]);
	return r;
}

// what is to be written
struct Plan {
	Kind kind = MONO;
	dcp::Standard standard = dcp::Standard::SMPTE;
	boost::optional<dcp::Key> key;
	string id, key_id, context_id;
	vector<string> frames;                // for SOUND, whole frames as stored
	int channels = 2;
	shared_ptr<dcp::SMPTETextAsset> text;
	string text_state;                    // how much there is in text
};

Plan draw_plan(Ctx& ctx, int kinds, int max_frames)
{
	auto& c = ctx.c;
	Plan p;
	p.kind = Kind(c.choose(uint32_t(kinds)));
	if (p.kind != ATMOS && p.kind != TEXT) p.standard = c.choose(2) ? dcp::Standard::INTEROP : dcp::Standard::SMPTE;
	if (c.choose(3) == 2) {
		p.key = dcp::Key("0123456789abcdef0123456789abcdef");
		p.key_id = "c1d7ed50-0f4c-4a1c-8e37-000000000001";
	}
	p.id = "c1d7ed50-0f4c-4a1c-8e37-000000000002";
	p.context_id = "c1d7ed50-0f4c-4a1c-8e37-000000000003";
	if (p.kind == TEXT) {
		p.text = make_smpte_text(ctx, p.text_state);
		if (p.key) {
			p.text->set_key_id(p.key_id);
			p.text->set_key(*p.key);
		}
		return p;
	}
	// now and then more frames than one byte can count
	bool const many = p.kind != SOUND && c.chance(1, 60);
	if (many) {
		max_frames = 300;
		ctx.count("assets of many frames");
	}
	int const n = c.range(many ? 258 : p.kind == STEREO ? 2 : 1, max_frames) / (p.kind == STEREO ? 2 : 1) * (p.kind == STEREO ? 2 : 1);
	p.channels = c.range(1, 2) * 2;
	for (int i = 0; i < n; ++i) {
		string data;
		switch (p.kind) {
		case MONO:
		case STEREO:
			data = text_of(small_frame().data(), small_frame().size());
			break;
		case MPEG2:
			data = string("\0\0\x01\xb3\x78\x04\x38\x13", 8);
			break;
		default: break;
		}
		static vector<size_t> const sizes = {0, 1, 15, 16, 17, 4095, 70000, 150000};
		if (p.kind == SOUND) data = c.bytes(size_t(2000 * 3 * p.channels));
		else data += c.bytes((p.kind == ATMOS ? 1 : 0) + (many ? 0 : c.pick(sizes)) + c.choose(40));
		p.frames.push_back(data);
	}
	return p;
}

struct Info { uint64_t offset, size; string hash; };

struct Written {
	bool finalised = false;
	bool raised = false;
	string error;
	int raised_during = -1, raised_until = -1;   // the operations of the call which raised
	bool disk_full = false, too_many = false;
	boost::filesystem::path full_path;
	vector<Info> infos;                   // of those which were accepted
	size_t accepted = 0;
	vector<int> returned_at;              // the operation which comes next when the call for a frame had returned
	string complaint;
	int64_t duration = -1;
};

template <class A> void prepare(A& a, Plan const& p)
{
	dcp::MXFMetadata m;
	m.company_name = "OpenDCP";
	m.product_name = "OpenDCP";
	m.product_version = "0.0.25";
	a.set_metadata(m);
	sync_test2::set_id(a, p.id);
	a.set_context_id(p.context_id);
	if (p.key) {
		a.set_key_id(p.key_id);
		a.set_key(*p.key);
	}
}

// frames from `first' on; `known' are those which an earlier attempt recorded
void write_asset(Plan const& p, Window& w, Written& r, dcp::Behaviour behaviour = dcp::Behaviour::MAKE_NEW, vector<Info> const& known = {})
{
	WindowScope scope(w);
	auto guard = [&](std::function<void ()> f) {
		if (r.raised) return;
		int const at = int(w.ops.size());
		try {
			f();
			return;
		} catch (dcp::DiskFullError& e) {
			r.disk_full = true;
			r.full_path = e.filename();
			r.error = e.what();
		} catch (dcp::TooManyOpenFilesError& e) {
			r.too_many = true;
			r.error = e.what();
		} catch (std::exception& e) {
			r.error = e.what();
		}
		r.raised = true;
		r.raised_during = at;
		r.raised_until = int(w.ops.size());
	};
	size_t const per = p.kind == STEREO ? 2 : 1;
	auto picture = [&](shared_ptr<dcp::J2KPictureAsset> asset) {
		prepare(*asset, p);
		auto writer = asset->start_write(PATH, behaviour);
		for (size_t i = 0; i < p.frames.size() && !r.raised; ++i) {
			auto const before = writer->frames_written();
			bool const fake = i > 0 && i < known.size();
			guard([&]() {
				if (fake) {
					writer->fake_write(dcp::J2KFrameInfo(known[i].offset, known[i].size, known[i].hash));
					r.infos.push_back(known[i]);
				} else {
					auto const f = writer->write(reinterpret_cast<uint8_t const*>(p.frames[i].data()), int(p.frames[i].size()));
					r.infos.push_back({f.offset, f.size, f.hash});
				}
			});
			if (!r.raised) {
				++r.accepted;
				r.returned_at.push_back(int(w.ops.size()));
			}
			if (r.raised && writer->frames_written() != before) r.complaint = "a frame which failed was counted as written";
			if (!r.raised && writer->frames_written() != int64_t(r.accepted / per)) r.complaint = format_string("%zu frames were accepted but %lld counted", r.accepted / per, (long long) writer->frames_written());
		}
		guard([&]() { writer->finalize(); r.finalised = true; r.duration = asset->intrinsic_duration(); });
	};
	auto plain = [&](dcp::AssetWriter& writer, std::function<int64_t ()> duration, std::function<void (string const&)> one) {
		for (size_t i = 0; i < p.frames.size() && !r.raised; ++i) {
			auto const before = writer.frames_written();
			guard([&]() { one(p.frames[i]); });
			if (!r.raised) ++r.accepted;
			if (r.raised && writer.frames_written() != before) r.complaint = "a frame which failed was counted as written";
			if (!r.raised && writer.frames_written() != int64_t(r.accepted)) r.complaint = format_string("%zu frames were accepted but %lld counted", r.accepted, (long long) writer.frames_written());
		}
		guard([&]() { writer.finalize(); r.finalised = true; r.duration = duration(); });
	};
	switch (p.kind) {
	case MONO: picture(make_shared<dcp::MonoJ2KPictureAsset>(dcp::Fraction(24, 1), p.standard)); break;
	case STEREO: picture(make_shared<dcp::StereoJ2KPictureAsset>(dcp::Fraction(24, 1), p.standard)); break;
	case MPEG2:
	{
		dcp::MonoMPEG2PictureAsset asset(dcp::Fraction(24, 1));
		prepare(asset, p);
		auto writer = asset.start_write(PATH, behaviour);
		plain(*writer, [&]() { return asset.intrinsic_duration(); }, [&](string const& f) {
			auto const i = writer->write(reinterpret_cast<uint8_t const*>(f.data()), int(f.size()));
			r.infos.push_back({i.offset, i.size, i.hash});
		});
		break;
	}
	case SOUND:
	{
		dcp::SoundAsset asset(dcp::Fraction(24, 1), 48000, p.channels, dcp::LanguageTag("en-GB"), p.standard);
		prepare(asset, p);
		auto writer = asset.start_write(PATH, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::ENABLED);
		plain(*writer, [&]() { return asset.intrinsic_duration(); }, [&](string const& f) {
			vector<vector<int32_t>> samples(static_cast<size_t>(p.channels), vector<int32_t>(2000));
			vector<int32_t const*> pointers;
			for (int ch = 0; ch < p.channels; ++ch) {
				for (int s = 0; s < 2000; ++s) {
					auto d = reinterpret_cast<uint8_t const*>(f.data()) + (s * p.channels + ch) * 3;
					samples[size_t(ch)][size_t(s)] = int32_t(uint32_t(d[0]) << 8 | uint32_t(d[1]) << 16 | uint32_t(d[2]) << 24) >> 8;
				}
				pointers.push_back(samples[size_t(ch)].data());
			}
			writer->write(pointers.data(), p.channels, 2000);
		});
		break;
	}
	case ATMOS:
	{
		dcp::AtmosAsset asset(dcp::Fraction(24, 1), 0, 10, 118, 1);
		prepare(asset, p);
		auto writer = asset.start_write(PATH);
		plain(*writer, [&]() { return asset.intrinsic_duration(); }, [&](string const& f) { writer->write(reinterpret_cast<uint8_t const*>(f.data()), int(f.size())); });
		break;
	}
	case TEXT:
		guard([&]() { p.text->write(PATH); r.finalised = true; });
		break;
	default: break;
	}
}

// the frames as the library reads them; empty string for one which raised
struct ReadBack {
	string error;
	int64_t duration = -1;
	vector<string> frames;
	vector<bool> raised;
	string text_state;
};

ReadBack read_asset(Plan const& p, size_t expected)
{
	ReadBack r;
	try {
		auto frames = [&](size_t n, std::function<void (int, vector<string>&)> get) {
			for (size_t i = 0; i < n; ++i) {
				vector<string> got;
				try {
					get(int(i), got);
					for (auto const& j: got) { r.frames.push_back(j); r.raised.push_back(false); }
				} catch (std::exception& e) {
					if (r.error.empty()) r.error = format_string("frame %zu: ", i) + e.what();
					for (size_t j = 0; j < (p.kind == STEREO ? 2u : 1u); ++j) { r.frames.push_back(""); r.raised.push_back(true); }
				}
			}
		};
		switch (p.kind) {
		case MONO:
		{
			dcp::MonoJ2KPictureAsset a{boost::filesystem::path(PATH)};
			if (p.key) a.set_key(*p.key);
			r.duration = a.intrinsic_duration();
			auto reader = a.start_read();
			frames(expected, [&](int i, vector<string>& g) { auto f = reader->get_frame(i); g.push_back(text_of(f->data(), f->size())); });
			break;
		}
		case STEREO:
		{
			dcp::StereoJ2KPictureAsset a{boost::filesystem::path(PATH)};
			if (p.key) a.set_key(*p.key);
			r.duration = a.intrinsic_duration();
			auto reader = a.start_read();
			frames(expected / 2, [&](int i, vector<string>& g) {
				auto f = reader->get_frame(i);
				g.push_back(text_of(f->left()->data(), f->left()->size()));
				g.push_back(text_of(f->right()->data(), f->right()->size()));
			});
			break;
		}
		case MPEG2:
		{
			dcp::MonoMPEG2PictureAsset a{boost::filesystem::path(PATH)};
			if (p.key) a.set_key(*p.key);
			r.duration = a.intrinsic_duration();
			auto reader = a.start_read();
			frames(expected, [&](int i, vector<string>& g) { auto f = reader->get_frame(i); g.push_back(text_of(f->data(), f->size())); });
			break;
		}
		case SOUND:
		{
			dcp::SoundAsset a{boost::filesystem::path(PATH)};
			if (p.key) a.set_key(*p.key);
			r.duration = a.intrinsic_duration();
			auto reader = a.start_read();
			frames(expected, [&](int i, vector<string>& g) { auto f = reader->get_frame(i); g.push_back(text_of(f->data(), f->size())); });
			break;
		}
		case ATMOS:
		{
			dcp::AtmosAsset a{boost::filesystem::path(PATH)};
			if (p.key) a.set_key(*p.key);
			r.duration = a.intrinsic_duration();
			auto reader = a.start_read();
			frames(expected, [&](int i, vector<string>& g) { auto f = reader->get_frame(i); g.push_back(text_of(f->data(), f->size())); });
			break;
		}
		case TEXT:
		{
			dcp::SMPTETextAsset a{boost::filesystem::path(PATH)};
			if (p.key) a.set_key(*p.key);
			r.text_state = describe_smpte_text(a);
			break;
		}
		default: break;
		}
	} catch (std::exception& e) {
		r.error = e.what();
	}
	return r;
}

// what is wrong with a finalised asset, on a healthy disk
string check_asset(Plan const& p, Written const& w)
{
	if (!w.complaint.empty()) return w.complaint;
	auto const r = read_asset(p, p.frames.size());
	if (!r.error.empty()) return "it could not be read: " + r.error;
	if (p.kind == TEXT) return r.text_state == p.text_state ? "" : "text read back differs: " + r.text_state + " rather than " + p.text_state;
	auto const want = int64_t(p.frames.size() / (p.kind == STEREO ? 2 : 1));
	if (r.duration != want) return format_string("its duration is %lld rather than %lld", (long long) r.duration, (long long) want);
	if (w.duration != want) return format_string("the writer's asset has duration %lld rather than %lld", (long long) w.duration, (long long) want);
	for (size_t i = 0; i < p.frames.size(); ++i) if (r.frames[i] != p.frames[i]) return format_string("frame %zu differs: ", i) + show(r.frames[i]) + " rather than " + show(p.frames[i]);
	string file;
	get_file(PATH, file);
	if (!w.infos.empty() && w.infos.size() != p.frames.size()) return "not all frames were accepted";
	for (size_t i = 0; i < w.infos.size(); ++i) {
		auto const& f = w.infos[i];
		if (f.offset + f.size > file.size()) return format_string("information about frame %zu points outside of the file", i);
		auto const stored = file.substr(f.offset, f.size);
		if (!p.key && stored.find(p.frames[i]) == string::npos) return format_string("information about frame %zu does not point to it", i);
		if (md5(stored) != f.hash) return format_string("hash of frame %zu is %s rather than %s", i, f.hash.c_str(), md5(stored).c_str());
		if (i && f.offset < w.infos[i - 1].offset + w.infos[i - 1].size) return format_string("frame %zu overlaps the one before", i);
	}
	return "";
}

void run_m01(Ctx& ctx)
{
	auto& c = ctx.c;
	put_dir("/sim");
	auto const p = draw_plan(ctx, KINDS, 5);
	ctx.sig(uint64_t(p.kind));
	ctx.sig(uint64_t(p.frames.size()));
	// a file which is there already
	if (c.choose(3) == 2) put_file(PATH, c.bytes(c.choose(200000)));
	auto const before = snapshot();
	Window dry;
	Written w;
	write_asset(p, dry, w);
	ctx.note("%s, %zu frames%s: %s", names[p.kind], p.frames.size(), p.key ? ", encrypted" : "", w.raised ? w.error.c_str() : "written");
	if (w.raised) {
		ctx.violate("asset not written", "%s could not be written to a healthy disk: %s", names[p.kind], w.error.c_str());
		return;
	}
	auto wrong = check_asset(p, w);
	if (!wrong.empty()) {
		ctx.violate("asset is not what was written", "%s: %s", names[p.kind], wrong.c_str());
		return;
	}
	auto const good = snapshot();
	int const tries = c.range(1, 4);
	for (int t = 0; t < tries && !ctx.violated; ++t) {
		if (c.choose(4) == 3) {
			// faults while it is read
			restore(good);
			set_disk_free(-1);
			Window dry_read;
			{
				WindowScope scope(dry_read);
				read_asset(p, p.frames.size());
			}
			restore(good);
			FaultMenu menu;
			menu.writes = false;
			Window w2;
			w2.faults = draw_faults(ctx, dry_read.ops, menu);
			ReadBack r;
			{
				WindowScope scope(w2);
				r = read_asset(p, p.frames.size());
			}
			count_faults(ctx, w2);
			ctx.note("read with %s: %s", describe_fired(w2).c_str(), r.error.c_str());
			if (p.kind == TEXT) {
				if (r.error.empty() && r.text_state != p.text_state) ctx.violate("wrong frame read", "%s: %s; %s", names[p.kind], r.text_state.c_str(), describe_fired(w2).c_str());
			}
			for (size_t i = 0; i < r.frames.size(); ++i) {
				if (!r.raised[i] && r.frames[i] != p.frames[i]) ctx.violate("wrong frame read", "%s: frame %zu: %s", names[p.kind], i, describe_fired(w2).c_str());
			}
			for (auto const& f: w2.fired) { ctx.sig(uint64_t(f.first)); ctx.sig(uint64_t(f.second.kind)); }
			continue;
		}
		restore(before);
		set_disk_free(-1);
		Window w2;
		Written r;
		bool const limited = c.choose(12) == 11;
		if (limited) {
			set_handle_limit(1);
			put_dir("/sim/x");
			// something else has the only handle
			auto f = fopen("/sim/keep", "w");
			write_asset(p, w2, r);
			if (f) fclose(f);
			set_handle_limit(0);
		} else {
			FaultMenu menu;
			menu.filter = [](OpRec const& o) { return o.op != Op::CLOSE; };
			w2.faults = draw_faults(ctx, dry.ops, menu);
			write_asset(p, w2, r);
			count_faults(ctx, w2);
		}
		auto const fired = limited ? string("no handles left") : describe_fired(w2);
		ctx.note("written with %s: %s", fired.c_str(), r.raised ? r.error.c_str() : "ok");
		ctx.sig(uint64_t(r.raised));
		for (auto const& f: w2.fired) { ctx.sig(uint64_t(f.first)); ctx.sig(uint64_t(f.second.kind)); }
		if (!r.complaint.empty()) {
			ctx.violate("wrong count", "%s: %s; %s", names[p.kind], r.complaint.c_str(), fired.c_str());
		} else if (r.finalised) {
			wrong = check_asset(p, r);
			if (!wrong.empty()) ctx.violate("failure not reported", "%s: %s; %s", names[p.kind], wrong.c_str(), fired.c_str());
		} else {
			// what the kernel said last before the call raised
			int err = limited ? EMFILE : 0;
			int at = -1;
			for (auto const& f: w2.fired) {
				auto const op = w2.ops[size_t(f.first)].op;
				if (f.first < r.raised_during || f.first >= r.raised_until || (op != Op::WRITE && op != Op::OPEN)) continue;
				if (at != -1 && f.first != at) break;
				at = f.first;
				err = f.second.kind == FaultKind::ERRNO ? f.second.err : 0;
			}
			if ((err == ENOSPC || err == EDQUOT) && (!r.disk_full || r.full_path.string() != PATH)) {
				ctx.violate("wrong error for a full disk", "%s: %s; %s", names[p.kind], r.error.c_str(), fired.c_str());
			}
			if (err == EMFILE && !r.too_many) ctx.violate("wrong error for too many open files", "%s: %s; %s", names[p.kind], r.error.c_str(), fired.c_str());
		}
		ctx.stats.sample = format_string("%s, %zu frames: %s -> %s", names[p.kind], p.frames.size(), fired.c_str(), r.raised ? r.error.c_str() : "ok");
		if (!open_handles().empty()) ctx.violate("file left open", "%s: %s", names[p.kind], fired.c_str());
	}
}

void run_m02(Ctx& ctx)
{
	auto& c = ctx.c;
	put_dir("/sim");
	auto const p = draw_plan(ctx, 2, 12);
	if (c.choose(3) == 2) put_file(PATH, c.bytes(c.choose(300000)));
	auto const before = snapshot();
	Window dry;
	Written whole;
	write_asset(p, dry, whole);
	string reference;
	get_file(PATH, reference);
	auto wrong = whole.raised ? whole.error : check_asset(p, whole);
	if (!wrong.empty()) {
		ctx.violate("asset is not what was written", "%s: %s", names[p.kind], wrong.c_str());
		return;
	}
	ctx.sig(uint64_t(p.kind));
	ctx.sig(uint64_t(p.frames.size()));
	int const tries = c.range(1, 3);
	for (int t = 0; t < tries && !ctx.violated; ++t) {
		restore(before);
		auto image = before;
		vector<Info> known;
		int const crashes = 1 + (c.choose(3) == 2 ? 1 : 0);
		string story;
		auto behaviour = dcp::Behaviour::MAKE_NEW;
		for (int k = 0; k < crashes; ++k) {
			restore(image);
			// how many operations it takes
			Window length;
			Written all;
			write_asset(p, length, all, behaviour, known);
			if (all.raised) {
				ctx.violate("resumed writing raised", "%s: %s: %s", names[p.kind], story.c_str(), all.error.c_str());
				return;
			}
			restore(image);
			Window w;
			auto const at = int(c.choose(uint32_t(length.ops.size())));
			w.crash_at = {at};
			w.crash_frac = {c.choose(17)};
			Written r;
			write_asset(p, w, r, behaviour, known);
			if (w.crashes.empty()) break;
			image = w.crashes[0].second;
			// what had been recorded when it died: the frames whose calls had returned
			vector<Info> recorded;
			size_t n = 0;
			while (n < r.returned_at.size() && r.returned_at[n] <= at) ++n;
			for (size_t i = 0; i < n; ++i) recorded.push_back(r.infos[i]);
			// the caller may trust fewer of them
			if (c.choose(3) == 2 && !recorded.empty()) recorded.resize(c.choose(uint32_t(recorded.size() + 1)));
			if (recorded.size() < known.size() && c.choose(2)) {
				// it still has what it knew before
				recorded = known;
			}
			known = recorded;
			story += format_string("died at operation %d of %zu (%s) with %zu of %zu frames recorded; ", at, length.ops.size(), op_name(w.ops[size_t(at)].op), known.size(), p.frames.size());
			behaviour = dcp::Behaviour::OVERWRITE_EXISTING;
			ctx.count(string("fault.crash.") + op_name(w.ops[size_t(at)].op));
			ctx.stats.nontrivial = true;
			ctx.sig(uint64_t(at));
			ctx.sig(uint64_t(known.size()));
		}
		restore(image);
		Window w;
		Written r;
		write_asset(p, w, r, behaviour, known);
		ctx.note("%s%s", story.c_str(), r.raised ? r.error.c_str() : "resumed");
		if (r.raised) {
			ctx.violate("resumed writing raised", "%s: %s%s", names[p.kind], story.c_str(), r.error.c_str());
			return;
		}
		wrong = check_asset(p, r);
		if (!wrong.empty()) ctx.violate("resumed asset differs", "%s: %s%s", names[p.kind], story.c_str(), wrong.c_str());
		for (size_t i = 0; i < r.infos.size() && !ctx.violated; ++i) {
			auto const& a = r.infos[i];
			auto const& b = whole.infos[i];
			if (a.offset != b.offset || a.size != b.size || (!p.key && a.hash != b.hash)) ctx.violate("resumed asset differs", "%s: %sinformation about frame %zu differs", names[p.kind], story.c_str(), i);
		}
		ctx.stats.sample = string(names[p.kind]) + ": " + story;
	}
}

}

SIM_PROPERTY(M01, package_setup, run_m01, 32, "A run writes an asset of one of six kinds (2D and 3D JPEG2000, MPEG2, sound, Atmos, SMPTE text; SMPTE or Interop, plain or encrypted, 1-5 frames from 1 byte to 150 kB or, one in sixty, about 300 small frames, onto nothing or an existing file) and reads it back, then 1-4 times writes or reads it again with 1-3 faults placed on the recorded operations or with no file handles left. Non-trivial: a fault took effect. Distinct: by kind, number of frames, positions and kinds of faults, and outcome.")
SIM_PROPERTY(M02, package_setup, run_m02, 32, "A run writes a picture asset (2D or 3D, plain or encrypted, 1-12 frames or, one in sixty, about 300) and then 1-3 times writes it again with the process dying at a drawn operation (a write in progress lands in sixteenths), once or twice, each time resuming on what is on the disk with all or some of the recorded frames, and compares the finished asset with the one written in one go. Non-trivial: a crash happened. Distinct: by kind, number of frames, crash points and number of frames recorded.")
