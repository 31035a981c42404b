// M03: sound does not depend on how it was cut into pieces
#include "b_package.h"
#include "sound_asset.h"
#include "sound_asset_reader.h"
#include "sound_asset_writer.h"
#include "sound_frame.h"
#include <cmath>
#include <cstring>

using namespace sim;
using std::string;
using std::vector;

// in the stand-in: packets go here instead of to the disk
namespace ASDCP { namespace standin { extern std::function<void (FrameBuffer const&)> instead_of_storing; } }

namespace {

struct Rate { int numerator, denominator, samples, code, packets, padding; };
// edit rates with the number of samples per frame at 48 kHz and, from SMPTE ST 430-12, the synchronisation parameters
Rate const rates[] = {
	{24, 1, 2000, 0, 4, 25},
	{25, 1, 1920, 1, 4, 20},
	{30, 1, 1600, 2, 4, 0},
	{48, 1, 1000, 3, 2, 25},
	{50, 1, 960, 4, 2, 20},
	{60, 1, 800, 5, 2, 0},
	{96, 1, 500, 6, 1, 25},
	{100, 1, 480, 7, 1, 20},
	{120, 1, 400, 8, 1, 0},
	{24000, 1001, 2002, -1, 0, 0},
	{30000, 1001, 1602, -1, 0, 0},
};

// the waveform of a bit depends only on its value, on the one before and on the polarity then
struct Wave {
	bool last = false, positive = false;
	void bit(bool b, vector<int>& out)
	{
		static double const shape[2][4] = {{0.03827, 0.09239, 0.09239, 0.03827}, {0.07071, 0.07071, -0.07071, -0.07071}};
		if (!last) positive = !positive;
		for (auto s: shape[b]) {
			auto const v = int(s * 8388608);
			out.push_back(positive ? v : -v);
		}
		last = b;
	}
};

unsigned crc16(vector<bool> const& bits, size_t from, size_t to)
{
	unsigned crc = 0;
	for (size_t i = from; i < to; ++i) {
		bool const top = ((crc >> 15) & 1) != unsigned(bits[i]);
		crc = (crc << 1) & 0xffff;
		if (top) crc ^= 0x1021;
	}
	return crc;
}

unsigned value(vector<bool> const& bits, size_t from, size_t n)
{
	unsigned v = 0;
	for (size_t i = 0; i < n; ++i) v = v << 1 | unsigned(bits[from + i]);
	return v;
}

// checks the signal of the whole asset; `supplied' is how many samples the caller gave
string check_sync(vector<int> const& samples, size_t supplied, Rate const& rate, string const& id)
{
	size_t const bits_per_frame = size_t(rate.samples) / 4;
	// bits, from the size of their first sample
	vector<bool> bits;
	for (size_t i = 0; i + 4 <= supplied; i += 4) bits.push_back(std::abs(samples[i]) > int(0.05 * 8388608));
	// the waveform which these bits must have
	Wave wave;
	vector<int> expected;
	for (auto b: bits) wave.bit(b, expected);
	for (size_t i = 0; i < expected.size(); ++i) {
		if (std::abs(expected[i] - samples[i]) > 1) return format_string("the signal is not continuous: sample %zu (frame %zu) is %d rather than %d", i, i / size_t(rate.samples), samples[i], expected[i]);
	}
	string hex;
	for (auto ch: id) if (ch != '-') hex += ch;
	size_t const length = bits_per_frame / size_t(rate.packets);
	for (size_t p = 0; (p + 1) * length <= bits.size(); ++p) {
		size_t const at = p * length;
		size_t const frame = p / size_t(rate.packets);
		auto wrong = [&](char const* what, unsigned got, unsigned want) { return format_string("packet %zu (frame %zu): %s is %x rather than %x", p, frame, what, got, want); };
		if (value(bits, at, 16) != 0x4d56) return wrong("start", value(bits, at, 16), 0x4d56);
		if (value(bits, at + 16, 4) != unsigned(rate.code)) return wrong("edit rate", value(bits, at + 16, 4), unsigned(rate.code));
		if (value(bits, at + 20, 2) != 0) return wrong("reserved field", value(bits, at + 20, 2), 0);
		if (value(bits, at + 22, 2) != p % 4) return wrong("part number", value(bits, at + 22, 2), unsigned(p % 4));
		unsigned const part = unsigned(strtoul(hex.substr((p % 4) * 8, 8).c_str(), nullptr, 16));
		if (value(bits, at + 24, 32) != part) return wrong("part of the identity", value(bits, at + 24, 32), part);
		if (value(bits, at + 56, 24) != frame) return wrong("frame count", value(bits, at + 56, 24), unsigned(frame));
		if (value(bits, at + 80, 16) != crc16(bits, at + 16, at + 80)) return wrong("checksum", value(bits, at + 80, 16), crc16(bits, at + 16, at + 80));
		for (size_t i = at + 96; i < at + length; ++i) if (bits[i]) return wrong("padding", 1, 0);
	}
	return "";
}

// so many frames that their number needs more than one or two bytes; these are looked at instead of being stored
void run_long(Ctx& ctx)
{
	auto& c = ctx.c;
	Rate const* fastest = &rates[0];
	for (auto const& i: rates) if (i.packets && i.samples < fastest->samples) fastest = &i;
	auto const& rate = *fastest;
	int const channels = 14;
	int const frames = (c.choose(4) == 3 ? 65536 : 256) + int(c.range(2, 40));
	dcp::SoundAsset asset(dcp::Fraction(rate.numerator, rate.denominator), 48000, channels, dcp::LanguageTag("en-GB"), dcp::Standard::SMPTE);
	vector<int> signal;
	signal.reserve(size_t(frames) * size_t(rate.samples));
	ASDCP::standin::instead_of_storing = [&](ASDCP::FrameBuffer const& b) {
		auto const p = b.RoData();
		for (ui32_t i = 0; i + channels * 3 <= b.Size(); i += channels * 3) {
			auto const q = p + i + 13 * 3;
			signal.push_back(int(uint32_t(q[0]) << 8 | uint32_t(q[1]) << 16 | uint32_t(q[2]) << 24) >> 8);
		}
	};
	struct Reset { ~Reset() { ASDCP::standin::instead_of_storing = nullptr; } } reset;
	auto writer = asset.start_write("/sim/sound.mxf", {}, dcp::SoundAsset::AtmosSync::ENABLED, dcp::SoundAsset::MCASubDescriptors::DISABLED);
	int const at_once = rate.samples * 8 - int(c.choose(3));
	vector<int32_t> silence(size_t(at_once), 0);
	int32_t const* p[] = {silence.data()};
	for (int64_t left = int64_t(frames) * rate.samples; left > 0;) {
		int const n = int(std::min<int64_t>(left, at_once));
		writer->write(p, 1, n);
		left -= n;
	}
	writer->finalize();
	ctx.note("%d frames at %d per second", frames, rate.numerator);
	ctx.count("frames_of_long_streams", uint64_t(frames));
	ctx.stats.nontrivial = true;
	ctx.sig(uint64_t(frames));
	ctx.stats.sample = ctx.notes;
	if (signal.size() != size_t(frames) * size_t(rate.samples)) {
		ctx.violate("wrong duration", "%zu samples instead of %zu", signal.size(), size_t(frames) * size_t(rate.samples));
		return;
	}
	auto const wrong = check_sync(signal, signal.size(), rate, asset.id());
	if (!wrong.empty()) ctx.violate("wrong synchronisation signal", "at %d frames per second: %s", rate.numerator, wrong.c_str());
}

void run_m03(Ctx& ctx)
{
	auto& c = ctx.c;
	put_dir("/sim");
	if (c.choose(200) == 199) {
		run_long(ctx);
		return;
	}
	auto const& rate = rates[c.choose(sizeof(rates) / sizeof(rates[0]))];
	bool const sync = rate.packets && c.choose(2);
	int const channels = sync ? 14 + int(c.choose(3)) : 1 + int(c.choose(8));
	auto const standard = sync || c.choose(2) == 0 ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	// whole frames, or a part of one at the end
	size_t total = size_t(rate.samples) * (c.choose(sync ? 6 : 3) + 1);
	if (c.choose(2)) total += c.choose(uint32_t(rate.samples));
	if (c.choose(8) == 7) total = 1 + c.choose(5);

	// the samples, and what is to be stored
	vector<vector<int>> expected(static_cast<size_t>(channels), vector<int>(total, 0));
	vector<vector<float>> floats(static_cast<size_t>(channels), vector<float>(total, 0));
	vector<vector<int32_t>> ints(static_cast<size_t>(channels), vector<int32_t>(total, 0));
	PRNG r(c.choose(1000));
	for (int ch = 0; ch < channels; ++ch) {
		for (size_t i = 0; i < total; ++i) {
			int v = int(r.below(1 << 24)) - (1 << 23);
			auto const extreme = r.below(32);
			if (extreme == 0) v = (1 << 23) - 1;
			if (extreme == 1) v = -(1 << 23) + 1;
			if (extreme == 2) v = 0;
			if (v == -(1 << 23)) v = 0;
			expected[size_t(ch)][i] = v;
			floats[size_t(ch)][i] = float(v) / float(1 << 23);
			ints[size_t(ch)][i] = v;
		}
	}

	dcp::SoundAsset asset(dcp::Fraction(rate.numerator, rate.denominator), 48000, channels, dcp::LanguageTag("en-GB"), standard);
	if (c.choose(4) == 3) asset.set_key(dcp::Key("0123456789abcdef0123456789abcdef"));
	auto const key = asset.key();
	auto const id = asset.id();
	auto writer = asset.start_write("/sim/sound.mxf", {}, sync ? dcp::SoundAsset::AtmosSync::ENABLED : dcp::SoundAsset::AtmosSync::DISABLED,
		c.choose(2) ? dcp::SoundAsset::MCASubDescriptors::DISABLED : dcp::SoundAsset::MCASubDescriptors::ENABLED);
	// how the caller cuts it
	int const style = int(c.choose(4));
	int calls = 0;
	string cuts;
	for (size_t at = 0; at < total;) {
		size_t n = 0;
		switch (style) {
		case 0: n = total; break;
		case 1: n = size_t(rate.samples) - 1 + c.choose(3); break;
		case 2: n = 1 + c.choose(uint32_t(rate.samples) * 2); break;
		case 3: n = 1 + c.choose(7) + (c.choose(8) ? size_t(rate.samples) / 5 : 0); break;
		}
		n = std::min(n, total - at);
		// some channels may be left out
		int given = channels;
		if (c.choose(5) == 4) given = int(c.choose(uint32_t(channels + 1)));
		if (c.choose(2)) {
			vector<float const*> p;
			for (auto const& i: floats) p.push_back(i.data() + at);
			writer->write(p.data(), given, int(n));
		} else {
			vector<int32_t const*> p;
			for (auto const& i: ints) p.push_back(i.data() + at);
			writer->write(p.data(), given, int(n));
		}
		for (int ch = given; ch < channels; ++ch) for (size_t i = at; i < at + n; ++i) expected[size_t(ch)][i] = 0;
		at += n;
		++calls;
		cuts += format_string("%zu%s", n, given < channels ? "- " : " ");
		auto const whole = int64_t(at / size_t(rate.samples));
		if (writer->frames_written() != whole) {
			ctx.violate("wrong count", "%lld frames counted after %zu samples of %d per frame", (long long) writer->frames_written(), at, rate.samples);
			return;
		}
	}
	writer->finalize();
	writer.reset();
	ctx.note("%d/%d, %d channels, %zu samples%s cut %s", rate.numerator, rate.denominator, channels, total, sync ? ", with synchronisation" : "", cuts.substr(0, 200).c_str());
	ctx.count("write_calls", uint64_t(calls));
	ctx.stats.nontrivial = calls > 1;
	ctx.sig(uint64_t(rate.numerator));
	ctx.sig(uint64_t(channels));
	ctx.sig(uint64_t(sync));
	ctx.sig(cuts);
	ctx.stats.sample = ctx.notes;

	dcp::SoundAsset back{boost::filesystem::path("/sim/sound.mxf")};
	if (key) back.set_key(*key);
	auto const frames = (total + size_t(rate.samples) - 1) / size_t(rate.samples);
	if (back.intrinsic_duration() != int64_t(frames) || asset.intrinsic_duration() != int64_t(frames)) {
		ctx.violate("wrong duration", "%lld frames (%lld according to the writer) for %zu samples of %d per frame", (long long) back.intrinsic_duration(), (long long) asset.intrinsic_duration(), total, rate.samples);
		return;
	}
	auto reader = back.start_read();
	vector<int> signal;
	for (size_t f = 0; f < frames; ++f) {
		auto frame = reader->get_frame(int(f));
		if (frame->channels() != channels || frame->samples() != rate.samples) {
			ctx.violate("wrong frame size", "frame %zu has %d channels and %d samples", f, frame->channels(), frame->samples());
			return;
		}
		for (int i = 0; i < rate.samples; ++i) {
			for (int ch = 0; ch < channels; ++ch) {
				size_t const at = f * size_t(rate.samples) + size_t(i);
				auto const got = frame->get(ch, i);
				if (sync && ch == 13) {
					signal.push_back(got);
					if (at >= total && got) ctx.violate("no silence at the end", "sample %zu of the synchronisation signal is %d", at, got);
					continue;
				}
				auto const want = at < total ? expected[size_t(ch)][at] : 0;
				if (got != want) {
					ctx.violate("wrong sample", "sample %zu of channel %d is %d rather than %d (%d/%d, cut %s)", at, ch, got, want, rate.numerator, rate.denominator, cuts.substr(0, 300).c_str());
					return;
				}
			}
		}
	}
	if (sync) {
		auto const wrong = check_sync(signal, total, rate, id);
		if (!wrong.empty()) ctx.violate("wrong synchronisation signal", "at %d frames per second: %s", rate.numerator, wrong.c_str());
		ctx.count("synchronised");
	}
}

}

SIM_PROPERTY(M03, b_setup, run_m03, 32, "A run writes a stream of samples (11 edit rates, 1-16 channels, up to six frames and a part of one, floating-point and integer calls mixed, channels left out now and then, plain or encrypted, with or without the synchronisation signal) cut into write calls in one of four styles, and compares every stored sample with the stream, and the synchronisation signal with a decoder written from the standard; one run in 200 is of more than 256 or 65536 frames, of which the signal is looked at without storing them. Non-trivial: more than one call. Distinct: by rate, channels and cutting.")
