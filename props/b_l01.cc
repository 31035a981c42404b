// L01: documents do not depend on the locale of the process
#include "b_package.h"
#include "content_kind.h"
#include "decrypted_kdm.h"
#include "encrypted_kdm.h"
#include "h_align.h"
#include "interop_text_asset.h"
#include "language_tag.h"
#include "local_time.h"
#include "main_sound_configuration.h"
#include "name_format.h"
#include "raw_convert.h"
#include "reel.h"
#include "smpte_text_asset.h"
#include "text_string.h"
#include "types.h"
#include "util.h"
#include "v_align.h"
#include "verify.h"
#include <clocale>
#include <cstdlib>
#include <locale>
#include <sys/syscall.h>
#include <unistd.h>

using namespace sim;
using std::dynamic_pointer_cast;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

namespace {

struct Continental : public std::numpunct<char> {
	char do_decimal_point() const override { return ','; }
	char do_thousands_sep() const override { return '.'; }
	string do_grouping() const override { return "\3"; }
};

char const* const NAMES[] = {"C", "de_DE.UTF-8", "tr_TR.ISO-8859-9", "tr_TR.UTF-8", "de_DE.UTF-8 of the thread", "continental streams", "de_DE.UTF-8 and continental streams", "tr_TR.UTF-8 everywhere"};
int const LOCALES = 8;
locale_t g_thread = nullptr;
bool g_usable[LOCALES];

void use(int n)
{
	static std::locale const streams(std::locale::classic(), new Continental);
	// setting the global locale of C++ may set that of C too
	if (n == 7) {
		std::locale::global(std::locale(NAMES[3]));
		return;
	}
	std::locale::global(n >= 5 ? streams : std::locale::classic());
	setlocale(LC_ALL, n == 1 || n == 6 ? NAMES[1] : n == 2 || n == 3 ? NAMES[n] : "C");
	uselocale(n == 4 ? g_thread : LC_GLOBAL_LOCALE);
}

void setup()
{
	package_setup();
	// these were compiled when the check was built
	char self[4096];
	auto const n = ::syscall(SYS_readlink, "/proc/self/exe", self, sizeof(self));
	string const exe(self, n > 0 ? size_t(n) : 0);
	setenv("LOCPATH", (exe.substr(0, exe.rfind('/')) + "/locale").c_str(), 1);
	g_thread = newlocale(LC_ALL_MASK, NAMES[1], nullptr);
	for (int i = 0; i < LOCALES; ++i) {
		g_usable[i] = i == 0 || i == 5 || (i == 4 && g_thread) || (i != 4 && setlocale(LC_ALL, NAMES[i == 6 ? 1 : i == 7 ? 3 : i]));
	}
	use(0);
}

// what a history does and sees
struct Story {
	Ctx& ctx;
	vector<int> locales;            // of each step
	vector<string> seen;
	size_t step = 0;
	int used = 0;                   // steps which ran in another locale than C

	// runs part of the library in the locale of the step
	template <class F> bool in(char const* what, F f)
	{
		int const n = locales[step++ % locales.size()];
		use(n);
		if (n) ++used;
		bool ok = true;
		string error;
		try {
			f();
		} catch (std::exception& e) {
			ok = false;
			error = e.what();
		}
		use(0);
		seen.push_back(string(what) + (ok ? " returned" : " raised"));
		ctx.note("%s in %s: %s %s", what, NAMES[n], ok ? "returned" : "raised", error.c_str());
		return ok;
	}
	void see(string s) { seen.push_back(s); }
};

string describe(dcp::TextAsset const& a, dcp::Standard standard)
{
	string r;
	for (auto i: a.texts()) {
		r += i->in().as_string(standard) + " " + i->out().as_string(standard) + " " + i->fade_up_time().as_string(standard) + " " + i->fade_down_time().as_string(standard);
		r += format_string(" %a %d %a %d %a ", double(i->h_position()), int(i->h_align()), double(i->v_position()), int(i->v_align()), double(i->z_position()));
		if (auto s = dynamic_pointer_cast<const dcp::TextString>(i)) {
			r += s->text() + format_string(" %d %a %a %s %s", s->size(), double(s->aspect_adjust()), double(s->space_before()), s->colour().to_argb_string().c_str(), s->effect_colour().to_argb_string().c_str());
		}
		r += "\n";
	}
	return r;
}

float some_float(Ctx& ctx)
{
	return float(ctx.c.choose(200001)) / 100000 - 1;
}

shared_ptr<dcp::TextString> some_text(Ctx& ctx)
{
	auto& c = ctx.c;
	int const rate = 24;
	return make_shared<dcp::TextString>(
		string("font"), c.choose(2), c.choose(2), c.choose(2),
		dcp::Colour(int(c.choose(256)), int(c.choose(256)), int(c.choose(256))),
		int(c.range(1, 5000)), 1 + some_float(ctx) / 4,
		dcp::Time(int(c.choose(30)), int(c.choose(60)), int(c.choose(60)), int(c.choose(24)), rate),
		dcp::Time(int(30 + c.choose(30)), int(c.choose(60)), int(c.choose(60)), int(c.choose(24)), rate),
		some_float(ctx), c.choose(2) ? dcp::HAlign::LEFT : dcp::HAlign::CENTER,
		some_float(ctx), c.choose(2) ? dcp::VAlign::TOP : dcp::VAlign::BOTTOM,
		some_float(ctx), vector<dcp::Text::VariableZPosition>(),
		dcp::Direction::LTR, "IiI text 1.234,5", dcp::Effect::BORDER,
		dcp::Colour(int(c.choose(256)), int(c.choose(256)), int(c.choose(256))),
		dcp::Time(0, 0, 0, int(c.choose(24)), rate), dcp::Time(0, 0, 0, int(c.choose(24)), rate),
		some_float(ctx), vector<dcp::Ruby>()
		);
}

string mixed_case(Ctx& ctx, string s)
{
	auto const which = ctx.c.choose(4);
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] >= 'a' && s[i] <= 'z' && (which == 1 || (which == 2 && i == 0) || (which == 3 && i % 2))) s[i] = char(s[i] - 'a' + 'A');
	}
	return s;
}

void tell(Story& s)
{
	auto& ctx = s.ctx;
	auto& c = ctx.c;
	start_clock(1830000000ll * 1000000000ll);
	int const parts = c.range(1, 3);
	for (int part = 0; part < parts; ++part) {
		auto const dir = format_string("/sim/part%d", part);
		put_dir(dir);
		auto const what = c.choose(22);
		switch (what == 21 ? 0 : 7 - what % 7) {
		case 0: {
			// a package, written, read and verified
			PackageOptions o;
			o.max_cpls = 2;
			o.max_reels = 2;
			Package p;
			s.in("make package", [&]() { p = make_package(ctx, dir + "/dcp", o); });
			s.in("write package", [&]() { p.dcp->write_xml(); });
			dcp::DCP d{boost::filesystem::path(dir + "/dcp")};
			if (s.in("read package", [&]() { d.read(); })) {
				for (auto const& i: describe_cpls(d)) s.see(i.second);
			}
			string notes;
			s.in("verify package", [&]() {
				auto const r = dcp::verify({dir + "/dcp"}, {}, [](string, boost::optional<boost::filesystem::path>) {}, [](float) {}, {}, boost::filesystem::path(b_repository() + "/xsd"));
				for (auto const& i: r.notes) notes += char('A' + int(i.code()) / 16), notes += char('a' + int(i.code()) % 16);
			});
			s.see(notes);
			break;
		}
		case 1: {
			// SMPTE text
			dcp::SMPTETextAsset a;
			a.set_language(dcp::LanguageTag("de-DE"));
			a.set_issue_date(dcp::LocalTime("2026-01-01T00:00:00+00:00"));
			a.set_start_time(dcp::Time());
			a.set_reel_number(int(c.choose(5000)));
			for (auto i = c.range(1, 4); i; --i) a.add(some_text(ctx));
			string xml;
			s.in("text as XML", [&]() { xml = a.xml_as_string(); });
			s.see(xml);
			auto const path = dir + "/text.mxf";
			s.in("write text", [&]() { a.write(path); });
			shared_ptr<dcp::SMPTETextAsset> b;
			if (s.in("read text", [&]() { b = make_shared<dcp::SMPTETextAsset>(path); })) s.see(describe(*b, dcp::Standard::SMPTE));
			break;
		}
		case 2: {
			// Interop text
			dcp::InteropTextAsset a;
			a.set_language("en");
			a.set_movie_title("Title");
			a.set_reel_number("1");
			for (auto i = c.range(1, 4); i; --i) a.add(some_text(ctx));
			auto const path = dir + "/text.xml";
			s.in("write Interop text", [&]() { a.write(path); });
			shared_ptr<dcp::InteropTextAsset> b;
			if (s.in("read Interop text", [&]() { b = make_shared<dcp::InteropTextAsset>(path); })) s.see(describe(*b, dcp::Standard::INTEROP));
			break;
		}
		case 3: {
			// a key message
			dcp::DecryptedKDM d(dcp::LocalTime("2027-12-31T00:00:00+00:00"), dcp::LocalTime("2028-12-31T00:00:00+00:00"), "annotation", "title", "2027-12-30T00:00:00+00:00");
			auto const keys = c.range(1, 3);
			for (int i = 0; i < keys; ++i) d.add_key(string("MDIK"), dcp::make_uuid(), dcp::Key(), "5db97fd3-2a65-4b05-8a6e-3a1a2a9f6e50", dcp::Standard::SMPTE);
			auto const audio = c.choose(3) ? boost::optional<int>() : boost::optional<int>(int(c.choose(20)));
			string xml;
			s.in("make key message", [&]() { xml = d.encrypt(signer_chain(), recipient_chain()->leaf(), {}, dcp::Formulation::MODIFIED_TRANSITIONAL_1, true, audio).as_xml(); });
			s.see(xml);
			if (xml.empty()) break;
			string got;
			s.in("read key message", [&]() {
				dcp::EncryptedKDM e(xml);
				dcp::DecryptedKDM r(e, recipient_chain()->key().get());
				got = e.not_valid_before().as_string() + " " + e.not_valid_after().as_string();
				for (auto const& i: r.keys()) got += " " + i.id() + " " + i.key().hex();
			});
			s.see(got);
			break;
		}
		case 4: {
			// timestamps
			string text, back;
			auto const year = c.range(1970, 2105), month = c.range(1, 12), day = c.range(1, 28);
			auto const hour = int(c.choose(24)), minute = int(c.choose(60)), second = int(c.choose(60)), ms = int(c.choose(1000)), offset = int(c.choose(14));
			s.in("write time", [&]() {
				dcp::LocalTime t(format_string("%04d-%02d-%02dT%02d:%02d:%02d.%03d+%02d:30", year, month, day, hour, minute, second, ms, offset));
				text = t.as_string(true) + " " + t.as_string(false, false) + " " + t.date() + " " + t.time_of_day(true, true);
			});
			s.see(text);
			s.in("read time", [&]() {
				dcp::LocalTime t(text.substr(0, text.find(' ')));
				back = t.as_string(true);
			});
			s.see(back);
			break;
		}
		case 5: {
			// names of things, in whatever case
			auto const kinds = dcp::ContentKind::all();
			auto const name = mixed_case(ctx, c.pick(kinds).name());
			string got;
			s.in("kind of content", [&]() { got = dcp::ContentKind::from_name(name).name(); });
			s.see(name + " " + got);
			auto const across = mixed_case(ctx, c.pick(vector<string>{"left", "center", "right"}));
			auto const down = mixed_case(ctx, c.pick(vector<string>{"top", "center", "bottom"}));
			s.in("alignment", [&]() { got = dcp::halign_to_string(dcp::string_to_halign(across)) + dcp::valign_to_string(dcp::string_to_valign(down)); });
			s.see(got);
			auto const id = dcp::make_uuid();
			bool same = false;
			s.in("identity", [&]() { same = dcp::ids_equal(id, mixed_case(ctx, id)); });
			s.see(same ? "same" : "different");
			break;
		}
		case 7: {
			// sound channels and languages
			auto const sound = mixed_case(ctx, c.pick(vector<string>{"51/l,r,c,lfe,ls,rs", "51/l,r,c,lfe,ls,rs,hi,vin", "71/l,r,c,lfe,lss,rss,hi,vin,-,-,lrs,rrs,dbox,fsksync", "51/l,r,c,lfe,ls,rs,-,-,-,-,-,-,-,fsksync,slvs,-", "51/i,vi,hii"}));
			string got;
			s.in("sound configuration", [&]() {
				dcp::MainSoundConfiguration m(sound);
				got = m.as_string() + (m.valid() ? " valid" : " not valid");
				if (m.valid()) for (int i = 0; i < m.channels(); ++i) got += " " + (m.mapping(i) ? dcp::channel_to_mca_id(*m.mapping(i), m.field()) : string("-"));
			});
			s.see(sound + " " + got);
			auto const tag = mixed_case(ctx, c.pick(vector<string>{"de-de", "is-is", "tr-tr", "hi-in", "mi", "zh-hant-tw", "xx-ii"}));
			s.in("language", [&]() {
				dcp::LanguageTag t(tag);
				got = t.as_string() + " " + t.description();
			});
			s.see(tag + " " + got);
			break;
		}
		case 6: {
			// numbers
			auto const n = int(c.choose(1u << 31));
			string text;
			s.in("numbers as text", [&]() {
				text = dcp::Fraction(n, 1001).as_string() + " " + dcp::Colour(n & 255, 2, 3).to_argb_string() + " " + dcp::Time(n % 1000000, 24, 24).as_string(dcp::Standard::SMPTE);
			});
			s.see(text);
			s.in("text as numbers", [&]() {
				text = format_string("%d", dcp::raw_convert<int>(text.substr(0, text.find(' '))));
				dcp::Fraction r("24000 1001");
				text += format_string(" %d %d", r.numerator, r.denominator);
			});
			s.see(text);
			double v = 0, w = 0;
			s.in("text as fractions", [&]() { v = dcp::raw_convert<float>(string("1.25")); w = dcp::raw_convert<double>(string("-1234.5")); });
			s.see(format_string("%a %a", v, w));
			break;
		}
		}
	}
}

void run(Ctx& ctx)
{
	auto& c = ctx.c;
	vector<int> usable;
	for (int i = 1; i < LOCALES; ++i) if (g_usable[i]) usable.push_back(i);
	vector<int> locales;
	for (auto n = c.range(1, 4); n; --n) locales.push_back(c.choose(4) == 3 ? 0 : c.pick(usable));
	auto const from = c.log().size();

	seed_random(1);
	Story plain{ctx, {0}, {}, 0, 0};
	tell(plain);
	auto const expect = tree("/sim");
	vector<uint32_t> const drawn(c.log().begin() + long(from), c.log().end());

	// the same again, in the locales
	format();
	seed_random(1);
	Choices outer = c;
	c = Choices();
	c.replay(drawn);
	Story other{ctx, locales, {}, 0, 0};
	tell(other);
	c = outer;
	auto const got = tree("/sim");
	string said;
	for (auto i: locales) said += (said.empty() ? "" : ", ") + string(NAMES[i]);
	for (size_t i = 0; i < std::min(plain.seen.size(), other.seen.size()) && !ctx.violated; ++i) {
		if (plain.seen[i] != other.seen[i]) ctx.violate("depends on the locale", "%s\ninstead of\n%s\nin %s", other.seen[i].c_str(), plain.seen[i].c_str(), said.c_str());
	}
	if (plain.seen.size() != other.seen.size()) ctx.violate("depends on the locale", "%zu results instead of %zu in %s", other.seen.size(), plain.seen.size(), said.c_str());
	if (got != expect) ctx.violate("files depend on the locale", "%s in %s", diff_trees(expect, got).c_str(), said.c_str());
	if (!open_handles().empty()) ctx.violate("file left open", "%s", open_handles()[0].path.c_str());
	ctx.count("steps in another locale", uint64_t(other.used));
	for (auto i: locales) ctx.count(string("locale ") + NAMES[i]);
	if (other.used) ctx.stats.nontrivial = true;
	for (auto const& i: plain.seen) ctx.sig(i);
	for (auto i: locales) ctx.sig(uint64_t(i));
	ctx.stats.sample = format_string("%zu steps in %s", other.step, said.c_str());
}

}

SIM_PROPERTY(L01, setup, run, 16, "A run tells one to three stories (a package written, read and verified; SMPTE and Interop text; a key message; timestamps; names in any case; numbers) in the C locale and then again, with the same choices, clock and randomness, while each step runs in one of up to four locales: German, Turkish (ISO-8859-9 and UTF-8), a locale of the thread, or C++ streams which group digits. Non-trivial: a step ran in another locale than C. Distinct: by everything the story saw and the locales.")
