// K02: a package opens with the keys it was given, and with these alone
#include "b_package.h"
#include "asset_factory.h"
#include "atmos_asset.h"
#include "atmos_asset_reader.h"
#include "certificate.h"
#include "decrypted_kdm.h"
#include "decrypted_kdm_key.h"
#include "encrypted_kdm.h"
#include "exceptions.h"
#include "interop_text_asset.h"
#include "mono_j2k_picture_asset.h"
#include "mono_j2k_picture_asset_reader.h"
#include "mono_j2k_picture_frame.h"
#include "reel.h"
#include "reel_file_asset.h"
#include "sound_asset.h"
#include "sound_asset_reader.h"
#include "stereo_j2k_picture_asset.h"
#include "stereo_j2k_picture_asset_reader.h"
#include "stereo_j2k_picture_frame.h"
#include "util.h"

using namespace sim;
using std::dynamic_pointer_cast;
using std::make_shared;
using std::map;
using std::set;
using std::shared_ptr;
using std::string;
using std::vector;

namespace {

string text_of(uint8_t const* p, int n) { return format_string("%d %016llx\n", n, (unsigned long long) hash_bytes(p, size_t(n))); }

template <class Asset>
string frames_of(Asset& a)
{
	auto reader = a.start_read();
	string r;
	for (int i = 0; i < a.intrinsic_duration(); ++i) {
		auto f = reader->get_frame(i);
		r += text_of(f->data(), f->size());
	}
	return r;
}

// everything which an asset shows; raises if it cannot be read
string content_of(shared_ptr<dcp::Asset> asset)
{
	if (auto a = dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(asset)) return frames_of(*a);
	if (auto a = dynamic_pointer_cast<dcp::StereoJ2KPictureAsset>(asset)) {
		auto reader = a->start_read();
		string r;
		for (int i = 0; i < a->intrinsic_duration(); ++i) {
			auto f = reader->get_frame(i);
			r += text_of(f->left()->data(), f->left()->size()) + text_of(f->right()->data(), f->right()->size());
		}
		return r;
	}
	if (auto a = dynamic_pointer_cast<dcp::SoundAsset>(asset)) return frames_of(*a);
	if (auto a = dynamic_pointer_cast<dcp::AtmosAsset>(asset)) return frames_of(*a);
	if (auto a = dynamic_pointer_cast<dcp::SMPTETextAsset>(asset)) return describe_smpte_text(*a);
	if (auto a = dynamic_pointer_cast<dcp::InteropTextAsset>(asset)) return a->xml_as_string();
	return "something else";
}

struct Secret {
	string path, key_id, content, type;
	boost::optional<dcp::Key> key;
};

enum Kind { READ, GIVE, RESOLVE };

struct Step {
	Kind kind = READ;
	string cpl;                    // which composition the keys are for
	set<string> assets;            // whose keys they are, or which are found
	int way = 0;                   // how the message is made
	string what;
};

void run(Ctx& ctx)
{
	auto& c = ctx.c;
	start_clock(1830000000ll * 1000000000ll);
	bool const smpte = c.choose(4) != 3;
	PackageOptions o;
	o.standard = smpte ? 0 : 1;
	o.max_cpls = 2;
	o.max_reels = 2;
	o.keys = true;
	bool const one_key = c.choose(3) == 2;
	if (one_key) o.key = make_shared<dcp::Key>();
	auto p = make_package(ctx, "/sim/dcp", o);
	p.dcp->write_xml();

	map<string, Secret> secrets;                    // by identity of the asset
	map<string, set<string>> uses;                  // the assets of each composition
	size_t encrypted = 0;
	for (auto cpl: p.dcp->cpls()) for (auto i: cpl->reel_file_assets()) {
		auto const id = i->asset_ref().id();
		uses[cpl->id()].insert(id);
		if (secrets.count(id)) continue;
		Secret s;
		s.path = i->asset_ref().asset()->file()->string();
		if (i->key_type()) s.type = *i->key_type();
		if (auto mxf = dynamic_pointer_cast<dcp::MXF>(i->asset_ref().asset())) {
			s.key = mxf->key();
			if (mxf->key_id()) {
				s.key_id = *mxf->key_id();
				++encrypted;
			}
		}
		// as the file alone says
		shared_ptr<dcp::Asset> alone;
		if (s.path.find(".mxf") != string::npos) alone = dcp::asset_factory(s.path, false);
		else alone = make_shared<dcp::InteropTextAsset>(s.path);
		if (s.key) dynamic_pointer_cast<dcp::MXF>(alone)->set_key(*s.key);
		s.content = content_of(alone);
		secrets[id] = s;
	}
	ctx.count(encrypted ? "package.encrypted" : "package.plain");

	// some files may be elsewhere, to be found later
	set<string> away;
	if (c.choose(2)) {
		put_dir("/sim/elsewhere");
		int n = 0;
		for (auto& i: secrets) {
			if (i.second.path.find(".mxf") == string::npos || !c.choose(2)) continue;
			string content;
			get_file(i.second.path, content);
			remove_tree(i.second.path);
			i.second.path = format_string("/sim/elsewhere/%d.mxf", n++);
			put_file(i.second.path, content);
			away.insert(i.first);
		}
	}

	// what is done
	vector<Step> steps;
	vector<string> cpls;
	for (auto const& i: uses) cpls.push_back(i.first);
	for (int n = c.range(2, 7); n; --n) {
		Step s;
		s.kind = steps.empty() ? READ : (c.choose(8) == 7 ? READ : (!away.empty() && c.choose(2) ? RESOLVE : GIVE));
		switch (s.kind) {
		case READ: s.what = "reading the package"; break;
		case RESOLVE:
			s.what = "finding";
			for (auto const& i: away) if (c.choose(3)) {
				s.assets.insert(i);
				s.what += " " + secrets[i].path;
			}
			break;
		case GIVE:
			s.cpl = c.pick(cpls);
			// 0: key by key; 1: from the composition; 2: the same key for all; and by way of a stored message
			s.way = int(c.choose(6));
			for (auto const& i: uses[s.cpl]) if (!secrets[i].key_id.empty() && (s.way % 3 == 2 || c.choose(4))) s.assets.insert(i);
			if (s.way % 3 == 2 && (!one_key || s.assets.empty())) s.way -= 2;
			s.what = format_string("giving %zu keys (%d) to %s", s.assets.size(), s.way, s.cpl.c_str());
			break;
		}
		steps.push_back(s);
	}
	auto const unrelated = dcp::Key();
	bool const extra = c.choose(2);

	auto message = [&](Step const& s) {
		dcp::LocalTime const from("2027-12-31T00:00:00+00:00"), to("2028-12-31T00:00:00+00:00");
		string const date = "2027-12-30T00:00:00+00:00";
		auto made = make_shared<dcp::DecryptedKDM>(from, to, "a", "b", date);
		shared_ptr<dcp::CPL> cpl;
		for (auto i: p.dcp->cpls()) if (i->id() == s.cpl) cpl = i;
		switch (s.way % 3) {
		case 0:
			if (extra) made->add_key(string("MDIK"), "c1d7ed50-0f4c-4a1c-8e37-000000000001", unrelated, s.cpl, dcp::Standard::SMPTE);
			for (auto const& i: s.assets) made->add_key(secrets[i].type, secrets[i].key_id, *secrets[i].key, s.cpl, smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP);
			if (extra) made->add_key(string("MDAK"), "c1d7ed50-0f4c-4a1c-8e37-000000000002", unrelated, "c1d7ed50-0f4c-4a1c-8e37-000000000003", dcp::Standard::SMPTE);
			break;
		case 1:
		{
			map<shared_ptr<const dcp::ReelFileAsset>, dcp::Key> keys;
			for (auto i: cpl->reel_file_assets()) if (s.assets.count(i->asset_ref().id())) keys.insert(make_pair(i, *secrets[i->asset_ref().id()].key));
			made = make_shared<dcp::DecryptedKDM>(s.cpl, keys, from, to, "a", "b", date);
			break;
		}
		case 2: made = make_shared<dcp::DecryptedKDM>(cpl, *o.key, from, to, "a", "b", date); break;
		}
		if (s.way >= 3 && !made->keys().empty()) {
			auto const e = made->encrypt(signer_chain(), recipient_chain()->leaf(), {}, dcp::Formulation::MODIFIED_TRANSITIONAL_1, true, 0);
			made = make_shared<dcp::DecryptedKDM>(dcp::EncryptedKDM(e.as_xml()), *recipient_chain()->key());
		}
		return made;
	};

	auto play = [&](vector<vector<Fault>> const& faults, vector<vector<OpRec>>* ops) {
	shared_ptr<dcp::DCP> dcp;
		map<string, set<string>> given;                 // the identities of keys which each composition has been given
		set<string> resolved;                           // the assets which it has
		set<string> open;                               // the assets which can be read
		int handed = 0;
	
		auto judge = [&](string const& after) {
			if (!dcp) return;
			for (auto const& i: uses) for (auto const& j: i.second) {
				if (!resolved.count(j)) continue;
				auto const& s = secrets[j];
				if (s.key_id.empty() || given[i.first].count(s.key_id)) open.insert(j);
			}
			bool any = false, all = true;
			set<string> seen;
			for (auto cpl: dcp->cpls()) {
				bool cpl_any = false, cpl_all = true;
				for (auto i: cpl->reel_file_assets()) {
					auto const id = i->asset_ref().id();
					auto const& s = secrets[id];
					if (i->encryptable() && s.key_id.empty()) cpl_all = false;
					if (!i->encryptable() && s.key_id.empty()) cpl_all = false;
					if (!s.key_id.empty()) cpl_any = true;
					if (i->asset_ref().resolved() != bool(resolved.count(id))) {
						ctx.violate("reference", "%s is %s after %s", id.c_str(), resolved.count(id) ? "not resolved" : "resolved", after.c_str());
						return;
					}
					if (!i->asset_ref().resolved() || !seen.insert(id).second) continue;
					string got, error;
					try {
						got = content_of(i->asset_ref().asset());
					} catch (std::exception& e) {
						error = e.what();
					}
					if (open.count(id)) {
						ctx.count(s.key_id.empty() ? "asset.plain" : "asset.opened");
						if (!error.empty()) ctx.violate("asset does not open", "%s (%s %s) cannot be read (%s) after %s", id.c_str(), s.type.c_str(), s.path.c_str(), error.c_str(), after.c_str());
						else if (got != s.content) ctx.violate("asset reads differently", "%s (%s %s) reads as %s instead of %s after %s", id.c_str(), s.type.c_str(), s.path.c_str(), show(got).c_str(), show(s.content).c_str(), after.c_str());
					} else {
						ctx.count("asset.closed");
						if (error.empty() && got == s.content) ctx.violate("asset opens without its key", "%s (%s %s) can be read after %s", id.c_str(), s.type.c_str(), s.path.c_str(), after.c_str());
					}
					if (ctx.violated) return;
				}
				if (cpl->any_encrypted() != cpl_any) ctx.violate("any_encrypted", "composition %s is said to have %s encrypted assets", cpl->id().c_str(), cpl_any ? "no" : "some");
				if (cpl->all_encrypted() != cpl_all) ctx.violate("all_encrypted", "composition %s is said to have %s assets which are not encrypted", cpl->id().c_str(), cpl_all ? "some" : "no");
				any = any || cpl_any;
				all = all && cpl_all;
			}
			if (dcp->any_encrypted() != any || dcp->all_encrypted() != all) ctx.violate("any_encrypted", "the package says that it has %s and %s encrypted assets", dcp->any_encrypted() ? "some" : "no", dcp->all_encrypted() ? "only" : "not only");
		};

		for (size_t n = 0; n < steps.size() && !ctx.violated; ++n) {
			auto const& s = steps[n];
			string disturbed;
			bool raised = false;
			string error;
			// undisturbed after a disturbed attempt which failed
			for (int k = n < faults.size() && !faults[n].empty() ? 0 : 1; k < 2; ++k) {
				Window w;
				if (k == 0) w.faults = faults[n];
				shared_ptr<dcp::DCP> fresh;
				vector<dcp::VerificationNote> notes;
				shared_ptr<dcp::DecryptedKDM> kdm;
				vector<shared_ptr<dcp::Asset>> found;
				if (s.kind == GIVE) kdm = message(s);
				raised = false;
				{
					WindowScope scope(w);
					try {
						switch (s.kind) {
						case READ:
							fresh = make_shared<dcp::DCP>(boost::filesystem::path("/sim/dcp"));
							fresh->read(&notes);
							break;
						case GIVE: dcp->add(*kdm); break;
						case RESOLVE:
							for (auto const& i: s.assets) found.push_back(dcp::asset_factory(secrets[i].path, false));
							dcp->resolve_refs(found);
							break;
						}
					} catch (std::exception& e) {
						raised = true;
						error = e.what();
					}
				}
				if (k == 0) {
					disturbed = " after a failure: " + describe_fired(w);
					count_faults(ctx, w);
					ctx.sig(uint64_t(raised));
				} else if (ops) {
					ops->push_back(w.ops);
				}
				ctx.note("%s with %s -> %s", s.what.c_str(), describe_fired(w).c_str(), raised ? error.c_str() : "returned");
				if (s.kind == READ && !raised) {
					// what could not be read may be in the notes
					size_t errors = 0;
					for (auto const& i: notes) if (i.type() == dcp::VerificationNote::Type::ERROR) ++errors;
					if (errors != (k == 0 ? size_t(0) : errors) || (k == 0 && (!away.empty() || !notes.empty()))) {
						raised = true;
						error = "notes";
					} else {
						dcp = fresh;
						given.clear();
						open.clear();
						resolved.clear();
						for (auto const& i: secrets) if (!away.count(i.first)) resolved.insert(i.first);
					}
				}
				if (!raised) {
					if (s.kind == GIVE) for (auto const& i: s.assets) given[s.cpl].insert(secrets[i].key_id);
					if (s.kind == RESOLVE) resolved.insert(s.assets.begin(), s.assets.end());
					break;
				}
			}
			if (raised) {
				ctx.violate("operation raised", "%s raised: %s%s", s.what.c_str(), error.c_str(), disturbed.c_str());
				return;
			}
			judge(s.what + disturbed);
		}
	};

	vector<vector<OpRec>> ops;
	play({}, &ops);
	ctx.sig(uint64_t(encrypted));
	ctx.sig(uint64_t(away.size()));
	for (auto const& i: steps) {
		ctx.sig(uint64_t(i.kind));
		ctx.sig(uint64_t(i.assets.size()));
		ctx.sig(uint64_t(i.way));
	}
	if (encrypted) ctx.stats.nontrivial = true;
	ctx.stats.sample = format_string("%zu assets, %zu of them encrypted, %zu elsewhere:", secrets.size(), encrypted, away.size());
	for (auto const& i: steps) ctx.stats.sample += " " + i.what + ";";
	if (ctx.violated) return;
	for (int n = c.range(1, 3); n && !ctx.violated; --n) {
		vector<vector<Fault>> faults;
		for (auto const& i: ops) {
			FaultMenu menu;
			menu.max_faults = 2;
			menu.sticky = false;
			menu.filter = [](OpRec const& r) { return r.op != Op::CLOSE; };
			faults.push_back(!i.empty() && c.choose(2) ? draw_faults(ctx, i, menu) : vector<Fault>());
		}
		play(faults, nullptr);
	}
}

SIM_PROPERTY(K02, package_setup, run, 16, "A run makes a package of up to two compositions with about half of the assets encrypted, with keys of their own or one for all, moves some files elsewhere, and does 2-7 things: reads the package, gives it keys in key messages made in three ways (half of them encrypted and decrypted first), and resolves it with what is elsewhere; then does it all again 1-3 times with I/O faults, repeating what failed. Non-trivial: something was encrypted or a fault took effect. Distinct: by number of encrypted and moved assets, steps with their numbers of keys, and outcomes.")

}
