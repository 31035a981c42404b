// K01: a damaged or foreign key message never yields a wrong key
#include "b_package.h"
#include "certificate.h"
#include "decrypted_kdm.h"
#include "encrypted_kdm.h"
#include "exceptions.h"
#include "util.h"
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <algorithm>
#include <cstring>

using namespace sim;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

namespace {

string const PATH = "/sim/kdm/message.xml";

string hex(string const& s)
{
	string r;
	for (unsigned char i: s) r += format_string("%02x", i);
	return r;
}

string uuid(string const& bytes)
{
	auto const h = hex(bytes);
	return h.substr(0, 8) + "-" + h.substr(8, 4) + "-" + h.substr(12, 4) + "-" + h.substr(16, 4) + "-" + h.substr(20, 12);
}

// sixteen bytes which differ for each n, whatever the choices
string sixteen(Ctx& ctx, unsigned n)
{
	auto s = ctx.c.bytes(16);
	s[15] = char(n);
	return s;
}

string describe(dcp::DecryptedKDMKey const& k)
{
	return k.type().get_value_or("-") + " " + k.id() + " " + k.key().hex() + " " + k.cpl_id() + (k.standard() == dcp::Standard::SMPTE ? " smpte" : " interop");
}

// what decryption gave
struct Decrypted {
	bool raised = false;
	string error;
	vector<string> keys;
	string from, to;                      // if asked for
};

// the period within a decrypted message shows when it is encrypted again
Decrypted decrypt(string const& key, bool period)
{
	Decrypted r;
	try {
		dcp::EncryptedKDM e(dcp::file_to_string(PATH));
		dcp::DecryptedKDM d(e, key);
		for (auto const& i: d.keys()) r.keys.push_back(describe(i));
		if (period && !r.keys.empty() && d.keys()[0].type()) {
			auto const again = d.encrypt(signer_chain(), other_chain()->leaf(), {}, dcp::Formulation::MODIFIED_TRANSITIONAL_1, false, {});
			r.from = again.not_valid_before().as_string();
			r.to = again.not_valid_after().as_string();
		}
	} catch (std::exception& e) {
		r.raised = true;
		r.error = e.what();
	}
	return r;
}

string draw_time(Ctx& ctx, int year)
{
	auto& c = ctx.c;
	int const minutes = c.choose(2) ? int(c.choose(4)) * 15 : 0;
	int const hours = c.choose(2) ? int(c.choose(13)) : 0;
	return format_string("%d-%02d-%02dT%02d:%02d:%02d%c%02d:%02d", year, 1 + int(c.choose(12)), 1 + int(c.choose(28)), int(c.choose(24)), int(c.choose(60)), int(c.choose(60)),
		c.choose(2) && (hours || minutes) ? '-' : '+', hours, minutes);
}

// places of the text of every element CipherValue
vector<std::pair<size_t, size_t>> ciphers(string const& xml)
{
	vector<std::pair<size_t, size_t>> r;
	string const open = "<enc:CipherValue>", close = "</enc:CipherValue>";
	for (size_t at = 0; (at = xml.find(open, at)) != string::npos;) {
		at += open.size();
		auto const end = xml.find(close, at);
		if (end == string::npos) break;
		r.push_back({at, end - at});
	}
	return r;
}

// the same message in Interop form: shorter blocks without the type of the key
string as_interop(string const& xml, vector<string> const& blocks)
{
	auto const places = ciphers(xml);
	auto r = xml;
	auto rsa = recipient_chain()->leaf().public_key();
	for (size_t i = places.size(); i-- > 0;) {
		unsigned char out[512];
		int const n = RSA_public_encrypt(int(blocks[i].size()), reinterpret_cast<unsigned char const*>(blocks[i].data()), out, rsa, RSA_PKCS1_OAEP_PADDING);
		unsigned char text[1024];
		EVP_EncodeBlock(text, out, n);
		r.replace(places[i].first, places[i].second, reinterpret_cast<char*>(text));
	}
	return r;
}

string open_block(string const& text, string const& key)
{
	string packed;
	for (auto i: text) if (i != '\n') packed += i;
	unsigned char in[1024], out[1024];
	int n = EVP_DecodeBlock(in, reinterpret_cast<unsigned char const*>(packed.data()), int(std::min(packed.size(), size_t(1024))));
	while (n > 0 && !packed.empty() && packed.back() == '=') { packed.pop_back(); --n; }
	auto bio = BIO_new_mem_buf(key.data(), int(key.size()));
	auto rsa = PEM_read_bio_RSAPrivateKey(bio, nullptr, nullptr, nullptr);
	int const length = rsa && n > 0 ? RSA_private_decrypt(n, in, out, rsa, RSA_PKCS1_OAEP_PADDING) : -1;
	RSA_free(rsa);
	BIO_free(bio);
	return length < 0 ? string() : string(reinterpret_cast<char*>(out), size_t(length));
}

void run(Ctx& ctx)
{
	auto& c = ctx.c;
	start_clock(1830000000ll * 1000000000ll);
	ERR_clear_error();
	auto const from = draw_time(ctx, 2028);
	auto const to = draw_time(ctx, 2029 + int(c.choose(3)));
	dcp::DecryptedKDM d(dcp::LocalTime(from), dcp::LocalTime(to), "Annotation", "Title", "2028-01-01T00:00:00+00:00");
	bool const interop = c.choose(4) == 3;
	int const n = c.choose(4) ? int(1 + c.choose(3)) : int(1 + c.choose(8));
	vector<string> want, blocks, smpte;
	static vector<string> const types = {"MDIK", "MDAK", "MDSK", "MDEK", "FMIK"};
	string const first_cpl = sixteen(ctx, 200);
	for (int i = 0; i < n; ++i) {
		auto const type = c.pick(types);
		auto const id = sixteen(ctx, unsigned(i)), key = sixteen(ctx, unsigned(100 + i));
		auto const cpl = c.choose(8) == 7 ? sixteen(ctx, unsigned(201 + i)) : first_cpl;
		d.add_key(type, uuid(id), dcp::Key(hex(key)), uuid(cpl), dcp::Standard::SMPTE);
		want.push_back((interop ? "-" : type) + " " + uuid(id) + " " + hex(key) + " " + uuid(cpl) + (interop ? " interop" : " smpte"));
		smpte.push_back(cpl + type + id + from + to + key);
		blocks.push_back(string(36, 'x') + cpl + id + from + to + key);
	}
	auto const formulation = dcp::Formulation(c.choose(4));
	vector<string> trusted;
	for (auto i = c.choose(3); i; --i) trusted.push_back("MTIzNDU2Nzg5MDEyMzQ1Njc4OTA=");
	auto const disable_picture = c.choose(2);
	auto const disable_audio = c.choose(2) ? boost::optional<int>(int(c.choose(17))) : boost::optional<int>();
	auto const message = d.encrypt(signer_chain(), recipient_chain()->leaf(), trusted, formulation, disable_picture, disable_audio);
	put_dir("/sim/kdm");
	message.as_xml(boost::filesystem::path(PATH));
	string xml;
	get_file(PATH, xml);
	if (interop) {
		xml = as_interop(xml, blocks);
		put_file(PATH, xml);
	}
	auto const key = *recipient_chain()->key();

	// what is in the message, by way of OpenSSL alone
	if (!interop) {
		auto const places = ciphers(xml);
		auto wrong = places.size() == size_t(n) ? string() : format_string("%zu keys rather than %d", places.size(), n);
		for (int i = 0; i < n && wrong.empty(); ++i) {
			auto const block = open_block(xml.substr(places[size_t(i)].first, places[size_t(i)].second), key);
			if (block.size() != 138) wrong = format_string("block of %zu bytes", block.size());
			else if (hex(block.substr(0, 16)) != "f1dc124460169a0e85bc300642f866ab") wrong = "structure is " + hex(block.substr(0, 16));
			else if (block.substr(36) != smpte[size_t(i)]) wrong = "block holds " + show(block.substr(36)) + " rather than " + show(smpte[size_t(i)]);
		}
		if (!wrong.empty()) {
			ctx.violate("wrong message", "%s", wrong.c_str());
			return;
		}
		if (message.not_valid_before().as_string() != from || message.not_valid_after().as_string() != to) ctx.violate("wrong message", "another period");
	}

	auto exact = [&](Decrypted const& r, string const& what) {
		if (r.raised) ctx.violate("intact message refused", "%s: %s", what.c_str(), r.error.c_str());
		else if (r.keys != want) {
			string all;
			for (auto const& i: r.keys) all += i + "; ";
			ctx.violate("intact message gave other keys", "%s: %s where the first which went in is %s of %zu", what.c_str(), all.c_str(), want[0].c_str(), want.size());
		} else if (!r.from.empty() && (r.from != from || r.to != to)) ctx.violate("intact message gave another period", "%s: %s to %s rather than %s to %s", what.c_str(), r.from.c_str(), r.to.c_str(), from.c_str(), to.c_str());
	};
	exact(decrypt(key, c.choose(4) == 3), "decrypting");
	if (ctx.violated) return;
	ctx.sig(uint64_t(n));
	ctx.sig(uint64_t(interop));

	// passed on to somebody else
	if (!interop && c.choose(4) == 3) {
		dcp::DecryptedKDM mine(dcp::EncryptedKDM(dcp::file_to_string(PATH)), key);
		mine.encrypt(signer_chain(), other_chain()->leaf(), {}, formulation, disable_picture, disable_audio).as_xml(boost::filesystem::path(PATH));
		exact(decrypt(*other_chain()->key(), true), "decrypting after being passed on");
		ctx.count("passed_on");
		if (ctx.violated) return;
		auto const r = decrypt(key, false);
		if (!r.raised) ctx.violate("decrypted with another key", "a message for somebody else gave %zu keys", r.keys.size());
		put_file(PATH, xml);
	}

	auto const places = ciphers(xml);
	auto const tries = c.range(1, 24);
	for (int t = 0; t < tries && !ctx.violated; ++t) {
		auto bad = xml;
		string what;
		bool foreign = false;
		bool const period = c.choose(16) == 15;
		Window w;
		auto const kind = c.choose(10);
		switch (kind) {
		case 0:
		case 1:
		{
			// somewhere in an encrypted key
			auto const p = c.pick(places);
			auto const at = p.first + c.choose(uint32_t(p.second));
			static string const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=\n <&";
			bad[at] = alphabet[c.choose(uint32_t(alphabet.size()))];
			what = format_string("key changed at %zu", at - p.first);
			break;
		}
		case 2:
		{
			auto const at = c.choose(uint32_t(bad.size()));
			bad[at] = char(bad[at] ^ (1 << c.choose(8)));
			what = format_string("bit changed at %u", at);
			break;
		}
		case 3:
		{
			auto const at = c.choose(uint32_t(bad.size()));
			auto const length = 1 + c.choose(20);
			bad.erase(at, length);
			what = format_string("%u bytes removed at %u", length, at);
			break;
		}
		case 4:
		{
			auto const at = c.choose(uint32_t(bad.size()));
			auto const length = 1 + c.choose(20);
			bad.insert(at, c.bytes(length));
			what = format_string("%u bytes inserted at %u", length, at);
			break;
		}
		case 5:
			bad.resize(c.choose(uint32_t(bad.size())));
			what = format_string("cut to %zu", bad.size());
			break;
		case 6:
		{
			// part of one encrypted key in the place of part of another
			auto const a = c.pick(places), b = c.pick(places);
			auto const length = 1 + c.choose(uint32_t(std::min(a.second, b.second)));
			bad.replace(a.first, length, xml, b.first, length);
			what = format_string("%u characters of a key taken from another", length);
			break;
		}
		case 7:
		{
			// an encrypted key longer or shorter
			auto const p = c.pick(places);
			if (c.choose(2)) bad.erase(p.first + c.choose(uint32_t(p.second)), 1 + c.choose(100));
			else bad.insert(p.first + c.choose(uint32_t(p.second)), string(1 + c.choose(600), 'A'));
			what = "key longer or shorter";
			break;
		}
		case 8:
			foreign = true;
			what = "decrypted with another key";
			break;
		case 9:
			what = "faults while reading";
			break;
		}
		put_file(PATH, bad);
		if (kind == 9) {
			Window dry;
			{
				WindowScope scope(dry);
				decrypt(key, false);
			}
			FaultMenu menu;
			menu.shrink = true;
			w.faults = draw_faults(ctx, dry.ops, menu);
		}
		Decrypted r;
		{
			WindowScope scope(w);
			r = decrypt(foreign ? *other_chain()->key() : key, period);
		}
		count_faults(ctx, w);
		ctx.count("damage." + what.substr(0, what.find_first_of("0123456789")));
		ctx.note("%s %s-> %s", what.c_str(), describe_fired(w).c_str(), r.raised ? r.error.substr(0, 60).c_str() : format_string("%zu keys", r.keys.size()).c_str());
		for (auto const& i: r.keys) {
			if (foreign) ctx.violate("decrypted with another key", "%zu keys", r.keys.size());
			if (std::find(want.begin(), want.end(), i) == want.end()) ctx.violate("wrong key", "%s: %s", what.c_str(), i.c_str());
		}
		if (!r.from.empty() && (r.from != from || r.to != to)) ctx.violate("wrong period", "%s: %s to %s rather than %s to %s", what.c_str(), r.from.c_str(), r.to.c_str(), from.c_str(), to.c_str());
		if (bad == xml && kind != 9 && !foreign) exact(r, what + " (no change)");
		if (!r.raised && r.keys.size() > want.size()) ctx.violate("additional keys", "%s: %zu keys", what.c_str(), r.keys.size());
		ctx.sig(what);
		ctx.sig(uint64_t(r.keys.size()));
		if (bad != xml || foreign || !w.fired.empty()) ctx.stats.nontrivial = true;
	}
	ctx.stats.sample = ctx.notes.substr(0, 300);
}

}

SIM_PROPERTY(K01, package_setup, run, 16, "A run encrypts 1-8 keys (types, identities, periods with offsets, four formulations, SMPTE blocks or Interop ones) for a recipient, stores the message, decrypts it, now and then passes it on to another recipient, and then 1-24 times decrypts it again after damage (changes anywhere or in the encrypted keys, bytes removed or inserted, cut short, keys mixed, made longer or shorter), with another private key, or with I/O faults while it is read. Non-trivial: something was damaged. Distinct: by number of keys, form, kind and place of damage and number of keys got.")
