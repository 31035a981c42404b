#include <functional>
#include <asdcp/AS_DCP.h>
#include <asdcp/KM_prng.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/md5.h>
#include <cerrno>
#include <fcntl.h>
#include <stdexcept>
#include <unistd.h>

using std::string;
using std::vector;

namespace ASDCP {

// ---------------------------------------------------------------- encryption

static bool cbc (bool encrypt, byte_t const* key, byte_t* iv, byte_t const* in, byte_t* out, ui32_t n)
{
	byte_t next[CBC_BLOCK_SIZE];
	if (!encrypt && n >= CBC_BLOCK_SIZE) memcpy(next, in + n - CBC_BLOCK_SIZE, CBC_BLOCK_SIZE);
	auto c = EVP_CIPHER_CTX_new();
	if (!c) return false;
	int len = 0;
	bool ok = EVP_CipherInit_ex(c, EVP_aes_128_cbc(), nullptr, key, iv, encrypt) == 1 && EVP_CIPHER_CTX_set_padding(c, 0) == 1
		&& EVP_CipherUpdate(c, out, &len, in, int(n)) == 1 && ui32_t(len) == n;
	EVP_CIPHER_CTX_free(c);
	if (ok && n >= CBC_BLOCK_SIZE) memcpy(iv, encrypt ? out + n - CBC_BLOCK_SIZE : next, CBC_BLOCK_SIZE);
	return ok;
}

Result_t AESEncContext::InitKey (byte_t const* key) { memcpy(_key, key, KeyLen); return RESULT_OK; }
Result_t AESEncContext::SetIVec (byte_t const* iv) { memcpy(_iv, iv, CBC_BLOCK_SIZE); return RESULT_OK; }
Result_t AESEncContext::GetIVec (byte_t* iv) const { memcpy(iv, _iv, CBC_BLOCK_SIZE); return RESULT_OK; }
Result_t AESEncContext::EncryptBlock (byte_t const* in, byte_t* out, ui32_t n) { return cbc(true, _key, _iv, in, out, n) ? RESULT_OK : RESULT_CRYPT_INIT; }
Result_t AESDecContext::InitKey (byte_t const* key) { memcpy(_key, key, KeyLen); return RESULT_OK; }
Result_t AESDecContext::SetIVec (byte_t const* iv) { memcpy(_iv, iv, CBC_BLOCK_SIZE); return RESULT_OK; }
Result_t AESDecContext::DecryptBlock (byte_t const* in, byte_t* out, ui32_t n) { return cbc(false, _key, _iv, in, out, n) ? RESULT_OK : RESULT_CRYPT_INIT; }
Result_t HMACContext::InitKey (byte_t const* key, LabelSet_t) { memcpy(_key, key, KeyLen); return RESULT_OK; }

void HMACContext::Value (byte_t const* data, size_t n, byte_t* out) const
{
	unsigned len = 0;
	HMAC(EVP_sha1(), _key, KeyLen, data, n, out, &len);
}

// ---------------------------------------------------------------- buffers and metadata

Result_t FrameBuffer::Capacity (ui32_t n)
{
	if (n > _capacity) {
		_own.reset(new byte_t[n]);
		_data = _own.get();
		_capacity = n;
	}
	return RESULT_OK;
}

Result_t FrameBuffer::SetData (byte_t* p, ui32_t n)
{
	_own.reset();
	_data = p;
	_capacity = n;
	_size = 0;
	return RESULT_OK;
}

char const* UL::EncodeString (char* buf, ui32_t n) const { return Kumu::bin2hex(_v, 16, buf, n); }

Dictionary::Dictionary ()
{
	for (int i = 0; i < MDD_Max; ++i) {
		static byte_t const base[] = { 0x06, 0x0e, 0x2b, 0x34, 0x04, 0x01, 0x01, 0x0d, 0x03, 0x02, 0x01, 0, 0, 0, 0, 0 };
		memcpy(_ul[i], base, 16);
		_ul[i][13] = byte_t(i + 1);
	}
}

Dictionary const& DefaultSMPTEDict ()
{
	static Dictionary dict;
	return dict;
}

namespace MXF {

char const* TextProperty::EncodeString (char* buf, ui32_t n) const
{
	if (n == 0) return nullptr;
	auto const len = std::min(size_t(n - 1), _s.size());
	memcpy(buf, _s.data(), len);
	buf[len] = 0;
	return buf;
}

InterchangeObject::InterchangeObject (MDD_t kind)
	: _kind(kind)
{
	Kumu::GenRandomValue(InstanceUID);
}

Result_t OP1aHeader::GetMDObjectByType (byte_t const* ul, InterchangeObject** object)
{
	if (object) *object = nullptr;
	for (auto& i: _objects) {
		if (memcmp(DefaultSMPTEDict().ul(i->kind()), ul, 16) == 0) {
			if (object) *object = i.get();
			return RESULT_OK;
		}
	}
	return RESULT_FAIL;
}

Result_t OP1aHeader::GetMDObjectsByType (byte_t const* ul, std::list<InterchangeObject*>& objects)
{
	for (auto& i: _objects) {
		if (memcmp(DefaultSMPTEDict().ul(i->kind()), ul, 16) == 0) objects.push_back(i.get());
	}
	return objects.empty() ? RESULT_FAIL : RESULT_OK;
}

void OP1aHeader::AddChildObject (InterchangeObject* object)
{
	_objects.push_back(std::unique_ptr<InterchangeObject>(object));
}

}

// ---------------------------------------------------------------- packing

namespace {

struct Pack
{
	string s;
	void raw (void const* p, size_t n) { s.append(static_cast<char const*>(p), n); }
	void u8 (unsigned v) { s += char(v); }
	void u32 (ui32_t v) { for (int i = 3; i >= 0; --i) s += char(v >> (i * 8)); }
	void u64 (ui64_t v) { u32(ui32_t(v >> 32)); u32(ui32_t(v)); }
	void text (string const& t) { u32(ui32_t(t.size())); s += t; }
};

struct Unpack
{
	string const& s;
	size_t at = 0;
	explicit Unpack (string const& s_) : s(s_) {}
	void raw (void* p, size_t n) { need(n); memcpy(p, s.data() + at, n); at += n; }
	unsigned u8 () { need(1); return byte_t(s[at++]); }
	ui32_t u32 () { ui32_t v = 0; for (int i = 0; i < 4; ++i) v = v << 8 | u8(); return v; }
	ui64_t u64 () { ui64_t v = u32(); return v << 32 | u32(); }
	string text () { auto n = u32(); need(n); auto t = s.substr(at, n); at += n; return t; }
	void need (size_t n) { if (s.size() - at < n) throw std::out_of_range("short"); }
};

char const MAGIC[] = "SIMMXF01";

void pack_object (Pack& p, MXF::InterchangeObject const& o)
{
	p.u8(o.kind());
	p.raw(o.InstanceUID.Value(), 16);
	if (auto w = dynamic_cast<MXF::WaveAudioDescriptor const*>(&o)) {
		p.u8(!w->ChannelAssignment.empty());
		p.raw(w->ChannelAssignment.get().Value(), 16);
		p.u32(ui32_t(w->SubDescriptors.size()));
		for (auto& i: w->SubDescriptors) p.raw(i.Value(), 16);
	} else if (auto m = dynamic_cast<MXF::MCALabelSubDescriptor const*>(&o)) {
		p.raw(m->MCALabelDictionaryID.Value(), 16);
		p.raw(m->MCALinkID.Value(), 16);
		p.text(m->MCATagSymbol.str());
		p.u8(!m->MCATagName.empty());
		p.text(m->MCATagName.get().str());
		p.u8(!m->MCAChannelID.empty());
		p.u32(m->MCAChannelID.get());
		p.u8(!m->RFC5646SpokenLanguage.empty());
		p.text(m->RFC5646SpokenLanguage.get().str());
		if (auto c = dynamic_cast<MXF::AudioChannelLabelSubDescriptor const*>(&o)) {
			p.u8(!c->SoundfieldGroupLinkID.empty());
			p.raw(c->SoundfieldGroupLinkID.get().Value(), 16);
		}
	}
}

void unpack_uuid (Unpack& u, Kumu::UUID& id)
{
	byte_t b[16];
	u.raw(b, 16);
	id.Set(b);
}

MXF::InterchangeObject* unpack_object (Unpack& u)
{
	auto const kind = u.u8();
	std::unique_ptr<MXF::InterchangeObject> o;
	auto dict = &DefaultSMPTEDict();
	byte_t b[16];
	switch (kind) {
	case MDD_WaveAudioDescriptor: o.reset(new MXF::WaveAudioDescriptor(dict)); break;
	case MDD_SoundfieldGroupLabelSubDescriptor: o.reset(new MXF::SoundfieldGroupLabelSubDescriptor(dict)); break;
	case MDD_AudioChannelLabelSubDescriptor: o.reset(new MXF::AudioChannelLabelSubDescriptor(dict)); break;
	default: throw std::out_of_range("kind");
	}
	unpack_uuid(u, o->InstanceUID);
	if (auto w = dynamic_cast<MXF::WaveAudioDescriptor*>(o.get())) {
		bool has = u.u8();
		u.raw(b, 16);
		if (has) w->ChannelAssignment = UL(b);
		for (auto n = u.u32(); n > 0; --n) {
			ASDCP::UUID id;
			unpack_uuid(u, id);
			w->SubDescriptors.push_back(id);
		}
	} else if (auto m = dynamic_cast<MXF::MCALabelSubDescriptor*>(o.get())) {
		u.raw(b, 16);
		m->MCALabelDictionaryID = UL(b);
		unpack_uuid(u, m->MCALinkID);
		m->MCATagSymbol = u.text();
		bool has = u.u8();
		auto t = u.text();
		if (has) m->MCATagName = t;
		has = u.u8();
		auto n = u.u32();
		if (has) m->MCAChannelID = n;
		has = u.u8();
		t = u.text();
		if (has) m->RFC5646SpokenLanguage = t;
		if (auto c = dynamic_cast<MXF::AudioChannelLabelSubDescriptor*>(o.get())) {
			has = u.u8();
			ASDCP::UUID id;
			unpack_uuid(u, id);
			if (has) c->SoundfieldGroupLinkID = id;
		}
	}
	return o.release();
}

string header_bytes (
	EssenceType_t type, WriterInfo const& info, ui32_t header_size, ui64_t duration, ui64_t footer, string const& descriptor, MXF::OP1aHeader const& header
	)
{
	Pack p;
	p.raw(MAGIC, 8);
	p.u32(header_size);
	p.u32(type);
	p.u64(duration);
	p.u64(footer);
	p.raw(info.ProductUUID, 16);
	p.raw(info.AssetUUID, 16);
	p.raw(info.ContextID, 16);
	p.raw(info.CryptographicKeyID, 16);
	p.u8(info.EncryptedEssence);
	p.u8(info.UsesHMAC);
	p.u8(info.LabelSetType);
	p.text(info.ProductVersion);
	p.text(info.CompanyName);
	p.text(info.ProductName);
	p.text(descriptor);
	p.u32(ui32_t(header.objects().size()));
	for (auto& i: header.objects()) pack_object(p, *i);
	if (p.s.size() > header_size) return string();
	p.s.resize(header_size);
	return p.s;
}

// what goes between the IV and the HMAC is the encrypted essence, with a check value first
byte_t const CHECK[CBC_BLOCK_SIZE] = { 'C', 'H', 'U', 'K', 'C', 'H', 'U', 'K', 'C', 'H', 'U', 'K', 'C', 'H', 'U', 'K' };
char const PLAIN_KEY[] = "simulated-klv-p";
char const CRYPT_KEY[] = "simulated-klv-c";

string hmac_of (HMACContext const& hmac, WriterInfo const& info, ui64_t sequence, string const& essence)
{
	Pack p;
	p.raw(info.AssetUUID, 16);
	p.u64(sequence);
	p.s += essence;
	byte_t out[HMAC_SIZE];
	hmac.Value(reinterpret_cast<byte_t const*>(p.s.data()), p.s.size(), out);
	return string(reinterpret_cast<char*>(out), HMAC_SIZE);
}

}

// ---------------------------------------------------------------- files

namespace standin {

struct Sink
{
	int fd = -1;
	ui64_t at = 0;
	ui64_t sequence = 0;
	EssenceType_t type = ESS_UNKNOWN;
	WriterInfo info;
	ui32_t header_size = 0;
	vector<ui64_t> index;

	~Sink () { if (fd != -1) ::close(fd); }

	Result_t write (string const& s)
	{
		auto const r = ::write(fd, s.data(), s.size());
		if (r != ssize_t(s.size())) return RESULT_WRITEFAIL.os(r == -1 ? errno : 0);
		at += s.size();
		return RESULT_OK;
	}

	Result_t seek (ui64_t to)
	{
		if (::lseek(fd, off_t(to), SEEK_SET) == -1) return RESULT_BADSEEK.os(errno);
		at = to;
		return RESULT_OK;
	}
};

struct Source
{
	int fd = -1;
	EssenceType_t type = ESS_UNKNOWN;
	vector<ui64_t> index;

	~Source () { if (fd != -1) ::close(fd); }

	Result_t read (ui64_t from, size_t n, string& out)
	{
		if (::lseek(fd, off_t(from), SEEK_SET) == -1) return RESULT_BADSEEK.os(errno);
		return read_on(n, out);
	}

	Result_t read_on (size_t n, string& out)
	{
		if (n > 256u * 1024 * 1024) return RESULT_FORMAT;
		out.resize(n);
		auto const r = ::read(fd, &out[0], n);
		if (r == -1) return RESULT_READFAIL.os(errno);
		return size_t(r) == n ? RESULT_OK : RESULT_READFAIL;
	}
};

FileWriter::FileWriter () {}
FileWriter::~FileWriter () {}

Result_t FileWriter::open (string const& file, EssenceType_t type, WriterInfo const& info, ui32_t header_size, bool overwrite)
{
	if (_sink) return RESULT_STATE;
	std::unique_ptr<Sink> sink(new Sink);
	sink->fd = overwrite ? ::open(file.c_str(), O_RDWR | O_CREAT, 0664) : ::open(file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0664);
	if (sink->fd == -1) return RESULT_FILEOPEN.os(errno);
	sink->type = type;
	sink->info = info;
	sink->header_size = header_size;
	_sink = std::move(sink);
	return write_header();
}

Result_t FileWriter::write_header ()
{
	auto const h = header_bytes(_sink->type, _sink->info, _sink->header_size, 0, 0, descriptor, header);
	if (h.empty()) return RESULT_FAIL;
	return _sink->write(h);
}

std::function<void (FrameBuffer const&)> instead_of_storing;

Result_t FileWriter::write_packet (FrameBuffer const& buffer, byte_t tag, AESEncContext* enc, HMACContext* hmac, string* hash)
{
	if (!_sink) return RESULT_STATE;
	if (buffer.Size() == 0) return RESULT_EMPTY_FB;
	if (instead_of_storing) {
		instead_of_storing(buffer);
		return RESULT_OK;
	}
	string const data(reinterpret_cast<char const*>(buffer.RoData()), buffer.Size());
	Pack p;
	if (_sink->info.EncryptedEssence) {
		if (!enc) return RESULT_CRYPT_CTX;
		if (_sink->info.UsesHMAC && !hmac) return RESULT_HMAC_CTX;
		auto const offset = buffer.PlaintextOffset();
		if (offset > data.size()) return RESULT_LARGE_PTO;
		byte_t iv[CBC_BLOCK_SIZE];
		enc->GetIVec(iv);
		string in(reinterpret_cast<char const*>(CHECK), CBC_BLOCK_SIZE);
		in += data.substr(offset);
		auto const padding = CBC_BLOCK_SIZE - in.size() % CBC_BLOCK_SIZE;
		in.append(padding, char(padding));
		string out(in.size(), '\0');
		auto r = enc->EncryptBlock(reinterpret_cast<byte_t const*>(in.data()), reinterpret_cast<byte_t*>(&out[0]), ui32_t(in.size()));
		if (ASDCP_FAILURE(r)) return r;
		string essence(reinterpret_cast<char const*>(iv), CBC_BLOCK_SIZE);
		essence += data.substr(0, offset) + out;
		p.raw(CRYPT_KEY, 15);
		p.u8(tag);
		p.u64(16 + essence.size() + (_sink->info.UsesHMAC ? 8 + HMAC_SIZE : 0));
		p.u64(offset);
		p.u64(data.size());
		p.s += essence;
		if (_sink->info.UsesHMAC) {
			p.u64(_sink->sequence);
			p.s += hmac_of(*hmac, _sink->info, _sink->sequence, essence);
		}
	} else {
		p.raw(PLAIN_KEY, 15);
		p.u8(tag);
		p.u64(data.size());
		p.s += data;
	}
	auto const start = _sink->at;
	auto r = _sink->write(p.s);
	if (ASDCP_FAILURE(r)) return r;
	_sink->index.push_back(start);
	++_sink->sequence;
	if (hash) {
		byte_t digest[MD5_DIGEST_LENGTH];
		unsigned len = 0;
		EVP_Digest(p.s.data(), p.s.size(), digest, &len, EVP_md5(), nullptr);
		char hex[64];
		*hash = Kumu::bin2hex(digest, MD5_DIGEST_LENGTH, hex, sizeof(hex));
	}
	return RESULT_OK;
}

Result_t FileWriter::skip_packet (ui64_t size)
{
	if (!_sink) return RESULT_STATE;
	auto const start = _sink->at;
	auto r = _sink->seek(start + size);
	if (ASDCP_FAILURE(r)) return r;
	_sink->index.push_back(start);
	++_sink->sequence;
	return RESULT_OK;
}

Result_t FileWriter::finalize (ui64_t duration)
{
	if (!_sink) return RESULT_STATE;
	auto const footer = _sink->at;
	Pack p;
	p.raw("FOOT", 4);
	p.u32(ui32_t(_sink->index.size()));
	for (auto i: _sink->index) p.u64(i);
	auto r = _sink->write(p.s);
	if (ASDCP_FAILURE(r)) return r;
	r = _sink->seek(0);
	if (ASDCP_FAILURE(r)) return r;
	auto const h = header_bytes(_sink->type, _sink->info, _sink->header_size, duration, footer, descriptor, header);
	if (h.empty()) return RESULT_FAIL;
	r = _sink->write(h);
	if (ASDCP_FAILURE(r)) return r;
	_sink.reset();
	return RESULT_OK;
}

ui64_t FileWriter::tell () const { return _sink ? _sink->at : 0; }
size_t FileWriter::packets () const { return _sink ? _sink->index.size() : 0; }

FileReader::FileReader () {}
FileReader::~FileReader () {}

static Result_t open_header (Source& source, string const& file, string& bytes, EssenceType_t& type)
{
	source.fd = ::open(file.c_str(), O_RDONLY, 0);
	if (source.fd == -1) return RESULT_FILEOPEN.os(errno);
	string start;
	auto r = source.read_on(16, start);
	if (ASDCP_FAILURE(r)) return r;
	Unpack u(start);
	u.at = 8;
	auto const size = u.u32();
	type = EssenceType_t(u.u32());
	if (memcmp(start.data(), MAGIC, 8) != 0 || size < 16 || size > 1024 * 1024) return RESULT_FORMAT;
	r = source.read_on(size - 16, bytes);
	return r;
}

Result_t FileReader::open (string const& file, EssenceType_t type, EssenceType_t other)
{
	std::unique_ptr<Source> source(new Source);
	string bytes;
	auto r = open_header(*source, file, bytes, source->type);
	if (ASDCP_FAILURE(r)) return r;
	if (source->type != type) return source->type == other ? RESULT_SFORMAT : RESULT_FORMAT;
	try {
		Unpack u(bytes);
		duration = u.u64();
		auto const footer = u.u64();
		u.raw(info.ProductUUID, 16);
		u.raw(info.AssetUUID, 16);
		u.raw(info.ContextID, 16);
		u.raw(info.CryptographicKeyID, 16);
		info.EncryptedEssence = u.u8();
		info.UsesHMAC = u.u8();
		info.LabelSetType = LabelSet_t(u.u8());
		info.ProductVersion = u.text();
		info.CompanyName = u.text();
		info.ProductName = u.text();
		descriptor = u.text();
		header.clear();
		for (auto n = u.u32(); n > 0; --n) header.AddChildObject(unpack_object(u));
		// a file which was not finalised has no index
		if (footer == 0) return RESULT_FORMAT;
		string start;
		r = source->read(footer, 8, start);
		if (ASDCP_FAILURE(r)) return r;
		if (start.compare(0, 4, "FOOT") != 0) return RESULT_FORMAT;
		Unpack v(start);
		v.at = 4;
		auto const n = v.u32();
		if (n > 1000000) return RESULT_FORMAT;
		string table;
		r = source->read_on(size_t(n) * 8, table);
		if (ASDCP_FAILURE(r)) return r;
		Unpack w(table);
		for (ui32_t i = 0; i < n; ++i) source->index.push_back(w.u64());
	} catch (std::out_of_range&) {
		return RESULT_FORMAT;
	}
	_source = std::move(source);
	return RESULT_OK;
}

Result_t FileReader::close ()
{
	if (!_source) return RESULT_FILEOPEN;
	_source.reset();
	return RESULT_OK;
}

size_t FileReader::packets () const { return _source ? _source->index.size() : 0; }

Result_t FileReader::read_packet (ui32_t number, byte_t tag, FrameBuffer& buffer, AESDecContext* dec, HMACContext* hmac)
{
	if (!_source) return RESULT_INIT;
	if (number >= _source->index.size()) return RESULT_RANGE;
	string start;
	auto r = _source->read(_source->index[number], 24, start);
	if (ASDCP_FAILURE(r)) return r;
	bool const encrypted = memcmp(start.data(), CRYPT_KEY, 15) == 0;
	if (!encrypted && memcmp(start.data(), PLAIN_KEY, 15) != 0) return RESULT_KLV_CODING;
	if (byte_t(start[15]) != tag || encrypted != info.EncryptedEssence) return RESULT_FORMAT;
	Unpack u(start);
	u.at = 16;
	auto const size = u.u64();
	if (size > 64 * 1024 * 1024) return RESULT_KLV_CODING;
	string body;
	r = _source->read_on(size, body);
	if (ASDCP_FAILURE(r)) return r;
	string data;
	try {
		if (encrypted) {
			Unpack v(body);
			auto const offset = v.u64();
			auto const length = v.u64();
			auto const extra = info.UsesHMAC ? 8 + HMAC_SIZE : 0;
			if (length > 64 * 1024 * 1024 || offset > length || body.size() < 16 + 16 + offset + CBC_BLOCK_SIZE + extra) return RESULT_KLV_CODING;
			auto const essence = body.substr(16, body.size() - 16 - extra);
			if (!dec) {
				data = essence;
			} else {
				if (info.UsesHMAC) {
					if (!hmac) return RESULT_HMAC_CTX;
					v.at = body.size() - extra;
					auto const sequence = v.u64();
					if (hmac_of(*hmac, info, sequence, essence) != body.substr(v.at) || sequence != number) return RESULT_HMACFAIL;
				}
				auto const in = essence.substr(16 + offset);
				if (in.size() % CBC_BLOCK_SIZE || in.size() < CBC_BLOCK_SIZE + length - offset) return RESULT_KLV_CODING;
				string out(in.size(), '\0');
				dec->SetIVec(reinterpret_cast<byte_t const*>(essence.data()));
				r = dec->DecryptBlock(reinterpret_cast<byte_t const*>(in.data()), reinterpret_cast<byte_t*>(&out[0]), ui32_t(in.size()));
				if (ASDCP_FAILURE(r)) return r;
				if (memcmp(out.data(), CHECK, CBC_BLOCK_SIZE) != 0) return RESULT_CHECKFAIL;
				data = essence.substr(16, offset) + out.substr(CBC_BLOCK_SIZE, length - offset);
			}
		} else {
			data = body;
		}
	} catch (std::out_of_range&) {
		return RESULT_KLV_CODING;
	}
	if (buffer.Capacity() < data.size()) return RESULT_SMALLBUF;
	memcpy(buffer.Data(), data.data(), data.size());
	buffer.Size(ui32_t(data.size()));
	buffer.FrameNumber(number);
	return RESULT_OK;
}

template <class T> string pack (T const& t)
{
	static_assert(std::is_trivially_copyable<T>::value, "descriptors are copied as they are");
	T copy;
	memcpy(&copy, &t, sizeof(t));
	// whatever lies between the members must not get into the file
	__builtin_clear_padding(&copy);
	return string(reinterpret_cast<char const*>(&copy), sizeof(copy));
}

template <class T> bool unpack (string const& s, T& t)
{
	if (s.size() != sizeof(t)) return false;
	memcpy(&t, s.data(), sizeof(t));
	return true;
}

template <class T> Result_t fill (FileReader const& reader, T& d)
{
	if (!reader.is_open()) return RESULT_INIT;
	return unpack(reader.descriptor, d) ? RESULT_OK : RESULT_FORMAT;
}

}

using namespace standin;

Result_t EssenceType (string const& filename, EssenceType_t& type, Kumu::IFileReaderFactory const&)
{
	type = ESS_UNKNOWN;
	Source source;
	string bytes;
	EssenceType_t t = ESS_UNKNOWN;
	auto r = open_header(source, filename, bytes, t);
	if (r.Value() == RESULT_FORMAT.Value()) return RESULT_OK;
	if (ASDCP_FAILURE(r)) return r;
	type = t;
	return RESULT_OK;
}

namespace JP2K {

Result_t CodestreamParser::OpenReadFrame (byte_t const* data, ui32_t size, FrameBuffer& buffer)
{
	// start of codestream, then image and tile sizes
	if (size < 4 + 38 || data[0] != 0xff || data[1] != 0x4f || data[2] != 0xff || data[3] != 0x51) return RESULT_RAW_FORMAT;
	auto u16 = [&](int at) { return ui16_t(data[at] << 8 | data[at + 1]); };
	auto u32 = [&](int at) { return ui32_t(u16(at)) << 16 | u16(at + 2); };
	PictureDescriptor d;
	d.Rsize = u16(6);
	d.Xsize = u32(8);
	d.Ysize = u32(12);
	d.XOsize = u32(16);
	d.YOsize = u32(20);
	d.XTsize = u32(24);
	d.YTsize = u32(28);
	d.XTOsize = u32(32);
	d.YTOsize = u32(36);
	d.Csize = u16(40);
	if (d.Csize != 3 || size < 42u + 9u) return RESULT_RAW_FORMAT;
	for (int i = 0; i < 3; ++i) {
		d.ImageComponents[i].Ssize = data[42 + i * 3];
		d.ImageComponents[i].XRsize = data[43 + i * 3];
		d.ImageComponents[i].YRsize = data[44 + i * 3];
	}
	d.StoredWidth = d.Xsize;
	d.StoredHeight = d.Ysize;
	d.AspectRatio = Rational(i32_t(d.Xsize), i32_t(d.Ysize));
	_descriptor = d;
	// some of the codestream's headers stay unencrypted
	if (buffer.Capacity() < size) return RESULT_SMALLBUF;
	memcpy(buffer.Data(), data, size);
	buffer.Size(size);
	ui32_t p = 2;
	while (p + 4 <= size && !(data[p] == 0xff && data[p + 1] == 0x93)) {
		p += data[p] == 0xff && data[p + 1] == 0x90 ? 12u : 2u + u16(int(p) + 2);
	}
	buffer.PlaintextOffset(std::min(p, size));
	return RESULT_OK;
}

static Result_t open (FileWriter& w, string const& filename, EssenceType_t type, WriterInfo const& info, PictureDescriptor const& d, ui32_t header_size, bool overwrite)
{
	w.descriptor = pack(d);
	return w.open(filename, type, info, header_size, overwrite);
}

static Result_t finish (FileWriter& w, ui64_t duration)
{
	PictureDescriptor d;
	if (!unpack(w.descriptor, d)) return RESULT_STATE;
	d.ContainerDuration = ui32_t(duration);
	w.descriptor = pack(d);
	return w.finalize(duration);
}

Result_t MXFWriter::OpenWrite (string const& filename, WriterInfo const& info, PictureDescriptor const& d, ui32_t header_size, bool overwrite)
{
	return open(_writer, filename, ESS_JPEG_2000, info, d, header_size, overwrite);
}

Result_t MXFWriter::WriteFrame (FrameBuffer const& b, AESEncContext* enc, HMACContext* hmac, string* hash) { return _writer.write_packet(b, 'J', enc, hmac, hash); }
Result_t MXFWriter::FakeWriteFrame (int size) { return _writer.skip_packet(ui64_t(size)); }
Result_t MXFWriter::Finalize () { return finish(_writer, _writer.packets()); }

Result_t MXFReader::OpenRead (string const& filename) { return _reader.open(filename, ESS_JPEG_2000, ESS_JPEG_2000_S); }
Result_t MXFReader::FillPictureDescriptor (PictureDescriptor& d) const { return fill(_reader, d); }
Result_t MXFReader::ReadFrame (ui32_t n, FrameBuffer& b, AESDecContext* dec, HMACContext* hmac) { return _reader.read_packet(n, 'J', b, dec, hmac); }

Result_t MXFSWriter::OpenWrite (string const& filename, WriterInfo const& info, PictureDescriptor const& d, ui32_t header_size, bool overwrite)
{
	return open(_writer, filename, ESS_JPEG_2000_S, info, d, header_size, overwrite);
}

Result_t MXFSWriter::phase (StereoscopicPhase_t p)
{
	if (p != _next) return RESULT_SPHASE;
	_next = p == SP_LEFT ? SP_RIGHT : SP_LEFT;
	return RESULT_OK;
}

Result_t MXFSWriter::WriteFrame (FrameBuffer const& b, StereoscopicPhase_t p, AESEncContext* enc, HMACContext* hmac, string* hash)
{
	auto r = phase(p);
	return ASDCP_FAILURE(r) ? r : _writer.write_packet(b, 'S', enc, hmac, hash);
}

Result_t MXFSWriter::FakeWriteFrame (int size, StereoscopicPhase_t p)
{
	auto r = phase(p);
	return ASDCP_FAILURE(r) ? r : _writer.skip_packet(ui64_t(size));
}

Result_t MXFSWriter::Finalize ()
{
	if (_next != SP_LEFT) return RESULT_SPHASE;
	return finish(_writer, _writer.packets() / 2);
}

Result_t MXFSReader::OpenRead (string const& filename) { return _reader.open(filename, ESS_JPEG_2000_S, ESS_JPEG_2000); }
Result_t MXFSReader::FillPictureDescriptor (PictureDescriptor& d) const { return fill(_reader, d); }

Result_t MXFSReader::ReadFrame (ui32_t n, StereoscopicPhase_t p, FrameBuffer& b, AESDecContext* dec, HMACContext* hmac)
{
	return _reader.read_packet(n * 2 + (p == SP_RIGHT ? 1 : 0), 'S', b, dec, hmac);
}

Result_t MXFSReader::ReadFrame (ui32_t n, SFrameBuffer& b, AESDecContext* dec, HMACContext* hmac)
{
	auto r = ReadFrame(n, SP_LEFT, b.Left, dec, hmac);
	return ASDCP_FAILURE(r) ? r : ReadFrame(n, SP_RIGHT, b.Right, dec, hmac);
}

}

namespace PCM {

ui32_t CalcSamplesPerFrame (AudioDescriptor const& d)
{
	double const s = d.AudioSamplingRate.Quotient() / d.EditRate.Quotient();
	auto const n = ui32_t(s);
	return s > n ? n + 1 : n;
}

ui32_t CalcFrameBufferSize (AudioDescriptor const& d) { return CalcSamplesPerFrame(d) * d.BlockAlign; }

Result_t MXFWriter::OpenWrite (string const& filename, WriterInfo const& info, AudioDescriptor const& d, ui32_t header_size)
{
	_writer.descriptor = pack(d);
	_writer.header.AddChildObject(new MXF::WaveAudioDescriptor(&DefaultSMPTEDict()));
	return _writer.open(filename, d.AudioSamplingRate.Numerator == 96000 ? ESS_PCM_24b_96k : ESS_PCM_24b_48k, info, header_size, false);
}

Result_t MXFWriter::WriteFrame (FrameBuffer const& b, AESEncContext* enc, HMACContext* hmac) { return _writer.write_packet(b, 'P', enc, hmac, nullptr); }

Result_t MXFWriter::Finalize ()
{
	AudioDescriptor d;
	if (!unpack(_writer.descriptor, d)) return RESULT_STATE;
	d.ContainerDuration = ui32_t(_writer.packets());
	_writer.descriptor = pack(d);
	return _writer.finalize(d.ContainerDuration);
}

Result_t MXFReader::OpenRead (string const& filename)
{
	auto r = _reader.open(filename, ESS_PCM_24b_48k, ESS_PCM_24b_96k);
	return r.Value() == RESULT_SFORMAT.Value() ? _reader.open(filename, ESS_PCM_24b_96k) : r;
}

Result_t MXFReader::FillAudioDescriptor (AudioDescriptor& d) const { return fill(_reader, d); }
Result_t MXFReader::ReadFrame (ui32_t n, FrameBuffer& b, AESDecContext* dec, HMACContext* hmac) { return _reader.read_packet(n, 'P', b, dec, hmac); }

}

namespace TimedText {

static string pack_text (TimedTextDescriptor const& d)
{
	Pack p;
	p.u32(ui32_t(d.EditRate.Numerator));
	p.u32(ui32_t(d.EditRate.Denominator));
	p.u32(d.ContainerDuration);
	p.raw(d.AssetID, 16);
	p.text(d.NamespaceName);
	p.text(d.EncodingName);
	p.u32(ui32_t(d.ResourceList.size()));
	for (auto& i: d.ResourceList) {
		p.raw(i.ResourceID, 16);
		p.u8(i.Type);
	}
	return p.s;
}

static bool unpack_text (string const& s, TimedTextDescriptor& d)
{
	try {
		Unpack u(s);
		d.EditRate.Numerator = i32_t(u.u32());
		d.EditRate.Denominator = i32_t(u.u32());
		d.ContainerDuration = u.u32();
		u.raw(d.AssetID, 16);
		d.NamespaceName = u.text();
		d.EncodingName = u.text();
		d.ResourceList.clear();
		for (auto n = u.u32(); n > 0; --n) {
			TimedTextResourceDescriptor r;
			u.raw(r.ResourceID, 16);
			r.Type = MIMEType_t(u.u8());
			d.ResourceList.push_back(r);
		}
	} catch (std::out_of_range&) {
		return false;
	}
	return true;
}

Result_t MXFWriter::OpenWrite (string const& filename, WriterInfo const& info, TimedTextDescriptor const& d, ui32_t header_size)
{
	_duration = d.ContainerDuration;
	_resources = d.ResourceList.size();
	_writer.descriptor = pack_text(d);
	return _writer.open(filename, ESS_TIMED_TEXT, info, header_size, false);
}

Result_t MXFWriter::WriteTimedTextResource (string const& xml, AESEncContext* enc, HMACContext* hmac)
{
	FrameBuffer b(ui32_t(xml.size()) + 1);
	memcpy(b.Data(), xml.data(), xml.size());
	b.Size(ui32_t(xml.size()));
	return _writer.write_packet(b, 'T', enc, hmac, nullptr);
}

Result_t MXFWriter::WriteAncillaryResource (FrameBuffer const& b, AESEncContext* enc, HMACContext* hmac)
{
	if (_writer.packets() == 0 || _writer.packets() > _resources) return RESULT_STATE;
	return _writer.write_packet(b, 'A', enc, hmac, nullptr);
}

Result_t MXFWriter::Finalize () { return _writer.finalize(_duration); }

Result_t MXFReader::OpenRead (string const& filename) { return _reader.open(filename, ESS_TIMED_TEXT); }

Result_t MXFReader::FillTimedTextDescriptor (TimedTextDescriptor& d) const
{
	if (!_reader.is_open()) return RESULT_INIT;
	return unpack_text(_reader.descriptor, d) ? RESULT_OK : RESULT_FORMAT;
}

Result_t MXFReader::ReadTimedTextResource (string& xml, AESDecContext* dec, HMACContext* hmac)
{
	FrameBuffer b(8 * 1024 * 1024);
	auto r = _reader.read_packet(0, 'T', b, dec, hmac);
	if (ASDCP_SUCCESS(r)) xml.assign(reinterpret_cast<char const*>(b.RoData()), b.Size());
	return r;
}

Result_t MXFReader::ReadAncillaryResource (byte_t const* id, FrameBuffer& b, AESDecContext* dec, HMACContext* hmac)
{
	TimedTextDescriptor d;
	auto r = FillTimedTextDescriptor(d);
	if (ASDCP_FAILURE(r)) return r;
	ui32_t n = 1;
	for (auto& i: d.ResourceList) {
		if (memcmp(i.ResourceID, id, UUIDlen) == 0) return _reader.read_packet(n, 'A', b, dec, hmac);
		++n;
	}
	return RESULT_RANGE;
}

}

namespace MPEG2 {

Result_t Parser::OpenRead (byte_t const* data, ui32_t size)
{
	// sequence header
	if (size < 8 || data[0] != 0 || data[1] != 0 || data[2] != 1 || data[3] != 0xb3) return RESULT_RAW_FORMAT;
	_descriptor.StoredWidth = ui32_t(data[4]) << 4 | data[5] >> 4;
	_descriptor.StoredHeight = ui32_t(data[5] & 15) << 8 | data[6];
	_descriptor.EditRate = _descriptor.SampleRate = Rational(24, 1);
	_descriptor.AspectRatio = Rational(16, 9);
	return RESULT_OK;
}

Result_t MXFWriter::OpenWrite (string const& filename, WriterInfo const& info, VideoDescriptor const& d, ui32_t header_size, bool overwrite)
{
	_writer.descriptor = pack(d);
	return _writer.open(filename, ESS_MPEG2_VES, info, header_size, overwrite);
}

Result_t MXFWriter::WriteFrame (FrameBuffer const& b, AESEncContext* enc, HMACContext* hmac, string* hash) { return _writer.write_packet(b, 'M', enc, hmac, hash); }
Result_t MXFWriter::FakeWriteFrame (int size, FrameType_t, bool, bool, ui8_t) { return _writer.skip_packet(ui64_t(size)); }

Result_t MXFWriter::Finalize ()
{
	VideoDescriptor d;
	if (!unpack(_writer.descriptor, d)) return RESULT_STATE;
	d.ContainerDuration = ui32_t(_writer.packets());
	_writer.descriptor = pack(d);
	return _writer.finalize(d.ContainerDuration);
}

Result_t MXFReader::OpenRead (string const& filename) { return _reader.open(filename, ESS_MPEG2_VES); }
Result_t MXFReader::FillVideoDescriptor (VideoDescriptor& d) const { return fill(_reader, d); }
Result_t MXFReader::ReadFrame (ui32_t n, FrameBuffer& b, AESDecContext* dec, HMACContext* hmac) { return _reader.read_packet(n, 'M', b, dec, hmac); }

}

namespace ATMOS {

Result_t MXFWriter::OpenWrite (string const& filename, WriterInfo const& info, AtmosDescriptor const& d, ui32_t header_size)
{
	_writer.descriptor = pack(d);
	return _writer.open(filename, ESS_DCDATA_DOLBY_ATMOS, info, header_size, false);
}

Result_t MXFWriter::WriteFrame (DCData::FrameBuffer const& b, AESEncContext* enc, HMACContext* hmac) { return _writer.write_packet(b, 'D', enc, hmac, nullptr); }

Result_t MXFWriter::Finalize ()
{
	AtmosDescriptor d;
	if (!unpack(_writer.descriptor, d)) return RESULT_STATE;
	d.ContainerDuration = ui32_t(_writer.packets());
	_writer.descriptor = pack(d);
	return _writer.finalize(d.ContainerDuration);
}

Result_t MXFReader::OpenRead (string const& filename) { return _reader.open(filename, ESS_DCDATA_DOLBY_ATMOS); }
Result_t MXFReader::FillAtmosDescriptor (AtmosDescriptor& d) const { return fill(_reader, d); }
Result_t MXFReader::ReadFrame (ui32_t n, DCData::FrameBuffer& b, AESDecContext* dec, HMACContext* hmac) { return _reader.read_packet(n, 'D', b, dec, hmac); }

}

}
