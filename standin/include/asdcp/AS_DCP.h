// Stand-in for asdcplib's AS_DCP.h: the parts which libdcp uses.  Files have the
// same outline as asdcplib's - a header of fixed size which is written again when
// the file is finalised, then one packet for each frame, then an index - and the
// same system calls are made for them, but they are not MXF files.
#ifndef STANDIN_AS_DCP_H
#define STANDIN_AS_DCP_H

#include "KM_util.h"
#include "KM_fileio.h"
#include <list>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>

#define ASDCP_SUCCESS(v) (((v).Value() < 0) ? 0 : 1)
#define ASDCP_FAILURE(v) (((v).Value() < 0) ? 1 : 0)

namespace ASDCP {

using Kumu::Result_t;
using Kumu::RESULT_FALSE;
using Kumu::RESULT_OK;
using Kumu::RESULT_FAIL;
using Kumu::RESULT_PTR;
using Kumu::RESULT_NULL_STR;
using Kumu::RESULT_ALLOC;
using Kumu::RESULT_PARAM;
using Kumu::RESULT_NOTIMPL;
using Kumu::RESULT_SMALLBUF;
using Kumu::RESULT_INIT;
using Kumu::RESULT_NOT_FOUND;
using Kumu::RESULT_NO_PERM;
using Kumu::RESULT_FILEOPEN;
using Kumu::RESULT_BADSEEK;
using Kumu::RESULT_READFAIL;
using Kumu::RESULT_WRITEFAIL;
using Kumu::RESULT_STATE;
using Kumu::RESULT_ENDOFFILE;
using Kumu::RESULT_CONFIG;

static Result_t const RESULT_FORMAT(-101, "The file format is not proper OP-Atom/AS-DCP.");
static Result_t const RESULT_RAW_ESS(-102, "Unknown raw essence file type.");
static Result_t const RESULT_RAW_FORMAT(-103, "Raw essence format invalid.");
static Result_t const RESULT_RANGE(-104, "Frame number out of range.");
static Result_t const RESULT_CRYPT_CTX(-105, "AESEncContext required when writing to encrypted file.");
static Result_t const RESULT_LARGE_PTO(-106, "Plaintext offset exceeds frame buffer size.");
static Result_t const RESULT_CAPEXTMEM(-107, "Cannot resize externally allocated memory.");
static Result_t const RESULT_CHECKFAIL(-108, "The check value did not decrypt correctly.");
static Result_t const RESULT_HMACFAIL(-109, "HMAC authentication failure.");
static Result_t const RESULT_HMAC_CTX(-110, "HMAC context required.");
static Result_t const RESULT_CRYPT_INIT(-111, "Error initializing block cipher context.");
static Result_t const RESULT_EMPTY_FB(-112, "Empty frame buffer.");
static Result_t const RESULT_KLV_CODING(-113, "KLV coding error.");
static Result_t const RESULT_SPHASE(-114, "Stereoscopic phase mismatch.");
static Result_t const RESULT_SFORMAT(-115, "Rate mismatch, file may contain stereoscopic essence.");

ui32_t const UUIDlen = 16;
ui32_t const KeyLen = 16;
ui32_t const CBC_KEY_SIZE = 16;
ui32_t const CBC_BLOCK_SIZE = 16;
ui32_t const HMAC_SIZE = 20;

enum EssenceType_t {
	ESS_UNKNOWN,
	ESS_MPEG2_VES,
	ESS_JPEG_2000,
	ESS_PCM_24b_48k,
	ESS_PCM_24b_96k,
	ESS_TIMED_TEXT,
	ESS_JPEG_2000_S,
	ESS_DCDATA_UNKNOWN,
	ESS_DCDATA_DOLBY_ATMOS
};

Result_t EssenceType (std::string const& filename, EssenceType_t& type, Kumu::IFileReaderFactory const& factory);

struct Rational
{
	i32_t Numerator = 0;
	i32_t Denominator = 0;
	Rational () {}
	Rational (i32_t n, i32_t d) : Numerator(n), Denominator(d) {}
	double Quotient () const { return double(Numerator) / double(Denominator); }
	bool operator== (Rational const& o) const { return Numerator == o.Numerator && Denominator == o.Denominator; }
	bool operator!= (Rational const& o) const { return !(*this == o); }
};

enum LabelSet_t { LS_MXF_UNKNOWN, LS_MXF_INTEROP, LS_MXF_SMPTE };

struct WriterInfo
{
	byte_t ProductUUID[UUIDlen] = {};
	byte_t AssetUUID[UUIDlen] = {};
	byte_t ContextID[UUIDlen] = {};
	byte_t CryptographicKeyID[UUIDlen] = {};
	bool EncryptedEssence = false;
	bool UsesHMAC = false;
	std::string ProductVersion;
	std::string CompanyName;
	std::string ProductName;
	LabelSet_t LabelSetType = LS_MXF_INTEROP;
};

class AESEncContext
{
public:
	AESEncContext () {}
	Result_t InitKey (byte_t const* key);
	Result_t SetIVec (byte_t const* i_vec);
	Result_t GetIVec (byte_t* i_vec) const;
	Result_t EncryptBlock (byte_t const* in, byte_t* out, ui32_t n);
private:
	byte_t _key[KeyLen] = {};
	byte_t _iv[CBC_BLOCK_SIZE] = {};
};

class AESDecContext
{
public:
	AESDecContext () {}
	Result_t InitKey (byte_t const* key);
	Result_t SetIVec (byte_t const* i_vec);
	Result_t DecryptBlock (byte_t const* in, byte_t* out, ui32_t n);
private:
	byte_t _key[KeyLen] = {};
	byte_t _iv[CBC_BLOCK_SIZE] = {};
};

class HMACContext
{
public:
	HMACContext () {}
	Result_t InitKey (byte_t const* key, LabelSet_t);
	void Value (byte_t const* data, size_t n, byte_t* out) const;
private:
	byte_t _key[KeyLen] = {};
};

class FrameBuffer
{
public:
	FrameBuffer () {}
	explicit FrameBuffer (ui32_t n) { Capacity(n); }
	virtual ~FrameBuffer () {}
	FrameBuffer (FrameBuffer const&) = delete;
	FrameBuffer& operator= (FrameBuffer const&) = delete;
	Result_t Capacity (ui32_t n);
	ui32_t Capacity () const { return _capacity; }
	Result_t SetData (byte_t* p, ui32_t n);
	byte_t const* RoData () const { return _data; }
	byte_t* Data () { return _data; }
	ui32_t Size (ui32_t n) { return _size = n; }
	ui32_t Size () const { return _size; }
	void FrameNumber (ui32_t n) { _number = n; }
	ui32_t FrameNumber () const { return _number; }
	void PlaintextOffset (ui32_t n) { _plaintext = n; }
	ui32_t PlaintextOffset () const { return _plaintext; }
private:
	std::unique_ptr<byte_t[]> _own;
	byte_t* _data = nullptr;
	ui32_t _capacity = 0;
	ui32_t _size = 0;
	ui32_t _number = 0;
	ui32_t _plaintext = 0;
};

// ---------------------------------------------------------------- metadata

class UL
{
public:
	UL () {}
	UL (byte_t const* v) { memcpy(_v, v, sizeof(_v)); }
	byte_t const* Value () const { return _v; }
	char const* EncodeString (char* buf, ui32_t n) const;
	bool operator== (UL const& o) const { return memcmp(_v, o._v, sizeof(_v)) == 0; }
private:
	byte_t _v[16] = {};
};

enum MDD_t {
	MDD_WaveAudioDescriptor,
	MDD_SoundfieldGroupLabelSubDescriptor,
	MDD_AudioChannelLabelSubDescriptor,
	MDD_DCAudioChannelCfg_4_WTF,
	MDD_DCAudioSoundfield_51,
	MDD_DCAudioSoundfield_71,
	MDD_DCAudioChannel_L,
	MDD_DCAudioChannel_R,
	MDD_DCAudioChannel_C,
	MDD_DCAudioChannel_LFE,
	MDD_DCAudioChannel_Ls,
	MDD_DCAudioChannel_Rs,
	MDD_DCAudioChannel_Lss,
	MDD_DCAudioChannel_Rss,
	MDD_DCAudioChannel_Lrs,
	MDD_DCAudioChannel_Rrs,
	MDD_DCAudioChannel_HI,
	MDD_DCAudioChannel_VIN,
	MDD_DBOXMotionCodePrimaryStream,
	MDD_Max
};

class Dictionary
{
public:
	Dictionary ();
	byte_t const* ul (MDD_t m) const { return _ul[m]; }
private:
	byte_t _ul[MDD_Max][16];
};

Dictionary const& DefaultSMPTEDict ();

class UUID : public Kumu::UUID
{
public:
	char const* EncodeString (char* buf, ui32_t n) const { return EncodeHex(buf, n); }
};

namespace MXF {

class TextProperty
{
public:
	TextProperty () {}
	TextProperty (std::string const& s) : _s(s) {}
	TextProperty (char const* s) : _s(s) {}
	char const* EncodeString (char* buf, ui32_t n) const;
	std::string const& str () const { return _s; }
private:
	std::string _s;
};

typedef TextProperty UTF16String;
typedef TextProperty ISO8String;

template <class T>
class optional_property
{
public:
	optional_property () {}
	template <class U> optional_property& operator= (U const& v) { _v = v; _has = true; return *this; }
	bool empty () const { return !_has; }
	T& get () { return _v; }
	T const& get () const { return _v; }
	void set_has_value () { _has = true; }
private:
	T _v{};
	bool _has = false;
};

class InterchangeObject
{
public:
	explicit InterchangeObject (MDD_t kind);
	virtual ~InterchangeObject () {}
	ASDCP::UUID InstanceUID;
	MDD_t kind () const { return _kind; }
private:
	MDD_t _kind;
};

class WaveAudioDescriptor : public InterchangeObject
{
public:
	explicit WaveAudioDescriptor (Dictionary const*) : InterchangeObject(MDD_WaveAudioDescriptor) {}
	optional_property<UL> ChannelAssignment;
	std::vector<ASDCP::UUID> SubDescriptors;
};

class MCALabelSubDescriptor : public InterchangeObject
{
public:
	explicit MCALabelSubDescriptor (MDD_t kind) : InterchangeObject(kind) {}
	UL MCALabelDictionaryID;
	ASDCP::UUID MCALinkID;
	UTF16String MCATagSymbol;
	optional_property<UTF16String> MCATagName;
	optional_property<ui32_t> MCAChannelID;
	optional_property<ISO8String> RFC5646SpokenLanguage;
};

class SoundfieldGroupLabelSubDescriptor : public MCALabelSubDescriptor
{
public:
	explicit SoundfieldGroupLabelSubDescriptor (Dictionary const*) : MCALabelSubDescriptor(MDD_SoundfieldGroupLabelSubDescriptor) {}
};

class AudioChannelLabelSubDescriptor : public MCALabelSubDescriptor
{
public:
	explicit AudioChannelLabelSubDescriptor (Dictionary const*) : MCALabelSubDescriptor(MDD_AudioChannelLabelSubDescriptor) {}
	optional_property<ASDCP::UUID> SoundfieldGroupLinkID;
};

class OP1aHeader
{
public:
	Result_t GetMDObjectByType (byte_t const* ul, InterchangeObject** object = nullptr);
	Result_t GetMDObjectsByType (byte_t const* ul, std::list<InterchangeObject*>& objects);
	// takes ownership
	void AddChildObject (InterchangeObject* object);
	std::list<std::unique_ptr<InterchangeObject>> const& objects () const { return _objects; }
	void clear () { _objects.clear(); }
private:
	std::list<std::unique_ptr<InterchangeObject>> _objects;
};

}

// ---------------------------------------------------------------- files

namespace standin {

struct Sink;
struct Source;

class FileWriter
{
public:
	FileWriter ();
	~FileWriter ();
	Result_t open (std::string const& file, EssenceType_t type, WriterInfo const& info, ui32_t header_size, bool overwrite);
	Result_t write_packet (FrameBuffer const& buffer, byte_t tag, AESEncContext* enc, HMACContext* hmac, std::string* hash);
	Result_t skip_packet (ui64_t size);
	// descriptor: the part of the header particular to the type of essence
	Result_t write_header ();
	Result_t finalize (ui64_t duration);
	ui64_t tell () const;
	size_t packets () const;
	std::string descriptor;
	MXF::OP1aHeader header;
	bool is_open () const { return bool(_sink); }
private:
	std::unique_ptr<Sink> _sink;
};

class FileReader
{
public:
	FileReader ();
	~FileReader ();
	Result_t open (std::string const& file, EssenceType_t type, EssenceType_t other = ESS_UNKNOWN);
	Result_t read_packet (ui32_t number, byte_t tag, FrameBuffer& buffer, AESDecContext* dec, HMACContext* hmac);
	Result_t close ();
	bool is_open () const { return bool(_source); }
	WriterInfo info;
	ui64_t duration = 0;
	std::string descriptor;
	MXF::OP1aHeader header;
	size_t packets () const;
private:
	std::unique_ptr<Source> _source;
};

}

#define STANDIN_READER(DESCRIPTOR, FILL) \
	explicit MXFReader (Kumu::IFileReaderFactory const&) {} \
	MXFReader (MXFReader const&) = delete; \
	MXFReader& operator= (MXFReader const&) = delete; \
	Result_t OpenRead (std::string const& filename); \
	Result_t Close () { return _reader.close(); } \
	Result_t FILL (DESCRIPTOR& d) const; \
	Result_t FillWriterInfo (WriterInfo& info) const { if (!_reader.is_open()) return RESULT_INIT; info = _reader.info; return RESULT_OK; } \
	MXF::OP1aHeader& OP1aHeader () { return _reader.header; }

namespace JP2K {

ui32_t const MaxComponents = 3;

struct ImageComponent_t
{
	ui8_t Ssize, XRsize, YRsize;
};

struct PictureDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration = 0;
	Rational SampleRate;
	ui32_t StoredWidth = 0;
	ui32_t StoredHeight = 0;
	Rational AspectRatio;
	ui16_t Rsize = 0;
	ui32_t Xsize = 0;
	ui32_t Ysize = 0;
	ui32_t XOsize = 0;
	ui32_t YOsize = 0;
	ui32_t XTsize = 0;
	ui32_t YTsize = 0;
	ui32_t XTOsize = 0;
	ui32_t YTOsize = 0;
	ui16_t Csize = 0;
	ImageComponent_t ImageComponents[MaxComponents] = {};
};

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer () {}
	explicit FrameBuffer (ui32_t n) : ASDCP::FrameBuffer(n) {}
};

struct SFrameBuffer
{
	FrameBuffer Left, Right;
	explicit SFrameBuffer (ui32_t n) : Left(n), Right(n) {}
};

enum StereoscopicPhase_t { SP_LEFT, SP_RIGHT };

class CodestreamParser
{
public:
	Result_t OpenReadFrame (byte_t const* data, ui32_t size, FrameBuffer& buffer);
	Result_t FillPictureDescriptor (PictureDescriptor& d) const { d = _descriptor; return RESULT_OK; }
private:
	PictureDescriptor _descriptor;
};

class MXFWriter
{
public:
	MXFWriter () {}
	Result_t OpenWrite (std::string const& filename, WriterInfo const&, PictureDescriptor const&, ui32_t header_size = 16384, bool overwrite = false);
	Result_t WriteFrame (FrameBuffer const&, AESEncContext* = nullptr, HMACContext* = nullptr, std::string* hash = nullptr);
	Result_t FakeWriteFrame (int size);
	Result_t Finalize ();
	ui64_t Tell () const { return _writer.tell(); }
	MXF::OP1aHeader& OP1aHeader () { return _writer.header; }
private:
	standin::FileWriter _writer;
};

class MXFReader
{
public:
	STANDIN_READER(PictureDescriptor, FillPictureDescriptor)
	Result_t ReadFrame (ui32_t n, FrameBuffer&, AESDecContext* = nullptr, HMACContext* = nullptr);
private:
	mutable standin::FileReader _reader;
};

class MXFSWriter
{
public:
	MXFSWriter () {}
	Result_t OpenWrite (std::string const& filename, WriterInfo const&, PictureDescriptor const&, ui32_t header_size = 16384, bool overwrite = false);
	Result_t WriteFrame (FrameBuffer const&, StereoscopicPhase_t phase, AESEncContext* = nullptr, HMACContext* = nullptr, std::string* hash = nullptr);
	Result_t FakeWriteFrame (int size, StereoscopicPhase_t phase);
	Result_t Finalize ();
	ui64_t Tell () const { return _writer.tell(); }
	MXF::OP1aHeader& OP1aHeader () { return _writer.header; }
private:
	Result_t phase (StereoscopicPhase_t p);
	standin::FileWriter _writer;
	StereoscopicPhase_t _next = SP_LEFT;
};

class MXFSReader
{
public:
	explicit MXFSReader (Kumu::IFileReaderFactory const&) {}
	MXFSReader (MXFSReader const&) = delete;
	MXFSReader& operator= (MXFSReader const&) = delete;
	Result_t OpenRead (std::string const& filename);
	Result_t Close () { return _reader.close(); }
	Result_t FillPictureDescriptor (PictureDescriptor&) const;
	Result_t FillWriterInfo (WriterInfo& info) const { if (!_reader.is_open()) return RESULT_INIT; info = _reader.info; return RESULT_OK; }
	Result_t ReadFrame (ui32_t n, SFrameBuffer&, AESDecContext* = nullptr, HMACContext* = nullptr);
	Result_t ReadFrame (ui32_t n, StereoscopicPhase_t phase, FrameBuffer&, AESDecContext* = nullptr, HMACContext* = nullptr);
	MXF::OP1aHeader& OP1aHeader () { return _reader.header; }
private:
	mutable standin::FileReader _reader;
};

}

namespace PCM {

enum ChannelFormat_t { CF_NONE, CF_CFG_1, CF_CFG_2, CF_CFG_3, CF_CFG_4, CF_CFG_5, CF_CFG_6, CF_MAXIMUM };

struct AudioDescriptor
{
	Rational EditRate;
	Rational AudioSamplingRate;
	ui32_t Locked = 0;
	ui32_t ChannelCount = 0;
	ui32_t QuantizationBits = 0;
	ui32_t BlockAlign = 0;
	ui32_t AvgBps = 0;
	ui32_t LinkedTrackID = 0;
	ui32_t ContainerDuration = 0;
	ChannelFormat_t ChannelFormat = CF_NONE;
};

ui32_t CalcSamplesPerFrame (AudioDescriptor const& d);
ui32_t CalcFrameBufferSize (AudioDescriptor const& d);

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer () {}
	explicit FrameBuffer (ui32_t n) : ASDCP::FrameBuffer(n) {}
};

class MXFWriter
{
public:
	MXFWriter () {}
	Result_t OpenWrite (std::string const& filename, WriterInfo const&, AudioDescriptor const&, ui32_t header_size = 16384);
	Result_t WriteFrame (FrameBuffer const&, AESEncContext* = nullptr, HMACContext* = nullptr);
	Result_t Finalize ();
	MXF::OP1aHeader& OP1aHeader () { return _writer.header; }
private:
	standin::FileWriter _writer;
};

class MXFReader
{
public:
	STANDIN_READER(AudioDescriptor, FillAudioDescriptor)
	Result_t ReadFrame (ui32_t n, FrameBuffer&, AESDecContext* = nullptr, HMACContext* = nullptr);
private:
	mutable standin::FileReader _reader;
};

}

namespace TimedText {

enum MIMEType_t { MT_BIN, MT_PNG, MT_OPENTYPE };

struct TimedTextResourceDescriptor
{
	byte_t ResourceID[UUIDlen] = {};
	MIMEType_t Type = MT_BIN;
};

typedef std::list<TimedTextResourceDescriptor> ResourceList_t;

struct TimedTextDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration = 0;
	byte_t AssetID[UUIDlen] = {};
	std::string NamespaceName;
	std::string EncodingName;
	ResourceList_t ResourceList;
};

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer () {}
	explicit FrameBuffer (ui32_t n) : ASDCP::FrameBuffer(n) {}
};

class MXFWriter
{
public:
	MXFWriter () {}
	Result_t OpenWrite (std::string const& filename, WriterInfo const&, TimedTextDescriptor const&, ui32_t header_size = 16384);
	Result_t WriteTimedTextResource (std::string const& xml, AESEncContext* = nullptr, HMACContext* = nullptr);
	Result_t WriteAncillaryResource (FrameBuffer const&, AESEncContext* = nullptr, HMACContext* = nullptr);
	Result_t Finalize ();
private:
	standin::FileWriter _writer;
	ui32_t _duration = 0;
	size_t _resources = 0;
};

class MXFReader
{
public:
	STANDIN_READER(TimedTextDescriptor, FillTimedTextDescriptor)
	Result_t ReadTimedTextResource (std::string& xml, AESDecContext* = nullptr, HMACContext* = nullptr);
	Result_t ReadAncillaryResource (byte_t const* id, FrameBuffer&, AESDecContext* = nullptr, HMACContext* = nullptr);
private:
	mutable standin::FileReader _reader;
};

}

namespace MPEG2 {

enum FrameType_t { FRAME_U = 0, FRAME_I = 1, FRAME_P = 2, FRAME_B = 3 };

struct VideoDescriptor
{
	Rational EditRate;
	Rational SampleRate;
	Rational AspectRatio;
	ui32_t StoredWidth = 0;
	ui32_t StoredHeight = 0;
	ui32_t ContainerDuration = 0;
};

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer () {}
	explicit FrameBuffer (ui32_t n) : ASDCP::FrameBuffer(n) {}
	FrameType_t FrameType () const { return FRAME_U; }
	ui8_t TemporalOffset () const { return 0; }
	bool ClosedGOP () const { return false; }
	bool GOPStart () const { return false; }
};

class Parser
{
public:
	Result_t OpenRead (byte_t const* data, ui32_t size);
	Result_t FillVideoDescriptor (VideoDescriptor& d) const { d = _descriptor; return RESULT_OK; }
private:
	VideoDescriptor _descriptor;
};

class MXFWriter
{
public:
	MXFWriter () {}
	Result_t OpenWrite (std::string const& filename, WriterInfo const&, VideoDescriptor const&, ui32_t header_size = 16384, bool overwrite = false);
	Result_t WriteFrame (FrameBuffer const&, AESEncContext* = nullptr, HMACContext* = nullptr, std::string* hash = nullptr);
	Result_t FakeWriteFrame (int size, FrameType_t, bool, bool, ui8_t);
	Result_t Finalize ();
	ui64_t Tell () const { return _writer.tell(); }
private:
	standin::FileWriter _writer;
};

class MXFReader
{
public:
	STANDIN_READER(VideoDescriptor, FillVideoDescriptor)
	Result_t ReadFrame (ui32_t n, FrameBuffer&, AESDecContext* = nullptr, HMACContext* = nullptr);
private:
	mutable standin::FileReader _reader;
};

}

namespace DCData {

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer () {}
	explicit FrameBuffer (ui32_t n) : ASDCP::FrameBuffer(n) {}
};

}

namespace ATMOS {

struct AtmosDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration = 0;
	ui32_t FirstFrame = 0;
	ui16_t MaxChannelCount = 0;
	ui16_t MaxObjectCount = 0;
	byte_t AtmosID[UUIDlen] = {};
	ui8_t AtmosVersion = 0;
};

class MXFWriter
{
public:
	MXFWriter () {}
	Result_t OpenWrite (std::string const& filename, WriterInfo const&, AtmosDescriptor const&, ui32_t header_size = 16384);
	Result_t WriteFrame (DCData::FrameBuffer const&, AESEncContext* = nullptr, HMACContext* = nullptr);
	Result_t Finalize ();
private:
	standin::FileWriter _writer;
};

class MXFReader
{
public:
	STANDIN_READER(AtmosDescriptor, FillAtmosDescriptor)
	Result_t ReadFrame (ui32_t n, DCData::FrameBuffer&, AESDecContext* = nullptr, HMACContext* = nullptr);
private:
	mutable standin::FileReader _reader;
};

}

}

#endif
