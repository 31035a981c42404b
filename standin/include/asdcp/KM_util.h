// Stand-in for asdcplib's KM_util.h: the parts which libdcp uses.
#ifndef STANDIN_KM_UTIL_H
#define STANDIN_KM_UTIL_H

#include <cstdint>
#include <cstring>
#include <string>

typedef uint8_t byte_t;
typedef uint8_t ui8_t;
typedef uint16_t ui16_t;
typedef int16_t i16_t;
typedef uint32_t ui32_t;
typedef int32_t i32_t;
typedef uint64_t ui64_t;
typedef int64_t i64_t;

namespace sim { void random_bytes(void* p, size_t n); }

namespace Kumu {

class Result_t
{
public:
	Result_t () {}
	Result_t (int v, char const* label, int os = 0) : _value(v), _label(label), _os(os) {}
	int Value () const { return _value; }
	operator int () const { return _value; }
	char const* Label () const { return _label; }
	char const* Message () const { return _label; }
	char const* Symbol () const { return _label; }
	int OsError () const { return _os; }
	Result_t os (int e) const { return Result_t(_value, _label, e); }
	bool operator== (Result_t const& o) const { return _value == o._value; }
	bool operator!= (Result_t const& o) const { return _value != o._value; }
private:
	int _value = 0;
	char const* _label = "";
	int _os = 0;
};

static Result_t const RESULT_FALSE(1, "Successful but not true.");
static Result_t const RESULT_OK(0, "Success.");
static Result_t const RESULT_FAIL(-1, "An undefined error was detected.");
static Result_t const RESULT_PTR(-2, "An unexpected NULL pointer was given.");
static Result_t const RESULT_NULL_STR(-3, "An unexpected empty string was given.");
static Result_t const RESULT_ALLOC(-4, "Error allocating memory.");
static Result_t const RESULT_PARAM(-5, "Invalid parameter.");
static Result_t const RESULT_NOTIMPL(-6, "Unimplemented Feature.");
static Result_t const RESULT_SMALLBUF(-7, "The given buffer is too small.");
static Result_t const RESULT_INIT(-8, "The object is not yet initialized.");
static Result_t const RESULT_NOT_FOUND(-9, "The requested file does not exist on the system.");
static Result_t const RESULT_NO_PERM(-10, "Insufficient privilege exists to perform the operation.");
static Result_t const RESULT_STATE(-11, "Object state error.");
static Result_t const RESULT_CONFIG(-12, "Invalid configuration option detected.");
static Result_t const RESULT_FILEOPEN(-13, "File open failure.");
static Result_t const RESULT_BADSEEK(-14, "An invalid file location was requested.");
static Result_t const RESULT_READFAIL(-15, "File read error.");
static Result_t const RESULT_WRITEFAIL(-16, "File write error.");
static Result_t const RESULT_ENDOFFILE(-17, "Attempt to read past end of file.");
static Result_t const RESULT_FILEEXISTS(-18, "Filename already exists.");
static Result_t const RESULT_NOTAFILE(-19, "Filename not found.");

#define KM_SUCCESS(v) (((v).Value() < 0) ? 0 : 1)
#define KM_FAILURE(v) (((v).Value() < 0) ? 1 : 0)

ui32_t const UUID_Length = 16;
ui32_t const Kilobyte = 1024;
ui32_t const Megabyte = Kilobyte * Kilobyte;

// hex digits (with - ignored) to binary; -1 if the buffer is too small
inline int hex2bin (char const* str, byte_t* buf, ui32_t buf_len, ui32_t* conv_size)
{
	*conv_size = 0;
	if (!str) return -1;
	ui32_t n = 0;
	int hi = -1;
	for (; *str; ++str) {
		int v;
		if (*str >= '0' && *str <= '9') v = *str - '0';
		else if (*str >= 'a' && *str <= 'f') v = *str - 'a' + 10;
		else if (*str >= 'A' && *str <= 'F') v = *str - 'A' + 10;
		else continue;
		if (hi < 0) {
			hi = v;
		} else {
			if (n >= buf_len) return -1;
			buf[n++] = byte_t((hi << 4) | v);
			hi = -1;
		}
	}
	*conv_size = n;
	return 0;
}

inline char const* bin2hex (byte_t const* bin, ui32_t bin_len, char* out, ui32_t out_len)
{
	if (out_len < bin_len * 2 + 1) return nullptr;
	char* p = out;
	for (ui32_t i = 0; i < bin_len; ++i) {
		*p++ = "0123456789abcdef"[bin[i] >> 4];
		*p++ = "0123456789abcdef"[bin[i] & 15];
	}
	*p = 0;
	return out;
}

inline char const* bin2UUIDhex (byte_t const* bin, ui32_t bin_len, char* out, ui32_t out_len)
{
	if (out_len < bin_len * 2 + 5 || bin_len != UUID_Length) return nullptr;
	char* p = out;
	for (ui32_t i = 0; i < bin_len; ++i) {
		if (i == 4 || i == 6 || i == 8 || i == 10) *p++ = '-';
		*p++ = "0123456789abcdef"[bin[i] >> 4];
		*p++ = "0123456789abcdef"[bin[i] & 15];
	}
	*p = 0;
	return out;
}

inline char const* base64encode (byte_t const* buf, ui32_t n, char* out, ui32_t out_len)
{
	static char const c[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	if (out_len < (n + 2) / 3 * 4 + 1) return nullptr;
	char* p = out;
	for (ui32_t i = 0; i < n; i += 3) {
		ui32_t v = ui32_t(buf[i]) << 16;
		if (i + 1 < n) v |= ui32_t(buf[i + 1]) << 8;
		if (i + 2 < n) v |= buf[i + 2];
		*p++ = c[v >> 18];
		*p++ = c[(v >> 12) & 63];
		*p++ = i + 1 < n ? c[(v >> 6) & 63] : '=';
		*p++ = i + 2 < n ? c[v & 63] : '=';
	}
	*p = 0;
	return out;
}

class UUID
{
public:
	UUID () { memset(_v, 0, sizeof(_v)); }
	explicit UUID (byte_t const* v) { memcpy(_v, v, sizeof(_v)); }
	byte_t const* Value () const { return _v; }
	void Set (byte_t const* v) { memcpy(_v, v, sizeof(_v)); }
	char const* EncodeHex (char* buf, ui32_t n) const { return bin2UUIDhex(_v, UUID_Length, buf, n); }
	bool DecodeHex (char const* s) { ui32_t c; return hex2bin(s, _v, UUID_Length, &c) == 0 && c == UUID_Length; }
	bool operator== (UUID const& o) const { return memcmp(_v, o._v, sizeof(_v)) == 0; }
private:
	byte_t _v[UUID_Length];
};

inline void GenRandomValue (UUID& id)
{
	byte_t b[UUID_Length];
	sim::random_bytes(b, sizeof(b));
	b[6] = byte_t((b[6] & 0x0f) | 0x40);
	b[8] = byte_t((b[8] & 0x3f) | 0x80);
	id.Set(b);
}

class ByteString
{
public:
	ByteString () {}
	explicit ByteString (ui32_t n) : _s(n, '\0'), _length(0) {}
	byte_t* Data () { return reinterpret_cast<byte_t*>(&_s[0]); }
	byte_t const* RoData () const { return reinterpret_cast<byte_t const*>(_s.data()); }
	ui32_t Capacity () const { return ui32_t(_s.size()); }
	ui32_t Length () const { return _length; }
	ui32_t Length (ui32_t n) { return _length = n; }
private:
	std::string _s;
	ui32_t _length = 0;
};

}

#endif
