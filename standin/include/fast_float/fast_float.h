// The installed fast_float has no conversions to integers; these are as later versions do them.
#ifndef STANDIN_FAST_FLOAT_H
#define STANDIN_FAST_FLOAT_H

#include_next <fast_float/fast_float.h>
#include <limits>
#include <type_traits>

namespace fast_float {

template <typename T>
from_chars_result
integer_from_chars (char const* first, char const* last, T& value)
{
	auto p = first;
	bool const negative = std::is_signed<T>::value && p != last && *p == '-';
	if (negative) ++p;
	auto const digits = p;
	unsigned __int128 v = 0;
	bool over = false;
	auto const limit = static_cast<unsigned __int128>(std::numeric_limits<T>::max()) + (negative ? 1 : 0);
	for (; p != last && *p >= '0' && *p <= '9'; ++p) {
		v = v * 10 + unsigned(*p - '0');
		if (v > limit) {
			over = true;
			v = limit;
		}
	}
	if (p == digits) return from_chars_result{first, std::errc::invalid_argument};
	if (over) return from_chars_result{p, std::errc::result_out_of_range};
	value = negative ? T(-static_cast<__int128>(v)) : T(v);
	return from_chars_result{p, std::errc()};
}

#define STANDIN_INTEGER(T) inline from_chars_result from_chars (char const* first, char const* last, T& value) { return integer_from_chars(first, last, value); }
STANDIN_INTEGER(unsigned char)
STANDIN_INTEGER(unsigned short)
STANDIN_INTEGER(int)
STANDIN_INTEGER(unsigned int)
STANDIN_INTEGER(long)
STANDIN_INTEGER(unsigned long)
STANDIN_INTEGER(long long)
STANDIN_INTEGER(unsigned long long)
#undef STANDIN_INTEGER

}

#endif
