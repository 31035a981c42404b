// Stand-in for asdcplib's KM_prng.h: bytes come from the simulator
#ifndef STANDIN_KM_PRNG_H
#define STANDIN_KM_PRNG_H

#include "KM_util.h"

namespace Kumu {

class FortunaRNG
{
public:
	byte_t const* FillRandom (byte_t* buf, ui32_t n) { sim::random_bytes(buf, n); return buf; }
};

}

#endif
