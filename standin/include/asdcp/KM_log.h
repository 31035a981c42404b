// Stand-in for asdcplib's KM_log.h
#ifndef STANDIN_KM_LOG_H
#define STANDIN_KM_LOG_H

#include "KM_util.h"

namespace Kumu {

i32_t const LOG_ALLOW_ALL = 0x0fffffff;

class ILogSink
{
public:
	void SetFilterFlag (i32_t) {}
	void UnsetFilterFlag (i32_t) {}
};

inline ILogSink& DefaultLogSink ()
{
	static ILogSink sink;
	return sink;
}

}

#endif
