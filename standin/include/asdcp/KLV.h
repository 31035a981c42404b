// Stand-in for asdcplib's KLV.h
#include "AS_DCP.h"
