// Stand-in for asdcplib's Metadata.h
#include "AS_DCP.h"
