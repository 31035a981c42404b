// Stand-in for asdcplib's KM_fileio.h
#ifndef STANDIN_KM_FILEIO_H
#define STANDIN_KM_FILEIO_H

#include "KM_util.h"
#include <string>

namespace Kumu {

typedef ui64_t fsize_t;
typedef i64_t fpos_t;

// as asdcplib's on POSIX: one system call for each call
class FileReader
{
public:
	FileReader () {}
	~FileReader () { Close(); }
	FileReader (FileReader const&) = delete;
	FileReader& operator= (FileReader const&) = delete;
	Result_t OpenRead (std::string const& filename);
	Result_t Close ();
	fsize_t Size () const;
	Result_t Seek (i64_t position = 0);
	Result_t Read (byte_t* buf, ui32_t n, ui32_t* read_count);
private:
	int _fd = -1;
	std::string _filename;
};

class IFileReaderFactory { public: virtual ~IFileReaderFactory () {} };
class FileReaderFactory : public IFileReaderFactory {};

}

#endif
