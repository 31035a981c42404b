#include <asdcp/KM_fileio.h>
#include <cerrno>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

namespace Kumu {

Result_t FileReader::OpenRead (std::string const& filename)
{
	Close();
	_filename = filename;
	_fd = ::open(filename.c_str(), O_RDONLY, 0);
	return _fd == -1 ? RESULT_FILEOPEN.os(errno) : RESULT_OK;
}

Result_t FileReader::Close ()
{
	if (_fd == -1) return RESULT_FILEOPEN;
	::close(_fd);
	_fd = -1;
	return RESULT_OK;
}

fsize_t FileReader::Size () const
{
	struct stat s;
	return ::stat(_filename.c_str(), &s) == 0 ? fsize_t(s.st_size) : 0;
}

Result_t FileReader::Seek (i64_t position)
{
	if (_fd == -1) return RESULT_FILEOPEN;
	return ::lseek(_fd, position, SEEK_SET) == -1 ? RESULT_BADSEEK.os(errno) : RESULT_OK;
}

Result_t FileReader::Read (byte_t* buf, ui32_t n, ui32_t* read_count)
{
	*read_count = 0;
	if (_fd == -1) return RESULT_FILEOPEN;
	auto r = ::read(_fd, buf, n);
	if (r == -1) return RESULT_READFAIL.os(errno);
	*read_count = ui32_t(r);
	return r == 0 ? RESULT_ENDOFFILE : RESULT_OK;
}

}
