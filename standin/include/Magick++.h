// What dcpdumpimage needs of ImageMagick: an image is written as its size, its pixels and the lines drawn on it
#ifndef STANDIN_MAGICK_H
#define STANDIN_MAGICK_H

#include <cstdio>
#include <stdexcept>
#include <string>
#include <vector>

namespace Magick {

enum StorageType { CharPixel };

struct Exception : public std::runtime_error {
	explicit Exception(std::string const& s) : std::runtime_error(s) {}
};

inline void InitializeMagick(char const*) {}

struct DrawableLine {
	DrawableLine(double a, double b, double c, double d) : x1(a), y1(b), x2(c), y2(d) {}
	double x1, y1, x2, y2;
};

class Image
{
public:
	Image(size_t width, size_t height, std::string const& map, StorageType, void const* pixels)
		: _text(std::to_string(width) + " " + std::to_string(height) + " " + map + "\n")
	{
		_text.append(static_cast<char const*>(pixels), width * height * 4);
	}

	void strokeColor(std::string const&) {}
	void strokeWidth(double) {}

	void draw(DrawableLine const& l)
	{
		_text += "\nline " + std::to_string(int(l.x1)) + " " + std::to_string(int(l.y1)) + " " + std::to_string(int(l.x2)) + " " + std::to_string(int(l.y2));
	}

	void write(std::string const& path)
	{
		auto f = fopen(path.c_str(), "wb");
		if (!f) throw Exception("unable to open image " + path);
		bool const whole = fwrite(_text.data(), 1, _text.size(), f) == _text.size();
		if (fclose(f) || !whole) throw Exception("unable to write image " + path);
	}

private:
	std::string _text;
};

}

#endif
