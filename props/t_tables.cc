#include "tables.h"
#include <cmath>

using namespace sim;
using std::string;
using std::vector;

namespace tables {

string Request::text() const
{
	return format_string("%s table of object %d for %g..%g at %d bits%s", integer ? format_string("integer (x%d)", scale).c_str() : "floating-point", object, from, to, depth, inverse ? ", inverse" : "");
}

bool Request::same_table(Request const& o) const
{
	return object == o.object && integer == o.integer && from == o.from && to == o.to && depth == o.depth && inverse == o.inverse && (!integer || scale == o.scale);
}

bool Got::operator==(Got const& o) const
{
	return d.size() == o.d.size() && i.size() == o.i.size() && (d.empty() || memcmp(d.data(), o.d.data(), d.size() * sizeof(double)) == 0) && i == o.i;
}

// a function whose tables say what they were made for
static double probe_value(double from, double to, int depth, bool inverse, int i)
{
	return from * 3 + to * 17 + depth * 64 + (inverse ? 1024 : 0) + i * 0.25;
}

class Probe : public dcp::TransferFunction
{
public:
	bool about_equal(std::shared_ptr<const dcp::TransferFunction>, double) const override { return false; }
protected:
	vector<double> make_double_lut(double from, double to, int depth, bool inverse) const override
	{
		vector<double> t(size_t(1) << depth);
		for (size_t i = 0; i < t.size(); ++i) t[i] = probe_value(from, to, depth, inverse, int(i));
		return t;
	}
};

// entry i of the floating-point table, or NaN if that is left open
static double value(int kind, Request const& r, int i)
{
	int const n = 1 << r.depth;
	double const x = n > 1 ? r.from + (r.to - r.from) * (double(i) / (n - 1)) : NAN;
	auto modified = [&](double power, double threshold, double a, double b) {
		if (std::abs(x - threshold) < 1e-6 || std::abs(x - threshold / b) < 1e-6) return double(NAN);
		if (r.inverse) return x > threshold / b ? (1 + a) * pow(x, 1 / power) - a : x * b;
		return x > threshold ? pow((x + a) / (1 + a), power) : x / b;
	};
	switch (kind) {
	case 0: return pow(x, r.inverse ? 1 / 2.2 : 2.2);
	case 1: return x;
	case 2: return modified(2.4, 0.04045, 0.055, 12.92);
	case 3:
		if (std::abs(x - 0.01125 / 1023) < 1e-6 || std::abs(x - 171.2102946929 / 1023) < 1e-6) return NAN;
		if (r.inverse) return x > 0.01125 / 1023 ? (420 + log10((x + 0.01) / 0.19) * 261.5) / 1023 : (x * (171.2102946929 - 95) / 0.01125 + 95) / 1023;
		return x > 171.2102946929 / 1023 ? pow(10, (x * 1023 - 420) / 261.5) * 0.19 - 0.01 : (x * 1023 - 95) * 0.01125 / (171.2102946929 - 95);
	case 4: return pow(x, r.inverse ? 1 / 2.6 : 2.6);
	case 5: return modified(1 / 0.45, 0.081, 0.099, 4.5);
	default: return probe_value(r.from, r.to, r.depth, r.inverse, i);
	}
}

string wrong(int kind, Request const& r, Got const& g)
{
	size_t const size = r.integer ? g.i.size() : g.d.size();
	if (size != size_t(1) << r.depth) return format_string("%zu entries instead of %zu", size, size_t(1) << r.depth);
	for (size_t i = 0; i < size; ++i) {
		double const v = value(kind, r, int(i));
		if (std::isnan(v)) continue;
		if (r.integer) {
			double const s = v * r.scale;
			if (std::abs(s) > 1e9) continue;
			if (std::abs(s - g.i[i]) > 0.5 + 1e-6) return format_string("entry %zu is %d instead of %g", i, g.i[i], s);
		} else if (std::abs(v - g.d[i]) > 1e-9 * std::max(1.0, std::abs(v)) || std::isnan(g.d[i])) {
			return format_string("entry %zu is %g instead of %g", i, g.d[i], v);
		}
	}
	return "";
}

std::shared_ptr<dcp::TransferFunction> make_function(int kind)
{
	switch (kind) {
	case 0: return std::make_shared<dcp::GammaTransferFunction>(2.2);
	case 1: return std::make_shared<dcp::IdentityTransferFunction>();
	case 2: return std::make_shared<dcp::ModifiedGammaTransferFunction>(2.4, 0.04045, 0.055, 12.92);
	case 3: return std::make_shared<dcp::SGamut3TransferFunction>();
	case 4: return std::make_shared<dcp::GammaTransferFunction>(2.6);
	case 6: return std::make_shared<Probe>();
	default: return std::make_shared<dcp::ModifiedGammaTransferFunction>(1 / 0.45, 0.081, 0.099, 4.5);
	}
}

Request draw_request(Choices& c, int objects, vector<Request> const& before)
{
	Request r;
	static vector<double> const froms = {0, 0, 0, 0.25, -0.5};
	static vector<double> const tos = {1, 1, 1, 2, 0.75};
	static vector<int> const depths = {1, 2, 3, 5, 0};
	static vector<int> const scales = {4095, 255, 1, 65535};
	static vector<double> const near = {1e-12, 1e-9, 1e-6, 1e-4, 1e-3, -1e-4};
	if (!before.empty() && c.choose(2)) {
		// like another one, or differing in one thing
		r = before[c.choose(uint32_t(before.size()))];
		switch (c.choose(12)) {
		case 0: case 1: break;
		case 2: r.from = c.pick(froms); break;
		case 3: r.to = c.pick(tos); break;
		case 4: r.depth = c.pick(depths); break;
		case 5: r.inverse = !r.inverse; break;
		// these are alike in the sum of their parts
		case 7: std::swap(r.from, r.to); break;
		case 8: r.inverse = !r.inverse; r.depth ^= 1; break;
		case 9: if (r.scale > 5) { r.scale = r.depth ^ 1; r.depth = 1; } else { std::swap(r.scale, r.depth); } break;
		// and these are nearly alike
		case 10: (c.choose(2) ? r.to : r.from) += c.pick(near); break;
		case 11: r.scale += c.choose(2) ? 1 : 65536; break;
		case 6: if (c.choose(2)) r.scale = c.pick(scales); else r.integer = !r.integer; break;
		}
		return r;
	}
	r.object = int(c.choose(uint32_t(objects)));
	r.integer = c.choose(2);
	r.from = c.pick(froms);
	r.to = c.pick(tos);
	r.depth = c.pick(depths);
	r.inverse = c.choose(2);
	r.scale = c.pick(scales);
	static vector<int> const deep = {8, 10, 12, 9, 8, 10, 12, 9, 16};
	if (c.chance(1, 60)) r.depth = c.pick(deep);
	return r;
}

Got ask(dcp::TransferFunction const& f, Request const& r)
{
	Got g;
	try {
		if (r.integer) {
			auto const& t = f.int_lut(r.from, r.to, r.depth, r.inverse, r.scale);
			g.where = &t;
			g.data = t.data();
			k_quiet q;
			g.i = t;
		} else {
			auto const& t = f.double_lut(r.from, r.to, r.depth, r.inverse);
			g.where = &t;
			g.data = t.data();
			k_quiet q;
			g.d = t;
		}
	} catch (std::bad_alloc&) {
		g.raised = true;
	}
	return g;
}

Got look(Got const& g, bool integer)
{
	Got n;
	if (integer) {
		auto const& t = *static_cast<vector<int> const*>(g.where);
		n.data = t.data();
		k_quiet q;
		n.i = t;
	} else {
		auto const& t = *static_cast<vector<double> const*>(g.where);
		n.data = t.data();
		k_quiet q;
		n.d = t;
	}
	return n;
}

}
