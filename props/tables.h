// Requests for tables of transfer functions, used by T01 and T02.
#pragma once
#include "../sim/sched.h"
#include "gamma_transfer_function.h"
#include "identity_transfer_function.h"
#include "modified_gamma_transfer_function.h"
#include "s_gamut3_transfer_function.h"
#include <cstring>

namespace tables {

// copies made by the check itself never fail
typedef sim::OwnWork k_quiet;

struct Request {
	int object = 0;
	bool integer = false;
	double from = 0, to = 1;
	int depth = 0;
	bool inverse = false;
	int scale = 1;
	std::string text() const;
	bool same_table(Request const& o) const;
};

// what a table was when it was handed out
struct Got {
	bool raised = false;
	void const* where = nullptr;
	void const* data = nullptr;
	std::vector<double> d;
	std::vector<int> i;
	bool operator==(Got const& o) const;     // the values
};

std::shared_ptr<dcp::TransferFunction> make_function(int kind);
int const KINDS = 7;
Request draw_request(sim::Choices& c, int objects, std::vector<Request> const& before);
Got ask(dcp::TransferFunction const& f, Request const& r);
// what is wrong with a table, whoever built it; empty if nothing is
std::string wrong(int kind, Request const& r, Got const& g);
// look again at what was handed out
Got look(Got const& g, bool integer);

}
