// What properties share: drawing faults, counting them, showing them.
#include "sim.h"
#include "kernel.h"
#include <algorithm>
#include <cerrno>
#include <cstring>

using std::string;
using std::vector;

namespace sim {

// ---------------------------------------------------------------- helpers

void Ctx::violate(string cls, char const* fmt, ...)
{
	if (violated) {
		return;
	}
	char buf[8192];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	violated = true;
	violation = {cls, buf};
	trace(cls);
	trace(violation.detail);
}

void Ctx::note(char const* fmt, ...)
{
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	if (notes.size() < 20000) {
		notes += buf;
		notes += "\n";
	}
	if (verbose) {
		fprintf(stderr, "%s\n", buf);
	}
}

static vector<int> errnos(OpRec const& r)
{
	switch (r.op) {
	case Op::OPEN:
		if (r.creates) return {EACCES, EIO, ENOSPC, EMFILE, ENFILE, EROFS, EDQUOT, EINTR};
		return {EACCES, EIO, EMFILE, ENFILE, EINTR, ENOMEM};
	case Op::READ: return {EIO, EINTR, EAGAIN, ESTALE};
	case Op::WRITE: return {EIO, ENOSPC, EDQUOT, EINTR, EFBIG, EAGAIN};
	case Op::CLOSE: return {EIO, ENOSPC, EDQUOT};
	case Op::SEEK: return {EIO, EOVERFLOW};
	case Op::STAT: return {EIO, EACCES, ESTALE, ENOMEM};
	case Op::MKDIR: return {EIO, ENOSPC, EACCES, EROFS};
	case Op::RMDIR: return {EIO, EACCES, EBUSY};
	case Op::UNLINK: return {EIO, EACCES, EBUSY, EROFS};
	case Op::RENAME: return {EIO, EACCES, ENOSPC, EXDEV, EBUSY};
	case Op::LINK: return {EXDEV, EOPNOTSUPP, EIO, EMLINK, EPERM, ENOSPC};
	case Op::SYMLINK: return {EIO, ENOSPC, EACCES, EPERM};
	case Op::READLINK: return {EIO, EACCES};
	case Op::OPENDIR: return {EIO, EACCES, EMFILE};
	case Op::READDIR: return {EIO, EACCES};
	case Op::TRUNCATE: return {EIO, EACCES};
	case Op::META: return {EPERM, EIO, EROFS};
	case Op::SYNC: return {EIO, ENOSPC};
	case Op::STATVFS: return {EIO};
	case Op::CHDIR: return {EACCES, EIO};
	case Op::GETCWD: return {EACCES, ENOMEM};
	case Op::COMMAND: return {1, 127, 2};
	default: return {EIO};
	}
}

vector<Fault> draw_faults(Ctx& ctx, vector<OpRec> const& ops, FaultMenu const& menu)
{
	vector<Fault> out;
	auto& c = ctx.c;
	vector<int> eligible;
	for (size_t i = 0; i < ops.size(); ++i) {
		auto op = ops[i].op;
		bool const rd = op == Op::READ;
		bool const wr = op == Op::WRITE || op == Op::CLOSE || op == Op::SYNC || op == Op::TRUNCATE || (op == Op::OPEN && ops[i].creates);
		if (rd && !menu.reads) continue;
		if (wr && !menu.writes) continue;
		if (!rd && !wr && !menu.meta) continue;
		if (menu.filter && !menu.filter(ops[i])) continue;
		eligible.push_back(int(i));
	}
	if (eligible.empty()) return out;
	// spread over kinds of operation first, so that rare kinds are not drowned by reads
	std::map<int, vector<int>> by_op;
	for (auto i: eligible) by_op[int(ops[size_t(i)].op)].push_back(i);
	vector<int> classes;
	for (auto const& i: by_op) classes.push_back(i.first);
	if (menu.storms && c.chance(1, 5)) {
		vector<int> transfers;
		for (auto i: eligible) if (ops[size_t(i)].op == Op::READ || ops[size_t(i)].op == Op::WRITE) transfers.push_back(i);
		if (!transfers.empty()) {
			int const n = c.range(2, 8);
			for (int i = 0; i < n; ++i) {
				Fault f;
				f.at = transfers[c.choose(uint32_t(transfers.size()))];
				f.kind = FaultKind::ERRNO;
				f.err = EINTR;
				out.push_back(f);
			}
			return out;
		}
	}
	int const n = 1 + (menu.max_faults > 1 && c.chance(1, 3) ? c.range(1, menu.max_faults - 1) : 0);
	for (int i = 0; i < n; ++i) {
		Fault f;
		if (c.chance(1, 2)) {
			auto const& v = by_op[classes[c.choose(uint32_t(classes.size()))]];
			f.at = v[c.choose(uint32_t(v.size()))];
		} else {
			f.at = eligible[c.choose(uint32_t(eligible.size()))];
		}
		auto const& r = ops[size_t(f.at)];
		// pick a kind which fits the operation
		vector<FaultKind> kinds = {FaultKind::ERRNO};
		if (r.op == Op::WRITE) {
			kinds.push_back(FaultKind::SHORT);
			kinds.push_back(FaultKind::FULL);
		}
		if (r.op == Op::OPEN && r.creates) kinds.push_back(FaultKind::FULL);
		if (r.op == Op::READ) kinds.push_back(FaultKind::SHORT);
		if (r.op == Op::CLOSE && menu.writes) kinds.push_back(FaultKind::CLOSE_LOST);
		if (menu.shrink && (r.op == Op::READ || r.op == Op::STAT || r.op == Op::OPEN)) kinds.push_back(FaultKind::SHRINK);
		f.kind = kinds[c.choose(uint32_t(kinds.size()))];
		auto e = errnos(r);
		f.err = e[c.choose(uint32_t(e.size()))];
		if (f.kind == FaultKind::SHORT || f.kind == FaultKind::SHRINK) {
			f.arg = c.choose(1u << 20);
		} else if (f.kind == FaultKind::FULL) {
			// somewhere within what is still to be written
			uint64_t rest = 0;
			for (size_t j = size_t(f.at); j < ops.size(); ++j) {
				if (ops[j].op == Op::WRITE) rest += ops[j].size;
			}
			f.arg = c.choose(uint32_t(std::min<uint64_t>(rest + 1, 1u << 30)));
		}
		f.sticky = menu.sticky && f.kind == FaultKind::ERRNO && c.chance(1, 4);
		// an interruption is always temporary
		if (f.err == EINTR || f.err == EAGAIN) f.sticky = false;
		out.push_back(f);
	}
	return out;
}

void count_faults(Ctx& ctx, Window const& w)
{
	for (auto const& f: w.fired) {
		auto const& r = w.ops[size_t(f.first)];
		string name = string("fault.") + op_name(r.op) + ".";
		name += f.second.kind == FaultKind::ERRNO ? (f.second.err == EINTR ? "eintr" : f.second.err == ENOSPC || f.second.err == EDQUOT ? "enospc" : "error") : fault_name(f.second.kind);
		ctx.count(name);
		ctx.sig(name);
	}
	if (!w.fired.empty()) ctx.stats.nontrivial = true;
	if (!w.crashes.empty()) {
		ctx.count("fault.crash", w.crashes.size());
		ctx.stats.nontrivial = true;
	}
	if (w.alloc_failures) {
		ctx.count("fault.alloc", uint64_t(w.alloc_failures));
		ctx.stats.nontrivial = true;
	}
	ctx.count("sim.ops", w.ops.size());
}

string describe_fired(Window const& w)
{
	string s;
	for (auto const& f: w.fired) {
		auto const& r = w.ops[size_t(f.first)];
		s += format_string("[op %d %s %s: %s errno=%d(%s) arg=%llu%s] ", f.first, op_name(r.op), r.path.c_str(), fault_name(f.second.kind),
			f.second.err, strerrorname_np(f.second.err) ? strerrorname_np(f.second.err) : "?", (unsigned long long)(f.second.arg), f.second.sticky ? " sticky" : "");
	}
	if (w.alloc_failures) s += format_string("[allocation %d failed] ", w.alloc_fail_at);
	return s.empty() ? "no fault" : s;
}

string show(string const& b)
{
	string s = format_string("%zu bytes ", b.size());
	for (size_t i = 0; i < b.size() && i < 24; ++i) {
		unsigned char ch = (unsigned char)(b[i]);
		if (ch >= 32 && ch < 127) s += char(ch);
		else s += format_string("\\x%02x", ch);
	}
	if (b.size() > 24) s += "...";
	return s;
}

string diff_trees(Tree const& a, Tree const& b)
{
	string s;
	for (auto const& i: a) {
		auto j = b.find(i.first);
		if (j == b.end()) s += "removed " + i.first + "; ";
		else if (j->second != i.second) s += "changed " + i.first + " (" + show(i.second) + " -> " + show(j->second) + "); ";
	}
	for (auto const& i: b) {
		if (a.find(i.first) == a.end()) s += "added " + i.first + "; ";
	}
	return s;
}

}
