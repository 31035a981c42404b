// S04: an open file has exactly one owner and is closed exactly once
#include "../sim/sim.h"
#include "exceptions.h"
#include "file.h"
#include <cerrno>
#include <cstring>
#include <memory>

using namespace sim;
using std::shared_ptr;
using std::string;
using std::unique_ptr;
using std::vector;

namespace {

// what one open stream should do
struct Stream {
	string path;
	bool reads, writes, append;
	size_t pos = 0;
	enum { NEITHER, READING, WRITING } last = NEITHER;
};

struct Slot {
	unique_ptr<dcp::File> file;
	// model
	shared_ptr<Stream> stream;
	string path;
	bool failed = false;
	int error = 0;
	bool moved_from = false;
};

struct World {
	vector<Slot> slots{4};
	std::map<string, string> content;
	vector<std::pair<FILE*, shared_ptr<Stream>>> taken;
};

}

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	World w;
	vector<string> const names = {"/sim/a", "/sim/b", "/sim/c", "/sim/d"};
	for (size_t i = 0; i < names.size(); ++i) {
		if (c.choose(4) < 3) {
			string text;
			int const lines = c.range(1, 4);
			for (int j = 0; j < lines; ++j) text += format_string("%c%d-%s\n", char('A' + i), j, string(size_t(c.choose(60)), char('a' + i)).c_str());
			w.content[names[i]] = text;
			put_file(names[i], text);
		}
	}
	put_dir("/sim/dir");

	Window window;
	WindowScope scope(window);

	auto in_use = [&](string const& path, bool for_writing) {
		for (auto const& s: w.slots) {
			if (s.stream && s.stream->path == path && (for_writing || s.stream->writes)) return true;
		}
		for (auto const& t: w.taken) {
			if (t.second->path == path && (for_writing || t.second->writes)) return true;
		}
		return false;
	};

	auto slot_text = [&](size_t i) {
		auto const& s = w.slots[i];
		if (!s.file) return format_string("slot %zu: none", i);
		return format_string("slot %zu: %s%s", i, s.path.c_str(), s.stream ? " open" : " closed");
	};

	auto check = [&](char const* after) {
		if (ctx.violated) return;
		// wrappers agree with the model
		for (size_t i = 0; i < w.slots.size(); ++i) {
			auto& s = w.slots[i];
			if (!s.file) continue;
			if (bool(*s.file) != bool(s.stream)) {
				ctx.violate("wrapper open state is wrong", "after %s, %s but wrapper says %s", after, slot_text(i).c_str(), bool(*s.file) ? "open" : "not open");
				return;
			}
			if ((s.file->get() != nullptr) != bool(s.stream)) {
				ctx.violate("wrapper handle is wrong", "after %s, %s", after, slot_text(i).c_str());
				return;
			}
			if (!s.moved_from && s.file->path() != boost::filesystem::path(s.path)) {
				ctx.violate("wrapper path is wrong", "after %s, wrapper %zu says path %s, expected %s", after, i, s.file->path().string().c_str(), s.path.c_str());
				return;
			}
			if (s.failed && s.file->open_error() != s.error) {
				ctx.violate("failed open is not recorded", "after %s, %s: error %d rather than %d", after, slot_text(i).c_str(), s.file->open_error(), s.error);
				return;
			}
			if (s.stream && s.file->open_error() != 0) {
				ctx.violate("open error on an open file", "after %s, %s", after, slot_text(i).c_str());
				return;
			}
		}
		// the kernel agrees
		std::multiset<string> want, got;
		for (auto const& s: w.slots) if (s.stream) want.insert(s.stream->path);
		for (auto const& t: w.taken) want.insert(t.second->path);
		for (auto const& h: open_handles()) got.insert(h.path);
		if (want != got) {
			string a, b;
			for (auto const& i: want) a += i + " ";
			for (auto const& i: got) b += i + " ";
			ctx.violate(got.size() > want.size() ? "handle leaked" : "handle closed too early", "after %s: open handles should be { %s} but are { %s}", after, a.c_str(), b.c_str());
		}
	};

	auto closed = [&](shared_ptr<Stream>& s) { s.reset(); };

	int const steps = c.range(3, 30);
	string last;
	for (int step = 0; step < steps && !ctx.violated; ++step) {
		int const op = int(c.choose(15));
		size_t i = c.choose(uint32_t(w.slots.size()));
		if (op >= 2) {
			// the next one which holds something
			for (size_t k = 0; k < w.slots.size() && !w.slots[i].file; ++k) i = (i + 1) % w.slots.size();
		}
		auto& s = w.slots[i];
		ctx.sig(uint64_t(op * 8) + i);
		string text;
		switch (op) {
		case 0:
		case 1:
		{
			// open in place of what was there
			static vector<string> const modes = {"rb", "wb", "r", "w", "a", "r+", "w+", "a+"};
			string const mode = c.pick(modes);
			int const what = int(c.choose(6));
			string const path = what < 4 ? names[size_t(what)] : what == 4 ? "/sim/missing/x" : "/sim/dir";
			bool const wr = mode[0] != 'r' || mode.find('+') != string::npos;
			closed(s.stream);
			s.file.reset();
			if (in_use(path, wr)) break;
			bool fault = c.chance(1, 6);
			if (fault) {
				Fault f;
				f.at = int(window.ops.size());
				f.kind = FaultKind::ERRNO;
				f.err = c.choose(2) ? 24 : 13;
				window.faults.push_back(f);
				ctx.count("fault.open.error");
			}
			s.file.reset(new dcp::File(path, mode));
			s.path = path;
			bool const exists_now = w.content.count(path);
			bool const ok = !fault && what != 4 && (what != 5 || !wr) && (exists_now || mode[0] != 'r' || what == 5);
			s.failed = !ok;
			s.error = ok ? 0 : fault ? window.faults.back().err : what == 5 ? EISDIR : ENOENT;
			s.moved_from = false;
			if (ok) {
				s.stream = std::make_shared<Stream>();
				s.stream->path = path;
				s.stream->reads = (mode[0] == 'r' || mode.find('+') != string::npos) && what != 5;
				s.stream->writes = wr;
				s.stream->append = mode[0] == 'a';
				if (what != 5) {
					if (mode[0] == 'w') w.content[path] = "";
					if (!exists_now) w.content[path] = "";
				}
			}
			text = format_string("open %s %s in slot %zu%s", path.c_str(), mode.c_str(), i, ok ? "" : " (fails)");
			break;
		}
		case 2:
		case 3:
		{
			// move-construct into another slot
			size_t const j = c.choose(uint32_t(w.slots.size()));
			auto& t = w.slots[j];
			if (!s.file || i == j) break;
			closed(t.stream);
			t.file.reset();
			t.file.reset(new dcp::File(std::move(*s.file)));
			t.stream = s.stream;
			t.path = s.path;
			t.failed = s.failed;
			t.error = s.error;
			t.moved_from = s.moved_from;
			s.moved_from = true;
			s.stream.reset();
			s.failed = false;
			text = format_string("move-construct slot %zu from slot %zu", j, i);
			break;
		}
		case 4:
		case 5:
		{
			size_t const j = c.choose(uint32_t(w.slots.size()));
			auto& t = w.slots[j];
			if (!s.file || !t.file) break;
			*t.file = std::move(*s.file);
			if (i != j) {
				closed(t.stream);
				t.stream = s.stream;
				t.path = s.path;
				t.failed = s.failed;
				t.error = s.error;
				t.moved_from = s.moved_from;
				s.moved_from = true;
				s.stream.reset();
				s.failed = false;
			}
			text = format_string("move-assign slot %zu from slot %zu", j, i);
			break;
		}
		case 6:
		case 7:
		{
			if (!s.file) break;
			// it is closed even if closing fails
			bool const fails = s.stream && s.stream->last != Stream::WRITING && c.chance(1, 5);
			if (fails) {
				Fault f;
				f.at = int(window.ops.size());
				f.kind = FaultKind::ERRNO;
				f.err = EIO;
				window.faults.push_back(f);
				ctx.count("fault.close.error");
			}
			if (op == 6) {
				if (s.file->close() && !fails) ctx.violate("close failed", "slot %zu", i);
				if (s.file->close()) ctx.violate("closed twice", "slot %zu", i);
			} else {
				s.file.reset();
			}
			closed(s.stream);
			text = format_string("%s slot %zu%s", op == 6 ? "close" : "destroy", i, fails ? " (fails)" : "");
			break;
		}
		case 8:
		{
			if (!s.file) break;
			FILE* f = s.file->take();
			if ((f != nullptr) != bool(s.stream)) {
				ctx.violate("take gave the wrong thing", "%s", slot_text(i).c_str());
			}
			if (f) w.taken.push_back({f, s.stream});
			s.stream.reset();
			text = format_string("take slot %zu", i);
			break;
		}
		case 9:
		{
			// write through the wrapper
			if (!s.file || !s.stream || !s.stream->writes) break;
			auto& st = *s.stream;
			string const data = format_string("<%d:%s>", step, string(size_t(c.choose(40)), char('0' + step % 10)).c_str());
			if (st.last == Stream::READING) {
				s.file->seek(0, SEEK_END);
				st.pos = w.content[st.path].size();
			}
			int const how = int(c.choose(3));
			if (how == 0) s.file->puts(data.c_str());
			else if (how == 1) s.file->checked_write(data.data(), data.size());
			else if (s.file->write(data.data(), 1, data.size()) != data.size()) ctx.violate("write count is wrong", "slot %zu", i);
			auto& f = w.content[st.path];
			if (st.append) st.pos = f.size();
			if (f.size() < st.pos + data.size()) f.resize(st.pos + data.size());
			memcpy(&f[st.pos], data.data(), data.size());
			st.pos += data.size();
			st.last = Stream::WRITING;
			text = format_string("write %zu bytes to slot %zu", data.size(), i);
			break;
		}
		case 10:
		{
			if (!s.file || !s.stream || !s.stream->reads) break;
			auto& st = *s.stream;
			auto const& f = w.content[st.path];
			if (st.last == Stream::WRITING) {
				s.file->seek(0, SEEK_SET);
				st.pos = 0;
			} else if (st.append && st.last == Stream::NEITHER) {
				s.file->seek(0, SEEK_SET);
				st.pos = 0;
			}
			st.last = Stream::READING;
			string const rest = st.pos < f.size() ? f.substr(st.pos) : "";
			if (c.choose(2)) {
				size_t const n = 1 + c.choose(50);
				string got(n, '\xa5');
				auto const r = s.file->read(&got[0], 1, n);
				got.resize(r);
				if (got != rest.substr(0, n)) ctx.violate("read from the wrong place", "slot %zu (%s): got %s expected %s", i, st.path.c_str(), show(got).c_str(), show(rest.substr(0, n)).c_str());
				if (r < n && !s.file->eof()) ctx.violate("end of file not seen", "slot %zu", i);
				st.pos += r;
			} else {
				char buf[64];
				char* r = s.file->gets(buf, sizeof(buf));
				string want = rest.substr(0, std::min<size_t>(rest.find('\n') == string::npos ? rest.size() : rest.find('\n') + 1, sizeof(buf) - 1));
				string got = r ? buf : "";
				if (got != want) ctx.violate("line read from the wrong place", "slot %zu (%s): got %s expected %s", i, st.path.c_str(), show(got).c_str(), show(want).c_str());
				st.pos += want.size();
			}
			text = format_string("read slot %zu", i);
			break;
		}
		case 11:
		{
			if (!s.file || !s.stream || s.stream->path == "/sim/dir") break;
			auto& st = *s.stream;
			size_t const size = w.content[st.path].size();
			size_t const to = c.choose(uint32_t(size + 1));
			int const whence = int(c.choose(2));
			int const r = whence ? s.file->seek(int64_t(to) - int64_t(size), SEEK_END) : s.file->seek(int64_t(to), SEEK_SET);
			if (r) ctx.violate("seek failed", "slot %zu to %zu", i, to);
			st.pos = to;
			st.last = Stream::NEITHER;
			if (st.append && st.reads) st.last = Stream::READING;
			text = format_string("seek slot %zu to %zu", i, to);
			break;
		}
		case 12:
		{
			if (!s.file || !s.stream || s.stream->path == "/sim/dir") break;
			auto& st = *s.stream;
			if (st.append && st.last == Stream::NEITHER) break;
			if (s.file->tell() != int64_t(st.pos)) ctx.violate("position is wrong", "slot %zu (%s): %lld, expected %zu", i, st.path.c_str(), (long long)(s.file->tell()), st.pos);
			text = format_string("tell slot %zu", i);
			break;
		}
		case 13:
		{
			// far beyond what 32 bits hold, and back
			if (!s.file || !s.stream || s.stream->path == "/sim/dir") break;
			auto& st = *s.stream;
			int64_t const far = (int64_t(1) << (30 + c.choose(6))) + c.choose(1000);
			int64_t const step_back = int64_t(c.choose(2000));
			size_t const to = c.choose(uint32_t(w.content[st.path].size() + 1));
			if (s.file->seek(far, SEEK_SET) || s.file->tell() != far || s.file->seek(-step_back, SEEK_CUR) || s.file->tell() != far - step_back || s.file->seek(int64_t(to), SEEK_SET)) {
				ctx.violate("position is wrong", "slot %zu (%s) at %lld and %lld before it", i, st.path.c_str(), (long long) far, (long long) step_back);
			}
			st.pos = to;
			st.last = Stream::NEITHER;
			if (st.append && st.reads) st.last = Stream::READING;
			text = format_string("far seek in slot %zu", i);
			break;
		}
		case 14:
		{
			// nothing to act on
			if (!s.file || s.stream) break;
			char buffer[4] = "xyz";
			int const how = int(c.choose(10));
			try {
				switch (how) {
				case 0: s.file->write(buffer, 1, 1); break;
				case 1: s.file->read(buffer, 1, 1); break;
				case 2: s.file->eof(); break;
				case 3: s.file->gets(buffer, 3); break;
				case 4: s.file->puts(buffer); break;
				case 5: s.file->checked_write(buffer, 1); break;
				case 6: s.file->checked_read(buffer, 1); break;
				case 7: s.file->seek(0, SEEK_SET); break;
				case 8: s.file->tell(); break;
				case 9: s.file->error(); break;
				}
				ctx.violate("used without a file", "slot %zu, call %d returned", i, how);
			} catch (std::exception&) {}
			text = format_string("call %d on empty slot %zu", how, i);
			break;
		}
		}
		if (!text.empty()) {
			ctx.note("%d: %s", step, text.c_str());
			ctx.count("steps");
			ctx.stats.sample += text + "; ";
			if (op >= 2 && op <= 8) ctx.stats.nontrivial = true;
		}
		check(text.c_str());
	}
	if (!ctx.violated) {
		for (auto& s: w.slots) {
			closed(s.stream);
			s.file.reset();
		}
		check("destroying every wrapper");
		for (auto& t: w.taken) {
			fclose(t.first);
		}
		w.taken.clear();
		check("closing the streams taken out");
		for (auto const& f: w.content) {
			string got;
			if (!ctx.violated && (!get_file(f.first, got) || got != f.second)) {
				ctx.violate("bytes went to the wrong file", "%s has %s, expected %s", f.first.c_str(), show(got).c_str(), show(f.second).c_str());
			}
		}
	}
	ctx.count("sim.ops", window.ops.size());
}

SIM_PROPERTY(S04, nullptr, run, 64, "A run is a history of 3-30 steps (open in eight modes, succeeding or failing by absence, kind or injected error; move-construct; move-assign; self-assign; close and destroy, some with an error from the system; take; write; read; gets; seek, also beyond 32 bits; tell; calls on an empty wrapper) over four wrappers and four files, compared after each step with a model of who owns which handle and with the kernel's table of open handles. Non-trivial: ownership changed at least once. Distinct: by the sequence of steps and wrappers.")
