// Seeded search, replay and minimisation.
//
// Process tree: the first process sets the property up and then stays as it is
// (the zygote); a controller is forked from it, and every run or batch of runs
// happens in another fork of the zygote.  So every execution starts from the
// same memory image, whatever the controller has been doing.
#include "kernel.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>

using std::map;
using std::string;
using std::vector;

namespace sim {

static vector<Property>& properties()
{
	static vector<Property> p;
	return p;
}

void register_property(Property const& p) { properties().push_back(p); }

namespace {

uint32_t const MAX_STREAM = 1u << 20;
uint32_t const MAX_RUNS = 4096;

struct RunRec {
	uint64_t hash;
	uint64_t signature;
	bool nontrivial;
};

struct Shared {
	// command
	bool quit;
	int exit_code;
	bool from_streams;
	bool verbose;
	uint64_t base_seed;
	uint64_t first;
	uint32_t count;
	uint32_t nstreams;
	uint32_t stream_len[MAX_RUNS];
	uint32_t stream_data[MAX_STREAM];
	char known[4096];
	// result
	int status;
	uint32_t done;             // completed runs
	uint32_t log_len;          // choices of the run in progress
	uint32_t log[MAX_STREAM];
	RunRec recs[MAX_RUNS];
	bool violated;
	bool harness_error;
	char cls[512];
	char detail[8192];
	char notes[32768];
	char counts[65536];
	char samples[65536];
	uint64_t simulated_ns;
};

Shared* g_shared;
Property const* g_property;
int g_cmd_pipe[2], g_result_pipe[2];

double now()
{
	struct timespec ts;
	::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}

void copy_to(char* out, size_t n, string const& s)
{
	size_t c = std::min(n - 1, s.size());
	memcpy(out, s.data(), c);
	out[c] = 0;
}

bool is_known(string const& cls)
{
	string k = string("\n") + g_shared->known + "\n";
	return k.find("\n" + cls + "\n") != string::npos;
}

string type_name(std::type_info const& t)
{
	int st = 0;
	char* d = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st);
	string s = d ? d : t.name();
	free(d);
	return s;
}

// an endless loop of file operations ends the child here, always at the same one
uint32_t g_current = 0;
void runaway()
{
	auto s = g_shared;
	s->violated = true;
	copy_to(s->cls, sizeof(s->cls), "loop without end");
	copy_to(s->detail, sizeof(s->detail), format_string("more than %zu file operations in one call", MAX_OPS));
	s->recs[g_current].hash = trace_hash();
	s->done = g_current + 1;
	_exit(0);
}

// the body of a forked child
void run_child(pid_t parent)
{
	::syscall(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL);
	// it may have gone before that took effect
	if (parent && ::syscall(SYS_getppid) != parent) _exit(2);
	struct rlimit rl = {12ull << 30, 12ull << 30};
	setrlimit(RLIMIT_AS, &rl);
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
	auto s = g_shared;
	verbose = s->verbose;
	map<string, uint64_t> counts;
	vector<string> samples;
	uint32_t const n = s->from_streams ? s->nstreams : s->count;
	size_t offset = 0;
	bool stop = false;
	for (uint32_t i = 0; i < n && !stop; ++i) {
		Ctx ctx;
		if (s->from_streams) {
			vector<uint32_t> v(s->stream_data + offset, s->stream_data + offset + s->stream_len[i]);
			offset += s->stream_len[i];
			ctx.c.replay(v);
		} else {
			ctx.c.seed(mix(mix(s->base_seed, hash_str(g_property->id)), s->first + i));
		}
		s->log_len = 0;
		g_current = i;
		on_runaway = runaway;
		alarm(60);
		struct itimerval cpu = {{0, 0}, {20, 0}};
		setitimer(ITIMER_PROF, &cpu, nullptr);
		format();
		trace_reset();
		seed_random(7);
		try {
			g_property->run(ctx);
		} catch (std::exception& e) {
			end_window();
			ctx.violate("unexpected exception " + type_name(typeid(e)), "%s: %s", type_name(typeid(e)).c_str(), e.what());
		} catch (...) {
			end_window();
			ctx.violate("unexpected exception", "unknown type");
		}
		alarm(0);
		if (overruns) ctx.violate("wrote beyond its memory", "%llu of the blocks of memory which were freed had been written beyond their ends", overruns);
		if (!escapes().empty()) {
			ctx.count("refused.real_disk", escapes().size());
			trace(escapes().front());
		}
		trace(ctx.stats.signature);
		for (auto const& j: ctx.stats.counts) counts[j.first] += j.second;
		s->recs[i].hash = trace_hash();
		s->recs[i].signature = ctx.stats.signature;
		s->recs[i].nontrivial = ctx.stats.nontrivial;
		if (samples.size() < 3 && ctx.stats.nontrivial && !ctx.stats.sample.empty()) {
			samples.push_back(ctx.stats.sample);
		}
		if (ctx.violated) {
			if (is_known(ctx.violation.cls) && !s->from_streams) {
				counts["known." + ctx.violation.cls]++;
			} else {
				s->violated = true;
				copy_to(s->cls, sizeof(s->cls), ctx.violation.cls);
				copy_to(s->detail, sizeof(s->detail), ctx.violation.detail);
				copy_to(s->notes, sizeof(s->notes), ctx.notes);
				stop = true;
			}
		}
		s->done = i + 1;
	}
	string c;
	for (auto const& j: counts) c += format_string("%s=%llu\n", j.first.c_str(), (unsigned long long)(j.second));
	copy_to(s->counts, sizeof(s->counts), c);
	string sm;
	for (auto j: samples) {
		std::replace(j.begin(), j.end(), '\n', ' ');
		sm += j + "\n";
	}
	copy_to(s->samples, sizeof(s->samples), sm);
	s->simulated_ns = simulated_ns();
	_exit(0);
}

// ---- controller side

struct Outcome {
	bool violated = false;
	string cls, detail, notes;
	uint64_t hash = 0;
	uint32_t done = 0;
};

// run what is described in the shared command area
Outcome execute()
{
	auto s = g_shared;
	s->done = 0;
	s->violated = false;
	s->cls[0] = s->detail[0] = s->notes[0] = s->counts[0] = s->samples[0] = 0;
	s->simulated_ns = 0;
	char b = 'x';
	if (::write(g_cmd_pipe[1], &b, 1) != 1) _exit(2);
	if (::read(g_result_pipe[0], &b, 1) != 1) _exit(2);
	Outcome o;
	o.done = s->done;
	if (s->violated) {
		o.violated = true;
		o.cls = s->cls;
		o.detail = s->detail;
		o.notes = s->notes;
		o.hash = s->recs[s->done - 1].hash;
	} else if (!WIFEXITED(s->status) || WEXITSTATUS(s->status) != 0) {
		o.violated = true;
		if (WIFSIGNALED(s->status) && (WTERMSIG(s->status) == SIGALRM || WTERMSIG(s->status) == SIGPROF)) {
			o.cls = "process hung";
		} else if (WIFSIGNALED(s->status)) {
			o.cls = format_string("process died by signal %d", WTERMSIG(s->status));
		} else {
			o.cls = format_string("process exited with status %d", WEXITSTATUS(s->status));
		}
		o.detail = o.cls;
		o.hash = hash_str(o.cls);
	}
	return o;
}

void load_streams(vector<vector<uint32_t>> const& streams)
{
	auto s = g_shared;
	s->from_streams = true;
	s->nstreams = 0;
	size_t off = 0;
	for (auto const& v: streams) {
		if (off + v.size() > MAX_STREAM || s->nstreams >= MAX_RUNS) break;
		memcpy(s->stream_data + off, v.data(), v.size() * sizeof(uint32_t));
		off += v.size();
		s->stream_len[s->nstreams++] = uint32_t(v.size());
	}
}

Outcome execute_streams(vector<vector<uint32_t>> const& streams)
{
	load_streams(streams);
	return execute();
}

vector<uint32_t> last_log()
{
	auto n = std::min(g_shared->log_len, MAX_STREAM);
	return vector<uint32_t>(g_shared->log, g_shared->log + n);
}

// the violation must be the same, and come from the last stream
bool same(Outcome const& o, Outcome const& want, size_t nstreams)
{
	if (!o.violated || o.cls != want.cls) return false;
	return o.done + 1 >= nstreams;
}

void minimise(vector<vector<uint32_t>>& streams, Outcome& best, double deadline, int& tried)
{
	auto attempt = [&](vector<vector<uint32_t>> const& cand) {
		if (now() > deadline) return false;
		++tried;
		auto o = execute_streams(cand);
		if (!same(o, best, cand.size())) return false;
		streams = cand;
		best = o;
		return true;
	};
	// earlier runs which are not needed
	for (size_t i = 0; streams.size() > 1 && i + 1 < streams.size();) {
		auto c = streams;
		c.erase(c.begin() + long(i));
		if (!attempt(c)) ++i;
	}
	bool progress = true;
	while (progress && now() < deadline) {
		progress = false;
		for (size_t k = 0; k < streams.size(); ++k) {
			// cut the tail
			for (size_t keep = 0; keep < streams[k].size() && now() < deadline;) {
				auto c = streams;
				c[k].resize(keep);
				if (attempt(c)) { progress = true; break; }
				keep = keep == 0 ? 1 : keep * 2;
			}
			// delete blocks
			for (size_t block = std::min<size_t>(64, streams[k].size()); block >= 1; block /= 2) {
				for (size_t i = 0; i + block <= streams[k].size() && now() < deadline;) {
					auto c = streams;
					c[k].erase(c[k].begin() + long(i), c[k].begin() + long(i + block));
					if (attempt(c)) progress = true;
					else i += block;
				}
			}
			// zero blocks, then lower values
			for (size_t block = 16; block >= 1; block /= 2) {
				for (size_t i = 0; i < streams[k].size() && now() < deadline; i += block) {
					auto c = streams;
					bool any = false;
					for (size_t j = i; j < i + block && j < c[k].size(); ++j) {
						any = any || c[k][j];
						c[k][j] = 0;
					}
					if (any && attempt(c)) progress = true;
				}
			}
			for (size_t i = 0; i < streams[k].size() && now() < deadline; ++i) {
				uint32_t lo = 0;
				while (i < streams[k].size() && lo < streams[k][i] && now() < deadline) {
					auto c = streams;
					uint32_t const mid = lo + (streams[k][i] - lo) / 2;
					c[k][i] = mid;
					if (attempt(c)) progress = true;
					else lo = mid + 1;
				}
			}
			while (!streams[k].empty() && streams[k].back() == 0) streams[k].pop_back();
		}
	}
}

string one_line(string s)
{
	for (auto& c: s) if (c == '\n' || c == '\r') c = ' ';
	return s;
}

bool save_replay(string const& path, vector<vector<uint32_t>> const& streams, Outcome const& o, uint64_t base, uint64_t run, size_t original, int tried)
{
	string t = format_string("property %s\nseed %llu\nrun %llu\n", g_property->id, (unsigned long long)(base), (unsigned long long)(run));
	t += "class " + o.cls + "\n";
	t += "detail " + one_line(o.detail) + "\n";
	t += format_string("hash %016llx\n", (unsigned long long)(o.hash));
	t += format_string("minimised from %zu choices in %d attempts\n", original, tried);
	for (auto const& v: streams) {
		t += "stream";
		for (auto i: v) t += format_string(" %u", i);
		t += "\n";
	}
	t += "trace\n" + o.notes;
	return real_write_file(path, t);
}

bool load_replay(string const& path, vector<vector<uint32_t>>& streams, string& cls, uint64_t& hash)
{
	string t = real_read_file(path);
	if (t.empty()) return false;
	size_t i = 0;
	while (i < t.size()) {
		size_t j = t.find('\n', i);
		if (j == string::npos) j = t.size();
		string line = t.substr(i, j - i);
		i = j + 1;
		if (line == "trace") break;
		if (line.compare(0, 6, "class ") == 0) cls = line.substr(6);
		if (line.compare(0, 5, "hash ") == 0) hash = strtoull(line.c_str() + 5, nullptr, 16);
		if (line.compare(0, 6, "stream") == 0) {
			vector<uint32_t> v;
			char const* p = line.c_str() + 6;
			while (*p) {
				char* e;
				auto x = strtoul(p, &e, 10);
				if (e == p) break;
				v.push_back(uint32_t(x));
				p = e;
			}
			streams.push_back(v);
		}
	}
	return !streams.empty();
}

string json_string(string const& s)
{
	string r = "\"";
	for (unsigned char c: s) {
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c < 32 || c >= 127) r += format_string("\\u%04x", c);
		else r += char(c);
	}
	return r + "\"";
}

struct Options {
	string prop, out, replay_file, replay_out, known;
	uint64_t seed = 1;
	unsigned worker = 0, workers = 1;
	double time = 10, shrink_time = 40;
	uint64_t max_runs = ~0ull;
	bool verbose = false;
	bool one = false;
	uint64_t run = 0;
};

int controller_search(Options const& o)
{
	map<string, uint64_t> counts;
	std::unordered_set<uint64_t> signatures, hashes;
	vector<string> samples;
	uint64_t runs = 0, nontrivial = 0, rerun = 0, sim_ns = 0;
	double const start = now();
	auto s = g_shared;
	copy_to(s->known, sizeof(s->known), o.known);
	uint64_t const batch = uint64_t(std::min(g_property->batch, int(MAX_RUNS)));
	uint64_t batch_no = o.worker;
	int code = 0;
	string message;
	while (now() - start < o.time && runs < o.max_runs) {
		s->from_streams = false;
		s->verbose = false;
		s->base_seed = o.seed;
		s->first = batch_no * batch;
		s->count = uint32_t(batch);
		auto r = execute();
		runs += r.done;
		for (uint32_t i = 0; i < r.done; ++i) {
			if (s->recs[i].nontrivial) {
				++nontrivial;
				if (signatures.size() < 400000) signatures.insert(s->recs[i].signature);
			}
			if (hashes.size() < 4000000) hashes.insert(s->recs[i].hash);
		}
		sim_ns += s->simulated_ns;
		{
			char* p = s->counts;
			while (*p) {
				char* nl = strchr(p, '\n');
				if (!nl) break;
				string line(p, nl);
				p = nl + 1;
				auto eq = line.rfind('=');
				counts[line.substr(0, eq)] += strtoull(line.c_str() + eq + 1, nullptr, 10);
			}
		}
		if (samples.size() < 4) {
			char* p = s->samples;
			while (*p && samples.size() < 4) {
				char* nl = strchr(p, '\n');
				if (!nl) break;
				samples.push_back(string(p, nl));
				p = nl + 1;
				if (batch_no % 3) break;
			}
		}
		if (r.violated) {
			auto const log = last_log();
			// position of the run in its batch
			uint64_t const pos = s->violated ? r.done - 1 : r.done;
			uint64_t const run = s->first + pos;
			fprintf(stderr, "%s: run %llu: %s: %s\n", g_property->id, (unsigned long long)(run), r.cls.c_str(), r.detail.c_str());
			vector<vector<uint32_t>> streams = {log};
			auto alone = execute_streams(streams);
			if (!same(alone, r, 1)) {
				// it depends on runs before it: record them too
				streams.clear();
				for (uint64_t i = s->first; i <= run; ++i) {
					s->from_streams = false;
					s->first = i;
					s->count = 1;
					execute();
					streams.push_back(last_log());
				}
				streams.back() = log;
				alone = execute_streams(streams);
			}
			if (!same(alone, r, streams.size())) {
				message = "violation did not come back when its choices were replayed: " + r.cls + ": " + r.detail;
				code = 2;
				break;
			}
			size_t original = 0;
			for (auto const& v: streams) original += v.size();
			int tried = 0;
			minimise(streams, alone, now() + o.shrink_time, tried);
			auto again = execute_streams(streams);
			if (!same(again, alone, streams.size()) || again.hash != alone.hash || again.detail != alone.detail) {
				message = format_string("replay is not exact: %016llx and %016llx: ", (unsigned long long)(again.hash), (unsigned long long)(alone.hash)) + alone.detail + " / " + again.detail;
				code = 2;
				break;
			}
			save_replay(o.replay_out, streams, alone, o.seed, run, original, tried);
			message = alone.cls + ": " + alone.detail;
			code = 1;
			break;
		}
		// every 16th batch is executed again and must give the same traces
		if ((batch_no / o.workers) % 16 == 0) {
			vector<uint64_t> first;
			for (uint32_t i = 0; i < r.done; ++i) first.push_back(s->recs[i].hash);
			auto r2 = execute();
			rerun += r2.done;
			bool equal = r2.done == first.size() && !r2.violated;
			uint64_t bad = 0;
			for (uint32_t i = 0; equal && i < r2.done; ++i) {
				if (s->recs[i].hash != first[i]) { equal = false; bad = s->first + i; }
			}
			if (!equal) {
				message = format_string("run %llu gave another trace when repeated", (unsigned long long)(bad));
				code = 2;
				break;
			}
		}
		batch_no += o.workers;
	}
	double const wall = now() - start;
	string j = "{";
	j += format_string("\"code\":%d,\"runs\":%llu,\"nontrivial\":%llu,\"rerun\":%llu,\"simulated_s\":%.3f,\"wall_s\":%.3f,\"traces\":%zu,",
		code, (unsigned long long)(runs), (unsigned long long)(nontrivial), (unsigned long long)(rerun), double(sim_ns) * 1e-9, wall, hashes.size());
	j += "\"message\":" + json_string(message) + ",";
	j += "\"rule\":" + json_string(g_property->rule) + ",";
	j += "\"counts\":{";
	bool firstc = true;
	for (auto const& i: counts) {
		j += (firstc ? "" : ",") + json_string(i.first) + format_string(":%llu", (unsigned long long)(i.second));
		firstc = false;
	}
	j += "},\"samples\":[";
	for (size_t i = 0; i < samples.size(); ++i) j += (i ? "," : "") + json_string(samples[i]);
	j += "],\"signatures\":[";
	bool firsts = true;
	for (auto i: signatures) {
		j += format_string(firsts ? "\"%llx\"" : ",\"%llx\"", (unsigned long long)(i));
		firsts = false;
	}
	j += "]}\n";
	if (!real_write_file(o.out, j)) {
		fprintf(stderr, "cannot write %s\n", o.out.c_str());
		return 2;
	}
	return code;
}

int controller_replay(Options const& o)
{
	vector<vector<uint32_t>> streams;
	string cls;
	uint64_t hash = 0;
	if (!load_replay(o.replay_file, streams, cls, hash)) {
		fprintf(stderr, "cannot read %s\n", o.replay_file.c_str());
		return 2;
	}
	g_shared->verbose = o.verbose;
	auto r = execute_streams(streams);
	if (!r.violated) {
		printf("no violation\n");
		return 0;
	}
	printf("class %s\nhash %016llx\ndetail %s\n%s", r.cls.c_str(), (unsigned long long)(r.hash), r.detail.c_str(), r.notes.c_str());
	printf("%s\n", r.cls == cls && r.hash == hash ? "same as recorded" : "differs from what was recorded");
	fflush(stdout);
	return r.cls == cls && r.hash == hash ? 1 : 3;
}

int controller_one(Options const& o)
{
	auto s = g_shared;
	s->from_streams = false;
	s->verbose = o.verbose;
	s->base_seed = o.seed;
	s->first = o.run;
	s->count = 1;
	auto r = execute();
	printf("%s %s\nhash %016llx\n%s\n%s\n%s", r.violated ? "violated" : "held", r.cls.c_str(), (unsigned long long)(s->recs[0].hash), r.detail.c_str(), r.notes.c_str(), s->counts);
	fflush(stdout);
	return r.violated;
}

void* shared_memory(size_t n)
{
	void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) _exit(2);
	return p;
}

}

void mirror_choice(uint32_t v)
{
	if (g_shared && g_shared->log_len < MAX_STREAM) {
		g_shared->log[g_shared->log_len++] = v;
	}
}

}

using namespace sim;

int main(int argc, char** argv)
{
	// a fixed address layout, so that nothing can depend on it
	int const pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
		setenv("SIM_NO_REEXEC", "1", 1);
		if (personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1) {
			execv("/proc/self/exe", argv);
		}
	}
	setenv("LC_ALL", "C", 1);
	setenv("LANG", "C", 1);
	setenv("TZ", "UTC0", 1);
	setenv("HOME", "/sim/home", 1);
	setenv("TMPDIR", "/sim/tmp", 1);
	tzset();

	if (argc < 3) {
		fprintf(stderr, "usage: %s search|replay|one PROPERTY [--seed N] [--time S] [--runs N] [--worker I --workers N] [--out F] [--replay-out F] [--known classes] [--file F] [--run N] [--verbose]\n", argv[0]);
		for (auto const& p: properties()) fprintf(stderr, "%s ", p.id);
		fprintf(stderr, "\n");
		return 2;
	}
	for (auto const& p: properties()) {
		if (strcmp(p.id, argv[2]) == 0) g_property = &p;
	}
	if (!g_property) {
		fprintf(stderr, "no property %s here\n", argv[2]);
		return 2;
	}

	g_shared = static_cast<Shared*>(shared_memory(sizeof(Shared)));
	enable_clock(true);
	format();
	if (g_property->setup) g_property->setup();
	format();
	k::set_sandboxed(true);

	// everything in one process, for a debugger
	if (strcmp(argv[1], "debug") == 0 && argc > 4) {
		g_shared->base_seed = strtoull(argv[3], nullptr, 10);
		g_shared->first = strtoull(argv[4], nullptr, 10);
		g_shared->count = 1;
		run_child(0);
	}

	if (pipe(g_cmd_pipe) || pipe(g_result_pipe)) return 2;
	fflush(stdout);
	pid_t const zygote = pid_t(::syscall(SYS_getpid));
	pid_t const controller = fork();
	if (controller < 0) return 2;
	if (controller == 0) {
		k::set_sandboxed(false);
		enable_clock(false);
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (getppid() != zygote) _exit(2);
		::close(g_cmd_pipe[0]);
		::close(g_result_pipe[1]);
		Options o;
		string const mode = argv[1];
		o.prop = argv[2];
		for (int i = 3; i < argc; ++i) {
			string a = argv[i];
			auto val = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
			if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
			else if (a == "--time") o.time = atof(val().c_str());
			else if (a == "--shrink-time") o.shrink_time = atof(val().c_str());
			else if (a == "--runs") o.max_runs = strtoull(val().c_str(), nullptr, 10);
			else if (a == "--worker") o.worker = unsigned(atoi(val().c_str()));
			else if (a == "--workers") o.workers = unsigned(atoi(val().c_str()));
			else if (a == "--out") o.out = val();
			else if (a == "--replay-out") o.replay_out = val();
			else if (a == "--known") o.known = val();
			else if (a == "--file") o.replay_file = val();
			else if (a == "--run") o.run = strtoull(val().c_str(), nullptr, 10);
			else if (a == "--verbose") o.verbose = true;
			else { fprintf(stderr, "unknown option %s\n", a.c_str()); g_shared->exit_code = 2; _exit(2); }
		}
		int code = 2;
		if (mode == "search") code = controller_search(o);
		else if (mode == "replay") code = controller_replay(o);
		else if (mode == "one") code = controller_one(o);
		fflush(stdout);
		_exit(code);
	}

	// the zygote: nothing below allocates
	::close(g_cmd_pipe[1]);
	::close(g_result_pipe[0]);
	char b;
	while (::read(g_cmd_pipe[0], &b, 1) == 1) {
		pid_t const child = fork();
		if (child == 0) {
			::close(g_cmd_pipe[0]);
			::close(g_result_pipe[1]);
			run_child(zygote);
		}
		int status = 0;
		while (waitpid(child, &status, 0) < 0 && errno == EINTR) {}
		g_shared->status = status;
		if (::write(g_result_pipe[1], &b, 1) != 1) break;
	}
	int status = 0;
	waitpid(controller, &status, 0);
	return WIFEXITED(status) ? WEXITSTATUS(status) : 2;
}
