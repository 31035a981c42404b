// D09: making a certificate chain leaves no trace behind
#include "b_common.h"
#include "certs.h"
#include "certificate_chain.h"
#include <cerrno>
#include <cstdlib>

using namespace sim;
using std::string;
using std::vector;

// the part of openssl(1) which matters here: files appear in the working directory
struct Openssl {
	int fail_at = -1;        // which command fails
	int how = 0;             // exit status, or negative for one which leaves a part of its file first
	int n = 0;

	int operator()(string const& cmd)
	{
		auto const at = n++;
		auto word_after = [&](string const& flag) {
			auto p = cmd.find(flag + " ");
			if (p == string::npos) return string();
			p += flag.size() + 1;
			return cmd.substr(p, cmd.find(' ', p) - p);
		};
		auto const out = word_after("-out");
		string content;
		if (out == "ca.key") content = signer_root_key;
		else if (out == "intermediate.key") content = signer_intermediate_key;
		else if (out == "leaf.key") content = signer_key;
		else if (out == "ca.self-signed.pem") content = signer_root;
		else if (out == "intermediate.signed.pem") content = signer_intermediate;
		else if (out == "leaf.signed.pem") content = signer_leaf;
		else content = "request";
		if (at == fail_at) {
			if (how < 0 && !out.empty()) put_file(sim_cwd() + "/" + out, content.substr(0, content.size() / 2));
			return (how < 0 ? 1 : how) << 8;
		}
		if (!out.empty()) put_file(sim_cwd() + "/" + out, content);
		return 0;
	}
};

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	setenv("TMPDIR", "/sim/tmp", 1);
	put_dir("/sim/tmp");
	put_dir("/sim/work/here");
	string const cwd = c.choose(2) ? "/sim/work/here" : "/sim/work";
	if (c.choose(3) == 2) put_file("/sim/tmp/theirs", "not ours");
	if (c.choose(3) == 2) put_file("/sim/work/ca.key", "not ours");
	auto const before = snapshot();
	auto const tree_before = tree();

	auto go = [&](Window& w, int fail_at, int how) {
		set_sim_cwd(cwd);
		Openssl openssl;
		openssl.fail_at = fail_at;
		openssl.how = how;
		command_handler = [&](string const& cmd) { return openssl(cmd); };
		bool raised = false;
		string error;
		bool good = true;
		{
			WindowScope scope(w);
			try {
				dcp::CertificateChain chain("openssl", 3650);
				good = chain.unordered().size() == 3 && chain.key() && *chain.key() == signer_key;
			} catch (std::exception& e) {
				raised = true;
				error = e.what();
			}
		}
		command_handler = nullptr;
		auto const fired = describe_fired(w) + (fail_at >= 0 ? format_string("[command %d fails, %d]", fail_at, how) : string());
		ctx.note("%s -> %s %s", fired.c_str(), raised ? "raised" : "returned", error.c_str());
		bool made = false, removing = false, removal_failed = false, return_failed = false;
		int chdirs = 0;
		for (size_t i = 0; i < w.ops.size(); ++i) {
			bool hit = false;
			for (auto const& f: w.fired) if (size_t(f.first) == i) hit = true;
			auto const& op = w.ops[i];
			// once the directory itself is looked at again it is being removed
			bool const own = op.path.compare(0, 9, "/sim/tmp/") == 0 && op.path.find('/', 9) == string::npos;
			if (made && own && op.op != Op::CHDIR && op.op != Op::GETCWD) removing = true;
			if (op.op == Op::CHDIR || op.op == Op::GETCWD) made = true;
			if (hit && (removing || op.op == Op::UNLINK || op.op == Op::RMDIR)) removal_failed = true;
			if (op.op == Op::CHDIR) {
				++chdirs;
				if (hit && chdirs > 1) return_failed = true;
			}
		}
		if (!raised && fail_at >= 0 && how >= 0) ctx.violate("failed command ignored", "a command failed but the chain was made; %s", fired.c_str());
		if (!raised && !good) ctx.violate("wrong chain", "the chain has other certificates or another key than were made; %s", fired.c_str());
		if (raised && fail_at < 0 && w.fired.empty()) ctx.violate("raised on a healthy disk", "%s", error.c_str());
		if (!return_failed && sim_cwd() != cwd) ctx.violate("working directory changed", "the working directory was %s and is now %s; %s", cwd.c_str(), sim_cwd().c_str(), fired.c_str());
		if (!removal_failed) {
			auto const after = tree();
			for (auto const& i: after) {
				if (tree_before.count(i.first)) continue;
				ctx.violate(i.first.find(".key") != string::npos ? "private key left behind" : "temporary files left behind", "%s was left behind; %s", i.first.c_str(), fired.c_str());
			}
			for (auto const& i: tree_before) {
				auto j = after.find(i.first);
				if (j == after.end() || j->second != i.second) ctx.violate("other files changed", "%s was changed or removed; %s", i.first.c_str(), fired.c_str());
			}
		}
		if (!open_handles().empty()) ctx.violate("file left open", "%zu files left open; %s", open_handles().size(), fired.c_str());
		return raised;
	};

	Window dry;
	go(dry, -1, 0);
	ctx.sig(uint64_t(tree_before.size()));
	int const tries = c.range(1, 4);
	for (int i = 0; i < tries && !ctx.violated; ++i) {
		restore(before);
		set_disk_free(-1);
		Window w;
		int fail_at = -1, how = 0;
		if (c.choose(3) == 0) {
			fail_at = int(c.choose(8));
			static vector<int> const hows = {1, -1, 2, 126, 127};
			how = c.pick(hows);
			ctx.count(how < 0 ? "fault.command.partial" : "fault.command.status");
			ctx.stats.nontrivial = true;
		}
		if (fail_at < 0 || c.choose(3) == 2) {
			FaultMenu menu;
			w.faults = draw_faults(ctx, dry.ops, menu);
		}
		bool const r = go(w, fail_at, how);
		count_faults(ctx, w);
		ctx.sig(uint64_t(fail_at + 1));
		ctx.sig(uint64_t(r));
		for (auto const& f: w.fired) ctx.sig(uint64_t(f.first));
		ctx.stats.sample = format_string("%s[command %d] -> %s", describe_fired(w).c_str(), fail_at, r ? "raised" : "returned");
	}
}

SIM_PROPERTY(D09, b_setup, run, 32, "A run makes a certificate chain in a drawn working directory with a simulated openssl command, once undisturbed to number its operations and then 1-4 times with a command that fails (with or without a partial output file) and/or 1-3 faults on filesystem operations. Non-trivial: a fault took effect or a command failed. Distinct: by starting state, failing command, positions of faults and outcomes.")
