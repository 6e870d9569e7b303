// The whole program, used from a simulated terminal.
#pragma once
#include "env.h"
#include <csetjmp>
#include <regex>
extern "C" int freediag_main(int argc, char **argv);
namespace {
struct Prog : Console {
	enum { RUN, LINE, KEY, DONE } st = RUN; std::string in; bool have = false, ended = false; int code = -1; jmp_buf jb; size_t o0 = 0, e0 = 0; std::string out, err; std::vector<std::string> args; std::vector<char *> argv; std::string opname;
	bool wait_user(int s) { st = (decltype(st))s; have = false; std::function<bool()> r = [this]() { return have || ended; }; wait_on(r, ~0ull); st = RUN; bool h = have; have = false; return h; }
	bool line(std::string &l) override { if (ended) return false; if (!wait_user(LINE)) return false; l = in; return true; }
	int key() override { if (ended) return EOF; return wait_user(KEY) ? '\n' : EOF; }
	bool eof() override { return ended; }
	void exited(int c) override { code = c; longjmp(jb, 1); }
	void collect() { std::string o = captured_stdout(), e = captured_stderr(); out = o.substr(std::min(o0, o.size())); err = e.substr(std::min(e0, e.size())); o0 = o.size(); e0 = e.size(); evbytes("out", out.data(), out.size()); }
	// the user waits until the program wants something (or has ended)
	void wait(u64 limit) { op_deadline(now() + limit); std::function<bool()> r = [this]() { return st == DONE || (st != RUN && !have); }; wait_on(r, ~0ull); op_deadline(0); collect(); }
	void start(std::vector<std::string> a, u64 limit = 60 * SEC) {
		console = this; set_op("program start"); args = a; args.insert(args.begin(), "freediag"); for (auto &x : args) argv.push_back(&x[0]); argv.push_back(nullptr);
		spawn("program", [this]() { if (!setjmp(jb)) { int rv = freediag_main((int)args.size(), argv.data()); if (code < 0) code = rv; } st = DONE; });
		wait(limit);
	}
	bool done() const { return st == DONE; }
	// a command; returns what the program wrote meanwhile (standard output; err has the rest)
	const std::string &cmd(const std::string &c, u64 limit = 120 * SEC) {
		if (st != LINE) internal_error("the program does not wait for a command (state %d) at '%s'", st, c.c_str());
		opname = "command '" + c + "'"; set_op(opname.c_str()); in = c; have = true; st = RUN; wait(limit); return out;
	}
	const std::string &key_enter(u64 limit = 120 * SEC) { set_op("ENTER"); have = true; st = RUN; wait(limit); return out; }
	// while a command runs, ENTER is pressed after t
	const std::string &cmd_until(const std::string &c, u64 t, u64 limit) { u64 id = after(t, []() { stdin_pending = true; }); cmd(c, t + limit); cancel(id); if (stdin_pending) { stdin_pending = false; } return out; }
	void quit(const char *c = "quit", u64 limit = 120 * SEC) {
		if (done()) return; set_op(c ? c : "end of input"); if (c) { in = c; have = true; st = RUN; wait(limit); } else { ended = true; st = RUN; wait(limit); }
		if (!done()) VIOL("exit:still", "the program still runs after it was told to %s", c ? c : "stop (end of input)");
	}
	bool said(const char *re) const { std::string s = out + err; return std::regex_search(s, std::regex(re, std::regex::icase)); }
	// the user was told that something went wrong
	bool complained() const { return said("error|fail|can't|cannot|could not|couldn't|unable|warning|lost|incomplete|no space|not (be )?(saved|written|complete)|missing|refused|invalid"); }
};
std::string text(const char *p) { auto i = vfs.find(p); return i == vfs.end() ? "" : std::string(i->second.data.begin(), i->second.data.end()); }
void put(const char *p, const std::string &s) { vfs[p].data.assign(s.begin(), s.end()); vfs[p].exists = true; }
std::vector<std::string> split(const std::string &s, bool *open = nullptr) { std::vector<std::string> v; size_t i = 0; for (;;) { size_t j = s.find('\n', i); if (j == s.npos) break; v.push_back(s.substr(i, j - i)); i = j + 1; } if (open) *open = i < s.size(); else if (i < s.size()) v.push_back(s.substr(i)); return v; }
struct User {
	Prog p; size_t a0 = live_allocs();
	void must(const std::string &c, const char *want = nullptr) { p.cmd(c); if (want && !p.said(want)) VIOL("cli:failed", "'%s' failed: %.300s %.300s", c.c_str(), p.out.c_str(), p.err.c_str()); }
	void up(Tty *t, const char *l0, int speed = 0) { p.start({}); if (p.done()) VIOL("start:ended", "the program ended at once (exit code %d)", p.code); must(std::string("set interface ") + l0); must("set port " + t->path); if (speed) must("set elmspeed " + std::to_string(speed)); }
	void bye(const char *c = "quit") { p.quit(c); CHECK(p.code == 0, "exit:code", "exit code %d", p.code); CHECK(open_files() == 0, "file:leak", "%d files still open at the end", open_files()); CHECK(open_fds() == 0, "fd:leak", "%d ports still open at the end", open_fds()); }
};
}
