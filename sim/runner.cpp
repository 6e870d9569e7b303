// Runs scenarios: one forked process per simulated run, seeds spread over worker processes, gate,
// minimisation, replay files, summary.
#include "scen.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <cerrno>
#include <csignal>
#include <fnmatch.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <poll.h>
#include <cmath>
#include <algorithm>
#include <string>

extern "C" const char *__asan_default_options() {
	return "exitcode=99:detect_leaks=0:symbolize=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:"
	       "detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=6:print_summary=1:print_legend=0:print_full_thread_history=0";
}
extern "C" const char *__ubsan_default_options() { return "exitcode=98:print_stacktrace=0:symbolize=0"; }
namespace sim { std::vector<std::string> rl_offered; std::string rl_prompt; }
extern "C" void vos_free(void *);
extern "C" {
const char *rl_line_buffer = "";
int rl_attempted_completion_over;
void *rl_attempted_completion_function;
// what readline would offer is kept for the user to see
static char *rl_any[2];
char **rl_completion_matches(const char *text, char *(*gen)(const char *, int)) {
	for (int st = 0; char *m = gen(text, st); st = 1) { sim::rl_offered.push_back(m); vos_free(m); } return sim::rl_offered.empty() ? nullptr : rl_any;
}
}
namespace sim { extern FILE *vlog_file; }

static std::vector<Scenario> *scens;
void register_scenario(const Scenario &s) { if (!scens) scens = new std::vector<Scenario>; scens->push_back(s); }
static const Scenario *find(const std::string &n) { for (auto &s : *scens) if (n == s.name) return &s; return nullptr; }

static double rt() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void *shm(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; }
static int errfd = -1, outfd = -1;
static std::string fdtext(int fd) {
	std::string s; char b[4096]; off_t o = 0; ssize_t n;
	while ((n = pread(fd, b, sizeof b, o)) > 0 && s.size() < 4000000) { s.append(b, n); o += n; }
	return s;
}
std::string captured_stdout() { fflush(stdout); return fdtext(outfd); }
std::string captured_stderr() { fflush(stderr); return fdtext(errfd); }

// ------------------------------------------------------------------ one run
static std::map<std::string, std::string> symcache;
static std::string symbolize(const std::string &off) {
	auto it = symcache.find(off);
	if (it != symcache.end()) return it->second;
	char exe[500]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n < 0) n = 0; exe[n] = 0;
	std::string cmd = "addr2line -f -s -e " + std::string(exe) + " " + off + " 2>/dev/null";
	std::string r; char b[300];
	FILE *p = popen(cmd.c_str(), "r");
	if (p) { if (fgets(b, sizeof b, p)) { b[strcspn(b, "\n")] = 0; r = b; } if (fgets(b, sizeof b, p)) { b[strcspn(b, "\n")] = 0; r += " "; r += b; } pclose(p); }
	symcache[off] = r;
	return r;
}
static void crash_class(int wstatus, Result *r) {
	std::string e = fdtext(errfd);
	std::string cls, det;
	size_t p;
	if ((p = e.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
		size_t q = e.find_first_of(" \n", p + 25);
		cls = "asan:" + e.substr(p + 25, q - p - 25);
		det = e.substr(p, e.find('\n', p) - p);
		// frames
		std::string fn; size_t s = p; int k = 0;
		while ((s = e.find("\n    #", s)) != std::string::npos && k < 12) {
			size_t eol = e.find('\n', s + 1);
			std::string l = e.substr(s, eol - s);
			size_t a = l.find("simrun"); size_t pl = l.find("+0x", a == std::string::npos ? 0 : a);
			if (a != std::string::npos && pl != std::string::npos) {
				std::string off = l.substr(pl + 1, l.find_first_of(" )", pl) - pl - 1);
				std::string sy = symbolize(off);
				std::string file = sy.substr(sy.find(' ') == std::string::npos ? 0 : sy.find(' ') + 1);
				det += " | " + sy;
				if (fn.empty() && file.find(".c:") != std::string::npos) fn = sy.substr(0, sy.find(' '));
			}
			s = eol; k++;
			if (l.find("#0") == std::string::npos && e.compare(eol, 2, "\n\n") == 0) break;
		}
		if (r->tag[0]) cls += std::string("@") + r->tag; else if (!fn.empty()) cls += "@" + fn;
	} else if ((p = e.find("runtime error: ")) != std::string::npos) {
		size_t ls = e.rfind('\n', p); ls = ls == std::string::npos ? 0 : ls + 1;
		std::string l = e.substr(ls, e.find('\n', p) - ls);
		std::string file = l.substr(0, l.find(':'));
		size_t sl = file.rfind('/'); if (sl != std::string::npos) file = file.substr(sl + 1);
		cls = "ubsan:bounds@" + file; det = l;
	} else if ((p = e.find("Assertion `")) != std::string::npos) {
		size_t ls = e.rfind('\n', p); ls = ls == std::string::npos ? 0 : ls + 1;
		det = e.substr(ls, e.find('\n', p) - ls);
		size_t q = e.find('\'', p);
		std::string fn = e.substr(ls, p - ls);
		size_t c2 = fn.rfind(": "); std::string f2 = fn.substr(0, c2 == std::string::npos ? fn.size() : c2);
		size_t c1 = f2.rfind(": "); f2 = f2.substr(c1 == std::string::npos ? 0 : c1 + 2);
		cls = "assert@" + f2;
		(void)q;
	} else if (WIFSIGNALED(wstatus)) { cls = "signal:" + std::to_string(WTERMSIG(wstatus)); det = e.substr(0, 600); }
	else { cls = "died:" + std::to_string(WEXITSTATUS(wstatus)); det = e.substr(0, 600); }
	snprintf(r->cls, sizeof r->cls, "%s", cls.c_str());
	snprintf(r->detail, sizeof r->detail, "%s", det.c_str());
	r->status = 2;
}
static double run_timeout = 30;
// runs the spec in a child; the result is in r
static void run_one(const RunSpec &sp, Result *r, const char *vlog = nullptr) {
	size_t head = offsetof(Result, entries);
	memset((void *)r, 0, head);
	if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET);
	if (ftruncate(outfd, 0)) {} lseek(outfd, 0, SEEK_SET);
	const Scenario *sc = find(sp.scenario);
	if (!sc) { fprintf(stderr, "no scenario %s\n", sp.scenario.c_str()); exit(3); }
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(3); }
	if (pid == 0) {
		dup2(outfd, 1); dup2(errfd, 2);
		int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
		sim::res = r; sim::spec = sp;
		if (vlog) sim::vlog_file = fopen(vlog, "w");
		sim::start(sc->fn);
		_exit(0);
	}
	double t0 = rt(); int st = 0; int spins = 0;
	for (;;) {
		pid_t w = waitpid(pid, &st, spins < 0 ? 0 : WNOHANG);
		if (w == pid) break;
		if (w < 0 && errno != EINTR) break;
		double el = rt() - t0;
		if (el > run_timeout) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r->status = 5; snprintf(r->cls, sizeof r->cls, "timeout"); return; }
		struct timespec ts = {0, el < 0.02 ? 300000 : el < 0.2 ? 2000000 : 20000000};
		nanosleep(&ts, nullptr);
		spins++;
	}
	if (r->status == 0) crash_class(st, r);
	// a crash has no final hash of its own: what was logged up to it identifies the run
}
// ------------------------------------------------------------------ replay files
static std::string jesc(const std::string &s) {
	std::string o; char b[8];
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 0x20 || c >= 0x7f) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
	return o;
}
static void write_replay(const char *path, const RunSpec &sp, const char *prop, const Result *r, const std::string &trace, u32 orig_entries, int minruns, bool exact = true) {
	FILE *f = fopen(path, "w");
	if (!f) { perror(path); exit(3); }
	char hs[20]; snprintf(hs, sizeof hs, "%016llx", (unsigned long long)r->hash); if (!exact) strcpy(hs, "any");
	fprintf(f, "{\n\"property\": \"%s\",\n\"scenario\": \"%s\",\n\"seed\": %llu,\n\"replay_by\": \"%s\",\n\"class\": \"%s\",\n\"detail\": \"%s\",\n\"hash\": \"%s\",\n\"virtual_time_ms\": %.6f,\n",
		prop, sp.scenario.c_str(), (unsigned long long)sp.seed, sp.replay ? "decisions" : "seed", jesc(r->cls).c_str(), jesc(r->detail).c_str(), hs, r->simtime / 1e6);
	fprintf(f, "\"minimised\": {\"decisions_before\": %u, \"decisions_after\": %zu, \"runs\": %d},\n", orig_entries, sp.entries.size(), minruns);
	fprintf(f, "\"decisions\": [\n");
	for (size_t i = 0; i < sp.entries.size(); i++)
		fprintf(f, "[\"%s\", %u, %u]%s\n", sp.entries[i].kind, sp.entries[i].ord, sp.entries[i].val, i + 1 < sp.entries.size() ? "," : "");
	fprintf(f, "],\n\"trace\": [\n");
	std::vector<std::string> l; size_t p = 0;
	while (p < trace.size()) { size_t q = trace.find('\n', p); if (q == std::string::npos) q = trace.size(); l.push_back(trace.substr(p, q - p)); p = q + 1; }
	size_t from = l.size() > 400 ? l.size() - 400 : 0;
	for (size_t i = from; i < l.size(); i++) fprintf(f, "\"%s\"%s\n", jesc(l[i]).c_str(), i + 1 < l.size() ? "," : "");
	fprintf(f, "]\n}\n");
	fclose(f);
}
static bool read_replay(const char *path, RunSpec &sp, std::string &cls, std::string &hash, std::string &prop) {
	FILE *f = fopen(path, "r");
	if (!f) { perror(path); return false; }
	static char b[20000]; char k[200]; unsigned o, v; bool in = false;
	bool byseed = false;
	auto unq = [](const char *s) { std::string r; const char *p = strchr(s, ':'); p = strchr(p, '"'); for (p++; *p && *p != '"'; p++) { if (*p == '\\') p++; r += *p; } return r; };
	while (fgets(b, sizeof b, f)) {
		if (!strncmp(b, "\"scenario\"", 10)) sp.scenario = unq(b + 10);
		else if (!strncmp(b, "\"replay_by\"", 11)) byseed = strstr(b, "\"seed\"") != nullptr;
		else if (!strncmp(b, "\"property\"", 10)) prop = unq(b + 10);
		else if (!strncmp(b, "\"class\"", 7)) cls = unq(b + 7);
		else if (!strncmp(b, "\"hash\"", 6)) hash = unq(b + 6);
		else if (!strncmp(b, "\"seed\"", 6)) sp.seed = strtoull(strchr(b, ':') + 1, nullptr, 10);
		else if (!strncmp(b, "\"decisions\"", 11)) in = true;
		else if (b[0] == ']') in = false;
		else if (in && sscanf(b, "[\"%[^\"]\", %u, %u]", k, &o, &v) == 3) { Entry e; memset(&e, 0, sizeof e); strncpy(e.kind, k, sizeof e.kind - 1); e.ord = o; e.val = v; sp.entries.push_back(e); }
	}
	fclose(f);
	sp.replay = !byseed;
	return !sp.scenario.empty();
}
// ------------------------------------------------------------------ minimise
static int min_runs;
static bool still(RunSpec &sp, const std::vector<Entry> &e, const std::string &cls, Result *r) {
	sp.entries = e; sp.replay = true;
	min_runs++;
	run_one(sp, r);
	return r->status == 2 && cls == r->cls;
}
static std::vector<Entry> minimise(RunSpec sp, std::vector<Entry> e, const std::string &cls, Result *r, double budget) {
	double end = rt() + budget;
	// drop whole kinds first
	for (bool again = true; again && rt() < end;) {
		again = false;
		std::set<std::string> ks; for (auto &x : e) ks.insert(x.kind);
		for (auto &k : ks) {
			if (rt() > end) break;
			std::vector<Entry> c; for (auto &x : e) if (k != x.kind) c.push_back(x);
			if (c.size() < e.size() && still(sp, c, cls, r)) { e = c; again = true; }
		}
		if (ks.size() > 12) again = false;
	}
	size_t n = 2;
	while (e.size() >= 1 && rt() < end) {
		size_t chunk = std::max<size_t>(1, e.size() / n);
		bool ok = false;
		for (size_t i = 0; i < e.size() && rt() < end; i += chunk) {
			std::vector<Entry> c(e.begin(), e.begin() + i);
			if (i + chunk < e.size()) c.insert(c.end(), e.begin() + i + chunk, e.end());
			if (still(sp, c, cls, r)) { e = c; ok = true; n = std::max<size_t>(2, n - 1); break; }
		}
		if (!ok) { if (chunk == 1) break; n = std::min(e.size(), n * 2); }
	}
	// smaller values
	if (e.size() < 80)
		for (size_t i = 0; i < e.size() && rt() < end; i++) {
			for (u32 v : {1u, 2u, e[i].val / 2}) {
				if (v == 0 || v >= e[i].val) continue;
				auto c = e; c[i].val = v;
				if (still(sp, c, cls, r)) { e = c; break; }
			}
		}
	return e;
}
// ------------------------------------------------------------------ batch
#define HSET (1u << 21)
struct Shared {
	volatile int stop;
	volatile u64 next;
	volatile u64 runs, discarded, timeouts, nontrivial, distinct, known_hits;
	volatile u64 simns, steps, bbs, ops, oracle, faulted;
	volatile int nsamples;
	char samples[12][1600];
	volatile int lock;
	u32 ncounters; struct { char name[28]; u64 n; u64 runs; } counters[400];
	u32 nknown; struct { char cls[160]; u64 n; } known[64];
	volatile int found;            // 0 none, 1 claimed
	RunSpec *dummy;
	char f_scn[64]; u64 f_seed;
	u32 nscn; struct { char name[64]; u64 runs; } scn[64];
	u64 hset[HSET];
	u8 cov[COV_SIZE];
};
static Shared *S;
static void lk() { while (__sync_lock_test_and_set(&S->lock, 1)) { struct timespec t = {0, 20000}; nanosleep(&t, nullptr); } }
static void ulk() { __sync_lock_release(&S->lock); }
static u64 mixs(u64 x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; return x; }
static void add_result(const Result *r, const std::string &scn) {
	lk();
	S->runs++; S->simns += r->simtime; S->steps += r->steps; S->bbs += r->bbs; S->ops += r->ops; S->oracle += r->oracle;
	bool flt = false;
	for (u32 i = 0; i < r->ncounters; i++) {
		const Counter &c = r->counters[i];
		if (!strncmp(c.name, "f.", 2)) flt = true;
		u32 j = 0;
		for (; j < S->ncounters; j++) if (!strcmp(S->counters[j].name, c.name)) break;
		if (j == S->ncounters && j < 400) { strcpy(S->counters[j].name, c.name); S->ncounters++; }
		if (j < 400) { S->counters[j].n += c.n; S->counters[j].runs++; }
	}
	if (flt) S->faulted++;
	u32 k = 0;
	for (; k < S->nscn; k++) if (scn == S->scn[k].name) break;
	if (k == S->nscn && k < 64) { snprintf(S->scn[k].name, 64, "%s", scn.c_str()); S->nscn++; }
	if (k < 64) S->scn[k].runs++;
	if (r->status == 4) S->discarded++;
	if (r->status == 5) S->timeouts++;
	if (r->oracle > 0 && r->status != 4) {
		S->nontrivial++;
		u64 h = r->hash ? r->hash : 1; u32 p = (u32)(mixs(h) & (HSET - 1)); int n = 0;
		while (S->hset[p] && S->hset[p] != h && n < 64) { p = (p + 1) & (HSET - 1); n++; }
		if (!S->hset[p]) { S->hset[p] = h; S->distinct++; }
	}
	if (r->sample[0] && S->nsamples < 12 && (S->nsamples < 4 || (S->runs % 97) == 0)) snprintf(S->samples[S->nsamples++], 1600, "%s: %s", scn.c_str(), r->sample);
	ulk();
}
static std::vector<std::string> known;
static bool is_known(const char *cls) { for (auto &k : known) if (!fnmatch(k.c_str(), cls, 0)) return true; return false; }

static void usage() { fprintf(stderr, "usage: simrun list | one SCENARIO SEED [-v] | check PROP --seed N --seconds S [--runs N] [--workers W] --out SUMMARY --replay FILE [--known PAT] | replay FILE [-v] | selftest PROP SEED N\n"); exit(3); }
static std::string slurp(const char *p) { std::string s; FILE *f = fopen(p, "r"); if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static RunSpec nth(const std::string &prop, u64 base, u64 i) {
	std::vector<const Scenario *> v; double tot = 0;
	for (auto &s : *scens) if (prop == s.prop) { v.push_back(&s); tot += s.weight; }
	if (v.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); exit(3); }
	// deterministic interleave of the scenarios by weight
	double u = fmod((i + 0.5) * 0.6180339887498949, 1.0) * tot; size_t k = 0;
	while (k + 1 < v.size() && u >= v[k]->weight) { u -= v[k]->weight; k++; }
	RunSpec sp; sp.scenario = v[k]->name; sp.seed = mixs(base * 1000003 + i + 1) >> 1;
	return sp;
}
static void new_fds() { errfd = memfd_create("err", 0); outfd = memfd_create("out", 0); }

int main(int argc, char **argv) {
	if (argc < 2) usage();
	std::string cmd = argv[1];
	int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
		setenv("SIM_NOASLR", "1", 1);
		if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	setenv("LC_ALL", "C", 1); setenv("TZ", "UTC", 1); unsetenv("HOME");
	new_fds();
	Result *r = (Result *)shm(sizeof(Result));
	S = (Shared *)shm(sizeof(Shared));
	sim::cov = S->cov;
	bool verbose = false;
	for (int i = 2; i < argc; i++) if (!strcmp(argv[i], "-v")) verbose = true;
	if (cmd == "list") { for (auto &s : *scens) printf("%s %s %g\n", s.prop, s.name, s.weight); return 0; }
	if (cmd == "one" && argc >= 4) {
		RunSpec sp; sp.scenario = argv[2]; sp.seed = strtoull(argv[3], nullptr, 0);
		if (getenv("SIM_TIMEOUT")) run_timeout = atof(getenv("SIM_TIMEOUT"));
		char vp[64]; snprintf(vp, sizeof vp, "/tmp/simlog.%d", (int)getpid());
		run_one(sp, r, verbose ? vp : nullptr);
		if (verbose) { fputs(slurp(vp).c_str(), stdout); unlink(vp); printf("--- stdout\n%s\n--- stderr\n%s\n", captured_stdout().c_str(), captured_stderr().c_str()); }
		printf("status %d class %s\n%s\nhash %016llx t=%.3fms steps=%llu bbs=%llu oracle=%llu entries=%u sample=%s\n", r->status, r->cls, r->detail, (unsigned long long)r->hash, r->simtime / 1e6, (unsigned long long)r->steps, (unsigned long long)r->bbs, (unsigned long long)r->oracle, r->nentries, r->sample);
		for (u32 i = 0; i < r->ncounters; i++) printf("  %s=%u\n", r->counters[i].name, r->counters[i].n);
		return r->status == 1 ? 0 : 1;
	}
	if (cmd == "replay" && argc >= 3) {
		RunSpec sp; std::string cls, hash, prop;
		if (!read_replay(argv[2], sp, cls, hash, prop)) return 3;
		char vp[64]; snprintf(vp, sizeof vp, "/tmp/simlog.%d", (int)getpid());
		run_one(sp, r, verbose ? vp : nullptr);
		if (verbose) { fputs(slurp(vp).c_str(), stdout); unlink(vp); }
		char h[20]; snprintf(h, 20, "%016llx", (unsigned long long)r->hash);
		bool same = r->status == 2 && cls == r->cls && (hash == h || hash == "any");
		printf("%s: class %s (expected %s) hash %s (expected %s)\n%s\n", same ? "reproduced" : "NOT reproduced", r->cls, cls.c_str(), h, hash.c_str(), r->detail);
		if (r->status == 2) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), argv[2]);
		return same ? 1 : r->status == 2 ? 4 : r->status == 1 ? 0 : 3;
	}
	std::string prop, out, rep; u64 seed = 1; double seconds = 10; u64 maxruns = ~0ull; int workers = 8; double minbudget = 40;
	if (argc >= 3) prop = argv[2];
	for (int i = 3; i + 1 < argc; i++) {
		std::string a = argv[i];
		if (a == "--seed") seed = strtoull(argv[++i], nullptr, 0);
		else if (a == "--seconds") seconds = atof(argv[++i]);
		else if (a == "--runs") maxruns = strtoull(argv[++i], nullptr, 0);
		else if (a == "--workers") workers = atoi(argv[++i]);
		else if (a == "--out") out = argv[++i];
		else if (a == "--replay") rep = argv[++i];
		else if (a == "--known") known.push_back(argv[++i]);
		else if (a == "--minimise") minbudget = atof(argv[++i]);
	}
	if (cmd == "survey") {
		// every violation class with an example seed (development aid)
		std::map<std::string, std::pair<u64, std::string>> seen; double end = rt() + seconds; u64 i = 0;
		std::map<std::string, u64> ex; 
		// parallel: workers write lines to a pipe
		int pf[2]; if (pipe(pf)) return 3;
		for (int w = 0; w < workers; w++) if (fork() == 0) {
			new_fds(); close(pf[0]);
			for (i = w; i < maxruns && rt() < end; i += workers) {
				RunSpec sp = nth(prop, seed, i); run_one(sp, r = (w == 0 && i == 0) ? (Result *)shm(sizeof(Result)) : (i < (u64)workers ? (Result *)shm(sizeof(Result)) : r));
				char b[900]; std::string d = r->detail; for (auto &c : d) if (c == '\n') c = ' ';
				int n = snprintf(b, sizeof b, "%d\t%s\t%s\t%llu\t%.600s\n", r->status, r->status == 1 ? "ok" : r->cls, sp.scenario.c_str(), (unsigned long long)sp.seed, r->status == 1 ? "" : d.c_str());
				if (write(pf[1], b, n > 899 ? 899 : n)) {}
			}
			_exit(0);
		}
		close(pf[1]); FILE *f = fdopen(pf[0], "r"); static char b[2000]; std::map<std::string, std::pair<u64, std::string>> agg;
		while (fgets(b, sizeof b, f)) { std::string l = b; size_t a = l.find('\t'), c = l.find('\t', a + 1), d = l.find('\t', c + 1); std::string key = l.substr(0, d); auto &x = agg[key]; x.first++; if (x.first == 1) x.second = l.substr(d + 1); }
		for (auto &x : agg) printf("%6llu %s\n         seed %s", (unsigned long long)x.second.first, x.first.c_str(), x.second.second.c_str());
		while (wait(nullptr) > 0) {}
		return 0;
	}
	if (cmd == "selftest") {
		// every seed twice, plus replay of its decisions, across processes: the event logs must be identical
		u64 n = maxruns == ~0ull ? 200 : maxruns; int pf[2]; if (pipe(pf)) return 3;
		for (int w = 0; w < workers; w++) if (fork() == 0) {
			new_fds(); r = (Result *)shm(sizeof(Result)); u32 bad = 0;
			for (u64 i = w; i < n; i += workers) {
				RunSpec sp = nth(prop, seed, i);
				run_one(sp, r); u64 h = r->hash, st = r->status; std::string c = r->cls; RunSpec rp = sp; rp.replay = true; rp.entries.assign(r->entries, r->entries + r->nentries); bool ov = r->overflow;
				if (st == 5) continue;
				run_one(sp, r); bool a = h == r->hash && st == (u64)r->status && c == r->cls;
				bool b = true; if (!ov) { run_one(rp, r); b = h == r->hash && st == (u64)r->status && c == r->cls; }
				if (!a || !b) { bad++; fprintf(stderr, "DIVERGED %s %llu %s%s\n", sp.scenario.c_str(), (unsigned long long)sp.seed, a ? "" : "same-seed ", b ? "" : "replay"); }
				if (st == 3) { bad++; fprintf(stderr, "INTERNAL %s %llu %s\n", sp.scenario.c_str(), (unsigned long long)sp.seed, r->detail); }
			}
			if (write(pf[1], &bad, 4)) {}
			_exit(0);
		}
		close(pf[1]); u32 b, tot = 0; while (read(pf[0], &b, 4) == 4) tot += b;
		while (wait(nullptr) > 0) {}
		printf("selftest %s: %llu seeds x3, %u diverged\n", prop.c_str(), (unsigned long long)n, tot);
		return tot ? 1 : 0;
	}
	if (cmd != "check") usage();
	double t0 = rt(), end = t0 + seconds;
	std::vector<pid_t> kids;
	for (int w = 0; w < workers; w++) {
		pid_t p = fork();
		if (p == 0) {
			setpgid(0, 0);
			new_fds(); r = (Result *)shm(sizeof(Result));
			for (;;) {
				if (S->stop || rt() > end) break;
				u64 i = __sync_fetch_and_add(&S->next, 1);
				if (i >= maxruns) break;
				RunSpec sp = nth(prop, seed, i);
				run_one(sp, r);
				if (r->status == 3) { fprintf(stderr, "internal error in %s seed %llu: %s\n", sp.scenario.c_str(), (unsigned long long)sp.seed, r->detail); _exit(3); }
				add_result(r, sp.scenario);
				if (r->status == 2) {
					if (is_known(r->cls)) {
						lk(); S->known_hits++; u32 k = 0;
						for (; k < S->nknown; k++) if (!strcmp(S->known[k].cls, r->cls)) break;
						if (k == S->nknown && k < 64) { strcpy(S->known[k].cls, r->cls); S->nknown++; }
						if (k < 64) S->known[k].n++;
						ulk(); continue;
					}
					lk();
					if (!S->found) { S->found = 1; snprintf(S->f_scn, 64, "%s", sp.scenario.c_str()); S->f_seed = sp.seed; S->stop = 1; }
					ulk(); break;
				}
			}
			_exit(0);
		}
		kids.push_back(p);
	}
	int bad = 0;
	for (auto p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
	double wall = rt() - t0;
	int rc = 0; std::string vcls, vdet; RunSpec sp; u32 nent = 0; size_t nmin = 0;
	if (S->found) {
		sp.scenario = S->f_scn; sp.seed = S->f_seed;
		// what the code under test reads uninitialised may differ between runs: then the class has to repeat, not every event
		std::string cls; u64 h1 = 0; bool got = false, again = false, exact = false; u32 over = 0; std::vector<Entry> e;
		for (int k = 0; k < 6 && !again; k++) {
			run_one(sp, r); if (r->status != 2) continue;
			if (got && cls == r->cls) { again = true; exact = k == 1 && h1 == r->hash; break; }
			got = true; cls = r->cls; h1 = r->hash; over = r->overflow; e.assign(r->entries, r->entries + r->nentries); nent = r->nentries;
		}
		if (!again) { fprintf(stderr, "gate: seed %llu of %s is not repeatable (%s)\n", (unsigned long long)sp.seed, sp.scenario.c_str(), cls.c_str()); return 3; }
		vcls = cls; vdet = r->detail; RunSpec rp = sp; bool byseed = over || !exact;
		if (!byseed) { rp.replay = true; rp.entries = e; run_one(rp, r); if (r->status != 2 || cls != r->cls || h1 != r->hash) byseed = true; }
		if (byseed) { rp = sp; rp.replay = false; rp.entries.clear(); fprintf(stderr, "note: %u decisions%s%s: the replay file holds the seed only\n", nent, over ? " (more than are kept)" : "", exact ? "" : ", not every event repeats"); }
		else { rp.entries = minimise(sp, e, cls, r, minbudget); nmin = rp.entries.size(); }
		char vp[64]; snprintf(vp, sizeof vp, "/tmp/simlog.%d", (int)getpid());
		for (int k = 0; k < 6; k++) { run_one(rp, r, vp); if (r->status == 2 && cls == r->cls) break; }
		vdet = r->detail;
		write_replay(rep.c_str(), rp, prop.c_str(), r, slurp(vp), nent, min_runs, exact);
		unlink(vp);
		// fresh process
		pid_t p = fork();
		if (p == 0) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); execl("/proc/self/exe", "simrun", "replay", rep.c_str(), (char *)nullptr); _exit(9); }
		int st; waitpid(p, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "gate: the minimised replay file does not reproduce in a fresh process (status %d)\n", st); return 3; }
		rc = 1;
	} else if (bad) rc = 3;
	u32 covn = 0; for (u32 i = 0; i < COV_SIZE; i++) covn += S->cov[i];
	if (const char *cf = getenv("SIM_COV")) { FILE *f = fopen(cf, "w"); if (f) { for (u32 i = 0; i < COV_SIZE; i++) if (S->cov[i]) fprintf(f, "%x\n", i); fclose(f); } }
	FILE *f = fopen(out.c_str(), "w");
	if (!f) { perror(out.c_str()); return 3; }
	fprintf(f, "{\"rc\": %d, \"wall_s\": %.3f, \"runs\": %llu, \"discarded\": %llu, \"timeouts\": %llu, \"nontrivial\": %llu, \"distinct\": %llu, \"known_hits\": %llu, \"sim_seconds\": %.3f, \"steps\": %llu, \"basic_blocks\": %llu, \"ops\": %llu, \"oracle\": %llu, \"faulted_runs\": %llu, \"coverage_pcs\": %u,\n",
		rc, wall, (unsigned long long)S->runs, (unsigned long long)S->discarded, (unsigned long long)S->timeouts, (unsigned long long)S->nontrivial, (unsigned long long)S->distinct, (unsigned long long)S->known_hits, S->simns / 1e9, (unsigned long long)S->steps, (unsigned long long)S->bbs, (unsigned long long)S->ops, (unsigned long long)S->oracle, (unsigned long long)S->faulted, covn);
	fprintf(f, "\"scenarios\": {"); for (u32 i = 0; i < S->nscn; i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", S->scn[i].name, (unsigned long long)S->scn[i].runs);
	fprintf(f, "},\n\"counters\": {"); for (u32 i = 0; i < S->ncounters; i++) fprintf(f, "%s\"%s\": [%llu, %llu]", i ? ", " : "", S->counters[i].name, (unsigned long long)S->counters[i].n, (unsigned long long)S->counters[i].runs);
	fprintf(f, "},\n\"known\": {"); for (u32 i = 0; i < S->nknown; i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", jesc(S->known[i].cls).c_str(), (unsigned long long)S->known[i].n);
	fprintf(f, "},\n\"samples\": ["); for (int i = 0; i < S->nsamples; i++) fprintf(f, "%s\"%s\"", i ? ",\n" : "", jesc(S->samples[i]).c_str());
	fprintf(f, "],\n\"violation\": ");
	if (rc == 1) fprintf(f, "{\"class\": \"%s\", \"detail\": \"%s\", \"scenario\": \"%s\", \"seed\": %llu, \"decisions_before\": %u, \"decisions_after\": %zu, \"minimiser_runs\": %d}", jesc(vcls).c_str(), jesc(vdet).c_str(), sp.scenario.c_str(), (unsigned long long)sp.seed, nent, nmin, min_runs);
	else fprintf(f, "null");
	fprintf(f, "}\n");
	fclose(f);
	return rc;
}
