#include "sim.h"
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <queue>
#include <algorithm>
#include <csignal>
#include <sys/time.h>
#include <ucontext.h>

extern "C" char __executable_start;
extern "C" void sim_text_mark();
namespace sim {
Result *res;
RunSpec spec;
u64 now_;
u8 *cov;
bool faults_on = true;
int fault_budget = 1 << 30;
int faults_fired;
u64 last_fault_at;
u64 syscall_cost = 1000;
u64 time_limit = 3600 * SEC;
u64 step_limit = 3000000;
double preempt_rate = 0;
bool preempt_stall = true, preempt_long = false, track_io = false;
u32 preempt_gap = 400;
u64 callback_delay_max = 0;
u64 imposed = 0;

// ------------------------------------------------------------------ hashing
static u64 mix(u64 x) {
	x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31;
	return x;
}
static u64 fnv(const char *s) { u64 h = 1469598103934665603ull; while (*s) { h ^= (u8)*s++; h *= 1099511628211ull; } return h; }
static void hash_add(const void *d, size_t n) {
	const u8 *p = (const u8 *)d; u64 h = res->hash;
	while (n--) { h ^= *p++; h *= 1099511628211ull; }
	res->hash = h;
}

// ------------------------------------------------------------------ choices
struct KindState { u64 id; u32 ord; };
static std::unordered_map<std::string, KindState> *kinds;
static std::unordered_map<u64, u32> *replay_map;
static std::vector<std::pair<u64, u32>> *replay_preempt;
static size_t replay_preempt_i;

static KindState &kindof(const char *kind) {
	auto it = kinds->find(kind);
	if (it == kinds->end()) it = kinds->emplace(kind, KindState{fnv(kind), 0}).first;
	return it->second;
}
static void record(const char *kind, u32 ord, u32 val) {
	if (res->nentries >= MAX_ENTRIES) { res->overflow = 1; return; }
	Entry &e = res->entries[res->nentries];
	memset(&e, 0, sizeof e);
	strncpy(e.kind, kind, sizeof(e.kind) - 1); e.ord = ord; e.val = val;
	res->nentries++;
}
u32 choose(const char *kind, u32 n, double p) {
	KindState &k = kindof(kind);
	u32 ord = k.ord++;
	u32 v = 0;
	if (n > 1) {
		if (spec.replay) {
			auto it = replay_map->find(mix(k.id + ord));
			if (it != replay_map->end()) v = it->second % n;
		} else {
			u64 h = mix(spec.seed ^ mix(k.id + 0x9E37ull * ord + ord));
			double u = (h >> 11) * (1.0 / 9007199254740992.0);
			if (u < p) v = 1 + (u32)(mix(h + 77) % (n - 1));
		}
	}
	if (v) record(kind, ord, v);
	return v;
}
u32 rnd(const char *kind, u32 n) { return n <= 1 ? 0 : choose(kind, n, (double)(n - 1) / n); }
bool chance(const char *kind, double p) { return choose(kind, 2, p) != 0; }

// ------------------------------------------------------------------ faults
static std::map<std::string, double> *rates;
void set_rate(const char *kind, double p) { (*rates)[kind] = p; }
void clear_rates() { rates->clear(); }
double rate(const char *kind) { auto it = rates->find(kind); return it == rates->end() ? 0 : it->second; }
u32 fault(const char *kind, u32 n) {
	// always drawn, so that ordinals do not depend on the rates (replay files name them)
	double r = faults_on && fault_budget > 0 ? rate(kind) : 0;
	u32 v = choose(kind, n, r);
	if (v) {
		fault_budget--; faults_fired++; last_fault_at = now_;
		count(kind);
		ev("FAULT %s=%u", kind, v);
	}
	return v;
}

// ------------------------------------------------------------------ record
void count(const char *name, u32 n) {
	for (u32 i = 0; i < res->ncounters; i++)
		if (!strncmp(res->counters[i].name, name, sizeof(res->counters[i].name) - 1)) { res->counters[i].n += n; return; }
	if (res->ncounters < MAX_COUNTERS) {
		Counter &c = res->counters[res->ncounters++];
		memset(&c, 0, sizeof c);
		strncpy(c.name, name, sizeof(c.name) - 1); c.n = n;
	}
}
extern FILE *vlog_file;
FILE *vlog_file;
static void vline(const char *s) {
	if (vlog_file) fprintf(vlog_file, "[%12.6f ms T%d] %s\n", now_ / 1e6, cur_task_id(), s);
}
void ev(const char *fmt, ...) {
	char b[600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (n > (int)sizeof b - 1) n = sizeof b - 1;
	hash_add(&now_, sizeof now_); hash_add(b, n);
	vline(b);
}
void evbytes(const char *tag, const void *d, size_t n) {
	hash_add(&now_, sizeof now_); hash_add(tag, strlen(tag)); hash_add(d, n);
	if (vlog_file) vline((std::string(tag) + " " + hex(d, n)).c_str());
}
void note(const char *fmt, ...) {
	if (!vlog_file) return;
	char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	vline(b);
}
std::string hex(const void *d, size_t n) {
	std::string s; char b[4]; const u8 *p = (const u8 *)d;
	for (size_t i = 0; i < n; i++) { if (i >= 400) { s += "..."; break; } snprintf(b, 4, "%02x", p[i]); if (i) s += ' '; s += b; }
	return s;
}
void sample(const char *fmt, ...) {
	size_t l = strlen(res->sample);
	va_list ap; va_start(ap, fmt); vsnprintf(res->sample + l, sizeof(res->sample) - l, fmt, ap); va_end(ap);
}
void finish_run(int status) {
	res->simtime = now_;
	hash_add(&now_, sizeof now_); hash_add(&res->bbs, sizeof res->bbs); hash_add(&res->steps, sizeof res->steps);
	if (vlog_file) fflush(vlog_file);
	__sync_synchronize();
	res->status = status;
	_exit(status == 3 ? 33 : 0);
}
static const char *cur_op = "";
static u32 act_serial = 0, io_last = 0; static std::set<u32> *io_closed;
static void new_act();
// the traffic of one activity (a library call of the application, a timer callback) with the port is never mixed with another's
void io_mark(u32 act) {
	if (!track_io || act == io_last) return;
	if (!io_closed) io_closed = new std::set<u32>;
	if (io_last) io_closed->insert(io_last);
	io_last = act; res->oracle++; count("p.io");
	if (io_closed->count(act)) violation("mix:overlap", "two activities used the port at the same time (application in %s)", cur_op);
}
void set_op(const char *n) { cur_op = n; ev("op %s", n); res->ops++; new_act(); }
void violation(const char *cls, const char *fmt, ...) {
	va_list ap; va_start(ap, fmt); vsnprintf(res->detail, sizeof res->detail, fmt, ap); va_end(ap);
	snprintf(res->cls, sizeof res->cls, "%s", cls);
	ev("VIOLATION %s", cls);
	note("%s", res->detail);
	finish_run(2);
}
void internal_error(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt); vsnprintf(res->detail, sizeof res->detail, fmt, ap); va_end(ap);
	snprintf(res->cls, sizeof res->cls, "internal");
	finish_run(3);
}

// ------------------------------------------------------------------ events
struct Event { u64 t, id; std::function<void()> f; };
struct EvCmp { bool operator()(const Event *a, const Event *b) const { return a->t != b->t ? a->t > b->t : a->id > b->id; } };
static std::priority_queue<Event *, std::vector<Event *>, EvCmp> *evq;
static std::set<u64> *cancelled;
static u64 ev_id;
u64 at(u64 t, std::function<void()> f) {
	if (t < now_) t = now_;
	Event *e = new Event{t, ++ev_id, std::move(f)};
	evq->push(e);
	return e->id;
}
void cancel(u64 id) { if (id) cancelled->insert(id); }
static bool run_due() {
	bool any = false;
	while (!evq->empty() && evq->top()->t <= now_) {
		Event *e = evq->top(); evq->pop();
		auto c = cancelled->find(e->id);
		if (c != cancelled->end()) cancelled->erase(c); else { e->f(); any = true; }
		delete e;
	}
	return any;
}

// ------------------------------------------------------------------ tasks
struct Task {
	int id; std::string name; std::function<void()> f;
	pthread_t th; sem_t sem;
	enum { RUN, BLOCK, DONE } st = RUN;
	const std::function<bool()> *ready = nullptr; u64 deadline = 0;
	u64 stall_until = 0; u32 act = 0;
};
static std::vector<Task *> *tasks;
static Task *cur;
static bool started;
static u64 next_preempt = ~0ull;
static u64 bb;
static u64 bb_last_sys;
static u64 op_dl;
static bool in_sim;

bool is_main() { return cur && cur->id == 0; }
static void new_act() { if (cur && cur->id == 0) cur->act = ++act_serial; }
void io_mark() { if (cur) io_mark(cur->act); }
int cur_task_id() { return cur ? cur->id : -1; }
int live_tasks() { int n = 0; for (auto t : *tasks) if (t->st != Task::DONE) n++; return n; }
void op_deadline(u64 t) { op_dl = t; }

static bool runnable(Task *t) {
	if (t->st == Task::DONE) return false;
	if (t->stall_until > now_) return false;
	if (t->st == Task::RUN) return true;
	if (t->ready && (*t->ready)()) return true;
	return t->deadline <= now_;
}
static void limits() {
	if (now_ > time_limit) violation("hang:time", "virtual time limit exceeded during '%s' (t=%.3f s)", cur_op, now_ / 1e9);
	if (op_dl && now_ > op_dl) violation("hang:op", "operation '%s' still running at %.3f s, deadline %.3f s", cur_op, now_ / 1e9, op_dl / 1e9);
	if (res->steps > step_limit) violation("hang:steps", "step limit exceeded during '%s'", cur_op);
}
static void plan_preempt() {
	if (spec.replay) {
		while (replay_preempt_i < replay_preempt->size() && (*replay_preempt)[replay_preempt_i].first <= bb) replay_preempt_i++;
		next_preempt = replay_preempt_i < replay_preempt->size() ? (*replay_preempt)[replay_preempt_i].first : ~0ull;
		return;
	}
	if (preempt_rate <= 0 || live_tasks() < 2) { next_preempt = ~0ull; return; }
	u64 h = mix(spec.seed ^ mix(0xABCDEF ^ bb));
	double u = ((h >> 11) + 1) * (1.0 / 9007199254740993.0);
	// log-uniform gap: mixes very short and long distances
	double g = exp(u * log((double)preempt_gap * 20 + 2));
	next_preempt = bb + 1 + (u64)g;
}
static void switch_to(Task *t) {
	Task *me = cur;
	if (t == me) return;
	cur = t;
	hash_add(&t->id, sizeof t->id);
	sem_post(&t->sem);
	if (me->st != Task::DONE) { while (sem_wait(&me->sem)) {} }
}
// pick a runnable task, advancing time as needed
static Task *pick_task(const char *kind) {
	for (;;) {
		run_due();
		std::vector<Task *> r;
		for (auto t : *tasks) if (runnable(t)) r.push_back(t);
		if (!r.empty()) {
			if (r.size() == 1) return r[0];
			// default: keep the current task, else the lowest id
			auto it = std::find(r.begin(), r.end(), cur);
			if (it != r.end()) std::swap(*r.begin(), *it);
			return r[choose(kind, (u32)r.size(), 0.5)];
		}
		u64 nt = ~0ull;
		if (!evq->empty()) nt = evq->top()->t;
		for (auto t : *tasks) {
			if (t->st == Task::DONE) continue;
			u64 w = t->st == Task::BLOCK ? t->deadline : now_;
			if (t->stall_until > w) w = t->stall_until;
			// a stalled task whose condition is ready becomes runnable at stall end
			if (t->stall_until > now_) w = std::min(w, t->stall_until);
			if (w > now_ && w < nt) nt = w;
		}
		if (nt == ~0ull) violation("hang:deadlock", "all tasks blocked for ever during '%s'", cur_op);
		if (nt > now_) now_ = nt;
		limits();
	}
}
static void gc_tasks();
void wait_on(const std::function<bool()> &ready, u64 deadline) {
	in_sim = true;
	Task *me = cur;
	me->st = Task::BLOCK; me->ready = &ready; me->deadline = deadline;
	Task *t = pick_task("sched.block");
	if (t == me) { me->st = Task::RUN; in_sim = false; bb_last_sys = bb; plan_preempt(); return; }
	if (t->st == Task::BLOCK) t->st = Task::RUN;
	in_sim = false;
	plan_preempt();
	switch_to(t);
	me->st = Task::RUN; me->ready = nullptr;
	bb_last_sys = bb;
	limits();
}
static const std::function<bool()> never = []() { return false; };
void sleep_until(u64 t) { wait_on(never, t); }
static void maybe_switch(const char *kind, double p) {
	std::vector<Task *> r;
	for (auto t : *tasks) if (t != cur && runnable(t)) r.push_back(t);
	if (r.empty()) return;
	u32 v = choose(kind, (u32)r.size() + 1, p);
	if (!v) return;
	Task *t = r[v - 1];
	if (t->st == Task::BLOCK) t->st = Task::RUN;
	plan_preempt();
	switch_to(t);
}
void syscall_point(const char *what) {
	in_sim = true;
	(void)what;
	res->steps++;
	bb_last_sys = bb;
	now_ += syscall_cost;
	run_due();
	limits();
	in_sim = false;
	if (preempt_rate > 0 && live_tasks() > 1) maybe_switch("sched.sys", preempt_rate);
}
static void do_preempt() {
	// at a basic block boundary inside the code under test
	in_sim = true;
	std::vector<Task *> r;
	for (auto t : *tasks) if (t != cur && runnable(t)) r.push_back(t);
	u32 v;
	if (spec.replay) v = (*replay_preempt)[replay_preempt_i].second;
	else { u64 h = mix(spec.seed ^ mix(0x777 + bb)); v = 1 + (u32)(h % (preempt_stall ? 7 : 5)); if (preempt_long && v == 7 && (h >> 32) % 8 < 3) v = 8 + (u32)((h >> 40) % 3); if (r.empty() && v < 5) v = 0; }
	if (!v) { plan_preempt(); in_sim = false; return; }
	record("preempt", (u32)bb, v);
	count("s.preempt");
	ev("preempt bb=%llu", (unsigned long long)bb);
	Task *me = cur; u64 stall = 0;
	if (v >= 5) { static const u64 st[] = {60 * US, 2 * MS, 40 * MS, 200 * MS, 900 * MS, 4 * SEC}; stall = st[std::min<u32>(v - 5, 5)]; }   // starved for a while
	if (op_dl && stall >= 200 * MS) op_dl += stall;
	if (r.empty()) { plan_preempt(); in_sim = false; if (stall) sleep_until(now_ + stall); return; }
	me->stall_until = now_ + stall;
	Task *t = r[v % r.size()];
	if (t->st == Task::BLOCK) t->st = Task::RUN;
	plan_preempt();
	in_sim = false;
	switch_to(t);
}
static void *task_main(void *a) {
	Task *t = (Task *)a;
	while (sem_wait(&t->sem)) {}
	for (;;) {
		t->f();
		in_sim = true;
		ev("task end %d", t->id);
		t->st = Task::DONE;
		t->ready = nullptr;
		Task *n = pick_task("sched.end");
		if (n->st == Task::BLOCK) n->st = Task::RUN;
		plan_preempt();
		in_sim = false;
		cur = n;
		hash_add(&n->id, sizeof n->id);
		sem_post(&n->sem);
		while (sem_wait(&t->sem)) {}
	}
	return nullptr;
}
Task *spawn(const char *name, std::function<void()> f) {
	// reuse a finished task's thread
	Task *t = nullptr;
	for (auto x : *tasks) if (x->st == Task::DONE && x->id != 0) { t = x; break; }
	if (t) { t->f = std::move(f); t->name = name; t->st = Task::RUN; t->stall_until = 0; }
	else {
		t = new Task; t->id = (int)tasks->size(); t->name = name; t->f = std::move(f);
		sem_init(&t->sem, 0, 0);
		tasks->push_back(t);
		pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, !strcmp(name, "program") ? 16 << 20 : 1 << 20);
		if (pthread_create(&t->th, &at, task_main, t)) internal_error("pthread_create");
		pthread_attr_destroy(&at);
	}
	t->act = ++act_serial;
	plan_preempt();
	return t;
}
// A loop of freediag without system calls and without basic blocks (an empty or fully folded one): once per second
// of CPU time; six in a row without any progress are a hang. Nothing else in the simulation depends on real time.
static void cpu_tick(int, siginfo_t *, void *uc) {
	static u64 last_bb, last_steps; static int idle_ticks;
	if (!started) return;
	if (bb != last_bb || res->steps != last_steps) { last_bb = bb; last_steps = res->steps; idle_ticks = 0; return; }
	u64 pc = (u64)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
	if (++idle_ticks >= 6 && pc >= (u64)&__executable_start && pc < (u64)&sim_text_mark) { in_sim = true; violation("hang:compute", "6 s of CPU time in an endless loop during '%s'", cur_op); }
}
void start(std::function<void()> mainf) {
	kinds = new std::unordered_map<std::string, KindState>;
	replay_map = new std::unordered_map<u64, u32>;
	replay_preempt = new std::vector<std::pair<u64, u32>>;
	rates = new std::map<std::string, double>;
	evq = new std::priority_queue<Event *, std::vector<Event *>, EvCmp>;
	cancelled = new std::set<u64>;
	tasks = new std::vector<Task *>;
	for (auto &e : spec.entries) {
		if (!strcmp(e.kind, "preempt")) replay_preempt->push_back({e.ord, e.val});
		else (*replay_map)[mix(fnv(e.kind) + e.ord)] = e.val;
	}
	std::sort(replay_preempt->begin(), replay_preempt->end());
	res->hash = 1469598103934665603ull;
	now_ = 0;
	Task *m = new Task; m->id = 0; m->name = "main"; sem_init(&m->sem, 0, 0);
	tasks->push_back(m);
	cur = m;
	{
		struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = cpu_tick; sa.sa_flags = SA_SIGINFO | SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
		struct itimerval it = {{1, 0}, {1, 0}}; setitimer(ITIMER_PROF, &it, nullptr);
	}
	started = true;
	libc_reset();
	plan_preempt();
	mainf();
	finish_run(1);
}
} // namespace sim

extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc(void) {
	using namespace sim;
	if (!started || in_sim) return;
	u64 pc = (u64)__builtin_return_address(0);
	if (cov) cov[(pc - (u64)&__executable_start) & (COV_SIZE - 1)] = 1;
	bb++;
	res->bbs = bb;
	if (bb >= next_preempt) do_preempt();
	if (bb - bb_last_sys > 40000000ull)
		violation("hang:compute", "40M basic blocks without a system call during '%s'", cur_op);
}
