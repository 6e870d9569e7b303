// Deterministic simulator core: virtual time, tasks, choices, faults, run record.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <deque>
#include <functional>
#include <map>
#include <unordered_map>
#include <set>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;
typedef std::vector<u8> Bytes;

#define US 1000ull
#define MS 1000000ull
#define SEC 1000000000ull

// ---------------------------------------------------------------- run record
struct Entry { char kind[20]; u32 ord; u32 val; };
#define MAX_ENTRIES 12000
#define MAX_COUNTERS 160
struct Counter { char name[28]; u32 n; };
struct Result {
	volatile int status;          // 0 running, 1 ok, 2 violation, 3 internal error, 4 discarded
	char tag[24];                 // names the command during which a crash counts as a listed finding
	char cls[160];
	char detail[3000];
	u64 hash, simtime, steps, bbs, ops, oracle;
	u32 nentries; u32 overflow;
	u32 ncounters;
	Counter counters[MAX_COUNTERS];
	char sample[1500];
	Entry entries[MAX_ENTRIES];
};

struct RunSpec {
	std::string scenario;
	u64 seed = 0;
	bool replay = false;
	bool verbose = false;
	std::vector<Entry> entries;   // replay: nonzero choices
};

namespace sim {

extern Result *res;
extern RunSpec spec;
extern u64 now_;               // virtual ns
extern u8 *cov;                // coverage map shared
#define COV_SIZE (1u << 22)      // one cell per byte of program text
inline u64 now() { return now_; }

// ---------------------------------------------------------------- choices
// value 0 is always the benign default. p = probability of a nonzero value.
u32 choose(const char *kind, u32 n, double p);
u32 rnd(const char *kind, u32 n);                      // uniform 0..n-1
inline u64 range(const char *kind, u64 lo, u64 hi) {   // uniform, lo is the default
	return lo + rnd(kind, (u32)(hi - lo + 1));
}
template <class T> const T &pick(const char *kind, const std::vector<T> &v) { return v[rnd(kind, (u32)v.size())]; }
bool chance(const char *kind, double p);

// small deterministic PRNG for payload material, seeded from one choice
struct Prng {
	u64 s;
	explicit Prng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
	u64 next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
	u32 below(u32 n) { return n ? (u32)((next() >> 33) % n) : 0; }
	u8 byte() { return (u8)(next() >> 40); }
};

// ---------------------------------------------------------------- faults
// A fault kind fires with the rate set for this run (default 0), within the fault budget, when enabled.
void set_rate(const char *kind, double p);
void clear_rates();
double rate(const char *kind);
u32 fault(const char *kind, u32 n = 2);   // 0 = no fault; counted when nonzero
extern bool faults_on;
extern int fault_budget;                   // remaining faults in this run
extern int faults_fired;
extern u64 last_fault_at;

// ---------------------------------------------------------------- record
void count(const char *name, u32 n = 1);          // counters (faults are "f.*", probes "p.*")
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // event log: goes into the hash
void evbytes(const char *tag, const void *d, size_t n);
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // verbose only, not hashed
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void internal_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish_run(int status);
inline void oracle(u32 n = 1) { res->oracle += n; }
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const void *d, size_t n);
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }

// ---------------------------------------------------------------- time and events
u64 at(u64 t, std::function<void()> f);           // returns id
inline u64 after(u64 dt, std::function<void()> f) { return at(now_ + dt, std::move(f)); }
void cancel(u64 id);
void syscall_point(const char *what);             // cost, due events, possible task switch
void sleep_until(u64 t);                          // blocks the current task
void wait_on(const std::function<bool()> &ready, u64 deadline); // blocks until ready() or deadline
extern u64 syscall_cost;
extern u64 time_limit;                            // virtual time limit of the run (hang)
extern u64 step_limit;
void set_op(const char *name);                    // operation in progress (for hang reports)
void op_deadline(u64 t);                          // 0 = none: the current operation must return by then (virtual)

// ---------------------------------------------------------------- tasks
struct Task;
Task *spawn(const char *name, std::function<void()> f);
bool is_main();
int cur_task_id();
int live_tasks();
void start(std::function<void()> main);           // runs the simulation in this process
extern double preempt_rate;                       // 0 = no preemption inside code
extern u32 preempt_gap;                           // mean gap in basic blocks
extern u64 imposed;                               // delay imposed on the program so far by injected slowness (ns)
extern u64 callback_delay_max;                    // start latency of timer callbacks

// ---------------------------------------------------------------- libc state
void libc_reset();
size_t live_allocs();
std::string describe_leaks();
int open_fds();
extern bool malloc_fail_enabled;
extern u64 malloc_fail_at;                        // 0 = none, else n-th allocation fails
extern u64 malloc_count;
extern bool alloc_tracking;
int timers_alive();
extern std::vector<u64> ticks;                    // when the periodic callbacks started
void io_mark();
extern bool track_io;                             // check that activities do not mix on the port
extern bool preempt_long;                         // ... for seconds
extern bool preempt_stall;                        // a preempted task may also be kept off the processor for a while
extern std::vector<std::string> rl_offered;       // what readline offers for TAB
extern std::string rl_prompt;                     // what was shown before the last line
extern std::vector<std::string> cli_input;        // lines for readline/fgets(stdin)
// the terminal of a whole-program run
struct Console { virtual ~Console() {} virtual bool line(std::string &l) = 0; virtual int key() = 0; virtual bool eof() = 0; virtual void exited(int code) = 0; };
extern Console *console;
extern u64 oversleep_max;                         // legal sleep latency
extern i64 wall_offset;                           // wall clock offset
extern u64 mono_base;
}

#define VIOL(cls, ...) sim::violation(cls, __VA_ARGS__)
#define CHECK(c, cls, ...) do { sim::oracle(); if (!(c)) sim::violation(cls, __VA_ARGS__); } while (0)
