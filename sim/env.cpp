#include "env.h"
#include <cmath>
void host_good() {
	static const u64 cost[] = {1000, 500, 5000, 20000};
	syscall_cost = cost[rnd("k.cost", 4)];
	static const u64 os[] = {0, 60000, 120000};
	oversleep_max = os[rnd("k.slack", 3)];
}
void host_any() {
	static const u64 cost[] = {1000, 500, 5000, 20000, 100000};
	syscall_cost = cost[rnd("k.cost", 5)];
	static const u64 os[] = {0, 60000, 300000, 1000000, 4000000, 10000000};
	oversleep_max = os[rnd("k.slack", 6)];
}
void swarm(std::initializer_list<const char *> kinds, double pk, double lo, double hi) {
	for (auto k : kinds) {
		char n[32]; snprintf(n, sizeof n, "k.%s", k + 2);
		u32 v = choose(n, 17, pk);
		set_rate(k, v ? lo * pow(hi / lo, (v - 1) / 15.0) : 0);
	}
}
u32 count_of(const char *k) { for (u32 j = 0; j < res->ncounters; j++) if (!strcmp(res->counters[j].name, k)) return res->counters[j].n; return 0; }
void os_up() { FaultsOff f; diag_os_calibrate(); }
bool whole_program;
void lib_up() { if (whole_program) return; FaultsOff f; if (diag_init()) internal_error("diag_init failed"); }
void lib_down() { if (whole_program) return; diag_end(); }
Bytes rnd_bytes(const char *kind, size_t n) {
	Prng p(choose(kind, 1u << 30, 1.0));
	Bytes b(n); for (auto &x : b) { u8 v = p.byte(); u32 m = p.below(8); x = m == 0 ? 0 : m == 1 ? 0xff : v; }
	return b;
}
Op::Op(const char *n, u64 max_ns) : t0(now()), imp0(imposed), name(n) { set_op(n); if (max_ns) op_deadline(now() + max_ns); else op_deadline(0); }
