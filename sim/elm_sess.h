// Sessions through the model adapter.
#pragma once
#include "elm.h"
namespace {
u8 j_crc(const Bytes &b) { u8 c = 0xff; for (u8 x : b) { c ^= x; for (int i = 0; i < 8; i++) c = c & 0x80 ? (u8)(c << 1 ^ 0x1d) : (u8)(c << 1); } return ~c; }
struct EL {
	Elm e; Sess s; size_t a0; int l1 = DIAG_L1_J1850_VPW; std::deque<std::vector<ElmRsp>> plan; std::vector<Bytes> got; int inits = 0; bool init_ok = true; bool bogus = true;
	EL() { a0 = live_allocs(); }
	void setup(bool need327) {
		e.is327 = need327 || rnd("k.327", 4); static const char *off[] = {"1.0a", "1.1", "1.2a", "1.3", "1.3a", "1.4b", "2.0"}, *cl[] = {"1.4a", "1.4", "1.5", "1.5a", "2.1", "9.9"};
		if (!e.is327) e.ver = "2.0"; else if (chance("k.clone", 0.35)) { e.clone = true; e.ver = cl[rnd("v.ver", 6)]; } else e.ver = off[rnd("v.ver", 7)];
		static const unsigned bd[] = {38400, 38400, 9600, 115200}; e.baud = bd[rnd("v.baud", 4)];
		e.lf_default = chance("k.lf", 0.4); e.spaces_end = !chance("k.nosp", 0.3); e.treset = (300 + rnd("v.reset", 700)) * MS; e.tcmd = (1 + rnd("v.tcmd", 40)) * MS;
		static const u64 sts[] = {200, 100, 40, 150}; e.st = sts[rnd("k.st", 4)] * MS; e.power();
		if (chance("k.dirty", 0.3)) { e.L = true; e.H = chance("k.h", 0.5); e.in = "\xff\x01 zz"; }
		e.request = [this](const Bytes &h, const Bytes &d) { got.push_back(d); std::vector<ElmRsp> v; if (!plan.empty()) { v = plan.front(); plan.pop_front(); } else if (bogus && d == Bytes({1, 0})) { ElmRsp r; r.f = {0x48, 0x6B, 0x10, 0x41, 0, 1, 2, 3, 4}; if (l1 == DIAG_L1_ISO14230) r.f = {0x86, (u8)(h.size() > 2 ? h[2] : 0xF1), 0x10, 0x41, 0, 1, 2, 3, 4}; r.f.push_back(cks(r.f)); v.push_back(r); } return v; };
		e.businit = [this](bool) { inits++; return init_ok; };
	}
	bool up(bool custom = false) {
		lib_up(); FaultsOff f; if (s.add("ELM", "/dev/ttyS0", &e)) VIOL("setup", "creating the interface failed");
		if (custom) set_cfg(s.dl0d, "elmspeed", nullptr, e.baud);
		static const u64 ch[] = {0, 0, 1 * MS, 4 * MS, 16 * MS}; s.t->rx_chunk = ch[rnd("k.chunk", 5)];
		return true;
	}
	bool open() { op_deadline(now() + 30 * SEC); bool r = s.open(l1); op_deadline(0); return r; }
	void open_good() {
		if (!open()) VIOL("open:refused", "opening a healthy %s v%s at %u failed", e.is327 ? "ELM327" : "ELM323", e.ver.c_str(), e.baud);
		CHECK(s.t->cur.ospeed == e.baud, "open:speed", "the port runs at %u, the adapter at %u", s.t->cur.ospeed, e.baud);
		CHECK(!e.E && !e.L && e.H && (!e.is327 || !e.M), "open:settings", "adapter settings after opening: echo %d linefeeds %d headers %d memory %d", e.E, e.L, e.H, e.M);
		CHECK(e.resets > 0, "open:reset", "the adapter was not reset");
		if (e.is327) CHECK(e.tp == (l1 == DIAG_L1_J1850_PWM ? 1 : l1 == DIAG_L1_J1850_VPW ? 2 : l1 == DIAG_L1_ISO9141 ? 3 : 0), "open:protocol", "protocol %d selected", e.tp);
	}
	void settle(u64 t = 0) { op_deadline(0); e.settle(t); }
	void early() { CHECK(e.early == 0, "elm:early", "%d characters were sent to the adapter before its prompt", e.early); }
	void finish() { op_deadline(now() + 60 * SEC); s.down(); lib_down(); op_deadline(0); end_checks(a0); }
};
}
