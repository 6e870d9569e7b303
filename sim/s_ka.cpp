// C17-C19: keep-alives, their interplay with the application, lifecycle.
#include "ka.h"
namespace {
// the session has been idle from a to now: keep-alives came in time and nothing else was sent
void idle_ok(KS &k, u64 a, size_t n0, size_t oth0, u64 late) {
	auto v = k.kas(); u64 prev = a, low = k.keeps() ? gap_to_prev(k.bus(), a) : a; size_t n = 0; u64 tol = 2 * MS + 12 * MS;    // the driver's clock has ms resolution, a frame is seen from its first or last byte
	if (!k.keeps()) { CHECK(v.size() == n0 && k.other() == oth0, "ka:adapter", "keep-alives were sent although the interface does it"); return; }
	CHECK(k.other() == oth0, "ka:other", "an idle %s session sent something that is no keep-alive", k.name);
	for (size_t i = n0; i < v.size(); i++, n++) {
		u64 t = v[i]; u64 g = t - std::min(t, prev);
		if (i == n0) CHECK(t - low + tol >= k.interval, "ka:early", "%s: a keep-alive only %.3f s after the application's last traffic (interval %.3f s)", k.name, (t - low) / 1e9, k.interval / 1e9);
		CHECK(g <= k.interval + 300 * MS + late + k.dur, "ka:late", "%s: %.3f s without a keep-alive (interval %.3f s)", k.name, g / 1e9, k.interval / 1e9);
		prev = t;
	}
	u64 g = now() - prev; CHECK(g <= k.interval + 300 * MS + late + k.dur, "ka:missing", "%s: no keep-alive for %.3f s (interval %.3f s)", k.name, g / 1e9, k.interval / 1e9);
	CHECK(k.alive(), "ka:session", "the ECU gave an idle %s session up", k.name); count("p.ka", (u32)n);
}
}
namespace {
// another port that is only listened to, beside the session
struct Watch {
	KLine bus; Sess s; bool on = false, first = false;
	Watch() { on = chance("k.watch", 0.3); first = rnd("k.wfirst", 2); }
	void up(bool now_) { if (!on || s.dl0d || !(now_ || first)) return; if (s.add("DUMB", "/dev/ttyS1", &bus, 0x48)) VIOL("setup", "creating the second interface failed"); if (!s.open(DIAG_L1_ISO14230) || !s.start(DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_MONINIT, 0, 0x33, 0xF1)) VIOL("monitor:refused", "monitoring could not be started"); count("p.watch"); }
	void down() { if (!on || !s.dl0d) return; CHECK(bus.bus.empty(), "ka:monitor", "something was sent in monitor mode"); s.down(); }
};
}
SCENARIO("C17", ka_idle, 2) {
	host_good(); auto kp = make_ks(); KS &k = *kp; Watch wt; k.up(); static const u64 cb[] = {0, 0, 10 * MS, 50 * MS}; callback_delay_max = cb[rnd("k.cbmax", 4)]; wt.up(k.interval < 1 * SEC);
	int rounds = 1 + rnd("n.rounds", 2);
	while (rounds--) {
		size_t s0 = k.sent(); idle(rnd("v.before", 6000) * MS); CHECK(k.sent() == s0, "ka:closed", "%s: something was sent before a session was started", k.name);
		k.start(); int n = 1 + rnd("n.ex", 6); wt.up(true);
		if (chance("k.justidle", 0.3)) { u64 a = now(); size_t n0 = k.kas().size(), o0 = k.other(); idle((k.interval > 1 * SEC ? rnd("v.idle", 12000) : rnd("v.idle", 3000)) * MS); idle_ok(k, a, n0, o0, callback_delay_max); }
		while (n--) {
			if (chance("k.poll", 0.15) && k.polls()) {
				// the application keeps asking whether something came: that is no traffic
				k.ex(); u64 a = now(); size_t n0 = k.kas().size(), o0 = k.other(); u32 m = 4 + rnd("n.poll", 30); while (m--) { k.listen(10 + rnd("v.listen", 140)); idle((330 + rnd("v.pgap", 300)) * MS); }
				idle_ok(k, a, n0, o0, callback_delay_max + 500 * MS); count("p.poll");
			}
			if (rnd("k.ex", 4)) k.ex(); else idle(10 * MS);
			u64 a = now(); size_t n0 = k.kas().size(), o0 = k.other(); if (n0 && a - k.kas().back() < 2 * SEC) { }
			// several exchanges shorter than the interval apart: no keep-alive in between
			if (chance("k.busy", 0.4)) { int m = 2 + rnd("n.busy", 6); while (m--) { u64 p = k.interval > 1 * SEC ? rnd("v.pause", 3000) : rnd("v.pause", 400); size_t x = k.kas().size(); k.ex(); u64 b = k.keeps() ? gap_to_prev(k.bus(), now()) : now(); idle(p * MS); if (k.keeps() && k.kas().size() != x) { u64 t = k.kas()[x]; if (t > b) CHECK(t - b + 15 * MS >= k.interval, "ka:early", "%s: a keep-alive %.3f s after an exchange", k.name, (t - b) / 1e9); } } k.ex(); a = now(); n0 = k.kas().size(); o0 = k.other(); }
			else { k.ex(); a = now(); n0 = k.kas().size(); o0 = k.other(); }
			u64 len = k.interval > 1 * SEC ? rnd("v.idle", chance("k.long", 0.2) ? 60000 : 12000) : rnd("v.idle", chance("k.long", 0.2) ? 20000 : 3000);
			idle(len * MS); if (k.keeps() && chance("k.phase", 0.3) && !k.kas().empty()) { u64 t = k.kas().back() + k.interval + rnd("v.phase", 400) * MS; if (t > now()) idle(t - now()); }
			idle_ok(k, a, n0, o0, callback_delay_max);
			if (rnd("k.after", 2)) k.ex();
			if (k.keeps() && chance("k.unanswered", 0.3) && k.mute(true)) { count("p.unanswered"); size_t x = k.kas().size(); idle(k.interval + 500 * MS + callback_delay_max + rnd("v.mute", 600) * MS); k.mute(false); idle(rnd("v.mute2", 3000) * MS); CHECK(k.kas().size() > x, "ka:missing", "%s: no keep-alive", k.name); if (rnd("k.after", 4)) k.ex(); }
		}
		CHECK(k.bad().empty(), "ka:malformed", "%s: the ECU saw a malformed frame [%s]", k.name, k.bad().c_str());
		k.stop(); if (k.bus().tty) k.bus().settle(100 * MS); s0 = k.sent(); idle((k.recovery() / MS + rnd("v.after", 6000)) * MS); CHECK(k.sent() == s0, "ka:closed", "%s: something was sent after the session was closed", k.name);
	}
	wt.down();
	sample("idle %s session, %u keep-alives", k.name, count_of("p.ka")); k.finish();
}
SCENARIO("C17", ka_monitor, 0.3) {
	host_good(); KW k; k.setup(); k.up(); size_t s0 = k.bus.bus.size(); set_op("start"); bool ok = k.s.start(DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_MONINIT | (rnd("k.i", 2) ? DIAG_L2_IDLE_J1978 : 0), 0, k.tgt, k.src); CHECK(ok, "monitor:refused", "monitoring could not be started");
	int n = 1 + rnd("n.rx", 4); while (n--) { idle(rnd("v.idle", 15000) * MS); CHECK(k.bus.bus.size() == s0, "ka:monitor", "something was sent in monitor mode"); if (rnd("k.rx", 2)) { auto r = l2_recv(k.s.conn, 1 + rnd("v.to", 3000), 20 * SEC); CHECK(r.null, "monitor:rx", "something was received"); } }
	k.finish(); sample("monitor mode");
}
SCENARIO("C17", ka_faults, 1.5) {
	host_any(); auto kp = make_ks(); KS &k = *kp; k.up(); { u64 o = oversleep_max; oversleep_max = 0; k.start(); oversleep_max = o; } int n = 1 + rnd("n.ex", 5);
	swarm({"f.tmr.lost", "f.tmr.late", "f.ecu.silent", "f.ecu.late", "f.ecu.badcs", "f.bus.drop", "f.bus.flip", "f.bus.gap", "f.bus.noise", "f.bus.trunc", "f.bus.dup", "f.read.eio", "f.write.eio", "f.sel.err", "f.sel.late", "f.oversleep", "f.echo.lost", "f.echo.flip", ELM_FAULTS}, 0.15, 0.001, 0.1);
	while (n--) {
		if (rnd("k.mute", 4) == 1) { k.mute(true); count("f.ka.unanswered"); } idle(rnd("v.idle", 15000) * MS); k.mute(false);
		if (rnd("k.ex", 2)) k.any_ex(); else idle(rnd("v.idle2", 3000) * MS);
	}
	FaultsOff off; clear_rates(); oversleep_max = 0; if (k.bus().tty) k.bus().settle(500 * MS); size_t k0 = k.kas().size(); idle(k.interval + 2500 * MS);
	bool was = k.alive() && k.insync(k0); if (was && k.keeps()) {
		// the session survived: keep-alives go on
		u64 a = now(); size_t n0 = k.kas().size(); idle((k.interval > 1 * SEC ? 12000 : 4000) * MS); size_t got = k.kas().size() - n0; CHECK(k.alive(), "ka:session", "%s: the ECU gave the session up after the faults had stopped", k.name); CHECK(got >= 2, "ka:stopped", "%s: %zu keep-alives in %.1f s after the faults had stopped", k.name, got, (now() - a) / 1e9);
		count("p.survived");
	}
	idle(k.recovery()); k.stop(); idle(k.recovery()); for (int i = 0;; i++) { if (k.try_start()) break; CHECK(i < 3, "recovery:start", "%s: no start possible after the faults had stopped", k.name); idle(k.recovery()); }
	sample("%s session under faults", k.name); k.stop(); idle(500 * MS); k.finish();
}

// ---------------------------------------------------------------- C18
namespace {
int *const dbg[] = {&diag_l0_debug, &diag_l1_debug, &diag_l2_debug, &diag_l3_debug, &diag_cli_debug};
struct Dbg {
	int v[5]; bool on;
	Dbg() { on = chance("k.debug", 0.4); for (int i = 0; i < 5; i++) v[i] = *dbg[i]; }
	~Dbg() { for (int i = 0; i < 5; i++) *dbg[i] = 0; }
	void check(const char *w) { for (int i = 0; i < 5; i++) CHECK(*dbg[i] == v[i], "mix:setting", "the debug setting of layer %d changed from %x to %x by itself (%s)", i, v[i], *dbg[i], w); }
	void set() { if (!on || !chance("k.dbgset", 0.3)) return; check("before setting it"); int i = rnd("v.dbgl", 5); static const int m[] = {0, DIAG_DEBUG_TIMER, DIAG_DEBUG_OPEN, DIAG_DEBUG_CLOSE, DIAG_DEBUG_INIT, DIAG_DEBUG_IOCTL, 0x4000, DIAG_DEBUG_TIMER | DIAG_DEBUG_OPEN}; v[i] = *dbg[i] = m[rnd("v.dbgv", 8)]; }
};
// wait for a moment around the next keep-alive
void to_phase(KS &k) {
	u64 next = 0; auto v = k.kas(); if (k.keeps() && !v.empty() && rnd("k.ph", 3)) next = v.back() + k.interval + rnd("v.phs", 400) * MS;
	else if (!ticks.empty()) { u32 n = k.interval / MS / 300 + rnd("v.nt", 3); next = ticks.back() + n * 300 * MS; next += rnd("v.phu", 4) ? rnd("v.phs2", 3000) * US : rnd("v.phm", 300) * MS; if (rnd("k.bef", 2)) next -= rnd("v.phb", 2000) * US; }
	if (next > now()) idle(next - now());
	if (chance("k.extra", 0.3)) idle(rnd("v.extra", 700) * MS);
}
void mix(KS &k, Dbg &d, int n) {
	bool listened = false; u64 late = 0;               // the application's own receives keep the keep-alive off the bus
	while (n--) {
		d.check("idle"); d.set(); to_phase(k); d.check("after idling"); d.set();
		u32 act = rnd("k.act", 6); if (act == 1 && listened) act = 2; listened = act == 1;
		switch (act) { case 0: { u64 lim = (k.interval > 1 * SEC ? 900 : 150); u64 w = rnd("k.w", 2) ? rnd("v.w", (u32)lim) : rnd("v.ws", 30); k.split(w * MS); late = w; break; } case 1: k.listen(1 + rnd("v.listen", (u32)(late < 800 ? std::min<u64>(600, 900 - late) : 100))); break; default: k.ex(); late = 0; }
		d.check("after an exchange"); CHECK(k.bad().empty(), "mix:malformed", "%s: the ECU saw a malformed frame [%s]", k.name, k.bad().c_str()); CHECK(k.alive(), "mix:session", "%s: the session was lost", k.name);
	}
}
}
SCENARIO("C18", mix_exact, 2) {
	host_good(); auto kp = make_ks(); KS &k = *kp; k.up(); static const u64 cb[] = {0, 0, 5 * MS, 20 * MS}; callback_delay_max = cb[rnd("k.cbmax", 4)];
	track_io = true; preempt_stall = false; static const double pr[] = {0.3, 0.05, 0.8}; static const u32 pg[] = {300, 40, 3000}; preempt_gap = pg[rnd("k.gap", 3)];
	Dbg d; k.start(); preempt_rate = pr[rnd("k.pr", 3)]; mix(k, d, 2 + rnd("n.ex", 12)); d.check("at the end");
	k.stop(); if (k.bus().tty) k.bus().settle(100 * MS); size_t s0 = k.sent(); idle((k.recovery() / MS + rnd("v.after", 6000)) * MS); CHECK(k.sent() == s0, "ka:closed", "%s: something was sent after the session was closed", k.name);
	sample("%s, exact, preempted %u times", k.name, count_of("s.preempt")); k.finish();
}
SCENARIO("C18", mix_stall, 2) {
	host_any(); auto kp = make_ks(); KS &k = *kp; k.up(); { u64 o = oversleep_max; oversleep_max = 0; k.start(); oversleep_max = o; } static const u64 cb[] = {0, 20 * MS, 300 * MS, 4 * SEC}; callback_delay_max = cb[rnd("k.cbmax", 4)];
	track_io = true; static const double pr[] = {0.3, 0.05, 0.8}; static const u32 pg[] = {300, 60, 3000}; preempt_gap = pg[rnd("k.gap", 3)]; preempt_long = rnd("k.long", 2); preempt_rate = pr[rnd("k.pr", 3)];
	Dbg d; int n = 2 + rnd("n.ex", 10);
	while (n--) { d.check("idle"); d.set(); to_phase(k); d.check("after idling"); k.any_ex(); d.check("after an exchange"); }
	preempt_rate = 0; preempt_long = false; oversleep_max = 0; if (k.bus().tty) k.bus().settle(500 * MS); idle(k.recovery()); d.check("at the end"); k.stop(); idle(k.recovery());
	for (int i = 0;; i++) { if (k.try_start()) break; CHECK(i < 3, "recovery:start", "%s: no start possible after the stalls", k.name); idle(k.recovery()); }
	sample("%s, preempted %u times", k.name, count_of("s.preempt")); k.stop(); idle(500 * MS); k.finish();
}
// ---------------------------------------------------------------- C19
namespace {
enum { P14, P9, PMB, PVAG };
struct Port {
	int kind = 0, no = 0; KLine bus; Ecu14230 e14; Ecu9141 e9; EcuMb mb; Ecu1281 vag; Sess s; diag_l3_conn *l3 = nullptr; bool fast = false; int l1 = 0, l2 = 0; bool stale = false;
	char dev[16];
	Port(int n) : no(n) {
		snprintf(dev, sizeof dev, "/dev/ttyS%d", n); kind = rnd("k.kind", 4); fast = rnd("k.fast", 2);
		l1 = kind == P14 ? DIAG_L1_ISO14230 : DIAG_L1_ISO9141;
		switch (kind) {
		case P14: e14.addr = 0x33; e14.functional = false; e14.handler = [](const Bytes &q) { Rsp r; r.d = q == Bytes({1, 0}) ? Bytes({0x41, 0, 0x80, 0, 0, 1}) : Bytes({(u8)(q[0] | 0x40), 1, 2}); return std::vector<Rsp>{r}; }; bus.add(&e14); break;
		case P9: e9.handler = [](const Bytes &q) { Rsp9 r; r.d = q == Bytes({1, 0}) ? Bytes({0x41, 0, 0x80, 0, 0, 1}) : Bytes({(u8)(q[0] | 0x40), 1, 2}); return std::vector<Rsp9>{r}; }; bus.add(&e9); break;
		case PMB: mb.greeting = false; mb.addr = 0x10; mb.baud = 9600; bus.add(&mb); break;
		case PVAG: vag.addr = 1; vag.baud = 10400; { Blk b; b.type = 0xF6; b.d = {1, 2, 3}; vag.id.push_back(b); } bus.add(&vag); break;
		}
	}
	bool add() { set_op("l0_new"); int r = s.add("DUMB", dev, &bus, 0x48); if (r) { if (s.dl0d) { diag_l0_del(s.dl0d); s.dl0d = nullptr; } return false; } return true; }
	bool start() {
		op_deadline(now() + 60 * SEC); bool r = false;
		switch (kind) {
		case P14: r = s.start(DIAG_L2_PROT_ISO14230, (fast ? DIAG_L2_TYPE_FASTINIT : DIAG_L2_TYPE_SLOWINIT) | DIAG_L2_IDLE_J1978, 0, 0x33, 0xF1); break;
		case P9: r = s.start(DIAG_L2_PROT_ISO9141, DIAG_L2_TYPE_SLOWINIT, 0, 0x33, 0xF1); break;
		case PMB: r = s.start(DIAG_L2_PROT_MB1, DIAG_L2_TYPE_SLOWINIT, 9600, 0x10, 0xF1); break;
		case PVAG: r = s.start(DIAG_L2_PROT_VAG, DIAG_L2_TYPE_SLOWINIT, 0, 1, 0xF1); break;
		}
		op_deadline(0); return r;
	}
	bool request() {
		if (l3) { ReqResult r = l3_request(l3, {1, 0}, 60 * SEC); return !r.null; }
		if (kind == PMB) { mb.plan.clear(); RspMb p; p.d = {0xA1, 5}; mb.plan.push_back(p); }
		if (kind == PVAG) { vag.plan.clear(); Plan1281 p; Blk b; b.type = 0xFC; b.d = {9}; p.tele.push_back(b); vag.plan.push_back(p); }
		return !l2_request(s.conn, kind == PVAG ? Bytes{} : kind == PMB ? Bytes{0x21, 3} : Bytes{0x01, 0x0C}, 60 * SEC).null;
	}
	bool l3able() { return kind == P14 || kind == P9; }
	void l3start() { set_op("l3_start"); op_deadline(now() + 60 * SEC); l3 = diag_l3_start("SAEJ1979", s.conn); op_deadline(0); ev("l3 %d", !!l3); }
	void l3stop() { set_op("l3_stop"); int r = diag_l3_stop(l3); l3 = nullptr; CHECK(r == 0, "l3:stop", "stopping layer 3 returned %d", r); }
	void stop() { if (l3) l3stop(); op_deadline(now() + 60 * SEC); s.stop(); op_deadline(0); }
	void close() { set_op("l2_close"); op_deadline(now() + 60 * SEC); int rv = diag_l2_close(s.dl0d); op_deadline(0); CHECK(rv == 0, "close:failed", "diag_l2_close returned %d with no session open", rv); s.l2open = false; CHECK(!s.t->opens, "close:open", "the port is still open after the link was closed"); }
	void del() { set_op("l0_del"); diag_l0_del(s.dl0d); s.dl0d = nullptr; }
	void shut() { if (s.conn) stop(); if (s.l2open) close(); }
};
struct World {
	std::vector<std::unique_ptr<Port>> p; bool up = false; size_t a0; bool exact;
	World(bool x) : exact(x) { a0 = live_allocs(); int n = 1 + rnd("n.port", 2); for (int i = 0; i < n; i++) p.emplace_back(new Port(i)); }
	bool init() { set_op("diag_init"); int r = diag_init(); ev("init %d", r); if (r) CHECK(!exact, "init:failed", "diag_init failed with %d", r); up = r == 0; if (up) CHECK(timers_alive() == 1, "init:timer", "%d periodic timers after diag_init", timers_alive()); return up; }
	void end() {
		if (rnd("k.attick", 3) && !ticks.empty()) { u64 t = ticks.back() + 300 * MS; while (t < now() + 50 * US) t += 300 * MS; idle(t - now() - rnd("v.attick", 40) * US); }
		set_op("diag_end"); op_deadline(now() + 30 * SEC); int r = diag_end(); op_deadline(0); CHECK(r == 0, "end:failed", "diag_end returned %d", r); up = false; CHECK(timers_alive() == 0, "end:timer", "the periodic timer still exists after diag_end returned"); ended_at = now(); if (rnd("k.again", 4) == 1) CHECK(diag_end() == 0, "end:again", "a second diag_end failed"); }
	u64 ended_at = 0;
	void step() {
		if (!up) { if (rnd("k.idle", 3) == 1) idle(rnd("v.down", 1500) * MS); init(); return; }
		Port &q = *p[rnd("k.port", (u32)p.size())]; u32 a = rnd("k.op", 10);
		bool anyopen = false; for (auto &x : p) anyopen |= x->s.l2open;
		if (!anyopen && chance("k.cycle", 0.25)) { end(); return; }
		if (chance("k.reinit", 0.03)) { CHECK(diag_init() == 0, "init:again", "a second diag_init failed"); CHECK(timers_alive() == 1, "init:timer", "%d periodic timers", timers_alive()); }
		if (chance("k.wait", 0.35)) { idle(rnd("v.idle", rnd("k.lng", 3) ? 700 : 6000) * MS); if (rnd("k.tick", 2) && !ticks.empty()) { u64 t = ticks.back() + 300 * MS * (1 + rnd("v.tk", 2)) + rnd("v.tu", 2000) * US; t -= 1 * MS; if (t > now()) idle(t - now()); } }
		if (!q.s.dl0d) { if (!q.add()) CHECK(!exact, "l0:new", "an interface could not be created"); return; }
		if (!q.s.l2open) {
			if (a == 0) { q.del(); return; }
			if (a == 1) { CHECK(!q.start(), "start:closed", "a session started on a closed link"); return; }
			bool r = q.s.open(q.l1); CHECK(r || !exact, "open:refused", "opening a healthy port failed"); CHECK(r == !!q.s.t->opens, "open:state", "open said %d but the port is %s", r, q.s.t->opens ? "open" : "closed"); return;
		}
		if (!q.s.conn) {
			switch (a) {
			case 0: q.close(); return;
			case 1: { int r = diag_l2_open(q.s.dl0d, q.l1); CHECK(r == 0, "open:again", "opening an open link again returned %d", r); return; }
			case 2: { int r = diag_l2_open(q.s.dl0d, q.l1 == DIAG_L1_ISO9141 ? DIAG_L1_ISO14230 : DIAG_L1_ISO9141); CHECK(r < 0, "open:other", "opening an open link for another protocol returned %d", r); return; }
			}
			if (a == 3) { static const int up_[] = {57, DIAG_L2_PROT_CAN, 8}; struct diag_l2_conn *c = diag_l2_StartCommunications(q.s.dl0d, up_[rnd("v.noproto", 3)], rnd("v.noinit", 4), 10400, 0x33, 0xF1); CHECK(!c, "start:unknown", "a session of an unknown protocol was started"); return; }
			bool quick = rnd("k.quick", 3) == 1; if (!quick) idle(5500 * MS); bool r = q.start(); if (!r) CHECK(!exact || quick, "start:refused", "a healthy start failed (protocol %d)", q.kind); count(r ? "p.started" : "p.notstarted"); return;
		}
		switch (a) {
		case 0: case 1: q.stop(); return;
		case 2: { set_op("close"); op_deadline(now() + 60 * SEC); int r = diag_l2_close(q.s.dl0d); op_deadline(0); CHECK(r < 0, "close:used", "the link was closed under an open session"); return; }
		case 3: { struct diag_l2_conn *c = q.s.conn; bool r = q.start(); q.s.conn = c; CHECK(!r, "start:twice", "a second session was started on the same link"); return; }
		case 4: case 5: if (q.l3able()) { if (q.l3) q.l3stop(); else { q.l3start(); } return; } break;
		case 6: if (!q.l3 && q.kind != PVAG) { l2_recv(q.s.conn, 1 + rnd("v.to", 300), 30 * SEC); return; } break;
		}
		q.request();
	}
	void down() { for (auto &x : p) { x->shut(); if (x->s.dl0d && rnd("k.del", 2)) x->del(); } if (up) end(); }
	// everything is stopped; the bus is healthy now: a whole life succeeds
	void recover() {
		idle(6 * SEC); CHECK(init(), "recovery:init", "diag_init failed after the faults had stopped");
		for (auto &x : p) {
			Port &q = *x; if (!q.s.dl0d) CHECK(q.add(), "recovery:l0", "an interface could not be created"); CHECK(q.s.open(q.l1), "recovery:open", "the port could not be opened after the faults had stopped");
			for (int i = 0;; i++) { idle(5500 * MS); if (q.start()) break; CHECK(i < 2, "recovery:start", "no start possible after the faults had stopped (protocol %d)", q.kind); }
			if (q.l3able() && rnd("k.rl3", 2)) { q.l3start(); CHECK(q.l3, "recovery:l3", "layer 3 did not start"); }
			bool r = q.request(); for (int i = 0; !r && i < 2; i++) { idle(300 * MS); r = q.request(); } CHECK(r, "recovery:request", "no exchange after the faults had stopped (protocol %d)", q.kind);
		}
		down();
	}
	void finish() { for (auto &x : p) if (x->s.dl0d) x->del(); idle(2 * SEC); preempt_rate = 0; idle(2 * SEC); CHECK(live_tasks() == 1, "end:callback", "a timer callback still runs after diag_end"); end_checks(a0); }
};
}
SCENARIO("C19", life_exact, 2) {
	host_good(); static const u64 cb[] = {0, 0, 5 * MS, 40 * MS}; callback_delay_max = cb[rnd("k.cbmax", 4)]; preempt_stall = false; static const double pr[] = {0.3, 0.05, 0.8}; static const u32 pg[] = {30, 4, 10, 300, 3000}; preempt_gap = pg[rnd("k.gap", 5)];
	World w(true); preempt_rate = pr[rnd("k.pr", 3)]; int n = 4 + rnd("n.steps", 30); while (n--) w.step();
	w.down(); if (rnd("k.rec", 2)) w.recover(); sample("%zu ports, preempted %u times", w.p.size(), count_of("s.preempt")); w.finish();
}
SCENARIO("C19", life_faults, 2) {
	host_any(); static const u64 cb[] = {0, 5 * MS, 300 * MS, 4 * SEC}; callback_delay_max = cb[rnd("k.cbmax", 4)]; preempt_long = rnd("k.long", 2); static const double pr[] = {0.3, 0.05, 0.8}; static const u32 pg[] = {30, 4, 10, 300, 3000}; preempt_gap = pg[rnd("k.gap", 5)];
	World w(false); if (rnd("k.pre", 4)) preempt_rate = pr[rnd("k.pr", 3)];
	swarm({"f.open", "f.fcntl", "f.write.eio", "f.read.eio", "f.sel.err", "f.io.tcgets", "f.io.tcgets2", "f.io.tcsets", "f.io.tcsets2", "f.io.gser", "f.io.sser", "f.io.mget", "f.io.mset", "f.io.flush", "f.io.sbrk", "f.io.drain", "f.timer_create", "f.timer_settime", "f.malloc", "f.ecu.silent", "f.bus.drop", "f.bus.flip", "f.bus.noise", "f.echo.lost", "f.tmr.lost", "f.tmr.late"}, 0.2, 0.001, 0.3);
	int n = 4 + rnd("n.steps", 30); while (n--) w.step(); w.down();
	faults_on = false; clear_rates(); preempt_rate = 0; oversleep_max = 0; callback_delay_max = 0; w.recover(); sample("%zu ports, preempted %u times", w.p.size(), count_of("s.preempt")); w.finish();
}
