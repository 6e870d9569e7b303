// C10, C11: ISO 9141-2.  C05: echo removal.  C15: raw mode.
#include "oom.h"
#include "i9.h"
#include "wave.h"
SCENARIO("C10", s9141_clean, 1) {
	host_good(); I9 k; k.setup(); k.up();
	int n = 1 + rnd("n.rounds", 3);
	while (n--) { start_good(k); good_exchange(k, false); k.s.stop(); idle(rnd("v.idle", 600) * MS); }
	sample("clean 9141 starts kb %02x opts %x", k.ecu.kb1, k.opts);
	k.finish();
}
SCENARIO("C10", s9141_bad, 1.5) {
	host_good(); I9 k; k.setup(); k.up();
	int n = 1 + rnd("n.rounds", 3);
	while (n--) {
		k.ecu.bad = 1 + rnd("v.bad", 11); u64 t0 = now();
		bool ok = k.start(); count("p.bad.handshake");
		CHECK(!ok, "start:accepted", "start succeeded although the ECU's handshake was wrong (kind %d, key bytes %02x %02x)", k.ecu.bad, k.ecu.k1, k.ecu.k2);
		CHECK(now() - t0 < 6 * SEC, "start:slow", "failing start took %.3f s", (now() - t0) / 1e9);
		sample("bad 9141 handshake kind %d", k.ecu.bad);
		k.ecu.bad = 0; idle((200 + rnd("v.idle", 1000)) * MS);
		if (chance("k.good", 0.5)) { start_good(k); good_exchange(k, false); k.s.stop(); idle(300 * MS); }
	}
	start_good(k); good_exchange(k, true);
	k.finish();
}
SCENARIO("C10", s9141_types, 0.2) {
	// init modes this protocol does not have; monitor mode sends nothing
	host_good(); I9 k; k.setup(); k.up();
	size_t mk = k.bus.bus.size(), ke = k.bus.k.size();
	CHECK(!k.start(DIAG_L2_TYPE_FASTINIT), "start:fast", "a fast init was accepted for ISO 9141");
	CHECK(!k.start(DIAG_L2_TYPE_CARBINIT), "start:carb", "a CARB init was accepted for ISO 9141");
	CHECK(k.start(DIAG_L2_TYPE_MONINIT), "start:monitor", "monitor mode was refused");
	idle(rnd("v.idle", 8000) * MS);
	CHECK(k.bus.bus.size() == mk && k.bus.k.size() == ke, "monitor:sends", "something was sent in monitor mode");
	auto v = k.rsps(4); k.ecu.answer(v, now(), false);
	auto r = l2_recv(k.s.conn, 300, 60 * SEC); expect(k, v, r);
	k.s.stop(); idle(400 * MS); start_good(k);
	sample("init types"); k.finish();
}
SCENARIO("C10", s9141_faults, 1.5) {
	host_good(); I9 k; k.setup(); k.up();
	swarm({"f.bus.drop", "f.bus.flip", "f.bus.dup", "f.bus.gap", "f.bus.noise", "f.echo.lost", "f.echo.flip", "f.echo.late", "f.read.eio", "f.write.eio", "f.sel.err", "f.read.eintr", "f.sel.late", "f.io.tcsets2", "f.io.tcsets", "f.io.sbrk", "f.oversleep", "f.malloc"}, 0.25, 0.01, 0.3);
	int n = 1 + rnd("n.rounds", 3);
	while (n--) {
		int f0 = faults_fired, s0 = k.ecu.sessions;
		bool ok = k.start();
		if (faults_fired == f0) CHECK(ok, "start:refused", "start failed without any fault in this attempt");
		if (ok) {
			CHECK(k.ecu.sessions > s0 || faults_fired != f0, "start:phantom", "start succeeded but the ECU never completed a handshake");
			FaultsOff off; struct diag_l2_data d; memset(&d, 0, sizeof d);
			diag_l2_ioctl(k.s.conn, DIAG_IOCTL_GET_L2_DATA, &d);
			CHECK(d.kb1 == d.kb2 && (d.kb1 == 8 || d.kb1 == 0x94), "start:keybytes", "a session with key bytes %02x %02x", d.kb1, d.kb2);
			size_t pos = 0; CHECK(k.bus.arrived(pos, {d.kb1, d.kb2}), "start:keybytes", "recorded key bytes %02x %02x were never received together", d.kb1, d.kb2);
		}
		{ FaultsOff off; k.s.stop(); }
		k.bus.settle((2300 + rnd("v.idle", 1000)) * MS);
	}
	FaultsOff off; k.bus.settle(1 * SEC);
	start_good(k); good_exchange(k, true);
	sample("9141 starts under faults");
	k.finish();
}
SCENARIO("C11", x9141_clean, 1) {
	host_good(); I9 k; k.setup(); k.up(); start_good(k);
	int n = 1 + rnd("n.ex", 8);
	while (n--) {
		if (chance("k.over", 0.1)) {
			Bytes q = rnd_bytes("v.over", 8 + rnd("v.overn", chance("k.overb", 0.4) ? 2 : 400)); size_t mk = k.bus.bus.size();
			if (rnd("k.overreq", 2)) { auto r = l2_request(k.s.conn, q, 10 * SEC); CHECK(r.null && r.err < 0, "send:oversize", "a request of %zu bytes was accepted", q.size()); }
			else CHECK(l2_send(k.s.conn, q, 10 * SEC) < 0, "send:oversize", "a request of %zu bytes was accepted", q.size());
			CHECK(k.bus.bus.size() == mk, "send:oversize-tx", "part of a refused request was sent");
		}
		good_exchange(k, chance("k.split", 0.3));
		if (chance("k.silent", 0.15)) { u64 t0 = now(); auto r = l2_recv(k.s.conn, 100, 10 * SEC); CHECK(r.err == DIAG_ERR_TIMEOUT && r.m.empty(), "recv:silence", "receive on a silent bus returned %d", r.err); CHECK(now() - t0 + MS >= 100 * MS, "recv:early", "receive gave up early"); }
		if (chance("k.gap", 0.3)) idle(rnd("v.gap", 3000) * MS);
	}
	sample("clean 9141 exchanges kb %02x p1 %llu", k.ecu.kb1, (unsigned long long)k.ecu.p1 / MS);
	k.finish();
}
SCENARIO("C11", x9141_faults, 2) {
	host_good(); I9 k; k.setup(); k.up(); start_good(k);
	swarm({"f.bus.drop", "f.bus.flip", "f.bus.dup", "f.bus.gap", "f.bus.noise", "f.bus.trunc", "f.ecu.silent", "f.ecu.late", "f.ecu.badcs", "f.echo.lost", "f.echo.flip", "f.echo.late", "f.read.eio", "f.sel.err", "f.read.eintr", "f.sel.late", "f.oversleep", "f.write.eio", "f.read.short", "f.malloc"}, 0.25, 0.005, 0.2);
	int n = 1 + rnd("n.ex", 6);
	while (n--) {
		Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", 7)); auto v = k.rsps(5); bool anybad = false;
		for (auto &r : v) if (chance("k.bad", 0.15)) { r.bad = 1 + rnd("v.badk", 4); anybad = true; count("p.badframe"); }
		k.ecu.plan.clear(); k.ecu.plan.push_back(v);
		if (chance("k.noise", 0.1)) { k.bus.noise(rnd_bytes("v.noise", 1 + rnd("v.noisen", 20)), now() + rnd("v.noiset", 400) * MS); count("f.noise"); anybad = true; }
		size_t mark = k.bus.mark(); int ff = faults_fired;
		auto r = l2_request(k.s.conn, q, 90 * SEC);
		sound(k, mark, r);
		if (!ff && faults_fired == ff && !count_of("f.noise") && !anybad) expect(k, v, r);
		bool onlycs = anybad; for (auto &x : v) if (x.bad > 1) onlycs = false;
		if (!ff && faults_fired == ff && !count_of("f.noise") && onlycs) {
			CHECK(!r.null && r.m.size() == v.size(), "exchange:count", "%zu messages sent, %zu delivered", v.size(), r.m.size());
			for (size_t i = 0; i < v.size(); i++) CHECK(!!(r.m[i].fmt & DIAG_FMT_BADCS) == (v[i].bad == 1), "exchange:mark", "message %zu: checksum mark is wrong", i);
		}
		k.bus.settle((50 + rnd("v.gap", 1000)) * MS);
	}
	FaultsOff off; clear_rates(); k.bus.settle((200 + rnd("v.settle", 500)) * MS);
	k.ecu.check_alive(now() + 1 * SEC);
	if (k.ecu.st == Ecu9141::SESSION) {
		bool ok = false;
		for (int i = 0; i < 2 && !ok; i++) {
			Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", 7)); auto v = k.rsps(3); k.ecu.plan.clear(); k.ecu.plan.push_back(v);
			size_t mark = k.bus.mark(); auto r = l2_request(k.s.conn, q, 60 * SEC); sound(k, mark, r);
			ok = !r.null && r.m.size() == v.size(); for (size_t j = 0; ok && j < v.size(); j++) ok = r.m[j].d == v[j].d;
			if (!ok) idle(300 * MS);
		}
		CHECK(ok, "recovery", "two requests failed after the faults had stopped");
		good_exchange(k, false);
	}
	k.s.stop(); idle(2500 * MS); start_good(k); good_exchange(k, true);
	sample("9141 exchanges under faults");
	k.finish();
}
// ------------------------------------------------------------------ C05
namespace {
struct EchoEcu : Ecu { Bytes got; void rx(u8 b, u64, u64) override { got.push_back(b); } };
struct EchoRig {
	KLine bus; EchoEcu ecu; Sess s; size_t a0; int opts; int proto;
	EchoRig() { a0 = live_allocs(); }
	void up() {
		opts = rnd("k.block", 2) ? 0x48 : 0x08; proto = rnd("k.proto", 2) ? DIAG_L1_ISO9141 : DIAG_L1_ISO14230;
		bus.add(&ecu); lib_up(); FaultsOff f;
		if (s.add("DUMB", "/dev/ttyS0", &bus, opts)) VIOL("setup", "creating the interface failed");
		static const u64 ch[] = {0, 0, 1 * MS, 4 * MS, 16 * MS}; s.t->rx_chunk = ch[rnd("k.chunk", 5)];
		if (!s.open(proto)) VIOL("open", "opening a healthy port failed");
		struct diag_serial_settings st; st.speed = rnd("k.speed", 2) ? 9600 : 10400; st.databits = diag_databits_8; st.stopbits = diag_stopbits_1; st.parflag = diag_par_n;
		CHECK(diag_l1_ioctl(s.dl0d, DIAG_IOCTL_SETSPEED, &st) == 0, "speed", "setting the speed failed");
		ecu.baud = st.speed;
	}
	int send(const Bytes &d, unsigned p4) { set_op("l1_send"); evbytes("l1_send", d.data(), d.size()); op_deadline(now() + (30 + d.size()) * SEC); int rv = diag_l1_send(s.dl0d, d.data(), d.size(), p4); op_deadline(0); ev("l1_send %d", rv); return rv; }
	Bytes recv(size_t n, unsigned tout) {
		Bytes b(n); set_op("l1_recv"); op_deadline(now() + 20 * SEC); int rv = diag_l1_recv(s.dl0d, b.data(), n, tout); op_deadline(0); ev("l1_recv %d", rv);
		CHECK(rv <= (int)n && rv != 0, "recv:len", "receive of %zu bytes returned %d", n, rv);
		if (rv < 0) { CHECK(rv == DIAG_ERR_TIMEOUT, "recv:error", "healthy receive failed with %d", rv); rv = 0; }
		b.resize(rv); return b;
	}
	void finish() { s.down(); lib_down(); end_checks(a0); }
};
Bytes drain(EchoRig &k) { Bytes all; for (int i = 0; i < 60; i++) { u64 t0 = now(); Bytes b = k.recv(1 + rnd("v.rd", 300), 60 + rnd("v.rt", 200)); if (b.empty() && k.bus.sched_end < t0) break; all = cat(all, b); } return all; }
}
SCENARIO("C05", echo_clean, 1) {
	host_good(); EchoRig k; k.up();
	int n = 1 + rnd("n.sends", 5);
	while (n--) {
		u32 len = 1 + rnd("v.len", chance("k.long", 0.15) ? 600 : 30); Bytes d = rnd_bytes("v.d", len); unsigned p4 = rnd("k.p4", 2) ? rnd("v.p4", 21) : 0;
		size_t g0 = k.ecu.got.size(), w0 = k.bus.bus.size();
		int rv = k.send(d, p4);
		CHECK(rv == 0, "send:failed", "healthy send failed with %d", rv);
		k.bus.settle(0);
		Bytes sent(k.ecu.got.begin() + g0, k.ecu.got.end());
		CHECK(sent == d, "send:wire", "the bus saw [%s] instead of [%s]", hex(sent).c_str(), hex(d).c_str());
		if (p4) for (size_t i = w0 + 1; i < k.bus.bus.size(); i++) CHECK(k.bus.bus[i].t0 - k.bus.bus[i - 1].t1 >= p4 * MS, "send:p4", "bytes only %.3f ms apart with p4 %u", (k.bus.bus[i].t0 - k.bus.bus[i - 1].t1) / 1e6, p4);
		u32 na = rnd("n.ans", 3) ? 1 + rnd("v.ansn", 40) : 0; Bytes a = rnd_bytes("v.ans", na);
		if (na) k.bus.ecu_tx(&k.ecu, a, now() + rnd("v.at", 50) * MS);
		Bytes got = drain(k);
		CHECK(got == a, "recv:data", "the ECU sent [%s], received was [%s]", hex(a).c_str(), hex(got).c_str());
		oracle();
	}
	sample("echo removal, %s", k.opts & 0x40 ? "block" : "byte");
	k.finish();
}
namespace { struct QuickEcu : EchoEcu { size_t need = 0; Bytes ans; u64 delay = 0; void rx(u8 b, u64 a, u64 t1) override { EchoEcu::rx(b, a, t1); if (need && got.size() == need) bus->ecu_tx(this, ans, t1 + delay); } }; }
SCENARIO("C05", echo_quick, 1) {
	// the ECU answers as soon as the last byte is on the line: nothing of its answer may be taken for echo
	host_good(); EchoRig k; QuickEcu q; k.bus.ecus.clear(); k.up(); k.bus.ecus.clear(); q.baud = k.ecu.baud; k.bus.add(&q);
	int n = 1 + rnd("n.sends", 5);
	while (n--) {
		Bytes d = rnd_bytes("v.d", 1 + rnd("v.len", 60)); unsigned p4 = rnd("k.p4", 2) ? rnd("v.p4", 6) : 0;
		q.got.clear(); q.need = d.size(); q.ans = rnd_bytes("v.ans", 1 + rnd("v.ansn", 30)); q.delay = rnd("v.delay", 3) ? rnd("v.delay2", 10000) * US : 0;
		int rv = k.send(d, p4); CHECK(rv == 0, "send:failed", "healthy send failed with %d", rv);
		CHECK(q.got == d, "send:wire", "the bus saw [%s] instead of [%s]", hex(q.got).c_str(), hex(d).c_str());
		Bytes got = drain(k);
		CHECK(got == q.ans, "recv:data", "the ECU sent [%s], received was [%s]", hex(q.ans).c_str(), hex(got).c_str());
	}
	sample("answer right behind the echo"); k.finish();
}
SCENARIO("C05", echo_faults, 2) {
	host_good(); EchoRig k; k.up();
	swarm({"f.echo.lost", "f.echo.flip", "f.echo.late"}, 0.6, 0.005, 0.3);
	swarm({"f.read.eintr", "f.read.short", "f.sel.late", "f.write.eio", "f.write.short", "f.read.eio", "f.sel.err", "f.oversleep"}, 0.15, 0.005, 0.1);
	bool block = false; u64 t_last = 0; (void)t_last;
	int n = 2 + rnd("n.sends", 6);
	while (n--) {
		Bytes d = rnd_bytes("v.d", 1 + rnd("v.len", 40)); unsigned p4 = rnd("k.p4", 2) ? rnd("v.p4", 21) : 0;
		block = (k.opts & 0x40) && !p4;
		u32 lost = count_of("f.echo.lost"), flip = count_of("f.echo.flip"), late = count_of("f.echo.late"); int ff = faults_fired; size_t g0 = k.ecu.got.size();
		bool coll = chance("k.coll", 0.1);
		if (coll) { count("f.noise"); k.bus.noise({(u8)(d[0] ^ 0x40)}, now()); }
		int rv = k.send(d, p4);
		lost = count_of("f.echo.lost") - lost; flip = count_of("f.echo.flip") - flip; late = count_of("f.echo.late") - late;
		if (lost) CHECK(rv < 0, "echo:lost", "the send succeeded although %u echo bytes were missing", lost);
		if (flip) CHECK(rv < 0, "echo:altered", "the send succeeded although %u echo bytes were altered", flip);
		if (coll) CHECK(rv < 0, "echo:collision", "the send succeeded although another byte arrived before its echo");
		if (faults_fired == ff && !coll) CHECK(rv == 0, "send:failed", "healthy send failed with %d", rv);
		if (rv == 0) {
			Bytes sent(k.ecu.got.begin() + g0, k.ecu.got.end());
			CHECK(sent == d, "send:wire", "the send succeeded, but the bus saw [%s] instead of [%s]", hex(sent).c_str(), hex(d).c_str());
		}
		FaultsOff off;
		k.bus.settle((700 + rnd("v.settle", 300)) * MS);
		if (rv < 0) { drain(k); if (chance("k.now", 0.5)) { Bytes e = {0x5A}; CHECK(k.send(e, 5) == 0, "recovery", "the send after a failed one, with everything read away, failed"); } }
		else { Bytes got = drain(k); CHECK(got.empty(), "recv:echo", "after a successful send received data contains [%s]", hex(got).c_str()); }
	}
	FaultsOff off; clear_rates(); idle(700 * MS);
	// without reading anything: the layer gets back in step by itself
	bool ok = false; for (int i = 0; i < 2 && !ok; i++) ok = k.send(rnd_bytes("v.d", 1 + rnd("v.len", 20)), rnd("v.p4", 8)) == 0;
	CHECK(ok, "recovery", "two sends failed after the faults had stopped");
	sample("echo faults, %s", block ? "block" : "byte"); k.finish();
}
SCENARIO("C05", echo_resync, 1) {
	// a bad echo in the middle of a message and nobody reads: the messages after it must work
	host_good(); EchoRig k; k.up();
	int n = 1 + rnd("n.rounds", 4);
	while (n--) {
		set_rate("f.echo.flip", rnd("k.f1", 2) ? 0.3 : 0); set_rate("f.echo.lost", rnd("k.f2", 2) ? 0.3 : 0); set_rate("f.echo.late", rnd("k.f3", 2) ? 0.3 : 0);
		Bytes d = rnd_bytes("v.d", 2 + rnd("v.len", 30)); unsigned p4 = rnd("k.p4", 2) ? rnd("v.p4", 21) : 0;
		k.send(d, p4); clear_rates(); k.bus.settle((500 + rnd("v.settle", 300)) * MS);
		bool ok = false; int i;
		for (i = 0; i < 2 && !ok; i++) { Bytes e = rnd_bytes("v.e", 1 + rnd("v.len2", 20)); unsigned p = rnd("v.p4", 8); size_t g0 = k.ecu.got.size(); ok = k.send(e, p) == 0; if (ok) { Bytes sent(k.ecu.got.begin() + g0, k.ecu.got.end()); CHECK(sent == e, "send:wire", "wrong bytes sent"); } }
		CHECK(ok, "recovery", "two sends failed after one disturbed echo");
	}
	sample("resynchronisation"); k.finish();
}
// ------------------------------------------------------------------ C15
namespace {
struct RawEcu : Ecu { Bytes got; std::function<void(u64)> on; void rx(u8 b, u64, u64 t1) override { got.push_back(b); if (on) on(t1); } };
void raw_run(bool faulty) {
	host_good(); KLine bus; RawEcu ecu; Sess s; size_t a0 = live_allocs();
	bus.echo = rnd("k.echo", 2); static const unsigned sp[] = {9600, 10400, 4800, 1200, 38400, 115200}; unsigned speed = sp[rnd("v.speed", 6)];
	ecu.baud = speed; bus.add(&ecu);
	int opts = rnd("k.opt", 2) ? 0x48 : 0x08; int l1 = rnd("k.l1", 3) ? DIAG_L1_RAW : DIAG_L1_ISO9141; if (l1 != DIAG_L1_RAW) bus.echo = true;
	lib_up(); { FaultsOff f; if (s.add("DUMB", "/dev/ttyS0", &bus, opts)) VIOL("setup", "creating the interface failed");
	static const u64 ch[] = {0, 0, 1 * MS, 4 * MS, 16 * MS}; s.t->rx_chunk = ch[rnd("k.chunk", 5)];
	if (!s.open(l1)) VIOL("open", "opening a healthy port failed");
	if (!s.start(DIAG_L2_PROT_RAW, 0, speed, 0x10, 0xF1)) VIOL("start:refused", "a raw session was refused"); }
	bool echo_in = bus.echo && l1 == DIAG_L1_RAW;
	if (faulty) swarm({"f.read.eio", "f.sel.err", "f.read.eintr", "f.read.short", "f.sel.late", "f.write.eio", "f.write.short", "f.malloc", "f.echo.lost", "f.echo.flip"}, 0.35, 0.01, 0.15);
	int n = 1 + rnd("n.ops", 7);
	size_t pos = s.t->rx_log.size();           // UART stream position that was accounted for
	while (n--) {
		Bytes d = rnd_bytes("v.d", 1 + rnd("v.len", chance("k.long", 0.2) ? 255 : 20));
		u32 an = rnd("k.ans", 5) ? 1 + rnd("v.ansn", chance("k.longans", 0.25) ? 900 : 30) : 0; Bytes a = rnd_bytes("v.ans", an);
		size_t g0 = ecu.got.size(); u64 delay = rnd("v.delay", 400) * MS; bool done = false; (void)done;
		size_t need = g0 + d.size(); ecu.on = [&](u64 t1) { if (ecu.got.size() == need && an) bus.ecu_tx(&ecu, a, t1 + delay, false); };
		int ff = faults_fired; int how = rnd("k.how", 3);
		ReqResult r; int rv = 0; u64 t_start, t_end;
		if (how == 2) { ecu.on = nullptr; if (an) bus.ecu_tx(&ecu, a, now() + delay, false); t_start = now(); unsigned tout = 50 + rnd("v.tout", 1500); r = l2_recv(s.conn, tout, 60 * SEC); t_end = now(); if (faults_fired == ff) CHECK(t_end - t_start >= tout * MS - MS || r.m.size(), "recv:early", "receive gave up after %.3f ms of %u", (t_end - t_start) / 1e6, tout); }
		else if (how == 1) { rv = l2_send(s.conn, d, 60 * SEC); if (rv == 0) { r = l2_recv(s.conn, 50 + rnd("v.tout", 1500), 60 * SEC); } else { r.null = true; r.err = rv; } t_end = now(); }
		else { r = l2_request(s.conn, d, 60 * SEC); t_end = now(); }
		u64 w = s.t->tx_free; bool clean = faults_fired == ff;
		FaultsOff off;
		if (w > now()) idle(w - now() + 1 * MS);
		bus.settle(20 * MS); ecu.on = nullptr; bus.settle(20 * MS);
		if (how != 2 && clean) {
			Bytes sent(ecu.got.begin() + g0, ecu.got.end());
			CHECK(sent == d, "send:wire", "the bus saw [%s] instead of [%s]", hex(sent).c_str(), hex(d).c_str());
		}
		// what came back is what the UART received, from the first byte that was not delivered yet
		CHECK(r.m.size() <= 1, "recv:chain", "raw receive gave %zu messages", r.m.size());
		if (!r.null && r.m.empty()) VIOL("recv:nothing", "success without a message");
		if (r.null) { CHECK(r.err < 0, "recv:no-error", "no message but the error code is %d", r.err); if (clean) CHECK(r.err == DIAG_ERR_TIMEOUT, "recv:error", "healthy %s failed with %d", how ? "receive" : "request", r.err); }
		if (!faulty) {
			Bytes want; size_t skip = l1 == DIAG_L1_RAW ? 0 : (how == 2 ? 0 : d.size()); (void)echo_in;
			// bytes that surely / possibly were there at the end of the window
			size_t sure = 0; for (size_t i = pos + skip; i < s.t->rx_log.size(); i++) { if (s.t->rx_log[i].t + s.t->rx_chunk + 3 * MS <= t_end) sure++; want.push_back(s.t->rx_log[i].b); }
			Bytes got = r.null ? Bytes() : r.m[0].d;
			CHECK(got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin()), "recv:data", "received [%s], on the line was [%s]", hex(got).c_str(), hex(want).c_str());
			CHECK(got.size() >= std::min<size_t>(sure, 1024), "recv:lost", "%zu bytes had arrived, only %zu were delivered", sure, got.size());
			pos += skip + got.size();
		} else if (!r.null) {
			// contiguous piece of what the UART received
			auto &L = s.t->rx_log; bool found = false; auto &g = r.m[0].d; CHECK(!g.empty(), "recv:empty", "an empty message");
			for (size_t i = 0; i + g.size() <= L.size() && !found; i++) { size_t j = 0; while (j < g.size() && L[i + j].b == g[j]) j++; found = j == g.size(); }
			CHECK(found, "recv:data", "received [%s], which never was on the line like this", hex(g).c_str());
		}
		if (l1 != DIAG_L1_RAW && (faulty || rnd("k.drain", 2) || pos < s.t->rx_log.size()))   // with echo checking, unread data would be taken for a collision
			for (int i = 0; i < 20; i++) { auto x = l2_recv(s.conn, 60, 10 * SEC); if (x.null) break; pos += x.m.size() ? x.m[0].d.size() : 0; }
	}
	FaultsOff off;
	sample("raw %s at %u", faulty ? "with faults" : "clean", speed);
	s.down(); lib_down(); end_checks(a0);
}
}
SCENARIO("C15", raw_clean, 1) { raw_run(false); }
SCENARIO("C15", raw_faults, 1) { raw_run(true); }
// ------------------------------------------------------------------ C23
SCENARIO("C23", oom_9141, 1) {
	host_good(); I9 k; k.setup(); k.up(); OomUnit u; u.name = "ISO 9141"; u.s = &k.s; u.maxidle = 3000; u.close();
	u.open = [&]() { return k.s.open(DIAG_L1_ISO9141); }; u.start = [&]() { return k.start(); }; u.alive = [&]() { k.ecu.check_alive(now()); return k.ecu.st == Ecu9141::SESSION; }; u.good = [&]() { good_exchange(k, rnd("k.split", 2)); }; u.stop = [&]() { k.s.stop(); }; u.calm = [&]() { k.bus.settle(300 * MS); }; u.finish = [&]() { k.finish(); };
	u.run();
}
SCENARIO("C23", oom_raw, 0.5) {
	host_good(); KLine bus; RawEcu ecu; Sess s; size_t a0 = live_allocs(); bus.echo = false; ecu.baud = 9600; bus.add(&ecu); lib_up(); if (s.add("DUMB", "/dev/ttyS0", &bus, 0x08)) VIOL("setup", "creating the interface failed");
	OomUnit u; u.name = "raw"; u.s = &s; u.rest = 500 * MS; u.open = [&]() { return s.open(DIAG_L1_RAW); }; u.start = [&]() { return s.start(DIAG_L2_PROT_RAW, 0, 9600, 0x10, 0xF1); }; u.stop = [&]() { s.stop(); };
	u.calm = [&]() { for (int i = 0; i < 9 && s.conn; i++) if (l2_recv(s.conn, 60, 10 * SEC).null) break; };
	u.good = [&]() { Bytes d = rnd_bytes("v.d", 1 + rnd("v.len", 60)), a = rnd_bytes("v.ans", 1 + rnd("v.ansn", 300)); size_t g0 = ecu.got.size(), need = g0 + d.size(); u64 dl = rnd("v.delay", 50) * MS; ecu.on = [&, need, a, dl](u64 t1) { if (ecu.got.size() == need) bus.ecu_tx(&ecu, a, t1 + dl, false); }; Bytes all; bool rq = rnd("k.rq", 2);
		if (rq) { auto r = l2_request(s.conn, d, 20 * SEC); CHECK(!r.null && r.m.size() == 1, "exchange:failed", "healthy request failed with %d", r.err); all = r.m[0].d; } else { int rv = l2_send(s.conn, d, 20 * SEC); CHECK(rv == 0, "send:failed", "healthy send failed with %d", rv); bus.settle(20 * MS); }
		for (int i = 0; all.size() < a.size() && i < 400; i++) { auto r = l2_recv(s.conn, 300, 20 * SEC); CHECK(!r.null && r.m.size() == 1, "exchange:failed", "healthy receive failed with %d", r.err); all = cat(all, r.m[0].d); }
		CHECK(Bytes(ecu.got.begin() + g0, ecu.got.end()) == d, "send:wire", "wrong bytes on the wire"); CHECK(all == a, "recv:data", "sent [%s], received [%s]", hex(a).c_str(), hex(all).c_str()); };
	u.finish = [&]() { s.down(); lib_down(); end_checks(a0); }; u.run();
}
SCENARIO("C06", wave_9141, 0.4) {
	host_good(); I9 k; k.setup(); k.up();
	wave_rounds(k, 10400, 300 * MS, [&]() { start_good(k); }, [&]() { good_exchange(k, false); });
}
