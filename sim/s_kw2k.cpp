// C06-C09: ISO 14230 over the dumb K-line interface; wake-up waveforms.
#include "kw.h"
#include "wave.h"

// option combinations that documented interfaces use
const int dopts[] = {0x48, 0x08, 0x40, 0x00, 0x49, 0x09, 0x41, 0x01, 0x4A, 0x4C, 0x02, 0x04, 0x5F & ~0x08, 0x5F, 0x1F, 0x68, 0x28, 0x60, 0x20, 0x69};
// ------------------------------------------------------------------ C06
SCENARIO("C06", wave_init, 1) {
	host_good();
	KW k; k.setup(); 
	k.up();
	if (k.opts & 8 && chance("k.no5baud", 0.4)) k.s.t->min_speed = 300;   // MAN_BREAK is there for UARTs that can't do 5 baud
	int rounds = 1 + rnd("n.rounds", 2);
	while (rounds--) {
		size_t e0 = k.bus.k.size(), b0 = k.bus.bus.size(); int n0 = k.bus.nwup, n5 = k.bus.n5;
		u64 tstart = now();
		u64 prev_act = k.bus.last_activity;
		bool ok = k.start();
		size_t i = e0; 
		CHECK(i < k.bus.k.size(), "init:none", "no wake-up pattern on K");
		u64 f = k.bus.k[i].t;
		CHECK(f - std::max(prev_act, tstart) >= 300 * MS, "init:idle", "wake-up only %.3f ms after the start of the attempt (bus idle time is 300 ms)", (f - std::max(prev_act, tstart)) / 1e6);
		if (k.fast) {
			CHECK(k.bus.nwup == n0 + 1 && k.bus.k.size() == e0 + 2, "fast:pulse", "expected one 25 ms pulse, got %zu edges", k.bus.k.size() - e0);
			u64 low = k.bus.k[e0 + 1].t - f;
			CHECK(low + 100 * US >= 25 * MS && low <= 26 * MS, "fast:tinil", "wake-up low time is %.3f ms", low / 1e6);
			u64 first = 0; for (size_t j = b0; j < k.bus.bus.size(); j++) if (k.bus.bus[j].src == 0 && k.bus.bus[j].baud > 400) { first = k.bus.bus[j].t0; break; }
			CHECK(first, "fast:norequest", "no StartCommunication request after the wake-up");
			CHECK(first - f + 1 * MS >= 50 * MS && first - f <= 51 * MS + ((k.opts & 0x20) ? 4 * oversleep_max + 20 * syscall_cost : 0), "fast:twup", "first request %.3f ms after the wake-up began", (first - f) / 1e6);
			if ((k.opts & 1) && !(k.opts & 0x20)) {
				bool l = k.bus.level_at(k.bus.l, f + 12 * MS); CHECK(l, "fast:l", "L not low during the wake-up pulse");
				CHECK(!k.bus.level_at(k.bus.l, f + 45 * MS) && !k.bus.level_at(k.bus.l, f - 5 * MS), "fast:l", "L low outside the wake-up pulse");
			}
		} else {
			wave5(k.bus, f, n5, k.tgt, k.opts);
		}
		CHECK(k.s.t->cur.ospeed == 10400 && k.s.t->cur.ispeed == 10400, "init:speed", "line speed after the wake-up is %u", k.s.t->cur.ospeed);
		CHECK(!k.bus.klow, "init:klow", "K left low");
		CHECK((k.s.t->modem & 2) == ((k.opts & 2) ? 0 : 2) && (k.s.t->modem & 4) == ((k.opts & 4) ? 4 : 0), "init:modem", "DTR/RTS left at %x with options %x", k.s.t->modem, k.opts);
		CHECK(ok, "start:refused", "start failed after a correct wake-up");
		good_exchange(k, false);
		k.s.stop();
		idle(rnd("v.idle", 1000) * MS);
	}
	sample("%s init, dumbopts 0x%x, address %02x", k.fast ? "fast" : "5-baud", k.opts, k.tgt);
	k.finish();
}
// ------------------------------------------------------------------ C07
SCENARIO("C07", start_clean, 1) {
	host_good();
	KW k; k.setup(); k.up();
	int n = 1 + rnd("n.rounds", 3);
	while (n--) {
		start_good(k);
		good_exchange(k, false);
		if (chance("k.stop", 0.8)) { int st = k.ecu.stops; k.s.stop(); CHECK(k.ecu.stops == st + 1, "stop:none", "no StopCommunication request reached the ECU"); }
		else { k.s.stop(); }
		idle(rnd("v.idle", 400) * MS);
	}
	sample("clean %s starts, kb %02x%02x", k.fast ? "fast" : "slow", k.ecu.kb1, k.ecu.kb2);
	k.finish();
}
SCENARIO("C07", start_bad, 1.5) {
	host_good();
	KW k; k.setup(); k.up();
	int n = 1 + rnd("n.rounds", 3);
	while (n--) {
		k.ecu.bad = 1 + rnd("v.bad", 12);
		bool applies = k.fast ? (k.ecu.bad == Ecu14230::SILENT || k.ecu.bad == Ecu14230::NO_KB1 || k.ecu.bad >= Ecu14230::REFUSE) && k.ecu.bad != Ecu14230::IGNORE_KB
		                      : k.ecu.bad >= Ecu14230::SILENT && k.ecu.bad <= Ecu14230::WRONG_INV;
		if (!applies) k.ecu.bad = Ecu14230::SILENT;
		u64 t0 = now();
		bool ok = k.start();
		count("p.bad.handshake");
		CHECK(!ok, "start:accepted", "start succeeded although the ECU's handshake was wrong (kind %d)", k.ecu.bad);
		CHECK(now() - t0 < 8 * SEC, "start:slow", "failing start took %.3f s", (now() - t0) / 1e9);
		sample("bad handshake kind %d (%s)", k.ecu.bad, k.fast ? "fast" : "slow");
		k.ecu.bad = 0;
		idle((300 + rnd("v.idle", 1000)) * MS);
		if (chance("k.good", 0.5)) { start_good(k); good_exchange(k, false); k.s.stop(); idle(400 * MS); }
	}
	start_good(k); good_exchange(k, false);
	k.finish();
}
SCENARIO("C07", start_faults, 1.5) {
	host_good();
	KW k; k.setup(); k.up();
	swarm({"f.bus.drop", "f.bus.flip", "f.bus.dup", "f.bus.gap", "f.bus.noise", "f.bus.trunc", "f.echo.lost", "f.echo.flip", "f.echo.late", "f.ecu.silent", "f.ecu.late", "f.read.eio", "f.write.eio", "f.sel.err", "f.read.eintr", "f.sel.late", "f.io.tcsets2", "f.io.tcsets", "f.io.sbrk", "f.oversleep"}, 0.25, 0.01, 0.3);
	int n = 1 + rnd("n.rounds", 3);
	while (n--) {
		u32 f0 = faults_fired; int s0 = k.ecu.sessions;
		bool ok = k.start();
		if (faults_fired == (int)f0) CHECK(ok, "start:refused", "start failed without any fault in this attempt");
		if (ok) {
			CHECK(k.ecu.sessions > s0 || faults_fired != (int)f0, "start:phantom", "start succeeded but the ECU never completed a handshake");
			FaultsOff off;
			struct diag_l2_data d; memset(&d, 0, sizeof d);
			diag_l2_ioctl(k.s.conn, DIAG_IOCTL_GET_L2_DATA, &d);
			// the recorded key bytes were really received
			bool found = false; for (size_t i = 0; i + 1 < k.bus.ecu_rx.size(); i++) if ((k.bus.ecu_rx[i].b & 0x7f) == (d.kb1 & 0x7f) && k.bus.ecu_rx[i + 1].b == d.kb2) found = true;
			CHECK(found, "start:keybytes", "recorded key bytes %02x %02x were never received together", d.kb1, d.kb2);
		}
		{ FaultsOff off; k.s.stop(); }
		k.bus.settle((k.fast ? 300 : 2300) * MS + rnd("v.idle", 1000) * MS);
	}
	FaultsOff off;
	idle(1 * SEC);
	if (k.ecu.st != Ecu14230::IDLE) idle(5500 * MS);
	start_good(k); good_exchange(k, true);
	k.finish();
}
// ------------------------------------------------------------------ C08
SCENARIO("C08", exch_clean, 1) {
	host_good();
	KW k; k.setup(); k.up(); start_good(k);
	int n = 1 + rnd("n.ex", 6);
	while (n--) { good_exchange(k, true); if (chance("k.gap", 0.3)) idle(rnd("v.gap", 2800) * MS); }
	sample("clean exchanges kb1 %02x opts %x p1 %llu", k.ecu.kb1, k.opts, (unsigned long long)k.ecu.p1 / MS);
	k.s.stop(); CHECK(k.ecu.badframes == 0, "stop:malformed", "malformed stop request");
	k.finish();
}
static void recv_cb(void *h, struct diag_msg *m) { auto v = (std::vector<Msg> *)h; for (auto &x : chain(m)) v->push_back(x); }
SCENARIO("C08", exch_sendrecv, 0.6) {
	host_good();
	KW k; k.setup(); k.up(); start_good(k);
	int n = 1 + rnd("n.ex", 4);
	while (n--) {
		Bytes q = k.rnd_req(k.maxreq()); auto v = rnd_rsps(k, q, true);
		bool oversize = chance("k.over", 0.15);
		if (oversize) { u32 m = k.maxreq(); q = rnd_bytes("v.over", m + 1 + rnd("v.overn", chance("k.overb", 0.4) ? 2 : 600)); q[0] = 0x21; }
		k.ecu.plan.clear(); k.ecu.plan.push_back(v);
		struct diag_msg msg; memset(&msg, 0, sizeof msg); msg.data = q.data(); msg.len = q.size();
		if (k.ecu.long_ok() && chance("k.ownaddr", 0.3)) { msg.src = 1 + rnd("v.osrc", 255); if (rnd("k.odest", 2)) msg.dest = k.func && rnd("k.ophys", 2) ? k.ecu.addr : k.tgt; }
		size_t mk = k.bus.bus.size();
		if (!oversize && chance("k.twice", 0.3)) {   // a request that nobody reads the answer of
			Bytes q1 = k.rnd_req(k.maxreq()); k.ecu.plan.push_front({}); struct diag_msg m1; memset(&m1, 0, sizeof m1); m1.data = q1.data(); m1.len = q1.size();
			set_op("send"); op_deadline(now() + 60 * SEC); int r1 = diag_l2_send(k.s.conn, &m1); op_deadline(0); CHECK(r1 == 0 && !k.ecu.got.empty() && k.ecu.got.back().b == q1, "send:first", "send returned %d", r1);
		}
		size_t m2 = k.bus.bus.size(); set_op("send"); op_deadline(now() + 60 * SEC); int rv = diag_l2_send(k.s.conn, &msg); op_deadline(0); ev("send %d", rv);
		if (!oversize && m2 && k.bus.bus.size() > m2) CHECK(k.bus.bus[m2].t0 >= k.bus.bus[m2 - 1].t1 + 55 * MS, "tx:p3min", "request started %.3f ms after the last byte on the bus (P3min is 55 ms)", ((double)k.bus.bus[m2].t0 - k.bus.bus[m2 - 1].t1) / 1e6);
		if (oversize) {
			CHECK(rv < 0, "send:oversize", "a request of %zu bytes, which the agreed format cannot carry, was accepted", q.size());
			for (size_t i = mk; i < k.bus.bus.size(); i++) CHECK(k.bus.bus[i].src != 0, "send:oversize-tx", "part of a refused request was sent");
			continue;
		}
		CHECK(rv == 0, "send:failed", "healthy send failed with %d", rv);
		CHECK(!k.ecu.got.empty() && k.ecu.got.back().b == q, "send:data", "the ECU did not get the request");
		if (k.ecu.long_ok()) { const Bytes &h = k.ecu.heads.back(); CHECK(h[1] == (msg.dest ? msg.dest : k.tgt) && h[2] == (msg.src ? msg.src : k.src) && (h[0] & 0xC0) == (k.func ? 0xC0 : 0x80), "send:address", "request from %02x to %02x (session: %02x, %02x) sent as %02x %02x %02x", msg.src, msg.dest, k.src, k.tgt, h[0], h[1], h[2]); }
		check_tester_timing(k, mk, true);
		std::vector<Msg> got; set_op("recv"); op_deadline(now() + 60 * SEC);
		rv = diag_l2_recv(k.s.conn, 200, recv_cb, &got); op_deadline(0); ev("recv %d", rv);
		ReqResult r; r.m = got; r.err = rv; r.null = rv < 0;
		expect_exact(k, v, r);
		if (chance("k.silent", 0.2)) { std::vector<Msg> g2; u64 t0 = now(); rv = diag_l2_recv(k.s.conn, 100, recv_cb, &g2); CHECK(rv == DIAG_ERR_TIMEOUT && g2.empty(), "recv:silence", "receive on a silent bus returned %d", rv); CHECK(now() - t0 + MS >= 100 * MS, "recv:early", "receive gave up early"); }
	}
	sample("separate send and receive");
	k.finish();
}
SCENARIO("C08", exch_faults, 2.5) {
	host_good();
	KW k; k.setup(); k.up(); start_good(k);
	swarm({"f.bus.drop", "f.bus.flip", "f.bus.dup", "f.bus.gap", "f.bus.noise", "f.bus.trunc", "f.ecu.silent", "f.ecu.late", "f.ecu.badcs", "f.echo.lost", "f.echo.flip", "f.echo.late", "f.read.eio", "f.sel.err", "f.read.eintr", "f.sel.late", "f.oversleep", "f.write.eio", "f.read.short"}, 0.25, 0.005, 0.2);
	int n = 1 + rnd("n.ex", 6);
	u64 sess_ok = 0; (void)sess_ok;
	while (n--) {
		Bytes q = k.rnd_req(k.maxreq()); auto v = rnd_rsps(k, q, true);
		if (chance("k.badcs", 0.2)) { v[rnd("v.badi", v.size())].badcs = true; count("p.badcs"); }
		k.ecu.plan.clear(); k.ecu.plan.push_back(v);
		if (chance("k.noise", 0.1)) { k.bus.noise(rnd_bytes("v.noise", 1 + rnd("v.noisen", 20)), now() + rnd("v.noiset", 500) * MS); count("f.noise"); }
		size_t mark = k.bus.mark(); int ff = faults_fired; u32 ns = count_of("f.noise");
		auto r = do_request(k, q, 90 * SEC);
		soundness(k, mark, r);
		bool bad = false; for (auto &x : v) bad |= x.badcs;
		if (bad && !r.null) { size_t nb = 0; for (auto &m : r.m) nb += !!(m.fmt & DIAG_FMT_BADCS); (void)nb; }
		if (faults_fired == ff && ns == count_of("f.noise") && !bad && ff == 0 && ns == 0) expect_exact(k, v, r);
		if (chance("k.gap", 0.3)) idle(rnd("v.gap", 1500) * MS);
	}
	// faults stop: the session, or a new one, works again
	FaultsOff off; clear_rates();
	k.bus.settle((300 + rnd("v.settle", 500)) * MS);
	k.ecu.check_alive(now() + 1 * SEC);
	if (k.ecu.st == Ecu14230::SESSION) {
		bool ok = false;
		for (int i = 0; i < 3 && !ok; i++) {
			Bytes q = k.rnd_req(k.maxreq()); auto v = rnd_rsps(k, q, true);
			k.ecu.plan.clear(); k.ecu.plan.push_back(v);
			size_t mark = k.bus.mark();
			auto r = do_request(k, q, 60 * SEC); soundness(k, mark, r);
			ok = !r.null && r.m.size() == v.size(); for (size_t j = 0; ok && j < v.size(); j++) ok = r.m[j].d == v[j].d;
			if (!ok) idle(300 * MS);
		}
		CHECK(ok, "recovery", "three requests failed after the faults had stopped");
		good_exchange(k, true);
	}
	k.s.stop(); idle(5500 * MS);
	start_good(k); good_exchange(k, true);
	sample("exchanges under bus faults");
	k.finish();
}
// ------------------------------------------------------------------ C09
struct Step { int pend; std::vector<u64> gaps; int fin; u8 nrc; u64 fgap; Bytes pos; std::vector<Bytes> more; };   // fin: 0 positive, 1 busy, 2 negative, 3 nothing
static void nrc_run(bool faulty) {
	host_good();
	KW k; k.setup(); k.ecu.kb1 |= 8; k.up(); start_good(k);
	if (faulty) swarm({"f.bus.drop", "f.bus.flip", "f.bus.trunc", "f.ecu.silent", "f.ecu.late", "f.ecu.badcs", "f.echo.flip", "f.read.eio"}, 0.3, 0.01, 0.2);
	int n = 1 + rnd("n.ex", 4);
	while (n--) {
		Bytes q = k.rnd_req(12);
		std::vector<Step> script; int busies = 0; bool ends = false;
		while (!ends) {
			Step s; s.pend = chance("k.pend", 0.5) ? 1 + rnd("n.pend", 4) : 0;
			for (int i = 0; i < s.pend; i++) s.gaps.push_back(i == 0 ? (25 + rnd("v.g0", 20)) * MS : (chance("k.longgap", 0.4) ? 100 + rnd("v.lg", 4500) : 25 + rnd("v.g", 20)) * MS);
			s.fin = rnd("v.fin", 4); if (s.fin == 1 && ++busies > 5) s.fin = 0;
			s.fgap = (s.pend && chance("k.longfin", 0.4) ? 100 + rnd("v.lf", 4500) : 25 + rnd("v.f", 20)) * MS;
			static const u8 nr[] = {0x10, 0x11, 0x12, 0x22, 0x31, 0x33, 0x80, 0x23, 0x24, 0x7E, 0x77, 0x79, 0x20, 0x79};
			s.nrc = nr[rnd("v.nrc", 14)];
			s.pos = cat({(u8)((q[0] | 0x40) == 0x7F ? 0x50 : (q[0] | 0x40))}, rnd_bytes("v.pos", rnd("v.posn", 10)));
			if (chance("k.multi", 0.3)) for (u32 i = 1 + rnd("n.more", 3); i--;) s.more.push_back(cat({s.pos[0]}, rnd_bytes("v.pos", 1 + rnd("v.posn", 10))));
			script.push_back(s); ends = s.fin != 1;
		}
		// reference outcome
		size_t arrivals = 0; int out = 3; const Step *fs = nullptr;
		for (auto &s : script) { arrivals++; fs = &s; out = s.fin; if (s.fin != 1) break; if (arrivals == 4) break; }
		size_t step = 0, arr = 0;
		k.ecu.handler = [&](const Bytes &d) {
			std::vector<Rsp> v; if (d != q) { return v; }
			arr++;
			if (step >= script.size()) return v;
			Step &s = script[step++];
			for (int i = 0; i < s.pend; i++) { Rsp r; r.p2 = s.gaps[i]; r.d = {0x7F, q[0], 0x78}; v.push_back(r); }
			Rsp r; r.p2 = s.fgap;
			if (s.fin == 0) r.d = s.pos; else if (s.fin == 1) r.d = {0x7F, q[0], 0x21}; else if (s.fin == 2) r.d = {0x7F, q[0], s.nrc}; else return v;
			v.push_back(r); if (s.fin == 0 || s.fin == 2) for (auto &x : s.more) { Rsp m; m.p2 = (25 + rnd("v.g", 18)) * MS; m.d = x; v.push_back(m); }
			return v;
		};
		int ff = faults_fired; size_t mark = k.bus.mark(); u64 t0 = now();
		auto r = do_request(k, q, 400 * SEC);
		k.ecu.handler = nullptr;
		soundness(k, mark, r);
		CHECK(arr <= 4, "busy:resends", "the request was sent %zu times", arr);
		if (!r.null && !(r.m[0].fmt & DIAG_FMT_BADCS)) {
			if (r.m[0].d[0] == 0x7F) CHECK(r.err == DIAG_ERR_ECUSAIDNO, "neg:noerror", "a negative answer was returned without an error");
			else CHECK(r.err == 0, "pos:error", "a positive answer was returned with error %d", r.err);
			if (r.m[0].d.size() >= 3 && r.m[0].d[0] == 0x7F) CHECK(r.m[0].d[2] != 0x78 && r.m[0].d[2] != 0x21, "neg:final", "a pending or busy answer was returned as the result");
		}
		if (faults_fired == ff && ff == 0) {
			CHECK(arr == arrivals, "busy:count", "the request should have been sent %zu times, was sent %zu times", arrivals, arr);
			if (out == 0) { CHECK(!r.null && r.err == 0 && r.m.size() == 1 + fs->more.size() && r.m[0].d == fs->pos, "pos:lost", "the final positive answer [%s] was not returned (err %d)", hex(fs->pos).c_str(), r.err); for (size_t i = 0; i < fs->more.size(); i++) CHECK(r.m[i + 1].d == fs->more[i], "pos:lost", "message %zu of the answer was not returned", i + 2); }
			else if (out == 2) { CHECK(!r.null && r.err == DIAG_ERR_ECUSAIDNO && r.m.size() == 1 + fs->more.size() && r.m[0].d == Bytes({0x7F, q[0], fs->nrc}), "neg:lost", "the refusal with code %02x was not returned (err %d, %s)", fs->nrc, r.err, r.null ? "nothing" : hex(r.m[0].d).c_str()); }
			else CHECK(r.null && r.err < 0, "none:invented", "no final answer was sent but one was returned [%s]", r.null ? "" : hex(r.m[0].d).c_str());
		}
		(void)t0;
		sample("script of %zu arrivals, outcome %d", arrivals, out);
		if (faulty) { FaultsOff o; idle(6 * SEC); if (k.ecu.st != Ecu14230::SESSION) break; }
		else if (out == 3) { idle(100 * MS); k.ecu.check_alive(now()); if (k.ecu.st != Ecu14230::SESSION) break; }
	}
	FaultsOff off;
	// nothing of the earlier answers is taken for the next
	k.ecu.check_alive(now());
	if (!faulty && k.ecu.st == Ecu14230::SESSION) good_exchange(k, false);
	k.s.stop(); idle(5500 * MS);
	start_good(k); good_exchange(k, false);
	k.finish();
}
SCENARIO("C09", nrc_clean, 2) { nrc_run(false); }
SCENARIO("C09", nrc_faults, 1) { nrc_run(true); }
SCENARIO("C09", nrc_endless, 0.3) {
	// an ECU that only says "pending" or "busy" for ever
	host_good(); KW k; k.setup(); k.up(); start_good(k);
	Bytes q = k.rnd_req(8); u8 code = rnd("v.code", 2) ? 0x21 : 0x78; u64 g = (25 + rnd("v.g", 3000)) * MS; bool stop = false;
	std::function<void(u64)> more = [&](u64 t) { at(t, [&, t]() { if (stop) return; Rsp r; r.d = {0x7F, q[0], 0x78}; Bytes f = k.ecu.frame(r); more(k.bus.ecu_tx(&k.ecu, f, now()) + g); k.ecu.last = now(); }); };
	k.ecu.handler = [&](const Bytes &d) { std::vector<Rsp> v; if (d != q) return v; if (code == 0x21) { Rsp r; r.d = {0x7F, q[0], 0x21}; v.push_back(r); } else more(now() + 30 * MS); return v; };
	auto r = do_request(k, q, 300 * SEC);
	CHECK(r.null && r.err < 0, "endless:result", "an endless series of %02x gave a result", code);
	stop = true; k.ecu.handler = nullptr; idle(5 * SEC); k.s.stop(); idle(5500 * MS);
	start_good(k); good_exchange(k, false);
	sample("endless %02x", code);
	k.finish();
}
