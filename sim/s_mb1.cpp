// C14: MB1.
#include "mb.h"
#include "wave.h"
SCENARIO("C14", mb1_clean, 1) {
	host_good(); MB k; k.setup(); k.up(); int n = 1 + rnd("n.rounds", 2);
	while (n--) {
		start_good(k); int m = rnd("n.ex", 6);
		while (m--) {
			good_exchange(k, chance("k.split", 0.3));
			if (chance("k.over", 0.15)) {
				Bytes q = rnd("k.zero", 3) ? rnd_bytes("v.over", 252 + rnd("v.overn", chance("k.overb", 0.4) ? 3 : 1200)) : Bytes(); size_t mk = k.bus.bus.size(); k.ecu.alive(now()); int kp = k.ecu.keep;
				if (rnd("k.oreq", 2)) { auto r = l2_request(k.s.conn, q, 10 * SEC); CHECK(r.null && r.err < 0, "send:oversize", "a request of %zu bytes was accepted", q.size()); } else CHECK(l2_send(k.s.conn, q, 10 * SEC) < 0, "send:oversize", "a request of %zu bytes was accepted", q.size());
				CHECK(k.bus.bus.size() == mk || k.ecu.keep != kp, "send:oversize-tx", "part of a refused request was sent");
			}
			if (rnd("k.gap", 2)) idle(rnd("v.gap", chance("k.longgap", 0.2) ? 20000 : 1500) * MS);
			k.ecu.alive(now()); CHECK(k.ecu.lost == 0, "session:lost", "the ECU gave the session up: not kept alive within %.1f s", k.ecu.p3max / 1e9);
		}
		idle(rnd("v.gap", 3000) * MS); k.ecu.alive(now()); CHECK(k.ecu.lost == 0, "session:lost", "the ECU gave the session up");
		k.s.stop(); size_t w = k.bus.bus.size(); idle(rnd("v.gap", 3000) * MS); CHECK(k.bus.bus.size() == w, "stop:traffic", "something was sent after the session was stopped"); k.ecu.st = EcuMb::OFF;
	}
	sample("clean MB1 at %u", k.ecu.baud); k.finish();
}
SCENARIO("C14", mb1_start, 1) {
	host_good(); MB k; k.setup(); k.up(); int n = 1 + rnd("n.rounds", 3);
	while (n--) {
		k.ecu.bad = 1 + rnd("v.bad", 6); u64 t0 = now(); bool ok = k.start(); CHECK(!ok, "start:accepted", "start succeeded although the handshake was wrong (kind %d)", k.ecu.bad);
		CHECK(now() - t0 < 6 * SEC, "start:slow", "failing start took %.3f s", (now() - t0) / 1e9); sample("MB1 start failure %d", k.ecu.bad); k.ecu.bad = 0; k.bus.settle((200 + rnd("v.idle", 1500)) * MS);
		if (chance("k.good", 0.5)) { start_good(k); good_exchange(k, false); k.s.stop(); idle(1100 * MS); }
	}
	start_good(k); good_exchange(k, true); k.finish();
}
SCENARIO("C14", mb1_bad, 1.5) {
	// malformed answers are errors, and the next exchange is not disturbed
	host_good(); MB k; k.setup(); k.up(); start_good(k); int n = 1 + rnd("n.ex", 5);
	while (n--) {
		Bytes q = k.req(); RspMb p = k.rsp(); p.bad = 1 + rnd("v.bad", 8); k.ecu.plan.clear(); k.ecu.plan.push_back(p); size_t mark = k.bus.mark(); u64 t0 = now(); ReqResult r;
		bool split = chance("k.split", 0.3);
		if (split) { int rv = l2_send(k.s.conn, q, 20 * SEC); CHECK(rv == 0, "send:failed", "healthy send failed with %d", rv); r = l2_recv(k.s.conn, 1000, 20 * SEC); } else r = l2_request(k.s.conn, q, 20 * SEC);
		sound(k, mark, r); count("p.badframe");
		if (p.bad != 4) CHECK(r.null, "exchange:accepted", "a damaged answer (kind %d) was delivered as [%s]", p.bad, r.m.empty() ? "" : hex(r.m[0].d).c_str());
		CHECK(now() - t0 < 12 * SEC, "exchange:slow", "the exchange took %.3f s", (now() - t0) / 1e9);
		if (p.bad == 7) CHECK(r.err == DIAG_ERR_TIMEOUT, "exchange:silence", "silence was reported as %d", r.err);
		u64 w = rnd("k.wait", 2) ? 0 : rnd("v.gap", 500) * MS; if (p.bad == 8 || k.bus.sched_end > now()) k.bus.settle(w + 20 * MS); else idle(w);
		if (k.ecu.last + k.ecu.p3max < now() + 300 * MS) { k.s.stop(); idle(1200 * MS); start_good(k); }
		k.ecu.last = now();
		good_exchange(k, chance("k.split", 0.3)); sample("MB1 bad answer %d", p.bad);
	}
	k.finish();
}
SCENARIO("C14", mb1_faults, 1.5) {
	host_good(); MB k; k.setup(); k.up(); start_good(k);
	swarm({"f.bus.drop", "f.bus.flip", "f.bus.dup", "f.bus.gap", "f.bus.noise", "f.bus.trunc", "f.ecu.silent", "f.ecu.late", "f.ecu.badcs", "f.echo.lost", "f.echo.flip", "f.echo.late", "f.read.eio", "f.sel.err", "f.read.eintr", "f.sel.late", "f.oversleep", "f.write.eio", "f.read.short", "f.malloc"}, 0.25, 0.003, 0.1);
	int n = 1 + rnd("n.ex", 6);
	while (n--) {
		Bytes q = k.req(); RspMb p = k.rsp(); k.ecu.plan.clear(); k.ecu.plan.push_back(p); size_t mark = k.bus.mark(); int ff = faults_fired; k.ecu.last = now(); k.ecu.st = EcuMb::SESSION;
		auto r = l2_request(k.s.conn, q, 30 * SEC); sound(k, mark, r);
		if (!ff && faults_fired == ff) CHECK(!r.null && r.m[0].d == p.d, "exchange:data", "healthy exchange failed");
		k.bus.settle(rnd("v.gap", 1000) * MS);
	}
	FaultsOff off; clear_rates(); k.bus.settle(400 * MS); k.s.stop(); k.bus.settle(1200 * MS); start_good(k); good_exchange(k, false); good_exchange(k, true);
	sample("MB1 under faults"); k.finish();
}
SCENARIO("C06", wave_mb1, 0.3) {
	host_good(); MB k; k.setup(); k.up();
	wave_rounds(k, k.ecu.baud, 300 * MS, [&]() { start_good(k); }, [&]() { good_exchange(k, false); });
}
