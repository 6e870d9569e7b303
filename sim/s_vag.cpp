// C13: KW1281 (VAG).
#include "vag.h"
#include "wave.h"
SCENARIO("C13", vag_clean, 1) {
	host_good(); VG k; k.setup(); k.up();
	int n = 1 + rnd("n.rounds", 2);
	while (n--) {
		start_good(k, rnd("k.takeid", 2));
		int m = rnd("n.ex", 5);
		while (m--) {
			good_exchange(k);
			if (chance("k.over", 0.1)) {
				Blk q = k.blk(10); q.d = rnd_bytes("v.over", 253 + (rnd("k.overby", 2) ? rnd("v.overby", 3) : rnd("v.overn", 1500))); size_t g0 = k.bus.bus.size();
				if (rnd("k.oreq", 2)) { VRes r = k.request(q); CHECK(r.null && r.err < 0, "send:oversize", "a request of %zu bytes was accepted", q.d.size()); } else CHECK(k.send(q) < 0, "send:oversize", "a block of %zu bytes was accepted", q.d.size());
				CHECK(k.bus.bus.size() == g0, "send:oversize-tx", "part of a refused request was sent");
			}
			if (rnd("k.gap", 2)) idle(rnd("v.gap", chance("k.longgap", 0.2) ? 20000 : 2000) * MS);
			k.sane();
		}
		idle(rnd("v.gap", 3000) * MS); k.sane();
		k.s.stop();
		CHECK(k.ecu.st == Ecu1281::OFF || k.bus.bus.empty(), "stop:early", "stop returned before the ECU's session had ended"); k.ecu.lost = 0;
	}
	sample("clean KW1281, %u baud, r6 %llu r7 %llu", k.ecu.baud, (unsigned long long)(k.ecu.r6 / MS), (unsigned long long)(k.ecu.r7 / MS)); k.finish();
}
SCENARIO("C13", vag_retry, 1.5) {
	// disturbances within the documented number of retries must be recovered
	host_good(); VG k; k.setup(); k.up(); start_good(k, rnd("k.takeid", 2));
	int m = 1 + rnd("n.ex", 4);
	while (m--) {
		Blk q = k.blk(20); Plan1281 p; p.tele = k.tele(4); int kind = rnd("k.kind", 11);
		size_t nb = p.tele.size(); int cnt = 1 + rnd("v.cnt", 3); k.ecu.bad_got.clear();
		if (!nb && (kind == 3 || kind == 4 || kind == 5 || kind == 7 || kind == 9)) { p.tele.push_back(k.blk(10)); nb = 1; }
		switch (kind) {
		case 0: k.ecu.skip_comp = 1; break;
		case 1: k.ecu.bad_comp = cnt; break;
		case 2: p.nack = 1 + rnd("v.nack", 4); break;
		case 3: p.nack_ack = 1 + rnd("v.nack", 4); break;
		case 4: p.tele[rnd("v.which", nb)].badseq = 1 + rnd("v.cnt2", 2); break;
		case 5: { Blk &b = p.tele[rnd("v.which", nb)]; b.badetx = 1 + rnd("v.cnt2", 2); do b.etx = chance("k.etxbit", 0.5) ? 3 ^ 1 << rnd("v.bit", 8) : rnd("v.etx", 256); while (b.etx == 3); break; }
		case 6: k.ecu.misheard = cnt; break;
		case 7: p.tele[rnd("v.which", nb)].noetx = 1; break;
		case 8: p.unknown = true; p.nack = rnd("v.nack", 3); break;
		case 9: for (auto &b : p.tele) b.nack = rnd("v.nack", 5); p.nack = rnd("v.nack", 5); break;
		case 10: p.nack = rnd("v.nack", 5); p.nack_ack = nb ? rnd("v.nack", 5) : 0; break;
		}
		k.ecu.plan.clear(); k.ecu.plan.push_back(p); size_t g0 = k.ecu.got.size();
		VRes r = k.request(q);
		CHECK(!r.null, "retry:gaveup", "one disturbance of kind %d made the exchange fail with %d", kind, r.err);
		CHECK(k.ecu.got.size() == g0 + 1 && k.ecu.got.back().type == q.type && k.ecu.got.back().d == q.d, "request:data", "kind %d: request lost, repeated or altered", kind);
		if (kind == 8) CHECK(r.m.size() == 1 && r.m[0].type == 0x0A, "nak:lost", "the ECU doesn't know the request, but %zu blocks (%02x) were delivered", r.m.size(), r.m[0].type);
		else same(p.tele, r, "answer");
		k.ecu.skip_comp = k.ecu.bad_comp = k.ecu.misheard = 0;
		CHECK(k.ecu.lost == 0, "session:lost", "the ECU gave the session up (kind %d)", kind);
		k.sane(); if (rnd("k.gap", 2)) idle(rnd("v.gap", 2000) * MS);
		sample("KW1281 recovers disturbance %d", kind);
	}
	good_exchange(k); k.sane(); k.finish();
}
SCENARIO("C13", vag_giveup, 1) {
	// more disturbances than the retries: a bounded failure, and a new start works
	host_good(); VG k; k.setup(); k.up(); start_good(k, true);
	int m = 1 + rnd("n.ex", 2);
	while (m--) {
		Blk q = k.blk(20); Plan1281 p; p.tele = k.tele(4); if (p.tele.empty()) p.tele.push_back(k.blk(10)); int kind = rnd("k.kind", 8);
		switch (kind) {
		case 0: k.ecu.skip_comp = 1000; break;
		case 1: k.ecu.bad_comp = 1000; break;
		case 2: p.nack = 5 + rnd("v.nack", 400); break;
		case 3: if (p.tele.size() < 2) p.tele.push_back(k.blk(5)); p.nack_ack = 5 + rnd("v.nack", 400); break;
		case 4: p.tele[rnd("v.which", p.tele.size())].badseq = 1000; break;
		case 5: p.tele[rnd("v.which", p.tele.size())].badetx = 1000; break;
		case 6: k.ecu.misheard = 1000; break;
		case 7: { Blk &b = p.tele[rnd("v.which", p.tele.size())]; u32 l = b.d.size() + 3; b.cut = chance("k.cutend", 0.5) ? l - rnd("v.cut2", 2) : 1 + rnd("v.cut", l); break; }
		}
		k.ecu.plan.clear(); k.ecu.plan.push_back(p); u64 t0 = now(); int bs0 = k.ecu.blk_starts;
		VRes r = k.request(q);
		if (kind <= 1) CHECK(k.ecu.blk_starts - bs0 <= 1 + 3, "giveup:retries", "the block was started %d times", k.ecu.blk_starts - bs0);
		if (kind != 6 || !r.null) CHECK(r.null && r.err < 0, "giveup:success", "the exchange succeeded although disturbance %d never stopped", kind);
		CHECK(now() - t0 < 120 * SEC, "giveup:slow", "failing exchange took %.3f s", (now() - t0) / 1e9);
		k.ecu.skip_comp = k.ecu.bad_comp = k.ecu.misheard = 0; k.ecu.plan.clear();
		if (chance("k.again", 0.5)) { VRes x = k.request(q); (void)x; if (chance("k.recv", 0.5)) k.recv(); }
		if (chance("k.idle", 0.5)) idle(rnd("v.idle", 4000) * MS);
		k.s.stop(); idle(1200 * MS); k.ecu.bad_got.clear(); k.ecu.off("test"); k.ecu.lost = 0; start_good(k, rnd("k.takeid", 2)); good_exchange(k);
		sample("KW1281 gives up on disturbance %d", kind);
	}
	k.finish();
}
SCENARIO("C13", vag_start, 1) {
	host_good(); VG k; k.setup(); k.up(); int n = 1 + rnd("n.rounds", 3);
	while (n--) {
		k.ecu.bad = 1 + rnd("v.bad", 5); u64 t0 = now(); bool ok = k.start();
		CHECK(!ok, "start:accepted", "start succeeded although the handshake was incomplete (kind %d)", k.ecu.bad);
		CHECK(now() - t0 < 6 * SEC, "start:slow", "failing start took %.3f s", (now() - t0) / 1e9);
		sample("KW1281 start failure %d", k.ecu.bad); k.ecu.bad = 0; k.bus.settle((200 + rnd("v.idle", 1500)) * MS);
		if (chance("k.good", 0.5)) { start_good(k, true); good_exchange(k); k.s.stop(); }
	}
	start_good(k, true); good_exchange(k); k.finish();
}
SCENARIO("C13", vag_wrap, 0.3) {
	// the block counter wraps
	host_good(); VG k; k.setup(); k.ecu.r6 = k.ecu.r7 = 1 * MS; k.ecu.rb = 1 * MS; k.up(); start_good(k, true);
	int n = 100 + rnd("n.many", 80);
	while (n--) {
		Blk q; q.type = 0x21; Plan1281 p; u32 z = rnd("k.z", 4); if (z == 1) { p.tele.push_back({0xE7, {1, 2}}); } if (z == 2) p.nack = 1 + rnd("v.nack", 4);
		if (z == 3) { p.tele.push_back({0xE7, {1, 2}}); p.tele.push_back({0xE8, {}}); p.nack_ack = 1 + rnd("v.nack", 4); }
		k.ecu.plan.clear(); k.ecu.plan.push_back(p); VRes r = k.request(q); same(p.tele, r, "answer");
	}
	k.sane(); sample("KW1281 counter wrap"); k.finish();
}
SCENARIO("C13", vag_late, 0.5) {
	// calls at unusual moments: receive with nothing outstanding, send then a late receive, requests after a lost session
	host_good(); VG k; k.setup(); k.up(); start_good(k, rnd("k.takeid", 2));
	int m = 1 + rnd("n.ex", 5);
	while (m--) switch (rnd("k.what", 5)) {
	case 0: { VRes r = k.recv(); if (r.null) CHECK(r.err < 0, "recv:none", "x"); break; }
	case 1: { Blk q = k.blk(5); k.ecu.plan.clear(); k.send(q); idle(rnd("v.gap", 3000) * MS); k.recv(); break; }
	case 2: idle(rnd("v.gap", 5000) * MS); break;
	case 3: k.bus.ecu_on = false; k.request(k.blk(5)); k.request(k.blk(5)); k.recv(); idle(rnd("v.gap", 3000) * MS); k.bus.ecu_on = true; break;
	case 4: { Blk q = k.blk(5); k.ecu.plan.clear(); k.request(q); break; }
	}
	k.s.stop(); k.ecu.off("test"); idle(1200 * MS); k.ecu.bad_got.clear(); start_good(k, true); good_exchange(k); sample("KW1281 odd moments"); k.finish();
}
SCENARIO("C13", vag_faults, 2) {
	host_good(); VG k; k.setup(); k.up(); start_good(k, rnd("k.takeid", 2)); bool idgone = false; (void)idgone;
	swarm({"f.bus.drop", "f.bus.dup", "f.bus.gap", "f.bus.noise", "f.echo.lost", "f.echo.flip", "f.echo.late", "f.read.eio", "f.sel.err", "f.read.eintr", "f.sel.late", "f.oversleep", "f.write.eio", "f.read.short", "f.malloc"}, 0.15, 0.001, 0.05);
	if (rnd("k.which", 2)) swarm({"f.bus.flip"}, 0.5, 0.002, 0.05); else swarm({"f.ecu.misread", "f.ecu.nocomp"}, 0.5, 0.002, 0.05);
	int n = 1 + rnd("n.ex", 5);
	while (n--) {
		Blk q = k.blk(30); Plan1281 p; p.tele = k.tele(4); if (chance("k.nk", 0.15)) p.nack = rnd("v.nack", 3); if (chance("k.unk", 0.1)) p.unknown = true;
		k.ecu.plan.clear(); k.ecu.plan.push_back(p); size_t g0 = k.ecu.got.size(); int ff = faults_fired;
		VRes r = k.request(q);
		if (!ff && faults_fired == ff && !p.unknown) same(p.tele, r, "answer");
		if (!r.null) {
			if (k.ecu.got.size() == g0 + 1) { CHECK(k.ecu.got.back().type == q.type && (k.ecu.got.back().d == q.d || k.ecu.byte_faults), "request:data", "the ECU got another request than was sent"); if (!(r.m.size() == 1 && r.m[0].type == 0x0A)) same(p.tele, r, "answer"); }
		} else CHECK(r.err < 0, "request:no-error", "no answer but the error code is %d", r.err);
		if (r.null && rnd("k.restart", 2)) { FaultsOff off; k.s.stop(); k.bus.settle(1500 * MS); k.ecu.off("test"); if (!k.start()) { k.bus.settle(500 * MS); if (!k.start()) VIOL("start:refused", "a start without faults failed"); } }
		k.bus.settle(rnd("v.gap", 600) * MS);
	}
	FaultsOff off; clear_rates(); k.s.stop(); k.bus.settle(1500 * MS); k.ecu.off("test"); k.ecu.bad_got.clear(); k.ecu.lost = 0; k.ecu.min_comp = ~0ull;
	start_good(k, true); good_exchange(k); k.sane();
	sample("KW1281 under faults"); k.finish();
}
SCENARIO("C06", wave_vag, 0.3) {
	host_good(); VG k; k.setup(); k.up();
	wave_rounds(k, k.ecu.baud, 300 * MS, [&]() { start_good(k, false); }, [&]() { good_exchange(k); });
}
