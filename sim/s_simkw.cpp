// C27: KW1281 sessions (whole blocks) over the simulated car.
#include "vag.h"
namespace {
Bytes frame81(u8 cnt, const Blk &b) { Bytes f = {(u8)(b.d.size() + 3), cnt, (u8)b.type}; f = cat(f, b.d); f.push_back(3); return f; }
std::string rp(const Bytes &f, bool echo, bool rqline = false) { std::string s = rqline ? "RQ" : "RP"; for (size_t i = 0; i < f.size(); i++) { char t[16]; snprintf(t, sizeof t, " 0x%02X", f[i]); s += i == 1 && echo ? rqline ? " XXXX" : " req2+" : t; } return s + "\n"; }
}
SCENARIO("C27", sim_kw1281, 1) {
	host_good(); size_t a0 = 0; lib_up(); a0 = live_allocs(); std::string path = "/sim/vw.db"; int n = 1 + rnd("n.sess", 2);
	while (n--) {
		VG v; u8 tgt = rnd("k.tgt", 2) ? 1 + rnd("v.tgt", 255) : 0x01, kb1 = rnd("k.kb", 2) ? 0x01 : rnd("v.b", 256), kb2 = rnd("k.kb", 2) ? 0x8A : rnd("v.b", 256); if (tgt > 2 && tgt < 0x40) tgt |= 0x40; while ((u8)~kb2 < 0x40 || (u8)~kb2 == tgt) kb2 -= 0x2B; /* a line's beginning decides, blocks start with their length */ bool chain = rnd("k.chain", 2); int cnt = 3; std::string txt = "CFG FRAMED\n"; auto hx = [](u8 b) { char t[8]; snprintf(t, 8, "0x%02X", b); return std::string(t); };
		txt += "RQ " + hx(tgt) + "\nRP 0x55\nRP " + hx(kb1) + "\nRP " + hx(kb2) + "\n";
		// a telegram as the answer to a line already written; in chain mode the counters lead from one block to the next, the last being acknowledged with counter 1
		auto answer = [&](const std::vector<Blk> &t, bool first) {
			if (!chain) { Blk a; a.type = 9; txt += rp(frame81(1, t.empty() ? a : t[0]), !first); return; }
			Blk ack; ack.type = 9; if (t.empty()) { txt += rp(frame81(1, ack), false); return; }
			for (size_t i = 0; i < t.size(); i++) { txt += rp(frame81((u8)cnt, t[i]), false); txt += rp(frame81((u8)(cnt + 1), ack), false, true); cnt += 2; } txt += rp(frame81(1, ack), false);
		};
		auto tele = [&]() { std::vector<Blk> t; u32 m = chain ? rnd("n.blk", 4) : rnd("n.blk", 2); while (m--) { t.push_back(v.blk(chain ? 60 : 250)); } return t; };
		std::vector<Blk> id = tele(); if (id.empty()) id.push_back(v.blk(40)); id[0].type = 0xF6; txt += "RQ " + hx((u8)~kb2) + "\n"; answer(id, true);
		struct Ex { Blk q; std::vector<Blk> a; int bad; }; std::vector<Ex> ex; u32 m = 1 + rnd("n.ex", 5);
		while (m--) {
			Ex x; x.q = v.blk(60); x.a = tele(); x.bad = !rnd("k.bad", 8) ? 1 + rnd("v.bad", 4) : 0; bool dup = false; for (auto &e : ex) if (e.q.type == x.q.type && e.q.d == x.q.d) dup = true; if (dup) continue;
			txt += rp(frame81(0, x.q), true, true); if (x.bad == 1) { Bytes f = frame81(1, v.blk(20)); f[0] += 1 + rnd("v.more", 5); txt += rp(f, false); } else if (x.bad == 2) { Bytes f = frame81(1, v.blk(20)); f[0] = rnd("v.len", 3); txt += rp(f, false); } else if (x.bad == 3) { Bytes f = rnd_bytes("v.short", 1 + rnd("v.sl", 3)); txt += rp(f, false); } else if (x.bad == 4) {} else answer(x.a, false);
			ex.push_back(x);
		}
		{ Blk a; a.type = 9; if (chain) { txt += rp(frame81(2, a), false, true) + rp(frame81(1, a), false); } else txt += rp(frame81(0, a), true, true) + rp(frame81(0, a), true); }
		ev("database\n%s", txt.c_str()); vfs[path].data = Bytes(txt.begin(), txt.end()); vfs[path].exists = true;
		struct diag_l0_device *d = diag_l0_new("CARSIM"); if (!d || !set_cfg(d, "simfile", path.c_str(), 0)) VIOL("setup", "the simulated car cannot be set up");
		set_op("l2_open"); CHECK(diag_l2_open(d, DIAG_L1_ISO9141) == 0, "session:open", "diag_l2_open failed"); op_deadline(now() + 30 * SEC); set_op("start"); v.s.conn = diag_l2_StartCommunications(d, DIAG_L2_PROT_VAG, DIAG_L2_TYPE_SLOWINIT, 0, tgt, 0xF1); op_deadline(0); CHECK(v.s.conn, "session:start", "a KW1281 session over the simulated car cannot be started");
		struct diag_l2_data dd; memset(&dd, 0, sizeof dd); diag_l2_ioctl(v.s.conn, DIAG_IOCTL_GET_L2_DATA, &dd); CHECK(dd.kb1 == kb1 && dd.kb2 == kb2, "session:keybytes", "key bytes %02x %02x recorded instead of %02x %02x", dd.kb1, dd.kb2, kb1, kb2);
		if (rnd("k.idlefirst", 2)) idle(rnd("v.idle", 3000) * MS);
		// (in a file without counters the telegram's further blocks are those the acknowledge gets: none)
		if (rnd("k.take", 2)) same(id, v.recv(rnd("k.rt", 2) * 100), "identification");
		int k = rnd("n.rq", 9); bool dead = false;
		while (k-- && !dead && !ex.empty()) {
			bool unk = !rnd("k.unk", 12); Ex x = ex[rnd("v.x", (u32)ex.size())]; if (unk) { x.q = v.blk(5); for (auto &e : ex) if (e.q.type == x.q.type) unk = false; if (!unk) continue; x.bad = 4; }
			VRes r; if (rnd("k.split", 4) == 1) { int rv = v.send(x.q); CHECK(rv == 0, "send:failed", "sending failed with %d", rv); idle(rnd("v.wait", 300) * MS); r = v.recv(); } else r = v.request(x.q);
			if (x.bad) { CHECK(r.null && r.err < 0, "session:bad", "a %s was delivered as %zu blocks (error %d)", x.bad == 4 ? "missing answer" : "malformed block", r.m.size(), r.err); if (x.bad < 4 && rnd("k.more", 2) == 0) v.request(ex[0].q); dead = true; count("p.bad"); }
			else { same(x.a, r, "answer"); count("p.answered"); }
			if (!dead && rnd("k.idle", 2)) idle(rnd("v.idle", 5000) * MS);
		}
		op_deadline(now() + 30 * SEC); set_op("stop"); diag_l2_StopCommunications(v.s.conn); v.s.conn = nullptr; op_deadline(0); CHECK(diag_l2_close(d) == 0, "session:close", "closing failed"); diag_l0_del(d);
	}
	sample("KW1281 over the simulated car"); lib_down(); end_checks(a0);
}
