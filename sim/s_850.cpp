// C32: what the terminal user is told about a Volvo's ECUs, and what is done to them.
#include "volvo.h"
#include "car.h"
SCENARIO("C32", v850_clean, 1.5) {
	host_good(); Volvo v; v.make(); v.up(); u32 n = 1 + rnd("n.sess", 3);
	while (n--) {
		if (chance("k.unconn", 0.3)) { VCmd c = v.query(); size_t l0 = v.log.size(); v.u.p.cmd(c.line); CHECK(v.u.p.said("not connected") && v.log.size() == l0, "cli:unconnected", "'%s' without a connection: %.200s", c.line.c_str(), v.u.p.out.c_str()); }
		if (chance("k.badecu", 0.3)) {
			static const char *no[] = {"0x80", "128", "0x10001", "256", "0x51x", "0x", "xyz", "comb", "combix", "12ab", "m4", "0x17a", "999999999999999999999", "7az"}; std::string b = no[rnd("v.badecu", 14)]; size_t l0 = v.log.size(); int i0 = v.z.k.inits; v.u.p.cmd("850 connect " + b); CHECK(v.u.p.out.find("Unknown ECU '" + b + "'") != std::string::npos && v.log.size() == l0 && v.z.k.inits == i0 && global_state < STATE_CONNECTED, "cli:badecu", "'850 connect %s': %.200s", b.c_str(), v.u.p.out.c_str());
			v.u.p.cmd(rnd("k.q", 2) ? "850 connect ?" : "850 connect ? "); for (auto &e : VECU) { std::string d = e.desc; d[0] = toupper(d[0]); CHECK(v.u.p.out.find(std::string(" ") + e.name + "\t" + d + "\n") != std::string::npos, "cli:ecus", "%s is not in the list: %.800s", e.name, v.u.p.out.c_str()); }
		}
		std::vector<u8> ts(v.present.begin(), v.present.end()); v.connect(ts[rnd("v.which", (u32)ts.size())]); u32 m = 1 + rnd("n.cmd", 8); v.odds = chance("k.odds", 0.4) ? 0.15 : 0;
		while (m--) {
			u32 w = rnd("v.what", 10); FaultsOff off;
			if (w == 0) {
				static const char *bad[] = {"850 read 0x100", "850 read xyz", "850 read *", "850 peek 12q", "850 peek 5.4", "850 readnv 0x1ff", "850 freeze 1000", "850 freeze ZZ-1", "850 peek 1 2 foo", "850 read 2 *", "850 peek 1.5x", "850 peek 5wx", "850 peek 5w.7", "850 peek 5.", "850 read 1 live 2", "850 readnv 5x", "850 readnv 1 stream", "850 readnv 2 live", "850 freeze 1 live", "850 freeze 2 stream", "850 read 65537", "850 read 0x10001", "850 peek 0x10000", "850 peek 4.0x10004", "850 readnv 65537", "850 freeze 65537", "850 freeze 1 all", "850 read 5 *7q", "850 read 5w", "850 peek *5", "850 freeze *5", "850 read 5.6",    // those that cannot be taken
					"850 read", "850 peek live", "850 dtc foo", "850 ping x", "850 read 1 live stream", "850 read 3 stream live", "850 read live", "850 peek stream", "850 peek", "850 readnv", "850 freeze", "850 id x", "850 dtc tips x", "850 cleardtc x", "850 resetsrl x", "850 disconnect x", "850 dumpram", "850 sendreq", "850 scan-all x",    // and those whose use has to be explained
					"850 connect 1", "850 connect 0x51", "850 connect combi", "850 scan-all", "850 adc 1", "850 adc 0x100", "850 connect abs"};
				std::string b; if (rnd("k.badname", 3) == 1) b = "850 freeze " + v.no_name(); else b = bad[rnd("v.bad", 58)]; size_t l0 = v.log.size(); const std::string &o = v.u.p.cmd(b); CHECK(v.log.size() == l0, "cli:badarg", "'%s' sent requests to the ECU", b.c_str()); u32 k = 0; while (k < 58 && b != bad[k]) k++;
				if (k < 32 || k == 58) CHECK(v.u.p.said("Invalid (identifier|address)"), "cli:badarg", "'%s': %.200s", b.c_str(), o.c_str()); else if (k < 51) CHECK(v.u.p.said("usage|too (few|many) arg|invalid identifier"), "cli:badarg", "'%s': %.200s", b.c_str(), o.c_str()); else if (k == 55 || k == 56) CHECK(v.u.p.said("not available"), "cli:badarg", "'%s': %.200s", b.c_str(), o.c_str()); else CHECK(o.find("Already connected to " + vdesc(v.tgt) + ".") != o.npos, "cli:badarg", "'%s': %.200s", b.c_str(), o.c_str());
				if (b == "850 freeze 1000") CHECK(o.find("Did you mean " + vpfx(v.tgt) + "-1000?") != o.npos, "cli:badarg", "'%s': %.200s", b.c_str(), o.c_str()); CHECK(global_state == STATE_CONNECTED && global_l2_conn, "cli:badarg", "'%s' ended the session", b.c_str()); count("p.badarg");
			}
			else if (w == 1) {    // repeated display
				VCmd c; do c = v.query(); while (c.line.compare(0, 8, "850 read") && c.line.compare(0, 8, "850 peek")); if (!c.line.compare(0, 10, "850 readnv")) { v.run(c, false); continue; } double od = v.odds; v.odds = 0; v.vary = rnd("k.vary", 3) != 0; v.repeated(c, rnd("k.live", 3) != 0); v.odds = od;
			} else v.run(v.query(), false);
			if (rnd("k.gap", 2)) idle(rnd("v.gap", 4000) * MS);
		}
		v.odds = 0; v.tidy(); v.u.must("850 disconnect", "Disconnected"); CHECK(v.u.p.out.find("Disconnected from " + vdesc(v.tgt) + ".\n") != std::string::npos, "cli:disconnected", "%.200s", v.u.p.out.c_str());
	}
	sample("850 commands, %zu ECUs", v.present.size()); v.u.bye(rnd("k.eof", 3) ? "quit" : nullptr);
}
SCENARIO("C32", v850_change, 1) {
	// what changes something in the car: only when confirmed, and what is said about it is true
	host_good(); Volvo v; v.make(); v.up(); v.present.insert(0x51); std::vector<u8> ts(v.present.begin(), v.present.end()); bool read = false; v.odds = 0; u32 n = 1 + rnd("n.cmd", 7); v.tgt = 0; double od = chance("k.odds", 0.4) ? 0.15 : 0;
	while (n--) {
		if (!v.tgt && rnd("k.conn", 4)) { v.connect(ts[rnd("v.which", (u32)ts.size())]); read = false; }
		static const char *yn[] = {"y", "yes", "Y", "YES", "n", "", "yess", "no", "yy"}; size_t l0 = v.log.size(); int oh = v.odd_hits; u32 w = rnd("v.what", 5); v.odds = od; auto sent = [&](u8 s) { int k = 0; for (size_t i = l0; i < v.log.size(); i++) if (v.log[i].q[0] == s) k++; return k; }; auto yes = [&](u32 a) { return a < 4; };
		if (w == 0 && v.tgt) { VCmd c = v.list(); v.run(c, false); if (v.u.p.said("Stored DTCs:|No stored DTCs")) read = true; }
		else if (w <= 2) {
			u32 a = rnd("v.yn", 9), b = rnd("v.yn2", 9); if (rnd("k.yes", 2)) a = rnd("v.y", 4); if (rnd("k.yes2", 2)) b = rnd("v.y2", 4); Bytes had = v.tgt ? v.dtcs[v.tgt] : Bytes(); v.u.p.cmd("850 cleardtc");
			if (!v.tgt) { CHECK(v.u.p.said("not connected"), "clear:unconnected", "%.200s", v.u.p.out.c_str()); continue; }
			CHECK(v.log.size() == l0 && v.u.p.said("sure"), "clear:unasked", "no question before clearing: %.200s", v.u.p.out.c_str()); v.u.p.cmd(yn[a]); bool go = yes(a);
			if (go && !read) { CHECK(v.log.size() == l0 && v.u.p.said("haven't read"), "clear:unread", "no second question although the codes were not read: %.200s", v.u.p.out.c_str()); v.u.p.cmd(yn[b]); go = yes(b); }
			bool odd = v.odd_hits != oh; if (!go) { CHECK(v.log.size() == l0 && v.u.p.said("not done") && v.dtcs[v.tgt] == had, "clear:unconfirmed", "not confirmed, but %zu requests were sent: %.200s", v.log.size() - l0, v.u.p.out.c_str()); continue; }
			bool pos = false; for (size_t i = l0; i < v.log.size(); i++) if (v.log[i].q[0] == 0xAF && !v.log[i].a.empty() && v.log[i].a[0] == Bytes({0xEF, 1})) pos = true; bool done = v.u.p.said("\\bDone\\b"), none = v.u.p.said("No DTCs to clear"), fail = v.u.p.said("Failed"); CHECK(done + none + fail == 1, "clear:result", "the result is not clear: %.200s", v.u.p.out.c_str());
			if (done) CHECK(pos && v.dtcs[v.tgt].empty(), "clear:phantom", "'Done', but the ECU did not clear its codes"); if (none) CHECK(had.empty() || odd, "clear:none", "'No DTCs to clear', but there are %zu", had.size()); if (!odd) { CHECK(none == had.empty() && done == pos, "clear:wrong", "%zu codes, cleared %d: %.200s", had.size(), pos, v.u.p.out.c_str()); CHECK(sent(0xAF) == (had.empty() ? 0 : 1), "clear:requests", "%d clear requests", sent(0xAF)); } if (none && odd && !had.empty()) VIOL("clear:none", "'No DTCs to clear' after a spoilt answer");
			count("p.clear");
		} else if (w == 3) {
			u32 a = rnd("k.yes", 3) ? rnd("v.y", 4) : rnd("v.yn", 9); v.u.p.cmd("850 resetsrl"); CHECK(v.log.size() == l0 && v.u.p.said("sure"), "srl:unasked", "no question before the reset: %.200s", v.u.p.out.c_str()); v.u.p.cmd(yn[a]);
			if (!yes(a)) { CHECK(v.log.size() == l0 && v.u.p.said("not done"), "srl:unconfirmed", "not confirmed, but %zu requests were sent", v.log.size() - l0); continue; }
			bool odd = v.odd_hits != oh, ok = false, ans = false; for (size_t i = l0; i < v.log.size(); i++) { if (v.log[i].q[0] == 0xB0 || v.log[i].q[0] == 0xB2) CHECK(v.log[i].tgt == 0x51, "srl:wrong-ecu", "[%s] was sent to ECU %02x", hex(v.log[i].q).c_str(), v.log[i].tgt); if (v.log[i].q == Bytes({0xB2, 0x30})) { ans = !v.log[i].a.empty(); ok = ans && v.log[i].a[0] == Bytes({0xF2, 0x30}); } }
			if (v.tgt != 0x51) { read = false; v.tgt = 0x51; } bool done = v.u.p.said("^Done|\nDone"), prob = v.u.p.said("Probably done"), fail = v.u.p.said("Failed"); CHECK(done + prob + fail == 1, "srl:result", "the result is not clear: %.300s", v.u.p.out.c_str()); CHECK(sent(0xB2) == 1, "srl:requests", "%d reset requests", sent(0xB2));
			if (done) CHECK(ok, "srl:phantom", "'Done' without the ECU's confirmation"); if (prob) CHECK(!ans || odd, "srl:probably", "'Probably done' although the ECU answered"); if (!odd) CHECK(done == ok && prob == (!ans && v.unlock_ok), "srl:wrong", "unlocked %d answered %d positive %d: %.300s", v.unlock_ok, ans, ok, v.u.p.out.c_str()); count("p.srl");
		} else if (v.tgt) {
			if (rnd("k.badtest", 4) == 1) { static const char *no[] = {"850 test", "850 test fan3", "850 test fan1 x", "850 test fan"}; const char *b = no[rnd("v.badtest", 4)]; v.u.p.cmd(b); CHECK(v.log.size() == l0 && v.u.p.said("Usage") && v.u.p.said(v.tgt == 0x7a ? "fan2" : "No available tests"), "test:bad", "'%s': %.200s", b, v.u.p.out.c_str()); continue; }
			bool f2 = rnd("k.fan2", 2); v.u.p.cmd(f2 ? "850 test fan2" : "850 test fan1"); if (v.tgt != 0x7a) { CHECK(v.log.size() == l0, "test:wrong-ecu", "a fan test was sent to ECU %02x", v.tgt); continue; }
			bool pos = v.log.size() > l0 && !v.log[l0].a.empty() && v.log[l0].a[0] == Bytes({0xF0, (u8)(f2 ? 0x1f : 0x0e)}); CHECK(v.log.size() == l0 + 1 && v.log[l0].q == Bytes({0xB0, (u8)(f2 ? 0x1f : 0x0e), 0x32, 3}), "test:request", "the fan test sent %zu requests", v.log.size() - l0); if (v.odd_hits == oh) CHECK(v.u.p.said("Activating") == pos && v.u.p.said("Unable") == !pos, "test:result", "the ECU %s, the user was told: %.200s", pos ? "agreed" : "refused", v.u.p.out.c_str()); else if (v.u.p.said("Activating")) CHECK(pos, "test:phantom", "'Activating' without the ECU's agreement"); count("p.fan");
		}
		if (v.tgt && chance("k.disc", 0.2)) { v.odds = 0; v.tidy(); v.u.must("850 disconnect", "Disconnected"); v.tgt = 0; read = false; }
	}
	v.odds = 0; sample("850 actions"); v.tidy(); v.u.bye(rnd("k.eof", 3) ? "quit" : nullptr);
}
SCENARIO("C32", v850_scanall, 0.25) {
	host_good(); Volvo v; v.make(); v.up(); if (chance("k.odds", 0.4)) v.odds = 0.1; std::string o = v.u.p.cmd("850 scan-all", 4000 * SEC); bool odd = v.odd_hits; v.odds = 0; std::vector<std::string> want; static const u8 ad[] = {0x01, 0x11, 0x18, 0x29, 0x2d, 0x2e, 0x2f, 0x41, 0x51, 0x58, 0x6e, 0x7a}; int n = 0;
	for (u8 a : ad) if (v.present.count(a)) { n++; v.tgt = a; VCmd c = v.ident(); want.insert(want.end(), c.want.begin(), c.want.end()); c = v.list(); want.insert(want.end(), c.want.begin(), c.want.end()); }
	auto cnt = [&](const char *s) { int k = 0; for (size_t i = o.find(s); i != o.npos; i = o.find(s, i + 1)) k++; return k; }; CHECK(cnt("\nConnected to") == n && cnt("Couldn't connect") == 12 - n && cnt("Disconnected from") == n && o.find("Scan-all done") != o.npos, "scanall:ecus", "%d ECUs are there: %.1500s", n, o.c_str());
	auto got = Volvo::shown(o); if (!odd) CHECK(got == want, "scanall:data", "shown [%s], the ECUs say [%s]", Volvo::j(got).c_str(), Volvo::j(want).c_str()); else { size_t k = 0; for (auto &w : want) if (k < got.size() && got[k] == w) k++; CHECK(k == got.size(), "scanall:invented", "shown [%s], the ECUs say [%s]", Volvo::j(got).c_str(), Volvo::j(want).c_str()); }
	for (auto &q : v.log) CHECK(q.q[0] != 0xAF && q.q[0] != 0xB0 && q.q[0] != 0xB2, "scanall:change", "scan-all sent [%s]", hex(q.q).c_str()); sample("scan-all over %d ECUs", n); v.u.bye();
}
SCENARIO("C32", v850_faults, 1) {
	host_good(); Volvo v; v.make(); v.up(); std::vector<u8> ts(v.present.begin(), v.present.end()); v.connect(ts[rnd("v.which", (u32)ts.size())]); if (rnd("k.odds", 2)) v.odds = 0.1; u32 n = 1 + rnd("n.cmd", 8);
	swarm({"f.elm.silent", "f.elm.noprompt", "f.elm.err", "f.elm.stall", "f.elm.slow", "f.elm.cut", "f.ecu.silent", "f.elm.rxdrop", "f.elm.drop", "f.elm.garbage", "f.read.eio", "f.sel.err", "f.read.eintr", "f.write.eio", "f.write.short", "f.oversleep", "f.sel.late", "f.malloc"}, 0.2, 0.001, 0.05);
	while (n--) { int f0 = faults_fired; v.run(v.query(), true); if (faults_fired != f0) { FaultsOff off; v.tidy(); } else if (rnd("k.gap", 2)) idle(rnd("v.gap", 3000) * MS); }
	{ FaultsOff off; clear_rates(); v.odds = 0; v.tidy(); v.u.p.cmd("850 ping"); v.tidy(); v.u.p.cmd("850 ping"); if (!v.u.p.said("Pong")) { count("p.reconnect"); v.u.p.cmd("850 disconnect"); v.tidy(); v.connect(v.tgt); } for (int i = 0; i < 3; i++) v.run(v.query(), false); v.u.must("850 disconnect", "Disconnected"); }
	sample("850 commands under faults"); v.u.bye(rnd("k.eof", 3) ? "quit" : nullptr);
}
SCENARIO("C32", v850_other, 0.6) {
	// a session with an ordinary OBD car: the Volvo commands must leave it alone
	host_good(); whole_program = true; Rig g; g.make(true); g.car.make(1 + rnd("n.ecu", 2), true); for (auto &e : g.car.e) { e.sup[1][0] = true; e.sup[1][0x0c] = true; } User u; g.up(); u.up(g.S().t, g.elm ? "elm" : "dumb", g.elm ? g.k.e.baud : 0);
	u.must("scan"); if (global_state != STATE_SCANDONE) VIOL("cli:failed", "the scan of a healthy car failed: %.300s %.300s", u.p.out.c_str(), u.p.err.c_str()); u32 n = 1 + rnd("n.cmd", 6); if (rnd("k.disc", 4) == 1) { u.must("diag disconnect"); }
	while (n--) {
		static const char *cs[] = {"850 ping", "850 dtc", "850 id", "850 cleardtc", "850 resetsrl", "850 read 1", "850 peek 5", "850 freeze all", "850 sendreq 0xb2 0x30", "850 scan-all", "850 test fan1", "850 disconnect", "850 connect 0x51", "850 dumpram x", "850 readnv 1", "850 adc 1"}; u32 k = rnd("v.cmd", 16); bool conn = global_state >= STATE_CONNECTED; if (!conn && (k == 9 || k == 12 || k == 4)) k = 0; 
		size_t l0 = g.got.size(); u.p.cmd(cs[k]); if (u.p.said("sure")) u.p.cmd(rnd("k.n", 3) ? "y" : "n"); for (size_t i = l0; i < g.got.size(); i++) CHECK(g.got[i] == Bytes({1, 0}), "other:sent", "'%s' sent [%s] to a car that is connected with another protocol", cs[k], hex(g.got[i]).c_str());
		CHECK(u.p.said("non-Volvo|not connected|not done"), "other:said", "'%s' with another protocol: %.300s", cs[k], u.p.out.c_str()); if (conn) CHECK(global_state >= STATE_CONNECTED && global_l2_conn, "other:lost", "'%s' lost the other session", cs[k]); if (rnd("k.gap", 2)) idle(rnd("v.gap", 3000) * MS);
	}
	if (!vfs.empty()) for (auto &f : vfs) CHECK(!f.second.exists || f.first != "x", "other:file", "a dump file was made"); sample("850 commands without a Volvo"); u.bye(rnd("k.eof", 3) ? "quit" : nullptr);
}
#include "hostile.h"
SCENARIO("C24", hostile_850, 1) {
	host_good(); Volvo v; v.make(); v.up(); std::vector<u8> ts(v.present.begin(), v.present.end()); v.connect(ts[rnd("v.which", (u32)ts.size())]); v.tester = 0; v.odds = rnd("k.odds", 2) ? 0.2 : 0; hostile_faults(rnd("k.io", 2));
	char t[40]; snprintf(t, sizeof t, "850 connect 0x%02x", v.tgt); Cli c(v.u, v.z.k.s.t); c.base = {t, t, "850 id", "850 dtc", "850 cleardtc", "850 freeze all", "850 freeze 1 2", "850 read 1 2 *3", "850 read temp", "850 peek 0x100w 0x200l 5", "850 adc 1 2", "850 readnv 1 2", "850 ping", "850 resetsrl", "850 test fan1", "850 sendreq 0xb9 0xf0", "850 disconnect"}; c.run(2 + rnd("n.cmd", 12)); sample("850 commands with a disturbed ECU"); c.bye();
}
SCENARIO("C23", oom_850, 0.7) { time_limit = 10800 * SEC;
	host_good(); Volvo v; v.make(); v.up(); std::vector<u8> ts(v.present.begin(), v.present.end()); u8 tg = ts[rnd("v.which", (u32)ts.size())]; if (rnd("k.pre", 2)) v.connect(tg); v.tester = 0; char t[40]; snprintf(t, sizeof t, "850 connect 0x%02x", tg);
	Cli c(v.u, v.z.k.s.t); c.oom = true; c.base = {t, t, t, "850 id", "850 dtc", "850 cleardtc", "850 freeze all", "850 freeze all", "850 freeze 1 2", "850 read 1 2 *3", "850 read temp", "850 peek 0x100w 0x200l 5", "850 adc 1 2", "850 readnv 1 2", "850 ping", "850 resetsrl", "850 test fan1", "850 sendreq 0xb9 0xf0", "850 disconnect"}; c.run(2 + rnd("n.cmd", 12)); sample("850 commands while allocations fail"); c.bye();
}
