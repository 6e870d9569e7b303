// C32: the old Motronic (KWP71 on a K-line), used from the terminal.
#include "volvo.h"
#include "vag.h"
#include "car.h"
namespace {
struct V71 {
	VG k; User u; u64 seed = 0; Bytes dtcs; bool can_clear = true; double odds = 0; int odd_hits = 0; struct Q { u8 type; Bytes d; std::vector<Blk> a; bool ack, no; }; std::vector<Q> log;
	Prng pr(u32 kind, u32 id) const { Prng p(seed * 29 + kind * 1000003 + id); for (int i = 0; i < 3; i++) p.next(); return p; }
	u8 mem(u16 a) const { return pr(1, a).byte(); }
	bool mapped(u16 a) const { return pr(2, a >> 9).below(6) != 0; }
	bool adc(u8 c, Bytes &b) const { Prng p = pr(3, c); b = {p.byte(), p.byte()}; return p.below(5) != 0; }
	void make() {
		whole_program = true; k.setup(); k.speed = 9600; k.ecu.baud = 9600; k.ecu.addr = 0x10; k.ecu.kb1 = 0xAB; k.ecu.kb2 = 0x02; seed = choose("v.volvo", 1u << 30, 1.0); u32 nd = rnd("v.ndtc", 3); dtcs = rnd_bytes("v.dtcs", nd * 5); can_clear = rnd("k.clr", 4) != 0;
		k.ecu.id.clear(); u32 n = 1 + rnd("n.id", 4); for (u32 i = 0; i < n; i++) { Blk b; b.type = 0xF6; Prng p = pr(4, i); for (int j = 0; j < 10; j++) b.d.push_back('0' + p.below(10)); if (i == 1 || i == 3) for (u8 &x : b.d) x = p.byte(); u32 w = rnd("v.idw", 8); if (w == 7) b.d.resize(rnd("v.idl", 10)); if (w == 6) b.d.push_back('5'); if (w == 5) b.d[rnd("v.idx", 10)] = 'A'; k.ecu.id.push_back(b); }
		k.ecu.handler = [this](const Blk &q, Plan1281 &p) {
			Blk a; bool no = false, ack = false; const Bytes &d = q.d;
			switch (q.type) {
			case 1: case 3: a.type = 0xFF - q.type; if (q.type == 3) a.type = 0xFD; if (d.size() != 3 || !d[0] || d[0] > 60) { no = true; break; } for (int i = 0; i < d[0]; i++) { u16 ad = (d[1] << 8 | d[2]) + i; if (!mapped(ad)) no = true; a.d.push_back(mem(ad)); } break;
			case 8: a.type = 0xFB; if (d.size() != 1 || !adc(d[0], a.d)) no = true; break;
			case 7: a.type = 0xFC; a.d = dtcs; if (dtcs.empty()) a.d = {0}; break;
			case 5: if (can_clear) { dtcs.clear(); ack = true; } else no = true; break;
			default: no = true;
			}
			if (odds && chance("k.odd", odds)) { odd_hits++; count("p.odd"); switch (rnd("v.odd", 4)) { case 0: if (no || ack) { no = !no; ack = !ack; if (ack && q.type != 5) { } } else no = true; break; case 1: ack = true; no = false; break; case 2: no = ack = false; do a.type ^= 1 << rnd("v.bit", 8); while (a.type == 9 || a.type == 0xA || a.type == 6); break; case 3: if (!no && !ack) { if (q.type == 7) a.type ^= 1; else if (rnd("k.longer", 2)) a.d.push_back(7); else a.d.pop_back(); } break; } }
			if (no) p.unknown = true; else if (!ack) p.tele = {a}; log.push_back({q.type, q.d, p.tele, ack, no}); return true; };
	}
	void up() { FaultsOff f; k.s.add("DUMB", "/dev/ttyS0", &k.bus, k.opts); k.s.t->rx_chunk = k.chunk; u.up(k.s.t, "dumb"); u.must("set dumbopts " + std::to_string(k.opts)); }
	// what the identification should show, and whether anything is wrong with it
	void ident(VCmd &c) {
		auto &v = k.ecu.id; auto dig = [](const Bytes &b, size_t n) { for (size_t i = 0; i < n; i++) if (!isdigit(b[i])) return false; return true; }; char t[80];
		if (v[0].d.size() != 10 || !dig(v[0].d, 10)) { c.told = true; return; } const char *d = (const char *)v[0].d.data(); snprintf(t, sizeof t, "Order number: %c %.3s %.3s %.3s", d[0], d + 1, d + 4, d + 7); c.want.push_back(t);
		if (v.size() < 3) return; if (v[2].d.size() != 10 || !dig(v[2].d, 7)) { c.told = true; return; } snprintf(t, sizeof t, "Hardware ID: P0%.7s", (const char *)v[2].d.data()); c.want.push_back(t);
	}
	bool connect() { FaultsOff f; if (chance("k.leftovers", 0.25)) { static const char *s[] = {"set testerid 0x22", "set speed 10400", "set l1protocol iso14230", "set initmode fast", "set destaddr 0x45", "set l2protocol raw", "set addrtype phys", "set speed 4800"}; u32 n = 1 + rnd("n.left", 4); while (n--) u.must(s[rnd("v.left", 8)]); }
		 u.p.cmd(rnd("k.byname", 2) ? "850 connect m44old" : rnd("k.hex", 2) ? "850 connect 0x10" : "850 connect 16", 400 * SEC); return u.p.said("Connected to"); }
	bool told() const { return u.p.said("error reading|couldn't|fail|unable|not done|unexpected|expected|no stored ECU"); }
	void check(VCmd &c, bool disturbed) {
		size_t l0 = log.size(); int oh = odd_hits; std::string o = u.p.cmd(c.line, 4000 * SEC); auto got = Volvo::shown(o); bool odd = odd_hits != oh; count("p.cmd");
		if (!disturbed && !odd) {
			CHECK(got == c.want, "cli:data", "'%s' shows [%s], the ECU says [%s]: %.300s", c.line.c_str(), Volvo::j(got).c_str(), Volvo::j(c.want).c_str(), o.c_str()); bool same = log.size() - l0 == c.reqs.size(); for (size_t i = 0; same && i < c.reqs.size(); i++) same = cat({log[l0 + i].type}, log[l0 + i].d) == c.reqs[i]; CHECK(same, "cli:requests", "'%s' sent %zu requests, expected were %zu", c.line.c_str(), log.size() - l0, c.reqs.size());
			CHECK(told() == c.told, "cli:told", "'%s': %s: %.300s", c.line.c_str(), c.told ? "the ECU refused, but the user was not told" : "a failure was reported although all went well", o.c_str()); if (!c.exact.empty()) CHECK(o.find(c.exact) != std::string::npos, "cli:text", "'%s' should say '%s', it says '%.900s'", c.line.c_str(), c.exact.c_str(), o.c_str()); if (!c.said.empty()) CHECK(u.p.said(c.said.c_str()), "cli:said", "'%s' did not say '%s': %.300s", c.line.c_str(), c.said.c_str(), o.c_str()); auto mt = Volvo::meant(o); CHECK(Volvo::same_meanings(c.mean, mt), "cli:interpreted", "'%s': the values mean [%s], shown is [%s]", c.line.c_str(), Volvo::j(c.mean).c_str(), Volvo::j(mt).c_str()); return;
		}
		auto mt = Volvo::meant(o); CHECK(Volvo::same_meanings(c.mean, mt, true), "cli:interpreted", "'%s': the values mean [%s], shown is [%s]", c.line.c_str(), Volvo::j(c.mean).c_str(), Volvo::j(mt).c_str());
		CHECK(got.size() <= c.want.size() && std::equal(got.begin(), got.end(), c.want.begin()), "cli:invented", "'%s' shows [%s], the ECU says [%s]", c.line.c_str(), Volvo::j(got).c_str(), Volvo::j(c.want).c_str());
		if (got.size() < c.want.size()) CHECK(told(), "cli:untold", "'%s' shows only %zu of %zu lines, and the user was not told: %.300s", c.line.c_str(), got.size(), c.want.size(), o.c_str());
		if (u.p.said("No stored DTCs")) CHECK(dtcs.empty(), "cli:invented", "'%s' says there are no codes", c.line.c_str());
	}
	void pk(VCmd &c, u32 a, u32 n) { char t[40]; while (n && !c.told) { u32 w = std::min(n, 8u); c.reqs.push_back({1, (u8)w, (u8)(a >> 8), (u8)a}); Bytes b; for (u32 i = 0; i < w; i++) { if (!mapped(a + i)) c.told = true; b.push_back(mem(a + i)); } if (c.told) { c.said = "Error reading"; return; } snprintf(t, sizeof t, "%04X:", a & 0xffff); c.want.push_back(t + Volvo::hx(b)); for (u32 i = 0; i < w; i++) Volvo::meaning(c, false, 0x10, a + i, Bytes(b.begin() + i, b.end())); n -= w; a += w; } }
	std::string num(u32 v) { char t[20]; snprintf(t, sizeof t, rnd("v.base", 2) ? "0x%x" : "%u", v); return t; }
	VCmd query() {
		VCmd c; char t[40]; u32 n = 1 + rnd("n.arg", 3); switch (rnd("v.cmd", 6)) {
		case 0: c.line = "850 ping"; c.said = "Pong!"; break;
		case 1: c.line = "850 id"; ident(c); break;
		case 2: c.line = rnd("k.tips", 3) == 1 ? "850 dtc tips" : "850 dtc"; c.reqs = {{7}}; { Bytes f; for (size_t i = 0; i < dtcs.size(); i += 5) f.push_back(dtcs[i]); c.exact = vlist(0x10, f, c.line.size() > 8); } if (dtcs.empty()) c.said = "No stored DTCs"; for (size_t i = 0; i < dtcs.size(); i += 5) { snprintf(t, sizeof t, "(%02X)", dtcs[i]); c.want.push_back(t); } break;
		case 3: c.line = "850 adc"; while (n--) { u8 x = rnd("v.ch", 256); c.line += " " + num(x); if (c.told) continue; c.reqs.push_back({8, x}); Bytes b; if (!adc(x, b)) { c.told = true; c.said = "Error reading"; continue; } snprintf(t, sizeof t, "%02X:", x); c.want.push_back(t + Volvo::hx(b)); } break;
		case 4: case 5: c.line = "850 peek"; while (n--) { u32 a = chance("k.batt", 0.2) ? 0x30 + rnd("v.near", 8) : rnd("v.addr", 0xfff0); u32 w = rnd("v.pk", 4); c.line += " " + num(a); u32 l = 1; if (w == 1) { l = 2; c.line += "w"; } if (w == 2) { l = 4; c.line += "l"; } if (w == 3) { l = 1 + std::min<u32>(rnd("v.pklen", 30), 0xffff - a); c.line += "." + num(a + l - 1); } if (!c.told) pk(c, a, l); } break;
		}
		return c;
	}
};
}
SCENARIO("C32", v850_kwp71, 1) {
	host_good(); V71 v; v.make(); v.up(); auto &u = v.u; u32 n = 1 + rnd("n.sess", 2);
	while (n--) {
		if (chance("k.badkb", 0.15)) { u8 &x = rnd("k.kb1", 2) ? v.k.ecu.kb1 : v.k.ecu.kb2, keep = x; x ^= 1 << rnd("v.bit", 7); bool c = v.connect(); CHECK(!c && global_state < STATE_CONNECTED, "kwp71:keybytes", "connected with key bytes %02x %02x", v.k.ecu.kb1, v.k.ecu.kb2); x = keep; u.p.cmd("850 ping"); CHECK(u.p.said("not connected"), "kwp71:keybytes", "a ping after a refused connection: %.200s", u.p.out.c_str()); idle(3 * SEC); v.k.ecu.off("test"); v.k.ecu.lost = 0; }
		CHECK(v.connect(), "kwp71:refused", "a healthy ECU was refused: %.300s %.300s", u.p.out.c_str(), u.p.err.c_str()); v.odds = chance("k.odds", 0.4) ? 0.15 : 0; bool read = false; u32 m = 1 + rnd("n.cmd", 6);
		while (m--) {
			u32 w = rnd("v.what", 8); size_t l0 = v.log.size(); int oh = v.odd_hits;
			if (w == 0) { static const char *no[] = {"850 read 1", "850 readnv 1", "850 freeze 1", "850 freeze all", "850 dumpram x", "850 test fan1", "850 test rotary", "850 read live", "850 readnv x", "850 freeze EFI-112"}; const char *c = no[rnd("v.no", 10)]; u.p.cmd(c); CHECK(v.log.size() == l0 && u.p.said("not available with this protocol"), "kwp71:unavailable", "'%s' over KWP71: %zu requests, %.200s", c, v.log.size() - l0, u.p.out.c_str()); CHECK(text("x").empty(), "kwp71:file", "a dump was written"); }
			else if (w == 1) {
				static const char *yn[] = {"y", "yes", "Y", "YES", "n", "", "no", "yy"}; u32 a = rnd("k.yes", 2) ? rnd("v.y", 4) : rnd("v.yn", 8), b = rnd("k.yes2", 2) ? rnd("v.y", 4) : rnd("v.yn", 8); bool had = !v.dtcs.empty(); u.p.cmd("850 cleardtc"); CHECK(v.log.size() == l0 && u.p.said("sure"), "clear:unasked", "no question before clearing"); u.p.cmd(yn[a]); bool go = a < 4;
				if (go && !read) { CHECK(v.log.size() == l0 && u.p.said("haven't read"), "clear:unread", "no second question: %.200s", u.p.out.c_str()); u.p.cmd(yn[b]); go = b < 4; } bool odd = v.odd_hits != oh;
				if (!go) { CHECK(v.log.size() == l0 && u.p.said("not done"), "clear:unconfirmed", "not confirmed, but %zu requests were sent", v.log.size() - l0); continue; }
				bool ack = false; int clr = 0; for (size_t i = l0; i < v.log.size(); i++) if (v.log[i].type == 5) { clr++; ack = v.log[i].ack; } bool done = u.p.said("\\bDone\\b"), none = u.p.said("No DTCs to clear"), fail = u.p.said("Failed"); CHECK(done + none + fail == 1, "clear:result", "the result is not clear: %.200s", u.p.out.c_str());
				if (done) CHECK(ack && clr == 1, "clear:phantom", "'Done' without the ECU's acknowledgement"); if (none) CHECK(!had, "clear:none", "'No DTCs to clear', but there are some"); if (!odd) { CHECK(none == !had && done == (had && v.can_clear) && clr == had, "clear:wrong", "codes %d can %d: %.200s", had, v.can_clear, u.p.out.c_str()); } count("p.clear");
			} else if (w == 2) {
				VCmd c; Blk q; u32 a = rnd("v.addr", 0xfff0); static const char *rq[] = {"0x07", "8", "9 1", "1 4 12 34"}; u32 k = rnd("v.sr", 4); (void)a; u.p.cmd(std::string("850 sendreq ") + rq[k]); std::string oe = u.p.out + u.p.err;
				if (v.odd_hits == oh && v.log.size() == l0 + 1) for (auto &b : v.log[l0].a) { std::string s = "data:"; for (u8 x : b.d) { char t[8]; snprintf(t, sizeof t, " 0x%02X", x); s += t; } CHECK(oe.find(s) != oe.npos, "cli:data", "'850 sendreq %s': the answer [%s] is not shown: %.300s", rq[k], hex(b.d).c_str(), oe.c_str()); }
			} else { VCmd c = v.query(); v.check(c, false); if (u.p.said("Stored DTCs:|No stored DTCs")) read = true; }
			if (rnd("k.gap", 2)) idle(rnd("v.gap", 4000) * MS); CHECK(v.k.ecu.lost == 0, "session:lost", "the ECU gave the session up");
		}
		v.odds = 0; size_t l0 = v.log.size(); std::string dn = "Motronic M4.4 engine management (old protocol)";
		if (chance("k.srl", 0.3)) {    // another ECU is needed for this, and it is not there
			bool yes = rnd("k.yes", 3); u.p.cmd("850 resetsrl"); u.p.cmd(yes ? "y" : "n", 400 * SEC); CHECK(v.log.size() == l0, "srl:wrong-ecu", "a reset sent %zu requests to the engine ECU", v.log.size() - l0);
			if (yes) { CHECK(global_state < STATE_CONNECTED && u.p.said("Couldn't connect to combined instrument panel") && u.p.out.find("Disconnecting from " + dn + " first.") != std::string::npos && !u.p.said("Done"), "srl:result", "%.300s", u.p.out.c_str()); count("p.srl"); idle(3 * SEC); v.k.ecu.off("test"); v.k.ecu.lost = 0; continue; } else CHECK(global_state == STATE_CONNECTED && u.p.said("Not done"), "srl:unconfirmed", "%.300s", u.p.out.c_str());
		}
		u.must("850 disconnect", "Disconnected"); CHECK(u.p.out.find("Disconnected from " + dn + ".") != std::string::npos, "cli:disconnected", "%.200s", u.p.out.c_str()); idle(1500 * MS); v.k.ecu.off("test"); v.k.ecu.lost = 0;
	}
	sample("850 commands over KWP71"); u.bye(rnd("k.eof", 3) ? "quit" : nullptr);
}
SCENARIO("C32", v850_kwp71_faults, 0.5) {
	host_good(); V71 v; v.make(); v.up(); auto &u = v.u; CHECK(v.connect(), "kwp71:refused", "a healthy ECU was refused: %.300s %.300s", u.p.out.c_str(), u.p.err.c_str()); if (rnd("k.odds", 2)) v.odds = 0.1;
	swarm({"f.bus.drop", "f.bus.dup", "f.bus.gap", "f.bus.noise", "f.echo.lost", "f.echo.flip", "f.echo.late", "f.read.eio", "f.sel.err", "f.read.eintr", "f.sel.late", "f.oversleep", "f.write.eio", "f.read.short", "f.malloc"}, 0.15, 0.001, 0.05); swarm({"f.ecu.misread", "f.ecu.nocomp"}, 0.3, 0.002, 0.05);
	u32 n = 1 + rnd("n.cmd", 6); while (n--) { if (global_state < STATE_CONNECTED) break; VCmd c = v.query(); u64 bf = v.k.ecu.byte_faults; (void)bf; v.check(c, true); v.k.bus.settle(rnd("v.gap", 600) * MS); }
	{ FaultsOff off; clear_rates(); v.odds = 0; u.p.cmd("850 disconnect", 400 * SEC); v.k.bus.settle(1500 * MS); v.k.ecu.off("test"); v.k.ecu.lost = 0; idle(3 * SEC); CHECK(v.connect(), "recover:connect", "no connection after the disturbances: %.300s %.300s", u.p.out.c_str(), u.p.err.c_str()); for (int i = 0; i < 3; i++) { VCmd c = v.query(); v.check(c, false); } u.must("850 disconnect", "Disconnected"); }
	sample("850 commands over KWP71 under faults"); u.bye(rnd("k.eof", 3) ? "quit" : nullptr);
}
