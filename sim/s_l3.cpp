// C26: SAE J1979 application layer and the scantool's scan.
#include "scan.h"
SCENARIO("C26", l3_req, 1) {
	host_good(); Rig g; g.make(false); g.car.make(1 + rnd("n.ecu", 4), false); g.up(); connect_good(g); int n = 1 + rnd("n.ex", 12);
	while (n--) {
		Bytes q = j_req(g.car); auto want = expected(g, q); size_t g0 = g.got.size(); bool rq = rnd("k.rq", 2); ReqResult r = rq ? l3_request(g.l3, q, 10 * SEC) : l3_sendrecv(g.l3, q, 300, 10 * SEC);
		for (size_t i = g0; i + 1 < g.got.size(); i++) CHECK(g.got[i] == Bytes({1, 0}), "l3:twice", "asked [%s], the car saw [%s] before it", hex(q).c_str(), hex(g.got[i]).c_str());
		CHECK(g.got.size() > g0 && g.got.back() == q, "l3:request", "asked [%s], the car saw [%s]", hex(q).c_str(), g.got.size() > g0 ? hex(g.got.back()).c_str() : "");
		if (want.empty()) CHECK(r.null && r.err < 0, "l3:silence", "nobody answered [%s] but the result is %d %s", hex(q).c_str(), r.err, str(r.m).c_str());
		else { CHECK(!r.null && (rq ? r.err == 0 : r.err >= 0), "l3:failed", "healthy exchange [%s] failed with %d", hex(q).c_str(), r.err); CHECK(same(want, r.m), "l3:data", "[%s]: the car answered %s, delivered %s", hex(q).c_str(), str(want).c_str(), str(r.m).c_str()); }
		if (g.elm) g.k.settle(); if (rnd("k.gap", 2)) { size_t gg = g.got.size(); idle(rnd("v.gap", chance("k.long", 0.2) ? 20000 : 800) * MS); for (size_t i = gg; i < g.got.size(); i++) CHECK(g.got[i] == Bytes({1, 0}), "l3:keepalive", "an idle connection sent [%s]", hex(g.got[i]).c_str()); g.settle(200 * MS); }
	}
	sample("J1979 exchanges, protocol %d over %s", g.p, g.elm ? "ELM" : "dumb"); g.finish();
}
SCENARIO("C26", l3_idle, 0.5) {
	// the layer keeps a connection alive that has no other means
	host_good(); Rig g; g.elm = false; g.p = 2 + rnd("k.proto", 3); g.car.make(1 + rnd("n.ecu", 2), true); g.up(); connect_good(g); int n = 1 + rnd("n.idle", 3);
	while (n--) { g.settle(300 * MS); idle((6 + rnd("v.idle", 40)) * SEC); g.settle(300 * MS); Bytes q = {1, 0}; auto r = l3_request(g.l3, q, 10 * SEC); CHECK(!r.null && same(expected(g, q), r.m), "l3:idle-lost", "after being idle the request failed (%d)", r.err); }
	CHECK((g.p == I9141 ? g.e9.sessions : g.e14.sessions) == 1, "l3:session", "the ECU saw %d sessions", g.p == I9141 ? g.e9.sessions : g.e14.sessions);
	sample("J1979 idle, protocol %d", g.p); g.finish();
}
namespace {
void recover(Rig &g) {
	FaultsOff off; clear_rates(); oversleep_max = 0; g.odds = false; g.l3stop(); g.S().stop(); g.settle(1500 * MS);
	for (int tries = 1;; tries++) {
		CHECK(tries <= 3, "recovery", "after the faults stopped, no J1979 session could be opened within 3 tries"); if (g.S().l2open) { diag_l2_close(g.S().dl0d); g.S().l2open = false; g.k.e.in.clear(); g.settle((g.p == I9141 || g.p == FAST || g.p == SLOW ? 6000 : 500) * MS); }
		if (!g.open()) continue; if (!g.start()) continue; if (g.l3start()) break; g.S().stop();
	}
	g.settle(200 * MS); Bytes q = {1, 0}; auto r = l3_request(g.l3, q, 10 * SEC); CHECK(!r.null && same(expected(g, q), r.m), "recovery:exchange", "after the faults stopped, a request failed (%d) %s", r.err, str(r.m).c_str());
}
bool in_cands(const std::vector<Car::A> &c, size_t &pos, const Msg &m) { for (; pos < c.size(); pos++) if (c[pos].src == m.src && c[pos].d == m.d) { pos++; return true; } return false; }
}
SCENARIO("C26", l3_faults, 1.2) {
	host_any(); Rig g; g.make(false); g.car.make(1 + rnd("n.ecu", 3), false); g.up(); g.odds = rnd("k.odds", 2); bool up = false; { FaultsOff f; u64 o = oversleep_max; oversleep_max = 0; bool od = g.odds; g.odds = false; connect_good(g); oversleep_max = o; g.odds = od; up = true; } (void)up;
	swarm({L3_FAULTS}, 0.2, 0.0005, 0.03); int n = 1 + rnd("n.ex", 12);
	while (n--) {
		Bytes q = j_req(g.car); size_t mk = g.mark(); bool rq = rnd("k.rq", 2); u64 t0 = now(), im = imposed; ReqResult r = rq ? l3_request(g.l3, q, 60 * SEC) : l3_sendrecv(g.l3, q, 300, 60 * SEC); (void)t0; (void)im;
		if (r.null) CHECK(r.err < 0, "l3:no-error", "no answer but the error code is %d", r.err);
		auto c = g.cands(mk); size_t pos = 0;
		for (auto &m : r.m) { if (m.fmt & DIAG_FMT_BADCS) continue; pos = 0; CHECK(in_cands(c, pos, m), "l3:invented", "delivered %02x:[%s] is no valid message received since the request", m.src, hex(m.d).c_str()); }
		if (rnd("k.gap", 2)) idle(rnd("v.gap", 5000) * MS);
	}
	recover(g); sample("J1979 under faults, protocol %d over %s", g.p, g.elm ? "ELM" : "dumb"); g.finish();
}
// ---- scan
namespace {
void l3_globals(Rig &g) { set_init(); if (global_dl0d) diag_l0_del(global_dl0d); global_dl0d = g.S().dl0d; global_l2_conn = nullptr; global_l3_conn = nullptr; global_state = STATE_IDLE; ecu_count = 0; }
void disconnect(Rig &g) { set_op("disconnect"); if (global_l3_conn) diag_l3_stop(global_l3_conn); if (global_l2_conn) { diag_l2_StopCommunications(global_l2_conn); diag_l2_close(g.S().dl0d); } global_l2_conn = nullptr; global_l3_conn = nullptr; global_state = STATE_IDLE; g.S().l2open = false; }
void scan_end(Rig &g) { for (u32 i = 0; i < ecu_count; i++) if (ecu_info[i].rxmsg) { diag_freemsg(ecu_info[i].rxmsg); ecu_info[i].rxmsg = nullptr; } disconnect(g); set_close(); }
void run_scan(bool ncms) { set_op("scan"); do_j1979_basics(); set_op("cms"); do_j1979_cms(); if (ncms) { set_op("ncms"); do_j1979_ncms(rnd("k.ncms", 2)); } }
// data of the scan that no message justifies (the scan takes responses with a wrong checksum, which tests of the repository require)
void scan_sound(Rig &g, size_t mk) {
	if (count_of("f.elm.flood") || count_of("f.echo.late")) { count("p.flooded"); return; }     // late echoes mix with answers; parts of such lines come up with wrong checksums
	auto c = g.cands(mk, true); std::map<u8, std::vector<Bytes>> by; for (auto &a : c) by[a.src].push_back(a.d);
	CHECK(ecu_count <= MAX_ECU, "scan:count", "%u ECUs", ecu_count);
	for (u32 i = 0; i < ecu_count; i++) {
		auto &e = ecu_info[i]; auto &v = by[e.ecu_addr]; CHECK(!v.empty(), "scan:phantom-ecu", "ECU %02x is listed but nothing valid came from it", e.ecu_addr);
		for (int m = 1; m <= 2; m++) for (int p = 0; p < 256; p++) { auto &d = m == 1 ? e.mode1_data[p] : e.mode2_data[p]; if (d.type != TYPE_GOOD) continue; CHECK(d.len <= 7, "scan:length", "mode %d PID %02x has %d bytes", m, p, d.len); Bytes b(d.data, d.data + d.len); CHECK(b.size() >= 2 && b[0] == 0x40 + m && b[1] == p, "scan:wrong-data", "mode %d PID %02x holds [%s]", m, p, hex(b).c_str()); CHECK(std::find(v.begin(), v.end(), b) != v.end(), "scan:invented", "mode %d PID %02x of ECU %02x holds [%s] which the ECU never sent", m, p, e.ecu_addr, hex(b).c_str()); }
		const u8 *inf[] = {nullptr, e.mode1_info, e.mode2_info, nullptr, nullptr, e.mode5_info, e.mode6_info, nullptr, e.mode8_info, e.mode9_info}; static const int off[] = {0, 2, 3, 0, 0, 3, 3, 0, 2, 3};
		for (int m = 1; m <= 9; m++) if (inf[m]) for (int p = 1; p < 256; p++) if (inf[m][p]) { bool ok = false; int b = (p - 1) / 32 * 32, k = (p - 1) % 32; for (auto &d : v) if (d.size() >= off[m] + 4u && d[0] == 0x40 + m && (d[1] == b || (m == 6 && !d[1])) && d[off[m] + k / 8] & (0x80 >> k % 8)) ok = true; CHECK(ok, "scan:phantom-pid", "mode %d PID %02x is listed as supported by ECU %02x, which never said so", m, p, e.ecu_addr); }
	}
}
void scan_good_check(Rig &g, const Expect &x, bool src) {
	CHECK(ecu_count == x.ecu.size(), "scan:count", "%zu ECUs answered, %u are listed", x.ecu.size(), ecu_count);
	for (u32 i = 0; i < ecu_count; i++) {
		auto &e = ecu_info[i]; CHECK(!src || e.ecu_addr == x.order[i], "scan:order", "ECU %u is %02x instead of %02x", i, e.ecu_addr, x.order[i]);
		auto &w = x.ecu.at(x.order[i]); const u8 *inf[] = {nullptr, e.mode1_info, e.mode2_info, nullptr, nullptr, e.mode5_info, e.mode6_info, nullptr, e.mode8_info, e.mode9_info};
		for (int m = 1; m <= 9; m++) if (inf[m]) for (int p = 0; p < 256; p++) CHECK(!inf[m][p] == !w.info[m][p], "scan:supported", "mode %d PID %02x of ECU %02x: ECU says %d, listed %d", m, p, e.ecu_addr, w.info[m][p], inf[m][p]);
		for (int m = 1; m <= 2; m++) for (int p = 0; p < 256; p++) { auto &d = m == 1 ? e.mode1_data[p] : e.mode2_data[p]; auto &wd = m == 1 ? w.d1 : w.d2; auto it = wd.find(p); if (it == wd.end()) { CHECK(d.type != TYPE_GOOD, "scan:phantom-data", "mode %d PID %02x of ECU %02x has data", m, p, e.ecu_addr); continue; } CHECK(d.type == TYPE_GOOD && Bytes(d.data, d.data + d.len) == it->second, "scan:data", "mode %d PID %02x of ECU %02x: ECU sent [%s], stored [%s] (type %d)", m, p, e.ecu_addr, hex(it->second).c_str(), hex(d.data, d.len).c_str(), d.type); }
	}
	for (int p = 0; p < 256; p++) CHECK(!merged_mode1_info[p] == !x.m1[p] && !merged_mode5_info[p] == !x.m5[p], "scan:merged", "merged information for PID %02x is wrong", p);
	CHECK(global_O2_sensors == x.o2, "scan:o2", "O2 sensors %02x instead of %02x", global_O2_sensors, x.o2); (void)g;
}
}
SCENARIO("C26", scan_good, 1.5) {
	host_good(); Rig g; g.make(true); g.car.make(1 + rnd("n.ecu", chance("k.manyecu", 0.15) ? 8 : 4), rnd("k.small", 4)); g.nego = chance("k.nego", 0.3); g.up(); l3_globals(g);
	if (!g.elm && (g.p == FAST || g.p == SLOW) && !g.e14.long_ok()) { g.e14.kb1 = 0xEF; }
	set_op("ecu_connect"); op_deadline(now() + 120 * SEC); int rv = ecu_connect(); op_deadline(0); CHECK(rv == 0, "scan:connect", "connecting to a healthy car (protocol %d) failed with %d", g.p, rv); CHECK(global_state == STATE_L3ADDED, "scan:state", "state %d after connecting", global_state);
	size_t g0 = g.got.size(); std::string e0 = captured_stderr(); run_scan(true);
	Scan m(g); m.run();
	std::vector<Bytes> seen; for (size_t i = g0; i < g.got.size(); i++) { if (g.got[i] == Bytes({1, 0}) && i > g0) continue; if (!seen.empty() && seen.back() == g.got[i]) continue; seen.push_back(g.got[i]); }
	for (size_t i = 0; i < std::max(seen.size(), m.x.asked.size()); i++) CHECK(i < seen.size() && i < m.x.asked.size() && seen[i] == m.x.asked[i], "scan:requests", "request %zu was [%s] instead of [%s]", i, i < seen.size() ? hex(seen[i]).c_str() : "none", i < m.x.asked.size() ? hex(m.x.asked[i]).c_str() : "none");
	scan_good_check(g, m.x, true);
	std::string err = captured_stderr(); err = err.substr(e0.size()); size_t pos = 0; for (auto &w : m.want) { size_t q = err.find(w, pos); CHECK(q != std::string::npos, "scan:codes", "trouble code %s of the ECU was not shown (or out of order)", w.c_str()); pos = q + 1; }
	count("p.scan"); count("p.scan-requests", seen.size()); sample("scan of %zu ECUs, protocol %d over %s, %zu requests", g.car.e.size(), g.p, g.elm ? "ELM" : "dumb", seen.size());
	scan_end(g); g.finish();
}
SCENARIO("C26", scan_faults, 1.2) {
	host_any(); Rig g; g.make(true); g.car.make(1 + rnd("n.ecu", 4), true); g.nego = chance("k.nego", 0.3); g.up(); l3_globals(g); g.odds = rnd("k.odds", 3) != 0; bool fl = !g.odds || rnd("k.both", 2);
	bool at_connect = chance("k.fconn", 0.3); if (fl && at_connect) swarm({L3_FAULTS}, 0.15, 0.0003, 0.01); size_t mk = g.mark();
	if (!at_connect) { u64 o = oversleep_max; oversleep_max = 0; bool od = g.odds; g.odds = false; int rv = ecu_connect(); CHECK(rv == 0, "scan:connect", "connecting to a healthy car (protocol %d) failed with %d", g.p, rv); oversleep_max = o; g.odds = od; if (fl) swarm({L3_FAULTS}, 0.15, 0.0003, 0.01); }
	else { set_op("ecu_connect"); op_deadline(now() + 240 * SEC); int rv = ecu_connect(); op_deadline(0); if (rv) { CHECK(!global_l3_conn && global_state < STATE_CONNECTED, "scan:half-connected", "connecting failed with %d but there is a connection", rv); if (global_l2_conn) { } } }
	if (global_l3_conn) { mk = 0; int n = 1 + rnd("n.scan", 2); while (n--) { op_deadline(now() + 3600 * SEC); run_scan(true); op_deadline(0); scan_sound(g, mk); } }
	{ FaultsOff off; clear_rates(); scan_end(g); } g.S().conn = nullptr; recover(g); sample("scan under faults, protocol %d over %s", g.p, g.elm ? "ELM" : "dumb"); g.finish();
}
// ---- unframed data: the layer finds the messages itself
namespace {
struct RawEcu : Ecu {
	Rig *g; Bytes buf; u64 t1_ = 0; u64 gapmax = 8 * MS;
	void rx(u8 b, u64, u64 t1) override { buf.push_back(b); t1_ = t1; at(t1 + 21 * MS, [this, t1]() { if (t1_ != t1 || buf.empty()) return; Bytes q = buf; buf.clear(); u64 t = now(); bool first = true; for (auto &a : g->reply(q)) { u64 d = first ? (5 + rnd("v.p2", 100)) * MS : rnd("v.gap2", 15) * MS; p1 = rnd("v.p1", 15) * MS; first = false; t = bus->ecu_tx(this, a.d, t + d); } }); }
};
}
SCENARIO("C26", l3_raw, 0.8) {
	host_good(); Rig g; g.elm = false; g.p = I9141; g.car.make(1, false); RawEcu re; re.g = &g; re.baud = 9600; lib_up(); g.bus.add(&re); g.bus.echo = false; if (g.s.add("DUMB", "/dev/ttyS0", &g.bus, 0x08)) VIOL("setup", "creating the interface failed");
	static const u64 ch[] = {0, 0, 1 * MS, 4 * MS, 8 * MS}; g.s.t->rx_chunk = ch[rnd("k.chunk", 5)]; bool faulty = rnd("k.faulty", 2);
	if (!g.s.open(DIAG_L1_RAW)) VIOL("open:refused", "raw open refused"); if (!g.s.start(DIAG_L2_PROT_RAW, 0, 9600, 0x10, 0xF1)) VIOL("start:refused", "raw start refused");
	if (!g.l3start()) VIOL("l3:refused", "the J1979 layer was refused although mode 1 PID 0 was answered");
	if (faulty) { g.odds = rnd("k.odds", 2); swarm({"f.bus.drop", "f.bus.flip", "f.bus.dup", "f.bus.gap", "f.bus.noise", "f.bus.trunc", "f.read.eio", "f.sel.late", "f.read.short", "f.oversleep"}, 0.3, 0.001, 0.05); }
	int n = 1 + rnd("n.ex", 10); size_t pos = g.bus.mark();
	while (n--) {
		if (!faulty && rnd("k.foreign", 4) == 0) {   // the requests of another tester
			static const u8 ql[] = {0, 2, 3, 1, 1, 3, 2, 1, 7, 2}; std::vector<Car::A> want; std::vector<Msg> all; u64 t = now() + rnd("v.ft", 200) * MS;
			for (u32 k = 1 + rnd("n.foreign", 3); k--;) { u8 m = 1 + rnd("v.fm", 9); Bytes f = cat({m}, rnd_bytes("v.fd", ql[m] - 1)); re.p1 = rnd("v.fp1", 15) * MS; t = g.bus.ecu_tx(&re, f, t + (5 + rnd("v.fgap", 100)) * MS); want.push_back({0, f}); }
			for (int k = 0; k < 8; k++) { set_op("l3_recv"); op_deadline(now() + 20 * SEC); std::vector<Msg> v; int rv = diag_l3_recv(g.l3, 300, l3cb, &v); op_deadline(0); for (auto &m : v) all.push_back(m); if (rv < 0) break; }
			CHECK(same(want, all, false), "raw:foreign", "on the line: %s, delivered %s", str(want).c_str(), str(all).c_str()); count("p.foreign"); continue;
		}
		Bytes q = j_req(g.car); bool std1 = (q[0] == 1 || q[0] == 2) && (q[1] > 0x1f || q[1] == (q[0] == 1 ? 2 : 1)); if (std1 && q[1] % 32) continue; if (q[0] == 2 && q[1] == 1) continue;
		auto want = expected(g, q); if (q[0] == 6 && q[1] % 32 == 0 && !want.empty()) want = want; 
		if (q[0] == 8 && q[1] % 32 == 0 && !faulty) continue;
		struct diag_msg msg; memset(&msg, 0, sizeof msg); msg.data = q.data(); msg.len = q.size(); set_op("l3_send"); int rv = diag_l3_send(g.l3, &msg); if (!faulty) CHECK(rv == 0, "raw:send", "send returned %d", rv); if (rv) continue;
		std::vector<Msg> all; for (int k = 0; k < 8; k++) { set_op("l3_recv"); op_deadline(now() + 20 * SEC); std::vector<Msg> v; rv = diag_l3_recv(g.l3, 300, l3cb, &v); op_deadline(0); ev("l3 recv %d n %zu", rv, v.size()); for (auto &m : v) all.push_back(m); if (rv < 0) break; }
		if (!faulty) CHECK(same(want, all, false), "raw:data", "[%s]: the car answered %s, delivered %s", hex(q).c_str(), str(want).c_str(), str(all).c_str());
		else for (auto &m : all) if (!m.d.empty()) CHECK(g.bus.arrived(pos, m.d), "raw:invented", "delivered [%s] did not arrive in this order", hex(m.d).c_str());
		g.bus.settle(rnd("v.gap", 500) * MS);
	}
	sample("unframed J1979"); { FaultsOff off; g.finish(); }
}
