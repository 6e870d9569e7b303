// C16: Volvo D2 over K-line (through an ELM327).  C25: the Volvo application layer over D2 and KWP71.
#include "oom.h"
#include "d2_sess.h"
#include "vag.h"
SCENARIO("C16", d2_clean, 1) {
	host_good(); D2 z; z.setup(); z.k.up(); int n = 1 + rnd("n.rounds", 2);
	while (n--) {
		z.k.open_good(); z.start_good(); z.k.early(); int m = rnd("n.ex", 6); z.mute_stop = chance("k.mutestop", 0.15);
		while (m--) {
			z.l2good(); z.k.early();
			if (chance("k.over", 0.1)) { Bytes q = rnd_bytes("v.over", 63 + rnd("v.overn", chance("k.overb", 0.4) ? 2 : 200)); size_t g0 = z.k.got.size(); auto r = l2_request(z.k.s.conn, q, 20 * SEC); CHECK(r.null && r.err < 0 && z.k.got.size() == g0, "send:oversize", "a message of %zu bytes was accepted", q.size()); }
			if (rnd("k.gap", 2)) { size_t nr = z.k.got.size(); idle(rnd("v.gap", chance("k.longgap", 0.2) ? 20000 : 600) * MS); CHECK(z.k.got.size() == nr, "d2:keepalive", "the driver sent keep-alives although the adapter does it"); }
		}
		CHECK(z.k.e.bad_cmds.empty(), "elm:command", "command [%s] is unknown to the adapter", z.k.e.bad_cmds.empty() ? "" : z.k.e.bad_cmds[0].c_str()); z.stop_close(); z.k.early();
	}
	sample("D2 with %02x over ELM327 v%s", z.tgt, z.k.e.ver.c_str()); z.k.finish();
}
SCENARIO("C16", d2_start, 1) {
	// starts that must fail
	host_good(); D2 z; z.setup(); z.k.up(); int n = 1 + rnd("n.rounds", 3);
	while (n--) {
		z.k.open_good(); u32 what = rnd("v.what", 6); char t[16]; bool clone = z.k.e.clone; bool expect = false;
		if (what == 0 || what == 3) { if (clone) { expect = true; } else { u32 b = rnd("v.bit", 16); if (b < 8) z.k.e.kb1 ^= 1 << b; else z.k.e.kb2 ^= 1 << (b - 8); } }
		else if (what == 1) { z.k.e.refuse = {"ATWM"}; snprintf(t, sizeof t, "ATWM82%02X%02XA1", z.tgt, z.src); z.k.e.refuse.insert(t); }
		else if (what == 2) { snprintf(t, sizeof t, "ATIIA%02X", oddpar(z.tgt)); z.k.e.refuse = {t}; }
		else if (what == 4) z.k.init_ok = false;
		else { z.k.e.refuse = {"ATTP"}; }
		if (what == 5) {}
		u64 t0 = now(); bool ok = z.start(); if (!expect) CHECK(!ok, "start:accepted", "start succeeded (case %u, key bytes %02x %02x)", what, z.k.e.kb1, z.k.e.kb2);
		CHECK(now() - t0 < 20 * SEC, "start:slow", "the start took %.3f s", (now() - t0) / 1e9);
		count("p.refused"); if (!ok) CHECK(!z.k.s.conn, "start:conn", "a failed start left a connection"); else z.k.s.stop();
		z.k.settle(); diag_l2_close(z.k.s.dl0d); z.k.s.l2open = false; z.k.e.refuse.clear(); z.k.init_ok = true; z.k.e.kb1 = 0xD3; z.k.e.kb2 = 0xB0;
	}
	z.k.open_good(); z.start_good(); z.l2good(); z.stop_close(); sample("D2 start failures"); z.k.finish();
}
SCENARIO("C16", d2_bad, 1) {
	// answers that are not this ECU's complete answer
	host_good(); D2 z; z.setup(); z.k.up(); z.k.open_good(); z.start_good(); int n = 1 + rnd("n.ex", 5);
	while (n--) {
		Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", 7)); if (q[0] == 0xA0) q[0] = 0xA5; Bytes a = rnd_bytes("v.rsp", 1 + rnd("v.rspn", 30)); Bytes f = z.frame(a); u32 kind = rnd("v.bad", 8); std::vector<ElmRsp> v; u32 p = chance("k.pend", 0.3) ? 1 + rnd("v.npend", 5) : 0; while (p--) v.push_back(z.rsp(z.frame({0x7E, q[0], 0x23})));
		ElmRsp b; static const char *tx[] = {"<DATA ERROR", "BUS ERROR", "FB ERROR", "DATA ERROR", "82 13 10 E", "NO DATA", "BUFFER FULL"};
		switch (kind) {
		case 0: f.back() ^= 1 << rnd("v.bit", 8); break;
		case 1: f[rnd("v.pos", (u32)f.size())] ^= 1 << rnd("v.bit", 8); break;
		case 2: f.resize(1 + rnd("v.cut", (u32)f.size() - 1)); break;
		case 3: { u8 o; do o = rnd("v.other", 256); while (o == z.tgt); f = z.frame(a, o, z.src); break; }
		case 4: { u8 o; do o = rnd("v.other", 256); while (o == z.src); f = z.frame(a, z.tgt, o); break; }
		case 5: f = cat(Bytes(f.begin(), f.end() - 1), rnd_bytes("v.more", 1 + rnd("v.moren", 5))); f.push_back(cks(f)); break;
		case 6: b.text = tx[rnd("v.text", 7)]; break;
		case 7: if (v.empty()) f.clear(); else f = v.back().f; break;     // nothing, or pending and nothing more
		}
		if (kind == 6) { b.d = 20 * MS; v.push_back(b); } else if (!f.empty()) v.push_back(z.rsp(f));
		z.k.plan.clear(); z.k.plan.push_back(v); u64 t0 = now(); auto r = l2_request(z.k.s.conn, q, 60 * SEC);
		if (!r.null) { Bytes d; for (auto &l : z.k.e.lines(0)) if (z.valid(l, d) && d == r.m[0].d) goto fine; VIOL("msg:invented", "damaged answer of kind %u: [%s] delivered", kind, hex(r.m[0].d).c_str()); fine:; }
		if (!(kind == 2 && f.size() == z.frame(a).size()) && kind != 5 && kind != 1) CHECK(r.null && r.err < 0, "exchange:accepted", "kind %u: [%s] taken as the answer", kind, r.m.empty() ? "" : hex(r.m[0].d).c_str());
		CHECK(now() - t0 < 12 * SEC, "exchange:slow", "the exchange took %.3f s", (now() - t0) / 1e9);
		count("p.badframe"); idle(rnd("v.gap", 300) * MS); z.l2good(); z.k.early();
	}
	z.stop_close(); sample("D2 with wrong answers"); z.k.finish();
}
SCENARIO("C16", d2_pending, 0.05) {
	host_good(); D2 z; z.setup(); z.k.up(); z.k.open_good(); z.start_good(); Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", 7)); std::vector<ElmRsp> v; u64 tot = 0; while (tot < 70 * SEC) { auto r = z.rsp(z.frame({0x7E, q[0], 0x23})); r.d = std::max<u64>(r.d, 40 * MS); tot += r.d; v.push_back(r); }
	z.k.plan.clear(); z.k.plan.push_back(v); u64 t0 = now(); auto r = l2_request(z.k.s.conn, q, 65 * SEC); CHECK(r.null && r.err < 0, "pending:accepted", "an ECU that only ever says \"pending\" gave an answer"); CHECK(now() - t0 < 60 * SEC, "pending:endless", "a request pended for %.1f s", (now() - t0) / 1e9);
	for (int i = 0; i < 100 && (i < 2 || z.k.e.busy); i++) idle(SEC); z.k.e.early = 0; z.l2good(); z.stop_close(); sample("D2 pending for ever"); z.k.finish();
}
namespace {
// ---- application layer: one operation with its request, the ECU's reply and the result
struct Op7 { int kind; Bytes q, pos; int rv = 0; Bytes out; int buflen = 0; u16 addr = 0; int ns = 0; u8 id = 0, reps = 0; Bytes q2, pos2; };
Op7 pick_d2(D2 &z) {
	(void)z; Op7 o; o.kind = rnd("v.op", 9); o.id = rnd("v.id", 256); Bytes d = rnd_bytes("v.data", rnd("v.datan", 30));
	switch (o.kind) {
	case 0: o.q = {0xA1}; o.pos = {0xE1}; break;
	case 1: { o.ns = NS_MEMORY; o.addr = rnd("v.addr", 65536); o.buflen = 1 + rnd("v.count", 58); d = rnd_bytes("v.mem", o.buflen); o.q = {0xA7, 0, (u8)(o.addr >> 8), (u8)o.addr, 1, (u8)o.buflen}; o.pos = cat({0xE7, 0, (u8)(o.addr >> 8), (u8)o.addr}, d); o.rv = o.buflen; o.out = d; break; }
	case 2: case 3: case 4: { static const int ns[] = {NS_LIVEDATA, NS_NV, NS_FREEZE}; o.ns = ns[o.kind - 2]; o.addr = o.id; o.buflen = rnd("v.buf", 40); static const u8 sid[] = {0xA5, 0xB9, 0xAD}; o.q = {sid[o.kind - 2], o.id}; if (o.kind == 2) o.q.push_back(1); if (o.kind == 4) o.q.push_back(0); o.pos = cat({(u8)(sid[o.kind - 2] ^ 0x40), o.id}, d); o.rv = d.size(); o.out = d; break; }
	case 5: { u32 n = rnd("v.ndtc", 13); d = rnd_bytes("v.dtc", n); o.buflen = rnd("v.buf", 20); o.q = {0xAE, 1}; o.pos = cat({0xEE, 1}, d); o.rv = n; o.out = d; break; }
	case 6: { u32 n = rnd("v.ndtc", 12); d = rnd_bytes("v.dtc", n); o.q = {0xAE, 1}; o.pos = cat({0xEE, 1}, d); if (n) { o.q2 = {0xAF, 1}; o.pos2 = {0xEF, 1}; } o.rv = n ? 1 : 0; break; }
	case 7: o.reps = rnd("k.reps", 2) ? rnd("v.reps", 256) : 0; o.q = o.reps ? Bytes({0xB0, o.id, 0x32, o.reps}) : Bytes({0xB0, o.id}); o.pos = {0xF0, o.id}; break;
	case 8: o.q = {0xB2, o.id}; o.pos = {0xF2, o.id}; break;
	}
	return o;
}
const char *opname[] = {"ping", "memory", "live data", "NV", "freeze frame", "list codes", "clear codes", "output", "routine"};
struct Out7 { int rv; Bytes buf; };
Out7 call_d2(D2 &z, const Op7 &o) {
	Out7 r; r.buf.assign(o.buflen + 32, 0xA5); u8 *b = r.buf.data(); auto c = z.k.s.conn; set_op(opname[o.kind]); op_deadline(now() + 150 * SEC); ev("op %s", opname[o.kind]);
	switch (o.kind) { case 0: r.rv = diag_l7_d2_ping(c); break; case 5: r.rv = diag_l7_d2_dtclist(c, o.buflen, b); break; case 6: r.rv = diag_l7_d2_cleardtc(c); break; case 7: r.rv = diag_l7_d2_io_control(c, o.id, o.reps); break; case 8: r.rv = diag_l7_d2_run_routine(c, o.id); break; default: r.rv = diag_l7_d2_read(c, (enum l7_namespace)o.ns, o.addr, o.buflen, b); }
	op_deadline(0); ev("op returns %d", r.rv); evbytes("out", r.buf.data(), r.buf.size()); soft_fail(r.rv < 0); return r;
}
void check_out(const Op7 &o, const Out7 &r, int rv, const Bytes &out) {
	CHECK(r.rv == rv, "l7:result", "%s: the ECU's answer means %d, returned was %d", opname[o.kind], rv, r.rv);
	size_t n = std::min<size_t>(out.size(), o.buflen); CHECK(Bytes(r.buf.begin(), r.buf.begin() + n) == Bytes(out.begin(), out.begin() + n), "l7:data", "%s: ECU's data [%s], returned [%s]", opname[o.kind], hex(out).c_str(), hex(r.buf.data(), n).c_str());
	for (size_t i = n; i < r.buf.size(); i++) CHECK(r.buf[i] == 0xA5, "l7:overrun", "%s: wrote beyond the data (byte %zu, buffer %d)", opname[o.kind], i, o.buflen);
}
void d2_op(D2 &z, bool healthy) {
	if (healthy && chance("k.beyond", 0.08)) {
		static const int ns[] = {NS_LIVEDATA, NS_NV, NS_FREEZE}; int w = ns[rnd("v.ns", 3)]; u16 ad = rnd("k.near", 2) ? 0x100 + rnd("v.addr1", 0x100) : 0x100 + rnd("v.addr2", 0xff00); u8 b[16]; memset(b, 0xA5, sizeof b); size_t g0 = z.k.got.size(); int rv = diag_l7_d2_read(z.k.s.conn, (enum l7_namespace)w, ad, sizeof b, b);
		CHECK(rv < 0 && z.k.got.size() == g0, "l7:address", "reading identifier %x (space %d) returned %d and asked %zu times", ad, w, rv, z.k.got.size() - g0); for (u8 x : b) CHECK(x == 0xA5, "l7:failed-data", "a refused read wrote data");
	}
	Op7 o = pick_d2(z); u32 outc = chance("k.odd", 0.4) ? 1 + rnd("v.outc", 10) : 0; bool second = !o.q2.empty() && rnd("k.second", 2);
	Bytes q = second ? o.q2 : o.q, pos = second ? o.pos2 : o.pos; std::vector<ElmRsp> v; bool ok = true; int want = 1; std::vector<ElmRsp> extra;
	u32 pend = chance("k.pend", 0.25) ? 1 + rnd("v.npend", 10) : 0; auto pd = [&]() { while (pend--) v.push_back(z.rsp(z.frame({0x7E, q[0], 0x23}))); };
	switch (outc) {
	case 1: pd(); ok = false; want = DIAG_ERR_ECUSAIDNO; v.push_back(z.rsp(z.frame({(u8)(rnd("k.7f", 2) ? 0x7F : 0x7E), q[0], (u8)(rnd("v.nrc", 2) ? 0x11 : 0x21)}))); break;
	case 2: pd(); ok = false; break;                                                   // silence
	case 3: if (q.size() < 2 || pos.size() < 2) { v.push_back(z.rsp(z.frame(pos))); break; } pd(); ok = false; pos[1] ^= 1 << rnd("v.bit", 8); v.push_back(z.rsp(z.frame(pos))); break;      // for another identifier
	case 4: pd(); ok = false; pos[0] ^= 1 << rnd("v.bit", 8); if (pos[0] == 0x7E && pos.size() == 3) pos[0] = 0x7F; v.push_back(z.rsp(z.frame(pos))); break;                                     // answers another request
	case 5: if (o.kind == 1 || o.kind >= 7 || second) { ok = false; if (rnd("k.longer", 2) || pos.size() < 2) pos.push_back(rnd("v.x", 256)); else pos.pop_back(); } else if (pos.size() >= 2) { ok = false; pos.resize(1); } pd(); v.push_back(z.rsp(z.frame(pos))); break;
	case 6: pd(); ok = false; { u8 oth; do oth = rnd("v.other", 256); while (oth == z.tgt); v.push_back(z.rsp(z.frame(pos, oth, z.src))); } break;
	case 7: pd(); ok = false; { u8 oth; do oth = rnd("v.other", 256); while (oth == z.src); v.push_back(z.rsp(z.frame(pos, z.tgt, oth))); } break;
	case 8: pd(); ok = false; { Bytes f = z.frame(pos); f[rnd("v.pos", (u32)f.size())] ^= 1 << rnd("v.bit", 8); v.push_back(z.rsp(f)); } break;
	case 10: pd(); ok = false; { u8 oth; do oth = rnd("v.osvc", 256); while (oth == q[0]); v.push_back(z.rsp(z.frame({0x7E, oth, 0x23}))); if (rnd("k.then", 2)) v.push_back(z.rsp(z.frame(pos))); } break;      // "pending" for another request
	case 9: if (o.kind == 1 && pos.size() > 3) { pd(); ok = false; pos[2 + rnd("v.ab", 2)] ^= 1 << rnd("v.bit", 8); v.push_back(z.rsp(z.frame(pos))); break; }   // fall through
	default: pd(); v.push_back(z.rsp(z.frame(pos))); outc = 0; if (o.kind == 5 && o.rv == 12) { u32 n = rnd("v.nextra", 3); while (n--) v.push_back(z.rsp(z.frame(cat({0xEE, 1}, rnd_bytes("v.dtc", 1 + rnd("v.ndtc", 12)))))); } break;
	}
	z.k.plan.clear(); if (second) z.k.plan.push_back({z.rsp(z.frame(o.pos))}); z.k.plan.push_back(v); if (!second && !o.q2.empty()) z.k.plan.push_back({z.rsp(z.frame(o.pos2))});
	size_t g0 = z.k.got.size(), mk = z.k.e.mark(); Out7 r = call_d2(z, o); count("p.op");
	if (healthy) {
		CHECK(z.k.got.size() > g0 && z.k.got[g0] == o.q, "l7:request", "%s: the ECU was asked [%s] instead of [%s]", opname[o.kind], z.k.got.size() > g0 ? hex(z.k.got[g0]).c_str() : "nothing", hex(o.q).c_str());
		size_t nreq = o.q2.empty() || (!second && !ok) ? 1 : 2; CHECK(z.k.got.size() == g0 + nreq, "l7:requests", "%s: %zu requests", opname[o.kind], z.k.got.size() - g0);
		if (nreq == 2) CHECK(z.k.got[g0 + 1] == o.q2, "l7:request2", "%s: second request [%s]", opname[o.kind], hex(z.k.got[g0 + 1]).c_str());
		if (ok) { if (outc == 0 || o.kind != 6) check_out(o, r, o.kind == 0 || o.kind >= 6 ? o.rv : (int)pos.size() - (o.kind == 1 ? 4 : 2), o.out); }
		else { CHECK(r.rv < 0, "l7:accepted", "%s succeeded with %d although the answer was [%s] (case %u)", opname[o.kind], r.rv, v.empty() ? "" : hex(v.back().f).c_str(), outc); if (want < 0) CHECK(r.rv == want, "l7:negative", "%s: negative answer reported as %d", opname[o.kind], r.rv); for (u8 b : r.buf) CHECK(b == 0xA5, "l7:failed-data", "%s failed but wrote data", opname[o.kind]); }
		return;
	}
	if (r.rv < 0) return;
	Bytes d; bool f1 = false, f2 = o.q2.empty() || o.kind != 6;
	for (auto &l : z.k.e.lines(mk)) {
		if (!z.valid(l, d) || d[0] != (o.q[0] ^ 0x40)) { if (o.kind == 6 && z.valid(l, d) && d == o.pos2) f2 = true; continue; }
		if (o.q.size() > 1 && (d.size() < 2 || d[1] != o.q[1])) continue;
		if (o.kind == 0) f1 = true;
		else if (o.kind == 1) { if (d.size() == o.buflen + 4u && r.rv == o.buflen && Bytes(d.begin(), d.begin() + 4) == Bytes(o.pos.begin(), o.pos.begin() + 4) && Bytes(d.begin() + 4, d.end()) == Bytes(r.buf.begin(), r.buf.begin() + o.buflen)) f1 = true; }
		else if (o.kind <= 5) { size_t n = std::min<size_t>(d.size() - 2, o.buflen); if (r.rv == (int)d.size() - 2 && Bytes(d.begin() + 2, d.begin() + 2 + n) == Bytes(r.buf.begin(), r.buf.begin() + n)) f1 = true; }
		else if (o.kind == 6) { if ((d.size() == 2) == (r.rv == 0)) f1 = true; if (r.rv == 0) f2 = true; }
		else if (d.size() == 2) f1 = true;
	}
	CHECK(f1 && f2, "l7:invented", "%s returned %d but no such answer of the ECU reached the host", opname[o.kind], r.rv);
}
}
namespace { void d2_ops() {
	host_good(); D2 z; z.setup(); z.k.up(); z.k.open_good(); z.start_good(); int n = 1 + rnd("n.ops", 8);
	while (n--) { d2_op(z, true); z.k.settle(0); if (rnd("k.gap", 2)) idle(rnd("v.gap", 600) * MS); z.k.early(); }
	z.stop_close(); sample("application layer over D2, ECU %02x", z.tgt); z.k.finish();
} }
SCENARIO("C25", l7_d2, 1.2) { d2_ops(); }
SCENARIO("C16", d2_operations, 0.7) { d2_ops(); }
namespace {
void d2_faulty(bool l7) {
	host_any(); D2 z; z.setup(); z.k.up(); swarm({ELM_FAULTS}, 0.2, 0.0005, 0.03); int n = 1 + rnd("n.rounds", 2);
	while (n--) {
		u64 t0 = now(); bool op = z.k.s.l2open || z.k.open(); if (!op) { CHECK(open_fds() == 0, "open:fd", "a failed open left %d descriptors", open_fds()); continue; }
		t0 = now(); bool st = z.start(); CHECK(now() - t0 < 30 * SEC, "start:slow", "starting took %.3f s", (now() - t0) / 1e9); int m = st ? rnd("n.ex", 6) : 0;
		while (m--) {
			if (l7) d2_op(z, false); else {
				Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", 7)); Bytes a = rnd_bytes("v.rsp", 1 + rnd("v.rspn", 40)); std::vector<ElmRsp> v; u32 p = chance("k.pend", 0.3) ? 1 + rnd("v.npend", 8) : 0; while (p--) v.push_back(z.rsp(z.frame({0x7E, q[0], 0x23}))); v.push_back(z.rsp(z.frame(a)));
				size_t mk = z.k.e.mark(); z.k.plan.clear(); z.k.plan.push_back(v); auto r = l2_request(z.k.s.conn, q, 100 * SEC);
				if (r.null) CHECK(r.err < 0, "request:no-error", "no answer but the error code is %d", r.err); else { bool f = false; Bytes d; for (auto &l : z.k.e.lines(mk)) if (z.valid(l, d) && d == r.m[0].d) f = true; CHECK(f, "msg:invented", "delivered [%s] is no valid frame received since the request", hex(r.m[0].d).c_str()); }
			}
			if (rnd("k.gap", 2)) idle(rnd("v.gap", 1500) * MS);
		}
		z.k.plan.clear(); op_deadline(now() + 120 * SEC); z.k.s.stop(); op_deadline(0); diag_l2_close(z.k.s.dl0d); z.k.s.l2open = false;
	}
	FaultsOff off; clear_rates(); z.k.plan.clear(); z.k.settle(1500 * MS); oversleep_max = 0; int tries = 0;
	for (;;) { CHECK(++tries <= 3, "recovery", "after the faults stopped, no session could be opened within 3 tries"); if (!z.k.s.l2open && !z.k.open()) continue; if (!z.start()) { z.k.settle(500 * MS); diag_l2_close(z.k.s.dl0d); z.k.s.l2open = false; continue; } break; }
	for (tries = 0;; ) { Bytes q = {0xA5, (u8)rnd("v.pid", 256), 1}; Bytes a = {0xE5, q[1], 7}; z.k.plan.clear(); z.k.plan.push_back({z.rsp(z.frame(a))}); auto r = l2_request(z.k.s.conn, q, 30 * SEC); tries++; if (!r.null) { CHECK(r.m[0].d == a, "recovery:data", "answer [%s] delivered as [%s]", hex(a).c_str(), hex(r.m[0].d).c_str()); break; } CHECK(tries < 3, "recovery:exchange", "after the faults stopped, 3 requests failed (last error %d)", r.err); z.k.settle(300 * MS); }
	if (l7) d2_op(z, true); else z.l2good();
	z.k.settle(); sample("D2 under faults"); z.k.plan.clear(); z.k.finish();
}
// ---- KWP71
const char *kname[] = {"ping", "memory", "ROM", "ADC", "list codes", "clear codes"};
struct K71 { int kind; Blk q; std::vector<Blk> pos; int rv = 0; Bytes out; int buflen = 0; u16 addr = 0; int ns = 0; Blk q2; bool two = false; };
K71 pick_71() {
	K71 o; o.kind = rnd("v.op", 6); Blk a;
	switch (o.kind) {
	case 0: o.q.type = 9; break;
	case 1: case 2: o.ns = o.kind == 1 ? NS_MEMORY : NS_ROM; o.addr = rnd("v.addr", 65536); o.buflen = 1 + rnd("v.count", 100); o.q.type = o.kind == 1 ? 1 : 3; o.q.d = {(u8)o.buflen, (u8)(o.addr >> 8), (u8)o.addr}; a.type = o.kind == 1 ? 0xFE : 0xFD; a.d = rnd_bytes("v.mem", o.buflen); o.pos = {a}; o.rv = o.buflen; o.out = a.d; break;
	case 3: o.ns = NS_ADC; o.addr = rnd("v.ch", 256); o.buflen = rnd("v.buf", 4); o.q.type = 8; o.q.d = {(u8)o.addr}; a.type = 0xFB; a.d = rnd_bytes("v.adc", 2); o.pos = {a}; o.rv = std::min(2, o.buflen); o.out = a.d; break;
	case 4: case 5: { o.buflen = o.kind == 4 ? (int)rnd("v.buf", 30) : 0; o.q.type = 7; a.type = 0xFC; u32 n = rnd("v.ndtc", 5); if (!n) { a.d = {0}; o.pos = {a}; } while (n) { u32 m = std::min(n, 2u); a.d = rnd_bytes("v.dtc", 5 * m); o.pos.push_back(a); n -= m; } if (o.pos[0].d == Bytes({0})) { o.rv = 0; } else { o.rv = o.pos[0].d.size(); o.out = o.pos[0].d; } if (o.kind == 5) { o.out.clear(); if (o.rv) { o.two = true; o.q2.type = 5; o.rv = 1; } } break; }
	}
	return o;
}
Out7 call_71(VG &k, const K71 &o) {
	Out7 r; r.buf.assign(o.buflen + 32, 0xA5); u8 *b = r.buf.data(); auto c = k.s.conn; set_op(kname[o.kind]); op_deadline(now() + 900 * SEC); ev("op %s", kname[o.kind]);
	switch (o.kind) { case 0: r.rv = diag_l7_kwp71_ping(c); break; case 4: r.rv = diag_l7_kwp71_dtclist(c, o.buflen, b); break; case 5: r.rv = diag_l7_kwp71_cleardtc(c); break; default: r.rv = diag_l7_kwp71_read(c, (enum l7_namespace)o.ns, o.addr, o.buflen, b); }
	op_deadline(0); ev("op returns %d", r.rv); evbytes("out", r.buf.data(), r.buf.size()); soft_fail(r.rv < 0); return r;
}
void k71_op(VG &k, bool healthy) {
	K71 o = pick_71(); u32 outc = chance("k.odd", 0.4) ? 1 + rnd("v.outc", 4) : 0; if (o.kind == 0) outc = outc ? 1 : 0; bool second = o.two && rnd("k.second", 2), ok = true; Plan1281 p, p2; p.tele = o.pos; int want = 1; Plan1281 &x = second ? p2 : p;
	if (o.kind == 0) { if (outc) { outc = 0; } }     // an ECU answers a ping with whatever it has to say; only the acknowledgement counts
	switch (outc) {
	case 1: x.unknown = true; x.tele.clear(); ok = false; want = DIAG_ERR_ECUSAIDNO; break;
	case 2: { Blk b; do b.type = rnd("v.type", 256); while (b.type == 9 || b.type == 0xA || b.type == 6 || (!second && b.type == o.pos[0].type)); b.d = second ? Bytes() : o.pos[0].d; x.tele = {b}; ok = false; break; }
	case 3: if (o.kind <= 3) { ok = false; Blk &b = x.tele[0]; if (rnd("k.longer", 2)) b.d.push_back(1); else b.d.pop_back(); if (b.d.empty() && o.kind == 0) ok = true; } break;
	case 4: if (!second) { x.tele.clear(); ok = false; } break;    // only an acknowledgement
	}
	if (chance("k.nk", 0.1)) p.nack = 1 + rnd("v.nack", 2);
	k.ecu.plan.clear(); if (o.kind) { k.ecu.plan.push_back(p); if (o.two && (second || ok)) k.ecu.plan.push_back(p2); } size_t g0 = k.ecu.got.size(), b0 = k.ecu.byte_faults; Out7 r = call_71(k, o); count("p.op");
	Op7 c; c.kind = 1; c.buflen = o.buflen;
	if (healthy) {
		if (o.kind) { CHECK(k.ecu.got.size() > g0 && k.ecu.got[g0].type == o.q.type && k.ecu.got[g0].d == o.q.d, "l7:request", "%s: the ECU was asked %02x [%s] instead of %02x [%s]", kname[o.kind], k.ecu.got.size() > g0 ? k.ecu.got[g0].type : 0, k.ecu.got.size() > g0 ? hex(k.ecu.got[g0].d).c_str() : "", o.q.type, hex(o.q.d).c_str());
			size_t nreq = o.two && (second || ok) ? 2 : 1; CHECK(k.ecu.got.size() == g0 + nreq, "l7:requests", "%s: %zu requests", kname[o.kind], k.ecu.got.size() - g0); if (nreq == 2) CHECK(k.ecu.got[g0 + 1].type == 5 && k.ecu.got[g0 + 1].d.empty(), "l7:request2", "%s: second request %02x", kname[o.kind], k.ecu.got[g0 + 1].type); }
		if (ok) { CHECK(r.rv == o.rv, "l7:result", "%s: the ECU's answer means %d, returned was %d", kname[o.kind], o.rv, r.rv); c.kind = 1; check_out(c, r, o.rv, o.out); }
		else { CHECK(r.rv < 0, "l7:accepted", "%s succeeded with %d (case %u)", kname[o.kind], r.rv, outc); if (want < 0) CHECK(r.rv == want, "l7:negative", "%s: refusal reported as %d", kname[o.kind], r.rv); for (u8 b : r.buf) CHECK(b == 0xA5, "l7:failed-data", "%s failed but wrote data", kname[o.kind]); }
		k.sane(); return;
	}
	if (r.rv < 0 || k.ecu.byte_faults != b0) return;
	// the ECU heard every byte right: what is returned is what it said
	if (o.kind && k.ecu.got.size() > g0) { CHECK(ok || second || o.kind == 5, "l7:accepted", "%s succeeded with %d (case %u)", kname[o.kind], r.rv, outc); if (ok) { CHECK(r.rv == o.rv, "l7:result", "%s: the ECU's answer means %d, returned was %d", kname[o.kind], o.rv, r.rv); check_out(c, r, o.rv, o.out); } }
}
}
SCENARIO("C16", d2_faults, 1.2) { d2_faulty(false); }
SCENARIO("C25", l7_d2_faults, 1) { d2_faulty(true); }
SCENARIO("C25", l7_kwp71, 1.2) {
	host_good(); VG k; k.setup(); k.up(); start_good(k, true); int n = 1 + rnd("n.ops", 5);
	while (n--) { k71_op(k, true); if (rnd("k.gap", 2)) idle(rnd("v.gap", 3000) * MS); }
	sample("application layer over KWP71, ECU %02x", k.ecu.addr); k.finish();
}
SCENARIO("C25", l7_kwp71_faults, 0.8) {
	host_good(); VG k; k.setup(); k.up(); start_good(k, rnd("k.takeid", 2)); swarm({"f.bus.drop", "f.bus.dup", "f.bus.gap", "f.bus.noise", "f.echo.lost", "f.echo.flip", "f.echo.late", "f.read.eio", "f.sel.err", "f.read.eintr", "f.sel.late", "f.oversleep", "f.write.eio", "f.read.short", "f.malloc"}, 0.15, 0.001, 0.05);
	if (rnd("k.which", 2)) swarm({"f.bus.flip"}, 0.5, 0.002, 0.05); else swarm({"f.ecu.misread", "f.ecu.nocomp"}, 0.5, 0.002, 0.05);
	int n = 1 + rnd("n.ops", 5); while (n--) { k71_op(k, false); k.bus.settle(rnd("v.gap", 600) * MS); }
	FaultsOff off; clear_rates(); k.s.stop(); k.bus.settle(1500 * MS); k.ecu.off("test"); k.ecu.bad_got.clear(); k.ecu.lost = 0; k.ecu.min_comp = ~0ull; start_good(k, true); k71_op(k, true); sample("KWP71 under faults"); k.finish();
}
// ------------------------------------------------------------------ C23
SCENARIO("C23", oom_d2, 1) {
	host_good(); D2 z; z.setup(); z.k.up(); OomUnit u; u.name = "D2"; u.s = &z.k.s; u.rest = 500 * MS;
	u.open = [&]() { return z.k.open(); }; u.start = [&]() { return z.start(); }; u.good = [&]() { if (rnd("k.l7", 3)) d2_op(z, true); else z.l2good(); }; u.stop = [&]() { z.k.plan.clear(); z.k.s.stop(); }; u.calm = [&]() { z.k.plan.clear(); z.k.settle(); }; u.finish = [&]() { z.k.settle(); z.k.finish(); };
	u.run();
}
SCENARIO("C23", oom_kwp71, 0.7) {
	host_good(); VG k; k.setup(); k.up(); OomUnit u; u.name = "KWP71"; u.s = &k.s; u.rest = 3 * SEC; u.close();
	u.open = [&]() { return k.s.open(DIAG_L1_ISO9141); }; u.start = [&]() { if (!k.start()) return false; k.recv(); return true; }; u.alive = [&]() { return k.ecu.st > Ecu1281::KB; }; u.good = [&]() { k71_op(k, true); }; u.stop = [&]() { k.s.stop(); }; u.calm = [&]() { k.bus.settle(300 * MS); k.ecu.lost = 0; }; u.finish = [&]() { k.finish(); };
	u.run();
}
