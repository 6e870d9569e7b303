// Volvo D2 sessions through the model adapter.
#pragma once
#include "elm_sess.h"
extern "C" {
#include "diag_l7.h"
#include "diag_l7_d2.h"
#include "diag_l7_kwp71.h"
}
namespace {
u8 oddpar(u8 a) { a &= 0x7f; return a | (__builtin_popcount(a) % 2 ? 0 : 0x80); }
struct D2 {
	EL k; u8 tgt = 0x10, src = 0x13; std::vector<Bytes> hdrs;
	Bytes frame(const Bytes &d, u8 from, u8 to) const { Bytes f = cat({(u8)(0x80 + d.size() + 1), to, from}, d); f.push_back(cks(f)); return f; }
	Bytes frame(const Bytes &d) const { return frame(d, tgt, src); }
	void setup() {
		k.setup(true); k.l1 = DIAG_L1_ISO9141; k.e.kb1 = 0xD3; k.e.kb2 = 0xB0; static const u8 ad[] = {0x10, 0x29, 0x51, 0x6E, 0x7A, 0x01, 0x58, 0x62, 0x2F, 0x11, 0x40}; tgt = ad[rnd("v.tgt", 11)];
		if (chance("k.anytgt", 0.3)) { do tgt = rnd("v.tgt2", 128); while (oddpar(tgt) == 0x33); }
		if (chance("k.src", 0.15)) { do src = 1 + rnd("v.src", 254); while (src == tgt); }
		k.e.request = [this](const Bytes &h, const Bytes &d) { hdrs.push_back(h); k.got.push_back(d); std::vector<ElmRsp> v; if (d == Bytes({1, 0}) && h[0] == 0x68) { ElmRsp r; r.f = {0x48, 0x6B, 0x10, 0x41, 0, 1, 2, 3, 4}; r.f.push_back(cks(r.f)); v.push_back(r); return v; }
			if (d == Bytes({0xA0})) { ElmRsp r; r.f = frame({0xE0}); if (!mute_stop) v.push_back(r); stops++; return v; }
			if (!k.plan.empty()) { v = k.plan.front(); k.plan.pop_front(); } return v; };
	}
	bool mute_stop = false; int stops = 0;
	bool start() { op_deadline(now() + 40 * SEC); static const unsigned br[] = {0, 10400, 9600}; bool r = k.s.start(DIAG_L2_PROT_D2, DIAG_L2_TYPE_SLOWINIT, br[rnd("v.br", 3)], tgt, src); op_deadline(0); return r; }
	void start_good() {
		int i0 = k.inits; if (!start()) VIOL("start:refused", "a healthy D2 start (ECU %02x) through ELM327 v%s failed", tgt, k.e.ver.c_str());
		CHECK(k.inits > i0 && k.e.inited, "start:phantom", "start succeeded but the bus was not initialised");
		CHECK(k.e.tp == 3, "start:protocol", "protocol %d selected", k.e.tp);
		CHECK(k.e.wm == Bytes({0x82, tgt, src, 0xA1}), "start:wakeup", "the periodic message is [%s]", hex(k.e.wm).c_str());
		CHECK(k.e.iia == oddpar(tgt), "start:address", "initialisation address %02x for ECU %02x", k.e.iia, tgt);
		struct diag_l2_data d; memset(&d, 0, sizeof d); diag_l2_ioctl(k.s.conn, DIAG_IOCTL_GET_L2_DATA, &d);
		CHECK(d.kb1 == 0xD3 && d.kb2 == 0xB0, "start:keybytes", "key bytes %02x %02x recorded", d.kb1, d.kb2);
	}
	void stop_close() { int s0 = stops; bool had = k.s.conn; u64 t0 = now(); if (had) { k.s.stop(); if (!faults_fired) { CHECK(stops == s0 + 1, "stop:request", "the session was stopped with %d stop requests", stops - s0); if (mute_stop) CHECK(now() - t0 >= 5 * SEC, "stop:early", "stop was not confirmed, yet returned after %.3f s", (now() - t0) / 1e9); } } k.settle(); diag_l2_close(k.s.dl0d); k.s.l2open = false; }
	ElmRsp rsp(const Bytes &f) { ElmRsp r; r.f = f; r.d = (5 + rnd("v.d", (u32)(k.e.st / MS / 2 - 6))) * MS; return r; }
	void want_req(size_t g0, const Bytes &q, u8 dst, u8 sr) {
		CHECK(k.got.size() == g0 + 1 && k.got.back() == q, "request:data", "the adapter was asked [%s] instead of [%s]", k.got.size() > g0 ? hex(k.got.back()).c_str() : "nothing", hex(q).c_str());
		CHECK(hdrs.back() == Bytes({(u8)(0x80 + q.size() + 1), dst, sr}), "request:header", "the header of [%s] was [%s]", hex(q).c_str(), hex(hdrs.back()).c_str());
		if (k.e.sr != sr) VIOL("request:filter", "receive address %02x instead of %02x", k.e.sr, sr);
	}
	u32 maxreq() { return k.e.clone ? 8 : 62; }
	// a request addressed by the message itself: goes there, and later ones to the session's ECU again
	void l2other() {
		u8 o; do o = 1 + rnd("v.other", 255); while (o == tgt || o == src); Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", maxreq())); if (q[0] == 0xA0) q[0] = 0xA5;
		struct diag_msg m; memset(&m, 0, sizeof m); m.len = q.size(); m.data = q.data(); m.dest = o; size_t g0 = k.got.size(); k.plan.clear(); set_op("send"); op_deadline(now() + 30 * SEC); int rv = diag_l2_send(k.s.conn, &m); op_deadline(0); k.settle();
		CHECK(rv == 0, "send:failed", "sending to %02x failed with %d", o, rv); want_req(g0, q, o, src);
	}
	// an exchange at layer 2
	void l2good() {
		for (int i = 0; i < 60 && k.e.busy; i++) idle(500 * MS);
		if (chance("k.l2other", 0.08)) l2other();
		Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", maxreq())); if (q[0] == 0xA0) q[0] = 0xA5; Bytes a = rnd_bytes("v.rsp", 1 + rnd("v.rspn", 62)); if (a.size() == 3 && a[0] == 0x7E && a[2] == 0x23) a[2] = 0x22;
		std::vector<ElmRsp> v; u32 p = chance("k.pend", 0.3) ? 1 + rnd("v.npend", 40) : 0; if (q[0] == 0xA0) p = 0; bool lp = p && chance("k.longpend", 0.1); u64 lt = 0; while (lp ? lt < 24 * SEC : p--) { v.push_back(rsp(frame({0x7E, q[0], 0x23}))); if (lp) v.back().d = std::max<u64>(v.back().d, 60 * MS); lt += v.back().d; } v.push_back(rsp(frame(a)));
		k.plan.clear(); k.plan.push_back(v); size_t g0 = k.got.size(); ReqResult r = l2_request(k.s.conn, q, 60 * SEC); want_req(g0, q, tgt, src);
		CHECK(!r.null && r.err == 0 && r.m.size() == 1, "exchange:failed", "healthy exchange (%zu bytes answered after %zu pending) failed with %d", a.size(), v.size() - 1, r.err);
		CHECK(r.m[0].d == a && r.m[0].src == tgt && r.m[0].dest == src, "exchange:data", "answer [%s] delivered as [%s] from %02x", hex(a).c_str(), hex(r.m[0].d).c_str(), r.m[0].src);
	}
	bool valid(const Bytes &l, Bytes &d) const { if (l.size() < 5 || l[0] < 0x82 || l.size() < (l[0] & 0x3fu) + 3u || (l[0] & 0xC0) != 0x80 || l[1] != src || l[2] != tgt) return false; Bytes p(l.begin(), l.end() - 1); if (cks(p) != l.back()) return false; d.assign(p.begin() + 3, p.end()); return true; }
};
}
