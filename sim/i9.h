// ISO 9141 sessions with the model ECU.
#pragma once
#include "ecu9141.h"
namespace {
struct I9 {
	KLine bus; Ecu9141 ecu; Sess s; size_t a0; int opts = 0x48; u8 src = 0xF1; u64 chunk = 0;
	I9() { a0 = live_allocs(); }
	void setup() {
		opts = dopts[rnd("k.dopt", 20)];
		bus.has_l = opts & 1; bus.l_inv = opts & 0x10;
		ecu.kb1 = ecu.kb2 = rnd("k.kb", 2) ? 0x94 : 0x08;
		static const u8 ts[] = {0x33, 0x33, 0x01, 0xFF, 0x00, 0xAA, 0x55, 0x80, 0x7F};
		ecu.addr = ts[rnd("v.tgt", 9)]; if (chance("k.tgt", 0.3)) ecu.addr = rnd("v.tgt2", 256);
		src = chance("k.src", 0.3) ? rnd("v.src", 256) : 0xF1;
		ecu.w1 = (60 + rnd("v.w1", 241)) * MS; ecu.w2 = (5 + rnd("v.w2", 16)) * MS; ecu.w3 = rnd("v.w3", 21) * MS; ecu.w4 = (25 + rnd("v.w4", 26)) * MS;
		static const u64 p1s[] = {0, 0, 1, 3, 6, 10, 15, 17}; ecu.p1 = p1s[rnd("v.p1", 8)] * MS;
		static const u64 ch[] = {0, 0, 1 * MS, 4 * MS, 8 * MS};
		chunk = ecu.p1 <= 10 * MS ? ch[rnd("k.chunk", 5)] : 0; if (opts & 0x20) chunk = 0;
		if ((opts & 1) && chance("k.lonly", 0.5)) ecu.listen_l = true;
		bus.add(&ecu);
	}
	void up() {
		lib_up();
		FaultsOff f;
		if (s.add("DUMB", "/dev/ttyS0", &bus, opts)) VIOL("setup", "creating the interface failed");
		s.t->rx_chunk = chunk;
		if (!s.open(DIAG_L1_ISO9141)) VIOL("open", "opening a healthy port failed");
	}
	bool start(unsigned flags = DIAG_L2_TYPE_SLOWINIT) { op_deadline(now() + 40 * SEC); bool r = s.start(DIAG_L2_PROT_ISO9141, flags, 0, ecu.addr, src); op_deadline(0); return r; }
	void finish() { op_deadline(now() + 60 * SEC); s.down(); lib_down(); op_deadline(0); end_checks(a0); }
	u64 gap() { u64 g = 25 * MS + chunk + rnd("v.p2", 26) * MS; return std::min<u64>(g, 51 * MS - chunk); }   // as the driver sees it 25..51 ms
	std::vector<Rsp9> rsps(u32 maxn) {
		std::vector<Rsp9> v; u32 n = 1 + rnd("n.rsp", maxn);
		for (u32 i = 0; i < n; i++) { Rsp9 r; r.p2 = gap(); r.src = rnd("k.src2", 2) ? 0x10 + i : (u8)rnd("v.esrc", 256); r.d = rnd_bytes("v.rsp", 1 + rnd("v.rspn", 7)); v.push_back(r); }
		return v;
	}
};
void start_good(I9 &k) {
	int s0 = k.ecu.sessions;
	if (!k.start()) VIOL("start:refused", "a healthy 5-baud start failed (opts %x target %02x kb %02x)", k.opts, k.ecu.addr, k.ecu.kb1);
	struct diag_l2_data d; memset(&d, 0, sizeof d);
	diag_l2_ioctl(k.s.conn, DIAG_IOCTL_GET_L2_DATA, &d);
	CHECK(d.kb1 == k.ecu.kb1 && d.kb2 == k.ecu.kb2, "start:keybytes", "announced %02x, recorded %02x %02x", k.ecu.kb1, d.kb1, d.kb2);
	CHECK(k.ecu.sessions == s0 + 1 && k.ecu.st == Ecu9141::SESSION, "start:phantom", "start succeeded but the ECU is not in a session");
	CHECK(k.ecu.inv.b == Bytes({(u8)~k.ecu.kb2}), "start:inverted", "the tester's answer was not the inverted key byte");
	u64 g = k.ecu.inv.t0 - k.ecu.kb_end;
	CHECK(g >= 25 * MS, "start:w4", "inverted key byte already %.3f ms after key byte 2", g / 1e6);
	CHECK(g <= 50 * MS, "start:w4max", "inverted key byte only %.3f ms after key byte 2", g / 1e6);
}
void expect(I9 &k, const std::vector<Rsp9> &v, const ReqResult &r) {
	CHECK(!r.null && r.err == 0, "exchange:failed", "healthy exchange failed with %d", r.err);
	CHECK(r.m.size() == v.size(), "exchange:count", "%zu messages sent, %zu delivered", v.size(), r.m.size());
	for (size_t i = 0; i < v.size(); i++) {
		CHECK(r.m[i].d == v[i].d, "exchange:data", "message %zu: sent [%s] delivered [%s]", i, hex(v[i].d).c_str(), hex(r.m[i].d).c_str());
		CHECK(r.m[i].src == v[i].src && r.m[i].dest == 0xF1, "exchange:addr", "message %zu from %02x delivered with source %02x, destination %02x", i, v[i].src, r.m[i].src, r.m[i].dest);
		CHECK(!(r.m[i].fmt & DIAG_FMT_BADCS), "exchange:badcs", "valid frame marked as having a bad checksum");
	}
}
void good_exchange(I9 &k, bool split, u32 maxn = 5) {
	Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", 7)); auto v = k.rsps(maxn);
	size_t g0 = k.ecu.got.size(), b0 = k.ecu.bad_got.size(), mk = k.bus.bus.size(); int c0 = k.bus.collisions;
	k.ecu.plan.clear(); k.ecu.plan.push_back(v);
	ReqResult r;
	if (split) { int rv = l2_send(k.s.conn, q, 10 * SEC); CHECK(rv == 0, "send:failed", "healthy send failed with %d", rv); r = l2_recv(k.s.conn, 60 + rnd("v.tout", 200), 60 * SEC); }
	else r = l2_request(k.s.conn, q, 60 * SEC);
	CHECK(k.ecu.bad_got.size() == b0, "request:malformed", "the ECU saw a malformed request [%s]", hex(k.ecu.bad_got.empty() ? Bytes() : k.ecu.bad_got.back().b).c_str());
	CHECK(k.ecu.got.size() == g0 + 1, "request:lost", "%zu requests reached the ECU", k.ecu.got.size() - g0);
	Bytes want = cat({0x68, 0x6A, k.src}, q); want.push_back(cks(want));
	CHECK(k.ecu.got.back().b == want, "request:frame", "request was [%s] instead of [%s]", hex(k.ecu.got.back().b).c_str(), hex(want).c_str());
	CHECK(k.bus.collisions == c0, "request:collision", "the tester sent while the ECU was sending");
	u64 last = mk ? gap_to_prev(k.bus, k.ecu.got.back().t0) : 0;
	CHECK(!last || k.ecu.got.back().t0 - last >= 55 * MS, "tx:p3min", "request only %.3f ms after the last byte on the line", (k.ecu.got.back().t0 - last) / 1e6);
	for (size_t i = mk + 1; i < k.bus.bus.size(); i++) if (k.bus.bus[i].src == 0 && k.bus.bus[i - 1].src == 0) {
		u64 g = k.bus.bus[i].t0 - k.bus.bus[i - 1].t1;
		CHECK(g >= 5 * MS && g <= 20 * MS, "tx:p4", "tester bytes %.3f ms apart", g / 1e6);
	}
	expect(k, v, r);
}
// delivered messages without mark are checksum-valid frames received since the mark, in order
void sound(I9 &k, size_t mark, const ReqResult &r) {
	if (r.null) { CHECK(r.err < 0, "request:no-error", "no answer but the error code is %d", r.err); return; }
	CHECK(r.err == 0, "request:odd-error", "a message was returned with error %d", r.err);
	size_t pos = mark;
	for (auto &m : r.m) {
		if (m.fmt & DIAG_FMT_BADCS) { count("p.flagged"); continue; }
		CHECK(m.d.size() > 0, "msg:empty", "a message without data was delivered");
		Bytes f = cat({0x48, 0x6B, (u8)m.src}, m.d); f.push_back(cks(f));
		CHECK(k.bus.arrived(pos, f), "msg:invented", "delivered message [%s] from %02x is no frame received since the request (received: %s)", hex(m.d).c_str(), m.src, hex(rx_since(k.bus, mark)).c_str());
	}
}
}
