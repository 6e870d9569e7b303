// ISO 14230 sessions with the model ECU.
#pragma once
#include "ecu14230.h"
namespace {
struct KW {
	KLine bus; Ecu14230 ecu; Sess s; size_t a0; int opts = 0x48; bool fast = true, func = false; u8 tgt = 0x10, src = 0xF1; u64 chunk = 0; bool idle1979 = false;
	KW() { a0 = live_allocs(); }
	void setup() {
		opts = dopts[rnd("k.dopt", 20)];
		bus.has_l = opts & 1; bus.l_inv = opts & 0x10;
		ecu.kb1 = 0xC0 | rnd("v.kb1", 16) | (rnd("v.kbt", 2) ? 0x20 : 0x10);
		if (chance("k.kb2", 0.1)) ecu.kb2 = rnd("v.kb2b", 256);
		fast = !rnd("k.slow", 2);
		func = chance("k.func", 0.3);
		static const u8 ts[] = {0x10, 0x33, 0x01, 0xFF, 0x00, 0xAA, 0x55, 0x80, 0x7F};
		tgt = ts[rnd("v.tgt", 9)]; if (chance("k.tgt", 0.4)) tgt = rnd("v.tgt2", 256);
		src = chance("k.src", 0.4) ? rnd("v.src", 256) : 0xF1;
		ecu.addr = func ? (u8)(tgt ^ 0x22) : tgt; ecu.faddr = tgt; ecu.functional = func;
		if (!ecu.addr) ecu.addr = func ? 0x77 : ecu.addr;
		ecu.w1 = (60 + rnd("v.w1", 241)) * MS; ecu.w2 = (5 + rnd("v.w2", 16)) * MS; ecu.w3 = rnd("v.w3", 21) * MS; ecu.w4 = (25 + rnd("v.w4", 26)) * MS;
		ecu.p2 = (25 + rnd("v.p2", 20)) * MS;
		static const u64 p1s[] = {0, 0, 1, 3, 6, 10, 15, 18}; ecu.p1 = p1s[rnd("v.p1", 8)] * MS;
		static const u64 ch[] = {0, 0, 1 * MS, 4 * MS, 8 * MS};
		chunk = ecu.p1 <= 10 * MS ? ch[rnd("k.chunk", 5)] : 0; if (opts & 0x20) chunk = 0;
		if ((opts & 1) && !fast && chance("k.lonly", 0.5)) ecu.listen_l = true;
		bus.add(&ecu);
		idle1979 = chance("k.idle1979", 0.3);
	}
	bool up() {
		lib_up();
		FaultsOff f;
		if (s.add("DUMB", "/dev/ttyS0", &bus, opts)) VIOL("setup", "creating the interface failed");
		s.t->rx_chunk = chunk;
		if (!s.open(DIAG_L1_ISO14230)) VIOL("open", "opening a healthy port failed");
		return true;
	}
	unsigned flags() { return (fast ? DIAG_L2_TYPE_FASTINIT : DIAG_L2_TYPE_SLOWINIT) | (func ? DIAG_L2_TYPE_FUNCADDR : 0) | (idle1979 ? DIAG_L2_IDLE_J1978 : 0); }
	bool start(u64 limit = 40 * SEC) { op_deadline(now() + limit); bool r = s.start(DIAG_L2_PROT_ISO14230, flags(), 0, tgt, src); op_deadline(0); return r; }
	void finish(bool endc = true) {
		op_deadline(now() + 120 * SEC);
		s.down();
		lib_down(); op_deadline(0);
		if (endc) end_checks(a0);
	}
	Bytes rnd_req(u32 maxlen) {
		u32 n = 1 + rnd("v.reqlen", chance("k.longreq", 0.25) ? maxlen : 12); if (n > maxlen) n = maxlen;
		Bytes b = rnd_bytes("v.req", n);
		if (b[0] == 0x82 || b[0] == 0x3E || b[0] == 0x7F || b[0] == 0x81) b[0] = 0x21;
		if (n == 2 && b[0] == 1 && b[1] == 0) b[1] = 5;
		return b;
	}
	u32 maxreq() { return ecu.al1() ? 255 : 63; }
};
ReqResult do_request(KW &k, Bytes d, u64 limit) { return l2_request(k.s.conn, d, limit); }
// is there, from pos on, a frame on the receiver's line that m can come from? moves pos behind it
bool frame_for(const KLine &b, size_t &pos, const Msg &m) {
	auto &v = b.ecu_rx;
	for (size_t i = pos; i < v.size(); i++) {
		u8 f = v[i].b; bool ad = f & 0x80; if (!ad && (f & 0x40)) continue;
		size_t h = ad ? 3 : 1, n = f & 0x3f;
		if (n == 0) { if (i + h >= v.size()) continue; n = v[i + h].b; h++; }
		if (n != m.d.size() || i + h + n + 1 > v.size()) continue;
		u8 s = 0; for (size_t j = 0; j < h + n; j++) s += v[i + j].b;
		if (s != v[i + h + n].b) continue;
		if ((ad ? v[i + 1].b : 0) != m.dest || (ad ? v[i + 2].b : 0) != m.src) continue;
		if (!!(m.fmt & DIAG_FMT_ISO_FUNCADDR) != ((f & 0xC0) == 0xC0)) continue;
		bool eq = true; for (size_t j = 0; j < n && eq; j++) eq = v[i + h + j].b == m.d[j];
		if (!eq) continue;
		pos = i + h + n + 1; return true;
	}
	return false;
}
void soundness(KW &k, size_t mark, const ReqResult &r) {
	size_t pos = mark;
	if (r.null) { CHECK(r.err < 0, "request:no-error", "no answer but the error code is %d", r.err); CHECK(r.m.empty(), "x", "x"); return; }
	CHECK(r.err == 0 || r.err == DIAG_ERR_ECUSAIDNO, "request:odd-error", "a message was returned with error %d", r.err);
	for (auto &m : r.m) {
		if (m.fmt & DIAG_FMT_BADCS) { count("p.flagged"); continue; }
		CHECK(m.d.size() > 0, "msg:empty", "a message without data was delivered");
		CHECK(frame_for(k.bus, pos, m), "msg:invented", "delivered message [%s] src %02x dest %02x is no valid frame received since the request (received: %s)", hex(m.d).c_str(), m.src, m.dest,
			[&]() { Bytes b; for (size_t i = mark; i < k.bus.ecu_rx.size() && b.size() < 300; i++) b.push_back(k.bus.ecu_rx[i].b); return hex(b); }().c_str());
	}
}
void check_tester_timing(KW &k, size_t from, bool strict) {
	// inter-byte gaps of the tester's frames and the gap before them
	for (size_t i = from; i < k.bus.bus.size(); i++) {
		auto &x = k.bus.bus[i]; if (x.src != 0 || x.baud < 400) continue;
		if (i && k.bus.bus[i - 1].src == 0 && k.bus.bus[i - 1].baud > 400 && x.t0 - k.bus.bus[i - 1].t1 < 40 * MS) {
			u64 g = x.t0 - k.bus.bus[i - 1].t1;
			CHECK(g + 300 * US >= 5 * MS, "tx:p4min", "tester bytes only %.3f ms apart (P4min is 5 ms)", g / 1e6);
			if (strict) CHECK(g <= 20 * MS, "tx:p4max", "tester bytes %.3f ms apart (P4max is 20 ms)", g / 1e6);
		} else if (i && strict) {
			u64 g = x.t0 - k.bus.bus[i - 1].t1;
			CHECK(g >= 55 * MS, "tx:p3min", "request started %.3f ms after the last byte on the bus (P3min is 55 ms)", g / 1e6);
		}
	}
}
std::vector<Rsp> rnd_rsps(KW &k, const Bytes &q, bool many) {
	std::vector<Rsp> v;
	u32 n = many ? 1 + rnd("n.rsp", 4) : 1;
	for (u32 i = 0; i < n; i++) {
		Rsp r; r.p2 = (25 + rnd("v.p2r", 26)) * MS;
		u32 len = 1 + rnd("v.rsplen", chance("k.longrsp", 0.2) ? 255 : 14);
		r.d = rnd_bytes("v.rsp", len);
		r.d[0] = (u8)(q[0] | 0x40); if (r.d[0] == 0x7F) r.d[0] = 0x50;
		r.addressed = !k.ecu.short_ok() || rnd("k.ad", 2) == 0; r.lenbyte = rnd("k.lb", 2); r.func = chance("k.rfunc", 0.1);
		if (i && k.func) r.src = 0x18 + i;
		v.push_back(r);
	}
	return v;
}
void expect_exact(KW &k, const std::vector<Rsp> &v, const ReqResult &r) {
	CHECK(!r.null && r.err == 0, "exchange:failed", "healthy exchange failed with %d", r.err);
	CHECK(r.m.size() == v.size(), "exchange:count", "%zu messages sent, %zu delivered", v.size(), r.m.size());
	for (size_t i = 0; i < v.size(); i++) {
		Bytes f = k.ecu.frame(v[i]); bool ad = f[0] & 0x80;
		CHECK(r.m[i].d == v[i].d, "exchange:data", "message %zu: sent [%s] delivered [%s]", i, hex(v[i].d).c_str(), hex(r.m[i].d).c_str());
		CHECK(r.m[i].src == (ad ? f[2] : 0u) && r.m[i].dest == (ad ? f[1] : 0u), "exchange:addr", "message %zu: addresses %02x %02x delivered as %02x %02x", i, ad ? f[2] : 0, ad ? f[1] : 0, r.m[i].src, r.m[i].dest);
		CHECK(!(r.m[i].fmt & DIAG_FMT_BADCS), "exchange:badcs", "valid frame marked as having a bad checksum");
		CHECK(!!(r.m[i].fmt & DIAG_FMT_ISO_FUNCADDR) == ((f[0] & 0xC0) == 0xC0), "exchange:func", "functional addressing mark is wrong");
		CHECK((r.m[i].fmt & DIAG_FMT_FRAMED) && (r.m[i].fmt & DIAG_FMT_CKSUMMED), "exchange:fmt", "frame and checksum marks missing (%x)", r.m[i].fmt);
	}
}

// a healthy exchange (everything checked exactly)
void good_exchange(KW &k, bool many) {
	Bytes q = k.rnd_req(k.maxreq());
	auto v = rnd_rsps(k, q, many);
	size_t g0 = k.ecu.got.size(), b0 = k.ecu.bad_got.size(), mk = k.bus.bus.size(); int c0 = k.bus.collisions;
	k.ecu.plan.clear(); k.ecu.plan.push_back(v);
	auto r = do_request(k, q, 60 * SEC);
	CHECK(k.ecu.bad_got.size() == b0, "request:malformed", "the ECU saw a malformed request [%s] for payload [%s], kb1 %02x", k.ecu.bad_got.empty() ? "" : hex(k.ecu.bad_got.back().b).c_str(), hex(q).c_str(), k.ecu.kb1);
	bool seen = false; for (size_t i = g0; i < k.ecu.got.size(); i++) { if (k.ecu.got[i].b == q) { CHECK(!seen, "request:twice", "the request was sent twice"); seen = true; } else CHECK(k.ecu.got[i].b[0] == 0x3E || k.ecu.got[i].b == Bytes({1, 0}), "request:other", "an unexpected request [%s] was sent", hex(k.ecu.got[i].b).c_str()); }
	CHECK(seen, "request:lost", "the request [%s] did not reach the ECU", hex(q).c_str());
	CHECK(k.bus.collisions == c0, "request:collision", "the tester sent while the ECU was sending");
	expect_exact(k, v, r);
	check_tester_timing(k, mk, true);
	oracle();
}
void start_good(KW &k) {
	if (!k.start()) VIOL("start:refused", "a healthy %s start failed (opts %x target %02x kb1 %02x kb2 %02x)", k.fast ? "fast" : "5-baud", k.opts, k.tgt, k.ecu.kb1, k.ecu.kb2);
	struct diag_l2_data d; memset(&d, 0, sizeof d);
	diag_l2_ioctl(k.s.conn, DIAG_IOCTL_GET_L2_DATA, &d);
	u8 kb1 = k.fast ? k.ecu.kb1 : k.ecu.kb1 & 0x7f;
	CHECK(d.kb1 == kb1 && d.kb2 == k.ecu.kb2, "start:keybytes", "announced %02x %02x, recorded %02x %02x", k.ecu.kb1, k.ecu.kb2, d.kb1, d.kb2);
	if (k.fast) CHECK(d.physaddr == k.ecu.addr, "start:physaddr", "the ECU answered as %02x, recorded %02x", k.ecu.addr, d.physaddr);
	CHECK(k.ecu.st == Ecu14230::SESSION, "start:phantom", "start succeeded but the ECU is not in a session");
}
}
