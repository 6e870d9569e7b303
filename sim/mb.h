// MB1 sessions with the model ECU.
#pragma once
#include "kline.h"
namespace {
struct RspMb { Bytes d; u64 p2 = 30 * MS; int bad = 0; };   // bad: 1 checksum low, 2 checksum high, 3 length too small (<5), 4 length shorter than sent, 5 truncated, 6 length longer than sent, 7 silent, 8 late (> 1 s)
struct EcuMb : Ecu {
	u8 addr = 0x10, kb1 = 0xC2, kb2 = 0xCD; u64 w1 = 100 * MS, w2 = 10 * MS, w3 = 5 * MS, p3max = 1000 * MS; int bad = 0; bool greeting = true, mute = false; Bytes greet;
	enum { OFF, SESSION } st = OFF; u64 last = 0, gen = 0; int sessions = 0, lost = 0, keep = 0; std::vector<u64> ka_t; std::vector<Frame> got, bad_got; std::deque<RspMb> plan; Bytes in; u64 t0_ = 0, t1_ = 0; u64 sent_end = 0;
	static Bytes frame(u8 a, const RspMb &r) {
		Bytes f = {a, r.d[0], (u8)(r.d.size() + 4)}; f.insert(f.end(), r.d.begin() + 1, r.d.end());
		if (r.bad == 3) f[2] = r.d.size() % 5; if (r.bad == 4) f[2] -= 1 + r.d.size() % 3; if (r.bad == 6) f[2] += 1 + r.d.size() % 3;
		unsigned c = 0; for (u8 x : f) c += x; if (r.bad == 1) c ^= 1 << (r.d.size() % 8); if (r.bad == 2) c ^= 0x100 << (r.d.size() % 8);
		f.push_back(c & 0xff); f.push_back(c >> 8); if (r.bad == 5) f.resize(1 + (r.d[0] * 7u) % (f.size() - 1));
		return f;
	}
	void addr5(u8 a, u64 tend) override {
		if (a != addr || bad == 1) return;
		st = OFF; in.clear();
		u64 t = bus->ecu_tx(this, {(u8)(bad == 2 ? 0x57 : 0x55)}, tend + w1); if (bad == 3) return;
		t = bus->ecu_tx(this, {(u8)(bad == 5 ? kb1 ^ (1 << (w2 / MS % 8)) : kb1)}, t + w2); if (bad == 4) return;
		t = bus->ecu_tx(this, {(u8)(bad == 6 ? kb2 ^ (1 << (w2 / MS % 8)) : kb2)}, t + w3);
		if (bad) return;
		if (greeting) { RspMb g; g.d = greet; t = bus->ecu_tx(this, frame(0x10, g), t + 30 * MS + w3); }
		at(t, [this, t]() { st = SESSION; sessions++; last = greeting ? t : t + 1150 * MS; in.clear(); ev("ecu session"); });
	}
	void alive(u64 t) { if (st == SESSION && t > last + p3max) { ev("ecu session lost"); lost++; st = OFF; } }
	void rx(u8 b, u64 t0, u64 t1) override {
		if (in.empty()) { alive(t0); t0_ = t0; } in.push_back(b); t1_ = t1;
		at(t1 + 22 * MS, [this, t1]() { if (t1_ == t1 && !in.empty()) end(); });
	}
	void end() {
		Frame f{t0_, t1_, in}; in.clear(); if (st != SESSION) return;
		unsigned c = 0; for (size_t i = 0; i + 2 < f.b.size(); i++) c += f.b[i];
		bool ok = f.b.size() >= 5 && f.b.size() == f.b[2] && f.b[0] == addr && f.b[f.b.size() - 2] == (c & 0xff) && f.b.back() == (c >> 8 & 0xff);
		if (!ok) { bad_got.push_back(f); ev("ecu: bad frame"); return; }
		last = f.t1;
		if (f.b[1] == 0x50 && f.b.size() == 6 && f.b[3] == 1) { keep++; ka_t.push_back(f.t0); if (mute) return; RspMb k; k.d = {0x50 | 0x80, 1}; k.p2 = 20 * MS; tx(k, f.t1); return; }
		got.push_back(f); if (plan.empty()) return;
		RspMb r = plan.front(); plan.pop_front(); tx(r, f.t1);
	}
	void tx(RspMb r, u64 t) {
		if (r.bad == 7 || fault("f.ecu.silent")) return;
		if (r.bad == 8) t += 1050 * MS; if (u32 f = fault("f.ecu.late", 5)) t += f * f * 60 * MS;
		if (fault("f.ecu.badcs")) r.bad = 1;
		last = bus->ecu_tx(this, frame(0x10, r), t + r.p2);
	}
};
struct MB {
	KLine bus; EcuMb ecu; Sess s; size_t a0; int opts; u64 chunk = 0; unsigned speed = 0;
	MB() { a0 = live_allocs(); }
	void setup() {
		opts = dopts[rnd("k.dopt", 20)]; bus.has_l = opts & 1; bus.l_inv = opts & 0x10;
		static const unsigned sp[] = {0, 0, 9600, 10400, 4800}; speed = sp[rnd("v.speed", 5)]; ecu.baud = speed ? speed : 9600;
		static const u8 ts[] = {0x10, 0x01, 0x33, 0x00, 0xFF, 0x55, 0x80}; ecu.addr = ts[rnd("v.tgt", 7)]; if (chance("k.tgt", 0.3)) ecu.addr = rnd("v.tgt2", 256);
		static const u64 ch[] = {0, 0, 1 * MS, 4 * MS, 8 * MS}; chunk = ch[rnd("k.chunk", 5)]; if (opts & 0x20) chunk = 0;
		ecu.w1 = (60 + rnd("v.w1", 241)) * MS; ecu.w2 = (5 + rnd("v.w2", 70)) * MS; ecu.w3 = rnd("v.w3", 70) * MS;
		static const u64 p1s[] = {0, 0, 1, 3, 6, 15, 30}; ecu.p1 = p1s[rnd("v.p1", 7)] * MS; if (ecu.p1 > 6 * MS) chunk = 0;
		ecu.greeting = rnd("k.greet", 3); ecu.greet = rnd_bytes("v.greet", 1 + rnd("v.greetn", 30)); if ((opts & 1) && chance("k.lonly", 0.5)) ecu.listen_l = true;
		bus.add(&ecu);
	}
	void up() {
		lib_up(); FaultsOff f; if (s.add("DUMB", "/dev/ttyS0", &bus, opts)) VIOL("setup", "creating the interface failed");
		s.t->rx_chunk = chunk; if (!s.open(DIAG_L1_ISO9141)) VIOL("open", "opening a healthy port failed");
	}
	bool start() { op_deadline(now() + 60 * SEC); bool r = s.start(DIAG_L2_PROT_MB1, DIAG_L2_TYPE_SLOWINIT, speed, ecu.addr, 0xF1); op_deadline(0); return r; }
	void finish() { op_deadline(now() + 60 * SEC); s.down(); lib_down(); op_deadline(0); end_checks(a0); }
	Bytes req() { u32 n = 1 + rnd("v.reqn", chance("k.long", 0.15) ? 251 : 12); Bytes b = rnd_bytes("v.req", n); if (b[0] == 0x50) b[0] = 0x51; return b; }
	RspMb rsp() { RspMb r; r.d = rnd_bytes("v.rsp", 1 + rnd("v.rspn", chance("k.longr", 0.2) ? 251 : 20)); static const u64 p2[] = {10, 25, 50, 100, 400, 900}; r.p2 = p2[rnd("v.p2", 6)] * MS; return r; }
};
void start_good(MB &k) {
	int s0 = k.ecu.sessions; if (!k.start()) VIOL("start:refused", "a healthy MB1 start failed (opts %x address %02x speed %u)", k.opts, k.ecu.addr, k.speed);
	CHECK(k.ecu.sessions == s0 + 1 && k.ecu.st == EcuMb::SESSION, "start:phantom", "start succeeded but the ECU is not in a session");
	CHECK(k.s.t->cur.ospeed == k.ecu.baud, "start:speed", "the port runs at %u instead of %u", k.s.t->cur.ospeed, k.ecu.baud);
	struct diag_l2_data d; memset(&d, 0, sizeof d); diag_l2_ioctl(k.s.conn, DIAG_IOCTL_GET_L2_DATA, &d); CHECK(d.kb1 == 0xC2 && d.kb2 == 0xCD, "start:keybytes", "key bytes %02x %02x recorded", d.kb1, d.kb2);
}
void good_exchange(MB &k, bool split) {
	Bytes q = k.req(); RspMb p = k.rsp(); k.ecu.plan.clear(); k.ecu.plan.push_back(p); size_t g0 = k.ecu.got.size(), b0 = k.ecu.bad_got.size(); u64 tq = now(); ReqResult r;
	if (split) { int rv = l2_send(k.s.conn, q, 20 * SEC); CHECK(rv == 0, "send:failed", "healthy send failed with %d", rv); r = l2_recv(k.s.conn, 1000, 20 * SEC); } else r = l2_request(k.s.conn, q, 20 * SEC);
	CHECK(k.ecu.bad_got.size() == b0 || k.bus.collisions || k.ecu.bad_got.back().t0 < tq, "request:malformed", "the ECU saw a malformed request [%s]", hex(k.ecu.bad_got.empty() ? Bytes() : k.ecu.bad_got.back().b).c_str());
	CHECK(k.ecu.got.size() == g0 + 1, "request:count", "%zu requests reached the ECU", k.ecu.got.size() - g0);
	Bytes seen = {k.ecu.got.back().b[1]}; seen.insert(seen.end(), k.ecu.got.back().b.begin() + 3, k.ecu.got.back().b.end() - 2);
	CHECK(seen == q, "request:data", "the ECU got [%s] instead of [%s]", hex(seen).c_str(), hex(q).c_str());
	CHECK(!r.null && r.err == 0, "exchange:failed", "healthy exchange failed with %d", r.err);
	CHECK(r.m.size() == 1 && r.m[0].d == p.d, "exchange:data", "sent [%s] delivered [%s]", hex(p.d).c_str(), r.m.empty() ? "" : hex(r.m[0].d).c_str());
}
void sound(MB &k, size_t mark, const ReqResult &r) {
	if (r.null) { CHECK(r.err < 0, "request:no-error", "no answer but the error code is %d", r.err); return; }
	CHECK(r.m.size() == 1, "msg:count", "%zu messages", r.m.size()); if (r.m[0].fmt & DIAG_FMT_BADCS) return;
	CHECK(r.m[0].d.size() > 0, "msg:empty", "an empty message");
	auto &v = k.bus.ecu_rx; bool found = false; auto &d = r.m[0].d; size_t n = d.size() + 4;
	for (size_t i = mark; i + n <= v.size() && !found; i++) {
		if (v[i + 2].b != n || v[i + 1].b != d[0]) continue; unsigned c = 0; for (size_t j = 0; j + 2 < n; j++) c += v[i + j].b;
		if (v[i + n - 2].b != (c & 0xff) || v[i + n - 1].b != (c >> 8 & 0xff)) continue; bool eq = true; for (size_t j = 1; j < d.size(); j++) eq = eq && v[i + 2 + j].b == d[j]; found = eq;
	}
	CHECK(found, "msg:invented", "delivered [%s] is no valid block received since the request (received: %s)", hex(d).c_str(), hex(rx_since(k.bus, mark)).c_str());
}
}
