#pragma once
#include "kline.h"
// An ISO 9141-2 ECU (reference model of the server side); several ECUs answering are sent by one object.
struct Rsp9 { Bytes d; u64 p2 = 30 * MS; u8 src = 0x10; int bad = 0; };   // bad: 1 checksum, 2 header byte, 3 second header byte, 4 too short
struct Ecu9141 : Ecu {
	u8 addr = 0x33, kb1 = 0x08, kb2 = 0x08;
	u64 w1 = 100 * MS, w2 = 10 * MS, w3 = 5 * MS, w4 = 30 * MS, p3max = 5000 * MS;
	enum Bad { GOOD, SILENT, NO_KB1, NO_KB2, NO_INV, WRONG_SYNC, WRONG_INV, KB_DIFFER, KB_UNKNOWN, LATE_KB1, LATE_KB2, LATE_INV };
	int bad = GOOD;
	enum { IDLE, KB, SESSION } st = IDLE;
	u8 k1 = 0, k2 = 0; u64 kb_end = 0; u64 last = 0;
	int sessions = 0; Frame inv;                // the tester's answer to the key bytes
	std::vector<Frame> got, bad_got;
	std::deque<std::vector<Rsp9>> plan;
	std::function<std::vector<Rsp9>(const Bytes &)> handler;
	Bytes buf; u64 t0_ = 0, t1_ = 0;
	static Bytes frame(const Rsp9 &r) {
		Bytes f = {(u8)(r.bad == 2 ? 0x49 : 0x48), (u8)(r.bad == 3 ? 0x6A : 0x6B), r.src}; f = cat(f, r.d); f.push_back((u8)(cks(f) + (r.bad == 1)));
		if (r.bad == 4) f.resize(1 + r.d.size() % 3);
		return f;
	}
	u64 answer(const std::vector<Rsp9> &v, u64 tend, bool fl = true) {
		u64 t = tend;
		for (auto &r : v) {
			if (fl && fault("f.ecu.silent")) continue;
			t += r.p2;
			if (fl) if (u32 f = fault("f.ecu.late", 5)) t += f * f * 60 * MS;
			Rsp9 q = r; if (fl && fault("f.ecu.badcs")) q.bad = 1;
			t = bus->ecu_tx(this, frame(q), t, fl); last = t;
		}
		return t;
	}
	void check_alive(u64 t) { if (st == SESSION && t > last + p3max) { ev("ecu session timed out"); st = IDLE; } }
	void addr5(u8 a, u64 tend) override {
		if (a != addr) return;
		st = IDLE; buf.clear();
		if (bad == SILENT) return;
		u64 t = bus->ecu_tx(this, {(u8)(bad == WRONG_SYNC ? 0x55 ^ (1 + vary(w1, 255)) : 0x55)}, tend + w1);
		if (bad == NO_KB1) return;
		k1 = kb1; k2 = kb2;
		if (bad == KB_DIFFER) { k1 = 0x08; k2 = 0x94; if (vary(w2, 2)) { k1 = (u8)(1 << vary(w3, 8) ^ 0x94); k2 = 0x94; }; if (k1 == k2) k1 ^= 1; }
		if (bad == KB_UNKNOWN) { k1 = k2 = (u8)vary(w3, 256); if (k1 == 0x08 || k1 == 0x94) k1 = k2 = 0x8F; }
		t = bus->ecu_tx(this, {k1}, t + w2 + (bad == LATE_KB1 ? 60 * MS : 0));
		if (bad == NO_KB2) return;
		t = bus->ecu_tx(this, {k2}, t + w3 + (bad == LATE_KB2 ? 60 * MS : 0));
		kb_end = t;
		at(t, [this]() { st = KB; buf.clear(); });
		at(t + 120 * MS, [this]() { if (st == KB) st = IDLE; });
	}
	void rx(u8 b, u64 t0, u64 t1) override {
		if (buf.empty()) check_alive(t0);
		if (st == IDLE) return;
		if (st == KB) {
			inv = Frame{t0, t1, {b}};
			if (b != (u8)~k2 || bad == NO_INV || ((bad == KB_DIFFER || bad == KB_UNKNOWN) && vary(w4, 2))) { st = IDLE; return; }
			u64 t = bus->ecu_tx(this, {(u8)(bad == WRONG_INV ? (u8)(~addr ^ (1 << vary(w4, 8))) : (u8)~addr)}, t1 + w4 + (bad == LATE_INV ? 80 * MS : 0));
			if (bad) { st = IDLE; return; }
			at(t, [this, t]() { st = SESSION; sessions++; last = t; buf.clear(); got.clear(); bad_got.clear(); ev("ecu session"); });
			return;
		}
		if (buf.empty()) t0_ = t0;
		buf.push_back(b); t1_ = t1;
		at(t1 + 22 * MS, [this, t1]() { if (t1_ == t1 && !buf.empty()) end_frame(); });
	}
	void end_frame() {
		Frame f{t0_, t1_, buf}; buf.clear();
		if (st != SESSION) return;
		Bytes body(f.b.begin(), f.b.end() - 1);
		bool ok = f.b.size() >= 5 && f.b.size() <= 11 && f.b[0] == 0x68 && f.b[1] == 0x6A && cks(body) == f.b.back();
		if (!ok) { bad_got.push_back(f); ev("ecu: bad frame"); return; }
		last = f.t1; got.push_back(f);
		Bytes d(f.b.begin() + 3, f.b.end() - 1);
		if (handler) { answer(handler(d), f.t1); return; }
		if (!plan.empty()) { auto v = plan.front(); plan.pop_front(); answer(v, f.t1); }
	}
};
