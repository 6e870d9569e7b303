#pragma once
#include "kline.h"
// An ISO 14230 ECU (reference model of the protocol's server side).
struct Rsp { Bytes d; u64 p2 = 30 * MS; bool addressed = true; bool lenbyte = false; bool badcs = false; int src = -1; bool func = false; };
struct Ecu14230 : Ecu {
	u8 addr = 0x10, faddr = 0x33; bool functional = false; u8 tester = 0;
	bool can_fast = true, can_slow = true;
	u8 kb1 = 0xE9, kb2 = 0x8F;
	u64 w1 = 100 * MS, w2 = 10 * MS, w3 = 5 * MS, w4 = 30 * MS, p2 = 30 * MS;
	u64 p2b = 0;                          // answers after the ECU in front of it
	u64 p3max = 5000 * MS;
	// misbehaviour during the handshake (0 = correct)
	enum Bad { GOOD, SILENT, NO_KB1, NO_KB2, NO_INV, WRONG_SYNC, WRONG_INV, REFUSE, WRONG_SID, SHORT_SC, BAD_CS, JUNK, IGNORE_KB };
	int bad = GOOD;
	enum { IDLE, SC, KB, SESSION } st = IDLE;
	u64 last = 0;                         // last activity in the session
	int sessions = 0, timeouts = 0, alive = 0, stops = 0, badframes = 0;
	std::vector<Frame> got;               // valid frames addressed to it while in session
	std::vector<Bytes> heads;             // complete frames, as many as in got
	std::vector<Frame> bad_got;           // malformed frames
	std::deque<std::vector<Rsp>> plan;    // what to answer to the next requests that are not keep-alives
	std::function<std::vector<Rsp>(const Bytes &)> handler;
	std::vector<std::pair<u64, Bytes>> sent;  // frames it sent
	std::vector<u64> ka_times;
	bool answer_ka = true; bool pos_stop = true;
	bool long_required = false;
	Bytes buf; u64 buf_t0 = 0, buf_t1 = 0; u64 idle_ev = 0; u64 wup_at = 0; u8 a5 = 0;
	u64 wup_tol = 2 * MS;
	bool al0() const { return kb1 & 1; } bool al1() const { return kb1 & 2; } bool hb0() const { return kb1 & 4; } bool hb1() const { return kb1 & 8; }
	bool short_ok() const { return hb0(); }
	bool long_ok() const { return hb1() || !hb0(); }
	Bytes frame(const Rsp &r, bool force_plain = false) const {
		Bytes f; bool ad = r.addressed || force_plain || !short_ok();
		bool lb = (r.lenbyte && al1() && !force_plain) || r.d.size() > 63;
		u8 fmt = ad ? (r.func ? 0xC0 : 0x80) : 0; if (!lb) fmt |= (u8)r.d.size();
		f.push_back(fmt);
		if (ad) { f.push_back(tester); f.push_back(r.src < 0 ? addr : (u8)r.src); }
		if (lb) f.push_back((u8)r.d.size());
		f = cat(f, r.d); f.push_back(cks(f) + (r.badcs ? 1 : 0));
		return f;
	}
	u64 answer(const std::vector<Rsp> &v, u64 tend, bool fl = true) {
		u64 t = tend;
		for (auto &r : v) {
			if (fl && fault("f.ecu.silent")) continue;
			t = std::max(t, tend) + r.p2;
			if (fl) if (u32 f = fault("f.ecu.late", 5)) t += f * f * 60 * MS;
			Rsp q = r; if (fl && fault("f.ecu.badcs")) q.badcs = true;
			Bytes f = frame(q);
			sent.push_back({t, f});
			t = bus->ecu_tx(this, f, t, fl);
			last = t;
		}
		return t;
	}
	void wup(u64 tfall) override {
		if (!can_fast || bad == SILENT) return;
		if (st == SESSION) end(true);
		wup_at = tfall; st = SC; buf.clear();
		u64 s = tfall; at(tfall + 100 * MS, [this, s]() { if (st == SC && wup_at == s && buf.empty()) st = IDLE; });
	}
	void addr5(u8 a, u64 tend) override {
		if (!can_slow || (a != addr && !(functional && a == faddr))) return;
		if (st == SESSION) end(true);
		st = IDLE; a5 = a;
		if (bad == SILENT) return;
		u64 t = tend + w1;
		t = bus->ecu_tx(this, {(u8)(bad == WRONG_SYNC ? 0x55 ^ (1 + vary(w1, 255)) : 0x55)}, t);
		if (bad == NO_KB1) return;
		u8 p = kb1 & 0x7f; p ^= p >> 4; p ^= p >> 2; p ^= p >> 1;
		t = bus->ecu_tx(this, {(u8)((kb1 & 0x7f) | (p & 1 ? 0 : 0x80))}, t + w2);   // odd parity
		if (bad == NO_KB2) return;
		t = bus->ecu_tx(this, {kb2}, t + w3);
		at(t, [this]() { st = KB; buf.clear(); });
		u64 lim = t + 120 * MS; u64 mark = lim; at(lim, [this, mark]() { (void)mark; if (st == KB) st = IDLE; });
	}
	void end(bool normal) { if (st == SESSION && !normal) timeouts++; st = IDLE; }
	void check_alive(u64 t) { if (st == SESSION && t > last + p3max) { ev("ecu session timed out"); end(false); } }
	void begin(u64 t) { st = SESSION; sessions++; last = t; buf.clear(); got.clear(); heads.clear(); bad_got.clear(); ka_times.clear(); ev("ecu session"); }
	void rx(u8 b, u64 t0, u64 t1) override {
		if (buf.empty() || t0 > buf_t1 + 25 * MS) check_alive(t0);
		if (st == IDLE) return;
		if (st == KB) {
			if (b != (u8)~kb2) { st = IDLE; return; }
			if (bad == NO_INV) { st = IDLE; return; }
			u64 t = bus->ecu_tx(this, {(u8)(bad == WRONG_INV ? (u8)(~a5 ^ (1 << vary(w4, 8))) : (u8)~a5)}, t1 + w4);
			if (bad == WRONG_INV) { st = IDLE; return; }
			tester = 0; begin(t);
			return;
		}
		if (st == SC && buf.empty()) {
			u64 d = t0 - wup_at;
			if (d + wup_tol < 50 * MS || d > 50 * MS + wup_tol) { ev("ecu: request %.3f ms after wake-up", d / 1e6); st = IDLE; return; }
		}
		if (!buf.empty() && t0 > buf_t1 + 25 * MS) { if (st == SESSION) bad_got.push_back({buf_t0, buf_t1, buf}); buf.clear(); }
		if (buf.empty()) buf_t0 = t0;
		buf.push_back(b); buf_t1 = t1;
		// parse
		u8 f = buf[0]; size_t n = f & 0x3f, h = 1; bool ad = f & 0x80;
		if (!ad && (f & 0x40)) return;
		if (ad) h = 3;
		if (n == 0) { if (buf.size() < h + 1) return; n = buf[h]; h++; }
		if (buf.size() < h + n + 1) return;
		Frame fr{buf_t0, buf_t1, buf}; buf.clear();
		Bytes body(fr.b.begin(), fr.b.end() - 1);
		bool ok = n > 0 && fr.b.size() == h + n + 1 && cks(body) == fr.b.back();
		if (ok && ad && fr.b[1] != addr && !(functional && fr.b[1] == faddr)) return;   // for someone else
		Bytes d(fr.b.begin() + h, fr.b.end() - 1);
		if (st == SC) {
			if (!ok || d.size() != 1 || d[0] != 0x81 || !ad) { st = IDLE; return; }
			tester = fr.b[2];
			st = IDLE;
			Rsp r; r.p2 = p2 + p2b; r.d = {0xC1, kb1, kb2};
			if (bad == REFUSE) r.d = {0x7F, 0x81, 0x10};
			if (bad == WRONG_SID) r.d = {(u8)(0xC2 + vary(w1, 7)), kb1, kb2};
			if (bad == SHORT_SC) r.d.resize(1 + vary(w1, 2));
			if (bad == BAD_CS) r.badcs = true;
			Bytes o = frame(r, true);
			if (bad == JUNK) { Prng p(w1 + 1); for (auto &x : o) x = p.byte(); o.resize(1 + vary(w1, 8), 0x33); }
			if (bad == NO_KB1) return;
			u64 t = bus->ecu_tx(this, o, fr.t1 + r.p2);
			if (bad == GOOD) { at(t, [this, t]() { begin(t); }); }
			return;
		}
		// in session: the frame must be legal for the announced key bytes
		bool lb = h == 2 || h == 4;
		std::string why;
		if (!ok) why = "checksum";
		else if (ad && !long_ok()) why = "address not supported by the ECU";
		else if (!ad && !short_ok()) why = "header without addresses";
		else if (lb && !al1()) why = "length byte not supported by the ECU";
		else if (!lb && al1() && !al0()) why = "length in the format byte not supported by the ECU";
		if (!why.empty()) { badframes++; bad_got.push_back(fr); ev("ecu: bad frame (%s)", why.c_str()); return; }
		if (ad && !tester) tester = fr.b[2];
		last = fr.t1;
		got.push_back({fr.t0, fr.t1, d}); heads.push_back(fr.b);
		if (d[0] == 0x3E || (d.size() == 2 && d[0] == 1 && d[1] == 0 && !handler)) {
			alive++; ka_times.push_back(fr.t0);
			if (answer_ka) { Rsp r; r.p2 = p2 + p2b; r.addressed = long_ok(); r.d = d[0] == 0x3E ? Bytes{0x7E} : Bytes{0x41, 0, 1, 2, 3, 4}; answer({r}, fr.t1); }
			return;
		}
		if (d[0] == 0x82) { stops++; if (pos_stop) { Rsp r; r.p2 = p2 + p2b; r.addressed = long_ok(); r.d = {0xC2}; answer({r}, fr.t1); } end(true); return; }
		if (handler) { answer(handler(d), fr.t1); return; }
		if (!plan.empty()) { auto v = plan.front(); plan.pop_front(); answer(v, fr.t1); }
	}
};
