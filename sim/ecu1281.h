#pragma once
#include "kline.h"
// A KW1281 ECU (reference model). Sequence numbers follow the European behaviour the driver documents:
// repeated blocks carry a new counter.
struct Blk { u8 type = 0; Bytes d; int badseq = 0, badetx = 0, noetx = 0; int cut = 0, nack = 0; u8 etx = 0x13; };     // bad*: so many times; cut: the ECU dies after so many bytes; nack: refuses the acknowledge so often
struct Plan1281 { int nack = 0; int nack_ack = 0; bool unknown = false; std::vector<Blk> tele; };   // nack: answer the request with so many NO_ACK first
struct Ecu1281 : Ecu {
	u8 addr = 1, kb1 = 0x01, kb2 = 0x8A;
	u64 r1 = 100 * MS, r2 = 10 * MS, r3 = 5 * MS, r5 = 30 * MS, r6 = 2 * MS, r7 = 2 * MS, rb = 10 * MS, rbmax = 1100 * MS, r8 = 55 * MS;
	int bad = 0;          // handshake: 1 silent, 2 wrong sync, 3 no kb1, 4 no kb2, 5 no telegram, 6 wrong key bytes
	std::vector<Blk> id;  // the telegram it identifies itself with
	enum { OFF, KB, SENDING, RECEIVING } st = OFF;
	u8 seq = 0, tseq = 0; u64 gen = 0;
	std::function<bool(const Blk &, Plan1281 &)> handler;   // answers requests (otherwise plan does)
	std::deque<Plan1281> plan; Plan1281 cur; std::deque<Blk> pending; bool in_request = false; Blk last, last_sent; int blk_starts = 0;
	std::vector<Blk> got;             // blocks of the tester other than ACK / NO_ACK
	std::vector<std::string> bad_got; // what it disliked about the tester's blocks
	std::vector<u64> ka_t; u64 in_t0 = 0;
	int sessions = 0, lost = 0, keepalives = 0, acks = 0, nacks = 0, ended = 0;
	int skip_comp = 0, bad_comp = 0;  // so many complements are left out / wrong (from skip_at on)
	int restarts = 0; u64 byte_faults = 0;
	std::vector<u64> idle_gap; u64 etx_end = 0, max_wait = 0;
	// sending
	Bytes out; size_t oi = 0; int tries = 0; u64 byte_end = 0;
	// receiving
	Bytes in; u64 in_t1 = 0;
	u64 min_comp = ~0ull, max_comp = 0, min_next = ~0ull;
	int misheard = 0;                 // so many complements of the tester are taken for wrong
	void off(const char *why) { ev("ecu off: %s", why); if (st != OFF && st != KB) lost++; st = OFF; gen++; in.clear(); pending.clear(); }
	void addr5(u8 a, u64 tend) override {
		if (a != addr || bad == 1) return;
		st = OFF; gen++; in.clear(); pending.clear(); in_request = false; u64 g = gen;
		u64 t = bus->ecu_tx(this, {(u8)(bad == 2 ? 0x75 : 0x55)}, tend + r1);
		if (bad == 3) return;
		t = bus->ecu_tx(this, {(u8)(bad == 6 ? kb1 ^ 0x10 : kb1)}, t + r2);
		if (bad == 4) return;
		t = bus->ecu_tx(this, {kb2}, t + r3);
		at(t, [this, g]() { if (gen == g) st = KB; });
		at(t + 130 * MS, [this, g]() { if (gen == g && st == KB) st = OFF; });
	}
	void send_block(Blk b, u64 t) {
		last = b; u8 s = seq; if (last.badseq > 0) { last.badseq--; s += 1 + rnd("v.badseq", 255); count("p.badseq"); }
		out = {(u8)(b.d.size() + 3), s, b.type}; out = cat(out, b.d); out.push_back(0x03);
		if (last.badetx > 0) { last.badetx--; out.back() = last.etx; count("p.badetx"); }
		oi = 0; tries = 0; st = SENDING; gen++; send_byte(t);
	}
	void send_byte(u64 t) {
		bool lastb = oi + 1 == out.size(); u64 g = ++gen;
		if (last.cut && oi >= (size_t)last.cut) { count("p.cut"); off("dies in a block"); return; }
		if (lastb && last.noetx > 0) { last.noetx--; count("p.noetx"); byte_end = t + 10 * SEC / baud; }
		else byte_end = bus->ecu_tx(this, {out[oi]}, t);
		if (lastb) { at(byte_end, [this, g]() { if (gen == g) expect_block(); }); return; }
		at(byte_end + 2 * r8, [this, g]() { if (gen == g) { if (++tries > 3) off("no complement"); else { restarts++; oi = 0; send_byte(now()); } } });
	}
	void expect_block() {
		st = RECEIVING; in.clear(); etx_end = now(); u64 g = ++gen;
		at(now() + rbmax, [this, g]() { if (gen == g) off("no block from the tester"); });
	}
	void complement_seen(u8 b, u64 t0, u64 t1) {
		if (now() > byte_end + r8 + 2 * MS) return;            // too late, the restart is due
		min_comp = std::min(min_comp, t0 - std::min(t0, byte_end)); max_comp = std::max(max_comp, t0 - byte_end);
		if (misheard > 0) { misheard--; b ^= 4; count("p.misheard"); }
		if (b != (u8)~out[oi]) { ev("ecu: wrong complement"); return; }
		oi++; send_byte(t1 + r7);
	}
	void rx(u8 b, u64 t0, u64 t1) override {
		if (u32 f = fault("f.ecu.misread", 9)) { b ^= 1 << (f - 1); byte_faults++; }
		if (st == KB) {
			if (b != (u8)~kb2 || bad == 5) { ev("ecu: wrong key byte complement"); st = OFF; gen++; return; }
			sessions++; seq = 1; tseq = 0; pending.clear(); for (auto &x : id) pending.push_back(x); cur = Plan1281(); in_request = true; ev("ecu session");
			Blk f = pending.front(); pending.pop_front(); send_block(f, t1 + r5); return;
		}
		if (st == SENDING) { complement_seen(b, t0, t1); return; }
		if (st != RECEIVING) return;
		if (in.empty()) { max_wait = std::max(max_wait, t0 - etx_end); }
		else if (t0 > in_t1 + r8 + 15 * MS) in.clear();
		if (in.empty()) { in_t0 = t0; blk_starts++; }
		in.push_back(b); in_t1 = t1;
		if (in.size() > 1 && in.size() == in[0] + 1u) { block_done(t1); return; }
		if (in.size() == 1 && in[0] < 3) bad_got.push_back("length");
		u64 g = ++gen;
		at(t1 + 3 * r8, [this, g]() { if (gen == g && st == RECEIVING) { if (in.size() == in[0]) { in.push_back(3); block_done(now()); } else off("incomplete block"); } });
		if (skip_comp > 0 && in.size() >= 2) { skip_comp--; count("p.skipcomp"); return; }
		if (fault("f.ecu.nocomp")) { byte_faults++; return; }
		u8 c = (u8)~b; if (bad_comp > 0 && in.size() >= 2) { bad_comp--; c ^= 0x10; count("p.badcomp"); }
		bus->ecu_tx(this, {c}, t1 + r6);
	}
	void block_done(u64 t) {
		Bytes f = in; in.clear(); gen++;
		if (f.size() < 4) { off("short block"); return; }
		u8 s = f[1], type = f[2]; Bytes d(f.begin() + 3, f.end() - 1); u64 tn = t + rb;
		evbytes("ecu got", f.data(), f.size());
		bool good = s == (u8)(seq + 1) && f.back() == 3 && f[0] >= 3;
		u8 want = (u8)(seq + 1);
		seq = (u8)(want + 1);
		if (!good) { char m[80]; snprintf(m, sizeof m, "counter %02x instead of %02x, end %02x, length %u", s, want, f.back(), f[0]); bad_got.push_back(m); ev("ecu: bad block"); nacks++; Blk b; b.type = 0x0A; b.d = {s}; Blk keep = last; send_block(b, tn); (void)keep; return; }
		tseq = s;
		if (type == 0x0A) { nacks++; send_block(last, tn); return; }
		if (type == 0x09) {
			acks++;
			if (cur.nack_ack > 0 && in_request && !pending.empty()) { cur.nack_ack--; count("p.nack_ack"); nak(s, tn); return; }
			if (in_request && last_sent.nack > 0) { last_sent.nack--; count("p.nack_ack"); nak(s, tn); return; }
			if (!pending.empty()) { Blk b = pending.front(); pending.pop_front(); last_sent = b; send_block(b, tn); return; }
			if (!in_request) { keepalives++; ka_t.push_back(in_t0); }
			in_request = false;
			Blk b; b.type = 0x09; send_block(b, tn); return;
		}
		if (type == 0x06) { ended++; off("end of communication"); return; }
		if (handler) { Blk q; q.type = type; q.d = d; Plan1281 p; plan.clear(); if (handler(q, p)) plan.push_back(p); }
		if (plan.empty()) { Blk g; g.type = type; g.d = d; got.push_back(g); Blk b; b.type = 0x09; send_block(b, tn); return; }
		if (plan.front().nack > 0) { plan.front().nack--; count("p.nack"); nak(s, tn); return; }
		Blk g; g.type = type; g.d = d; got.push_back(g);
		cur = plan.front(); plan.pop_front();
		if (cur.unknown) { Blk b; b.type = 0x0A; b.d = {(u8)(s + 7)}; in_request = false; send_block(b, tn); return; }
		pending.clear(); for (auto &x : cur.tele) pending.push_back(x);
		if (pending.empty()) { in_request = false; Blk b; b.type = 0x09; send_block(b, tn); return; }
		in_request = true; Blk b = pending.front(); pending.pop_front(); last_sent = b; send_block(b, tn);
	}
	void nak(u8 s, u64 t) { Blk b; b.type = 0x0A; b.d = {s}; Blk keep = last; send_block(b, t); last = b; (void)keep; }
};
