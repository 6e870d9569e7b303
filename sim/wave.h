// C06: what a 5-baud address looks like on K and L.
#pragma once
#include "kline.h"
namespace {
static void chk_bits(const std::vector<Edge> &w, u64 t0, u64 tend, u8 a, const char *line) {
	// reference waveform: start bit, 8 data bits LSB first, stop
	std::vector<Edge> e;   // edges within the window
	for (auto &x : w) if (x.t >= t0 && x.t < tend) { if (e.empty() ? x.low : e.back().low != x.low) e.push_back(x); }
	std::vector<int> bits; bits.push_back(0); for (int i = 0; i < 8; i++) bits.push_back(a >> i & 1); bits.push_back(1);
	std::vector<std::pair<int, bool>> exp; bool lv = false; for (int i = 0; i < 10; i++) { bool low = !bits[i]; if (low != lv) { exp.push_back({i, low}); lv = low; } }
	CHECK(e.size() == exp.size(), "init5:edges", "%s: %zu level changes for address %02x, expected %zu", line, e.size(), a, exp.size());
	for (size_t i = 0; i < e.size(); i++) {
		i64 d = (i64)(e[i].t - e[0].t) - exp[i].first * 200 * (i64)MS;
		i64 tol = exp[i].first * 200 * (i64)MS / 20 + 2 * MS;
		CHECK(d >= -tol && d <= tol, "init5:timing", "%s: edge %zu of address %02x is %.3f ms off the nominal %d ms", line, i, a, d / 1e6, exp[i].first * 200);
	}
}
// f: the first falling edge on K after the start was asked for
void wave5(KLine &bus, u64 f, int n5, u8 tgt, int opts) {
	CHECK(bus.n5 == n5 + 1, "init5:none", "no 5-baud address seen on K by a receiver sampling at the bit centres");
	CHECK(bus.last5 == tgt, "init5:addr", "address %02x was sent as %02x", tgt, bus.last5);
	chk_bits(bus.k, f, f + 2050 * MS, tgt, "K");
	if (opts & 1) {
		CHECK(!bus.level_at(bus.l, f - 5 * MS), "init5:l-idle", "L low before the address");
		u64 fl = 0; for (auto &x : bus.l) if (x.low && x.t + 40 * MS >= f && x.t < f + 40 * MS) { fl = x.t; break; }
		CHECK(fl, "init5:l-start", "L does not carry the address together with K");
		chk_bits(bus.l, fl, fl + 2050 * MS, tgt, "L");
	}
}
// the starts of protocols that only know the 5-baud wake-up: K is a session of VG, MB or I9
template <class K> void wave_rounds(K &k, unsigned baud, u64 idle_min, std::function<void()> start, std::function<void()> exch) {
	if (k.opts & 8 && chance("k.no5baud", 0.4)) k.s.t->min_speed = 300;
	int rounds = 1 + rnd("n.rounds", 2);
	while (rounds--) {
		size_t e0 = k.bus.k.size(); int n5 = k.bus.n5; u64 t0 = now(), prev = k.bus.last_activity;
		start();
		CHECK(e0 < k.bus.k.size(), "init:none", "no wake-up pattern on K");
		u64 f = k.bus.k[e0].t;
		CHECK(f - std::max(prev, t0) >= idle_min, "init:idle", "wake-up only %.3f ms after the start of the attempt (bus idle time is %llu ms)", (f - std::max(prev, t0)) / 1e6, (unsigned long long)(idle_min / MS));
		wave5(k.bus, f, n5, k.ecu.addr, k.opts);
		CHECK(k.s.t->cur.ospeed == baud && k.s.t->cur.ispeed == baud, "init:speed", "line speed after the wake-up is %u, not %u", k.s.t->cur.ospeed, baud);
		CHECK(!k.bus.klow, "init:klow", "K left low");
		CHECK((k.s.t->modem & 2) == ((k.opts & 2) ? 0 : 2) && (k.s.t->modem & 4) == ((k.opts & 4) ? 4 : 0), "init:modem", "DTR/RTS left at %x with options %x", k.s.t->modem, k.opts);
		exch(); k.s.stop(); idle(rnd("v.idle", 1000) * MS);
	}
	sample("5-baud wake-up of %02x at %u baud, dumbopts 0x%x", k.ecu.addr, baud, k.opts);
	k.finish();
}
}
