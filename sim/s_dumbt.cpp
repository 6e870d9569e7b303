// C36: the tests of a bare interface (DUMBT, "debug l0test"): what they do to the lines and what they say about it.
#include "cli.h"
#include <math.h>
#include "kline.h"
namespace {
struct Bench : KLine { std::vector<std::pair<u64, int>> m; void modem(int b) override { m.push_back({now(), b}); KLine::modem(b); } };
struct Rs { std::string o; u64 t0, t1; size_t b0, k0, m0, taken0, rx0; };
struct DT {
	User u; Bench b; Tty *t; int opts = -1;
	void up() {
		host_good(); whole_program = true; b.echo = true; t = add_tty("/dev/ttyS0", &b); b.tty = t; t->rx_chunk = rnd("k.chunk", 3) ? 0 : (1 + rnd("v.chunk", 8)) * MS; u.up(t, rnd("v.case", 2) ? "dumbt" : "DUMBT");
		static const int o[] = {0x48, 0, 1, 2, 4, 6, 8, 0x10, 0x20, 0x7b}; if (rnd("k.opts", 3)) { opts = o[rnd("v.opts", 10)]; u.must("set dumbopts " + std::to_string(opts)); } else opts = 0x48;
	}
	Rs run(u32 n, u64 lim) {
		Rs r; r.b0 = b.bus.size(); r.k0 = b.k.size(); r.m0 = b.m.size(); r.taken0 = t->taken.size(); r.rx0 = t->rx_log.size(); r.t0 = now(); bool sub = rnd("k.sub", 4) == 0; if (sub) u.p.cmd("debug");
		r.o = u.p.cmd((sub ? "l0test " : "debug l0test ") + std::to_string(n), lim); std::string e = u.p.err; r.o += e; r.t1 = now(); if (sub) u.p.cmd("up"); count("p.l0test"); closed(n); return r;
	}
	void closed(u32 n) { CHECK(open_fds() == 0, "l0test:open", "the port is still open after test %u", n); CHECK(timers_alive() <= 1, "timer:leak", "%d timers after test %u", timers_alive(), n); CHECK(global_l2_conn == nullptr, "l0test:state", "a session exists after test %u", n); }
	bool dtr() const { return !(opts & 2); } bool rts() const { return opts & 4; }
	std::vector<BusByte> sent(const Rs &r) const { std::vector<BusByte> v; for (size_t i = r.b0; i < b.bus.size(); i++) if (b.bus[i].src == 0) v.push_back(b.bus[i]); return v; }
	// K is pulled down n times for low ms, and is high for at least high ms before each
	void pulses(u32 test, const Rs &r, size_t n, u64 low, u64 high) {
		std::vector<Edge> e; for (size_t i = r.k0; i < b.k.size(); i++) if (e.empty() || e.back().low != b.k[i].low) e.push_back(b.k[i]); if (!e.empty() && !e[0].low) e.erase(e.begin()); CHECK(e.size() == 2 * n, "l0test:pulses", "test %u: %zu pulses on K instead of %zu", test, e.size() / 2, n);
		for (size_t i = 0; i + 1 < e.size(); i += 2) { double l = (e[i + 1].t - e[i].t) / 1e6, h = (e[i].t - (i ? e[i - 1].t : r.t0)) / 1e6; CHECK(fabs(l - low) <= 2 + low * 0.02, "l0test:low", "test %u: pulse %zu lasts %.3f ms instead of %llu", test, i / 2, l, (unsigned long long)low); CHECK(h >= high - 0.5 && (!i || h <= high + 20), "l0test:high", "test %u: K was high for %.3f ms instead of %llu", test, h, (unsigned long long)high); }
	}
	void bytes(u32 test, const Rs &r, const Bytes &want, const std::vector<unsigned> &baud) {
		auto s = sent(r); CHECK(s.size() == want.size(), "l0test:bytes", "test %u: %zu bytes were sent instead of %zu", test, s.size(), want.size()); for (size_t i = 0; i < s.size(); i++) { CHECK(s[i].b == want[i], "l0test:bytes", "test %u: byte %zu is %02x instead of %02x", test, i, s[i].b, want[i]); unsigned w = baud[i % baud.size()]; CHECK(s[i].baud == w, "l0test:speed", "test %u: byte %zu was sent at %u baud instead of %u", test, i, s[i].baud, w); }
	}
	// the changes of a modem line: on for 1 s, off for half a second, five times
	void modem(u32 test, const Rs &r, int bit, bool other, bool end) {
		int ob = bit == 2 ? 4 : 2; std::vector<std::pair<u64, bool>> e; for (size_t i = r.m0; i < b.m.size(); i++) { bool v = b.m[i].second & bit; if (b.m[i].first > r.t1) break; e.push_back({b.m[i].first, v}); }
		size_t hi = 0; u64 on = 0, off = 0, last = 0; bool cur = false; for (auto &x : e) { if (x.second && !cur) { if (off && hi) CHECK(x.first - off >= 499 * MS && x.first - off <= 530 * MS, "l0test:modem", "test %u: the line was off for %.3f ms", test, (x.first - off) / 1e6); on = x.first; cur = true; } else if (!x.second && cur) { u64 d = x.first - on; if (d > 900 * MS) { hi++; if (hi == 5) last = x.first; CHECK(d <= (hi == 1 ? 1300 : 1030) * MS, "l0test:modem", "test %u: the line was on for %.3f ms", test, d / 1e6); } off = x.first; cur = false; } }
		CHECK(hi == 5, "l0test:modem", "test %u: the line was on for one second %zu times instead of 5 times", test, hi); (void)end;
		// what the other line shows while the test runs, and both at its end: before the port is given back
		u64 f = 0, l = last; for (auto &x : e) if (x.second && !f) f = x.first; for (size_t i = r.m0; i < b.m.size(); i++) if (b.m[i].first > f + 10 * MS && b.m[i].first <= l) CHECK(!!(b.m[i].second & ob) == other, "l0test:other", "test %u: the other line changed during the test", test);
	}
	void timeouts(u32 test, const std::string &o, u32 last) { std::regex re("Timeout=(\\d+): avg=(-?\\d+)ms\n"); u32 i = 10; for (std::sregex_iterator it(o.begin(), o.end(), re), e; it != e; ++it, i += 20) { int w = atoi((*it)[1].str().c_str()), a = atoi((*it)[2].str().c_str()); CHECK(w == (int)i, "l0test:timeout", "test %u: time-out %u is missing: %.300s", test, i, o.c_str()); CHECK(a >= w - 1 && a <= w + 12, "l0test:timeout", "test %u: a time-out of %d ms is said to take %d ms", test, w, a); } CHECK(i > last && i - 20 <= last, "l0test:timeout", "test %u: the list ends before %u: %.300s", test, i, o.c_str()); }
	// test 12: the four durations, their average, and that of the rounds
	void durations(const std::string &l, int len) {
		std::regex re("\t(\\d+)us"); double sum = 0; int k = 0; for (std::sregex_iterator it(l.begin(), l.end(), re), e; it != e; ++it, k++) sum += atoi((*it)[1].str().c_str()); std::smatch m; CHECK(k == 4 && std::regex_search(l, m, std::regex("avg=(-?\\d+)ms / (-?\\d+)ms")), "l0test:lens", "test 12: %d durations of %d bytes: '%s'", k, len, l.c_str());
		int a = atoi(m[1].str().c_str()), b = atoi(m[2].str().c_str()); CHECK(fabs(a - sum / 4000) <= 1.01 && b >= a && b <= a + 30 + (int)(t->rx_chunk / MS), "l0test:average", "test 12: '%s'", l.c_str());
	}
	void exact(u32 n) {
		size_t x0 = t->tcount; (void)x0; bool echo = b.echo; Rs r = run(n, 120 * SEC); CHECK(r.o.find("Trying test " + std::to_string(n)) != r.o.npos && r.o.find("L0 test finished") != r.o.npos, "l0test:said", "test %u: %.300s", n, r.o.c_str()); Bytes w; auto s = sent(r); idle(100 * MS); CHECK(!t->brk && !b.klow, "l0test:klow", "K is low after test %u", n);
		switch (n) {
		case 1: pulses(n, r, 5, 500, 1000); bytes(n, r, {}, {1}); break;
		case 2: case 10: w.assign(301, 0x55); bytes(n, r, w, {n == 2 ? 10400u : 15000u}); for (size_t i = 1; i < s.size(); i++) CHECK(s[i].t0 - s[i - 1].t0 >= 5 * MS - 100 * US && s[i].t0 - s[i - 1].t0 <= 12 * MS, "l0test:gap", "test %u: bytes %zu and %zu begin %.3f ms apart", n, i - 1, i, (s[i].t0 - s[i - 1].t0) / 1e6); break;
		case 3: modem(n, r, 4, dtr(), rts()); bytes(n, r, {}, {1}); break;
		case 4: modem(n, r, 2, rts(), dtr()); bytes(n, r, {}, {1}); break;
		case 5: pulses(n, r, 41, 25, 50); bytes(n, r, {}, {1}); break;
		case 6: if (!echo) { CHECK(r.o.find("error") != r.o.npos, "l0test:untold", "test %u without an echo: %.300s", n, r.o.c_str()); break; } w.assign(51, 0); bytes(n, r, w, {360}); for (size_t i = 1; i < s.size(); i++) CHECK(s[i].t0 - s[i - 1].t0 >= 49 * MS && s[i].t0 - s[i - 1].t0 <= 52 * MS + t->rx_chunk, "l0test:gap", "test 6: pulses begin %.3f ms apart", (s[i].t0 - s[i - 1].t0) / 1e6); break;
		case 13: if (!echo) { CHECK(r.o.find("error") != r.o.npos, "l0test:untold", "test %u without an echo: %.300s", n, r.o.c_str()); break; } for (int i = 0; i < 51; i++) { w.push_back(0); w.push_back(0xAA); } bytes(n, r, w, {360, 10400}); for (size_t i = 1; i < s.size(); i += 2) CHECK(s[i].t0 - s[i - 1].t0 >= 49 * MS && s[i].t0 - s[i - 1].t0 <= 55 * MS, "l0test:gap", "test 13: the byte begins %.3f ms after the pulse", (s[i].t0 - s[i - 1].t0) / 1e6); break;
		case 7: case 14: counts(n, r, echo ? 100 : 1); break;
		case 8: block(r, echo ? 11 : 1); break;
		case 9: bytes(n, r, {}, {1}); timeouts(n, r.o, 190); break;
		case 11: if (echo) { for (int i = 10; i <= 180; i += 20) for (int k = 0; k < 4; k++) w.push_back((u8)i); bytes(n, r, w, {10400}); timeouts(n, r.o, 170); } else CHECK(r.o.find("failed") != r.o.npos, "l0test:untold", "test 11 without an echo: %.300s", r.o.c_str()); break;
		case 12: { size_t q = 0; for (int i = 1; i <= 50; i += i == 1 ? 4 : 5) { q += 4 * i; std::string l = "len=" + std::to_string(i) + ":"; size_t p = r.o.find(l); CHECK(p != r.o.npos, "l0test:lens", "test 12 says nothing about %d bytes: %.300s", i, r.o.c_str()); durations(r.o.substr(p, r.o.find('\n', p) - p), i); } CHECK(s.size() == q, "l0test:bytes", "test 12 sent %zu bytes instead of %zu", s.size(), q); for (auto &y : s) CHECK(y.baud == 10400, "l0test:speed", "test 12 sends at %u baud", y.baud); break; }
		}
		oracle();
	}
	// what was counted is what came back
	void counts(u32 n, const Rs &r, size_t want) {
		auto s = sent(r); std::smatch m; bool said = std::regex_search(r.o, m, std::regex("Average speed : (-?\\d+) us/byte. (\\d+) good; (\\d+) bad")); CHECK(said, "l0test:said", "test %u: no result: %.300s", n, r.o.c_str());
		CHECK(s.size() == want, "l0test:bytes", "test %u sent %zu bytes instead of %zu", n, s.size(), want); for (size_t i = 0; i < s.size(); i++) CHECK(s[i].b == i && s[i].baud == (n == 7 ? 10400u : 360u), "l0test:bytes", "test %u: byte %zu is %02x at %u baud", n, i, s[i].b, s[i].baud);
		size_t g = 0, bad = 0; for (size_t i = r.taken0, k = 0; i < t->taken.size() && k < s.size(); i++, k++) { if (t->taken[i].b == s[k].b) g++; else bad++; } CHECK(atoi(m[2].str().c_str()) == (int)g && atoi(m[3].str().c_str()) == (int)bad, "l0test:counts", "test %u says '%s', but %zu echoes were good and %zu bad", n, m[0].str().c_str(), g, bad);
		if (want == 100) { double us = 0; u64 ct = (u64)1e10 / (n == 7 ? 10400 : 360) ; us = ct / 1e3; int a = atoi(m[1].str().c_str()); CHECK(a >= us * 0.98 - 1 && a <= us + 12000, "l0test:average", "test %u: %d us per byte; a byte takes %.0f us", n, a, us); }
	}
	void block(const Rs &r, size_t want) {
		auto s = sent(r); CHECK(s.size() == 10 * want, "l0test:bytes", "test 8 sent %zu bytes instead of %zu", s.size(), 10 * want); for (size_t i = 0; i < s.size(); i++) CHECK(s[i].b == i % 10 && s[i].baud == 10400, "l0test:bytes", "test 8: byte %zu is %02x", i, s[i].b);
		std::smatch m; bool said = std::regex_search(r.o, m, std::regex("(\\d+) bad echos")); size_t n = t->taken.size() - r.taken0, bad = 0; if (want == 11) { std::smatch q; CHECK(std::regex_search(r.o, q, std::regex("Average speed : (-?\\d+) us/byte")), "l0test:said", "test 8: no average: %.300s", r.o.c_str()); int a = atoi(q[1].str().c_str()); CHECK(a >= 940 && a <= 985 + (int)(t->rx_chunk / 10000), "l0test:average", "test 8: %d us per byte; a byte takes 962 us", a); } if (want != 11) { CHECK(!said && r.o.find("did not complete") != r.o.npos, "l0test:untold", "test 8 ended early: %.300s", r.o.c_str()); return; }
		for (size_t k = 0; k < 11 && r.taken0 + 10 * k + 10 <= t->taken.size(); k++) { bool ok = true; for (int j = 0; j < 10; j++) if (t->taken[r.taken0 + 10 * k + j].b != j) ok = false; if (!ok) bad++; } CHECK(said && n == 110 && atoi(m[1].str().c_str()) == (int)bad, "l0test:counts", "test 8: %zu echoes with %zu bad blocks: %.300s", n, bad, r.o.c_str());
	}
	void refuse() {
		auto no = [&](const std::string &c, const char *w) { size_t b0 = b.bus.size(), m0 = b.m.size(), k0 = b.k.size(); int n0 = t->nopen_total; u.p.cmd(c); CHECK(u.p.said(w), "l0test:refuse", "'%s': %.300s", c.c_str(), u.p.out.c_str()); CHECK(b.bus.size() == b0 && b.m.size() == m0 && b.k.size() == k0 && t->nopen_total == n0, "l0test:touched", "'%s' did something to the port", c.c_str()); };
		static const char *bad[] = {"0", "15", "99", "1000", "4294967295"}; static const char *us[] = {"", " ?", " x"}; if (rnd("k.b", 2)) no(std::string("debug l0test ") + bad[rnd("v.bad", 5)], "Invalid test"); else no(std::string("debug l0test") + us[rnd("v.us", 3)], "Available tests");
	}
};
int lost_group(int i) { return i / 4; }
int count_str(const std::string &s, const char *w) { int n = 0; for (size_t p = 0; (p = s.find(w, p)) != s.npos; p++) n++; return n; }
const u32 tests[] = {7, 8, 9, 11, 12, 3, 4, 14, 13, 6, 5, 2, 10, 1};
}
SCENARIO("C36", l0test_clean, 1) {
	DT y; y.up(); u32 n = 1 + rnd("n.test", 4); if (rnd("k.cable", 6) == 0) y.b.echo = false;
	while (n--) { if (rnd("k.refuse", 5) == 0) y.refuse(); y.exact(tests[rnd("v.test", 14)]); }
	if (rnd("k.other", 3) == 0) { y.u.must(rnd("v.b", 2) ? "set interface dumb" : "set interface carsim"); size_t b0 = y.b.bus.size(); y.u.p.cmd("debug l0test 7"); CHECK(y.u.p.said("Wrong") && y.b.bus.size() == b0, "l0test:wrong", "a test with another interface: %.300s", y.u.p.out.c_str()); }
	sample("interface tests, dumbopts 0x%x", y.opts); y.u.bye();
}
SCENARIO("C36", l0test_faults, 1) {
	DT y; y.up(); u32 n = 1 + rnd("n.test", 4); u64 lim = 300 * SEC;
	while (n--) {
		u32 k = tests[rnd("v.test", 14)], w = rnd("v.how", 4); bool gone = false;
		y.b.lose_at = y.b.flip_at = -1; if (w == 0 && rnd("k.one", 2)) { u32 N = k == 8 ? 110 : k == 11 ? 36 : k == 6 ? 51 : 100, i = rnd("k.end", 3) ? rnd("v.echo", N) : N - 1 - rnd("v.last", 3); y.b.echoes = 0; if (rnd("k.flip", 3)) { y.b.lose_at = i; } else { y.b.flip_at = i; y.b.flip_bit = rnd("v.bit", 8); } } else if (w == 0) swarm({"f.echo.lost", "f.echo.flip", "f.echo.late"}, 0.6, 0.02, 0.4); else if (w == 1) { swarm({"f.write.eio", "f.read.eio", "f.io.tcsets", "f.io.tcsets2", "f.io.mset", "f.io.sbrk", "f.io.cbrk", "f.io.drain", "f.io.flush"}, 0.3, 0.05, 0.35); } else if (w == 2) { gone = true; Tty *t = y.t; u64 d = rnd("v.hup", 4000) * MS; after(d, [t]() { t->hup = true; }); count("f.unplug"); } else host_any();
		int f0 = faults_fired; Rs r = y.run(k, lim); bool any = faults_fired != f0 || gone; int lost = y.b.lose_at >= 0 && y.b.echoes > y.b.lose_at ? y.b.lose_at : -1; y.b.lose_at = y.b.flip_at = -1; clear_rates(); host_good(); if (gone) { idle(5 * SEC); y.t->hup = false; } idle(2 * SEC);
		if (!any) CHECK(r.o.find("L0 test finished") != r.o.npos, "l0test:said", "test %u: %.300s", k, r.o.c_str());
		// the numbers said are those of the echoes that came
		if (k == 7 || k == 14) { auto s = y.sent(r); std::smatch m; if (std::regex_search(r.o, m, std::regex("us/byte. (\\d+) good; (\\d+) bad")) && w == 0) { size_t g = 0, b = 0; for (size_t i = r.taken0, j = 0; i < y.t->taken.size() && j < s.size(); i++, j++) if (y.t->taken[i].b == s[j].b) g++; else b++; CHECK(atoi(m[1].str().c_str()) == (int)g && atoi(m[2].str().c_str()) == (int)b, "l0test:counts", "test %u says '%s', but %zu echoes were good and %zu bad", k, m[0].str().c_str(), g, b); } }
		// one echo that is lost: the test of that byte, and only that, fails
		if (k == 11 && lost >= 0 && y.b.echo) { std::string l = "failed @ timeout=" + std::to_string(10 + lost_group(lost) * 20); CHECK(r.o.find(l) != r.o.npos && count_str(r.o, "failed @") == 1 && count_str(r.o, "Timeout=") == 9, "l0test:one", "test 11 with echo %d lost: %.400s", lost, r.o.c_str()); }
		if (k == 8 && lost >= 0) CHECK(r.o.find("did not complete") != r.o.npos, "l0test:complete", "test 8 with echo %d lost: %.300s", lost, r.o.c_str());
		if (k == 8) {
			size_t got = y.t->taken.size() - r.taken0, bad = 0; for (size_t i = 0; i < 11 && 10 * i + 10 <= got; i++) { bool ok = true; for (int j = 0; j < 10; j++) if (y.t->taken[r.taken0 + 10 * i + j].b != j) ok = false; if (!ok) bad++; } std::smatch m; bool said = std::regex_search(r.o, m, std::regex("(\\d+) bad echos"));
			if (got < 110) CHECK(!said, "l0test:complete", "test 8 says it is complete, but only %zu bytes were received: %.200s", got, r.o.c_str()); else if (w == 0) CHECK(said && atoi(m[1].str().c_str()) == (int)bad, "l0test:counts", "test 8: %zu of 11 echoes were bad: %.300s", bad, r.o.c_str());
		}
	}
	y.exact(tests[rnd("v.test", 9)]); sample("interface tests with failures"); y.u.bye();
}
