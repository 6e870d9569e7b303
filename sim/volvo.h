// Volvo ECUs behind a model ELM, used from the terminal (C32, C23, C24).
#pragma once
#include "cli.h"
#include "d2_sess.h"
extern "C" {
#include "scantool_850/dtc.h"
}
namespace {
// the ECUs of a Volvo, as the documentation lists them
struct VEcu { u8 addr; const char *name, *desc, *pfx; };
const VEcu VECU[] = {{0x01, "abs", "antilock brakes", "ABS"}, {0x10, "m44old", "Motronic M4.4 engine management (old protocol)", "EFI"}, {0x11, "msa", "MSA 15.7 engine management (diesel vehicles)", "EFI"}, {0x18, "add", "912-D fuel-driven heater (cold climate option)", "HEA"}, {0x29, "ecc", "electronic climate control", "ECC"}, {0x2d, "vgla", "alarm", "GLA"}, {0x2e, "psl", "left power seat", "PSL"}, {0x2f, "psr", "right power seat", "PSR"}, {0x41, "immo", "immobilizer", "IMM"}, {0x51, "combi", "combined instrument panel", "CI"}, {0x58, "srs", "airbags", "SRS"}, {0x6e, "aw50", "AW50-42 transmission", "AT"}, {0x7a, "m44", "Motronic M4.4 engine management", "EFI"}};
const VEcu *vecu(u8 a) { for (auto &e : VECU) if (e.addr == a) return &e; return nullptr; }
std::string vdesc(u8 a) { if (auto *e = vecu(a)) return e->desc; char t[20]; snprintf(t, sizeof t, "ECU %02X", a); return t; }
std::string vpfx(u8 a) { auto *e = vecu(a); return e ? e->pfx : "???"; }
const struct dtc_table_entry *vdtc(u8 a, u8 raw) { auto *e = dtctable_by_addr(a); if (e) for (; e->dtc_suffix; e++) if (e->raw_value == raw) return e; return nullptr; }
std::string vcode(u8 a, u8 raw) { auto *e = vdtc(a, raw); char t[40]; if (!e || e->dtc_suffix < 0) snprintf(t, sizeof t, "%s-?\?\?", vpfx(a).c_str()); else snprintf(t, sizeof t, "%s-%03d", vpfx(a).c_str(), std::min<int>(e->dtc_suffix, 999)); return t; }
// what the user reads about the stored codes
std::string vlist(u8 a, const Bytes &d, bool tips) {
	if (d.empty()) return "No stored DTCs.\n"; std::string s = "Stored DTCs:\n"; bool unconf = false, have = false; char t[20];
	for (u8 x : d) { auto *e = vdtc(a, x); std::string de = e ? e->desc : ""; snprintf(t, sizeof t, " (%02X) ", x); s += vcode(a, x) + t + de + "\n"; if (!de.empty() && de.back() == '?') unconf = true; if (e && e->tips) { have = true; if (tips) s += std::string(e->tips) + "\n"; } }
	if (unconf) s += "Warning: descriptions and DTC suffixes for lines ending in ? are unconfirmed\n"; if (have && !tips) s += std::string("Tips are available for ") + (d.size() > 1 ? "some of these DTCs" : "this DTC") + ". Use \"dtc tips\" to show them.\n"; if (tips && !have) s += std::string("No tips are available for ") + (d.size() > 1 ? "these DTCs" : "this DTC") + ".\n"; return s;
}
struct VCmd { std::string line; std::vector<std::string> want; std::vector<Bytes> reqs; std::string said, exact; bool told = false; std::vector<std::string> mean; };    // told: the user has to be told of a failure; mean: what is said about the meaning of the values
struct Volvo {
	D2 z; User u; u64 seed = 0; std::set<u8> present; std::map<u8, Bytes> dtcs; std::map<u8, bool> dtc_read; u8 tgt = 0; bool all_mapped = false; bool silent_srl = false, unlock_ok = true;
	struct Q { u8 tgt; Bytes q; std::vector<Bytes> a; bool odd; bool late = false; }; std::vector<Q> log; u8 tester = 0x13; bool vary = false; u64 cur = 0; double odds = 0; int odd_hits = 0; int calls = 0;
	Prng pr(u32 kind, u32 t, u32 id) const { Prng p(seed * 31 + kind * 1000003 + t * 257 + id); for (int i = 0; i < 3; i++) p.next(); return p; }
	Bytes rb(Prng &p, u32 n) const { Bytes b; while (n--) b.push_back(p.byte()); return b; }
	Prng vp(u32 kind, u32 t, u32 id) const { if (!vary) return pr(kind, t, id); Prng p(seed * 37 + kind * 1000003 + t * 257 + id + cur * 7919); for (int i = 0; i < 3; i++) p.next(); return p; }
	u8 mem(u8 t, u16 a) const { return vp(1, t, a).byte(); }
	bool mapped(u8 t, u16 a) const { return all_mapped || pr(2, t, a >> 9).below(5) != 0; }
	// data of an identifier; false: refused
	bool data(int kind, u8 t, u8 id, Bytes &b) const {
		Prng p = pr(3 + kind, t, id); static const u32 ln[] = {0, 1, 1, 2, 2, 4, 4, 8, 15, 19, 20, 21, 40, 58}; u32 n = ln[p.below(14)]; bool means = kind == 0 && ((t == 0x7a && (id == 2 || id == 3 || id == 10 || id == 16 || (id >= 0x18 && id <= 0x1a))) || (t == 0x6e && (id == 5 || id == 12))); if (means) { static const u32 lm[] = {2, 4, 1, 3, 2, 4, 5, 20}; n = lm[p.below(8)]; } b = rb(p, n);
		if (vary || means) { u32 w = p.below(6); Prng v = vp(3 + kind, t, id); v.byte(); if (!means && n && n <= 20) n = 1 + v.below(20); b = rb(v, n); if (means) { for (u8 &x : b) if (v.below(3) == 0) { static const u8 ex[] = {0, 0xff, 0x80, 0x7f, 1, 0x81}; x = ex[v.below(6)]; } if (t == 0x6e && id == 12 && v.below(4)) b[0] %= 4; if (t == 0x6e && id == 5) { if (v.below(4)) b[0] %= 7; if (n > 1 && v.below(4)) b[1] %= 5; } if (t == 0x6e && n > 3 && b[2] == 0x80) b[2]++; } return w != 0; } if (kind == 1 && id == 0xf0) {
			u32 w = pr(9, t, 0).below(8); if (w == 7) return false; b = rb(p, 15); b[0] = 0; for (int i : {5, 6, 7, 12, 13, 14}) b[i] = 33 + b[i] % 90; if (w == 6) b[0] = 1 + b[0] % 255; if (w == 5) b.resize(1 + p.below(14)); if (w == 4) b.push_back(7); if (w == 3) { static const int ix[] = {5, 6, 7, 12, 13, 14}; b[ix[p.below(6)]] = 3; } return true; }
		if (kind == 1 && id == 1 && t == 0x7a) { u32 w = pr(10, t, 0).below(5); b = rb(p, 10); for (u8 &x : b) x = '0' + x % 10; if (w == 4) return false; if (w == 3) b[p.below(10)] = 'x'; if (w == 2) b.push_back('1'); return true; }
		return p.below(6) != 0;
	}
	std::vector<Bytes> answer(u8 t, const Bytes &q) {
		std::vector<Bytes> v; if (q.empty()) return v; u8 s = q[0]; Bytes b; auto no = [&](u8 c) { v.push_back({0x7F, s, c}); }; auto ok = [&](const Bytes &d) { v.push_back(cat({(u8)(s ^ 0x40)}, d)); };
		switch (s) {
		case 0xA0: case 0xA1: ok({}); break;
		case 0xA5: if (q.size() == 3 && q[2] == 1 && data(0, t, q[1], b)) ok(cat({q[1]}, b)); else no(0x12); break;
		case 0xB9: if (q.size() == 2 && data(1, t, q[1], b)) ok(cat({q[1]}, b)); else no(0x12); break;
		case 0xAD: if (q.size() == 3 && q[2] == 0 && data(2, t, q[1], b)) ok(cat({q[1]}, b)); else no(0x12); break;
		case 0xA7: if (q.size() == 6 && q[1] == 0 && q[4] == 1 && q[5] && q[5] < 60) { u16 a = q[2] << 8 | q[3]; bool m = true; Bytes d = {0, q[2], q[3]}; for (int i = 0; i < q[5]; i++) { if (!mapped(t, a + i)) m = false; d.push_back(mem(t, a + i)); } if (m) { ok(d); break; } } no(0x12); break;
		case 0xAE: { if (q.size() != 2 || q[1] != 1) { no(0x12); break; } Bytes &d = dtcs[t]; dtc_read[t] = true; size_t i = 0; do { Bytes x = {1}; for (size_t k = i; k < d.size() && k < i + 12; k++) x.push_back(d[k]); ok(x); i += 12; } while (i < d.size()); break; }
		case 0xAF: if (q.size() == 2 && q[1] == 1 && dtc_read[t] && pr(11, t, 0).below(6)) { dtcs[t].clear(); ok({1}); } else no(0x22); break;
		case 0xB0: if (q.size() == 2 ? q[1] == 0x30 && unlock_ok : q.size() == 4 && q[2] == 0x32 && pr(12, t, q[1]).below(3)) ok({q[1]}); else no(0x11); break;
		case 0xB2: if (q.size() == 2 && q[1] == 0x30 && pr(13, t, 0).below(4)) { if (!silent_srl) ok({q[1]}); } else no(0x11); break;
		default: no(0x11);
		}
		return v;
	}
	void make() {
		whole_program = true; z.setup(); z.src = 0x13; seed = choose("v.volvo", 1u << 30, 1.0); z.k.e.st = std::min<u64>(z.k.e.st, 150 * MS);
		static const u8 ad[] = {0x01, 0x11, 0x18, 0x29, 0x2d, 0x2e, 0x2f, 0x41, 0x51, 0x58, 0x6e, 0x7a, 0x7a, 0x51, 0x22, 0x6e, 0x7f, 0x7e, 0x7b}; present.insert(ad[rnd("v.tgt", 19)]); u32 n = rnd("n.more", 4); while (n--) present.insert(ad[rnd("v.more", 15)]);
		for (u8 t : present) { Prng p = pr(20, t, 0); u32 m = p.below(4) ? p.below(9) : p.below(30); dtcs[t] = rb(p, m); std::vector<u8> known; if (auto *e = dtctable_by_addr(t)) for (; e->dtc_suffix; e++) known.push_back(e->raw_value); if (!known.empty()) for (u8 &x : dtcs[t]) if (p.below(3)) x = known[p.below((u32)known.size())]; }
		unlock_ok = rnd("k.unlock", 2); silent_srl = rnd("k.silentsrl", 4) == 1;
		z.k.e.businit = [this](bool) { return present.count(z.k.e.iia & 0x7f) != 0; };
		z.k.e.request = [this](const Bytes &h, const Bytes &d) { std::vector<ElmRsp> v;
			if (d == Bytes({1, 0}) && h[0] == 0x68) { ElmRsp r; r.f = {0x48, 0x6B, 0x10, 0x41, 0, 1, 2, 3, 4}; r.f.push_back(cks(r.f)); v.push_back(r); return v; }
			u8 t = h[1]; bool pres = present.count(t) && (z.k.e.iia & 0x7f) == t; Q q{t, d, {}, false}; cur = log.size(); if (tester && t < 0x80 && d != Bytes({1, 0})) CHECK(h[2] == tester, "cli:tester", "[%s] came from %02x", hex(d).c_str(), h[2]); if (pres) q.a = answer(t, d); evbytes("volvo", d.data(), d.size()); u8 from = t, to = h[2]; bool badcs = false;
			if (pres && odds && d != Bytes({0xA0}) && chance("k.odd", odds)) {
				q.odd = true; odd_hits++; count("p.odd"); Bytes *a = q.a.empty() ? nullptr : &q.a[0];
				switch (rnd("v.odd", 8)) { case 0: q.a.clear(); break; case 1: q.a = {{(u8)(rnd("k.7e", 4) ? 0x7F : 0x7E), d[0], 0x11}}; break; case 2: if (a && a->size() > 1) (*a)[1] ^= 1 << rnd("v.bit", 8); else q.a.clear(); break; case 3: if (a) (*a)[0] ^= 1 << rnd("v.bit", 6); break;
				case 4: if (a && a->size() > 1 && d[0] != 0xAE && d[0] != 0xA5 && d[0] != 0xB9 && d[0] != 0xAD) a->pop_back(); else if (a) a->resize(1); break; case 5: from ^= 1 << rnd("v.bit", 7); break; case 6: to ^= 1 << rnd("v.bit", 7); break; case 7: badcs = true; break; } }
			for (auto &a : q.a) { ElmRsp r = z.rsp(z.frame(a, from, to)); if (badcs) { r.f.back() ^= 1 + rnd("v.bit", 255); } v.push_back(r); } log.push_back(q); return v; };
		z.k.up(); z.k.s.t->rx_chunk = 0;
	}
	void up() { FaultsOff f; u.up(z.k.s.t, "elm", z.k.e.baud); }
	// settings left over from other work do not matter
	void leftovers() { FaultsOff f; static const char *s[] = {"set testerid 0x22", "set speed 9600", "set l1protocol iso14230", "set initmode fast", "set destaddr 0x45", "set l2protocol raw", "set addrtype phys", "set l1protocol j1850-vpw", "set testerid 0xf2", "set initmode carb"}; u32 n = rnd("n.left", 4); while (n--) u.must(s[rnd("v.left", 10)]); }
	void connect(u8 t) { FaultsOff f; char c[40]; if (chance("k.leftovers", 0.25)) leftovers(); auto *e = vecu(t); if (e && rnd("k.byname", 3) == 1) { std::string nm = e->name; if (rnd("k.case", 2)) for (char &x : nm) x = toupper(x); snprintf(c, sizeof c, "850 connect %s", nm.c_str()); } else snprintf(c, sizeof c, rnd("k.hexaddr", 2) ? "850 connect 0x%02x" : "850 connect %d", t);
		u.must(c, "Connected to"); CHECK(u.p.out.find("Connected to " + vdesc(t) + ".\n") != std::string::npos, "cli:connected", "'%s' says: %.200s", c, u.p.out.c_str()); tgt = t; log.clear(); dtc_read.clear(); }
	static std::string hx(const Bytes &b) { std::string s; char t[8]; for (u8 x : b) { snprintf(t, sizeof t, " %02X", x); s += t; } return s; }
	// what a terminal shows after all this was written to it
	static std::vector<std::string> screen(const std::string &o) {
		std::vector<std::string> s(1); size_t r = 0, c = 0;
		for (size_t i = 0; i < o.size(); i++) {
			if (o[i] == '\n') { r++; c = 0; if (r >= s.size()) s.resize(r + 1); } else if (o[i] == '\r') c = 0;
			else if (o[i] == 27 && i + 1 < o.size() && o[i + 1] == '[') { size_t j = i + 2; int n = 0; while (j < o.size() && isdigit((u8)o[j])) n = n * 10 + o[j++] - '0'; char k = j < o.size() ? o[j] : 0; if (k == 'F') { r -= std::min<size_t>(r, n ? n : 1); c = 0; } else if (k == 'K') s[r].resize(std::min(c, s[r].size())); i = j; }
			else { if (s[r].size() <= c) s[r].resize(c + 1, ' '); s[r][c++] = o[i]; }
		}
		return s;
	}
	// the measured values, codes and identification shown
	static std::vector<std::string> shown(const std::string &o) {
		static const std::regex val("^((?:[A-Z?]+-[0-9?]+  )?(?:[0-9A-F]{2}|[0-9A-F]{4}):(?: no data|(?: [0-9A-F]{2})+))$"), more("^ \\(\\d+ bytes received, only first \\d+ shown\\)$"), code("^[A-Z?]+-(?:[0-9]{3}|\\?\\?\\?) (\\([0-9A-F]{2}\\)).*$"), id("^(Hardware ID|Software ID|Order number):.*$");
		std::vector<std::string> v; std::smatch m; for (auto &l : screen(o)) { if (std::regex_match(l, m, val) || std::regex_match(l, m, code)) v.push_back(m[1]); else if (std::regex_match(l, more) || std::regex_match(l, id)) v.push_back(l); } return v;
	}
	// the meaning of the values, as far as it is known
	static void meaning(VCmd &c, bool live, u8 ecu, u32 id, const Bytes &b) {
		size_t n = b.size(); auto say = [&](const char *f, auto... x) { char t[120]; snprintf(t, sizeof t, f, x...); c.mean.push_back(t); }; if (!n) return;
		auto deg = [](int d) { return d * 9 / 5 + 32; }; double batt = b[0] / 255.0 * 5 * (29750.0 / 8250);
		if (!live) { if (ecu == 0x10 && id == 0x36) say("Battery voltage: %.1f V", batt); return; }
		if (ecu == 0x7a) switch (id) {
		case 2: if (n >= 2) say("Engine Coolant Temperature: %dC (%dF)", b[1] - 80, deg(b[1] - 80)); break;
		case 3: say("Battery voltage: %.1f V", batt); break;
		case 0x0a: { static const char *w[] = {"in progress or engine off", "completed", "not possible", "status unknown"}; say("Warm-up %s", w[b[0] >> 2 & 3]); say("MIL %srequested by TCM", b[0] & 0x10 ? "" : "not "); break; }
		case 0x10: say("MAF sensor signal: %.2f V", b[0] / 255.0 * 5 * (9460.0 / 8250)); break;
		case 0x18: say("Short term fuel trim: %+.1f%%", (b[0] - 128) * 100 / 128.0); break;
		case 0x19: say("Long term fuel trim, additive (unscaled): %+d", b[0] - 128); break;
		case 0x1a: say("Long term fuel trim, multiplicative: %+.1f%%", (b[0] - 128) * 100 / 128.0); break;
		}
		if (ecu == 0x6e && id == 5 && n >= 2) { static const char *ps[] = {"Open", "S", "E", "W", "Unknown"}, *dm[] = {"Economy", "Sport", "Winter", "Unknown"}; say("Mode selector: MS1 %s, MS2 %s, switch position %s", b[0] & 1 ? "low" : "high", b[0] & 2 ? "low" : "high", ps[std::min<int>(b[0], 4)]); say("Driving mode: %s", dm[std::min<int>(b[1], 3)]); }
		if (ecu == 0x6e && id == 0x0c && n >= 4) { int v = b[0] * 256 + b[1]; say("ATF temperature sensor voltage: %.2f V", v * 5 / 1023.0); if (v < 1023) say("ATF temperature sensor resistance: %d ohms", 1000 * v / (1023 - v)); else c.mean.push_back("ATF temperature sensor resistance"); int d = (int16_t)(b[2] << 8 | b[3]) - 11; say("ATF temperature: %dC (%dF)", d, deg(d)); }
	}
	static std::vector<std::string> meant(const std::string &o) { static const std::regex re("^(Engine Coolant|Battery volt|Warm-up |MIL |MAF sensor|Short term|Long term|Mode selector|Driving mode|ATF temp).*"); std::vector<std::string> v; for (auto &l : screen(o)) if (std::regex_match(l, re)) { std::string x = l; while (!x.empty() && x.back() == ' ') x.pop_back(); v.push_back(x); } return v; }
	// both are the same, apart from the rounding of the resistance
	static bool same_meaning(const std::string &want, const std::string &got) { static const std::string pre = "ATF temperature sensor resistance"; if (want == got) return true; if (want.compare(0, pre.size(), pre) || got.compare(0, pre.size(), pre)) return false; return want == pre || labs(atol(want.c_str() + pre.size() + 2) - atol(got.c_str() + pre.size() + 2)) <= 1; }
	static bool same_meanings(const std::vector<std::string> &want, const std::vector<std::string> &got, bool part = false) { if (part ? got.size() > want.size() : got.size() != want.size()) return false; for (size_t i = 0; i < got.size(); i++) if (!same_meaning(want[i], got[i])) return false; return true; }
	// ---- the commands, and what this ECU has to say
	void rd(VCmd &c, int kind, u8 id) {    // 0 live data, 1 NV, 2 freeze frame
		if (c.told) return; static const u8 sid[] = {0xA5, 0xB9, 0xAD}; Bytes q = {sid[kind], id}, b; if (kind == 0) q.push_back(1); if (kind == 2) q.push_back(0); c.reqs.push_back(q); char t[60];
		if (!data(kind, tgt, id, b)) { c.told = true; snprintf(t, sizeof t, "Error reading %02X\n", id); c.said = t; return; }
		snprintf(t, sizeof t, "%s%s%02X:", kind == 2 ? vcode(tgt, id).c_str() : "", kind == 2 ? "  " : "", id); Bytes s = b; if (s.size() > 20) s.resize(20); c.want.push_back(t + (b.empty() ? " no data" : hx(s))); if (b.size() > 20) { snprintf(t, sizeof t, " (%zu bytes received, only first 20 shown)", b.size()); c.want.push_back(t); }
		if (kind == 0) meaning(c, true, tgt, id, b);
	}
	void pk(VCmd &c, u32 a, u32 n) { char t[40]; while (n && !c.told) { u32 k = std::min(n, 8u); c.reqs.push_back({0xA7, 0, (u8)(a >> 8), (u8)a, 1, (u8)k}); Bytes b; for (u32 i = 0; i < k; i++) { if (!mapped(tgt, a + i)) c.told = true; b.push_back(mem(tgt, a + i)); } if (c.told) { snprintf(t, sizeof t, "Error reading %s%04X\n", c.line.compare(0, 8, "850 read") ? "" : "\\*", a & 0xffff); c.said = t; return; } snprintf(t, sizeof t, "%04X:", a & 0xffff); c.want.push_back(t + hx(b)); n -= k; a += k; } }
	std::string num(u32 v) { char t[20]; u32 w = rnd("v.base", 3); snprintf(t, sizeof t, w == 0 ? "0x%x" : w == 1 ? "%u" : "0x%04X", v); return t; }
	std::string peek_arg(VCmd &c) {
		u32 a = chance("k.hiaddr", 0.3) ? 0xfff0 + rnd("v.hi", 13) : rnd("v.addr", 0xfff0); u32 w = rnd("v.pk", 5); std::string s = num(a); if (w == 0) { pk(c, a, 1); return s; } if (w == 1) { pk(c, a, 2); return s + (rnd("k.case", 2) ? "w" : "W"); } if (w == 2) { pk(c, a, 4); return s + (rnd("k.case", 2) ? "l" : "L"); }
		if (chance("k.allmem", 0.004)) { pk(c, 0, 0x10000); return "0.0xffff"; } u32 b = a + std::min<u32>(rnd("v.pklen", 60), 0xffff - a); pk(c, a, b - a + 1); return s + (rnd("k.sep", 2) ? "." : "-") + num(b);
	}
	VCmd query() {
		VCmd c; u32 n; switch (rnd("v.cmd", 8)) {
		case 0: c.line = "850 ping"; c.reqs = {{0xA1}}; c.said = "Pong!"; break;
		case 1: c = ident(); break;
		case 2: c = list(); break;
		case 3: { c.line = "850 freeze"; if (rnd("k.all", 2)) { c.line += " all"; c.reqs = {{0xAE, 1}}; Bytes d = dtcs[tgt]; if (d.size() > 12) d.resize(12); if (d.empty()) c.said = "No stored"; for (u8 x : d) rd(c, 2, x); } else { n = 1 + rnd("n.arg", 3); while (n--) { if (rnd("k.byname", 3)) { u8 raw; std::string w = name(raw); if (!w.empty()) { c.line += " " + w; rd(c, 2, raw); count("p.byname"); continue; } }
			u8 x = rnd("v.id", 256); std::string w = num(x); c.line += " " + w; if (w[0] != '0') { char t[120]; snprintf(t, sizeof t, "Warning: retrieving freeze frame by raw identifier %d (=%02X).\nDid you mean %s%s?\n", x, x, x < 100 ? "0x" : (vpfx(tgt) + "-").c_str(), w.c_str()); c.exact += t; } rd(c, 2, x); } if (c.exact.empty()) c.exact = "-"; } break; }
		case 4: c.line = "850 readnv"; n = 1 + rnd("n.arg", 4); while (n--) { u8 x = rnd("v.id", 256); c.line += " " + num(x); rd(c, 1, x); } break;
		case 5: c.line = "850 read"; n = 1 + rnd("n.arg", 4); while (n--) { if (rnd("k.star", 5) == 1) { c.line += " *" + peek_arg(c); continue; } static const u8 ids[] = {2, 3, 5, 0x0a, 0x0c, 0x10, 0x18, 0x19, 0x1a}; u8 x = rnd("k.id2", tgt == 0x7a || tgt == 0x6e ? 6 : 2) == 0 ? rnd("v.id", 256) : ids[rnd("v.idm", 9)]; if (tgt == 0x6e && rnd("k.at", 2)) x = rnd("k.at2", 2) ? 5 : 12; c.line += " " + num(x); rd(c, 0, x); } break;
		case 6: c.line = "850 peek"; n = 1 + rnd("n.arg", 4); while (n--) c.line += " " + peek_arg(c); break;
		case 7: { Bytes b = {(u8)(rnd("k.sid", 2) ? 0xA5 : 0xB9), (u8)rnd("v.id", 256)}; if (b[0] == 0xA5) b.push_back(1); if (rnd("k.longreq", 3) == 1) { Bytes m = rnd_bytes("v.longreq", rnd("v.longreqn", z.maxreq() - 3)); b.insert(b.end(), m.begin(), m.end()); } c.line = "850 sendreq"; for (u8 x : b) { char t[8]; snprintf(t, sizeof t, " 0x%x", x); c.line += t; } c.reqs = {b}; break; }
		}
		return c;
	}
	VCmd list() { VCmd c; bool tips = rnd("k.tips", 2); c.line = tips ? "850 dtc tips" : "850 dtc"; c.reqs = {{0xAE, 1}}; Bytes d = dtcs[tgt]; if (d.size() > 12) d.resize(12); if (d.empty()) c.said = "No stored DTCs"; char t[8]; for (u8 x : d) { snprintf(t, sizeof t, "(%02X)", x); c.want.push_back(t); } if (dtcs[tgt].size() > 12) c.said = "only first 12"; if (tips && rnd("k.case", 2)) c.line = rnd("k.case2", 2) ? "850 dtc TIPS" : "850 dtc Tips"; c.exact = vlist(tgt, d, tips); return c; }
	// a code that this ECU knows, written in some way
	std::string name(u8 &raw) { auto *e = dtctable_by_addr(tgt); if (!e || !vecu(tgt)) return ""; int n = 0, k; while (e[n].dtc_suffix) n++; k = rnd("v.name", n); int sf = e[k].dtc_suffix; if (sf < 0) return ""; for (k = 0; e[k].dtc_suffix != sf; k++); raw = e[k].raw_value; std::string w = vpfx(tgt); if (rnd("k.case", 2)) for (char &x : w) x = tolower(x); if (rnd("k.dash", 3)) w += '-'; std::string d = std::to_string(sf); if (rnd("k.zero", 4) == 1 && w.size() + d.size() < 7) d = "0" + d; return (w + d).size() <= 7 ? w + d : ""; }
	// and one it does not
	std::string no_name() { std::string p = vpfx(tgt); if (!vecu(tgt)) p = "EFI"; static const char *t[] = {"", "-", "-1x", "-998", "998", "--112", "-0x70", "+1", "-112-", "_112", "-65535", "-11200"}; if (rnd("k.pfx", 3) == 1) { u8 raw; std::string w = name(raw); if (!w.empty()) { u32 k = rnd("v.badp", 3); if (k == 0) w[0] = toupper(w[0]) == 'X' ? 'Y' : 'X'; if (k == 1) w[vpfx(tgt).size() - 1] = toupper(w[vpfx(tgt).size() - 1]) == 'Q' ? 'R' : 'Q'; if (k == 2) w += 'x'; return w; } } return p + t[rnd("v.badname", 12)]; }
	// a repeated display: what the last pass (every pass) shows
	void repeated(VCmd c, bool live) {
		if (c.told) vary = false; size_t l0 = log.size(), n = c.reqs.size(); std::string o = u.p.cmd_until(c.line + (live ? (rnd("k.case", 3) ? " live" : " LIVE") : (rnd("k.case", 3) ? " stream" : " Stream")), (100 + rnd("v.livet", 5000)) * MS, 1000 * SEC); auto got = shown(o), mt = meant(o); count("p.live");
		size_t m = log.size() - l0; CHECK(m && m % n == 0, "live:passes", "%zu requests were sent for a display of %zu values", m, n); for (size_t i = 0; i < m; i++) CHECK(log[l0 + i].q == c.reqs[i % n], "live:requests", "request %zu of '%s' was [%s]", i, c.line.c_str(), hex(log[l0 + i].q).c_str()); size_t from = live ? log.size() - n : l0; std::vector<std::string> want, mean;
		if (!vary) { for (size_t i = from; i < log.size(); i += n) { want.insert(want.end(), c.want.begin(), c.want.end()); mean.insert(mean.end(), c.mean.begin(), c.mean.end()); } }
		else for (size_t i = from; i < log.size(); i++) { const Bytes &q = log[i].q; VCmd x; x.line = c.line; cur = i; if (q[0] == 0xA7) pk(x, q[2] << 8 | q[3], q[5]); else rd(x, 0, q[1]); want.insert(want.end(), x.want.begin(), x.want.end()); mean.insert(mean.end(), x.mean.begin(), x.mean.end()); }
		CHECK(got == want, "live:data", "'%s' %s leaves [%s] on the screen, the ECU says [%s]", c.line.c_str(), live ? "live" : "stream", j(got).c_str(), j(want).c_str()); CHECK(same_meanings(mean, mt), "live:interpreted", "'%s' %s: the values mean [%s], shown is [%s]", c.line.c_str(), live ? "live" : "stream", j(mean).c_str(), j(mt).c_str());
		if (c.told) CHECK(told(c) && u.p.said(c.said.c_str()), "cli:told", "'%s': the ECU refused, but the user was not told: %.300s", c.line.c_str(), o.c_str());
		vary = false;
	}
	VCmd ident() {
		VCmd c; c.line = "850 id"; Bytes b; c.reqs = {{0xB9, 0xF0}}; char t[100]; if (!data(1, tgt, 0xf0, b)) { c.told = true; c.said = "Couldn't read"; return c; } if (b.size() != 15 || b[0]) { c.told = true; return c; } for (int i : {5, 6, 7, 12, 13, 14}) if (!isprint(b[i])) { c.told = true; c.said = "Unexpected"; return c; }
		snprintf(t, sizeof t, "Hardware ID: P%02X%02X%02X%02X revision %.3s", b[1], b[2], b[3], b[4], (char *)&b[5]); c.want.push_back(t); snprintf(t, sizeof t, "Software ID:  %02X%02X%02X%02X revision %.3s", b[8], b[9], b[10], b[11], (char *)&b[12]); c.want.push_back(t);
		if (tgt != 0x7a) return c; c.reqs.push_back({0xB9, 1}); if (!data(1, tgt, 1, b)) return c; if (b.size() != 10) { c.told = true; return c; } for (u8 x : b) if (!isdigit(x)) { c.told = true; c.said = "Unexpected"; return c; } snprintf(t, sizeof t, "Order number: %c %.3s %.3s %.3s", b[0], (char *)&b[1], (char *)&b[4], (char *)&b[7]); c.want.push_back(t); return c;
	}
	static std::string j(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + "|"; return s; }
	bool told(const VCmd &c) const { if (c.line.find("dtc") != std::string::npos) return u.p.said("couldn't retrieve"); return u.p.said("error reading|couldn't|fail|no data received|unable|not done|response (was|byte)|unexpected|cannot|can't|identification response"); }
	// runs it; disturbed: something may have gone wrong on the way
	bool run(const VCmd &c, bool disturbed) {
		size_t l0 = log.size(); int oh = odd_hits; const std::string o = u.p.cmd(c.line, 4000 * SEC); auto got = shown(o); std::vector<Bytes> q; for (size_t i = l0; i < log.size(); i++) q.push_back(log[i].q); bool odd = odd_hits != oh; count("p.cmd");
		CHECK(o.find('\x1b') == std::string::npos, "cli:escape", "control sequences in the output of '%s'", c.line.c_str()); bool sr = c.line.compare(0, 11, "850 sendreq") == 0; bool order = c.line == "850 id" && tgt == 0x7a;
		if (sr) { sendreq(c, l0, o, disturbed || odd); return true; }
		if (!disturbed && !odd) {
			CHECK(got == c.want, "cli:data", "'%s' shows [%s], the ECU says [%s]: %.300s", c.line.c_str(), j(got).c_str(), j(c.want).c_str(), o.c_str());
			CHECK(q == c.reqs, "cli:requests", "'%s' sent %zu requests, the last [%s], expected were %zu", c.line.c_str(), q.size(), q.empty() ? "" : hex(q.back()).c_str(), c.reqs.size());
			CHECK(told(c) == c.told || order, "cli:told", "'%s': %s: %.300s", c.line.c_str(), c.told ? "the ECU refused, but the user was not told" : "a failure was reported although all went well", o.c_str()); if (!c.exact.empty() && !c.line.compare(0, 7, "850 dtc")) CHECK(o.find(c.exact) != std::string::npos, "cli:text", "'%s' should say '%s', it says '%.900s'", c.line.c_str(), c.exact.c_str(), o.c_str()); if (!c.exact.empty() && !c.line.compare(0, 10, "850 freeze")) { std::string w; for (size_t i = o.find("Warning: retr"); i != std::string::npos; i = o.find("Warning: retr", i + 1)) { size_t e = o.find('\n', i); e = e == std::string::npos ? e : o.find('\n', e + 1); w += o.substr(i, e == std::string::npos ? e : e + 1 - i); } CHECK(w == (c.exact == "-" ? "" : c.exact), "cli:warning", "'%s' warns '%s' instead of '%s'", c.line.c_str(), w.c_str(), c.exact.c_str()); }
			if (!c.said.empty()) CHECK(u.p.said(c.said.c_str()), "cli:said", "'%s' did not say '%s': %.300s", c.line.c_str(), c.said.c_str(), o.c_str()); if (c.line == "850 ping") CHECK(!u.p.said("fail"), "cli:said", "pong and failure");
			auto mt = meant(o); CHECK(same_meanings(c.mean, mt), "cli:interpreted", "'%s': the values mean [%s], shown is [%s]", c.line.c_str(), j(c.mean).c_str(), j(mt).c_str()); if (!mt.empty()) count("p.meaning");
			return true;
		}
		// never anything the ECU does not say; and what is missing is told
		CHECK(got.size() <= c.want.size() && std::equal(got.begin(), got.end(), c.want.begin()), "cli:invented", "'%s' shows [%s], the ECU says [%s]", c.line.c_str(), j(got).c_str(), j(c.want).c_str());
		if (got.size() < c.want.size() && !(order && got.size() == 2)) CHECK(told(c), "cli:untold", "'%s' shows only %zu of %zu lines, and the user was not told: %.300s", c.line.c_str(), got.size(), c.want.size(), o.c_str());
		if (c.line == "850 ping" && u.p.said("Pong")) { bool ok = false; for (size_t i = l0; i < log.size(); i++) if (!log[i].a.empty() && !log[i].a[0].empty() && log[i].a[0][0] == 0xE1) ok = true; CHECK(ok, "cli:pong", "a pong without a positive answer"); } else if (c.line == "850 ping") CHECK(u.p.said("Ping failed|error|No data|not connected"), "cli:untold", "a failed ping said nothing");
		if (c.want.empty() && !c.said.empty() && c.said.compare(0, 9, "No stored") && u.p.said("No stored DTCs")) VIOL("cli:invented", "'%s' says there are no codes, the ECU has %zu", c.line.c_str(), dtcs[tgt].size());
		if (!c.want.empty() && c.line.find("dtc") != std::string::npos) CHECK(!u.p.said("No stored DTCs"), "cli:invented", "'%s' says there are no codes, the ECU has %zu", c.line.c_str(), dtcs[tgt].size());
		auto mt = meant(o); CHECK(same_meanings(c.mean, mt, true), "cli:interpreted", "'%s': the values mean [%s], shown is [%s]", c.line.c_str(), j(c.mean).c_str(), j(mt).c_str());
		return !told(c);
	}
	void sendreq(const VCmd &c, size_t l0, const std::string &o, bool disturbed) {
		std::vector<Bytes> got; static const std::regex re("msg \\d+ data: ((?:0x[0-9A-F]{2} )*)"); std::vector<std::string> v; std::string oe = o + u.p.err; for (std::sregex_iterator i(oe.begin(), oe.end(), re), e; i != e; ++i) { Bytes b; std::string s = (*i)[1]; for (size_t k = 0; k + 4 < s.size() + 1; k += 5) b.push_back(strtoul(s.c_str() + k, nullptr, 16)); got.push_back(b); }
		if (!disturbed) { CHECK(log.size() == l0 + 1 && log[l0].q == c.reqs[0], "cli:requests", "'%s' sent %zu requests", c.line.c_str(), log.size() - l0); CHECK(got == log[l0].a, "cli:data", "'%s' shows %zu answers: %.300s", c.line.c_str(), got.size(), o.c_str()); return; }
		for (auto &g : got) { bool f = false; for (size_t i = l0; i < log.size(); i++) for (auto &a : log[i].a) if (a == g) f = true; CHECK(f, "cli:invented", "'%s' shows [%s], which is no answer to it", c.line.c_str(), hex(g).c_str()); }
		if (got.empty()) CHECK(told(c), "cli:untold", "'%s' got no answer and the user was not told", c.line.c_str());
	}
	void tidy() { for (int i = 0; i < 40 && z.k.e.busy; i++) idle(500 * MS); z.k.settle(300 * MS); }
};
}
