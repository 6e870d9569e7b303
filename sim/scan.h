// What a scan of the model car must ask and find out (reference for C26 and C33).
#pragma once
#include "car.h"
#include <cstdarg>
#define L3_FAULTS "f.bus.drop", "f.bus.flip", "f.bus.dup", "f.bus.gap", "f.bus.noise", "f.bus.trunc", ELM_FAULTS, "f.ecu.late", "f.ecu.badcs", "f.echo.lost", "f.echo.flip", "f.echo.late"
namespace {
struct Expect {
	std::vector<Bytes> asked; std::vector<u8> order; struct I { u8 info[10][256]; std::map<int, Bytes> d1, d2; }; std::map<u8, I> ecu; u8 m1[256], m5[256]; u8 o2 = 0; std::string codes;
};
std::string sfmt(const char *f, ...) { char b[300]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); return b; }
std::string squeeze(const std::string &s) { std::string r; for (char c : s) { if (c == ' ' || c == '\t' || c == '\r') { if (!r.empty() && r.back() != ' ') r += ' '; } else r += c; } while (!r.empty() && r.back() == ' ') r.pop_back(); size_t i = r.find_first_not_of(' '); return i == r.npos ? "" : r.substr(i); }
std::string dtc(u8 a, u8 b) { return sfmt("%c%02X%02X", "PCBU"[a >> 6], a & 0x3f, b); }
// Walks through what the program must ask, given what the ECUs answer; gathers what there is to know and what the user has to be told.
struct Scan {
	Rig &g; Expect x; std::vector<std::string> want, lines; std::function<std::vector<Car::A>(const Bytes &)> src; bool ncms255 = false; std::vector<Car::A> raw;
	Scan(Rig &g_) : g(g_) { memset(x.m1, 0, 256); memset(x.m5, 0, 256); src = [this](const Bytes &q) { return g.car.answer(q); }; }
	static bool good(const Car::A &a, const Bytes &q) { return a.d.size() >= (q.size() > 1 ? 2 : 1) && a.d[0] == (q[0] | 0x40) && (q.size() < 2 || a.d[1] == q[1]); }
	bool denied(const std::vector<Car::A> &v) { if (g.p != FAST && g.p != SLOW) return false; std::set<u8> seen; bool no = false; for (auto &a : v) if (seen.insert(a.src).second) { if (!a.d.empty() && a.d[0] == 0x7F) no = true; else return false; } return no; }
	std::vector<Car::A> ask(Bytes q) {
		if (x.asked.empty() || x.asked.back() != q) x.asked.push_back(q); auto v = src(q); raw = v;
		for (auto &a : v) if (!x.ecu.count(a.src)) { auto &i = x.ecu[a.src]; memset(i.info, 0, sizeof i.info); x.order.push_back(a.src); }
		for (auto &e : x.ecu) { if (q[0] == 1) e.second.d1.erase(q[1]); if (q[0] == 2) e.second.d2.erase(q[1]); }
		if (denied(v)) return {}; std::vector<Car::A> r;
		for (auto &a : v) { if (!good(a, q)) continue; r.push_back(a); auto &i = x.ecu[a.src]; if (q[0] == 1 && !i.d1.count(q[1])) i.d1[q[1]] = a.d; if (q[0] == 2 && !i.d2.count(q[1])) i.d2[q[1]] = a.d; }
		return r;
	}
	void info(u8 m, int off) {
		for (int b = 0; b < 256; b += 32) {
			Bytes q = {m, (u8)b}; if (m == 2 || m == 5) q.push_back(0); if (m == 8) q.resize(7);
			auto v = ask(q); if (v.empty()) break; bool more = false;
			for (auto &a : v) { if (a.d.size() < off + 4u) continue; auto &i = x.ecu[a.src]; i.info[m][0] = 1; for (int k = 1; k <= 32 && b + k < 256; k++) if (a.d[off + (k - 1) / 8] & (0x80 >> (k - 1) % 8)) i.info[m][b + k] = 1; if (b + 32 < 256 && i.info[m][b + 32]) more = true; }
			if (!more) break;
		}
	}
	bool sup1(u8 m, u8 t) { for (auto &e : x.ecu) if (e.second.info[m][t]) return true; return false; }
	void say(const std::string &s) { lines.push_back(squeeze(s)); }
	std::string codes(const Bytes &d) { std::string s; for (int i = 1; i + 1 < 7 && i + 1 < (int)d.size(); i += 2) { if (!d[i] && !d[i + 1]) continue; want.push_back(dtc(d[i], d[i + 1])); s += want.back() + " "; } return s; }
	std::function<bool()> stop = []() { return false; };      // the user stopped it here
	void getdtcs() {
		if (!x.m1[1]) return; int nd = 0; bool mil = false, notready = false;
		auto v = ask({1, 1}); if (v.empty()) return; for (auto &e : x.ecu) { auto i = e.second.d1.find(1); if (i == e.second.d1.end()) continue; auto &d = i->second; if (d.size() > 2) nd += d[2] & 0x7f, mil |= d[2] >> 7; if ((d.size() > 3 && d[3] & 0xf0) || (d.size() > 5 && d[5])) notready = true; }
		if (notready) say("Not all readiness tests have completed"); say(sfmt("MIL light %s, %d stored DTC%s", mil ? "ON" : "OFF", nd, nd == 1 ? "" : "s"));
		if (!nd) return; v = ask({3}); if (v.empty()) { say("ECU would not return DTCs"); return; }
		for (u8 s : x.order) { std::string c; for (auto &a : v) if (a.src == s) c += codes(a.d); if (!c.empty()) say(c); }
	}
	// returns false if it was stopped
	bool getdata(bool interruptible) {
		for (int i = 3; i < 256; i++) if (x.m1[i]) { if (interruptible && stop()) return false; ask({1, (u8)i}); }
		if (interruptible && stop()) return false;
		for (auto &e : x.ecu) for (auto i = e.second.d2.begin(); i != e.second.d2.end();) if (i->first % 32) i = e.second.d2.erase(i); else ++i;
		ask({2, 2, 0}); for (u8 s : x.order) { auto &e = x.ecu[s]; if (e.d2.count(2) && e.d2[2].size() >= 5 && (e.d2[2][3] | e.d2[2][4])) for (int i = 3; i < 256; i++) { if (interruptible && stop()) return false; if (e.info[2][i]) { ask({2, (u8)i, 0}); } } }
		return true;
	}
	void cms() {
		auto v = src({7}); x.asked.push_back({7}); if (v.empty()) { say("No DTCs stored."); return; } if (denied(v)) { say("Failed to get test results for continuously monitored systems"); return; }
		std::string c; for (u8 s : x.order) for (auto &a : v) if (a.src == s && good(a, {7})) c += codes(a.d); say("Currently monitored DTCs: " + c);
	}
	void ncms(bool all) {
		if (!sup1(6, 0)) { say("ECU doesn't support non-continuously monitored system tests"); return; }
		for (int t = 0; t < 60; t++) if (t % 32 && sup1(6, t)) { ask({6, (u8)t}); for (auto &a : raw) {
			auto &d = a.d; if (d.size() >= 3 && d[0] == 0x7F) { say(sfmt("Test 0x%02X failed %d", d[1], d[2])); continue; } if (!good(a, {6, (u8)t})) continue; if (d.size() < 7) continue; int val = d[3] * 255 + d[4], lim = d[5] * 255 + d[6]; bool min = d[2] & 0x80, bad = min ? val < lim : val > lim;   // (the values should be 256 times the high byte: a known finding)
			int v2 = d[3] << 8 | d[4], l2 = d[5] << 8 | d[6]; bool bad2 = min ? v2 < l2 : v2 > l2; if ((bad || bad2 || all) && (d[3] || d[5])) ncms255 = true;
			if (all || bad) say(sfmt("Test 0x%X Component 0x%X %s %s val %d Current Val %d", d[1], d[2] & 0x7f, bad ? "FAILED" : "Passed", min ? "Min" : "Max", lim, val));
		} }
	}
	void o2test(const Bytes &d, const std::string &who) {
		static const char *nm[] = {"", "Rich to lean sensor threshold voltage", "Lean to rich sensor threshold voltage", "Low sensor voltage for switch time calc.", "High sensor voltage for switch time calc.", "Rich to lean sensor switch time", "Lean to rich sensor switch time", "Minimum sensor voltage for test cycle", "Maximum sensor voltage for test cycle", "Time between sensor transitions"};
		u8 t = d[1]; if (d.size() < (t <= 4 ? 4 : 6)) return; const char *r = d[3] < d[4] || d[3] > d[5] ? "FAILED" : "Passed";
		if (t <= 4) say(who + sfmt("%s: %f", nm[t], d[3] * 0.005)); else if (t <= 6 || t == 9) say(who + sfmt("%s: actual %2.2f min %2.2f max %2.2f %s", nm[t], d[3] * 0.004, d[4] * 0.004, d[5] * 0.004, r)); else if (t <= 8) say(who + sfmt("%s: %f %f %f %s", nm[t], d[3] * 0.005, d[4] * 0.005, d[5] * 0.005, r)); else say(who + sfmt("Test %d: actual 0x%X min 0x%X max 0x%X %s", t, d[3], d[4], d[5], r));
	}
	void basics() {
		info(1, 2); info(2, 3); info(5, 3); info(6, 3); info(8, 2); info(9, 3);
		for (auto &e : x.ecu) for (int i = 0; i < 256; i++) { x.m1[i] |= e.second.info[1][i]; x.m5[i] |= e.second.info[5][i]; }
		getdtcs(); getdata(false); bool mon = false; int n = 0;
		for (u8 s : x.order) {
			auto &e = x.ecu[s]; auto i = e.d2.find(2); if (i != e.d2.end() && i->second.size() >= 5 && (i->second[3] | i->second[4])) say(sfmt("ECU %d Freezeframe data exists, caused by DTC ", n) + dtc(i->second[3], i->second[4]));
			i = e.d1.find(0x1c); if (i != e.d1.end() && i->second.size() > 2) { u8 v = i->second[2]; static const char *nm[] = {"", "OBD II (California ARB)", "OBD (Federal EPA)", "OBD and OBD II", "OBD I", "not OBD", "EOBD (Europe)"}; say(sfmt("ECU %d is ", n) + (v >= 1 && v <= 6 ? nm[v] : sfmt("unknown (%d)", v)) + " compliant"); }
			i = e.d1.find(1); if (i != e.d1.end() && i->second.size() > 4 && i->second[4] & 0x20) mon = true; n++;
		}
		auto v = ask({1, 0x13}); n = 0; if (!v.empty()) { for (u8 s : x.order) for (auto &a : v) if (a.src == s) { if (a.d.size() > 2) { x.o2 |= a.d[2]; n += __builtin_popcount(a.d[2]); } break; } say(sfmt("%d Oxygen (O2) sensors in vehicle", n)); }
		if (!mon) say("Oxygen (O2) sensor monitoring not supported"); else if (!x.m5[0]) say("Oxygen (O2) sensor tests not supported");
		else for (int s = 0; s < 8; s++) if (x.o2 >> s & 1) for (int t = 1; t < 32; t++) if (x.m5[t]) { ask({5, (u8)t, (u8)(1 << s)}); for (auto &a : raw) { int k = std::find(x.order.begin(), x.order.end(), a.src) - x.order.begin(); std::string who = x.order.size() > 1 ? sfmt("ECU %d ", k) : ""; if (a.d.size() >= 3 && a.d[0] == 0x7F) say(who + sfmt("Test 0x%02X failed %d", a.d[1], a.d[2])); else if (good(a, {5, (u8)t})) o2test(a.d, who); } }
	}
	void run() { basics(); cms(); ncms(false); }
};
}
