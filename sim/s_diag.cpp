// C34: settings, manual sessions, probing and watching do what the user asked for.
#include "cli.h"
#include "scan.h"
#include "kw.h"
#include "i9.h"
#include "vag.h"
#include "mb.h"
namespace {
struct Shown { unsigned src, dest; Bytes d; bool bad; };
std::vector<Shown> shown(const std::string &text) {
	std::vector<Shown> v; Shown s{0, 0, {}, false}; unsigned n, a, b; bool open = false;
	for (auto &l : split(text)) {
		size_t i = l.find("msg "); if (i == l.npos) continue; const char *p = l.c_str() + i; int k = 0;
		if (sscanf(p, "msg %u src=0x%X dest=0x%X", &n, &a, &b) == 3) { s = {a, b, {}, false}; open = true; continue; }
		if (!open || sscanf(p, "msg %u data:%n", &n, &k) != 1 || !k) continue; open = false; p += k;
		for (;;) { while (*p == ' ') p++; char *e; if (p[0] != '0') break; unsigned long x = strtoul(p, &e, 16); if (e == p) break; s.d.push_back((u8)x); p = e; }
		s.bad = strstr(p, "BAD"); v.push_back(s);
	}
	return v;
}
std::string str(const std::vector<Shown> &v) { std::string r; for (auto &x : v) r += sfmt("%02x>%02x:", x.src, x.dest) + hex(x.d) + (x.bad ? "! " : " "); return r.empty() ? "nothing" : r; }
std::string num(u32 v) { switch (rnd("v.base", 6)) { case 0: return sfmt("%u", v); case 1: return sfmt("$%x", v); case 2: return sfmt("0%o", v); case 3: return sfmt("0X%X", v); default: return sfmt("0x%02x", v); } }
std::string mixed(std::string s) { u32 w = rnd("v.case", 3); for (size_t i = 0; i < s.size(); i++) if (w == 0 || (w == 2 && i % 2)) s[i] = tolower(s[i]); else if (w == 1) s[i] = toupper(s[i]); return s; }
// what a J1979 message means: its mode by name, and every byte of it (DTCs in letters)
std::string j_text(const Bytes &d, std::string &words) {
	size_t n = d.size(); u8 m = d[0]; static const std::map<u8, std::pair<const char *, size_t>> w = {{1, {"Mode 1 PID", 2}}, {0x41, {"Mode 1 Data", 2}}, {2, {"Mode 2 PID", 3}}, {0x42, {"Mode 2.*Data", 3}}, {3, {"DTC", 1}}, {7, {"Non-Continuous Monitor", 1}}, {0x43, {"DTC", 7}}, {0x47, {"Non-Continuous Monitor.*DTC", 7}}, {4, {"Clear DTC", 1}}, {0x44, {"DTCs cleared", 1}}, {5, {"Oxygen", 3}}, {0x45, {"Oxygen", 3}}, {6, {"monitoring test request", 2}}, {0x46, {"monitoring test result", 2}}, {8, {"[Cc]ontrol of onboard", 2}}, {0x48, {"Control of onboard", 2}}, {9, {"[Vv]ehicle information", 2}}, {0x49, {"[Vv]ehicle information", 2}}};
	words = m & 0x40 ? "J1979 response.*" : "J1979 request.*"; auto i = w.find(m); std::string r; if (i == w.end() || n < i->second.second) { words += "Dump"; r += sfmt("%02X ", m); for (u8 x : d) r += sfmt("%02X ", x); return r; }
	words += i->second.first; if (m == 0x43 || m == 0x47) { for (int k = 1; k < 7; k += 2) if (d[k] || d[k + 1]) r += sfmt("%c%02X%02X ", "PCBU"[d[k] >> 6], d[k] & 0x3f, d[k + 1]); return r; }
	size_t last = m & 0x40 ? n : m == 2 || m == 5 ? 3 : m == 3 || m == 4 || m == 7 ? 1 : 2; if (m == 0x44) last = 1; for (size_t k = 1; k < last; k++) r += sfmt("%02X ", d[k]); return r;
}
std::string j_tokens(const std::string &s) { std::string r; std::regex re("0x([0-9A-Fa-f]{1,2})\\b|\\b([PCBU][0-9A-F]{4})\\b"); for (std::sregex_iterator i(s.begin(), s.end(), re), e; i != e; ++i) r += ((*i)[1].matched ? (*i)[1] : (*i)[2]).str() + " "; return r; }
// what an ISO 14230 answer means
std::string kwp_text(const Bytes &d) {
	static const std::map<u8, const char *> sid = {{0x10, "startDiagnosticSession"}, {0x11, "ecuReset"}, {0x12, "readFreezeFrameData"}, {0x13, "readDiagnosticTroubleCodes"}, {0x14, "clearDiagnosticInformation"}, {0x17, "readStatusOfDiagnosticTroubleCodes"}, {0x18, "readDiagnosticTroubleCodesByStatus"}, {0x1A, "readEcuId"}, {0x20, "stopDiagnosticSession"}, {0x21, "readDataByLocalId"}, {0x22, "readDataByCommonId"}, {0x23, "readMemoryByAddress"}, {0x25, "stopRepeatedDataTransmission"}, {0x26, "setDataRates"}, {0x27, "securityAccess"}, {0x2C, "dynamicallyDefineLocalId"}, {0x2E, "writeDataByCommonId"}, {0x2F, "inputOutputControlByCommonId"}, {0x30, "inputOutputControlByLocalId"}, {0x31, "startRoutineByLocalI[Dd]"}, {0x32, "stopRoutineByLocalI[Dd]"}, {0x33, "requestRoutineResultsByLocalId"}, {0x34, "requestDownload"}, {0x35, "requestUpload"}, {0x36, "transfer ?data"}, {0x37, "request ?transfer ?exit"}, {0x38, "startRoutineByAddress"}, {0x39, "stopRoutineByAddress"}, {0x3A, "requestRoutineResultsByAddress"}, {0x3B, "writeDataByLocalId"}, {0x3D, "writeMemoryByAddress"}, {0x3E, "testerPresent"}, {0x80, "EscCode"}, {0x81, "startCommunication"}, {0x82, "stopCommunication"}, {0x83, "accessTimingParameters"}};
	static const std::map<u8, const char *> neg = {{0x10, "generalReject"}, {0x11, "serviceNotSupported$"}, {0x12, "subFunctionNotSupported"}, {0x21, "busy.*repeatRequest"}, {0x22, "conditionsNot"}, {0x23, "routineNotComplete"}, {0x31, "requestOutOfRange"}, {0x33, "securityAccessDenied"}, {0x35, "invalidKey"}, {0x36, "exceedNumberOfAttempts"}, {0x37, "requiredTimeDelayNotExpired"}, {0x40, "downloadNotAccepted"}, {0x41, "improperDownloadType"}, {0x42, "canNotDownloadToSpecifiedAddress"}, {0x43, "canNotDownloadNumberOfBytesRequested"}, {0x50, "uploadNotAccepted"}, {0x51, "improperUploadType"}, {0x52, "canNotUploadFromSpecifiedAddress"}, {0x53, "canNotUploadNumberOfBytesRequested"}, {0x71, "transferSuspended"}, {0x72, "transferAborted"}, {0x74, "illegalAddressInBlockTransfer"}, {0x75, "illegalByteCountInBlockTransfer"}, {0x76, "illegalBlockTra"}, {0x77, "blockTransferDataChecksumError"}, {0x78, "RspPending"}, {0x79, "incorrectByteCountDuringBlockTransfer"}, {0x80, "serviceNotSupportedInActiveDiagnosticMode"}};
	auto name = [&](u8 s) { auto i = sid.find(s); return std::string(i == sid.end() ? "Unknown SID" : i->second); };
	switch (d[0]) { case 0xC1: return "StartCommunications_OK"; case 0xC2: return "StopCommunications_OK"; case 0xC3: return "AccessTimingParameters_OK"; case 0x7F: { if (d.size() < 3) return "no response code"; auto i = neg.find(d[2]); return "Error.*_" + name(d[1]) + " .*" + (i == neg.end() ? sfmt("Unknown.*0x%02X", d[2]) : std::string(i->second)); } }
	if (!(d[0] & 0x40)) return sfmt("Unknown.*0x%02X", d[0]); u8 s = d[0] & ~0x40; std::string r = "Positive.* " + name(s); if (d.size() >= 2 && (s == 0x1A || s == 0x21)) r += sfmt(".*0x%02X", d[1]); return r;
}
void chk_kwp_text(const std::string &err, const std::vector<Shown> &v) { std::vector<std::string> l; for (auto &x : split(err)) if (x.compare(0, 9, "DECODED: ") == 0) l.push_back(x.substr(9)); CHECK(!v.empty() ? !l.empty() && l.size() <= v.size() : l.empty(), "text:count", "%zu answers, %zu explained: %.400s", v.size(), l.size(), err.c_str()); for (size_t i = 0; i < l.size(); i++) { std::string w = kwp_text(v[i].d); CHECK(std::regex_search(l[i], std::regex(w)), "text:kwp", "[%s] is explained as '%s' instead of '%s'", hex(v[i].d).c_str(), l[i].c_str(), w.c_str()); } count("p.kwptext", l.size()); }
// the settings as the user knows them
struct Term {
	User u; std::string sub; std::map<std::string, std::string> c; int dbg[5] = {-7, -7, -7, -7, -7};
	void raw(const std::string &s, u64 lim = 120 * SEC) { u.p.cmd(s, lim); }
	void leave() { if (!sub.empty()) { raw("up"); sub.clear(); } }
	void cmd(const char *menu, const std::string &rest, u64 lim = 120 * SEC) {
		if (*menu && sub == menu && rnd("k.stay", 4)) { raw(rest, lim); return; }
		leave(); if (*menu && chance("k.sub", 0.15)) { raw(menu); sub = menu; raw(rest, lim); return; }
		raw(*menu ? std::string(menu) + " " + rest : rest, lim);
	}
	void must(const char *menu, const std::string &rest, const char *want = nullptr) { cmd(menu, rest); if (want && !u.p.said(want)) VIOL("cli:failed", "'%s %s' failed: %.300s %.300s", menu, rest.c_str(), u.p.out.c_str(), u.p.err.c_str()); }
	void init() { c = {{"interface", "DUMB"}, {"speed", "10400"}, {"display", "metric"}, {"testerid", "0xF1"}, {"addrtype", "functional"}, {"destaddr", "0x33"}, {"l1protocol", "ISO9141"}, {"initmode", "FAST"}}; }
	void up(Tty *t, const char *l0, int speed = 0) { init(); u.up(t, l0, speed); c["interface"] = std::string(l0) == "elm" ? "ELM" : "DUMB"; }
	static std::string line(const std::string &k, const std::string &v) {
		if (k == "speed") return "Connect speed: " + v; if (k == "display") return "display: " + v + " units"; if (k == "addrtype") return "addrtype: " + v + " addressing";
		if (k == "l1protocol") return "l1protocol: Layer 1 (H/W) protocol to use " + v; if (k == "l2protocol") return "l2protocol: Layer 2 protocol to use " + v; if (k == "initmode") return "initmode: Initmode to use with above protocol is " + v; return k + ": using " + v;
	}
	void chk1(const std::string &k) { cmd("set", k); auto v = split(u.p.out); CHECK(v.size() == 1 && squeeze(v[0]) == line(k, c[k]), "set:shown", "'%s' was set to %s, but the program says '%.200s'", k.c_str(), c[k].c_str(), u.p.out.c_str()); }
	void chk() {
		cmd("set", "show"); std::set<std::string> l; for (auto &x : split(u.p.out)) l.insert(squeeze(x));
		for (auto &x : c) { bool l0 = x.first == "dumbopts" || x.first == "elmspeed" || x.first == "port"; std::string w = l0 ? x.first + "=" + x.second : line(x.first, x.second); CHECK(l.count(w), "set:shown", "'set show' does not say '%s': %.600s", w.c_str(), u.p.out.c_str()); }
	}
	void set(const std::string &k, const std::string &v, const std::string &as) { cmd("set", (chance("k.kcase", 0.1) ? mixed(k) : k) + " " + v); if (as.empty()) return; c[k] = as; if (chance("k.chk1", 0.15)) chk1(k); }
	void setnum(const std::string &k, u32 v) { set(k, num(v), k == "speed" ? std::to_string(v) : sfmt("0x%02X", v)); }
	void setname(const std::string &k, const std::string &v) { if (k == "addrtype") set(k, v == "functional" ? rnd("k.w", 2) ? "func" : "functional" : rnd("k.w", 2) ? "phys" : "physical", v); else set(k, mixed(v), v); }
	void refused(const std::string &k, const std::string &v) { cmd("set", k + " " + v); std::string o = u.p.out + u.p.err; CHECK(std::regex_search(o, std::regex("must be|invalid|Usage|usage|No such|valid|busy|Too many", std::regex::icase)), "set:silent", "'set %s %s' was neither done nor refused: '%.200s'", k.c_str(), v.c_str(), o.c_str()); if (c.count(k) && rnd("k.chkr", 2)) chk1(k); }
	void any(bool iface) {
		static const char *l1[] = {"ISO9141", "ISO14230", "J1850-VPW", "J1850-PWM", "CAN", "RAW"}, *l2[] = {"RAW", "ISO9141", "ISO14230", "SAEJ1850", "CAN", "VAG", "MB1", "D2"}, *im[] = {"5BAUD", "FAST", "CARB"};
		static const char *bad[][2] = {{"l1protocol", "ISO9141X"}, {"l1protocol", "ISO142300"}, {"l1protocol", "J1850-VP"}, {"interface", "EL"}, {"interface", "dum"}, {"interface", "dumbx"}, {"l2protocol", "ISO14230X"}, {"l2protocol", "D"}, {"initmode", "FASTX"}, {"initmode", "CAR"}, {"destaddr", "0x100"}, {"destaddr", "256"}, {"destaddr", "-1"}, {"destaddr", "$1000"}, {"testerid", "0x100"}, {"testerid", "-5"}, {"testerid", "99999"}, {"addrtype", "foo"}, {"display", "imperial"}, {"l1protocol", "ISO"}, {"l1protocol", "VPW"}, {"l2protocol", "ISO9142"}, {"l2protocol", "ISO1423"}, {"initmode", "SLOW"}, {"initmode", "FASTER"}, {"interface", "foo"}, {"interface", "dumb elm"}, {"nonsense", "1"}, {"destaddr", "?"}, {"speed", "?"}, {"l1protocol", "?"}, {"l2protocol", "?"}, {"initmode", "?"}, {"interface", "?"}};
		u32 w = rnd("v.set", 12); switch (w) {
		case 0: setnum("destaddr", rnd("v.addr", 256)); break; case 1: setnum("testerid", rnd("v.addr", 256)); break; case 2: setnum("speed", rnd("v.speed", 4) ? 1 + rnd("v.speed2", 125000) : 10400); break;
		case 3: setname("addrtype", rnd("v.at", 2) ? "functional" : "physical"); break; case 4: setname("display", rnd("v.disp", 2) ? "english" : "metric"); break;
		case 5: setname("l1protocol", l1[rnd("v.l1", 6)]); break; case 6: setname("l2protocol", l2[rnd("v.l2", 8)]); break; case 7: setname("initmode", im[rnd("v.im", 3)]); break;
		case 8: case 9: { auto &b = bad[rnd("v.badset", 34)]; refused(b[0], b[1]); break; }
		case 10: if (!iface || c["interface"] != "DUMB") break; { u32 o = rnd("v.opts", 0x80); set("dumbopts", num(o), ""); cmd("set", "dumbopts"); unsigned x = 0; auto q = u.p.out.find(": "); if (q != std::string::npos) x = strtoul(u.p.out.c_str() + q + 2, 0, 0); CHECK(q != std::string::npos && x == o, "set:shown", "dumbopts was set to %u, shown '%.100s'", o, u.p.out.c_str()); break; }
		case 11: if (rnd("k.show", 2)) chk(); break;
		}
	}
	void level(bool all) {
		static const char *n[] = {"l0", "l1", "l2", "l3", "cli"}; static const char *v[] = {"0", "-1", "0x80", "0xff", "$83"}; std::string s = v[all ? 0 : rnd("v.dbg", 5)];
		static const int val[] = {0, -1, 0x80, 0xff, 0x83}; u32 k = 0; while (s != v[k]) k++;
		bool known = dbg[0] != -7; if (all || rnd("k.dall", 3) == 0) { for (int &d : dbg) d = val[k]; known = true; cmd("debug", "all " + s); } else { u32 i = rnd("v.dl", 5); dbg[i] = val[k]; cmd("debug", std::string(n[i]) + " " + s); CHECK(u.p.out.find(sfmt("debug is 0x%X:", (unsigned)val[k])) != std::string::npos, "debug:shown", "'debug %s %s': %.200s", n[i], s.c_str(), u.p.out.c_str()); }
		if (rnd("k.dshow", 4) == 0) { cmd("debug", "show"); unsigned g[5] = {}; sscanf(u.p.out.c_str() + std::min(u.p.out.find("L0 "), u.p.out.size()), "L0 0x%X, L1 0x%X, L2 0x%X L3 0x%X CLI 0x%X", g, g + 1, g + 2, g + 3, g + 4); if (known) for (int i = 0; i < 5; i++) CHECK(g[i] == (unsigned)dbg[i], "debug:shown", "level %s was set to %#x: %.200s", n[i], (unsigned)dbg[i], u.p.out.c_str()); }
		if (!known) for (int &d : dbg) d = -7;
	}
};
// a car with something on the line that answers the world's protocol
struct Man : Term {
	enum { KWP, I91, KW1281, MB1, OBD } w = KWP; KW kw; I9 i9; VG vg; MB mb; Rig g; Tty *t = nullptr; bool connected = false, l3 = false, l3k = false; int opts = 0; KLine *bus = nullptr; Blk vq; std::string sent; size_t mk0 = 0, lm = 0;
	void make(u32 what) {
		whole_program = true; w = decltype(w)(what); Sess *s = nullptr; u64 ch = 0;
		switch (w) {
		case KWP: kw.setup(); kw.idle1979 = false; kw.ecu.can_fast = kw.fast; kw.ecu.can_slow = !kw.fast; s = &kw.s; opts = kw.opts; ch = kw.chunk; bus = &kw.bus; break;
		case I91: i9.setup(); s = &i9.s; opts = i9.opts; ch = i9.chunk; bus = &i9.bus; break;
		case KW1281: vg.setup(); if (!vg.speed) vg.speed = 10400; s = &vg.s; opts = vg.opts; ch = vg.chunk; bus = &vg.bus; break;
		case MB1: mb.setup(); if (!mb.speed) mb.speed = 9600; s = &mb.s; opts = mb.opts; ch = mb.chunk; bus = &mb.bus; break;
		case OBD: g.make(true); if (g.elm) g.p = rnd("k.proto2", 5); g.car.make(1 + rnd("n.ecu", 3), rnd("k.small", 4)); if (!g.elm) { g.e14.addr = g.car.e[0].src; if (g.e14.addr == 0x33) g.e14.addr = g.car.e[0].src = 0x11; } g.up(); if (!g.elm && (g.p == FAST || g.p == SLOW) && !g.e14.long_ok()) g.e14.kb1 = 0xEF; g.vary_live = rnd("k.live", 2); t = g.S().t; if (!g.elm) bus = &g.bus; break;
		}
		if ((w == I91 || (w == KWP && !(opts & 0x20))) && rnd("k.otherbaud", 3) == 0) { static const unsigned sp[] = {9600, 9800, 10000, 11000, 12000}; (w == KWP ? kw.ecu.baud : i9.ecu.baud) = sp[rnd("v.baud", 5)]; }
		if (w != OBD) { if (s->add("DUMB", "/dev/ttyS0", bus, opts)) VIOL("setup", "creating the port failed"); s->t->rx_chunk = ch; t = s->t; }
		bool elm = w == OBD && g.elm; up(t, elm ? "elm" : "dumb", elm ? g.k.e.baud : 0); if (w != OBD) { u.must("set dumbopts " + num(opts)); }
	}
	// what has to be set, in any order, and what was set before
	std::vector<std::function<void()>> need() {
		std::vector<std::function<void()>> v; auto nm = [&](const char *k, std::string s) { v.push_back([=]() { setname(k, s); }); }; auto nu = [&](const char *k, u32 x) { v.push_back([=]() { setnum(k, x); }); };
		switch (w) {
		case KWP: nm("l1protocol", "ISO14230"); nm("l2protocol", "ISO14230"); nm("initmode", kw.fast ? "FAST" : "5BAUD"); nm("addrtype", kw.func ? "functional" : "physical"); nu("destaddr", kw.tgt); nu("testerid", kw.src); nu("speed", baud()); break;
		case I91: nm("l1protocol", "ISO9141"); nm("l2protocol", "ISO9141"); nm("initmode", "5BAUD"); nu("destaddr", i9.ecu.addr); nu("testerid", i9.src); nu("speed", baud()); break;
		case KW1281: nm("l1protocol", "ISO9141"); nm("l2protocol", "VAG"); nm("initmode", "5BAUD"); nu("destaddr", vg.ecu.addr); nu("speed", vg.speed); break;
		case MB1: nm("l1protocol", "ISO9141"); nm("l2protocol", "MB1"); nm("initmode", "5BAUD"); nu("destaddr", mb.ecu.addr); nu("speed", mb.speed); break;
		case OBD: { static const char *l1[] = {"J1850-VPW", "J1850-PWM", "ISO14230", "ISO9141", "ISO14230"}, *l2[] = {"SAEJ1850", "SAEJ1850", "ISO14230", "ISO9141", "ISO14230"}; nm("l1protocol", l1[g.p]); nm("l2protocol", l2[g.p]); nm("initmode", g.p == FAST ? "FAST" : "5BAUD"); nm("addrtype", "functional"); nu("destaddr", g.p <= PWM ? 0x6a : 0x33); nu("testerid", 0xF1); nu("speed", 10400); break; }
		}
		return v;
	}
	void settings(bool noise) { if (noise) for (u32 k = rnd("n.noise", 4); k--;) any(false); auto v = need(); while (!v.empty()) { size_t i = rnd("v.order", (u32)v.size()); v[i](); v.erase(v.begin() + i); if (noise && chance("k.noise2", 0.1)) { static const char *k[] = {"0x100", "-1", "300"}; refused("destaddr", k[rnd("v.b", 3)]); } } if (noise && rnd("k.show2", 2)) chk(); }
	unsigned baud() const { return w == KWP ? kw.ecu.baud : w == I91 ? i9.ecu.baud : 10400; }
	size_t mark() { return w == OBD ? g.mark() : bus->mark(); }
	void settle(u64 x) { if (w == OBD) { if (g.elm) g.k.settle(x); else g.settle(x); } else bus->settle(x); }
	bool open_is(bool o) const { return (open_fds() != 0) == o; }
	// nothing is left of the connection
	void closed(const char *why) { CHECK(global_state == STATE_IDLE && !global_l2_conn && !global_l3_conn && open_fds() == 0, "manual:left", "%s: state %d, L2 %d, L3 %d, %d ports open", why, global_state, !!global_l2_conn, !!global_l3_conn, open_fds()); connected = l3 = false; }
	void connect_good() {
		mk0 = mark(); size_t b0 = bus ? bus->bus.size() : 0; cmd("diag", "connect"); if (!u.p.said("Connection to ECU established") || u.p.said("ECU failed")) VIOL("connect:failed", "connecting with the right settings failed (protocol %d): %.300s %.300s", w, u.p.out.c_str(), u.p.err.c_str());
		CHECK(global_state == STATE_CONNECTED && global_l2_conn, "connect:state", "state %d after connecting", global_state); connected = true; count("p.connect");
		bool sess = true; u8 src = 0; switch (w) { case KWP: sess = kw.ecu.st == Ecu14230::SESSION; break; case I91: sess = i9.ecu.st == Ecu9141::SESSION; break; case KW1281: sess = vg.ecu.st == Ecu1281::RECEIVING; break; case MB1: sess = mb.ecu.st == EcuMb::SESSION; break; case OBD: break; } (void)src;
		CHECK(sess, "connect:phantom", "the user was told that the connection is established, but the ECU is not in a session");
		if (w == KWP && kw.fast) { Bytes f; for (size_t i = b0; i < bus->bus.size(); i++) if (bus->bus[i].src == 0 && bus->bus[i].baud > 5000) f.push_back(bus->bus[i].b); Bytes q = {(u8)(kw.func ? 0xC1 : 0x81), kw.tgt, kw.src, 0x81}; q.push_back(cks(q)); CHECK(f == q, "connect:request", "connecting sent [%s] instead of [%s]", hex(f).c_str(), hex(q).c_str()); }
		if (w == KW1281 || w == MB1) CHECK(t->cur.ospeed == (w == MB1 ? mb.speed : vg.speed), "connect:speed", "the port runs at %u", t->cur.ospeed);
		if (w == KW1281) { if (rnd("k.ididle", 2)) idle(rnd("v.idle", 2000) * MS); cmd("diag", rnd("k.rx", 2) ? "read" : "rx 1"); auto v = shown(u.p.err); CHECK(v.size() == vg.ecu.id.size(), "read:count", "%zu identification blocks, shown %zu", vg.ecu.id.size(), v.size()); for (size_t i = 0; i < v.size(); i++) CHECK(v[i].d == vg.ecu.id[i].d, "read:data", "identification block [%s] is shown as [%s]", hex(vg.ecu.id[i].d).c_str(), hex(v[i].d).c_str()); }
	}
	std::string sr(const Bytes &q) { std::string s = rnd("k.sr", 3) ? "sendreq" : "sr"; for (u8 b : q) { std::string n = num(b); if (q.size() > 200 && n.size() > 4) n = sfmt("%u", b); s += " " + n; } return s; }
	Bytes req() {
		switch (w) { case KWP: return kw.rnd_req(kw.maxreq()); case I91: return rnd_bytes("v.req", 1 + rnd("v.reqn", 7)); case KW1281: { vq = vg.blk(120); return cat({vq.type}, vq.d); } case MB1: return mb.req(); case OBD: return j_req(g.car); } return {};
	}
	struct Want { std::vector<Shown> v; bool silent = false; };
	std::vector<Rsp> kv; std::vector<Shown> frames(const std::vector<Rsp> &v) { std::vector<Shown> r; for (auto &x : v) { Bytes f = kw.ecu.frame(x); bool ad = f[0] & 0x80; r.push_back({ad ? f[2] : 0u, ad ? f[1] : 0u, x.d, false}); } return r; }
	Want plan(const Bytes &q) {
		Want r; bool mute = w != OBD && w != KW1281 && chance("k.mute", 0.1);
		switch (w) {
		case KWP: { kw.ecu.plan.clear(); if (mute) { r.silent = true; break; } auto v = rnd_rsps(kw, q, true); if (chance("k.neg", 0.15)) { static const u8 nc[] = {0x10, 0x11, 0x12, 0x22, 0x31, 0x33, 0x00, 0x80}; v.resize(1); v[0].d = {0x7F, q[0], nc[rnd("v.nc", 8)]}; } kw.ecu.plan.push_back(v); kv = v; break; }
		case I91: { i9.ecu.plan.clear(); if (mute) { r.silent = true; break; } auto v = i9.rsps(5); i9.ecu.plan.push_back(v); for (auto &x : v) r.v.push_back({x.src, 0xF1, x.d, false}); break; }
		case KW1281: { Plan1281 p; p.tele = vg.tele(5); vg.ecu.plan.clear(); vg.ecu.plan.push_back(p); for (auto &x : p.tele) r.v.push_back({0, 0, x.d, false}); if (p.tele.empty()) r.v.push_back({0, 0, {}, false}); break; }
		case MB1: { mb.ecu.plan.clear(); if (mute) { r.silent = true; break; } RspMb p = mb.rsp(); if (p.p2 > 250 * MS) p.p2 = 250 * MS; mb.ecu.plan.push_back(p); r.v.push_back({0, 0, p.d, false}); break; }
		case OBD: lm = g.got.size(); break;
		}
		return r;
	}
	void good() {
		Bytes q = req(); Want x = plan(q); size_t b0 = bus ? bus->bus.size() : 0; bool wasl3 = l3;
		cmd("diag", sr(q)); const std::string &o = wasl3 ? u.p.out : u.p.err; auto v = shown(o);
		if (w == OBD) { size_t k = lm, n = 0; for (size_t i = lm; i < g.got.size(); i++) if (g.got[i] == q) { if (!n) k = i; n++; } else CHECK(g.got[i] == Bytes({1, 0}), "sendreq:other", "request [%s] was sent for 'sendreq %s'", hex(g.got[i]).c_str(), hex(q).c_str()); CHECK(n >= 1 && (n == 1 || q == Bytes({1, 0})), "sendreq:sent", "[%s] was sent %zu times", hex(q).c_str(), n); for (auto &a : g.ans[k]) x.v.push_back({a.src, 0, a.d, false}); x.silent = x.v.empty(); }
		else {
			Bytes want; switch (w) { case I91: want = cat({0x68, 0x6A, i9.src}, q); break; case KWP: want = q; break; default: break; }
			if (!want.empty()) { bool ok = false; for (auto &f : bus->tester_frames(b0, 25 * MS)) { Bytes y(f.b.begin(), f.b.end() - 1); if (w == I91) ok |= y == want && cks(y) == f.b.back(); else if (y.size() > q.size() && std::equal(q.begin(), q.end(), y.end() - q.size()) && cks(y) == f.b.back()) { bool ad = y[0] & 0x80; ok = true; if (ad) CHECK(y[1] == kw.tgt && y[2] == kw.src && (y[0] & 0xC0) == (kw.func ? 0xC0 : 0x80), "sendreq:address", "request from %02x to %02x sent as [%s]", kw.src, kw.tgt, hex(f.b).c_str()); } } CHECK(ok, "sendreq:sent", "'sendreq %s' did not send that", hex(q).c_str()); }
			if (w == KW1281) CHECK(!vg.ecu.got.empty() && vg.ecu.got.back().type == vq.type && vg.ecu.got.back().d == vq.d, "sendreq:sent", "'sendreq %s' arrived as %02x [%s]", hex(q).c_str(), vg.ecu.got.empty() ? 0 : vg.ecu.got.back().type, vg.ecu.got.empty() ? "" : hex(vg.ecu.got.back().d).c_str());
			if (w == MB1) { CHECK(!mb.ecu.got.empty(), "sendreq:sent", "nothing was sent"); Bytes seen = {mb.ecu.got.back().b[1]}; seen.insert(seen.end(), mb.ecu.got.back().b.begin() + 3, mb.ecu.got.back().b.end() - 2); CHECK(seen == q, "sendreq:sent", "'sendreq %s' arrived as [%s]", hex(q).c_str(), hex(seen).c_str()); }
		}
		if (w == KWP && !x.silent) x.v = frames(kv);
		bool said_none = std::regex_search(u.p.out, std::regex("No data received|failed error"));
		if (x.silent) { CHECK(v.empty() && said_none, "sendreq:silent", "the ECU did not answer, shown [%s] '%.200s'", str(v).c_str(), u.p.out.c_str()); oracle(); return; }
		CHECK(!said_none, "sendreq:told", "the ECU answered %zu messages, but: %.200s", x.v.size(), u.p.out.c_str());
		CHECK(v.size() == x.v.size(), "sendreq:count", "the ECU answered [%s], shown is [%s]", str(x.v).c_str(), str(v).c_str());
		for (size_t i = 0; i < v.size(); i++) { CHECK(v[i].d == x.v[i].d && !v[i].bad, "sendreq:data", "the ECU answered [%s], shown is [%s]", str(x.v).c_str(), str(v).c_str()); if (w == KWP || w == I91) CHECK(v[i].src == x.v[i].src && v[i].dest == x.v[i].dest, "sendreq:from", "answer [%s] is shown as [%s]", str(x.v).c_str(), str(v).c_str()); if (w == OBD && x.v[i].src) CHECK(v[i].src == x.v[i].src || (!g.elm && (g.p == FAST || g.p == SLOW) && !g.e14.long_ok()), "sendreq:from", "answer [%s] is shown as [%s]", str(x.v).c_str(), str(v).c_str()); }
		if (wasl3 && l3k) chk_kwp_text(u.p.err, v);
		oracle(v.size()); count("p.sendreq");
	}
	void read() {
		u32 wt = rnd("v.wait", 2); std::vector<Shown> x; u64 t0 = now(); bool some = wt && rnd("k.some", 3);
		if (some && w == KWP) { auto v = rnd_rsps(kw, {0x21}, true); u64 d = (300 + rnd("v.when", 500)) * MS; kv = v; after(d, [this, v]() { kw.ecu.answer(v, now()); }); }
		else if (some && w == I91) { auto v = i9.rsps(4); u64 d = (300 + rnd("v.when", 500)) * MS; for (auto &r : v) x.push_back({r.src, 0xF1, r.d, false}); after(d, [this, v]() { i9.ecu.answer(v, now()); }); }
		else some = false;
		std::string c = rnd("k.rx", 2) ? "read" : "rx"; if (wt || rnd("k.nowait", 2)) c += " " + std::to_string(wt); cmd("diag", c); if (some && w == KWP) x = frames(kv); auto v = shown(l3 ? u.p.out : u.p.err); if (l3 && l3k) chk_kwp_text(u.p.err, v);
		CHECK(v.size() == x.size(), "read:count", "the ECU sent [%s], 'read' shows [%s]", str(x).c_str(), str(v).c_str()); for (size_t i = 0; i < v.size(); i++) CHECK(v[i].d == x[i].d && v[i].src == x[i].src && v[i].dest == x[i].dest && !v[i].bad, "read:data", "the ECU sent [%s], 'read' shows [%s]", str(x).c_str(), str(v).c_str());
		if (!some) CHECK(now() - t0 >= wt * SEC, "read:early", "'%s' ended after %.3f s", c.c_str(), (now() - t0) / 1e9); CHECK(now() - t0 <= wt * SEC + 60 * SEC, "read:long", "'%s' took %.3f s", c.c_str(), (now() - t0) / 1e9); count("p.read"); idle(700 * MS);      // a keep-alive that was held up
	}
	void addl3() {
		static const char *pr[] = {"SAEJ1979", "ISO14230"}; const char *p = pr[rnd("v.l3", 4) == 0]; if (w == KWP) p = pr[1]; else if (!strcmp(p, "ISO14230") && g.p != FAST && g.p != SLOW) p = pr[0]; l3k = !strcmp(p, "ISO14230");
		if (rnd("k.l3bad", 4) == 0) { static const char *b[] = {"SAEJ197", "ISO1423", "VA", "iso142300", "saej", "ISO9141"}; cmd("diag", std::string("addl3 ") + b[rnd("v.l3bad", 6)]); CHECK(!u.p.said("Done") && global_state == STATE_CONNECTED && !global_l3_conn, "addl3:unknown", "an unknown protocol was added: %.200s", u.p.out.c_str()); }
		cmd("diag", std::string("addl3 ") + mixed(p)); if (!u.p.said("Done")) VIOL("addl3:failed", "adding %s failed: %.200s %.200s", p, u.p.out.c_str(), u.p.err.c_str()); CHECK(global_state == STATE_L3ADDED && global_l3_conn, "addl3:state", "state %d", global_state); l3 = true;
		if (rnd("k.twice", 3) == 0) { must("diag", "addl3 saej1979", "already"); }
	}
	// a long wait: what comes within it is shown; nothing is known about the session afterwards
	void longread() {
		static const u32 ws[] = {3, 6, 7, 12, 60, 400, 900}; u32 wt = ws[rnd("v.lwait", 7)]; if (rnd("k.badwait", 4) == 0) { static const char *b[] = {"read 3601", "read -1", "rx 100000", "read -3600"}; u64 t = now(); must("diag", b[rnd("v.bw", 4)], "must be|Usage"); CHECK(now() - t < SEC, "read:long", "a refused read took %.3f s", (now() - t) / 1e9); }
		bool some = rnd("k.some", 3); u64 t0 = now(), d = (300 + rnd("v.whenl", wt * 1000 - 600)) * MS; std::vector<Shown> x; if (some && w == KWP) { auto v = rnd_rsps(kw, {0x21}, true); kv = v; after(d, [this, v]() { kw.ecu.answer(v, now()); }); } else if (some) { auto v = i9.rsps(4); for (auto &r : v) x.push_back({r.src, 0xF1, r.d, false}); after(d, [this, v]() { i9.ecu.answer(v, now()); }); }
		cmd("diag", std::string(rnd("k.rx", 2) ? "read " : "rx ") + std::to_string(wt), (wt + 60) * SEC); if (some && w == KWP) x = frames(kv); auto v = shown(l3 ? u.p.out : u.p.err);
		CHECK(v.size() == x.size(), "read:count", "after %.1f s of %u s the ECU sent [%s], 'read' shows [%s]", d / 1e9, wt, str(x).c_str(), str(v).c_str()); for (size_t i = 0; i < v.size(); i++) CHECK(v[i].d == x[i].d && v[i].src == x[i].src && v[i].dest == x[i].dest && !v[i].bad, "read:data", "the ECU sent [%s], 'read' shows [%s]", str(x).c_str(), str(v).c_str());
		if (!some) CHECK(now() - t0 >= wt * SEC && now() - t0 <= (wt + 5) * SEC, "read:early", "a read of %u s ended after %.3f s", wt, (now() - t0) / 1e9); else CHECK(now() - t0 >= d && now() - t0 <= d + 20 * SEC, "read:long", "a read ended %.3f s after the message began", (now() - t0 - d) / 1e9); count("p.longread"); settle(7 * SEC); cmd("diag", "disconnect", 60 * SEC); closed("after a long read and disconnecting");
	}
	void reml3() { cmd("diag", "reml3"); CHECK(global_state == STATE_CONNECTED && !global_l3_conn && global_l2_conn, "reml3:state", "state %d", global_state); l3 = false; }
	void disconnect() { int st = w == KWP ? kw.ecu.stops : 0; cmd("diag", "disconnect"); if (w == KWP && connected) CHECK(kw.ecu.stops == st + 1, "disconnect:stop", "%d stop requests", kw.ecu.stops - st); closed("after disconnecting"); }
	void unconnected() {
		static const char *c[][3] = {{"diag", "sendreq 1 0", "Not connected"}, {"diag", "read", "Not connected"}, {"diag", "read 1", "Not connected"}, {"diag", "addl3 saej1979", "Not connected"}, {"diag", "addl3 vag", "Not connected"}, {"diag", "reml3", "No active"}, {"", "ecus", "SCAN"}, {"", "monitor", "SCAN"}, {"", "cleardtc", "not connected"}, {"diag", "sr", "few"}, {"diag", "probe", "Usage|probe"}, {"diag", "addl3", "addl3"}, {"diag", "probe 0x100", "between"}, {"diag", "fastprobe 5 3", "greater"}, {"", "watch foo", "understand"}};
		auto &x = c[rnd("v.unc", 15)]; size_t b = bus ? bus->bus.size() : 0; must(x[0], x[1], x[2]); CHECK(open_fds() == 0 && (!bus || bus->bus.size() == b), "manual:unasked", "'%s' used the port", x[1]); CHECK(global_state == STATE_IDLE, "manual:state", "state %d after '%s'", global_state, x[1]);
	}
	void already() {
		static const char *c[][3] = {{"diag", "connect", "Already connected"}, {"diag", "probe 1 2", "Cannot probe"}, {"diag", "fastprobe 1 2", "Cannot probe"}, {"", "watch", "already connected"}, {"", "watch raw", "already connected"}, {"set", "interface dumb", "busy"}, {"set", "interface elm", "busy"}, {"850", "connect 0x10", "connected|onnect"}};
		auto &x = c[rnd("v.alr", 7)]; int st = global_state; auto *l2 = global_l2_conn; must(x[0], x[1], x[2]); CHECK(global_state == st && global_l2_conn == l2, "manual:state", "state %d after '%s'", global_state, x[1]);
	}
	void end() { int st = w == KWP ? kw.ecu.stops : 0; bool on = connected && w == KWP && kw.ecu.st == Ecu14230::SESSION; leave(); u.bye(rnd("k.eof", 4) ? "quit" : nullptr); if (on) CHECK(kw.ecu.stops == st + 1, "quit:stop", "the session was not ended when leaving the program (%d stop requests)", kw.ecu.stops - st); }
};
}
SCENARIO("C34", manual_exact, 2) {
	host_good(); Man m; m.make(rnd("k.world", 5)); u32 n = 1 + rnd("n.sess", 3);
	while (n--) {
		if (rnd("k.unc", 3) == 0) m.unconnected(); m.settings(true); m.settle(300 * MS); m.connect_good(); u32 k = 1 + rnd("n.cmd", 8);
		bool lng = false; while (k--) {
			if ((m.w == Man::KWP || m.w == Man::I91) && chance("k.longread", 0.04)) { m.longread(); lng = true; break; }
			u32 w = rnd("v.what", 10); if (w < 6) m.good(); else if (w == 6 && (m.w == Man::KWP || m.w == Man::I91)) m.read(); else if (w == 7) m.already(); else if (w == 8) { if (m.w == Man::OBD || m.w == Man::KWP) { if (m.l3) m.reml3(); else m.addl3(); } } else if (w == 9) { static const char *s[] = {"display", "testerid", "destaddr", "l1protocol"}; m.chk1(s[rnd("v.q", 4)]); }
			if (rnd("k.gap", 3) == 0 && m.w != Man::I91 && !(m.w == Man::OBD && m.g.p == I9141)) idle(rnd("v.gap", 7000) * MS);
		}
		if (lng) { m.settle(6 * SEC); continue; } if (!n && chance("k.quitnow", 0.2)) { m.settle(0); break; }
		m.settle(0); m.disconnect(); if (rnd("k.again", 2)) m.must("diag", "disconnect");
	}
	sample("manual sessions, world %d", m.w); m.end();
}
SCENARIO("C34", settings, 1) {
	host_good(); Man m; m.make(rnd("k.world", 5)); u32 n = 3 + rnd("n.set", 25); m.cmd("set", "l2protocol"); { auto i = m.u.p.out.rfind(' '); m.c["l2protocol"] = squeeze(m.u.p.out.substr(i + 1)); while (m.c["l2protocol"].back() == '\n') m.c["l2protocol"].pop_back(); }
	while (n--) m.any(true); if (m.w != Man::OBD) m.set("dumbopts", std::to_string(m.opts), ""); m.chk();
	// settings that do not fit: the user is told, nothing stays open
	if (rnd("k.wrong", 2)) { size_t s0 = m.w == Man::KWP ? m.kw.ecu.sessions : 0; m.settings(false); u8 a = m.w == Man::KWP ? m.kw.tgt : m.w == Man::I91 ? m.i9.ecu.addr : m.w == Man::KW1281 ? m.vg.ecu.addr : m.mb.ecu.addr; if (m.w != Man::OBD) { u8 b = a ^ (1 + rnd("v.wa", 255)); if (m.w == Man::KWP && m.kw.func && b == m.kw.ecu.addr) b = a ^ 0x11; m.setnum("destaddr", b); m.cmd("diag", "connect", 600 * SEC); CHECK(!m.u.p.said("established") && m.u.p.said("ECU failed"), "connect:told", "nobody has address %02x, but: %.200s", b, m.u.p.out.c_str()); m.closed("after failing to connect"); CHECK(m.w != Man::KWP || (size_t)m.kw.ecu.sessions == s0, "connect:other", "the session was started with another address"); if (rnd("k.carb", 2) && m.w <= Man::I91) { m.settle(6 * SEC); m.settings(false); m.setname("initmode", m.w == Man::I91 && rnd("k.cf", 2) ? "FAST" : "CARB"); size_t b = m.bus->bus.size(); m.cmd("diag", "connect", 600 * SEC); CHECK(!m.u.p.said("established") && m.u.p.said("ECU failed"), "connect:told", "a way to start that the protocol does not have, but: %.200s", m.u.p.out.c_str()); m.closed("after failing to connect"); CHECK(m.bus->bus.size() == b, "connect:other", "%zu bytes sent", m.bus->bus.size() - b); } } }
	m.settings(true); m.settle(6 * SEC); m.connect_good(); m.good(); m.chk(); m.disconnect(); sample("settings, world %d", m.w); m.end();
}
// probing: the lowest address that answers is found and connected
SCENARIO("C34", probe, 0.6) {
	host_good(); Man m; m.make(rnd("k.world2", 2)); bool fast = m.w == Man::KWP; if (fast) { m.kw.fast = true; m.kw.ecu.can_fast = true; m.kw.ecu.can_slow = false; m.kw.ecu.listen_l = false; } u8 a = fast ? m.kw.tgt : m.i9.ecu.addr; bool func = fast && m.kw.func; u32 n = 1 + rnd("n.probe", 3);
	u8 src = fast ? m.kw.src : m.i9.src;
	while (n--) {
		m.settle(6 * SEC); for (u32 k = rnd("n.noise", 4); k--;) m.any(false); m.setnum("testerid", src); m.setnum("speed", m.baud());
		u32 lo = a - std::min<u32>(a, rnd("v.lo", fast ? 7 : 4)), hi = std::min<u32>(255, a + rnd("v.hi", 6)); bool miss = rnd("k.miss", 4) == 0; if (miss) { if (a == 255) { hi = 254; lo = 252; } else { lo = a + 1; hi = std::min<u32>(255, lo + rnd("v.hi2", 3)); } } bool single = lo == hi && rnd("k.single", 2);
		if (func && (fast ? m.kw.ecu.addr : 0) >= lo && m.kw.ecu.addr <= hi && m.kw.ecu.addr != a) { lo = hi = a; miss = false; single = rnd("k.single", 2); }
		std::string c = std::string(fast ? "fastprobe " : "probe ") + num(lo); if (!single || func) c += " " + num(hi); if (func) c += rnd("k.fc", 2) ? " func" : " FUNC";
		m.cmd("diag", c, 600 * SEC); std::vector<std::pair<u32, bool>> seen; const std::string &o = m.u.p.out; std::regex re("\t0x([0-9A-F]+) ( connected !!)?"); for (std::sregex_iterator i(o.begin(), o.end(), re), e; i != e; ++i) seen.push_back({(u32)strtoul((*i)[1].str().c_str(), 0, 16), (*i)[2].matched});
		std::vector<std::pair<u32, bool>> want; for (u32 i = lo; i <= hi; i++) { want.push_back({i, i == a}); if (i == a) break; } CHECK(seen == want, "probe:found", "'%s', ECU at %02x: %.400s", c.c_str(), a, o.c_str()); oracle(want.size());
		if (miss) { CHECK(!m.u.p.said("connected !!"), "probe:phantom", "an ECU was found"); m.closed("after a probe without success"); count("p.probemiss"); continue; }
		CHECK(global_state == STATE_CONNECTED && global_l2_conn, "probe:state", "state %d", global_state); u8 k1 = fast ? m.kw.ecu.kb1 : m.i9.ecu.kb1, k2 = fast ? m.kw.ecu.kb2 : m.i9.ecu.kb2; std::string kb = sfmt(fast ? "Keybytes: 0x%X 0x%X" : "received: 0x%X 0x%X", k1, k2); CHECK(o.find(kb) != o.npos, "probe:keybytes", "'%s' is not in: %.300s", kb.c_str(), o.c_str()); m.connected = true; count("p.probe");
		m.setnum("destaddr", a); for (u32 k = rnd("n.cmd", 4); k--;) { if (rnd("k.r", 4) == 0) m.read(); else m.good(); } if (rnd("k.already", 2)) m.already(); m.disconnect();
	}
	sample("probing %s", fast ? "fast" : "5 baud"); m.end();
}
// listening: shows what is on the line and is not heard itself
namespace {
struct Listen : Term {
	KLine bus; Ecu e; Sess s; u64 chunk = 0; std::vector<Bytes> sent; std::vector<u64> at_; std::vector<std::array<unsigned, 2>> ad; bool raw = false; int l2 = 0; u64 t = 0, rx_gap = 0; bool zeros = false;
	void put(const Bytes &b, u64 gap, unsigned src, unsigned dest) { t = std::max(t, now()) + gap; t = bus.ecu_tx(&e, b, t, true); sent.push_back(b); at_.push_back(t); ad.push_back({src, dest}); }
	u8 addr() { return rnd("v.ad", 256); }
	void frame(u64 gap) {
		Bytes d = rnd_bytes("v.d", 1 + rnd("v.n", 7)), f; if (rnd("k.jmode", 4)) { d[0] = 1 + rnd("v.jm", 9) + (rnd("k.jr", 2) ? 0x40 : 0); if (rnd("k.jzero", 3) == 0) for (size_t i = 1; i < d.size(); i++) if (rnd("v.jz", 2)) d[i] = 0; }
		if (raw) { d = rnd_bytes("v.d", 1 + rnd("v.nraw", 40)); put(d, sent.empty() ? gap : rnd("v.rawgap", 120) * MS, 0, 0); return; }
		if (l2 == DIAG_L2_PROT_ISO9141) { bool q = rnd("k.req", 2); u8 a = addr(); f = q ? Bytes{0x68, 0x6A, a} : Bytes{0x48, 0x6B, a}; f = cat(f, d); f.push_back(cks(f)); put(f, gap, a, q ? 0x33 : 0xF1); return; }
		if (chance("k.long", 0.1)) d = rnd_bytes("v.dl", 1 + rnd("v.nl", 255)); bool lb = d.size() > 63 || rnd("k.lb", 4) == 0, sh = !sent.empty() && rnd("k.short", 4) == 0, fn = rnd("k.fn", 4) == 0; if (sh && lb) sh = false;
		if (zeros && rnd("k.zero", 5) == 0) { t = bus.ecu_tx(&e, {0}, std::max(t, now()) + gap, true); gap = 25 * MS + rx_gap; count("p.wakeup.seen"); }   // another tester's wake-up pulse reads as a zero
		u8 to = addr(), from = addr(); f.push_back((sh ? 0 : fn ? 0xC0 : 0x80) | (lb ? 0 : (u8)d.size())); if (!sh) { f.push_back(to); f.push_back(from); } if (lb) f.push_back((u8)d.size()); f = cat(f, d); f.push_back(cks(f)); put(f, gap, sh ? 0 : from, sh ? 0 : to);
	}
	Bytes payload(size_t i) { const Bytes &f = sent[i]; size_t h = 3; if (raw) return f; if (l2 == DIAG_L2_PROT_ISO14230) { h = f[0] & 0x80 ? 3 : 1; if (!(f[0] & 0x3f)) h++; } return Bytes(f.begin() + h, f.end() - 1); }
};
void watch_run(bool faults) {
	host_good(); whole_program = true; Listen w; w.raw = rnd("k.raw", 3) == 0; w.l2 = rnd("k.l2", 2) ? DIAG_L2_PROT_ISO9141 : DIAG_L2_PROT_ISO14230; static const u64 p1s[] = {0, 0, 3, 6, 10}; w.e.p1 = p1s[rnd("v.p1", 5)] * MS; static const u64 ch[] = {0, 0, 1 * MS, 4 * MS, 8 * MS}; u64 chunk = ch[rnd("k.chunk", 5)]; int opts = dopts[rnd("k.dopt", 20)]; w.zeros = !faults && rnd("k.zeros", 2); w.rx_gap = chunk; w.bus.add(&w.e); if (w.s.add("DUMB", "/dev/ttyS0", &w.bus, opts)) VIOL("setup", "creating the port failed"); w.s.t->rx_chunk = chunk; w.up(w.s.t, "dumb"); w.u.must("set dumbopts " + num(opts)); u32 rounds = 1 + rnd("n.round", 3);
	while (rounds--) {
		if (w.raw) { static const char *l1[] = {"ISO9141", "ISO14230", "RAW"}; w.setname("l1protocol", l1[rnd("v.l1r", 3)]); } else { w.setname("l1protocol", rnd("k.l1", 2) ? "ISO9141" : "ISO14230"); w.setname("l2protocol", w.l2 == DIAG_L2_PROT_ISO9141 ? "ISO9141" : "ISO14230"); } { static const unsigned sp[] = {10400, 10400, 9600, 4800, 19200}; w.e.baud = sp[rnd("v.wspeed", 5)]; w.setnum("speed", w.e.baud); } if (rnd("k.dest", 3) == 0) w.setnum("destaddr", rnd("v.addr", 256));
		u32 mode = w.raw ? 3 : rnd("v.mode", 3); static const char *mn[] = {"watch", "watch nodecode", "watch nol3", "watch raw"}; w.sent.clear(); w.at_.clear(); w.ad.clear(); w.t = 0; u32 n = rnd("n.traf", 12); size_t b0 = w.bus.bus.size();
		u64 enter = (200 + rnd("v.enter", 7000)) * MS, t0 = now(), first = (1200 + rnd("v.first", 3000)) * MS; int ff = faults_fired; if (faults) { swarm({"f.bus.drop", "f.bus.flip", "f.bus.dup", "f.bus.gap", "f.bus.noise", "f.bus.trunc", "f.read.eio", "f.read.eof", "f.sel.err", "f.read.eintr", "f.sel.eintr", "f.read.short"}, 0.5, 0.01, 0.3); }
		for (u32 i = 0; i < n; i++) w.frame(i ? (rnd("k.grp", 3) ? 25 * MS + chunk + rnd("v.gapn", 20) * MS : (90 + rnd("v.gapl", 900)) * MS) : first);
		w.leave(); w.u.p.cmd_until(mn[mode], enter, 60 * SEC); u64 t1 = now(); bool hit = faults_fired != ff; clear_rates(); std::string o = mode == 3 ? w.u.p.out : w.u.p.err;
		for (size_t i = b0; i < w.bus.bus.size(); i++) CHECK(w.bus.bus[i].src != 0, "watch:sent", "'%s' sent %02x", mn[mode], w.bus.bus[i].b); for (auto &x : w.bus.k) CHECK(x.t < t0, "watch:line", "'%s' changed the K line", mn[mode]);
		CHECK(global_state == STATE_IDLE && !global_l2_conn && open_fds() == 0, "manual:left", "after '%s': state %d, %d ports open", mn[mode], global_state, open_fds());
		bool started = w.u.p.said("Monitoring started"); if (!hit) CHECK(started && t1 >= t0 + enter, "watch:ended", "'%s' ended after %.3f s by itself: %.200s", mn[mode], (t1 - t0) / 1e9, w.u.p.out.c_str());
		if (started) { u64 lim = enter + (hit ? 4 : 2) * SEC; for (size_t i = 0; i < w.sent.size(); i++) if (w.at_[i] < t1) lim = std::max<u64>(lim, w.at_[i] - t0 + 2 * SEC); CHECK(t1 - t0 <= lim, "watch:enter", "'%s' ended %.3f s after ENTER was pressed", mn[mode], (t1 - t0 - enter) / 1e9); }
		auto v = shown(o);
		if (mode == 0) { size_t k = 0; for (auto &l : split(o)) if (l.find(" src=0x") != l.npos) k++; size_t done = 0; for (auto x : w.at_) if (x + 120 * MS < t0 + enter) done++; if (!hit) CHECK(k >= done && k <= w.sent.size(), "watch:count", "%zu messages on the line, %zu shown", w.sent.size(), k);
			if (!hit) { auto L = split(o); size_t j = 0; for (size_t i = 0; i + 1 < L.size(); i++) { if (L[i].find(" src=0x") == std::string::npos) continue; if (j >= w.sent.size()) break; Bytes d = w.payload(j); std::string words, tx = j_text(d, words), sh = j_tokens(L[i + 1]); bool cut = L[i + 1].size() > 200; CHECK(std::regex_search(L[i + 1], std::regex(words)) && (cut ? tx.compare(0, std::min<size_t>(sh.size(), 60), sh, 0, std::min<size_t>(sh.size(), 60)) == 0 : sh == tx), "watch:text", "[%s] is explained as '%s'", hex(d).c_str(), L[i + 1].c_str()); unsigned n, a, b; if (sscanf(L[i].c_str() + L[i].find("msg "), "msg %u src=0x%X dest=0x%X", &n, &a, &b) == 3) CHECK(a == w.ad[j][0] && (b == w.ad[j][1]), "watch:address", "message %zu [%s] is shown as from %02x to %02x", j, hex(w.sent[j]).c_str(), a, b); j++; } count("p.jtext", j); } }
		else if (mode == 3) { Bytes all, got; for (auto &x : w.sent) all = cat(all, x); for (auto &x : v) got = cat(got, x.d); if (!hit) { size_t need = 0; for (size_t i = 0; i < w.sent.size(); i++) if (w.at_[i] + 30 * MS < t0 + enter) need += w.sent[i].size(); CHECK(got.size() >= need && got.size() <= all.size() && std::equal(got.begin(), got.end(), all.begin()), "watch:raw", "on the line was [%s], shown is [%s]", hex(all).c_str(), hex(got).c_str()); } else { Bytes line; for (auto &x : w.bus.ecu_rx) line.push_back(x.b); size_t p = 0; for (u8 x : got) { while (p < line.size() && line[p] != x) p++; CHECK(p++ < line.size(), "watch:invented", "shown [%s] was not on the line", hex(got).c_str()); } } }
		else if (!hit) { size_t done = 0; for (auto x : w.at_) if (x + 120 * MS < t0 + enter) done++; CHECK(v.size() >= done && v.size() <= w.sent.size(), "watch:count", "%zu messages on the line (%zu of them before ENTER), %zu shown", w.sent.size(), done, v.size()); for (size_t i = 0; i < v.size(); i++) { CHECK(v[i].d == w.payload(i), "watch:data", "message %zu [%s] is shown as [%s]", i, hex(w.sent[i]).c_str(), hex(v[i].d).c_str()); CHECK(v[i].src == w.ad[i][0] && (v[i].dest == w.ad[i][1]), "watch:address", "message %zu [%s] is shown as from %02x to %02x", i, hex(w.sent[i]).c_str(), v[i].src, v[i].dest); } count("p.watched", v.size()); }
		oracle(v.size() + 1); w.bus.settle(300 * MS);
	}
	sample("watching"); w.leave(); w.u.bye(rnd("k.eof", 4) ? "quit" : nullptr);
}
}
SCENARIO("C34", watch_exact, 0.8) { watch_run(false); }
SCENARIO("C34", watch_faults, 0.5) { watch_run(true); }
// any order of commands, with faults: nothing is made up, nothing is left behind, and afterwards everything works
SCENARIO("C34", manual_any, 1) {
	host_good(); Man m; m.make(rnd("k.world", 5)); m.settings(true); u32 n = 4 + rnd("n.cmd", 20); bool kl = m.bus != nullptr;
	auto rates = [&]() { if (kl) swarm({"f.bus.drop", "f.bus.flip", "f.bus.dup", "f.bus.gap", "f.bus.noise", "f.bus.trunc", "f.echo.lost", "f.echo.flip", "f.echo.late", "f.ecu.silent", "f.ecu.late", "f.ecu.badcs", "f.ecu.misread", "f.open", "f.write.eio", "f.write.short", "f.write.eintr", "f.read.eio", "f.read.eof", "f.read.eintr", "f.sel.err", "f.sel.eintr", "f.io.tcsets", "f.io.flush", "f.io.mset", "f.oversleep"}, 0.35, 0.005, 0.2); else swarm({"f.elm.drop", "f.elm.cut", "f.elm.err", "f.elm.silent", "f.elm.slow", "f.elm.noprompt", "f.open", "f.write.eio", "f.write.short", "f.read.eio", "f.read.eintr", "f.sel.err", "f.sel.eintr"}, 0.35, 0.005, 0.15); };
	while (n--) {
		FaultsOff *off = nullptr; (void)off; bool f = rnd("k.faults", 2); if (f) rates(); u32 w = rnd("v.any", 16); size_t mk = m.bus ? m.bus->mark() : 0;
		switch (w) {
		case 0: case 1: case 2: case 3: { m.cmd("diag", "connect", 300 * SEC); bool e = m.u.p.said("Connection to ECU established"); CHECK(e || m.u.p.out.size() + m.u.p.err.size(), "connect:silent", "'connect' said nothing"); CHECK(!e || (global_l2_conn && global_state >= STATE_CONNECTED), "connect:state", "'%.100s', but the state is %d", m.u.p.out.c_str(), global_state); break; }
		case 4: case 5: case 6: case 7: {
			bool was = global_l2_conn != nullptr, l3 = global_state >= STATE_L3ADDED; if (global_l2_conn && !l3 && m.w != Man::OBD) m.plan(m.req()); Bytes q = m.req(); if (was && m.w != Man::OBD) m.plan(q); m.cmd("diag", m.sr(q), 600 * SEC); auto v = shown(l3 ? m.u.p.out : m.u.p.err); bool told = m.u.p.said("error|fail|not done|no data|not connected|Unable|can't");
			if (!was) { CHECK(m.u.p.said("not connected") && v.empty(), "sendreq:unconnected", "without a connection: %.200s", m.u.p.out.c_str()); break; } CHECK(told || !v.empty(), "sendreq:untold", "neither an answer nor an error was shown: %.200s %.200s", m.u.p.out.c_str(), m.u.p.err.c_str());
			if (kl && (m.w == Man::KWP || m.w == Man::I91)) { size_t p = mk; for (auto &x : v) if (!x.bad) CHECK(m.bus->arrived(p, x.d), "sendreq:invented", "shown answer [%s] was not on the line", hex(x.d).c_str()); }
			break; }
		case 8: { m.cmd("diag", rnd("k.rt", 2) ? "read" : "read 1", 300 * SEC); auto v = shown(m.u.p.err); if (kl && (m.w == Man::KWP || m.w == Man::I91)) { size_t p = 0; for (auto &x : v) if (!x.bad) CHECK(m.bus->arrived(p, x.d), "read:invented", "shown message [%s] was not on the line", hex(x.d).c_str()); } break; }
		case 9: m.cmd("diag", "addl3 saej1979", 300 * SEC); break; case 10: m.cmd("diag", "reml3", 300 * SEC); break; case 11: m.cmd("diag", "disconnect", 300 * SEC); m.closed("after disconnecting"); break;
		case 12: if (!global_l2_conn && (m.w == Man::KWP || m.w == Man::I91)) { m.cmd("diag", m.w == Man::KWP ? "fastprobe 0x10 0x11" : "probe 0x33", 300 * SEC); } break;
		case 13: { static const char *c[] = {"watch", "watch raw", "watch nol3", "monitor", "ecus", "pids", "test readiness", "cleardtc", "dumpdata", "850 connect 0x7a", "850 disconnect", "850 ping"}; u32 k = rnd("v.oth", 12); m.leave(); if (k == 11 && !kl) break; if (m.w == Man::OBD && k == 7) break; m.u.p.cmd_until(c[k], (100 + rnd("v.enter", 3000)) * MS, 600 * SEC); for (int i = 0; i < 5 && m.u.p.st == Prog::KEY; i++) m.u.p.key_enter(); if (m.u.p.said("y/n")) m.u.p.cmd("n"); break; }
		case 14: { m.level(false); m.cmd("debug", "all 0"); for (int &d : m.dbg) d = 0; break; } case 15: if (m.w == Man::OBD ? rnd("k.scan", 3) != 0 : rnd("k.scan", 3) == 0) { m.leave(); m.u.p.cmd("scan", 1200 * SEC); for (int i = 0; i < 5 && m.u.p.st == Prog::KEY; i++) m.u.p.key_enter(); } break;
		}
		if (f) clear_rates();
		CHECK((global_state == STATE_IDLE) == (global_l2_conn == nullptr), "manual:state", "state %d with%s a connection after command %u", global_state, global_l2_conn ? "" : "out", w); CHECK(global_l2_conn || open_fds() == 0, "manual:left", "nothing is connected, but %d ports are open (command %u)", open_fds(), w); CHECK(!global_l3_conn || global_l2_conn, "manual:l3", "a L3 connection without L2"); oracle();
		if (rnd("k.gap", 3) == 0) idle(rnd("v.gap", 6000) * MS);
	}
	m.leave(); m.raw("diag disconnect"); m.closed("at the end"); m.settle(6 * SEC); if (m.w == Man::OBD && m.g.elm) m.g.k.settle(SEC);
	bool ok = false; for (int i = 0; i < 3 && !ok; i++) { m.settings(false); m.settle(6 * SEC); m.cmd("diag", "connect", 300 * SEC); ok = m.u.p.said("Connection to ECU established") && global_l2_conn; if (!ok) { m.closed("after failing to connect"); } } CHECK(ok, "recover:connect", "connecting still fails after the faults have stopped: %.300s %.300s", m.u.p.out.c_str(), m.u.p.err.c_str());
	m.connected = true; if (m.w != Man::OBD || !m.g.elm) { if (m.w == Man::KW1281) m.cmd("diag", "read"); m.good(); m.good(); } m.disconnect(); sample("any commands, world %d", m.w); m.end();
}
// the same sessions of a user while one allocation after the other fails
SCENARIO("C23", oom_manual, 1) { time_limit = 10800 * SEC;
	host_good(); Man m; m.make(rnd("k.world", 5)); m.settings(true); u32 n = 4 + rnd("n.cmd", 16); bool kl = m.bus != nullptr, hits = false;
	auto armed = [&](const std::function<void()> &f) { m.leave(); Oom::arm(); f(); bool h = Oom::done(); if (h) { hits = true; count("p.oomcli"); } return h; };
	while (n--) {
		u32 w = rnd("v.any", 14);
		switch (w) {
		case 0: case 1: case 2: case 3: { bool was = global_l2_conn != nullptr; bool h = armed([&]() { m.raw("diag connect"); }); bool e = m.u.p.said("Connection to ECU established"); CHECK(!e || (global_l2_conn && global_state >= STATE_CONNECTED), "connect:state", "'%.100s', but the state is %d", m.u.p.out.c_str(), global_state); if (!e && !h) CHECK(was || hits, "connect:refused", "connecting failed without a reason: %.300s %.300s", m.u.p.out.c_str(), m.u.p.err.c_str()); CHECK(e || m.u.p.out.size() + m.u.p.err.size(), "connect:silent", "'connect' said nothing"); break; }
		case 4: case 5: case 6: case 7: {
			bool was = global_l2_conn != nullptr, l3 = global_state >= STATE_L3ADDED; Bytes q = m.req(); if (was && m.w != Man::OBD) m.plan(q); std::string c = "diag " + m.sr(q); armed([&]() { m.raw(c); }); auto v = shown(l3 ? m.u.p.out : m.u.p.err); bool told = m.u.p.said("error|fail|not done|no data|not connected|Unable|can't|alloc");
			if (!was) { CHECK(m.u.p.said("not connected") && v.empty(), "sendreq:unconnected", "without a connection: %.200s", m.u.p.out.c_str()); break; } CHECK(told || !v.empty(), "sendreq:untold", "neither an answer nor an error was shown: %.200s %.200s", m.u.p.out.c_str(), m.u.p.err.c_str());
			break; }
		case 8: armed([&]() { m.raw(rnd("k.rt", 2) ? "diag read" : "diag read 1"); }); break; case 9: armed([&]() { m.raw("diag addl3 saej1979"); }); break; case 10: armed([&]() { m.raw("diag reml3"); }); break; case 11: armed([&]() { m.raw("diag disconnect"); }); m.closed("after disconnecting"); break;
		case 12: { static const char *c[] = {"set show", "set ?", "set display english", "set l1protocol ?", "debug show", "help", "set addrtype func", "set testerid ?", "log x.log", "stoplog", "source nofile", "diag probe 0x33", "monitor", "ecus", "pids", "test readiness", "cleardtc", "850 connect 0x7a", "850 disconnect"}; u32 k = rnd("v.oth", 19); if (!kl && k == 18) break; m.leave(); Oom::arm(); m.u.p.cmd_until(c[k], (100 + rnd("v.enter", 3000)) * MS, 600 * SEC); for (int i = 0; i < 5 && m.u.p.st == Prog::KEY; i++) m.u.p.key_enter(); if (Oom::done()) { hits = true; count("p.oomcli"); } if (k == 17) hits = true; if (m.u.p.said("y/n")) m.u.p.cmd("n"); break; }
		case 13: if (rnd("k.scan", 3) == 0 || m.w == Man::OBD) { armed([&]() { m.u.p.cmd("scan", 1200 * SEC); for (int i = 0; i < 5 && m.u.p.st == Prog::KEY; i++) m.u.p.key_enter(); }); } break;
		}
		CHECK((global_state == STATE_IDLE) == (global_l2_conn == nullptr), "manual:state", "state %d with%s a connection after command %u", global_state, global_l2_conn ? "" : "out", w); CHECK(global_l2_conn || open_fds() == 0, "manual:left", "nothing is connected, but %d ports are open (command %u)", open_fds(), w); CHECK(!global_l3_conn || global_l2_conn, "manual:l3", "a L3 connection without L2"); oracle();
		if (rnd("k.gap", 3) == 0) { if (rnd("k.idle", 2)) Oom::arm(); idle(rnd("v.gap", 6000) * MS); if (Oom::done()) hits = true; }
	}
	m.leave(); m.raw("diag disconnect"); m.closed("at the end"); m.settle(6 * SEC); if (m.w == Man::OBD && m.g.elm) m.g.k.settle(SEC);
	m.settings(false); m.settle(6 * SEC); bool ok = false; for (int i = 0; i < 3 && !ok; i++) { m.settle(6 * SEC); m.cmd("diag", "connect", 300 * SEC); ok = m.u.p.said("Connection to ECU established") && global_l2_conn; } CHECK(ok, "oom:start-again", "connecting fails after an allocation had failed: %.300s %.300s", m.u.p.out.c_str(), m.u.p.err.c_str());
	m.connected = true; if (m.w != Man::OBD || !m.g.elm) { if (m.w == Man::KW1281) m.cmd("diag", "read"); m.good(); m.good(); } m.disconnect(); sample("any commands with failing allocations, world %d", m.w); m.end();
}
#include "hostile.h"
SCENARIO("C24", hostile_manual, 1) {
	host_good(); Man m; m.make(rnd("k.world", 5)); { FaultsOff f; m.settings(false); if (rnd("k.conn", 2)) m.cmd("diag", "connect"); m.leave(); } hostile_faults(rnd("k.io", 2));
	Cli c(m.u, m.w == Man::OBD ? m.g.S().t : m.t); c.base = {"diag connect", "diag sendreq 1 0", "diag sendreq 0x21 1 2 3", "diag read 1", "diag disconnect", "diag addl3 saej1979", "diag sendreq 3", "diag sendreq 9 2", "diag sendreq 0x1a 0x80"}; c.run(2 + rnd("n.cmd", 15)); sample("manual sessions with a disturbed ECU, world %d", m.w); c.bye();
}
