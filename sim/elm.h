#pragma once
#include "kline.h"
#include <memory>
// Reference model of an ELM323/ELM327 adapter with ECUs behind it.
struct ElmRsp { Bytes f; u64 d = 30 * MS; std::string text; };    // a frame as on the vehicle bus (header, data, checksum), d after the previous event; or a literal line
struct Elm : Peer {
	bool is327 = true, clone = false; std::string ver = "1.4b"; unsigned baud = 38400;
	u64 st = 200 * MS, tcmd = 8 * MS, treset = 800 * MS;          // AT ST time, command processing time, reset time
	bool lf_default = false, spaces_end = true;
	// state
	bool E = true, L = false, H = false, M = true, AL = false, KW = true, inited = false; int tp = 0; Bytes hdr; int sr = -1; u8 iia = 0x33; Bytes wm; u8 kb1 = 8, kb2 = 8;
	std::string in; bool busy = false, obd = false; u64 gen = 0; u64 txend = 0; u64 sched_end = 0;
	std::vector<std::string> cmds; std::vector<Bytes> reqs; std::vector<Bytes> reqhdr;   // what it was given
	int early = 0; std::vector<std::string> bad_cmds; int resets = 0, prompts = 0, ninit = 0;
	std::function<std::vector<ElmRsp>(const Bytes &hdr, const Bytes &data)> request;
	std::function<bool(bool fast)> businit;                       // result of a bus initialisation
	std::function<void(const Bytes &)> session_msg;
	std::set<std::string> refuse;                                 // commands answered with "?"
	void power() { E = true; L = lf_default; H = false; M = true; AL = false; KW = true; inited = false; hdr.clear(); sr = -1; iia = 0x33; wm.clear(); tp = 0; }
	u64 ct() const { return 10 * SEC / baud; }
	// characters towards the host, from t on; returns the end
	u64 put(const std::string &s, u64 t, bool fl = true) {
		u64 g = gen; bool skip = false;
		if (t < txend) t = txend;
		for (char c : s) {
			if (fl) {
				if (fault("f.elm.drop")) skip = true;
				if (u32 f = fault("f.elm.flip", 8)) c ^= 1 << (f - 1);
				if (fault("f.elm.nul")) { t += ct(); raw(0, t, g); }
				if (fault("f.elm.stall")) t += 150 * MS;
				if (u32 f = fault("f.elm.flood", 4)) { Prng p(t / 1000); static const char *al[] = {"41 0\r", "0123456789ABCDEF ", "\r\n ", "A"}; const char *a = al[f]; size_t n = strlen(a); for (u32 i = 0; i < f * f * 700; i++) { t += ct(); raw(a[p.below(n)], t, g); } }
			}
			if (c == '\r' && L) { t += ct(); if (!skip) raw('\r', t, g); c = '\n'; }
			t += ct(); if (!skip) raw(c, t, g); skip = false;
		}
		txend = t; sched_end = std::max(sched_end, t);
		return t;
	}
	void raw(char c, u64 t, u64 g) { at(t, [this, c, g]() { if (g != gen) return; if (tty->baud() * 100ull > baud * 104ull || tty->baud() * 104ull < baud * 100ull) tty->deliver_now((u8)(c * 5 + 0x81)); else tty->deliver_now((u8)c); }); }
	u64 prompt(u64 t) {
		u64 g = gen; if (fault("f.elm.noprompt")) { at(t, [this, g]() { if (g == gen) { busy = obd = false; in.clear(); } }); return t; }
		t = put("\r>", t); at(t, [this, g]() { if (g == gen) { busy = obd = false; prompts++; in.clear(); } }); return t;
	}
	u64 reply(const std::string &s, u64 d) {
		u64 t = now() + d;
		if (u32 f = fault("f.elm.slow", 5)) t += f * f * 90 * MS;
		if (fault("f.elm.silent")) { u64 g = gen; at(t, [this, g]() { if (g == gen) busy = obd = false; }); return t; }
		std::string x = s;
		if (fault("f.elm.garbage")) { Prng p(t / 1000); x.clear(); u32 n = p.below(60); for (u32 i = 0; i < n; i++) x += (char)p.byte(); x += "\r"; }
		else if (u32 f = fault("f.elm.err", 17)) { static const char *er[] = {"BUS BUSY", "FB ERROR", "DATA ERROR", "<DATA ERROR", "NO DATA", "?", "ACT ALERT", "BUFFER FULL", "BUS ERROR", "CAN ERROR", "LP ALERT", "LV RESET", "<RX ERROR", "STOPPED", "UNABLE TO CONNECT", "ERR94"}; x = std::string(er[f - 1]) + "\r"; }
		return prompt(put(x, t));
	}
	void brk(bool) override {}
	void opened() override {}
	void tx_byte(u8 b, u64 t0, u64 t1, unsigned bd) override {
		(void)t0; (void)t1;
		u64 d = bd > baud ? bd - baud : baud - bd; if (d * 100 > baud * 4ull) { b = b * 7 + 0x5b; if (b == '\r' || b == '\n') b ^= 0x80; }
		if (busy) {
			early++; ev("elm: character while busy");
			if (obd) { gen++; obd = false; txend = now(); at(now() + 6 * MS, [this, g = gen]() { if (g == gen) prompt(put("STOPPED\r", now())); }); }
			return;
		}
		if (fault("f.elm.rxdrop")) return;
		if (E) put(std::string(1, (char)b), now(), false);
		if (b == '\r') { std::string c; for (char x : in) if (x != ' ' && x) c += (x >= 'a' && x <= 'z') ? x - 32 : x; in.clear(); busy = true; command(c); }
		else in += (char)b;
	}
	static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
	static bool parse(const std::string &s, Bytes &o) { o.clear(); if (s.empty() || s.size() % 2) return false; for (size_t i = 0; i < s.size(); i += 2) { int a = hv(s[i]), b = hv(s[i + 1]); if (a < 0 || b < 0) return false; o.push_back(a * 16 + b); } return true; }
	std::string line(const Bytes &f) const { std::string r; size_t a = H ? 0 : std::min<size_t>(3, f.size()), e = H ? f.size() : f.size() - std::min<size_t>(1, f.size()); char t[8]; for (size_t i = a; i < e; i++) { snprintf(t, sizeof t, "%02X", f[i]); r += t; if (i + 1 < e || spaces_end) r += ' '; } return r + "\r"; }
	void command(const std::string &c) {
		ev("elm command %s", c.c_str()); cmds.push_back(c); cmd_at.push_back(tty->rx_log.size());
		std::string banner = std::string(is327 ? "ELM327 v" : "ELM323 v") + ver + "\r";
		Bytes x;
		auto arg = [&](const char *p) { size_t n = strlen(p); return c.compare(0, n, p) == 0 && parse(c.substr(n), x); };
		auto is = [&](const char *p) { return c == p; };
		if (c.empty()) { reply("", 1 * MS); return; }
		if (refuse.count(c.substr(0, 4)) || refuse.count(c)) { reply("?\r", tcmd); return; }
		if (is("ATZ")) { power(); resets++; bad_cmds.clear(); std::string s = "\r" + banner; gen++; txend = now(); in.clear(); reply(s, treset); return; }
		if (is("ATI")) { reply(banner, tcmd); return; }
		bool ok = true, bad = false;
		if (is("ATE0")) E = false; else if (is("ATE1")) E = true; else if (is("ATL0")) L = false; else if (is("ATL1")) L = true;
		else if (is("ATH1")) H = true; else if (is("ATH0")) H = false; else if (is("ATM0") && is327) M = false; else if (is("ATM1") && is327) M = true;
		else if (is327 && c.size() == 5 && c.compare(0, 4, "ATTP") == 0 && hv(c[4]) >= 0) { tp = hv(c[4]); inited = false; }
		else if (arg("ATSH") && x.size() == 3) hdr = x; else if (is327 && arg("ATSR") && x.size() == 1) sr = x[0];
		else if (is327 && arg("ATWM") && x.size() >= 1 && x.size() <= 6) wm = x;
		else if (is327 && arg("ATIIA") && x.size() == 1) iia = x[0];
		else if (is327 && is("ATKW0")) KW = false; else if (is327 && is("ATKW1")) KW = true; else if (is("ATAL")) AL = true;
		else if (is("ATPC")) inited = false;
		else if (is("ATFI") || is("ATSI")) {
			if (clone) bad = true; else {
				bool fast = c == "ATFI"; if (is327 && tp != (fast ? 5 : tp == 3 ? 3 : 4)) { bad = true; } else {
				bool r = businit ? businit(fast) : true; inited = r; if (r) ninit++;
				reply(r ? "BUS INIT: OK\r" : "BUS INIT: ERROR\r", fast ? 120 * MS : 2500 * MS); return; }
			}
		} else if (is("ATKW")) {
			if (clone) bad = true; else { char t[32]; if (inited) snprintf(t, sizeof t, "1:%02X 2:%02X\r", kb1, kb2); else snprintf(t, sizeof t, "1:-- 2:--\r"); reply(t, tcmd); return; }
		} else ok = false;
		if (ok) { reply(bad ? "?\r" : "OK\r", tcmd); return; }
		if (!parse(c, x) || x.size() > (is327 ? (AL ? 255u : 8u) : 7u)) { bad_cmds.push_back(c); cmd_at.push_back(tty->rx_log.size()); reply("?\r", tcmd); return; }
		// a request for the bus
		u64 t0 = 0; std::string pre; bool needinit = tp != 1 && tp != 2 && !inited;
		if (needinit) { bool r = businit ? businit(tp == 5 || tp == 0) : true; t0 = tp == 5 ? 150 * MS : 2600 * MS; if (!r) { reply(is327 ? "BUS INIT: ERROR\r" : "BUS INIT: ...ERROR\r", t0); return; } inited = true; ninit++; pre = "BUS INIT: OK\r"; }
		reqs.push_back(x); Bytes h = hdr;
		if (h.empty()) { if (tp == 1) h = {0x61, 0x6A, 0xF1}; else if (tp == 4 || tp == 5) h = {0xC0, 0x33, 0xF1}; else h = {0x68, 0x6A, 0xF1}; }
		if (tp == 4 || tp == 5) h[0] = (h[0] & 0xC0) | (u8)x.size();
		reqhdr.push_back(h);
		std::vector<ElmRsp> v; if (request) v = request(h, x);
		obd = true;
		u64 t = now() + t0 + 10 * MS; if (u32 f = fault("f.elm.slow", 5)) t += f * f * 90 * MS;
		if (fault("f.ecu.silent")) v.clear();
		if (!pre.empty()) t = put(pre, t);
		if (u32 f = fault("f.elm.err", 17)) { static const char *er[] = {"BUS BUSY", "FB ERROR", "DATA ERROR", "<DATA ERROR", "NO DATA", "?", "ACT ALERT", "BUFFER FULL", "BUS ERROR", "CAN ERROR", "LP ALERT", "LV RESET", "<RX ERROR", "STOPPED", "UNABLE TO CONNECT", "ERR94"}; ElmRsp e; e.text = er[f - 1]; size_t k = vary(t, v.size() + 1); v.resize(k); v.push_back(e); }
		if (fault("f.elm.silent")) { obd = busy = false; return; }
		if (v.empty()) { prompt(put("NO DATA\r", t + st)); return; }
		// scheduled step by step, so that an interruption stops the rest
		bus_lines(std::make_shared<std::vector<ElmRsp>>(std::move(v)), 0, t);
	}
	void bus_lines(std::shared_ptr<std::vector<ElmRsp>> vp, size_t i, u64 t) {
		auto &v = *vp; u64 g = gen;
		if (i == v.size()) { u64 te = t + st; sched_end = std::max(sched_end, te); at(te, [this, g]() { if (g == gen) prompt(now()); }); return; }
		u64 tl = t + v[i].d; sched_end = std::max(sched_end, tl);
		at(tl, [this, g, vp, i]() { auto &v = *vp;
			if (g != gen) return;
			if (mangle_rx && v[i].text.empty()) mangle_frame(v[i].f); std::string s = v[i].text.empty() ? line(v[i].f) : v[i].text + "\r";
			if (fault("f.elm.garbage")) { Prng p(now() / 1000); s.clear(); u32 n = 1 + p.below(60); for (u32 k = 0; k < n; k++) s += (char)p.byte(); s += "\r"; }
			if (u32 f = fault("f.elm.cut", 6)) s.resize(s.size() - std::min<size_t>(f, s.size() - 1));
			if (!v[i].text.empty()) { prompt(put(s, now())); return; }
			u64 n = now(); put(s, now()); bus_lines(vp, i + 1, n);      // it keeps listening while it prints
		});
	}
	void settle(u64 t) { int n = 0; do { if (sched_end > now()) idle(sched_end - now()); idle(t); } while ((sched_end > now() || busy) && ++n < 60); }
	// the lines that reached the host since mark which are entirely hexadecimal
	size_t mark() const { return tty->rx_log.size(); }
	// (a line during which a command was sent may have lost its beginning: the driver discards what it finds before sending)
	std::vector<size_t> cmd_at;
	static bool hexline(const std::string &cur, Bytes &b) {
		std::string s; auto l = [](char y) { return y >= 'a' && y <= 'f' ? y - 32 : y; };
		for (size_t k = 0; k < cur.size();) { if (cur[k] == ' ') { k++; continue; } if (k + 1 >= cur.size() || hv(l(cur[k])) < 0 || hv(l(cur[k + 1])) < 0) return false; s += l(cur[k]); s += l(cur[k + 1]); k += 2; }
		return parse(s, b);
	}
	std::vector<Bytes> lines(size_t mk) const {
		std::vector<Bytes> r; std::string cur; auto &v = tty->rx_log; size_t ci = 0, cut = 0; Bytes b;
		for (size_t i = mk; i < v.size(); i++) {
			while (ci < cmd_at.size() && cmd_at[ci] <= i) { if (cmd_at[ci] > mk) cut = cur.size(); ci++; }
			char c = v[i].b; if (!c) continue;
			if (c == '\r' || c == '\n' || c == '>') {
				if (hexline(cur, b)) r.push_back(b);
				for (size_t k = 1; k <= cut; k++) if (hexline(cur.substr(k), b)) r.push_back(b);
				cur.clear(); cut = 0;
			} else cur += c;
		}
		return r;
	}
};
#define ELM_FAULTS "f.elm.drop", "f.elm.flip", "f.elm.nul", "f.elm.stall", "f.elm.flood", "f.elm.noprompt", "f.elm.slow", "f.elm.silent", "f.elm.garbage", "f.elm.err", "f.elm.cut", "f.elm.rxdrop", "f.ecu.silent", "f.read.eio", "f.read.eintr", "f.sel.err", "f.sel.late", "f.write.eio", "f.write.short", "f.oversleep"
