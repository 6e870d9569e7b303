// C27: the simulated-car interface (CARSIM) against a reference reading of its database.
#include "kline.h"
#include "kw.h"
#include <cmath>
extern "C" {
#include "diag_iso14230.h"
}
namespace {
// ---- the database, as a structure; its text is rendered from it
struct Tok { int k = 0; unsigned v = 0; };           // 0 value, 1 don't care, 2 cks1, 3 sin1, 4 swt1, 5 reqN, 6 reqN+
typedef std::vector<Tok> Resp;
struct DbEnt { std::vector<Tok> rq; std::vector<Resp> rp; };
struct Db {
	std::vector<DbEnt> e; std::vector<std::string> cfg; bool crlf = false, noeol = false; int noise = 0;
	std::string sep() { return !noise || rnd("v.sep", 4) ? " " : rnd("v.sep2", 2) ? "\t" : "  "; }
	std::string byte(u8 b) { char t[16]; static const char *f[] = {"0x%02x", "0x%02X", "%02X", "0x%x"}; snprintf(t, sizeof t, f[noise ? rnd("v.bf", 4) : 0], b); return t; }
	std::string tok(const Tok &t) { switch (t.k) { case 0: return byte((u8)t.v); case 1: return "XXXX"; case 2: return "cks1"; case 3: return "sin1"; case 4: return "swt1"; case 5: return "req" + std::to_string(t.v); default: return "req" + std::to_string(t.v) + "+"; } }
	std::string line(const char *tag, const std::vector<Tok> &l) { std::string s = tag; bool f = true; for (auto &t : l) { s += f ? " " : sep(); s += tok(t); f = false; } if (noise && !rnd("v.trail", 5)) s += rnd("v.tr", 2) ? " " : "\t"; return s; }
	std::string comment() {
		static const char *c[] = {"", "# a comment", "#RQ 0x01 0x02", "# RP 0x11 0x22", "#CFG FULLINIT", "# CFG P_CAN", "# 34567890123456789CFG FULLINIT", "# 3456789012345678CFG P_CAN", "# 345678901234567 CFG P_CAN", " RQ 0x01", "set nothing", "\t", "# 34567890123456789RQ 0x01 0x02 RP 0x03"};
		u32 i = rnd("v.com", 15); if (i < 13) return c[i]; std::string s = "# "; u32 n = i == 13 ? rnd("v.coml", 60) : 1100 + rnd("v.comll", 195); while (n--) s += (char)('a' + n % 26); return s;
	}
	Bytes text() {
		std::vector<std::string> l; for (auto &c : cfg) l.push_back("CFG " + c);
		auto nz = [&] { while (noise && !rnd("k.com", 4)) l.push_back(comment()); };
		auto cap = [&](const char *t, const std::vector<Tok> &v) { std::string x = line(t, v); if (x.size() > 1302) { int n = noise; noise = 0; x = line(t, v); noise = n; } return x; };
		nz(); for (auto &x : e) { l.push_back(cap("RQ", x.rq)); nz(); for (auto &r : x.rp) { l.push_back(cap("RP", r)); nz(); } }
		if (noise && cfg.size() && rnd("k.cfgend", 2)) { for (size_t i = 0; i < cfg.size(); i++) { l.push_back(l[0]); l.erase(l.begin()); } }
		Bytes b; for (size_t i = 0; i < l.size(); i++) { for (char c : l[i]) b.push_back((u8)c); if (i + 1 < l.size() || !noeol) { if (crlf) b.push_back('\r'); b.push_back('\n'); } } return b;
	}
	const DbEnt *find(const Bytes &q) const { for (auto &x : e) { if (q.size() < x.rq.size()) continue; bool ok = true; for (size_t i = 0; i < x.rq.size(); i++) if (x.rq[i].k == 0 && x.rq[i].v != q[i]) { ok = false; break; } if (ok) return &x; } return nullptr; }
};
// is the answer what the line says, given the request and the milliseconds during which it was made?
std::string str(const std::vector<Msg> &v) { std::string s; for (auto &m : v) s += "[" + hex(m.d) + "] "; return s.empty() ? "nothing" : s; }
std::string wrong(const Resp &r, const Bytes &q, const Bytes &a, u64 ms0, u64 ms1) {
	if (a.size() != r.size()) return "length";
	for (size_t i = 0; i < r.size(); i++) {
		u8 b = a[i];
		switch (r[i].k) {
		case 0: if (b != (u8)r[i].v) return "byte " + std::to_string(i); break;
		case 2: { u8 s = 0; for (size_t j = 0; j < i; j++) s += a[j]; if (b != s) return "checksum at " + std::to_string(i); break; }
		case 3: case 4: { bool ok = ms1 - ms0 > 400; for (u64 m = ms0; m <= ms1 && !ok; m++) { int w; if (r[i].k == 3) { w = (int)(127 * sin((m % 1000) * 6.283185307 / 1000)); for (int d = -1; d <= 1; d++) if (b == (u8)(w + d)) ok = true; } else { w = (int)(255 * (m % 1000) / 1000); if (b == (u8)w) ok = true; } } if (!ok) return (r[i].k == 3 ? "sine at " : "sawtooth at ") + std::to_string(i); break; }
		case 5: case 6: { u8 w = r[i].v >= 1 && r[i].v <= q.size() ? q[r[i].v - 1] : 0; if (r[i].k == 6) w++; if (b != w) return "request byte at " + std::to_string(i); break; }
		}
	}
	return "";
}
Tok V(u8 b) { Tok t; t.v = b; return t; }
std::vector<Tok> VL(const Bytes &b) { std::vector<Tok> l; for (u8 x : b) l.push_back(V(x)); return l; }
u32 blen() { return rnd("k.len", 5) == 1 ? 1 + rnd("v.len2", 259) : 1 + rnd("v.len", 12); }
Resp rnd_resp(size_t qn) {
	Resp r; u32 n = blen(), n0 = n; if (!rnd("k.empty", 20)) return r;
	while (n--) { Tok t; u32 k = rnd("v.tk", 12); if (k == 1) t.k = 2; else if (k == 2) t.k = 3; else if (k == 3) t.k = 4; else if (k == 4 || k == 5) { t.k = k + 1; t.v = 1 + rnd("v.rn", n0 < 150 ? (u32)qn : (u32)std::min<size_t>(qn, 9)); if (n0 >= 150) t.k = 5; } if (!t.k) t.v = rnd("v.b", 256); r.push_back(t); }
	return r;
}
Db rnd_db() {
	Db d; d.noise = rnd("k.noise", 4) != 1; d.crlf = !rnd("k.crlf", 6); d.noeol = !rnd("k.noeol", 3); int n = 1 + rnd("n.rq", 6);
	while (n--) {
		DbEnt x; u32 m = blen(); std::vector<Bytes> pre; if (d.e.size() && rnd("k.pre", 3) == 1) { x.rq = d.e[rnd("v.pre", (u32)d.e.size())].rq; if (x.rq.size() > 1 && rnd("k.prel", 2)) x.rq.back() = V(rnd("v.b", 256)); else x.rq.push_back(V(rnd("v.b", 256))); if (x.rq.size() > 260) x.rq.pop_back(); }
		else while (m--) { Tok t; if (!rnd("v.dc", 6)) t.k = 1; else t.v = rnd("v.b", rnd("k.few", 2) ? 4 : 256); x.rq.push_back(t); }
		u32 p = rnd("k.rp", 12) == 1 ? 250 + rnd("v.rpn", 20) : rnd("v.rp", 4); bool many = p > 20; while (p--) x.rp.push_back(many ? Resp{V((u8)p)} : rnd_resp(x.rq.size())); d.e.push_back(x);
	}
	return d;
}
Bytes rnd_req(const Db &d) {
	Bytes q; const DbEnt &x = d.e[rnd("v.e", (u32)d.e.size())]; for (auto &t : x.rq) q.push_back(t.k ? rnd("v.b", 256) : (u8)t.v);
	u32 k = rnd("v.rk", 8); if (k == 1) q[rnd("v.mutp", (u32)q.size())] ^= 1 << rnd("v.mutb", 8); else if (k == 2) q = rnd_bytes("v.rnd", 1 + rnd("v.rndn", 8)); else if (k == 3) { Bytes m = rnd_bytes("v.more", 1 + rnd("v.moren", 20)); q.insert(q.end(), m.begin(), m.end()); }
	if (q.size() > 260) q.resize(260);
	// a request shorter than a line that begins with it: the documentation and the program disagree, not tested
	for (auto &e : d.e) if (q.size() < e.rq.size()) { bool p = true; for (size_t i = 0; i < q.size(); i++) if (e.rq[i].k == 0 && e.rq[i].v != q[i]) p = false; if (p) for (size_t i = q.size(); i < e.rq.size(); i++) q.push_back(e.rq[i].k ? 0 : (u8)e.rq[i].v); }
	return q;
}
struct SL {
	struct diag_l0_device *d = nullptr; bool isopen = false; size_t a0 = 0; std::string path = "/sim/car.db";
	void up() { lib_up(); a0 = live_allocs(); mk(); }
	void mk() { d = diag_l0_new("CARSIM"); if (d && !set_cfg(d, "simfile", path.c_str(), 0)) { diag_l0_del(d); d = nullptr; } }
	void file(Db &db) { vfs[path].data = db.text(); vfs[path].exists = true; }
	bool open(int l1) { set_op("open"); op_deadline(now() + 5 * SEC); int rv = diag_l1_open(d, l1); op_deadline(0); isopen = rv == 0; ev("open %d", rv); return isopen; }
	void close() { if (isopen) { diag_l1_close(d); isopen = false; } }
	int send(const Bytes &q) { set_op("send"); op_deadline(now() + 5 * SEC); ev("send %s", hex(q).c_str()); Bytes c = q; int rv = diag_l1_send(d, c.data(), c.size(), rnd("v.p4", 2) * 5); op_deadline(0); ev("send -> %d", rv); return rv; }
	int recv(Bytes &o, size_t n) { set_op("recv"); std::vector<u8> b(n); op_deadline(now() + 5 * SEC); int rv = diag_l1_recv(d, b.data(), n, 1 + rnd("v.to", 300)); op_deadline(0); CHECK(rv <= (int)n && rv != 0, "recv:length", "receive of %zu bytes returned %d", n, rv); o.clear(); if (rv > 0) o.assign(b.begin(), b.begin() + rv); ev("recv -> %d %s", rv, hex(o).c_str()); return rv; }
	void down() { close(); if (d) diag_l0_del(d); d = nullptr; lib_down(); end_checks(a0); }
};
u64 ms_now() { return now() / MS; }
// read everything that is due; framed: one answer per receive
struct Reader {
	SL &s; const Db &db; bool framed; Bytes q; const DbEnt *e; size_t ri = 0; Bytes cur; u64 m0 = 0, m1 = 0; bool whole = true;
	Reader(SL &s, const Db &db, bool f) : s(s), db(db), framed(f) {}
	void request(const Bytes &r) { q = r; e = db.find(q); ri = 0; cur.clear(); }
	bool pending() const { return e && ri < e->rp.size(); }
	void done(const Bytes &a) { std::string w = wrong(e->rp[ri], q, a, m0, m1); CHECK(w.empty(), "answer:data", "request [%s], answer %zu of %zu: [%s] has a wrong %s", hex(q).c_str(), ri, e->rp.size(), hex(a).c_str(), w.c_str()); ri++; cur.clear(); count("p.answer"); }
	// a receive when ok must succeed
	void step(size_t n) {
		Bytes o; u64 t0 = diag_os_getms(); int rv = s.recv(o, n); u64 t1 = diag_os_getms();
		if (!pending()) { CHECK(rv == DIAG_ERR_TIMEOUT, "answer:extra", "request [%s]: receive returned %d [%s] although %s", hex(q).c_str(), rv, hex(o).c_str(), e ? "all answers were read" : "no answer is listed"); return; }
		if (e->rp[ri].empty()) { CHECK(rv == DIAG_ERR_TIMEOUT, "answer:empty", "an empty answer was received as %d [%s]", rv, hex(o).c_str()); ri++; return; }
		CHECK(rv > 0, "answer:missing", "request [%s]: answer %zu of %zu was not delivered (%d)", hex(q).c_str(), ri, e->rp.size(), rv);
		if (framed) { m0 = t0; m1 = t1; if (n >= e->rp[ri].size()) done(o); else { Resp sv = e->rp[ri]; Resp r = sv; r.resize(n); std::string w = wrong(r, q, o, m0, m1); CHECK(w.empty(), "answer:data", "request [%s]: the first %zu bytes [%s] of an answer have a wrong %s", hex(q).c_str(), n, hex(o).c_str(), w.c_str()); ri++; } return; }
		for (size_t oi = 0; oi < o.size(); oi++) { u8 b = o[oi]; CHECK(pending(), "answer:extra", "request [%s]: more bytes than listed", hex(q).c_str()); if (cur.empty()) { m0 = t0; m1 = t1; } cur.push_back(b); if (cur.size() == e->rp[ri].size()) { done(cur); while (pending() && e->rp[ri].empty() && oi + 1 < o.size()) ri++; } }
	}
	size_t chunk() { u32 k = rnd("v.ck", 4); return k == 0 ? 1024 : k == 1 ? 1 : k == 2 ? 260 : 1 + rnd("v.ckn", 30); }
	void all() { while (pending()) step(framed ? 260 + rnd("v.big", 3) * 300 : chunk()); step(chunk()); }
};
static const struct { const char *n; int l1; } protos[] = {{"P_9141", DIAG_L1_ISO9141}, {"P_14230", DIAG_L1_ISO14230}, {"P_J1850P", DIAG_L1_J1850_PWM}, {"P_J1850V", DIAG_L1_J1850_VPW}, {"P_RAW", DIAG_L1_RAW}};
struct Cfg { int mode = 0; bool full = false; int restr = -1; };
Cfg rnd_cfg(Db &d) { Cfg c; c.mode = rnd("k.mode", 4); static const char *mn[] = {"", "FRAMED", "NOL2CKSUM", "DATAONLY"}; d.cfg.clear(); if (c.mode) d.cfg.push_back(mn[c.mode]); if (!rnd("k.full", 4)) { c.full = true; d.cfg.push_back("FULLINIT"); } if (!rnd("k.restr", 3)) { c.restr = rnd("v.restr", 5); d.cfg.push_back(protos[c.restr].n); } return c; }
void check_flags(SL &s, const Cfg &c) {
	u32 f = diag_l1_getflags(s.d); const u32 base = DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_PREFFAST | DIAG_L1_DOESP4WAIT | DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY;
	u32 w = base; if (c.mode >= 2) w |= DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM; if (c.mode >= 1) w |= DIAG_L1_DOESL2FRAME; if (c.mode == 3) w |= DIAG_L1_NOHDRS | DIAG_L1_DATAONLY; if (c.full) w |= DIAG_L1_DOESFULLINIT;
	CHECK(f == w, "config:flags", "interface flags %x instead of %x (mode %d%s)", f, w, c.mode, c.full ? " FULLINIT" : "");
}
int initbus(SL &s, int type, u8 addr) { struct diag_l1_initbus_args in; memset(&in, 0, sizeof in); in.type = (decltype(in.type))type; in.addr = addr; set_op("initbus"); op_deadline(now() + 5 * SEC); int rv = diag_l1_ioctl(s.d, DIAG_IOCTL_INITBUS, &in); op_deadline(0); ev("initbus %d -> %d", type, rv); return rv; }
}
SCENARIO("C27", sim_exact, 2) {
	host_good(); SL s; s.up(); int files = 1 + rnd("n.files", 3);
	while (files--) {
		Db db = rnd_db(); Cfg c = rnd_cfg(db); s.file(db); int l1 = protos[rnd("v.l1", 5)].l1; if (c.restr >= 0 && rnd("k.restrok", 3)) l1 = protos[c.restr].l1;
		bool ok = c.restr < 0 || protos[c.restr].l1 == l1; CHECK(s.open(l1) == ok, "open:restrict", "open with protocol %x %s although the file is %s%s", l1, ok ? "failed" : "succeeded", c.restr < 0 ? "unrestricted" : "restricted to ", c.restr < 0 ? "" : protos[c.restr].n);
		if (!ok) { count("p.restricted"); continue; }
		check_flags(s, c); Reader r(s, db, c.mode > 0); int n = 1 + rnd("n.req", 8);
		while (n--) {
			u32 act = rnd("k.act", 8); idle(rnd("v.idle", 3000) * MS);
			if (act == 1) { // bus initialisation
				int ty = rnd("v.ity", 3); u8 ad = ty == 1 && rnd("k.adk", 2) && db.e[0].rq[0].k == 0 ? (u8)db.e[0].rq[0].v : rnd("v.addr", 256); bool sure = true; Bytes iq = {ty == 0 ? (u8)0 : ad}; for (auto &e : db.e) if (e.rq.size() > 1 && (e.rq[0].k == 1 || e.rq[0].v == iq[0])) sure = false;
				if (!sure) continue;
				int rv = initbus(s, ty == 0 ? DIAG_L1_INITBUS_FAST : ty == 1 ? DIAG_L1_INITBUS_5BAUD : 4, ad); r.request({1}); r.e = nullptr;
				if (c.full) CHECK(rv == 0, "init:full", "initialisation of an interface that does it all returned %d", rv);
				else if (ty == 2) CHECK(rv < 0, "init:type", "an unknown initialisation returned %d", rv);
				else { CHECK(rv == 0, "init:failed", "initialisation returned %d", rv); r.request(iq); if (ty == 1 && r.pending()) { // the first byte (the first answer when framed) is the synchronisation pattern
					Resp f = r.e->rp[0]; bool calc = false; for (auto &t : f) if (t.k) calc = true; if (calc) { Bytes o; s.recv(o, 1); initbus(s, DIAG_L1_INITBUS_FAST, 0); initbus(s, 4, 0); r.e = nullptr; continue; }
					if (f.empty() || c.mode > 0 || f.size() == 1) r.ri = 1; else r.cur = {(u8)f[0].v}; } }
				count("p.init"); r.all(); continue;
			}
			Bytes q = rnd_req(db); int rv = s.send(q); CHECK(rv == 0, "send:failed", "sending [%s] returned %d", hex(q).c_str(), rv); r.request(q); count(r.e ? "p.known" : "p.unknown");
			if (act == 2 && r.pending()) { int k = rnd("v.part", (u32)r.e->rp.size() + 1); while (k-- && r.pending()) r.step(r.framed ? 300 : r.chunk()); if (r.pending()) { Bytes q2 = rnd_req(db); CHECK(s.send(q2) < 0, "send:early", "a request was accepted before all answers to the previous one were read"); count("p.early"); } }
			if (act == 3 && c.mode > 0) { while (r.pending()) r.step(1 + rnd("v.small", 12)); }
			if (act == 4 && r.pending()) { s.close(); CHECK(s.open(l1), "open:again", "re-opening failed"); check_flags(s, c); r.e = nullptr; }
			if (act == 5) { Bytes big(261 + rnd("v.bign", 700), 1); if (!r.pending()) CHECK(s.send(big) < 0, "send:long", "a request of %zu bytes was accepted", big.size()); }
			r.all();
		}
		s.close();
	}
	sample("CARSIM database replayed"); s.down();
}
SCENARIO("C27", sim_faults, 1) {
	host_any(); SL s; s.up(); swarm({"f.fopen", "f.fread", "f.fread.short", "f.malloc", "f.alloc", "f.fclose"}, 0.5, 0.01, 0.4); int n = 1 + rnd("n.rounds", 6); faults_on = true;
	if (!s.d) s.mk();
	while (n--) {
		Db db; { FaultsOff fo; db = rnd_db(); } Cfg c = rnd_cfg(db); if (c.restr >= 0) { db.cfg.pop_back(); c.restr = -1; } s.file(db); if (!s.d) s.mk(); if (!s.d) continue;
		size_t f0 = faults_fired; if (!s.open(DIAG_L1_RAW)) { CHECK(faults_fired > f0, "open:failed", "open failed without any fault"); continue; }
		{ FaultsOff fo; check_flags(s, c); }
		int m = 1 + rnd("n.req", 6); Reader r(s, db, c.mode > 0);
		while (m--) {
			Bytes q = rnd_req(db); f0 = faults_fired; int rv = s.send(q); if (rv) { CHECK(rv < 0 && faults_fired > f0, "send:failed", "sending returned %d without any fault", rv); { FaultsOff fo; Bytes o; CHECK(s.recv(o, 300) == DIAG_ERR_TIMEOUT, "send:remains", "an answer came to a request whose sending was reported as failed"); } continue; }
			r.request(q); bool bad = false;
			while (r.pending() && !bad) { // an answer that could not be made is reported by that receive
				f0 = faults_fired; u64 t0 = diag_os_getms(); Bytes o; bool emp = r.e->rp[r.ri].empty(); int v = s.recv(o, r.framed ? 300 : r.chunk()); u64 t1 = diag_os_getms();
				if (v < 0) { if (emp && v == DIAG_ERR_TIMEOUT) { r.ri++; continue; } CHECK(faults_fired > f0, "answer:missing", "answer %zu of %zu was not delivered (%d) without any fault", r.ri, r.e->rp.size(), v); CHECK(v != DIAG_ERR_TIMEOUT, "answer:silent", "an answer that could not be produced looks like the car's silence"); CHECK(r.cur.empty(), "answer:half", "half an answer was lost"); r.ri++; continue; }
				if (r.framed) { r.m0 = t0; r.m1 = t1; r.done(o); } else for (size_t oi = 0; oi < o.size(); oi++) { u8 b = o[oi]; CHECK(r.pending(), "answer:extra", "more bytes than listed"); if (r.cur.empty()) { r.m0 = t0; r.m1 = t1; } r.cur.push_back(b); if (r.cur.size() == r.e->rp[r.ri].size()) { r.done(r.cur); while (r.pending() && r.e->rp[r.ri].empty() && oi + 1 < o.size()) r.ri++; } }
			}
			{ FaultsOff fo; Bytes o; CHECK(s.recv(o, 300) == DIAG_ERR_TIMEOUT, "answer:extra", "something was received after the last answer"); }
		}
		s.close();
	}
	clear_rates(); if (!s.d) s.mk(); CHECK(s.d, "new:failed", "the interface cannot be created"); Db db = rnd_db(); db.cfg.clear(); s.file(db); CHECK(s.open(DIAG_L1_RAW), "open:recovery", "open fails after the faults stopped"); Reader r(s, db, false); for (int i = 0; i < 3; i++) { Bytes q = rnd_req(db); CHECK(s.send(q) == 0, "send:recovery", "send fails after the faults stopped"); r.request(q); r.all(); } s.down();
}
SCENARIO("C27", sim_malformed, 1) {
	host_good(); SL s; s.up(); int files = 1 + rnd("n.files", 3);
	while (files--) {
		Db db = rnd_db(); rnd_cfg(db); Bytes t = db.text(); int n = 1 + rnd("n.mut", 12); static const char *frag[] = {"RP", "RQ", "RP\n", "RQ\n", "CFG", "CFG\n", "\nRP req", "\nRP req0", "\nRP req999", "\nRP req261+", "req-1 ", "req1x ", "\nRP sin1sin1", "0x123456789ABCDEF ", "XXXX", "zz", "\n", "\r", "\nRQ XXXX\nRP 0x01\nRP\nRP \n", "\nRQ\nRP 0xAA", "\nCFG P_", "%s%n%x"};
		while (n-- && t.size()) { size_t p = rnd("v.mp", (u32)t.size()); switch (rnd("v.mk", 7)) { case 0: t[p] = rnd("v.mb", 256); break; case 1: t.erase(t.begin() + p); break; case 2: t.insert(t.begin() + p, rnd("v.mb", 256)); break; case 3: t.resize(p); break; case 4: { std::string f = frag[rnd("v.fr", 22)]; t.insert(t.begin() + p, f.begin(), f.end()); break; } case 5: { u32 l = rnd("v.ml", 3000); Bytes x; static const char *u[] = {"0x41 ", "cks1 ", "A", " "}; const char *w = u[rnd("v.mu", 4)]; while (x.size() < l) x.insert(x.end(), w, w + strlen(w)); t.insert(t.begin() + p, x.begin(), x.end()); break; } default: { size_t e = std::min(t.size(), p + 1 + rnd("v.me", 60)); t.erase(t.begin() + p, t.begin() + e); } } }
		vfs[s.path].data = t; vfs[s.path].exists = rnd("k.exists", 12) != 1; if (!vfs[s.path].exists) { CHECK(!s.open(DIAG_L1_RAW), "open:nofile", "open succeeded without a file"); vfs[s.path].exists = true; continue; }
		if (!s.open(protos[rnd("v.l1", 5)].l1)) { count("p.refused"); continue; }
		int m = 1 + rnd("n.req", 5);
		while (m--) { Bytes q = rnd_req(db); if (rnd("k.ini", 5) == 1) initbus(s, rnd("v.ity", 2) ? DIAG_L1_INITBUS_FAST : DIAG_L1_INITBUS_5BAUD, rnd("v.addr", 256)); else s.send(q); int k = 0; Bytes o; bool fr = diag_l1_getflags(s.d) & DIAG_L1_DOESL2FRAME; int to = 0; while (k++ < 3000 && to < 40) if (s.recv(o, fr || rnd("v.sz", 2) ? 260 : 1 + rnd("v.szn", 9)) < 0) to++; else to = 0; CHECK(k < 3000, "recv:endless", "answers never end"); }
		s.close();
	}
	sample("malformed CARSIM database"); s.down();
}
namespace {
u8 j1850crc(const Bytes &b) { u8 c = 0xFF; for (u8 x : b) { c ^= x; for (int i = 0; i < 8; i++) c = c & 0x80 ? (u8)((c << 1) ^ 0x1D) : (u8)(c << 1); } return (u8)~c; }
}
SCENARIO("C27", sim_session, 1) {
	// whole sessions: each protocol's messages written into the file and asked for through layer 2
	host_good(); SL s; s.up(); int n = 1 + rnd("n.sess", 3);
	while (n--) {
		Db db; db.noise = rnd("k.noise", 2); u32 p = rnd("k.proto", 5); u32 mode = rnd("k.mode", 4); bool full = false; int l1, l2; unsigned fl = 0; u8 tgt = 0x33, src = 0xF1; bool addr = rnd("k.addr", 2);
		if (p == 0) { l1 = DIAG_L1_ISO14230; l2 = DIAG_L2_PROT_ISO14230; fl = DIAG_L2_TYPE_FASTINIT; tgt = 1 + rnd("v.tgt", 254); if (mode == 3) mode = 0; }
		else if (p == 1) { l1 = DIAG_L1_ISO9141; l2 = DIAG_L2_PROT_ISO9141; full = !rnd("k.full", 4); }
		else if (p == 4) { l1 = DIAG_L1_RAW; l2 = DIAG_L2_PROT_RAW; fl = DIAG_L2_TYPE_MONINIT; mode %= 2; }
		else { l1 = p == 2 ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW; l2 = DIAG_L2_PROT_SAEJ1850; fl = DIAG_L2_TYPE_FASTINIT; tgt = rnd("k.tgt", 2) ? 0x6A : 1 + rnd("v.tgt", 254); if (!mode) mode = 1; }
		static const char *mn[] = {"", "FRAMED", "NOL2CKSUM", "DATAONLY"}; if (mode) db.cfg.push_back(mn[mode]); if (full) db.cfg.push_back("FULLINIT");
		auto E = [&](const Bytes &q, std::vector<Resp> r) { DbEnt e; e.rq = VL(q); e.rp = r; db.e.push_back(e); };
		auto msg = [&](Resp d, u8 ecu) { Resp r; bool ck = mode < 2; if (mode == 3 || p == 4) return d;
			if (p == 0) { if (addr) r = VL({(u8)(0x80 | d.size()), src, ecu}); else r = VL({(u8)d.size()}); } else if (p == 1) r = VL({0x48, 0x6B, ecu}); else r = VL({(u8)(p == 2 ? 0x41 : 0x48), 0x6B, ecu});
			r.insert(r.end(), d.begin(), d.end()); if (ck) { if (p < 2) { Tok t; t.k = 2; r.push_back(t); } else { Bytes b; for (auto &t : r) b.push_back((u8)t.v); r.push_back(V(j1850crc(b))); } } return r; };
		auto req = [&](Bytes d) { if (mode == 3 || p == 4) return d; Bytes h; if (p == 0) { if (addr) h = {(u8)(0x80 | d.size()), tgt, src}; else h = {(u8)d.size()}; } else if (p == 1) h = {0x68, 0x6A, src}; else h = {(u8)(p == 2 ? 0x61 : 0x68), tgt, src}; return cat(h, d); };
		if (p == 0) { E({0}, {}); bool a = addr; addr = true; E({0x81, tgt, src, 0x81}, {msg(VL({0xC1, (u8)(a ? 0xD9 : 0xD5), 0x8F}), tgt)}); addr = a; E(req({0x3E}), {msg(VL({0x7E}), tgt)}); }
		if (p == 1 && !full) { E({0x33}, {VL({0x55}), VL({0x08}), VL({0x08})}); E({0xF7}, {VL({0xCC})}); }
		struct Ex { Bytes q; std::vector<Resp> a; std::vector<u8> ecu; }; std::vector<Ex> ex; u32 m = 1 + rnd("n.ex", 5); u32 maxd = p == 0 ? 60 : p == 4 ? 200 : 7;
		while (m--) {
			Ex x; x.q = rnd_bytes("v.req", 1 + rnd("v.reqn", p == 4 ? 30 : p == 0 ? 62 : 7)); x.q[0] = p == 4 ? x.q[0] : (u8)(0x10 + ex.size()); if (p == 4) x.q.insert(x.q.begin(), (u8)ex.size()); u32 na = p == 1 && mode == 0 ? 1 : p == 4 ? 1 : p == 0 && mode == 2 ? 1 : 1 + rnd("v.na", 3);
			if (rnd("k.none", 8) == 1) na = 0;
			while (na--) { Resp d; u32 l = 1 + rnd("v.an", maxd); while (d.size() < l) { Tok t; t.v = rnd("v.b", 256); if (p < 2 || p == 4) { u32 k = rnd("v.tk", 14); if (k == 1) t.k = 3; else if (k == 2) t.k = 4; else if (k == 3) { t.k = 5; t.v = 1 + rnd("v.rn", (u32)req(x.q).size()); } } d.push_back(t); } if (d[0].k || d[0].v == 0x7F) { d[0].k = 0; d[0].v = 0x50; } x.a.push_back(d); x.ecu.push_back(p == 0 ? tgt : (u8)(0x10 + x.ecu.size())); }
			std::vector<Resp> r; for (size_t i = 0; i < x.a.size(); i++) r.push_back(msg(x.a[i], x.ecu[i]));
			if (p == 1 && mode == 0 && r.size() == 1 && rnd("k.split", 3) == 1) { bool c = false; for (auto &t : r[0]) if (t.k >= 3) c = true; if (!c) { Bytes b; for (auto &t : r[0]) b.push_back((u8)t.v); b.back() = cks(Bytes(b.begin(), b.end() - 1)); size_t k = 1 + rnd("v.splitp", (u32)b.size() - 1); r = {VL(Bytes(b.begin(), b.begin() + k)), VL(Bytes(b.begin() + k, b.end()))}; } }
			E(req(x.q), r); ex.push_back(x);
		}
		for (size_t i = 0; i + 1 < ex.size(); i++) {}
		s.file(db); set_op("l2_open"); CHECK(diag_l2_open(s.d, l1) == 0, "session:open", "diag_l2_open failed"); op_deadline(now() + 30 * SEC); set_op("start"); if (p == 0) fl |= rnd("k.func", 2) * 0; struct diag_l2_conn *c = diag_l2_StartCommunications(s.d, l2, fl, 10400, tgt, src); op_deadline(0); CHECK(c, "session:start", "a session over the simulated car cannot be started (protocol %u, mode %u%s)", p, mode, full ? ", full init" : "");
		int k = 1 + rnd("n.rq", 8); std::string prev;
		while (k--) {
			bool unk = rnd("k.unk", 6) == 1; Ex x; if (!unk) x = ex[rnd("v.x", (u32)ex.size())]; else { x.q = {0x6F, (u8)rnd("v.b", 256)}; }
			if (!unk) { bool amb = false; Bytes rq = req(x.q); const DbEnt *e = db.find(rq); size_t want = 0; for (size_t i = 0; i < ex.size(); i++) if (ex[i].q == x.q) { want = i; break; } if (e != &db.e[db.e.size() - ex.size() + want]) amb = true; if (amb) continue; x = ex[want]; }
			else if (db.find(req(x.q))) continue;
			u64 t0 = diag_os_getms(); ReqResult r = l2_request(c, x.q, 60 * SEC); u64 t1 = diag_os_getms();
			if (x.a.empty()) { CHECK(r.null || r.m.empty(), "session:extra", "a request without answer [%s] got %s", hex(x.q).c_str(), str(r.m).c_str()); CHECK(r.err < 0, "session:noerror", "no answer, and no error (%d)", r.err); count("p.none"); }
			else {
				CHECK(!r.null && r.err == 0, "session:failed", "request [%s] failed with %d (protocol %u mode %u, %zu answers listed)", hex(x.q).c_str(), r.err, p, mode, x.a.size()); CHECK(r.m.size() == x.a.size() || p == 0, "session:count", "request [%s]: %zu answers listed, %zu delivered (protocol %u mode %u): %s", hex(x.q).c_str(), x.a.size(), r.m.size(), p, mode, str(r.m).c_str()); Bytes full_rq = req(x.q);
				for (size_t i = 0; i < r.m.size() && i < x.a.size(); i++) { std::string w = wrong(x.a[i], full_rq, r.m[i].d, t0, t1); CHECK(w.empty(), "session:data", "request [%s], answer %zu delivered as [%s]: wrong %s (protocol %u mode %u)", hex(x.q).c_str(), i, hex(r.m[i].d).c_str(), w.c_str(), p, mode); }
				count("p.answered");
			}
			if (rnd("k.idle", 3) == 1) idle(rnd("v.idle", 5000) * MS);
		}
		op_deadline(now() + 30 * SEC); set_op("stop"); diag_l2_StopCommunications(c); op_deadline(0); CHECK(diag_l2_close(s.d) == 0, "session:close", "closing failed");
	}
	sample("sessions over the simulated car"); s.down();
}
