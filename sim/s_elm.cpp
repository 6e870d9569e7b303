// C20: ELM adapters.  C12: J1850 (through the ELM).
#include "elm_sess.h"
namespace {
bool sel_in(const std::vector<Bytes> &l, size_t &pos, const Bytes &d) { for (; pos < l.size(); pos++) if (l[pos] == d) { pos++; return true; } return false; }
std::vector<ElmRsp> raw_lines(u32 maxn, u32 maxlen, u64 maxd) { std::vector<ElmRsp> v; u32 n = rnd("n.rsp", maxn + 1); u64 tot = 0; for (u32 i = 0; i < n; i++) { ElmRsp r; r.f = rnd_bytes("v.rsp", 1 + rnd("v.rspn", maxlen)); r.d = (2 + rnd("v.d", 60)) * MS; tot += r.d; if (tot > maxd) break; v.push_back(r); } return v; }
void raw_exchange(EL &k, bool readall) {
	Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", 8)); auto v = raw_lines(5, chance("k.long", 0.2) ? 60 : 12, 150 * MS); if (chance("k.slow1", 0.2) && v.size()) v[0].d = (200 + rnd("v.d", 300)) * MS;
	k.plan.clear(); k.plan.push_back(v); size_t g0 = k.got.size(); int rv = l2_send(k.s.conn, q, 10 * SEC); CHECK(rv == 0, "send:failed", "healthy send failed with %d", rv);
	if (!readall) { idle(rnd("v.gap", 400) * MS); return; }
	for (size_t i = 0; i < v.size(); i++) {
		auto r = l2_recv(k.s.conn, 900, 5 * SEC); CHECK(!r.null && r.m.size() == 1, "recv:failed", "line %zu of %zu: receive returned %d", i, v.size(), r.err);
		CHECK(r.m[0].d == v[i].f, "recv:data", "the adapter sent [%s], delivered [%s]", hex(v[i].f).c_str(), hex(r.m[0].d).c_str());
	}
	CHECK(k.got.size() == g0 + 1 && k.got.back() == q, "send:data", "the adapter was asked [%s] instead of [%s]", k.got.size() > g0 ? hex(k.got.back()).c_str() : "", hex(q).c_str());
	if (v.empty() || rnd("k.more", 2)) { u32 to = 50 + rnd("v.to", 500); u64 t0 = now(); auto r = l2_recv(k.s.conn, to, 5 * SEC); CHECK(r.null && r.err < 0, "recv:extra", "nothing more was sent but receive returned %d [%s]", r.err, r.m.empty() ? "" : hex(r.m[0].d).c_str()); CHECK(now() - t0 < (to + 250) * MS + k.s.t->rx_chunk * 2, "recv:slow", "receive with %u ms took %.3f s", to, (now() - t0) / 1e9); }
}
}
SCENARIO("C20", elm_raw, 1.2) {
	host_good(); EL k; k.setup(true); k.l1 = rnd("k.pwm", 2) ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW; k.up();
	int n = 1 + rnd("n.rounds", 2);
	while (n--) {
		k.open_good(); k.early(); if (!k.s.start(DIAG_L2_PROT_RAW, 0, 9600, 0x10, 0xF1)) VIOL("start:refused", "raw start failed");
		int m = 1 + rnd("n.ex", 8);
		while (m--) { raw_exchange(k, !chance("k.noread", 0.15)); k.early(); if (chance("k.gap", 0.5)) idle(rnd("v.gap", 800) * MS); }
		k.s.stop(); k.settle(); CHECK(diag_l2_close(k.s.dl0d) == 0, "close:failed", "closing failed"); k.s.l2open = false; k.early(); CHECK(k.e.bad_cmds.empty(), "elm:command", "command [%s] is unknown to the adapter", k.e.bad_cmds.empty() ? "" : k.e.bad_cmds[0].c_str());
	}
	sample("raw ELM v%s at %u", k.e.ver.c_str(), k.e.baud); k.finish();
}
SCENARIO("C20", elm_open, 1) {
	// recognition: speeds, wrong devices, refused commands
	host_good(); EL k; k.setup(false); static const int ps[] = {DIAG_L1_ISO9141, DIAG_L1_ISO14230, DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM}; k.l1 = ps[rnd("v.l1", k.e.is327 ? 4 : 2)];
	bool custom = chance("k.custom", 0.25); if (custom) { static const unsigned b[] = {57600, 19200, 230400, 4800}; k.e.baud = b[rnd("v.cbaud", 4)]; } k.up(custom);
	int n = 1 + rnd("n.rounds", 3); u64 t0;
	while (n--) {
		u32 what = rnd("v.what", 4); t0 = now();
		if (what == 0) { static const char *c[] = {"ATE0", "ATL0", "ATH1", "ATM0", "ATZ"}; std::string r = c[rnd("v.ref", k.e.is327 ? 5 : 3)]; k.e.refuse = {r}; CHECK(!k.open(), "open:accepted", "opening succeeded although the adapter refused %s", r.c_str()); k.e.refuse.clear(); }
		else if (what == 1) { bool was = k.e.is327; std::string v = k.e.ver; k.e.ver = "x\rNOT AN EL"; k.e.is327 = true; struct B : Elm {} ; (void)was;
			// a device that answers but is no ELM
			k.e.refuse = {"ATZ"}; CHECK(!k.open(), "open:accepted", "opening succeeded with a device that is no ELM"); k.e.refuse.clear(); k.e.ver = v; k.e.is327 = was; }
		else if (what == 2) { unsigned b = k.e.baud; k.e.baud = 14400; CHECK(!k.open(), "open:accepted", "opening succeeded at the wrong speed"); CHECK(now() - t0 < 6 * SEC, "open:slow", "failing took %.3f s", (now() - t0) / 1e9); k.e.baud = b; k.settle(50 * MS); }
		else if (!k.e.is327) { int l = k.l1; k.l1 = DIAG_L1_J1850_VPW; CHECK(!k.open(), "open:accepted", "an ELM323 accepted J1850"); k.l1 = l; }
		CHECK(open_fds() == 0, "open:fd", "a failed open left %d descriptors", open_fds()); k.e.in.clear(); k.settle(100 * MS); k.e.early = 0;
		k.open_good(); k.early(); diag_l2_close(k.s.dl0d); k.s.l2open = false; idle(rnd("v.gap", 500) * MS); k.early();
	}
	sample("open %s v%s at %u", k.e.is327 ? "ELM327" : "ELM323", k.e.ver.c_str(), k.e.baud); k.finish();
}
namespace {
struct Frm { Bytes d; u8 src; };
Bytes f9141(u8 src, const Bytes &d) { Bytes f = cat({0x48, 0x6B, src}, d); f.push_back(cks(f)); return f; }
Bytes f14230(u8 src, u8 dst, const Bytes &d) { Bytes f = cat({(u8)(0x80 | d.size()), dst, src}, d); f.push_back(cks(f)); return f; }
Bytes fj1850(bool pwm, u8 src, const Bytes &d) { Bytes f = cat({(u8)(pwm ? 0x41 : 0x48), (u8)0x6B, src}, d); f.push_back(j_crc(f)); return f; }
struct Proto { EL &k; int p; bool slow = true; u8 tgt = 0x33, src = 0xF1; 
	Proto(EL &k_, int p_) : k(k_), p(p_) {}
	Bytes frame(u8 esrc, const Bytes &d) { return p == DIAG_L2_PROT_ISO9141 ? f9141(esrc, d) : p == DIAG_L2_PROT_ISO14230 ? f14230(esrc, src, d) : fj1850(k.l1 == DIAG_L1_J1850_PWM, esrc, d); }
	bool start() { unsigned fl = p == DIAG_L2_PROT_ISO14230 ? (unsigned)(slow ? DIAG_L2_TYPE_SLOWINIT : DIAG_L2_TYPE_FASTINIT) | (tgt == 0x33 ? (unsigned)DIAG_L2_TYPE_FUNCADDR : 0u) : (unsigned)DIAG_L2_TYPE_SLOWINIT; op_deadline(now() + 30 * SEC); bool r = k.s.start(p, fl, 0, tgt, src); op_deadline(0); return r; }
	void start_good() {
		int i0 = k.inits; k.e.inited = false;
		if (!start()) VIOL("start:refused", "a healthy start (protocol %d, %s, target %02x) through %s v%s failed", p, slow ? "slow" : "fast", tgt, k.e.is327 ? "ELM327" : "ELM323", k.e.ver.c_str());
		if (p == DIAG_L2_PROT_SAEJ1850) return;
		CHECK(k.inits > i0 && k.e.inited, "start:phantom", "start succeeded but the bus was not initialised");
		if (k.e.is327) CHECK(k.e.tp == (p == DIAG_L2_PROT_ISO9141 ? 3 : slow ? 4 : 5), "start:protocol", "protocol %d selected", k.e.tp);
		if (p == DIAG_L2_PROT_ISO14230) CHECK(k.e.hdr == Bytes({(u8)(tgt == 0x33 ? 0xC1 : 0x81), tgt, src}), "start:header", "the header is [%s]", hex(k.e.hdr).c_str());
		if (k.e.is327 && slow) CHECK(k.e.iia == tgt, "start:address", "initialisation address %02x instead of %02x", k.e.iia, tgt);
	}
	std::vector<Frm> answers(u32 maxn) { std::vector<Frm> v; u32 n = 1 + rnd("n.rsp", maxn); for (u32 i = 0; i < n; i++) { Frm f; f.src = rnd("k.src2", 2) ? 0x10 + i : (u8)rnd("v.esrc", 256); f.d = rnd_bytes("v.rsp", 1 + rnd("v.rspn", 7)); if (f.d[0] == 0x7F) f.d[0] = 0x41; v.push_back(f); } return v; }
	std::vector<ElmRsp> lines(const std::vector<Frm> &v) { std::vector<ElmRsp> l; u64 tot = 0; for (auto &f : v) { ElmRsp r; r.f = frame(f.src, f.d); r.d = (5 + rnd("v.d", p == DIAG_L2_PROT_SAEJ1850 ? 30 : 50)) * MS; tot += r.d; l.push_back(r); } return l; }
	void good() {
		Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", 7)); auto v = answers(4); k.plan.clear(); k.plan.push_back(lines(v)); size_t g0 = k.got.size();
		auto r = l2_request(k.s.conn, q, 30 * SEC);
		CHECK(k.got.size() == g0 + 1 && k.got.back() == q, "request:data", "the adapter was asked [%s] instead of [%s]", k.got.size() > g0 ? hex(k.got.back()).c_str() : "nothing", hex(q).c_str());
		if (p == DIAG_L2_PROT_ISO9141) CHECK(k.e.reqhdr.back() == Bytes({0x68, 0x6A, src}), "request:header", "the request's header was [%s]", hex(k.e.reqhdr.back()).c_str());
		CHECK(!r.null && r.err == 0, "exchange:failed", "healthy exchange failed with %d", r.err);
		CHECK(r.m.size() == v.size(), "exchange:count", "%zu answers, %zu delivered", v.size(), r.m.size());
		for (size_t i = 0; i < v.size(); i++) CHECK(r.m[i].d == v[i].d && r.m[i].src == v[i].src && !(r.m[i].fmt & DIAG_FMT_BADCS), "exchange:data", "answer %zu [%s] from %02x delivered as [%s] from %02x (format %x)", i, hex(v[i].d).c_str(), v[i].src, hex(r.m[i].d).c_str(), r.m[i].src, r.m[i].fmt);
	}
	void sound(size_t mk, const ReqResult &r) {
		if (r.null) { CHECK(r.err < 0, "request:no-error", "no answer but the error code is %d", r.err); return; }
		auto l = k.e.lines(mk); size_t pos = 0;
		for (auto &m : r.m) {
			if (m.fmt & DIAG_FMT_BADCS) { count("p.flagged"); continue; }
			CHECK(m.d.size() > 0, "msg:empty", "an empty message was delivered");
			bool f = false; for (; pos < l.size() && !f; pos++) { auto &b = l[pos]; if (b.size() < m.d.size() + 2) continue; Bytes pay(b.begin(), b.end() - 1); u8 c = p == DIAG_L2_PROT_SAEJ1850 ? j_crc(pay) : cks(pay); if (c != b.back()) continue; f = Bytes(pay.end() - m.d.size(), pay.end()) == m.d && pay.size() - m.d.size() <= 4 && (pay.size() - m.d.size() >= 3 || p == DIAG_L2_PROT_ISO14230); }
			CHECK(f, "msg:invented", "delivered [%s] from %02x is no line with a correct checksum received since the request", hex(m.d).c_str(), m.src);
		}
	}
};
int pick_proto(EL &k) { u32 w = rnd("k.proto", k.e.is327 ? 3 : 2); if (w == 0) { k.l1 = DIAG_L1_ISO9141; return DIAG_L2_PROT_ISO9141; } if (w == 1) { k.l1 = DIAG_L1_ISO14230; return DIAG_L2_PROT_ISO14230; } k.l1 = rnd("k.pwm", 2) ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW; return DIAG_L2_PROT_SAEJ1850; }
void pick_start(EL &k, Proto &p) {
	k.bogus = true; if (p.p == DIAG_L2_PROT_ISO14230) { p.slow = rnd("k.slow", 2); if (!p.slow && chance("k.tgt", 0.5)) p.tgt = rnd("v.tgt", 256); }
	if (k.e.is327 && p.slow && p.p != DIAG_L2_PROT_SAEJ1850 && chance("k.tgt", 0.3)) p.tgt = rnd("v.tgt", 256);
	if (chance("k.src", 0.2)) p.src = rnd("v.src", 256); if (k.e.is327 && !k.e.clone && rnd("k.kb", 2)) k.e.kb1 = k.e.kb2 = 0x94;
}
void refused(Proto &P) {
	// a command the start needs is refused
	EL &k = P.k; if (P.p == DIAG_L2_PROT_SAEJ1850) return;
	std::vector<std::string> c; if (k.e.is327) c.push_back("ATTP"); if (P.p == DIAG_L2_PROT_ISO14230) c.push_back("ATSH"); if (k.e.is327 && P.slow && P.tgt != 0x33) c.push_back("ATIIA");
	if (c.empty()) return; std::string r = c[rnd("v.ref", (u32)c.size())];
	if (r == "ATIIA") { char t[16]; snprintf(t, sizeof t, "ATIIA%02X", P.tgt); r = t; }
	// ATTP: only the start fails; it goes on with what the adapter selects itself, which is documented
	if (r == "ATTP") return;
	k.e.refuse = {r}; bool ok = P.start(); k.e.refuse.clear(); CHECK(!ok, "start:accepted", "start succeeded although the adapter refused %s", r.c_str()); count("p.refused");
}
}
SCENARIO("C20", elm_proto, 1.5) {
	host_good(); EL k; k.setup(false); Proto P(k, pick_proto(k)); pick_start(k, P); k.up(); int n = 1 + rnd("n.rounds", 2);
	while (n--) {
		k.open_good(); if (chance("k.ref", 0.2)) { refused(P); k.settle(100 * MS); }
		k.early(); P.start_good(); k.early(); int m = rnd("n.ex", 6);
		while (m--) { P.good(); k.early(); if (rnd("k.gap", 2)) idle(rnd("v.gap", chance("k.longgap", 0.2) ? 8000 : 400) * MS); }
		size_t nr = k.got.size(); idle(rnd("v.gap", 8000) * MS); CHECK(k.got.size() == nr, "elm:keepalive", "the driver sent keep-alives although the adapter does it");
		k.s.stop(); k.settle(); diag_l2_close(k.s.dl0d); k.s.l2open = false; CHECK(P.p == DIAG_L2_PROT_ISO14230 || k.e.bad_cmds.empty(), "elm:command", "command [%s] is unknown to the adapter", k.e.bad_cmds.empty() ? "" : k.e.bad_cmds[0].c_str()); k.early();
	}
	sample("protocol %d over %s v%s", P.p, k.e.is327 ? "ELM327" : "ELM323", k.e.ver.c_str()); k.finish();
}
namespace {
void elm_faulty(bool j1850) {
	host_any(); EL k; k.setup(j1850); int pr = DIAG_L2_PROT_SAEJ1850; if (j1850) k.l1 = rnd("k.pwm", 2) ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW; else pr = pick_proto(k);
	Proto P(k, pr); pick_start(k, P); bool raw = !j1850 && k.e.is327 && pr == DIAG_L2_PROT_SAEJ1850 && rnd("k.raw", 2); k.up();
	swarm({ELM_FAULTS}, 0.2, 0.0005, 0.03);
	int n = 1 + rnd("n.rounds", 2);
	while (n--) {
		u64 t0 = now(); bool op = k.s.l2open || k.open(); CHECK(now() - t0 < 16 * SEC, "open:slow", "opening took %.3f s", (now() - t0) / 1e9);
		if (!op) { CHECK(open_fds() == 0, "open:fd", "a failed open left %d descriptors", open_fds()); continue; }
		t0 = now(); bool st = raw ? k.s.start(DIAG_L2_PROT_RAW, 0, 9600, 0x10, 0xF1) : P.start(); CHECK(now() - t0 < 25 * SEC, "start:slow", "starting took %.3f s", (now() - t0) / 1e9);
		int m = st ? rnd("n.ex", 6) : 0;
		while (m--) {
			Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", 7)); size_t mk = k.e.mark(); t0 = now();
			if (raw) {
				k.plan.clear(); k.plan.push_back(raw_lines(4, 40, 200 * MS)); if (l2_send(k.s.conn, q, 10 * SEC) == 0) { size_t pos = 0; int c = 8; while (c--) { t0 = now(); auto r = l2_recv(k.s.conn, 100 + rnd("v.to", 400), 5 * SEC); if (r.null) { CHECK(r.err < 0, "recv:no-error", "nothing delivered but the result is %d", r.err); break; } auto l = k.e.lines(mk); for (auto &x : r.m) CHECK(sel_in(l, pos, x.d), "recv:invented", "delivered [%s] is no hexadecimal line received since the request", hex(x.d).c_str()); } }
			} else { auto v = P.answers(4); k.plan.clear(); k.plan.push_back(P.lines(v)); auto r = l2_request(k.s.conn, q, 60 * SEC); P.sound(mk, r); }
			if (rnd("k.gap", 2)) idle(rnd("v.gap", 1500) * MS);
		}
		k.s.stop(); if (rnd("k.close", 2)) { diag_l2_close(k.s.dl0d); k.s.l2open = false; }
	}
	FaultsOff off; clear_rates(); k.settle(1500 * MS); oversleep_max = 0;
	bool done = false; int tries = 0;
	while (!done) {
		tries++; CHECK(tries <= 3, "recovery", "after the faults stopped, no session could be opened within 3 tries");
		if (!k.s.l2open && !k.open()) continue;
		if (!(raw ? k.s.start(DIAG_L2_PROT_RAW, 0, 9600, 0x10, 0xF1) : P.start())) { k.settle(500 * MS); diag_l2_close(k.s.dl0d); k.s.l2open = false; continue; }
		k.settle(0);
		done = true;
	}
	k.e.bad_cmds.clear(); if (raw) raw_exchange(k, true); else {
		int t2 = 0; for (;;) { Bytes q = {1, (u8)rnd("v.pid", 256)}; auto v = P.answers(1); k.plan.clear(); k.plan.push_back(P.lines(v)); auto r = l2_request(k.s.conn, q, 30 * SEC); t2++; if (!r.null) { CHECK(r.m[0].d == v[0].d, "recovery:data", "answer [%s] delivered as [%s]", hex(v[0].d).c_str(), hex(r.m[0].d).c_str()); break; } CHECK(t2 < 3, "recovery:exchange", "after the faults stopped, 3 requests failed (last error %d)", r.err); k.settle(300 * MS); }
		P.good();
	}
	sample("faults over %s v%s protocol %d", k.e.is327 ? "ELM327" : "ELM323", k.e.ver.c_str(), pr); k.finish();
}
}
SCENARIO("C20", elm_faults, 2) { elm_faulty(false); }
SCENARIO("C12", j1850_clean, 1.2) {
	host_good(); EL k; k.setup(true); k.l1 = rnd("k.pwm", 2) ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW; Proto P(k, DIAG_L2_PROT_SAEJ1850); pick_start(k, P); k.up(); k.open_good(); int n = 1 + rnd("n.rounds", 2);
	while (n--) {
		P.start_good(); int m = rnd("n.ex", 8);
		while (m--) {
			u32 w = rnd("v.kind", 4);
			if (w == 0) { Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", 7)); k.plan.clear(); k.plan.push_back({}); auto r = l2_request(k.s.conn, q, 10 * SEC); CHECK(r.null && r.err == DIAG_ERR_TIMEOUT, "exchange:silence", "no ECU answered but the result is %d", r.err); }
			else if (w == 1) { Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", 7)); auto v = P.answers(3); k.plan.clear(); k.plan.push_back(P.lines(v)); int rv = l2_send(k.s.conn, q, 10 * SEC); CHECK(rv == 0, "send:failed", "healthy send failed with %d", rv); u32 to = 300 + rnd("v.to", 300); u64 r0 = now(); auto r = l2_recv(k.s.conn, to, 20 * SEC); CHECK(now() - r0 <= (to + 150 + 100 + 30) * MS, "recv:late", "receiving with a timeout of %u ms (and 250 ms for the adapter) took %.3f ms", to, (now() - r0) / 1e6); CHECK(!r.null && r.m.size() == v.size(), "recv:count", "%zu answers, %zu delivered (%d)", v.size(), r.m.size(), r.err); for (size_t i = 0; i < v.size(); i++) CHECK(r.m[i].d == v[i].d && r.m[i].src == v[i].src && r.m[i].dest == 0x6B, "recv:data", "answer [%s] delivered as [%s]", hex(v[i].d).c_str(), hex(r.m[i].d).c_str()); }
			else P.good();
			k.early(); if (rnd("k.gap", 2)) idle(rnd("v.gap", 1000) * MS);
		}
		k.s.stop(); idle(rnd("v.gap", 300) * MS);
	}
	sample("J1850 over ELM327 v%s", k.e.ver.c_str()); k.finish();
}
SCENARIO("C12", j1850_bad, 1.2) {
	// wrong CRCs, short frames, over-long frames, error texts between good frames
	host_good(); EL k; k.setup(true); k.l1 = rnd("k.pwm", 2) ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW; Proto P(k, DIAG_L2_PROT_SAEJ1850); k.up(); k.open_good(); P.start_good(); int n = 1 + rnd("n.ex", 6);
	while (n--) {
		Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", 7)); auto v = P.answers(4); auto l = P.lines(v); u32 kind = rnd("v.bad", 5), at_ = rnd("v.at", (u32)v.size() + 1); ElmRsp b; b.d = 10 * MS; Bytes bd = rnd_bytes("v.badd", 1 + rnd("v.badn", 7)); b.f = P.frame(0x55, bd);
		if (kind == 0) b.f.back() ^= 1 << rnd("v.bit", 8); else if (kind == 1) b.f[rnd("v.pos", (u32)b.f.size())] ^= 1 << rnd("v.bit", 8); else if (kind == 2) b.f.resize(1 + rnd("v.short", 4)); else if (kind == 3) { b.f = rnd_bytes("v.longf", 200 + rnd("v.longn", 100)); } else { static const char *t[] = {"<DATA ERROR", "BUS ERROR", "FB ERROR", "48 6B 10 41 0 <DATA ERROR", "48 6B 10 4", "BUFFER FULL", "STOPPED", "ACT ALERT", "CAN ERROR", "DATA ERROR", "UNABLE TO CONNECT"}; b.text = t[rnd("v.text", 11)]; }
		if (kind == 3 && k.e.baud < 38400) { b.f.resize(30); }
		l.insert(l.begin() + at_, b); size_t mk = k.e.mark(); k.plan.clear(); k.plan.push_back(l); u64 t0 = now(); auto r = l2_request(k.s.conn, q, 30 * SEC); P.sound(mk, r);
		CHECK(now() - t0 < 4 * SEC, "exchange:slow", "the exchange took %.3f s", (now() - t0) / 1e9); count("p.badframe");
		if (kind <= 1 && !r.null) { size_t good = 0, flag = 0; for (auto &m : r.m) if (m.fmt & DIAG_FMT_BADCS) flag++; else good++; CHECK(good == v.size(), "exchange:lost", "%zu good answers beside one with a wrong CRC, %zu delivered", v.size(), good); CHECK(flag <= 1, "exchange:flag", "%zu answers flagged", flag); }
		if (kind == 2 && !r.null) { CHECK(r.m.size() == v.size(), "exchange:lost", "%zu good answers beside a short frame, %zu delivered", v.size(), r.m.size()); }
		k.settle(rnd("v.gap", 400) * MS); P.good(); k.early();
	}
	sample("J1850 bad frames"); k.finish();
}
SCENARIO("C12", j1850_faults, 1.2) { elm_faulty(true); }
