// C21: Multiplex Engineering T16.
#include "oom.h"
#include "ecu9141.h"
#include <algorithm>
#include <memory>
namespace {
u8 j_crc(const Bytes &b) { u8 c = 0xff; for (u8 x : b) { c ^= x; for (int i = 0; i < 8; i++) c = c & 0x80 ? (u8)(c << 1 ^ 0x1d) : (u8)(c << 1); } return ~c; }
struct MeRsp { u8 type; Bytes p; u64 d = 20 * MS; int bad = 0; };   // an adapter frame: payload as on the vehicle bus; bad: 1 checksum, 2 cut short
Bytes me_frame(MeRsp r) { if (mangle_rx) mangle_frame(r.p); Bytes f(14, 0); f[0] = 0x38; f[1] = r.type; for (size_t i = 0; i < r.p.size() && i < 11; i++) f[2 + i] = r.p[i]; f[13] = cks(Bytes(f.begin() + 1, f.begin() + 13)); if (r.bad == 1) f[13] ^= 1 << vary(r.d, 8); if (r.bad == 2) f.resize(1 + vary(r.d, 13)); return f; }
// the length of the bus message in a zero padded frame: the longest prefix which ends with its own checksum and is followed by zeros only
size_t me_len(u8 type, const Bytes &pad) {
	for (size_t n = 11; n >= 2; n--) { Bytes b(pad.begin(), pad.begin() + n - 1); u8 c = type == 0x82 || type == 0x84 ? j_crc(b) : cks(b); if ((type == 0x82 || type == 0x84 || type == 0x81 || type == 1) && c == pad[n - 1]) return n; if (pad[n - 1]) break; }
	return 11;
}
struct MeDev : KLine {
	u8 addr = 0x38; bool raw = false, pass5 = false, on = false; Bytes in; u64 last_in = 0; bool bad5 = false, zero5 = false; u64 txend = 0, msend = 0;
	struct Req { u8 cmd; Bytes d; }; std::vector<Req> reqs; u64 req_t = 0; int malformed = 0, foreign = 0, early = 0;
	std::function<std::vector<MeRsp>(const Req &)> request; int fastinits = 0; bool kb_ok = true, ack_ok = true; u8 kb1 = 0xE9, kb2 = 0x8F; int slow_bad = 0; u64 t_ack = 30 * MS; u32 err3 = 0x0d; u64 gen = 0;
	MeDev() { echo = false; }
	void reset() { raw = pass5 = false; in.clear(); gen++; txend = now(); }
	void opened() override { reset(); }
	void modem(int b) override { bool o = (b & 2) && !(b & 4); if (o != on) { on = o; ev("me power %d", o); reset(); } }
	u64 put(const Bytes &d, u64 t, bool fl = true) {
		u64 ct = 10 * SEC / 19200, g = gen; if (t < txend) t = txend; size_t n = d.size();
		if (fl && fault("f.ad.cut")) n = vary(t, n);
		if (fl) if (u32 f = fault("f.ad.late", 5)) t += f * f * 80 * MS;
		if (fl && fault("f.ad.silent")) return t;
		for (size_t i = 0; i < n; i++) {
			u8 b = d[i]; int rep = 1; if (fl) { if (u32 f = fault("f.ad.flip", 9)) b ^= 1 << (f - 1); if (fault("f.ad.drop")) rep = 0; if (fault("f.ad.dup")) rep = 2; if (fault("f.ad.stall")) t += 120 * MS; }
			while (rep--) { t += ct; at(t, [this, b, g]() { if (g != gen || raw) return; dev_rx(b); }); }
		}
		txend = t; sched_end = std::max(sched_end, t); return t;
	}
	void dev_rx(u8 b) { unsigned m = tty->cur.ospeed; if (m != 19200) b = (u8)(b * 5 + 0x3D); evbytes("me", &b, 1); tty->deliver_now(b); }
	void send_all(std::shared_ptr<std::vector<MeRsp>> v, size_t i) { if (i == v->size()) return; u64 g = gen, t = now() + (*v)[i].d; sched_end = std::max<u64>(sched_end, t + 10 * MS); at(t, [this, g, v, i]() { if (g != gen) return; put(me_frame((*v)[i]), now()); send_all(v, i + 1); }); }
	void tx_start(u8 b, u64 t0, unsigned bd) override { if (raw) KLine::tx_start(b, t0, bd); }
	void tx_byte(u8 b, u64 t0, u64 t1, unsigned bd) override {
		if (raw) { KLine::tx_byte(b, t0, t1, bd); return; }
		if (!on) return;
		if (bd != 19200) b = b * 7 + 0x5B;
		if (fault("f.ad.rxdrop")) return;
		if (!in.empty() && t0 > last_in + 100 * MS) { malformed++; in.clear(); }
		last_in = t1; in.push_back(b); if (in.size() < 15) return;
		Bytes f = in; in.clear(); evbytes("to me", f.data(), 15);
		if (f[0] != addr) { foreign++; return; }
		if (cks(Bytes(f.begin() + 1, f.begin() + 14)) != f[14]) { malformed++; error(2, 10 * MS); return; }
		bool pad = f[2] <= 11; for (size_t i = 3 + f[2]; pad && i < 14; i++) pad = f[i] == 0;
		if (f[1] != 0x86 && f[1] != 0x20 && !pad) { malformed++; return; }
		Req r{f[1], {}}; if (f[1] == 0x20 || f[1] == 0x86) r.d = Bytes(f.begin() + 2, f.begin() + 14); else r.d = Bytes(f.begin() + 3, f.begin() + 3 + f[2]);
		command(r);
	}
	void error(u8 code, u64 d) { auto v = std::make_shared<std::vector<MeRsp>>(); v->push_back(MeRsp{0x80, {0x21, code, 0x0F}, d}); send_all(v, 0); }
	void command(const Req &r) {
		reqs.push_back(r); req_t = now(); u64 g = gen;
		if (r.cmd == 0x20) {
			for (size_t i = 1; i < r.d.size(); i++) if (r.d[i]) malformed++;
			pass5 = true; u8 a = r.d[0]; u64 t = now() + 2000 * MS; at(t, [this, g, a, t]() { if (g != gen) return; last5 = a; last5_end = t; n5++; for (auto e : ecus) if (ecu_on) e->addr5(a, t); });
			at(t + 320 * MS, [this, g]() { if (g == gen && pass5) { pass5 = false; put({0x40}, now()); } }); sched_end = std::max<u64>(sched_end, t + 330 * MS); return;
		}
		if (r.cmd == 0x85) { auto v = std::make_shared<std::vector<MeRsp>>(); MeRsp m{0x01, {0x01}, t_ack}; if (slow_bad == 1) m = MeRsp{0x80, {0x21, (u8)err3, 0x0F}, t_ack}; if (slow_bad == 2) m.bad = 1; if (slow_bad == 3) m.bad = 2; v->push_back(m); if (slow_bad != 4) send_all(v, 0); return; }
		if (r.cmd == 0x86) { auto v = std::make_shared<std::vector<MeRsp>>(); MeRsp m{0x01, {kb1, kb2}, t_ack}; if (slow_bad == 5) m = MeRsp{0x80, {0x21, (u8)err3, 0x0F}, t_ack}; if (slow_bad == 6) m.bad = 1; if (slow_bad == 7) m.bad = 2; v->push_back(m); if (slow_bad != 8) send_all(v, 0); return; }
		if (r.cmd == 0x87) fastinits++;
		std::vector<MeRsp> v; if (request) v = request(r);
		if (fault("f.ecu.silent")) v.clear();
		if (v.empty()) { u8 e = r.cmd == 0x10 ? 5 : r.cmd & 8 || r.cmd == 0x87 ? 0x0c : 7; error(e, 60 * MS + vary(now(), 40) * MS); return; }
		if (u32 f = fault("f.ad.err", 46)) { v.resize(vary(now(), (u32)v.size() + 1)); v.push_back(MeRsp{0x80, {0x21, (u8)(f - 1), 0x0F}, 15 * MS}); }
		for (auto &x : v) if (fault("f.ecu.badcs")) x.bad = 1;
		send_all(std::make_shared<std::vector<MeRsp>>(std::move(v)), 0);
	}
	void rx_byte(u8 b, u64 t, unsigned bd) override {
		if (pass5) { pass5 = false; raw = true; u8 iv = (u8)std::min<u64>(255, (1000000 / bd * 4 + 5) / 10); if (b != 0x55) iv = (u8)(iv * 3); if (bad5) iv = 0; if (zero5) iv = 64; raw = iv != 0 && iv != 64; ev("timing byte %d", iv); if (fault("f.ad.silent")) return; dev_rx(iv); return; }
		if (!raw) { last_activity = now(); return; }
		KLine::rx_byte(b, t, bd);
	}
};
#define ME_FAULTS "f.ad.drop", "f.ad.flip", "f.ad.dup", "f.ad.cut", "f.ad.late", "f.ad.silent", "f.ad.stall", "f.ad.err", "f.ad.rxdrop", "f.ecu.silent", "f.ecu.badcs", "f.read.eio", "f.read.eintr", "f.read.short", "f.sel.err", "f.sel.late", "f.write.eio", "f.write.short", "f.write.zero", "f.oversleep"
struct ME {
	MeDev e; Sess s; size_t a0; int l1 = 0, p = 0; bool slow = false; u8 tgt = 0x33, src = 0xF1; std::deque<std::vector<MeRsp>> plan;
	ME() { a0 = live_allocs(); e.request = [this](const MeDev::Req &r) { std::vector<MeRsp> v; if (p == DIAG_L2_PROT_ISO14230 && r.d.size() >= 4) { u8 sid = r.d[3]; if (r.d.size() == 4 && sid == 0x81) { v.push_back(MeRsp{type(), f14230({0xC1, e.kb1, e.kb2}), 30 * MS}); return v; } if (r.d.size() == 4 && (sid == 0x82 || sid == 0x3E)) { v.push_back(MeRsp{type(), f14230({(u8)(sid | 0x40)}), 30 * MS}); return v; } } if (!plan.empty()) { v = plan.front(); plan.pop_front(); } return v; }; }
	u8 type() { return l1 == DIAG_L1_J1850_PWM ? 0x84 : l1 == DIAG_L1_J1850_VPW ? 0x82 : l1 == DIAG_L1_ISO9141 ? 0x81 : alt14230 ? 0x81 : 0x01; } bool alt14230 = false;
	u8 cmd(bool first = false) { return l1 == DIAG_L1_J1850_PWM ? 0x80 : l1 == DIAG_L1_J1850_VPW ? 0x02 : l1 == DIAG_L1_ISO9141 ? 0x10 : first ? 0x87 : 0x88; }
	Bytes f14230(const Bytes &d) { Bytes f = cat({(u8)(0x80 | d.size()), src, 0x10}, d); f.push_back(cks(f)); return f; }
	bool unamb(u8 t, const Bytes &f) { Bytes pad = f; pad.resize(11, 0); return me_len(t, pad) == f.size(); }
	Bytes frame(u8 esrc, const Bytes &d) { Bytes f; if (p == DIAG_L2_PROT_ISO14230) { f = cat({(u8)(0x80 | d.size()), src, esrc}, d); f.push_back(cks(f)); } else { f = cat({(u8)(l1 == DIAG_L1_J1850_PWM ? 0x41 : 0x48), (u8)0x6B, esrc}, d); f.push_back(j_crc(f)); } return f; }
	void up() {
		alt14230 = rnd("k.alt", 2); lib_up(); FaultsOff f; if (s.add("MET16", "/dev/ttyS0", &e)) VIOL("setup", "creating the interface failed");
		if (chance("k.addr", 0.4)) { e.addr = rnd("v.addr", 256); if (!set_cfg(s.dl0d, "meaddr", nullptr, e.addr)) VIOL("setup", "setting the adapter's address failed"); }
		static const u64 ch[] = {0, 0, 1 * MS, 4 * MS, 16 * MS}; s.t->rx_chunk = ch[rnd("k.chunk", 5)];
	}
	bool open() { op_deadline(now() + 10 * SEC); bool r = s.open(l1); op_deadline(0); return r; }
	void open_good() { if (!open()) VIOL("open:refused", "opening a healthy adapter failed"); CHECK(s.t->cur.ospeed == 19200 && s.t->databits() == 8, "open:speed", "the port runs at %u", s.t->cur.ospeed); CHECK(e.on, "open:power", "DTR and RTS do not power the adapter"); }
	void well_formed() { CHECK(e.malformed == 0, "frame:malformed", "%d malformed frames were sent to the adapter", e.malformed); CHECK(e.foreign == 0, "frame:address", "%d frames were sent to another adapter address", e.foreign); }
	bool start() { unsigned fl = p == DIAG_L2_PROT_ISO14230 && !slow ? (unsigned)DIAG_L2_TYPE_FASTINIT | (tgt == 0x33 ? (unsigned)DIAG_L2_TYPE_FUNCADDR : 0u) : (unsigned)DIAG_L2_TYPE_SLOWINIT; op_deadline(now() + 20 * SEC); bool r = s.start(p, fl, p == DIAG_L2_PROT_RAW ? 9600 : 0, tgt, src); op_deadline(0); return r; }
	void settle(u64 t = 0) { op_deadline(0); e.settle(t); }
	void finish() { op_deadline(now() + 60 * SEC); s.down(); lib_down(); op_deadline(0); end_checks(a0); }
	void close() { if (s.l2open) { CHECK(diag_l2_close(s.dl0d) == 0, "close:failed", "closing failed"); s.l2open = false; } }
	Bytes payload(u8 t) { for (int i = 0; i < 20; i++) { Bytes f = rnd_bytes("v.pay", 1 + rnd("v.payn", 10)); if (chance("k.zero", 0.2)) f.back() = 0; f.push_back(t == 0x82 || t == 0x84 ? j_crc(f) : cks(f)); if (unamb(t, f)) return f; } Bytes f = {1, 2}; f.push_back(t == 0x82 || t == 0x84 ? j_crc(f) : cks(f)); return f; }
	// payloads of the undamaged adapter frames among the bytes received since mk
	bool take(size_t &pos, const Bytes &d, bool part = false) {
		auto &v = s.t->rx_log;
		for (size_t i = pos; i + 14 <= v.size(); i++) { Bytes w; for (int k = 1; k < 14; k++) w.push_back(v[i + k].b); if (cks(Bytes(w.begin(), w.begin() + 12)) != w[12] || w[0] == 0x80) continue; Bytes pay(w.begin() + 1, w.begin() + 12); size_t n = me_len(w[0], pay); pay.resize(n); if (part ? pay.size() >= d.size() + 2 && std::search(pay.begin(), pay.end(), d.begin(), d.end()) != pay.end() : pay == d) { pos = i + 14; return true; } }
		return false;
	}
	size_t mark() { return s.t->rx_log.size(); }
};
void raw_exchange(ME &k) {
	size_t n = 1 + rnd("v.reqn", chance("k.long", 0.15) ? 40 : 11); Bytes q = rnd_bytes("v.req", n); size_t r0 = k.e.reqs.size(); std::vector<MeRsp> v; u32 m = n > 11 ? 0 : rnd("n.rsp", 4); u64 tot = 0;
	for (u32 i = 0; i < m; i++) { MeRsp r{k.type(), k.payload(k.type()), (5 + rnd("v.d", 60)) * MS}; if (chance("k.badpay", 0.15)) { r.p = rnd_bytes("v.pay", 11); if (me_len(r.type, r.p) != 11) r.p = k.payload(r.type); } tot += r.d; v.push_back(r); }
	k.plan.clear(); k.plan.push_back(v); u64 t0 = now(); int rv = l2_send(k.s.conn, q, 5 * SEC);
	if (n > 11) { idle(20 * MS); CHECK(rv < 0, "send:too-long", "a message of %zu bytes was accepted", n); CHECK(k.e.reqs.size() == r0, "send:too-long-sent", "part of a message of %zu bytes was sent", n); k.well_formed(); return; }
	CHECK(rv == 0, "send:failed", "healthy send failed with %d", rv); bool skip = chance("k.noread", 0.1);
	for (size_t i = 0; i < v.size() && !skip; i++) { auto r = l2_recv(k.s.conn, 300, 5 * SEC); CHECK(!r.null && r.m.size() == 1, "recv:failed", "frame %zu of %zu: receive returned %d", i, v.size(), r.err); CHECK(r.m[0].d == v[i].p, "recv:data", "the adapter sent [%s], delivered [%s]", hex(v[i].p).c_str(), hex(r.m[0].d).c_str()); }
	if (v.empty() && !skip) { auto r = l2_recv(k.s.conn, 300, 5 * SEC); CHECK(r.null && r.err == DIAG_ERR_TIMEOUT, "recv:no-answer", "the adapter reported that nobody answered, receive returned %d", r.err); }
	if (skip) k.settle(rnd("v.gap", 100) * MS); else if (rnd("k.more", 2)) { u32 to = 30 + rnd("v.to", 300); t0 = now(); auto r = l2_recv(k.s.conn, to, 5 * SEC); CHECK(r.null && r.err < 0, "recv:extra", "nothing more was sent but receive returned %d", r.err); CHECK(now() - t0 < (to + 80) * MS, "recv:slow", "receive with %u ms took %.3f s", to, (now() - t0) / 1e9); }
	idle(2 * MS); CHECK(k.e.reqs.size() == r0 + 1, "send:count", "%zu frames reached the adapter for one message", k.e.reqs.size() - r0); auto &rq = k.e.reqs.back(); CHECK(rq.d == q, "send:data", "the adapter was asked [%s] instead of [%s]", hex(rq.d).c_str(), hex(q).c_str()); CHECK(rq.cmd == k.cmd(), "send:command", "command %02x instead of %02x", rq.cmd, k.cmd()); k.well_formed();
}
}
SCENARIO("C21", me_raw, 1.2) {
	host_good(); ME k; static const int ps[] = {DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_ISO14230}; k.l1 = ps[rnd("v.l1", 3)]; k.p = DIAG_L2_PROT_RAW; k.up(); int n = 1 + rnd("n.rounds", 2);
	while (n--) { k.open_good(); if (!k.start()) VIOL("start:refused", "raw start failed"); int m = 1 + rnd("n.ex", 8); while (m--) { raw_exchange(k); if (rnd("k.gap", 2)) idle(rnd("v.gap", 300) * MS); } k.s.stop(); k.settle(); k.close(); }
	sample("raw T16, address %02x", k.e.addr); k.finish();
}
SCENARIO("C21", me_bad, 1.2) {
	// damaged, short and error frames between good ones
	host_good(); ME k; static const int ps[] = {DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_ISO14230}; k.l1 = ps[rnd("v.l1", 3)]; k.p = DIAG_L2_PROT_RAW; k.up(); k.open_good(); if (!k.start()) VIOL("start:refused", "raw start failed"); int n = 1 + rnd("n.ex", 6);
	while (n--) {
		u32 ng = rnd("n.rsp", 3), kind = rnd("v.bad", 3); std::vector<MeRsp> v; for (u32 i = 0; i < ng; i++) v.push_back(MeRsp{k.type(), k.payload(k.type()), (5 + rnd("v.d", 40)) * MS});
		MeRsp b{k.type(), k.payload(k.type()), (5000 + rnd("v.bd", 40000)) * US}; u8 code = 0; if (kind == 0) b.bad = 1; else if (kind == 1) b.bad = 2; else { code = rnd("v.code", 0x30); if (chance("k.code", 0.3)) { static const u8 cs[] = {5, 7, 0xc, 0xf1, 0xff}; code = cs[rnd("v.codes", 5)]; } b = MeRsp{0x80, {(u8)rnd("v.sw", 256), code, (u8)rnd("v.cap", 256)}, b.d}; }
		v.push_back(b); k.plan.clear(); k.plan.push_back(v); CHECK(l2_send(k.s.conn, {1, 2, 3}, 5 * SEC) == 0, "send:failed", "healthy send failed");
		for (u32 i = 0; i < ng; i++) { auto r = l2_recv(k.s.conn, 300, 5 * SEC); CHECK(!r.null && r.m[0].d == v[i].p, "recv:data", "the adapter sent [%s], delivered [%s] (%d)", hex(v[i].p).c_str(), r.null ? "" : hex(r.m[0].d).c_str(), r.err); }
		u64 t0 = now(); auto r = l2_recv(k.s.conn, 300, 5 * SEC); CHECK(r.null && r.err < 0, "recv:damaged", "a %s frame was delivered as [%s]", kind == 0 ? "damaged" : kind == 1 ? "short" : "error", r.m.empty() ? "" : hex(r.m[0].d).c_str());
		CHECK(now() - t0 < 450 * MS, "recv:slow", "the error took %.3f s", (now() - t0) / 1e9); bool none = kind == 2 && (code == 5 || code == 7 || code == 0xc); if (kind == 2) CHECK((r.err == DIAG_ERR_TIMEOUT) == none, "recv:code", "adapter error %02x gives %d", code, r.err); if (kind == 0) CHECK(r.err != DIAG_ERR_TIMEOUT, "recv:error", "a damaged frame was not reported");
		count("p.badframe"); if (rnd("k.gap", 2)) idle(rnd("v.gap", 200) * MS); raw_exchange(k);
	}
	sample("T16 with bad frames"); k.finish();
}
namespace {
struct Ans { Bytes d; u8 src; };
std::vector<Ans> answers(ME &k, u32 maxn) { std::vector<Ans> v; u32 n = 1 + rnd("n.rsp", maxn); for (u32 i = 0; i < n; i++) { Ans a; for (int j = 0; j < 20; j++) { a.src = rnd("k.src2", 2) ? 0x10 + i : (u8)rnd("v.esrc", 256); a.d = rnd_bytes("v.rsp", 1 + rnd("v.rspn", 7)); if (a.d[0] == 0x7F) a.d[0] = 0x41; if (k.unamb(k.type(), k.frame(a.src, a.d))) break; a.src = 0x10; a.d = {0x41}; if (k.unamb(k.type(), k.frame(a.src, a.d))) break; a.d = {0x42, 0x17}; } v.push_back(a); } return v; }
void good(ME &k) {
	Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", 8)); if (q[0] == 0x81 || q[0] == 0x82 || q[0] == 0x3E) q[0] = 1; auto v = answers(k, 4); std::vector<MeRsp> l; for (auto &a : v) l.push_back(MeRsp{k.type(), k.frame(a.src, a.d), (5 + rnd("v.d", 30)) * MS}); k.plan.clear(); k.plan.push_back(l); size_t r0 = k.e.reqs.size();
	auto r = l2_request(k.s.conn, q, 20 * SEC); CHECK(k.e.reqs.size() == r0 + 1, "request:count", "%zu frames reached the adapter for one request", k.e.reqs.size() - r0);
	Bytes &f = k.e.reqs.back().d; Bytes h = k.p == DIAG_L2_PROT_ISO14230 ? Bytes({(u8)((k.slow || k.tgt != 0x33 ? 0x80 : 0x80) | q.size()), 0, k.src}) : Bytes({(u8)(k.l1 == DIAG_L1_J1850_PWM ? 0x61 : 0x68), k.tgt, k.src});
	CHECK(f.size() == q.size() + 3 && Bytes(f.begin() + 3, f.end()) == q && f[2] == h[2] && (k.p == DIAG_L2_PROT_ISO14230 ? (f[0] & 0x3f) == (h[0] & 0x3f) : f[0] == h[0] && f[1] == h[1]), "request:data", "the adapter was asked [%s] for [%s]", hex(f).c_str(), hex(q).c_str()); CHECK(k.e.reqs.back().cmd == k.cmd(), "request:command", "command %02x instead of %02x", k.e.reqs.back().cmd, k.cmd()); k.well_formed();
	CHECK(!r.null && r.err == 0, "exchange:failed", "healthy exchange failed with %d", r.err); CHECK(r.m.size() == v.size(), "exchange:count", "%zu answers, %zu delivered", v.size(), r.m.size());
	for (size_t i = 0; i < v.size(); i++) CHECK(r.m[i].d == v[i].d && r.m[i].src == v[i].src && !(r.m[i].fmt & DIAG_FMT_BADCS), "exchange:data", "answer [%s] from %02x delivered as [%s] from %02x", hex(v[i].d).c_str(), v[i].src, hex(r.m[i].d).c_str(), r.m[i].src);
}
void pick(ME &k) { if (rnd("k.kwp", 2)) { k.p = DIAG_L2_PROT_ISO14230; k.l1 = DIAG_L1_ISO14230; k.slow = rnd("k.slow", 2); if (!k.slow && chance("k.tgt", 0.4)) k.tgt = rnd("v.tgt", 256); static const u8 kb[] = {0xE9, 0xD9, 0xEF, 0x8F}; k.e.kb1 = kb[rnd("v.kb", 2)]; (void)kb; } else { k.p = DIAG_L2_PROT_SAEJ1850; k.l1 = rnd("k.pwm", 2) ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW; k.tgt = 0x6A; } }
}
SCENARIO("C21", me_proto, 1.5) {
	host_good(); ME k; pick(k); k.up(); int n = 1 + rnd("n.rounds", 2);
	while (n--) {
		k.open_good();
		if (k.p == DIAG_L2_PROT_ISO14230 && k.slow && chance("k.bads", 0.4)) { k.e.slow_bad = 1 + rnd("v.sb", 8); u64 t0 = now(); CHECK(!k.start(), "start:accepted", "start succeeded although the adapter's answer was bad (%d)", k.e.slow_bad); CHECK(now() - t0 < 2 * SEC, "start:slow", "the failing start took %.3f s", (now() - t0) / 1e9); k.e.slow_bad = 0; k.settle(200 * MS); count("p.badstart"); }
		int fi = k.e.fastinits; if (!k.start()) VIOL("start:refused", "a healthy start failed"); if (k.p == DIAG_L2_PROT_ISO14230) { CHECK(k.e.fastinits == fi + !k.slow, "start:init", "%d fast initialisations", k.e.fastinits - fi); CHECK(k.s.conn->diag_l2_kb2 == 0x8F && (k.s.conn->diag_l2_kb1 & 0x7f) == (k.e.kb1 & 0x7f), "start:keybytes", "key bytes %02x %02x", k.s.conn->diag_l2_kb1, k.s.conn->diag_l2_kb2); }
		int m = rnd("n.ex", 6); while (m--) { good(k); if (rnd("k.gap", 2)) idle(rnd("v.gap", 1500) * MS); }
		Bytes big = rnd_bytes("v.big", 9 + rnd("v.bign", 30)); size_t r0 = k.e.reqs.size(); auto r = l2_request(k.s.conn, big, 20 * SEC); CHECK(r.null && r.err < 0, "request:too-long", "a request of %zu bytes was accepted", big.size()); CHECK(k.e.reqs.size() == r0, "request:too-long-sent", "part of a request of %zu bytes was sent", big.size()); k.well_formed(); good(k);
		k.s.stop(); k.settle(); k.close(); k.well_formed();
	}
	sample("protocol %d over T16", k.p); k.finish();
}
SCENARIO("C21", me_pass, 1) {
	// ISO 9141 in pass-through mode
	host_good(); ME k; k.l1 = DIAG_L1_ISO9141; k.p = DIAG_L2_PROT_ISO9141; k.slow = true; Ecu9141 ecu; static const unsigned bd[] = {10400, 9600, 4800, 10400}; ecu.baud = bd[rnd("v.baud", 4)]; ecu.w1 = (60 + rnd("v.w1", 150)) * MS; ecu.w2 = (6 + rnd("v.w2", 12)) * MS; ecu.w3 = rnd("v.w3", 18) * MS; ecu.w4 = (26 + rnd("v.w4", 15)) * MS; if (rnd("k.94", 2)) ecu.kb1 = ecu.kb2 = 0x94; if (chance("k.tgt", 0.3)) ecu.addr = k.tgt = rnd("v.tgt", 256); k.e.add(&ecu); k.up(); if (k.s.t->rx_chunk > 1 * MS) k.s.t->rx_chunk = 1 * MS; int n = 1 + rnd("n.rounds", 3);
	while (n--) {
		u32 bad = chance("k.bad", 0.4) ? 1 + rnd("v.badn", 5) : 0; k.open_good(); ecu.bad = Ecu9141::GOOD; k.e.bad5 = k.e.zero5 = false; if (bad == 1) ecu.bad = Ecu9141::SILENT; if (bad == 2) k.e.bad5 = true; if (bad == 3) k.e.zero5 = true; if (bad == 4) ecu.bad = Ecu9141::NO_KB1; if (bad == 5) ecu.bad = Ecu9141::WRONG_INV; ecu.st = Ecu9141::IDLE;
		u64 t0 = now(); bool ok = k.start(); k.well_formed(); if (bad) { CHECK(!ok, "start:accepted", "start succeeded although the initialisation failed (%u)", bad); CHECK(now() - t0 < 4 * SEC, "start:slow", "the failing start took %.3f s", (now() - t0) / 1e9); k.settle(100 * MS); k.close(); idle(100 * MS); continue; }
		if (!ok) VIOL("start:refused", "a healthy pass-through start at %u failed", ecu.baud);
		CHECK(k.e.last5 == k.tgt && ecu.st == Ecu9141::SESSION, "start:phantom", "start succeeded without a session (address %02x)", k.e.last5); u64 d = k.s.t->cur.ospeed > ecu.baud ? k.s.t->cur.ospeed - ecu.baud : ecu.baud - k.s.t->cur.ospeed; CHECK(d * 100 <= ecu.baud * 4, "start:speed", "the ECU talks at %u, the port runs at %u", ecu.baud, k.s.t->cur.ospeed);
		int m = rnd("n.ex", 5); while (m--) { Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", 7)); std::vector<Rsp9> v(1); v[0].d = rnd_bytes("v.rsp", 1 + rnd("v.rspn", 7)); ecu.plan.clear(); ecu.plan.push_back(v); size_t g = ecu.got.size(); auto r = l2_request(k.s.conn, q, 10 * SEC); CHECK(ecu.bad_got.empty() && ecu.got.size() == g + 1 && Bytes(ecu.got.back().b.begin() + 3, ecu.got.back().b.end() - 1) == q, "pass:request", "the ECU did not get the request"); CHECK(!r.null && r.m.size() == 1 && r.m[0].d == v[0].d, "pass:answer", "answer [%s] delivered as [%s] (%d)", hex(v[0].d).c_str(), r.m.empty() ? "" : hex(r.m[0].d).c_str(), r.err); idle(rnd("v.gap", 300) * MS); }
		k.s.stop(); k.settle(50 * MS); k.close(); idle(50 * MS); ecu.st = Ecu9141::IDLE;
	}
	sample("pass-through at %u", ecu.baud); k.finish();
}
SCENARIO("C21", me_faults, 2) {
	host_any(); ME k; bool raw = rnd("k.raw", 2); pick(k); int p0 = k.p; if (raw) { k.p = DIAG_L2_PROT_RAW; } (void)p0; k.up(); swarm({ME_FAULTS}, 0.25, 0.0005, 0.05); int n = 1 + rnd("n.rounds", 2);
	while (n--) {
		if (!k.s.l2open && !k.open()) { CHECK(open_fds() == 0, "open:fd", "a failed open left %d descriptors", open_fds()); continue; }
		u64 t0 = now(); bool st = k.start(); CHECK(now() - t0 < 5 * SEC, "start:slow", "starting took %.3f s", (now() - t0) / 1e9); int m = st ? rnd("n.ex", 7) : 0;
		while (m--) {
			size_t mk = k.mark(), pos = mk; Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", 8)); std::vector<MeRsp> l; u32 na = rnd("n.rsp", 4);
			if (raw) { for (u32 i = 0; i < na; i++) l.push_back(MeRsp{k.type(), k.payload(k.type()), (5 + rnd("v.d", 60)) * MS}); k.plan.clear(); k.plan.push_back(l); size_t r0 = k.e.reqs.size(); if (l2_send(k.s.conn, q, 10 * SEC) == 0) { int c = 6; while (c--) { t0 = now(); u32 to = 50 + rnd("v.to", 400); auto r = l2_recv(k.s.conn, to, 5 * SEC); CHECK(now() - t0 < 4 * SEC, "recv:slow", "receive took %.3f s", (now() - t0) / 1e9); if (r.null) { CHECK(r.err < 0, "recv:no-error", "nothing delivered but the result is %d", r.err); if (rnd("k.stop", 2)) break; continue; } for (auto &x : r.m) CHECK(k.take(pos, x.d), "recv:invented", "delivered [%s] is no undamaged adapter frame received since the request", hex(x.d).c_str()); } } if (k.e.reqs.size() > r0 && rate("f.ad.rxdrop") == 0) CHECK(k.e.reqs[r0].d == q || k.e.reqs.size() > r0 + 1 || k.e.malformed, "send:data", "the adapter was asked [%s] instead of [%s]", hex(k.e.reqs[r0].d).c_str(), hex(q).c_str()); }
			else { auto v = answers(k, 3); for (auto &a : v) l.push_back(MeRsp{k.type(), k.frame(a.src, a.d), (5 + rnd("v.d", 30)) * MS}); k.plan.clear(); k.plan.push_back(l); t0 = now(); auto r = l2_request(k.s.conn, q, 20 * SEC); CHECK(now() - t0 < 8 * SEC, "request:slow", "the request took %.3f s", (now() - t0) / 1e9); if (r.null) CHECK(r.err < 0, "request:no-error", "no answer but the error code is %d", r.err); for (auto &x : r.m) if (!(x.fmt & DIAG_FMT_BADCS)) CHECK(k.take(pos, x.d, true), "msg:invented", "delivered [%s] is in no undamaged adapter frame received since the request", hex(x.d).c_str()); }
			if (rnd("k.gap", 2)) idle(rnd("v.gap", 1000) * MS);
		}
		k.s.stop(); if (rnd("k.close", 2)) k.close();
	}
	FaultsOff off; clear_rates(); k.settle(500 * MS); oversleep_max = 0; int tries = 0; k.plan.clear();
	for (;;) { tries++; CHECK(tries <= 3, "recovery", "after the faults stopped, no session could be opened within 3 tries"); if (!k.s.l2open && !k.open()) continue; if (k.start()) break; k.close(); k.settle(300 * MS); }
	k.settle(50 * MS); k.e.in.clear(); k.e.malformed = k.e.foreign = 0; if (raw) { raw_exchange(k); raw_exchange(k); } else { good(k); good(k); }
	sample("faults over T16, protocol %d", k.p); k.finish();
}
// ------------------------------------------------------------------ C23
SCENARIO("C23", oom_me, 1) {
	host_good(); ME k; bool raw = rnd("k.raw", 3) == 0; if (raw) { static const int ps[] = {DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_ISO14230}; k.l1 = ps[rnd("v.l1", 3)]; k.p = DIAG_L2_PROT_RAW; } else pick(k);
	k.up(); OomUnit u; u.name = "T16"; u.s = &k.s; u.rest = 500 * MS; auto fresh = [&]() { for (int i = 0; i < 13 && now() - k.e.req_t > 2700 * MS; i++) idle(100 * MS); }; /* no keep-alive is about to come */ u.open = [&]() { return k.open(); }; u.start = [&]() { return k.start(); }; u.good = [&]() { if (raw) raw_exchange(k); else { fresh(); good(k); } }; u.stop = [&]() { k.s.stop(); }; u.calm = [&]() { k.plan.clear(); k.settle(300 * MS); }; u.finish = [&]() { k.finish(); };
	u.run();
}
#include "hostile.h"
SCENARIO("C24", hostile_me, 0.7) {
	host_good(); ME k; static const int l1[] = {DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_ISO9141, DIAG_L1_ISO14230}, l2[] = {DIAG_L2_PROT_SAEJ1850, DIAG_L2_PROT_SAEJ1850, DIAG_L2_PROT_ISO9141, DIAG_L2_PROT_ISO14230}; u32 w = rnd("v.l1", 4); k.l1 = l1[w]; k.p = rnd("k.raw", 4) ? l2[w] : DIAG_L2_PROT_RAW; k.up();
	k.e.request = [old = k.e.request, &k](const MeDev::Req &r) { auto v = old(r); if (v.empty()) for (u32 n = rnd("n.rsp", 4); n--;) v.push_back(MeRsp{k.type(), rnd("k.valid", 3) ? k.frame(0x10 + n, cat({(u8)(r.d.empty() ? 0x41 : r.d[0] | 0x40)}, rnd_bytes("v.rsp", rnd("v.rspn", 7)))) : rnd_bytes("v.pay", rnd("v.payn", 12)), (5 + rnd("v.d", 60)) * MS}); return v; };
	hostile_faults(); std::vector<int> all = {DIAG_L1_ISO9141, DIAG_L1_ISO14230, DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_RAW, k.l1, k.l1, k.l1, k.l1, k.l1, k.l1}; Api a{k.s, all, {k.p, DIAG_L2_PROT_RAW, DIAG_L2_PROT_SAEJ1850, DIAG_L2_PROT_ISO9141, DIAG_L2_PROT_ISO14230, DIAG_L2_PROT_VAG, DIAG_L2_PROT_MB1, DIAG_L2_PROT_D2}, [&]() { return k.start(); }}; a.run(3 + rnd("n.ops", 25)); sample("%u calls over a disturbed T16", a.nops); a.down(k.a0);
}
