// C22: B. Roadman BR-1.
#include "oom.h"
#include "kline.h"
#include <memory>
#include <algorithm>
namespace {
u8 j_crc(const Bytes &b) { u8 c = 0xff; for (u8 x : b) { c ^= x; for (int i = 0; i < 8; i++) c = c & 0x80 ? (u8)(c << 1 ^ 0x1d) : (u8)(c << 1); } return ~c; }
struct BrRsp { Bytes d; u64 t = 20 * MS; int kind = 0; };     // kind: 0 data, 1 error (bit 7), 2 cut short, 3 nothing, 4 length 0
struct BrDev : Peer {
	bool newtype = true; int mode = -1; bool connected = false; u64 gen = 0, txend = 0, sched_end = 0, last_in = 0; Bytes in; int malformed = 0;
	struct Req { Bytes d; u8 nr; }; std::vector<Req> reqs; u64 req_t = 0; struct Init { u8 type; Bytes d; }; std::vector<Init> inits;
	int conn_bad = 0, init_bad = 0; u8 ff = 0xFF, status = 0; u64 t_conn = 20 * MS, t_init = 30 * MS, t_slow = 2800 * MS; u8 kb1 = 8, kb2 = 8, addr = 0x33; int slow_bad = 0; bool session = false; bool handshake = false; int sessions = 0, fastinits = 0; Bytes sc;
	int conflicts = 0;                                              // that many attempts collide
	std::function<std::vector<BrRsp>(const Req &)> answers;         // J1850: one per frame number; ISO: sent in a row
	std::vector<BrRsp> cur; int nconf = 0; Bytes curd; bool pending = false;
	void power() { mode = -1; connected = session = handshake = false; in.clear(); gen++; txend = now(); }
	bool j1850() const { return mode == 0 || mode == 1; }
	u64 put(const Bytes &d, u64 t, bool fl = true) {
		u64 ct = 10 * SEC / 19200, g = gen; if (t < txend) t = txend; size_t n = d.size();
		if (fl && fault("f.ad.cut")) n = vary(t, n);
		if (fl) if (u32 f = fault("f.ad.late", 5)) t += f * f * 80 * MS;
		if (fl && fault("f.ad.silent")) return t;
		for (size_t i = 0; i < n; i++) { u8 b = d[i]; int rep = 1; if (fl) { if (u32 f = fault("f.ad.flip", 9)) b ^= 1 << (f - 1); if (fault("f.ad.drop")) rep = 0; if (fault("f.ad.dup")) rep = 2; if (fault("f.ad.stall")) t += 120 * MS; } while (rep--) { t += ct; at(t, [this, b, g]() { if (g != gen) return; u8 x = b; if (tty->cur.ospeed != 19200) x = (u8)(x * 5 + 0x3D); evbytes("br", &x, 1); tty->deliver_now(x); }); } }
		txend = t; sched_end = std::max<u64>(sched_end, t); return t;
	}
	u64 msg(const Bytes &d, u64 t, u8 bits = 0) { Bytes f = {(u8)(d.size() | bits)}; return put(cat(f, d), t); }
	void later(u64 d, std::function<void()> f) { u64 g = gen, t = now() + d; sched_end = std::max<u64>(sched_end, t + 20 * MS); at(t, [this, g, f]() { if (g == gen) f(); }); }
	void tx_byte(u8 b, u64 t0, u64 t1, unsigned bd) override {
		if (bd != 19200) b = b * 7 + 0x5B;
		if (fault("f.ad.rxdrop")) return;
		if (!in.empty() && t0 > last_in + 150 * MS) { malformed++; in.clear(); }
		last_in = t1; in.push_back(b);
		if (in[0] == 0x20) { in.clear(); power(); connected = true; mode = -1; if (conn_bad == 1) return; u8 r = conn_bad == 2 ? ff : 0xFF; later(t_conn, [this, r]() { put({r}, now()); }); return; }
		if (!connected) { malformed++; in.clear(); return; }
		size_t n = in[0] & 0x0f; if (in[0] & 0xB0 || !n) { malformed++; in.clear(); return; }
		if (in.size() < n + 1) return;
		bool ini = in[0] & 0x40; Bytes d(in.begin() + 1, in.end()); in.clear(); evbytes(ini ? "br init" : "br data", d.data(), d.size());
		if (ini) init(d); else data(d);
	}
	void init(const Bytes &d) {
		u8 ty = d[0]; inits.push_back({ty, Bytes(d.begin() + 1, d.end())}); session = handshake = false;
		if (ty <= 1 && d.size() == 1) { mode = ty; if (init_bad == 1) return; later(t_init, [this]() { u8 st = init_bad == 2 ? status : 0; if (init_bad == 3) { put({0x80}, now()); return; } if (init_bad == 4) { put({0x03, 0, 0, 0}, now()); return; } if (init_bad == 5) { put({0x02, 0}, now()); return; } if (newtype) msg({st, 0x10}, now()); else msg({st}, now()); }); return; }
		if (ty == 2 && d.size() == 2) { mode = 2; later(t_slow, [this, d]() { if (slow_bad == 1) { put({0x80}, now()); return; } if (slow_bad == 2) return; if (slow_bad == 3) { put({0x02, kb1}, now()); return; } if (d[1] != addr) { put({0x80}, now()); return; } handshake = true; if (newtype) msg({kb1, kb2}, now()); else msg({kb1}, now()); }); return; }
		if (ty == 3 && d.size() == 6 && newtype) { mode = 2; fastinits++; sc = Bytes(d.begin() + 1, d.end()); session = true; sessions++; Req r{sc, 0}; iso(r); return; }
		malformed++;
	}
	void iso(const Req &r) {
		std::vector<BrRsp> v; if (answers) v = answers(r); if (fault("f.ecu.silent")) v.clear();
		auto p = std::make_shared<std::vector<BrRsp>>(v); iso_next(p, 0);
	}
	void iso_next(std::shared_ptr<std::vector<BrRsp>> p, size_t i) { if (i == p->size()) return; later((*p)[i].t, [this, p, i]() { Bytes f = (*p)[i].d; if (fault("f.ecu.badcs")) f.back() ^= 4; u64 g = gen, t = put(f, now()); at(t, [this, p, i, g]() { if (g == gen) iso_next(p, i + 1); }); }); }
	void data(const Bytes &d) {
		if (mode < 0) { malformed++; return; }
		if (!j1850()) {
			if (handshake) { u8 k2 = newtype ? kb2 : kb1; if (d == Bytes({(u8)~k2}) && slow_bad != 4) { handshake = false; u8 a = slow_bad == 5 ? addr : (u8)~addr; later(35 * MS, [this, a]() { put({a}, now()); }); if (slow_bad != 5) { session = true; sessions++; } } return; }
			if (!session) return;
			Req r{d, 0}; reqs.push_back(r); req_t = now(); iso(r); return;
		}
		if (d.size() < 2) { malformed++; return; }
		Req r{Bytes(d.begin(), d.end() - 1), d.back()}; reqs.push_back(r); req_t = now();
		if (r.nr == 1) { if (!pending || r.d != curd) { cur.clear(); if (answers) cur = answers(r); if (fault("f.ecu.silent")) cur.clear(); nconf = conflicts; curd = r.d; pending = true; } }
		else if (r.d != curd) { malformed++; later(10 * MS, [this]() { put({0x80}, now()); }); return; }
		if (pending && nconf > 0) { nconf--; count("p.conflict"); later(15 * MS, [this]() { put({0x40}, now()); }); return; }
		if (fault("f.ad.err")) { later(20 * MS, [this]() { put({0x40}, now()); }); return; }
		pending = false;
		if (r.nr < 1 || r.nr > cur.size()) { later(80 * MS, [this]() { put({0x80}, now()); }); return; }
		BrRsp a = cur[r.nr - 1];
		later(a.t, [this, a]() { if (a.kind == 3) return; if (a.kind == 1) { msg(Bytes(a.d.begin(), a.d.begin() + vary(a.t, (u32)a.d.size() + 1)), now(), 0x80); return; } if (a.kind == 4) { put({0}, now()); return; } Bytes f = cat({(u8)a.d.size()}, a.d); if (mangle_rx) mangle_frame(f); if (a.kind == 2 && !f.empty()) f.resize(1 + vary(a.t, (u32)f.size() - 1)); put(f, now()); });
	}
	void settle(u64 t) { int n = 0; do { if (sched_end > now()) idle(sched_end - now()); idle(t); } while (sched_end > now() && ++n < 40); }
};
#define BR_FAULTS "f.ad.drop", "f.ad.flip", "f.ad.dup", "f.ad.cut", "f.ad.late", "f.ad.silent", "f.ad.stall", "f.ad.err", "f.ad.rxdrop", "f.ecu.silent", "f.ecu.badcs", "f.read.eio", "f.read.eintr", "f.read.short", "f.sel.err", "f.sel.late", "f.write.eio", "f.write.short", "f.write.zero", "f.oversleep"
struct BR {
	BrDev e; Sess s; size_t a0; int l1 = DIAG_L1_J1850_VPW, p = DIAG_L2_PROT_RAW; bool slow = true; u8 tgt = 0x33, src = 0xF1; std::deque<std::vector<BrRsp>> plan; bool probed = false;
	BR() { a0 = live_allocs(); e.answers = [this](const BrDev::Req &r) { std::vector<BrRsp> v; if (p == DIAG_L2_PROT_ISO14230 && r.d.size() == 5) { u8 sid = r.d[3]; if (sid == 0x81) { v.push_back({f14230(0x10, {0xC1, 0xE9, 0x8F}), 30 * MS}); return v; } if (sid == 0x82 || sid == 0x3E) { v.push_back({f14230(0x10, {(u8)(sid | 0x40)}), 30 * MS}); return v; } } if (p == DIAG_L2_PROT_ISO14230 && r.d == Bytes({0x80, 0, 0xF1, 1, 0x3E})) return v; if (!plan.empty()) { v = plan.front(); plan.pop_front(); } return v; }; }
	Bytes f14230(u8 es, const Bytes &d) { Bytes f = cat({(u8)(0x80 | d.size()), src, es}, d); f.push_back(cks(f)); return f; }
	Bytes frame(u8 es, const Bytes &d) { if (p == DIAG_L2_PROT_ISO14230) return f14230(es, d); Bytes f = cat({(u8)(l1 == DIAG_L1_J1850_PWM ? 0x41 : 0x48), (u8)0x6B, es}, d); f.push_back(p == DIAG_L2_PROT_ISO9141 ? cks(f) : j_crc(f)); return f; }
	bool pwm() const { return l1 == DIAG_L1_J1850_PWM; } bool j() const { return l1 == DIAG_L1_J1850_PWM || l1 == DIAG_L1_J1850_VPW; }
	void up() { e.newtype = rnd("k.new", 3); lib_up(); FaultsOff f; if (s.add("BR1", "/dev/ttyS0", &e)) VIOL("setup", "creating the interface failed"); static const u64 ch[] = {0, 0, 1 * MS, 4 * MS, 16 * MS}; s.t->rx_chunk = ch[rnd("k.chunk", 5)]; if (!j() && s.t->rx_chunk > 4 * MS) s.t->rx_chunk = 4 * MS; }
	bool open(int l = -1) { op_deadline(now() + 10 * SEC); bool r = s.open(l < 0 ? l1 : l); op_deadline(0); return r; }
	void probe() { if (!open(DIAG_L1_J1850_VPW)) VIOL("open:refused", "opening a healthy interface failed"); close(); }
	void open_good() { size_t i0 = e.inits.size(); e.mode = -1; if (!open()) VIOL("open:refused", "opening a healthy interface failed"); CHECK(s.t->cur.ospeed == 19200 && s.t->databits() == 8, "open:speed", "the port runs at %u", s.t->cur.ospeed); if (j()) CHECK(e.inits.size() == i0 + 1 && e.mode == pwm(), "open:init", "the interface was not initialised for %s (mode %d)", pwm() ? "PWM" : "VPW", e.mode); CHECK(e.connected, "open:phantom", "opening succeeded without connecting"); well_formed(); }
	void well_formed() { CHECK(e.malformed == 0, "frame:malformed", "%d malformed messages were sent to the interface", e.malformed); }
	bool start() { unsigned fl = p == DIAG_L2_PROT_ISO14230 && !slow ? (unsigned)DIAG_L2_TYPE_FASTINIT | (tgt == 0x33 ? (unsigned)DIAG_L2_TYPE_FUNCADDR : 0u) : (unsigned)DIAG_L2_TYPE_SLOWINIT; op_deadline(now() + 25 * SEC); bool r = s.start(p, fl, p == DIAG_L2_PROT_RAW ? 9600 : 0, tgt, src); op_deadline(0); return r; }
	void settle(u64 t = 0) { op_deadline(0); e.settle(t); }
	void finish() { op_deadline(now() + 60 * SEC); s.down(); lib_down(); op_deadline(0); end_checks(a0); }
	void close() { if (s.l2open) { CHECK(diag_l2_close(s.dl0d) == 0, "close:failed", "closing failed"); s.l2open = false; } }
	size_t mark() { return s.t->rx_log.size(); }
	bool window(size_t &pos, const Bytes &d) { auto &v = s.t->rx_log; for (size_t i = pos; i + 1 + d.size() <= v.size(); i++) { u8 c = v[i].b; if (c & 0xC0 || (size_t)(c & 15) != d.size()) continue; size_t k = 0; while (k < d.size() && v[i + 1 + k].b == d[k]) k++; if (k == d.size()) { pos = i + 1 + k; return true; } } return false; }
	// a frame with a correct checksum which contains d, among the bytes received since pos
	bool framed(size_t pos, const Bytes &d) { auto &v = s.t->rx_log; for (size_t i = pos; i + d.size() <= v.size(); i++) { size_t k = 0; while (k < d.size() && v[i + k].b == d[k]) k++; if (k < d.size() || i + k >= v.size()) continue; for (size_t h = 1; h <= 4 && h <= i - pos; h++) { Bytes b; for (size_t x = i - h; x < i + k; x++) b.push_back(v[x].b); if ((j() ? j_crc(b) : cks(b)) == v[i + k].b) return true; } } return false; }
};
void check_reqs(BR &k, size_t r0, const Bytes &q) { int nr = 1; CHECK(k.e.reqs.size() > r0, "send:missing", "the message did not reach the interface"); for (size_t i = r0; i < k.e.reqs.size(); i++) { auto &r = k.e.reqs[i]; CHECK(r.d == q, "send:data", "the interface was asked [%s] instead of [%s]", hex(r.d).c_str(), hex(q).c_str()); CHECK(r.nr >= nr && r.nr <= nr + 1, "send:frame-number", "frame number %d after %d", r.nr, nr); nr = r.nr; } k.well_formed(); }
void raw_exchange(BR &k) {
	size_t n = 1 + rnd("v.reqn", chance("k.long", 0.15) ? 40 : 14); Bytes q = rnd_bytes("v.req", n); size_t r0 = k.e.reqs.size(); std::vector<BrRsp> v; u32 m = rnd("n.rsp", 5); for (u32 i = 0; i < m; i++) v.push_back({rnd_bytes("v.rsp", 1 + rnd("v.rspn", 15)), (5 + rnd("v.d", 200)) * MS}); u32 bad = chance("k.bad", 0.3) && m ? 1 + rnd("v.bad", 4) : 0; if (bad) { v.back().kind = bad; } 
	k.e.conflicts = chance("k.conf", 0.2) ? (chance("k.manyconf", 0.15) ? 30 + rnd("v.conf30", 3) : 1 + rnd("v.conf", 8)) : 0; if (m == 0) k.e.conflicts = 0; k.e.pending = false; k.plan.clear(); k.plan.push_back(v); u64 t0 = now(); int rv = l2_send(k.s.conn, q, 5 * SEC);
	if (n > 14) { idle(20 * MS); CHECK(rv < 0, "send:too-long", "a message of %zu bytes was accepted", n); CHECK(k.e.reqs.size() == r0, "send:too-long-sent", "part of a message of %zu bytes was sent", n); k.well_formed(); return; }
	CHECK(rv == 0, "send:failed", "healthy send failed with %d", rv); if (chance("k.noread", 0.1)) { k.settle(rnd("v.gap", 100) * MS); check_reqs(k, r0, q); k.e.pending = false; return; }
	if (k.e.conflicts > 30) { t0 = now(); auto r = l2_recv(k.s.conn, 300, 10 * SEC); CHECK(r.null && r.err == DIAG_ERR_BUSERROR, "recv:conflict", "after %d bus conflicts receive returned %d", k.e.conflicts, r.err); CHECK(k.e.reqs.size() <= r0 + 32, "send:retries", "%zu attempts", k.e.reqs.size() - r0); for (size_t i = r0; i < k.e.reqs.size(); i++) CHECK(k.e.reqs[i].nr == 1, "send:frame-number", "a retry asks for frame %d", k.e.reqs[i].nr); check_reqs(k, r0, q); k.settle(); k.e.pending = false; return; }
	for (size_t i = 0; i < v.size(); i++) {
		t0 = now(); auto r = l2_recv(k.s.conn, 100 + rnd("v.to", 300), 10 * SEC);
		if (v[i].kind) { CHECK(r.null && r.err < 0, "recv:bad", "a bad answer (%d) was delivered as [%s]", v[i].kind, r.m.empty() ? "" : hex(r.m[0].d).c_str()); CHECK(now() - t0 < 900 * MS + k.e.conflicts * 40 * MS, "recv:slow", "the error took %.3f s", (now() - t0) / 1e9); count("p.bad"); break; }
		CHECK(!r.null && r.m.size() == 1, "recv:failed", "frame %zu of %zu: receive returned %d (after %d conflicts)", i, v.size(), r.err, k.e.conflicts); CHECK(r.m[0].d == v[i].d, "recv:data", "the interface sent [%s], delivered [%s]", hex(v[i].d).c_str(), hex(r.m[0].d).c_str());
	}
	if (!bad && rnd("k.more", 2)) { t0 = now(); auto r = l2_recv(k.s.conn, 30 + rnd("v.to", 300), 5 * SEC); CHECK(r.null && r.err == DIAG_ERR_TIMEOUT, "recv:extra", "nothing more was sent but receive returned %d", r.err); CHECK(now() - t0 < 700 * MS, "recv:slow", "receive took %.3f s", (now() - t0) / 1e9); }
	k.settle(); check_reqs(k, r0, q); u32 want = 0; for (size_t i = r0; i < k.e.reqs.size(); i++) want = std::max<u32>(want, k.e.reqs[i].nr); if (!bad) CHECK(want >= v.size(), "recv:frames", "frame %u was the last asked for of %zu", want, v.size());
}
}
SCENARIO("C22", br_raw, 1.3) {
	host_good(); BR k; k.l1 = rnd("k.pwm", 2) ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW; k.up(); int n = 1 + rnd("n.rounds", 2);
	while (n--) { k.open_good(); if (!k.start()) VIOL("start:refused", "raw start failed"); int m = 1 + rnd("n.ex", 7); while (m--) { raw_exchange(k); if (rnd("k.gap", 2)) idle(rnd("v.gap", 300) * MS); } k.s.stop(); k.settle(); k.close(); }
	sample("raw BR-1"); k.finish();
}
SCENARIO("C22", br_open, 1) {
	host_good(); BR k; static const int ps[] = {DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_ISO9141, DIAG_L1_ISO14230}; k.l1 = ps[rnd("v.l1", 4)]; k.up(); int n = 2 + rnd("n.rounds", 4);
	while (n--) {
		k.l1 = ps[rnd("v.l1", 4)]; bool bad = rnd("k.bad", 2); k.e.conn_bad = k.e.init_bad = 0; k.e.t_conn = (1 + rnd("v.tc", 70)) * MS; k.e.t_init = (1 + rnd("v.ti", 70)) * MS;
		if (!bad) { k.open_good(); k.close(); idle(rnd("v.gap", 100) * MS); continue; }
		if (k.j() && rnd("k.ib", 2)) { k.e.init_bad = 1 + rnd("v.ib", 5); k.e.status = 1 + rnd("v.st", 255); } else { k.e.conn_bad = 1 + rnd("v.cb", 2); k.e.ff = rnd("v.ff", 255); if (rnd("k.slowc", 2)) { k.e.conn_bad = 0; k.e.t_conn = (220 + rnd("v.tc", 200)) * MS; } }
		u64 t0 = now(); CHECK(!k.open(), "open:accepted", "opening succeeded although the interface did not answer the initialisation (%d %d)", k.e.conn_bad, k.e.init_bad); CHECK(now() - t0 < 1 * SEC, "open:slow", "failing took %.3f s", (now() - t0) / 1e9); CHECK(open_fds() == 0, "open:fd", "a failed open left %d descriptors", open_fds()); count("p.badopen"); k.settle(300 * MS); k.e.in.clear();
	}
	sample("BR-1 opening"); k.finish();
}
namespace {
struct Ans { Bytes d; u8 src; };
void good(BR &k) {
	bool iso = !k.j(); Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", k.p == DIAG_L2_PROT_ISO9141 ? 7 : k.p == DIAG_L2_PROT_ISO14230 ? 11 : 10)); if (iso && (q[0] == 0x81 || q[0] == 0x82 || q[0] == 0x3E)) q[0] = 1; std::vector<Ans> v; std::vector<BrRsp> l; u32 n = 1 + rnd("n.rsp", 4);
	for (u32 i = 0; i < n; i++) { Ans a; a.src = rnd("k.src2", 2) ? 0x10 + i : (u8)rnd("v.esrc", 256); a.d = rnd_bytes("v.rsp", 1 + rnd("v.rspn", iso && k.p == DIAG_L2_PROT_ISO14230 ? 30 : 7)); if (a.d[0] == 0x7F) a.d[0] = 0x41; v.push_back(a); l.push_back({k.frame(a.src, a.d), (iso ? 27 + rnd("v.d", 20) : 5 + rnd("v.d", 20)) * MS}); }
	k.plan.clear(); k.plan.push_back(l); size_t r0 = k.e.reqs.size(); k.e.conflicts = !iso && chance("k.conf", 0.15) ? 1 + rnd("v.conf", 3) : 0; k.e.pending = false; auto r = l2_request(k.s.conn, q, 20 * SEC); CHECK(k.e.reqs.size() > r0, "request:count", "no message reached the interface");
	Bytes f = k.e.reqs.back().d; u8 c = f.back(); f.pop_back(); CHECK(f.size() == q.size() + 3 && Bytes(f.begin() + 3, f.end()) == q && f[2] == k.src && (!k.j() || (f[0] == (k.pwm() ? 0x61 : 0x68) && f[1] == k.tgt)) && (k.p != DIAG_L2_PROT_ISO9141 || (f[0] == 0x68 && f[1] == 0x6A)) && c == (iso ? cks(f) : j_crc(f)), "request:data", "the interface was asked [%s] for [%s]", hex(k.e.reqs.back().d).c_str(), hex(q).c_str()); f.push_back(c); if (!iso) check_reqs(k, r0, f); else { size_t others = 0; for (size_t i = r0; i + 1 < k.e.reqs.size(); i++) { const Bytes &x = k.e.reqs[i].d; bool ka = (x.size() == 5 && x[3] == 0x3E) || (x.size() == 6 && x[3] == 1 && !x[4]); if (!ka) others++; } /* a keep-alive message that was due may come first */ CHECK(!others && k.e.reqs.size() <= r0 + 2, "request:count", "%zu messages reached the interface for one request", k.e.reqs.size() - r0); k.well_formed(); }
	CHECK(!r.null && r.err == 0, "exchange:failed", "healthy exchange failed with %d", r.err); CHECK(r.m.size() == v.size(), "exchange:count", "%zu answers, %zu delivered", v.size(), r.m.size());
	for (size_t i = 0; i < v.size(); i++) CHECK(r.m[i].d == v[i].d && r.m[i].src == v[i].src && !(r.m[i].fmt & DIAG_FMT_BADCS), "exchange:data", "answer [%s] from %02x delivered as [%s] from %02x", hex(v[i].d).c_str(), v[i].src, hex(r.m[i].d).c_str(), r.m[i].src);
}
void pick(BR &k, bool onlyj = false) {
	u32 w = onlyj ? 0 : rnd("k.proto", 3); if (w == 0) { k.p = DIAG_L2_PROT_SAEJ1850; k.l1 = rnd("k.pwm", 2) ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW; k.tgt = chance("k.jtgt", 0.7) ? 0x6A : (u8)rnd("v.jtgt", 256); if (chance("k.jsrc", 0.3)) k.src = rnd("v.jsrc", 256); } else if (w == 1) { k.p = DIAG_L2_PROT_ISO9141; k.l1 = DIAG_L1_ISO9141; if (rnd("k.94", 2)) k.e.kb1 = k.e.kb2 = 0x94; } else { k.p = DIAG_L2_PROT_ISO14230; k.l1 = DIAG_L1_ISO14230; k.slow = rnd("k.slow", 2); k.e.kb1 = 0xE9; k.e.kb2 = 0x8F; if (!k.slow && chance("k.tgt", 0.3)) k.tgt = rnd("v.tgt", 256); }
	if (w && k.slow && chance("k.tgt", 0.3)) k.tgt = rnd("v.tgt", 256); k.e.addr = k.tgt; k.e.t_slow = (2300 + rnd("v.ts", 2500)) * MS;
}
}
static void br_run(bool onlyj) {
	host_good(); BR k; pick(k, onlyj); k.up(); if (k.p == DIAG_L2_PROT_ISO14230 && k.slow) k.e.newtype = true; if (!k.slow && k.p == DIAG_L2_PROT_ISO14230) k.probe(); int n = 1 + rnd("n.rounds", 2);
	while (n--) {
		k.open_good(); bool iso = !k.j();
		if (iso && !k.slow && !k.e.newtype) { size_t i0 = k.e.inits.size(); CHECK(!k.start(), "start:accepted", "fast initialisation succeeded with an interface without it"); CHECK(k.e.inits.size() == i0, "start:sent", "an unsupported initialisation was sent"); k.close(); continue; }
		if (iso && k.slow && chance("k.bads", 0.4)) { k.e.slow_bad = 1 + rnd("v.sb", 5); u64 t0 = now(); CHECK(!k.start(), "start:accepted", "start succeeded although the initialisation failed (%d)", k.e.slow_bad); CHECK(now() - t0 < 8 * SEC, "start:slow", "the failing start took %.3f s", (now() - t0) / 1e9); k.e.slow_bad = 0; k.e.handshake = k.e.session = false; k.settle(200 * MS); k.close(); k.open_good(); count("p.badstart"); }
		int s0 = k.e.sessions; if (!k.start()) VIOL("start:refused", "a healthy start failed"); if (iso) { CHECK(k.e.sessions == s0 + 1 && k.e.session, "start:phantom", "%d sessions", k.e.sessions - s0); if (!k.slow) { u8 h = k.tgt == 0x33 ? 0xC1 : 0x81; Bytes sc = {h, k.tgt, k.src, 0x81}; sc.push_back(cks(sc)); CHECK(k.e.sc == sc, "start:request", "the start request was [%s]", hex(k.e.sc).c_str()); } }
		k.well_formed(); int m = rnd("n.ex", 6); while (m--) { good(k); if (rnd("k.gap", 2)) idle(rnd("v.gap", 1500) * MS); if (rnd("k.gap", 2)) idle(60 * MS); }
		if (k.p != DIAG_L2_PROT_ISO9141 && rnd("k.big", 2)) { Bytes big = rnd_bytes("v.big", 12 + rnd("v.bign", 30)); size_t r0 = k.e.reqs.size(); auto r = l2_request(k.s.conn, big, 20 * SEC); CHECK(r.null && r.err < 0, "request:too-long", "a request of %zu bytes was accepted", big.size()); CHECK(k.e.reqs.size() == r0, "request:too-long-sent", "part of a request of %zu bytes was sent", big.size()); k.well_formed(); good(k); }
		k.s.stop(); k.settle(); k.close(); k.well_formed(); k.e.session = false;
	}
	sample("protocol %d over BR-1", k.p); k.finish();
}
SCENARIO("C22", br_proto, 1.5) { br_run(false); }
SCENARIO("C12", j1850_br, 0.6) { br_run(true); }
SCENARIO("C22", br_faults, 2) {
	host_any(); BR k; bool raw = rnd("k.raw", 2); if (raw) k.l1 = rnd("k.pwm", 2) ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW; else pick(k); k.up(); if (!k.j()) k.e.newtype = true; { FaultsOff f; u64 os = oversleep_max; oversleep_max = 0; k.probe(); oversleep_max = os; } swarm({BR_FAULTS}, 0.25, 0.0005, 0.05); int n = 1 + rnd("n.rounds", 2);
	while (n--) {
		if (!k.s.l2open && !k.open()) { CHECK(open_fds() == 0, "open:fd", "a failed open left %d descriptors", open_fds()); continue; }
		u64 t0 = now(); bool st = k.start(); CHECK(now() - t0 < 12 * SEC, "start:slow", "starting took %.3f s", (now() - t0) / 1e9); int m = st ? rnd("n.ex", 7) : 0;
		while (m--) {
			size_t mk = k.mark(), pos = mk; Bytes q = rnd_bytes("v.req", 1 + rnd("v.reqn", 7)); std::vector<BrRsp> l; u32 na = rnd("n.rsp", 4); if (!raw && (q[0] == 0x81 || q[0] == 0x82 || q[0] == 0x3e)) q[0] = 1;
			if (raw) { for (u32 i = 0; i < na; i++) l.push_back({rnd_bytes("v.rsp", 1 + rnd("v.rspn", 15)), (5 + rnd("v.d", 100)) * MS}); k.plan.clear(); k.plan.push_back(l); size_t r0 = k.e.reqs.size(); if (l2_send(k.s.conn, q, 10 * SEC) == 0) { int c = 6; while (c--) { t0 = now(); auto r = l2_recv(k.s.conn, 50 + rnd("v.to", 400), 60 * SEC); CHECK(now() - t0 < 25 * SEC, "recv:slow", "receive took %.3f s", (now() - t0) / 1e9); if (r.null) { CHECK(r.err < 0, "recv:no-error", "nothing delivered but the result is %d", r.err); if (rnd("k.stop", 2)) break; continue; } for (auto &x : r.m) CHECK(k.window(pos, x.d), "recv:invented", "delivered [%s] is no message received since the request", hex(x.d).c_str()); } } if (rate("f.ad.rxdrop") == 0 && rate("f.write.short") == 0 && rate("f.write.zero") == 0 && rate("f.write.eio") == 0) for (size_t i = r0; i < k.e.reqs.size(); i++) CHECK(k.e.reqs[i].d == q, "send:data", "the interface was asked [%s] instead of [%s]", hex(k.e.reqs[i].d).c_str(), hex(q).c_str()); }
			else { for (u32 i = 0; i < na; i++) l.push_back({k.frame(0x10 + i, rnd_bytes("v.rsp", 1 + rnd("v.rspn", 7))), (k.j() ? 5 + rnd("v.d", 20) : 27 + rnd("v.d", 20)) * MS}); k.plan.clear(); k.plan.push_back(l); t0 = now(); auto r = l2_request(k.s.conn, q, 60 * SEC); CHECK(now() - t0 < 30 * SEC, "request:slow", "the request took %.3f s", (now() - t0) / 1e9); if (r.null) CHECK(r.err < 0, "request:no-error", "no answer but the error code is %d", r.err); for (auto &x : r.m) if (!(x.fmt & DIAG_FMT_BADCS)) CHECK(k.framed(mk, x.d), "msg:invented", "delivered [%s] is in no frame with a correct checksum received since the request", hex(x.d).c_str()); }
			if (rnd("k.gap", 2)) idle(rnd("v.gap", 1000) * MS);
		}
		k.s.stop(); if (rnd("k.close", 2)) k.close();
	}
	FaultsOff off; clear_rates(); k.settle(500 * MS); oversleep_max = 0; int tries = 0; k.plan.clear(); k.e.conflicts = k.e.pending = false;
	if (k.s.l2open) k.close(); // what the faults left half received in the interface is gone only once it is set up again
	k.settle(300 * MS); k.e.in.clear();
	for (;;) { tries++; CHECK(tries <= 3, "recovery", "after the faults stopped, no session could be opened within 3 tries"); if (!k.s.l2open && !k.open()) continue; if (k.start()) break; k.close(); k.settle(300 * MS); }
	k.settle(50 * MS); k.e.in.clear(); k.e.malformed = 0; if (raw) { raw_exchange(k); raw_exchange(k); } else { good(k); idle(60 * MS); good(k); }
	sample("faults over BR-1, protocol %d", k.p); k.finish();
}
// ------------------------------------------------------------------ C23
SCENARIO("C23", oom_br, 1) {
	host_good(); BR k; bool raw = rnd("k.raw", 3) == 0; if (raw) k.l1 = rnd("k.pwm", 2) ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW; else pick(k); k.up(); if (!k.j()) { k.e.newtype = true; k.probe(); }
	OomUnit u; u.name = "BR-1"; u.s = &k.s; u.rest = 500 * MS; auto fresh = [&]() { for (int i = 0; i < 30 && now() - k.e.req_t > 2700 * MS; i++) idle(100 * MS); }; /* no keep-alive is about to come */ u.open = [&]() { return k.open(); }; u.start = [&]() { return k.start(); }; u.good = [&]() { if (raw) raw_exchange(k); else { fresh(); good(k); idle(60 * MS); } }; u.stop = [&]() { k.s.stop(); }; u.calm = [&]() { k.plan.clear(); k.settle(300 * MS); k.e.conflicts = k.e.pending = false; k.e.in.clear(); k.e.handshake = false; }; u.finish = [&]() { k.finish(); };
	u.run();
}
#include "hostile.h"
SCENARIO("C24", hostile_br, 0.7) {
	host_good(); BR k; static const int l1[] = {DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_ISO9141, DIAG_L1_ISO14230}, l2[] = {DIAG_L2_PROT_SAEJ1850, DIAG_L2_PROT_SAEJ1850, DIAG_L2_PROT_ISO9141, DIAG_L2_PROT_ISO14230}; u32 w = rnd("v.l1", 4); k.l1 = l1[w]; k.p = rnd("k.raw", 4) ? l2[w] : DIAG_L2_PROT_RAW; k.slow = w == 2 || rnd("k.slow", 2); k.up();
	k.e.answers = [old = k.e.answers, &k](const BrDev::Req &r) { auto v = old(r); if (v.empty()) for (u32 n = rnd("n.rsp", 4); n--;) { BrRsp x{rnd("k.valid", 3) && k.p != DIAG_L2_PROT_RAW ? k.frame(0x10 + n, cat({(u8)(r.d.empty() ? 0x41 : r.d[0] | 0x40)}, rnd_bytes("v.rsp", rnd("v.rspn", 7)))) : rnd_bytes("v.pay", 1 + rnd("v.payn", 15)), (5 + rnd("v.d", 60)) * MS}; if (chance("k.bad", 0.2)) x.kind = 1 + rnd("v.bad", 4); v.push_back(x); } return v; };
	hostile_faults(); std::vector<int> all = {DIAG_L1_ISO9141, DIAG_L1_ISO14230, DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_RAW, k.l1, k.l1, k.l1, k.l1, k.l1, k.l1}; Api a{k.s, all, {k.p, DIAG_L2_PROT_RAW, DIAG_L2_PROT_SAEJ1850, DIAG_L2_PROT_ISO9141, DIAG_L2_PROT_ISO14230, DIAG_L2_PROT_VAG, DIAG_L2_PROT_MB1, DIAG_L2_PROT_D2}, [&]() { return k.start(); }}; a.run(3 + rnd("n.ops", 25)); sample("%u calls over a disturbed BR-1", a.nops); a.down(k.a0);
}
