// KW1281 sessions with the model ECU (C13, C25, C24).
#pragma once
#include "ecu1281.h"
namespace {
struct VMsg { Bytes d; unsigned type; unsigned fmt; };
struct VRes { std::vector<VMsg> m; int err = 0; bool null = true; };
static std::vector<VMsg> vchain(struct diag_msg *m) { std::vector<VMsg> r; for (; m; m = m->next) { VMsg x; if (m->len && m->data) x.d.assign(m->data, m->data + m->len); CHECK(m->len == 0 || m->data, "msg:nodata", "a message of %u bytes without data", m->len); x.type = m->type; x.fmt = m->fmt; r.push_back(x); if (r.size() > 5000) VIOL("msg:loop", "endless message chain"); } return r; }
static void vcb(void *h, struct diag_msg *m) { auto v = (std::vector<VMsg> *)h; for (auto &x : vchain(m)) v->push_back(x); }
struct VG {
	KLine bus; Ecu1281 ecu; Sess s; size_t a0; int opts; u64 chunk = 0; unsigned speed = 0;
	VG() { a0 = live_allocs(); }
	Blk blk(u32 maxlen) { Blk b; do b.type = rnd("v.type", 256); while (b.type == 0x09 || b.type == 0x0A || b.type == 0x06); u32 n = rnd("v.bl", chance("k.longblk", 0.1) ? maxlen + 1 : 13); b.d = rnd_bytes("v.bd", n); return b; }
	std::vector<Blk> tele(u32 maxn) { std::vector<Blk> v; u32 n = rnd("n.blk", maxn + 1); while (n--) v.push_back(blk(60)); return v; }
	void setup() {
		opts = dopts[rnd("k.dopt", 20)]; bus.has_l = opts & 1; bus.l_inv = opts & 0x10;
		static const unsigned sp[] = {0, 10400, 9600, 9600, 4800}; speed = sp[rnd("v.speed", 5)]; ecu.baud = speed ? speed : 10400;
		static const u8 ts[] = {0x01, 0x02, 0x17, 0x56, 0x00, 0xFF, 0x55, 0x80}; ecu.addr = ts[rnd("v.tgt", 8)]; if (chance("k.tgt", 0.3)) ecu.addr = rnd("v.tgt2", 256);
		static const u64 ch[] = {0, 0, 1 * MS, 4 * MS, 8 * MS}; chunk = ch[rnd("k.chunk", 5)]; if (opts & 0x20) chunk = 0;
		ecu.r1 = (80 + rnd("v.r1", 131)) * MS; ecu.r2 = 5 * MS + rnd("v.r2", 41) * MS; if (ecu.r2 > 46 * MS - chunk) ecu.r2 = 46 * MS - chunk;
		ecu.r3 = 1 * MS + rnd("v.r3", 17) * MS; if (ecu.r3 > 16 * MS - chunk) ecu.r3 = 16 * MS - chunk;
		ecu.r5 = 25 * MS + rnd("v.r5", 21) * MS; if (ecu.r5 > 46 * MS - chunk) ecu.r5 = 46 * MS - chunk;
		static const u64 r7[] = {1, 1, 1, 2, 3, 5, 10, 25, 40}; ecu.r6 = r7[rnd("v.r6", 9)] * MS; ecu.r7 = r7[rnd("v.r7", 9)] * MS;
		static const u64 rb[] = {1, 5, 10, 20, 50, 200, 700}; ecu.rb = rb[rnd("v.rb", 7)] * MS;
		ecu.id.push_back(blk(40)); ecu.id[0].type = 0xF6; for (auto &b : tele(4)) ecu.id.push_back(b);
		if ((opts & 1) && chance("k.lonly", 0.5)) ecu.listen_l = true;
		bus.add(&ecu);
	}
	void up() {
		lib_up(); FaultsOff f;
		if (s.add("DUMB", "/dev/ttyS0", &bus, opts)) VIOL("setup", "creating the interface failed");
		s.t->rx_chunk = chunk;
		if (!s.open(DIAG_L1_ISO9141)) VIOL("open", "opening a healthy port failed");
	}
	bool start() { op_deadline(now() + 400 * SEC); bool r = s.start(DIAG_L2_PROT_VAG, DIAG_L2_TYPE_SLOWINIT, speed, ecu.addr, 0xF1); op_deadline(0); return r; }
	VRes request(const Blk &q, u64 limit = 900 * SEC) {
		Bytes d = q.d; struct diag_msg msg; memset(&msg, 0, sizeof msg); msg.type = q.type; msg.len = d.size(); msg.data = d.empty() ? nullptr : d.data();
		set_op("request"); ev("request %02x", q.type); evbytes("request", d.data(), d.size()); op_deadline(now() + limit); int err = 0;
		struct diag_msg *r = diag_l2_request(s.conn, &msg, &err); op_deadline(0);
		CHECK(d == q.d, "request:modified", "the request's data was modified");
		VRes rr; rr.null = !r; rr.err = err; rr.m = vchain(r); ev("answer %s err %d n %zu", r ? "yes" : "no", err, rr.m.size()); for (auto &x : rr.m) { ev("type %02x", x.type); evbytes("msg", x.d.data(), x.d.size()); }
		if (r) diag_freemsg(r);
		soft_fail(rr.null); return rr;
	}
	VRes recv(unsigned tout = 0) { VRes r; set_op("recv"); op_deadline(now() + 400 * SEC); r.err = diag_l2_recv(s.conn, tout, vcb, &r.m); op_deadline(0); r.null = r.err < 0; ev("recv %d n %zu", r.err, r.m.size()); soft_fail(r.null); return r; }
	int send(const Blk &q) { Bytes d = q.d; struct diag_msg msg; memset(&msg, 0, sizeof msg); msg.type = q.type; msg.len = d.size(); msg.data = d.empty() ? nullptr : d.data(); set_op("send"); op_deadline(now() + 100 * SEC); int rv = diag_l2_send(s.conn, &msg); op_deadline(0); ev("send %d", rv); soft_fail(rv < 0); return rv; }
	void finish() { op_deadline(now() + 200 * SEC); s.down(); lib_down(); op_deadline(0); end_checks(a0); }
	void sane() {
		CHECK(ecu.bad_got.empty(), "block:malformed", "the ECU got a wrong block: %s", ecu.bad_got.empty() ? "" : ecu.bad_got[0].c_str());
		CHECK(ecu.lost == 0, "session:lost", "the ECU gave the session up");
		CHECK(ecu.min_comp >= 1 * MS, "complement:early", "complement only %.3f ms after the byte", ecu.min_comp / 1e6);
	}
};
void same(const std::vector<Blk> &want, const VRes &r, const char *what) {
	CHECK(!r.null && r.err == 0, "exchange:failed", "healthy %s failed with %d", what, r.err);
	if (want.empty()) { CHECK(r.m.size() == 1 && r.m[0].type == 0x09 && r.m[0].d.empty(), "exchange:ack", "%s: the ECU only acknowledged, delivered were %zu blocks", what, r.m.size()); return; }
	CHECK(r.m.size() == want.size(), "exchange:count", "%s: %zu blocks sent, %zu delivered", what, want.size(), r.m.size());
	for (size_t i = 0; i < want.size(); i++) {
		CHECK(r.m[i].type == want[i].type, "exchange:type", "%s: block %zu has type %02x instead of %02x", what, i, r.m[i].type, want[i].type);
		CHECK(r.m[i].d == want[i].d, "exchange:data", "%s: block %zu: sent [%s] delivered [%s]", what, i, hex(want[i].d).c_str(), hex(r.m[i].d).c_str());
	}
}
// under faults: what is delivered is the ECU's telegram, whole
void sound(const std::vector<Blk> &want, bool unknown, u8 nak, const VRes &r, const char *what) {
	if (r.null) { CHECK(r.err < 0, "request:no-error", "%s: no answer but the error code is %d", what, r.err); return; }
	if (r.m.size() == 1 && r.m[0].type == 0x0A) { CHECK(unknown || r.m[0].d.size() == 1, "nak", "%s: odd no-acknowledge", what); (void)nak; return; }
	same(want, r, what);
}
void start_good(VG &k, bool take) {
	int s0 = k.ecu.sessions;
	if (!k.start()) VIOL("start:refused", "a healthy KW1281 start failed (opts %x address %02x)", k.opts, k.ecu.addr);
	CHECK(k.ecu.sessions == s0 + 1 && k.ecu.st == Ecu1281::RECEIVING, "start:phantom", "start succeeded but the ECU is not in a session");
	struct diag_l2_data d; memset(&d, 0, sizeof d); diag_l2_ioctl(k.s.conn, DIAG_IOCTL_GET_L2_DATA, &d);
	CHECK(d.kb1 == k.ecu.kb1 && d.kb2 == k.ecu.kb2, "start:keybytes", "key bytes %02x %02x recorded", d.kb1, d.kb2);
	if (take) { if (rnd("k.idlefirst", 2)) idle(rnd("v.idle", 3000) * MS); same(k.ecu.id, k.recv(rnd("k.rt", 2) ? 100 : 0), "identification"); }
}
void good_exchange(VG &k) {
	Blk q = k.blk(252); Plan1281 p; p.tele = k.tele(5); k.ecu.plan.clear(); k.ecu.plan.push_back(p);
	size_t g0 = k.ecu.got.size(); VRes r;
	if (chance("k.split", 0.2)) { int rv = k.send(q); CHECK(rv == 0, "send:failed", "healthy send failed with %d", rv); r = k.recv(); }
	else r = k.request(q);
	CHECK(k.ecu.got.size() == g0 + 1, "request:count", "the ECU got the request %zu times", k.ecu.got.size() - g0);
	CHECK(k.ecu.got.back().type == q.type && k.ecu.got.back().d == q.d, "request:data", "the ECU got %02x [%s] instead of %02x [%s]", k.ecu.got.back().type, hex(k.ecu.got.back().d).c_str(), q.type, hex(q.d).c_str());
	same(p.tele, r, "answer");
}
}
