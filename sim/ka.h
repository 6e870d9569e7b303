// Sessions of some protocol behind one face.
#pragma once
#include "car.h"
#include "kw.h"
#include "vag.h"
#include "mb.h"
namespace {
// a session of some protocol with what its ECU saw
struct KS {
	virtual ~KS() {}
	u64 interval = 3333 * MS, dur = 300 * MS;          // nominal interval, longest keep-alive exchange
	const char *name = "";
	virtual void prepare() = 0; virtual void up() = 0; virtual void start() = 0; virtual bool try_start() = 0; virtual void ex() = 0; virtual void any_ex() = 0;
	virtual void stop() = 0; virtual bool alive() = 0; virtual std::vector<u64> kas() = 0; virtual void finish() = 0; virtual KLine &bus() = 0;
	virtual size_t other() = 0;                        // requests the ECU got that are no keep-alives
	virtual bool keeps() { return true; }
	virtual bool insync(size_t) { return true; }       // false: both ends may take each other for the sender, nothing can be said (KW1281 after a stall)
	virtual std::string bad() = 0;
	virtual bool mute(bool) { return false; }          // the ECU does not answer keep-alives
	virtual u64 recovery() { return 5500 * MS; }
	virtual Sess &sess() = 0; virtual bool reopen() = 0;
	virtual void split(u64) {}                         // send, wait, receive: exact
	virtual bool polls() { return false; }
	virtual void listen(unsigned) {}                   // receive although nothing comes: nothing may come
	size_t sent() { size_t n = 0; for (auto &b : bus().bus) if (b.src == 0) n++; return n; }
};
struct K14 : KS {
	KW k; size_t oth = 0;
	Sess &sess() override { return k.s; } bool reopen() override { return k.s.open(DIAG_L1_ISO14230); }
	void prepare() override { name = "ISO 14230"; k.setup(); }
	void up() override { k.up(); } void start() override { start_good(k); } bool try_start() override { return k.start(); } void ex() override { good_exchange(k, false); }
	void any_ex() override { Bytes q = k.rnd_req(20); k.ecu.plan.clear(); k.ecu.plan.push_back(rnd_rsps(k, q, true)); size_t mk = k.bus.mark(); auto r = do_request(k, q, 60 * SEC); soundness(k, mk, r); }
	void stop() override { k.s.stop(); } bool alive() override { k.ecu.check_alive(now()); return k.ecu.st == Ecu14230::SESSION; } std::vector<u64> kas() override { return k.ecu.ka_times; } void finish() override { k.finish(); } KLine &bus() override { return k.bus; }
	size_t other() override { size_t n = 0; for (auto &f : k.ecu.got) if (f.b[0] != 0x3E && f.b != Bytes({1, 0})) n++; return n; }
	std::string bad() override { return k.ecu.bad_got.empty() ? "" : hex(k.ecu.bad_got[0].b); }
	bool mute(bool m) override { k.ecu.answer_ka = !m; return true; }
	void split(u64 w) override {
		Bytes q = k.rnd_req(k.maxreq()); auto v = rnd_rsps(k, q, false); size_t g0 = k.ecu.got.size(); k.ecu.plan.clear(); k.ecu.plan.push_back(v); int rv = l2_send(k.s.conn, q, 60 * SEC); CHECK(rv == 0, "send:failed", "healthy send failed with %d", rv);
		idle(w); auto r = l2_recv(k.s.conn, 100 + rnd("v.to", 400), 20 * SEC); expect_exact(k, v, r); size_t n = 0; for (size_t i = g0; i < k.ecu.got.size(); i++) n += k.ecu.got[i].b == q; CHECK(n == 1, "request:count", "the ECU got the request %zu times", n);
	}
	bool polls() override { return true; }
	void listen(unsigned ms) override { auto r = l2_recv(k.s.conn, ms, 20 * SEC); CHECK(r.null && r.m.empty(), "mix:leak", "%s: a message [%s] was received although only keep-alives were answered", name, r.m.empty() ? "" : hex(r.m[0].d).c_str()); }
};
struct KVag : KS {
	VG k;
	Sess &sess() override { return k.s; } bool reopen() override { return k.s.open(DIAG_L1_ISO9141); }
	void prepare() override { name = "KW1281"; interval = 500 * MS; dur = 1500 * MS; k.setup(); }
	void up() override { k.up(); } void start() override { start_good(k, true); } bool try_start() override { return k.start(); } void ex() override { good_exchange(k); }
	void any_ex() override { Blk q = k.blk(20); Plan1281 p; p.tele = k.tele(3); k.ecu.plan.clear(); k.ecu.plan.push_back(p); auto r = k.request(q); sound(p.tele, false, 0, r, "answer"); }
	void stop() override { k.s.stop(); } bool alive() override { return k.ecu.st > Ecu1281::KB; } std::vector<u64> kas() override { return k.ecu.ka_t; } void finish() override { k.finish(); } KLine &bus() override { return k.bus; }
	size_t other() override { return k.ecu.got.size(); } std::string bad() override { return k.ecu.bad_got.empty() ? "" : k.ecu.bad_got[0]; }
	u64 recovery() override { return 3 * SEC; }
	bool insync(size_t n) override { return k.ecu.ka_t.size() > n; }
};
struct KMb : KS {
	MB k;
	Sess &sess() override { return k.s; } bool reopen() override { return k.s.open(DIAG_L1_ISO9141); }
	void prepare() override { name = "MB1"; interval = 500 * MS; k.setup(); }
	void up() override { k.up(); } void start() override { start_good(k); } bool try_start() override { return k.start(); } void ex() override { good_exchange(k, false); }
	void any_ex() override { Bytes q = k.req(); RspMb p = k.rsp(); k.ecu.plan.clear(); k.ecu.plan.push_back(p); auto r = l2_request(k.s.conn, q, 20 * SEC); if (!r.null && !(r.m[0].fmt & DIAG_FMT_BADCS)) CHECK(r.m[0].d == p.d || faults_fired, "exchange:data", "wrong answer"); }
	void stop() override { k.s.stop(); } bool alive() override { k.ecu.alive(now()); return k.ecu.st == EcuMb::SESSION; } std::vector<u64> kas() override { return k.ecu.ka_t; } void finish() override { k.finish(); } KLine &bus() override { return k.bus; }
	size_t other() override { return k.ecu.got.size(); } std::string bad() override { return k.ecu.bad_got.empty() ? "" : hex(k.ecu.bad_got[0].b); }
	u64 recovery() override { return 1500 * MS; }
	void split(u64 w) override { Bytes q = k.req(); RspMb p = k.rsp(); k.ecu.plan.clear(); k.ecu.plan.push_back(p); size_t g0 = k.ecu.got.size(); int rv = l2_send(k.s.conn, q, 20 * SEC); CHECK(rv == 0, "send:failed", "healthy send failed with %d", rv); idle(std::min<u64>(w, 150 * MS)); auto r = l2_recv(k.s.conn, 1000, 20 * SEC); CHECK(!r.null && r.m.size() == 1 && r.m[0].d == p.d, "exchange:data", "sent [%s] delivered [%s]", hex(p.d).c_str(), r.m.empty() ? "" : hex(r.m[0].d).c_str()); CHECK(k.ecu.got.size() == g0 + 1, "request:count", "%zu requests reached the ECU", k.ecu.got.size() - g0); }
};
struct KCar : KS {
	Rig g; u64 from = 0;
	Sess &sess() override { return g.S(); } bool reopen() override { return g.open(); }
	void prepare() override { name = "J1979"; g.elm = chance("k.elm", 0.3); g.p = g.elm ? rnd("k.proto", 5) : 2 + rnd("k.proto", 3); interval = g.elm || g.p != I9141 ? 3333 * MS : 3500 * MS; dur = 700 * MS; g.car.make(1 + rnd("n.ecu", 3), false); }
	void up() override { g.up(); g.bus.tty = g.S().t; if (!g.open()) VIOL("open:refused", "opening failed"); }
	void start() override { if (!g.start()) VIOL("start:refused", "a healthy start failed"); if (!g.l3start()) VIOL("l3:refused", "the J1979 layer was refused"); from = now(); }
	bool try_start() override { if (!g.start()) return false; if (!g.l3start()) { g.S().stop(); return false; } from = now(); return true; }
	void ex() override {
		Bytes q; std::vector<Car::A> want; for (int i = 0; i < 20; i++) { q = j_req(g.car); want = expected(g, q); if (!want.empty()) break; }
		if (q == Bytes({1, 0})) q = {1, 1}, want = expected(g, q);
		if (want.empty()) q = {4}, want = expected(g, q);
		ReqResult r = rnd("k.rq", 2) ? l3_request(g.l3, q, 10 * SEC) : l3_sendrecv(g.l3, q, 300, 10 * SEC);
		if (want.empty()) { CHECK(r.null && r.err < 0, "l3:silence", "nobody answered but the result is %d %s", r.err, str(r.m).c_str()); return; }
		CHECK(!r.null, "l3:failed", "healthy exchange [%s] failed with %d", hex(q).c_str(), r.err); CHECK(same(want, r.m), "l3:data", "[%s]: the car answered %s, delivered %s", hex(q).c_str(), str(want).c_str(), str(r.m).c_str());
		if (g.elm) g.k.settle();
	}
	void any_ex() override { Bytes q = j_req(g.car); (void)(rnd("k.rq", 2) ? l3_request(g.l3, q, 30 * SEC) : l3_sendrecv(g.l3, q, 300, 30 * SEC)); }
	void stop() override { g.l3stop(); g.S().stop(); }
	bool alive() override { if (g.elm) return true; if (g.p == I9141) { g.e9.check_alive(now()); return g.e9.st == Ecu9141::SESSION; } g.e14.check_alive(now()); return g.e14.st == Ecu14230::SESSION; }
	std::vector<u64> kas() override { std::vector<u64> v; for (size_t i = 0; i < g.got.size(); i++) if (g.got[i] == Bytes({1, 0}) && g.got_t[i] > from) v.push_back(g.got_t[i]); return v; }
	void finish() override { g.finish(); } KLine &bus() override { return g.bus; }
	size_t other() override { size_t n = 0; for (auto &q : g.got) if (q != Bytes({1, 0})) n++; return n; }
	bool keeps() override { return !g.elm; }
	std::string bad() override { return g.elm ? "" : g.p == I9141 ? (g.e9.bad_got.empty() ? "" : hex(g.e9.bad_got[0].b)) : g.e14.bad_got.empty() ? "" : hex(g.e14.bad_got[0].b); }
	bool mute(bool m) override { g.mute_ka = m; return true; }
	void split(u64 w) override {
		Bytes q; std::vector<Car::A> want; for (int i = 0; i < 20; i++) { q = j_req(g.car); want = expected(g, q); if (want.size() == 1 && q != Bytes({1, 0})) break; } if (want.size() != 1 || q == Bytes({1, 0})) { ex(); return; }
		struct diag_msg msg; memset(&msg, 0, sizeof msg); msg.data = q.data(); msg.len = q.size(); set_op("l3_send"); op_deadline(now() + 20 * SEC); int rv = diag_l3_send(g.l3, &msg); op_deadline(0); CHECK(rv == 0, "send:failed", "healthy send failed with %d", rv); idle(w);
		ReqResult r; set_op("l3_recv"); op_deadline(now() + 20 * SEC); r.err = diag_l3_recv(g.l3, 300, l3cb, &r.m); op_deadline(0); CHECK(r.err >= 0 && same(want, r.m), "l3:data", "[%s]: the car answered %s, delivered %s (%d)", hex(q).c_str(), str(want).c_str(), str(r.m).c_str(), r.err); if (g.elm) g.k.settle();
	}
	bool polls() override { return !g.elm; }
	void listen(unsigned ms) override { if (g.elm) { idle(ms * MS); return; } ReqResult r; set_op("l3_recv"); op_deadline(now() + 20 * SEC); r.err = diag_l3_recv(g.l3, ms, l3cb, &r.m); op_deadline(0); CHECK(r.m.empty(), "mix:leak", "a message %s was received although only keep-alives were answered", str(r.m).c_str()); }
};
std::unique_ptr<KS> make_ks() {
	std::unique_ptr<KS> p; switch (rnd("k.what", 4)) { case 0: p.reset(new K14); break; case 1: p.reset(new KVag); break; case 2: p.reset(new KMb); break; default: p.reset(new KCar); }
	p->prepare(); return p;
}
}
