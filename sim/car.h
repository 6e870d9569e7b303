// A model car (several ECUs answering SAE J1979 requests) behind an interface.
#pragma once
#include "elm_sess.h"
#include "ecu9141.h"
#include "ecu14230.h"
extern "C" {
#include "scantool.h"
#include "scantool_cli.h"
#include "diag_l3_saej1979.h"
extern uint8_t merged_mode1_info[0x100], merged_mode5_info[0x100], global_O2_sensors;
}
#include <algorithm>
namespace {
// ---- reference model: a car with some ECUs
struct CEcu { u8 src; bool sup[10][256]; bool shortc = false; Bytes dtc3, dtc7; u8 o2loc, ndtc_mil; bool noff = false; };
int plen(u8 pid) { static const u8 l[0x20] = {4, 4, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1, 1, 1, 2, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 2}; return pid % 0x20 == 0 ? 4 : pid < 0x20 ? l[pid] : 1 + pid % 5; }
struct Car {
	std::vector<CEcu> e; u64 seed = 0; u32 live = 0; bool letters = false, shortok = false;   // shortok: lists of codes need not be filled up
	
	u8 val(int i, u8 mode, u8 pid, int k) const { Prng p(seed * 131 + i * 65599 + mode * 257 + pid * 7 + k + (mode == 1 && pid > 2 && pid != 0x13 && pid != 0x1c ? live * 1000003ull : 0)); p.next(); p.next(); u8 v = p.byte(); return letters && mode == 9 ? 'A' + v % 20 : v; }
	Bytes bits(int i, u8 mode, u8 pid) const { Bytes b(4); for (int k = 1; k <= 0x20 && pid + k < 256; k++) if (e[i].sup[mode][pid + k]) b[(k - 1) / 8] |= 0x80 >> ((k - 1) % 8); return b; }
	void make(u32 n, bool small) {
		seed = choose("v.car", 1u << 30, 1.0); Prng p(seed); std::set<u8> used;
		for (u32 i = 0; i < n; i++) {
			CEcu c; memset(c.sup, 0, sizeof c.sup); do c.src = p.below(3) ? 0x10 + p.below(16) : p.byte(); while (!c.src || c.src == 0x33 || used.count(c.src)); used.insert(c.src);
			static const int md[] = {1, 2, 5, 6, 8, 9};
			for (int m : md) {
				if (m != 1 && p.below(2)) continue;
				c.sup[m][0] = true; int blocks = 1 + (p.below(4) == 0 ? p.below(8) : p.below(2)); u32 dens = 1 + p.below(small ? 3 : 10);
				if (m == 5) { blocks = 1; }
				for (int b = 0; b < blocks; b++) { if (b) c.sup[m][b * 0x20] = true; for (int k = 1; k < 0x20; k++) c.sup[m][b * 0x20 + k] = p.below(30) < dens; }
			}
			if (p.below(2)) c.sup[1][1] = true;
			if (p.below(2)) c.sup[1][0x13] = true; if (p.below(2)) c.sup[1][0x1c] = true;
			if (p.below(2)) c.sup[2][2] = c.sup[2][0];
			u32 nd = p.below(3) ? p.below(n > 4 ? 4 : 8) : 0; c.ndtc_mil = (p.below(4) ? nd : p.below(128)) | (p.below(2) << 7);
			for (u32 k = 0; k < nd; k++) { u8 a = p.below(4) ? p.byte() : 0; c.dtc3.push_back(a); c.dtc3.push_back(a ? p.byte() : p.below(6) ? 1 + p.below(255) : 0); }
			nd = p.below(2) ? p.below(6) : 0; for (u32 k = 0; k < nd; k++) { u8 a = p.below(4) ? p.byte() : 0; c.dtc7.push_back(a); c.dtc7.push_back(a ? p.byte() : p.below(6) ? 1 + p.below(255) : 0); }
			c.o2loc = p.byte() & p.byte(); c.shortc = p.below(4) == 0; e.push_back(c);
		}
	}
	// what ECU i answers to q (none: it does not support it)
	std::vector<Bytes> answer1(int i, const Bytes &q) const {
		const CEcu &c = e[i]; u8 m = q.empty() ? 0 : q[0], pid = q.size() > 1 ? q[1] : 0; Bytes a = {(u8)(m | 0x40)}; static const size_t ql[] = {0, 2, 3, 1, 1, 3, 2, 1, 7, 2};
		if (m < 1 || m > 9 || q.size() != ql[m]) return {};
		auto codes = [&](const Bytes &d) { std::vector<Bytes> v; for (size_t k = 0; k < d.size(); k += 6) { Bytes x = a; for (size_t j = k; j < k + 6; j++) if (j < d.size() || !(shortok && c.shortc)) x.push_back(j < d.size() ? d[j] : 0); v.push_back(x); } return v; };
		if (m == 3) return codes(c.dtc3); if (m == 7) return codes(c.dtc7); if (m == 4) return {a};
		if (!c.sup[m][pid]) return {};
		a.push_back(pid); if (m == 2 || m == 5) a.push_back(q[2]);
		if (pid % 0x20 == 0) { if (m == 6 || m == 9) a.push_back(m == 6 ? 0xFF : 1); a = cat(a, bits(i, m, pid)); return {a}; }
		int n = 4;
		switch (m) { case 1: n = plen(pid); break; case 2: n = std::min(plen(pid), 4); break; case 5: n = pid <= 4 ? 1 : 3; break; case 6: n = 5; break; case 8: n = 5; break; case 9: n = pid & 1 ? 1 : 5; break; }
		for (int k = 0; k < n; k++) a.push_back(val(i, m, pid, k));
		Prng w(seed * 31 + i * 977 + pid * 13); w.next(); u32 r = w.below(6);
		if (m == 1 && pid == 1) { for (int k = 3; k < 6; k++) { u32 z = w.below(4); if (z == 0) a[k] = 0; else if (z == 1) a[k] = 1 << w.below(8); } a[2] = c.ndtc_mil; }
		if (m == 1 && pid == 3 && r) a[2] = 1 << (r - 1);
		if (m == 6) { if (r < 3) a[3] = a[5] = 0; if (r % 3 == 0) { a[5] = a[3]; a[6] = a[4]; } else if (r == 1) { a[5] = a[3]; a[6] = a[4] + 1; } }
		if (m == 5 && n == 3 && r < 4) a[4 + r / 2] = a[3] + r % 2;
		 if (m == 1 && pid == 0x13) a[2] = c.o2loc;
		if (m == 2 && pid == 2 && (seed & 1 || c.noff)) a[3] = a[4] = 0;
		if (m == 9 && !(pid & 1)) { std::vector<Bytes> v; a[2] = 1; for (u8 k = 1; k <= 1 + seed % 3; k++) { a[2] = k; v.push_back(a); for (size_t j = 3; j < a.size(); j++) a[j] += k; } return v; }
		return {a};
	}
	struct A { u8 src; Bytes d; };
	std::function<bool(const Bytes &, std::vector<A> &)> special;   // something else answers
	std::vector<A> answer(const Bytes &q) const { std::vector<A> v; if (special && special(q, v)) return v; for (size_t i = 0; i < e.size(); i++) for (auto &d : answer1(i, q)) v.push_back({e[i].src, d}); return v; }
};
enum { VPW, PWM, FAST, I9141, SLOW };
Bytes frm(int p, u8 src, const Bytes &d, u8 ts = 0xF1) {
	Bytes f = p <= PWM ? Bytes{(u8)(p == PWM ? 0x41 : 0x48), 0x6B, src} : p == I9141 ? Bytes{0x48, 0x6B, src} : Bytes{(u8)(0x80 | d.size()), ts, src};
	f = cat(f, d); f.push_back(p <= PWM ? j_crc(f) : cks(f)); return f;
}
// ---- the car behind an interface
std::string sfmt1(u8 a) { char b[8]; snprintf(b, sizeof b, "%02x", a); return b; }
struct Rig {
	Car car; int p = I9141; bool elm = false; size_t a0; std::vector<Bytes> got; std::vector<u64> got_t; std::vector<std::vector<Car::A>> ans; bool negall = false, vary_live = false; std::deque<Bytes> odd; bool nego = false, mute_ka = false; u8 tsrc = 0xF1; std::string wrong;
	KLine bus; Ecu9141 e9; Ecu14230 e14; Sess s; EL k; bool odds = false; struct diag_l3_conn *l3 = nullptr;
	Rig() { a0 = live_allocs(); }
	Sess &S() { return elm ? k.s : s; }
	// with nego: over ISO14230 the ECUs that have no answer refuse the request
	std::vector<Car::A> negs(const Bytes &q, std::vector<Car::A> v) {
		if (!nego || (p != FAST && p != SLOW) || q.empty() || q[0] == 3 || q[0] == 7 || (car.e.size() > 1 && !elm && !e14.long_ok())) return v; std::vector<Car::A> r;
		for (auto &x : car.e) { bool any = false; for (auto &a : v) if (a.src == x.src) { r.push_back(a); any = true; } if (!any) { r.push_back({x.src, {0x7F, q[0], 0x12}}); if (!v.empty()) count("p.mixed-refusal"); } }
		for (auto &a : v) { bool known = false; for (auto &x : car.e) if (x.src == a.src) known = true; if (!known) r.push_back(a); } return r;
	}
	// answers as the ECUs give them, maybe spoilt
	std::vector<Car::A> reply(const Bytes &q) { if (vary_live && q.size() > 1 && q[0] == 1) car.live++; auto v = reply1(q); ans.push_back(v); return v; }
	std::vector<Car::A> reply1(const Bytes &q) {
		got.push_back(q); got_t.push_back(now()); evbytes("car", q.data(), q.size());
		auto v = car.answer(q); if (mute_ka && q == Bytes({1, 0})) v.clear();
		bool tell = q.size() > 1 && q[0] == 1 && (q[1] == 0x1c || q[1] == 1 || q[1] == 0x13); if (!odds || !chance("k.odd", tell ? 0.3 : 0.1)) { if (v.empty() && negall && car.e.size() == 1 && !q.empty()) v.push_back({car.e[0].src, {0x7F, q[0], 0x12}}); return negs(q, v); }
		count("p.odd"); u32 w = tell && rnd("k.short", 2) ? 0 : rnd("v.odd", 9); size_t i = v.empty() ? 0 : rnd("v.oi", (u32)v.size());
		if (v.empty()) v.push_back({car.e[0].src, {(u8)(q[0] | 0x40)}});
		Bytes &d = v[i].d;
		switch (w) {
		case 0: d.resize(1 + rnd("v.cut", (u32)d.size())); break;
		case 1: { Bytes x = rnd_bytes("v.ext", 1 + rnd("v.extn", p == I9141 || p <= PWM ? 7 : 30)); d = cat(d, x); if (p == I9141 || p <= PWM) if (d.size() > 7) d.resize(7); break; }
		case 2: if (d.size() > 1) d[1] ^= 1 << rnd("v.bit", 8); break;
		case 3: d[0] ^= 1 << rnd("v.bit", 8); break;
		case 4: d = {0x7F, q[0], 0x11}; break;
		case 5: { Bytes c = rnd_bytes("v.rndd", 1 + rnd("v.rndn", 7)); d = c; break; }
		case 6: { u32 n = rnd("v.many", 12); for (u32 j = 0; j < n; j++) v.push_back({(u8)(0x40 + j), v[i].d}); break; }
		case 7: v.push_back(v[i]); break;
		case 8: v.clear(); break;
		}
		return v;
	}
	u64 p2(bool first) { u64 c = S().t->rx_chunk; u64 g = (25 + rnd("v.p2", 26)) * MS; if (first) return g; return std::min<u64>(g + c, 51 * MS - c); }
	void make(bool scan) {
		elm = rnd("k.elm", 2); p = elm ? rnd("k.proto", 5) : 2 + rnd("k.proto", 3); if (!elm && p == SLOW) p = rnd("k.slow14", 2) ? SLOW : FAST;
		(void)scan;
	}
	void up() {
		if (elm) {
			k.setup(true); k.l1 = p == VPW ? DIAG_L1_J1850_VPW : p == PWM ? DIAG_L1_J1850_PWM : p == I9141 ? DIAG_L1_ISO9141 : DIAG_L1_ISO14230; k.bogus = false;
			k.e.businit = [this](bool f) { k.inits++; int tp = k.e.tp; return tp == 3 ? p == I9141 : tp == 4 ? p == SLOW : tp == 5 ? p == FAST : (f ? p == FAST : p == SLOW || p == I9141); };
			k.e.request = [this](const Bytes &h, const Bytes &d) {
				int tp = k.e.tp; std::vector<ElmRsp> v; bool mine = tp == 1 ? p == PWM : tp == 2 ? p == VPW : tp == 3 ? p == I9141 : tp == 4 ? p == SLOW : tp == 5 ? p == FAST : true;
				if (!mine) return v; if (p > PWM && d != Bytes({1, 0}) && h.size() == 3 && h[2] != tsrc && wrong.empty() && !count_of("f.elm.rxdrop")) wrong = sfmt1(h[2]) + " [" + hex(h) + " " + hex(d) + "]";
				auto a = reply(d); u64 tot = 0; for (auto &x : a) { ElmRsp r; r.f = frm(p, x.src, x.d, tsrc); r.d = std::min<u64>((5 + rnd("v.d", 30)) * MS, (a.size() > 3 ? 120 : 180) * MS / a.size()); tot += r.d; v.push_back(r); } return v; };
			k.up(); return;
		}
		lib_up(); FaultsOff f; bus.ecus.clear();
		if (p == I9141) { bus.add(&e9); e9.kb1 = e9.kb2 = rnd("k.kb", 2) ? 0x94 : 0x08; e9.handler = [this](const Bytes &q) { std::vector<Rsp9> v; for (auto &x : reply(q)) { Rsp9 r; r.d = x.d; r.src = x.src; r.p2 = p2(v.empty()); if (v.empty() && e9.kb1 == 0x94) r.p2 = rnd("v.p2b", 40) * MS; v.push_back(r); } return v; }; }
		else { bus.add(&e14); e14.functional = true; e14.faddr = 0x33; e14.addr = car.e[0].src; if (e14.addr == 0x33) e14.addr = car.e[0].src = 0x11; e14.can_fast = p == FAST; e14.can_slow = p == SLOW; static const u8 kb[] = {0xE9, 0xEA, 0xEF, 0xD0, 0xD6, 0x6B, 0x6D}; e14.kb1 = kb[rnd("v.kb1", 7)];
			e14.handler = [this](const Bytes &q) { std::vector<Rsp> v; for (auto &x : reply(q)) { Rsp r; r.d = x.d; r.src = x.src; r.p2 = p2(v.empty()); r.addressed = e14.long_ok(); v.push_back(r); } return v; }; }
		if (s.add("DUMB", "/dev/ttyS0", &bus, 0x48)) VIOL("setup", "creating the interface failed");
		static const u64 ch[] = {0, 0, 1 * MS, 2 * MS, 4 * MS, 8 * MS}; s.t->rx_chunk = ch[rnd("k.chunk", 6)];
	}
	// all requests came from the tester's address
	void chk_tester() {
		if (!elm && p == I9141) for (auto &f : e9.got) if (f.b[2] != tsrc && Bytes(f.b.begin() + 3, f.b.end() - 1) != Bytes({1, 0})) wrong = sfmt1(f.b[2]);
		if (!elm && (p == FAST || p == SLOW)) for (size_t i = 0; i < e14.heads.size(); i++) { auto &f = e14.heads[i]; if (e14.got[i].b != Bytes({1, 0}) && f[0] & 0xC0 && f[2] != tsrc) wrong = sfmt1(f[2]); }   // keep-alives come from F1, as SAE J1979 has it
		CHECK(wrong.empty(), "obd:tester", "requests were made by tester %s instead of %02x", wrong.c_str(), tsrc);
	}
	void settle(u64 t) { if (elm) k.settle(t); else bus.settle(t); }
	size_t mark() { return elm ? k.e.mark() : bus.mark(); }
	bool open() { if (elm) return k.open(); op_deadline(now() + 30 * SEC); bool r = s.open(p == I9141 ? DIAG_L1_ISO9141 : DIAG_L1_ISO14230); op_deadline(0); return r; }
	bool start() {
		op_deadline(now() + 30 * SEC); bool r = S().start(p <= PWM ? DIAG_L2_PROT_SAEJ1850 : p == I9141 ? DIAG_L2_PROT_ISO9141 : DIAG_L2_PROT_ISO14230, p == FAST ? DIAG_L2_TYPE_FASTINIT | DIAG_L2_TYPE_FUNCADDR | DIAG_L2_IDLE_J1978 : p == SLOW ? DIAG_L2_TYPE_SLOWINIT | DIAG_L2_TYPE_FUNCADDR | DIAG_L2_IDLE_J1978 : DIAG_L2_TYPE_SLOWINIT, 0, p <= PWM ? 0x6A : 0x33, 0xF1); op_deadline(0); return r;
	}
	bool l3start() { set_op("l3_start"); op_deadline(now() + 40 * SEC); l3 = diag_l3_start("SAEJ1979", S().conn); op_deadline(0); ev("l3 start %d", !!l3); return l3; }
	void l3stop() { if (l3) { set_op("l3_stop"); diag_l3_stop(l3); l3 = nullptr; } }
	void finish() { l3stop(); op_deadline(now() + 60 * SEC); S().down(); lib_down(); op_deadline(0); for (u32 i = 0; i < ecu_count; i++) if (ecu_info[i].rxmsg) { diag_freemsg(ecu_info[i].rxmsg); ecu_info[i].rxmsg = nullptr; } end_checks(a0); }
	// every message that could be seen in what reached the host since mark
	std::vector<Car::A> cands(size_t mk, bool badcs = false) {
		std::vector<Car::A> r;
		if (elm) { for (auto &l : k.e.lines(mk)) { if (l.size() < 5) continue; Bytes b(l.begin(), l.end() - 1); if (!badcs && (p <= PWM ? j_crc(b) : cks(b)) != l.back()) continue; u8 src = l[2]; r.push_back({src, Bytes(l.begin() + 3, l.end() - 1)}); if (p == FAST || p == SLOW) { r.push_back({0, Bytes(l.begin() + 1, l.end() - 1)}); if (l.size() > 5) { r.push_back({src, Bytes(l.begin() + 4, l.end() - 1)}); r.push_back({0, Bytes(l.begin() + 2, l.end() - 1)}); } } } return r; }
		auto &x = bus.ecu_rx; Bytes b;
		for (size_t i = mk; i < x.size(); i++) {
			u8 sum = 0; for (size_t n = 0; i + n < x.size() && n < 261; n++) {
				u8 c = x[i + n].b;
				if (n >= 2 && (badcs || c == sum)) {
					auto sub = [&](size_t h, size_t e) { return Bytes([&]() { Bytes o; for (size_t j = h; j < e; j++) o.push_back(x[i + j].b); return o; }()); };
					u8 f = x[i].b;
					if (p == I9141) { if (n >= 4 && n <= 11) r.push_back({x[i + 2].b, sub(3, n)}); }
					else { size_t l = f & 0x3f; if (f & 0x80) { if (l && n == l + 3) r.push_back({x[i + 2].b, sub(3, n)}); else if (!l && n > 4 && x[i + 3].b == n - 4) r.push_back({x[i + 2].b, sub(4, n)}); } else { if (l && n == l + 1) r.push_back({0, sub(1, n)}); else if (!l && n > 2 && x[i + 1].b == n - 2) r.push_back({0, sub(2, n)}); } }
				}
				sum += c; if (p == I9141 && n > 12) break;
			}
		}
		return r;
	}
};
bool same(const std::vector<Car::A> &a, const std::vector<Msg> &m, bool src = true) { if (a.size() != m.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].d != m[i].d || (src && a[i].src != m[i].src)) return false; return true; }
std::string str(const std::vector<Car::A> &v) { std::string r; for (auto &x : v) { char t[16]; snprintf(t, sizeof t, "%02x:", x.src); r += t + hex(x.d) + " "; } return r; }
std::string str(const std::vector<Msg> &v) { std::string r; for (auto &x : v) { char t[16]; snprintf(t, sizeof t, "%02x:", x.src); r += t + hex(x.d) + " "; } return r; }
ReqResult l3_request(struct diag_l3_conn *c, Bytes d, u64 lim) {
	struct diag_msg msg; memset(&msg, 0, sizeof msg); Bytes copy = d; msg.data = d.data(); msg.len = d.size(); int err = 0; set_op("l3_request"); op_deadline(now() + lim); evbytes("l3req", d.data(), d.size());
	struct diag_msg *r = diag_l3_request(c, &msg, &err); op_deadline(0); CHECK(d == copy, "request:modified", "the request's data was modified"); ReqResult q; q.null = !r; q.err = err; q.m = chain(r); if (r) diag_freemsg(r); for (auto &x : q.m) evbytes("l3msg", x.d.data(), x.d.size()); ev("l3 answer %d %d", !q.null, err); soft_fail(q.null); return q;
}
void l3cb(void *h, struct diag_msg *m) { auto v = (std::vector<Msg> *)h; for (auto &x : chain(m)) v->push_back(x); }
ReqResult l3_sendrecv(struct diag_l3_conn *c, Bytes d, unsigned to, u64 lim) {
	struct diag_msg msg; memset(&msg, 0, sizeof msg); msg.data = d.data(); msg.len = d.size(); ReqResult r; set_op("l3_send"); op_deadline(now() + lim); int rv = diag_l3_send(c, &msg); if (rv) { r.err = rv; op_deadline(0); soft_fail(true); return r; }
	set_op("l3_recv"); r.err = diag_l3_recv(c, to, l3cb, &r.m); op_deadline(0); r.null = r.err < 0; ev("l3 recv %d n %zu", r.err, r.m.size()); soft_fail(r.null); return r;
}
Bytes j_req(Car &c) {
	static const int md[] = {1, 2, 3, 4, 5, 6, 7, 8, 9}; u8 m = md[rnd("v.mode", 9)]; u8 pid = 0; if (rnd("k.known", 5)) { std::vector<u8> v; for (auto &e : c.e) for (int i = 0; i < 256; i++) if (e.sup[m][i]) v.push_back(i); if (!v.empty()) pid = v[rnd("v.pi", (u32)v.size())]; } else pid = rnd("v.pid", 256);
	switch (m) { case 1: case 6: case 9: return {m, pid}; case 2: return {m, pid, (u8)rnd("v.frame", 3)}; case 5: return {m, pid, (u8)(1 << rnd("v.o2", 8))}; case 8: return cat({m, pid}, rnd_bytes("v.m8", 5)); }
	return {m};
}
std::vector<Car::A> expected(Rig &g, const Bytes &q) { auto v = g.negs(q, g.car.answer(q)); if (!g.elm && (g.p == FAST || g.p == SLOW) && !g.e14.long_ok()) for (auto &x : v) x.src = 0; return v; }
bool connect_good(Rig &g) {
	if (!g.open()) VIOL("open:refused", "opening the interface failed");
	if (!g.start()) { if (!g.nego) VIOL("start:refused", "a healthy start failed"); return false; }
	if (!g.l3start()) VIOL("l3:refused", "the J1979 layer was refused although mode 1 PID 0 was answered"); return true;
}
}
