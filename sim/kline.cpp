#include "kline.h"
u8 cks(const Bytes &b) { u8 s = 0; for (u8 x : b) s += x; return s; }
Bytes cat(const Bytes &a, const Bytes &b) { Bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }

void KLine::opened() { if (has_l) { llow = !!(tty->modem & 4) != l_inv; l.push_back({now(), llow}); } }
void KLine::edge(bool low) {
	k.push_back({now(), low});
	last_activity = now();
	ev("K %s", low ? "low" : "high");
	if (low) {
		kfall = now();
		if (!sampling) { sampling = now(); u64 s = now(); at(s + 100 * MS, [this, s]() { if (sampling == s && !klow) sampling = 0; }); at(s + 1900 * MS, [this, s]() { sample5(s); }); }
	} else {
		u64 d = now() - kfall;
		if (d + wup_tol >= 25 * MS && d <= 25 * MS + wup_tol) { nwup++; last_wup = kfall; for (auto e : ecus) if (ecu_on) e->wup(kfall); }
	}
}
void KLine::setk(bool low) { if (low != klow) { klow = low; edge(low); } }
void KLine::sample5(u64 s) {
	if (sampling != s) return;
	sampling = 0;
	for (int pass = 0; pass < 2; pass++) {
		const std::vector<Edge> &w = pass ? l : k;
		if (pass && !has_l) break;
		auto bit = [&](int i) { return !level_at(w, s + 100 * MS + i * 200 * MS); };
		if (bit(0) || !bit(9)) continue;
		u8 a = 0; for (int i = 0; i < 8; i++) if (bit(1 + i)) a |= 1 << i;
		if (!pass) { last5 = a; last5_end = s + 2000 * MS; n5++; ev("5 baud address %02x", a); }
		for (auto e : ecus) if (ecu_on && e->listen_l == !!pass) e->addr5(a, s + 2000 * MS);
	}
}
void KLine::tx_start(u8 b, u64 t0, unsigned baud) {
	if (baud > 400) return;
	u64 bit = SEC / baud;
	setk(true);
	bool prev = true;
	for (int i = 0; i < 8; i++) { bool low = !(b >> i & 1); if (low != prev) at(t0 + (i + 1) * bit, [this, low]() { setk(low); }); prev = low; }
	if (prev) at(t0 + 9 * bit, [this]() { setk(false); });
}
void KLine::tx_byte(u8 b, u64 t0, u64 t1, unsigned baud) {
	bus.push_back({b, t0, t1, 0, baud});
	last_activity = t1;
	u8 e = b;
	bool coll = false;
	for (size_t i = bus.size(); i-- > 0 && i + 40 > bus.size();) if (bus[i].src != 0 && bus[i].t0 < t1 && bus[i].t1 > t0) { coll = true; e &= bus[i].b; }
	if (ecu_busy > t0 && ecu_busy != 0 && !coll) coll = true;
	if (coll) { collisions++; count("p.collision"); if (e == b) e ^= 0x10; }
	if (echo) {
		int ne = echoes++;
		if (ne == lose_at) { count("f.echo.lost1"); faults_fired++; }
		else if (ne == flip_at) { count("f.echo.flip1"); faults_fired++; tty->deliver_now(e ^ (1 << flip_bit)); }
		else if (fault("f.echo.lost")) ;
		else if (u32 f = fault("f.echo.flip", 9)) tty->deliver_now(e ^ (1 << (f - 1)));
		else if (u32 f = fault("f.echo.late", 4)) tty->deliver(e, now() + f * 160 * MS);
		else tty->deliver_now(e);
	}
	if (ecu_on && baud > 400 && !klow)
		for (auto x : ecus) {
			u64 d = baud > x->baud ? baud - x->baud : x->baud - baud;
			if (d * 100 <= x->baud * 4ull) x->rx(e, t0, t1);
			else x->rx((u8)(e * 7 + 0x5B), t0, t1);
		}
}
void KLine::brk(bool on) {
	setk(on);
	if (on && echo) {
		u64 s = now();
		after(tty->char_time(), [this, s]() { if (klow && kfall == s && !(tty->cur.iflag & 1)) tty->deliver_now(0); });
	}
}
void KLine::modem(int bits) {
	if (!has_l) return;
	bool low = !!(bits & 4) != l_inv;
	if (low != llow) { llow = low; l.push_back({now(), low}); ev("L %s", low ? "low" : "high"); }
}
void KLine::rx_byte(u8 b, u64 t, unsigned baud) {
	// at the time the byte ends
	last_activity = now();
	if (klow) return;
	unsigned mine = tty->cur.ospeed; u64 d = mine > baud ? mine - baud : baud - mine;
	if (d * 100 > mine * 4ull) { b = (u8)(b * 5 + 0x3D); count("p.wrongbaud"); }
	if (tty->databits() < 8) b &= (1 << tty->databits()) - 1;
	ecu_rx.push_back({b, now()});
	tty->deliver_now(b);
	(void)t;
}
u64 KLine::ecu_tx(Ecu *e, const Bytes &d0, u64 t, bool faultable) {
	Bytes d = d0; if (mangle_rx) { if (d.size() >= 3) mangle_frame(d); if (u32 f = fault("f.mg.late", 6)) t += f * f * 70 * MS; }
	u64 ct = 10 * SEC / e->baud;
	if (t < now()) t = now();
	size_t n = d.size();
	if (faultable && n > 1 && fault("f.bus.trunc")) n = rnd("v.trunc", (u32)n);
	unsigned bd = e->baud; int id = e->id;
	for (size_t i = 0; i < n; i++) {
		u8 b = d[i];
		if (faultable) {
			if (fault("f.bus.drop")) { t += ct + e->p1; continue; }
			if (u32 f = fault("f.bus.flip", 9)) b ^= 1 << (f - 1);
			if (u32 f = fault("f.bus.gap", 5)) t += f * f * 12 * MS;
			if (fault("f.bus.noise")) { u8 x = (u8)rnd("v.noise", 256); u64 t1 = t + ct; at(t1, [this, x, t, t1, bd]() { bus.push_back({x, t, t1, -1, bd}); rx_byte(x, t, bd); }); t = t1; }
		}
		int rep = faultable && fault("f.bus.dup") ? 2 : 1;
		while (rep--) {
			u64 t0 = t, t1 = t + ct;
			at(t0, [this, t1]() { if (t1 > ecu_busy) ecu_busy = t1; });
			at(t1, [this, b, t0, t1, bd, id]() {
				for (size_t j = bus.size(); j-- > 0 && j + 40 > bus.size();) if (bus[j].src == 0 && bus[j].t0 < t1 && bus[j].t1 > t0) { collisions++; count("p.collision"); }
				bus.push_back({b, t0, t1, id, bd}); evbytes("ecu", &b, 1);
				rx_byte(b, t0, bd);
				for (auto x : ecus) if (x->id != id && ecu_on && x->baud == bd) x->rx(b, t0, t1);
			});
			t = t1;
		}
		if (i + 1 < n) t += e->p1;
	}
	sched_end = std::max(sched_end, t);
	return t;
}
void KLine::noise(const Bytes &d, u64 t) {
	u64 ct = 10 * SEC / (tty->cur.ospeed ? tty->cur.ospeed : 10400);
	for (u8 b : d) { u64 t0 = t, t1 = t + ct; at(t1, [this, b, t0, t1]() { bus.push_back({b, t0, t1, -1, 0}); ecu_rx.push_back({b, now()}); evbytes("noise", &b, 1); tty->deliver_now(b); }); t = t1; }
	sched_end = std::max(sched_end, t);
}
void idle(u64 t) { set_op("idle"); sleep_until(now() + t); }
void KLine::settle(u64 t) { int n = 0; do { if (sched_end > now()) idle(sched_end - now()); idle(t); } while (sched_end > now() && ++n < 20); }
std::vector<Frame> KLine::tester_frames(size_t from, u64 gap) const {
	std::vector<Frame> r;
	for (size_t i = from; i < bus.size(); i++) {
		if (bus[i].src != 0 || bus[i].baud <= 400) continue;
		if (r.empty() || bus[i].t0 > r.back().t1 + gap) r.push_back({bus[i].t0, bus[i].t1, {}});
		r.back().b.push_back(bus[i].b); r.back().t1 = bus[i].t1;
	}
	return r;
}
bool KLine::arrived(size_t &pos, const Bytes &d) const {
	for (size_t i = pos; i + d.size() <= ecu_rx.size(); i++) {
		size_t j = 0; while (j < d.size() && ecu_rx[i + j].b == d[j]) j++;
		if (j == d.size()) { pos = i + j; return true; }
	}
	return false;
}
// ------------------------------------------------------------------ allocation failures
bool Oom::soft, Oom::any; u32 Oom::f0;
bool Oom::hit() { return count_of("f.malloc") != f0; }
void Oom::arm(double p) { f0 = count_of("f.malloc"); malloc_fail_enabled = false; if (!chance("k.oom", p)) return; u32 sh = 1 + rnd("k.oomsh", 6); malloc_fail_enabled = true; malloc_fail_at = malloc_count + 1 + rnd("v.oomk", 1u << sh); ev("armed %llu", (unsigned long long)(malloc_fail_at - malloc_count)); }
bool Oom::done() { malloc_fail_enabled = false; malloc_fail_at = 0; if (hit()) count("p.oomhit"); return hit(); }
// ------------------------------------------------------------------ sessions
std::vector<Msg> chain(struct diag_msg *m) {
	std::vector<Msg> r;
	for (; m; m = m->next) { Msg x; if (m->len && m->data) x.d.assign(m->data, m->data + m->len); x.src = m->src; x.dest = m->dest; x.fmt = m->fmt; r.push_back(x); if (r.size() > 5000) VIOL("msg:loop", "endless message chain"); }
	return r;
}
bool set_cfg(struct diag_l0_device *d, const char *name, const char *sval, int ival) {
	for (struct cfgi *c = diag_l0_getcfg(d); c; c = c->next) {
		if (!c->shortname || strcmp(c->shortname, name)) continue;
		if (sval) return diag_cfg_setstr(c, sval) == 0;
		return (c->type == CFGT_U8 ? diag_cfg_setu8(c, ival) : diag_cfg_setint(c, ival)) == 0;
	}
	return false;
}
int Sess::add(const char *l0, const char *port, Peer *p, int dumbopts) {
	t = find_tty(port);
	if (!t) t = add_tty(port, p); else { t->peer = p; p->tty = t; }
	if (whole_program) return 0;
	dl0d = diag_l0_new(l0);
	if (!dl0d) return -1;
	if (!set_cfg(dl0d, "port", port, 0)) return -1;
	if (dumbopts >= 0 && !set_cfg(dl0d, "dumbopts", nullptr, dumbopts)) return -1;
	return 0;
}
bool Sess::open(int l1proto) { set_op("l2_open"); int rv = diag_l2_open(dl0d, l1proto); ev("l2_open %d", rv); l2open = rv == 0; return l2open; }
bool Sess::start(int l2proto, unsigned flags, unsigned bitrate, unsigned target, unsigned source) {
	set_op("start"); conn = diag_l2_StartCommunications(dl0d, l2proto, flags, bitrate, target, source); ev("start %s", conn ? "ok" : "failed"); return conn;
}
void Sess::stop() { if (conn) { set_op("stop"); diag_l2_StopCommunications(conn); conn = nullptr; } }
void Sess::down() {
	stop();
	if (l2open) { set_op("l2_close"); int rv = diag_l2_close(dl0d); CHECK(rv == 0, "close:failed", "diag_l2_close returned %d with no session open", rv); l2open = false; }
	if (dl0d) { set_op("l0_del"); diag_l0_del(dl0d); dl0d = nullptr; }
}
void end_checks(size_t a0) {
	CHECK(open_fds() == 0, "fd:leak", "%d descriptors still open at the end", open_fds());
	CHECK(open_files() == 0, "file:leak", "%d files or directories still open at the end", open_files());
	CHECK(timers_alive() == 0, "timer:leak", "%d timers still exist at the end", timers_alive());
	CHECK(live_allocs() == a0, "leak", "%d blocks more than at the start: %s", (int)(live_allocs() - a0), describe_leaks().c_str());
}

u64 gap_to_prev(const KLine &b, u64 t0) { u64 last = 0; for (auto &x : b.bus) { if (x.t0 >= t0) break; if (x.t1 > last) last = x.t1; } return last; }
ReqResult l2_request(struct diag_l2_conn *c, Bytes d, u64 limit, u8 src, u8 dest) {
	struct diag_msg msg; memset(&msg, 0, sizeof msg);
	msg.data = d.data(); msg.len = d.size(); msg.src = src; msg.dest = dest;
	int err = 0;
	Bytes copy = d;
	set_op("request"); evbytes("request", d.data(), d.size()); op_deadline(now() + limit);
	struct diag_msg *r = diag_l2_request(c, &msg, &err);
	op_deadline(0);
	CHECK(d == copy, "request:modified", "the request's data was modified");
	ReqResult rr; rr.null = !r; rr.err = err; rr.m = chain(r);
	ev("answer %s err %d n %zu", r ? "yes" : "no", err, rr.m.size());
	for (auto &x : rr.m) evbytes("msg", x.d.data(), x.d.size());
	if (r) diag_freemsg(r);
	soft_fail(rr.null);
	return rr;
}
static void recv_cb(void *h, struct diag_msg *m) { auto v = (std::vector<Msg> *)h; for (auto &x : chain(m)) v->push_back(x); }
ReqResult l2_recv(struct diag_l2_conn *c, unsigned timeout, u64 limit) {
	ReqResult r; set_op("recv"); op_deadline(now() + limit);
	r.err = diag_l2_recv(c, timeout, recv_cb, &r.m); op_deadline(0);
	r.null = r.err < 0;
	ev("recv %d n %zu", r.err, r.m.size()); for (auto &x : r.m) evbytes("msg", x.d.data(), x.d.size());
	soft_fail(r.null); return r;
}
int l2_send(struct diag_l2_conn *c, Bytes d, u64 limit, u8 src, u8 dest) {
	struct diag_msg msg; memset(&msg, 0, sizeof msg); Bytes copy = d;
	msg.data = d.data(); msg.len = d.size(); msg.src = src; msg.dest = dest;
	set_op("send"); evbytes("send", d.data(), d.size()); op_deadline(now() + limit);
	int rv = diag_l2_send(c, &msg); op_deadline(0); ev("send %d", rv);
	CHECK(d == copy, "send:modified", "the data to send was modified");
	soft_fail(rv < 0); return rv;
}
Bytes rx_since(const KLine &b, size_t mark, size_t max) { Bytes r; for (size_t i = mark; i < b.ecu_rx.size() && r.size() < max; i++) r.push_back(b.ecu_rx[i].b); return r; }
