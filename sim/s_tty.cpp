// C01-C04: the serial port layer and timed waits against a virtual UART.
#include "env.h"
#include <asm/termbits.h>

static const unsigned speeds[] = {10400, 9600, 4800, 1200, 38400, 115200, 360, 10416};
static struct diag_serial_settings mkset(unsigned sp) {
	struct diag_serial_settings s; s.speed = sp; s.databits = diag_databits_8; s.stopbits = diag_stopbits_1; s.parflag = diag_par_n; return s;
}
static ttyp *open_ok(Tty *t, unsigned sp) {
	FaultsOff f;
	ttyp *p = diag_tty_open(t->path.c_str());
	if (!p) VIOL("open:refused", "opening a healthy port failed");
	auto s = mkset(sp);
	if (diag_tty_setup(p, &s)) VIOL("setup:refused", "configuring a healthy port failed");
	return p;
}
static bool is_real_err() { // real I/O errors injected so far
	u32 n = 0;
	for (u32 i = 0; i < res->ncounters; i++) { const char *c = res->counters[i].name; if (!strcmp(c, "f.read.eio") || !strcmp(c, "f.read.eof") || !strcmp(c, "f.sel.err")) n += res->counters[i].n; }
	static u32 seen; bool r = n != seen; seen = n; return r;
}
// ------------------------------------------------------------------ C01
static void read_ops(bool nasty) {
	NullPeer peer; Tty *t = add_tty("/dev/ttyS0", &peer);
	if (nasty) host_any(); else host_good();
	static const u64 chunks[] = {0, 0, 1 * MS, 4 * MS, 16 * MS};
	t->rx_chunk = chunks[rnd("k.chunk", 5)];
	os_up();
	ttyp *p = open_ok(t, speeds[rnd("k.speed", 8)]);
	if (nasty) swarm({"f.read.eintr", "f.read.short", "f.sel.eintr", "f.sel.late", "f.sel.spur", "f.oversleep"}, 0.5, 0.01, 0.4);
	bool errs = nasty && chance("k.errs", 0.4);
	if (errs) swarm({"f.read.eio", "f.read.eof", "f.sel.err"}, 0.5, 0.01, 0.2);
	is_real_err();
	int nops = 1 + rnd("n.ops", 14);
	u64 sched_end = now();
	Prng pr(choose("v.payload", 1u << 30, 1));
	for (int i = 0; i < nops; i++) {
		// arrivals: some bursts from now on
		int nb = rnd("n.bursts", 4);
		u64 at_ = std::max(sched_end, now());
		for (int b = 0; b < nb; b++) {
			at_ += rnd("v.gap", 40) * rnd("v.gapu", 40) * 50 * US;
			int n = 1 + rnd("n.burst", 30); if (chance("k.bigburst", 0.05)) n += 300;
			for (int k = 0; k < n; k++) { at_ += 50 * US + rnd("v.bgap", 20) * 100 * US; t->deliver(pr.byte(), at_); }
		}
		sched_end = at_;
		if (nasty && i > 2 && chance("f.hup", 0.02)) { count("f.hup"); u64 ht = now() + rnd("v.hup", 100) * MS; at(ht, [t]() { t->hup = true; ev("hup"); }); }
		if (chance("k.flush", 0.08)) {
			set_op("iflush"); u64 a = now(), i0 = imposed; op_deadline(now() + 2 * SEC);
			u64 f0 = t->taken.size() + t->flushed_total;
			int rv = diag_tty_iflush(p);
			bool er = is_real_err();
			CHECK(now() - a <= 60 * MS + (imposed - i0) + t->rx_chunk + 200 * syscall_cost + 1100 * MS * 0, "flush:late", "flush took %.3f ms", (now() - a) / 1e6);
			(void)f0; (void)rv; (void)er;
			op_deadline(0);
			continue;
		}
		static const unsigned tmos[] = {20, 1, 2, 5, 50, 100, 300, 1000, 5000};
		unsigned tmo = tmos[rnd("v.tmo", 9)];
		size_t cnt = chance("k.bigread", 0.1) ? 255 + rnd("v.bigcnt", 800) : 1 + rnd("v.cnt", 24);
		u8 *buf = (u8 *)malloc(cnt); memset(buf, 0xCC, cnt);
		size_t tk0 = t->taken.size(); u32 short0 = count_of("f.read.short"), int0 = count_of("f.read.eintr");
		u64 a = now(), i0 = imposed;
		set_op("read"); ev("count %zu timeout %u", cnt, tmo);
		op_deadline(a + tmo * MS + 20 * SEC);
		ssize_t rv = diag_tty_read(p, buf, cnt, tmo);
		op_deadline(0);
		u64 el = now() - a, imp = imposed - i0;
		size_t got = t->taken.size() - tk0;
		bool err = is_real_err() || t->hup;
		u64 margin = imp + t->rx_chunk + 40 * syscall_cost + 200 * US;
		ev("rv %zd got %zu", rv, got);
		if (rv > 0) {
			CHECK((size_t)rv <= cnt, "read:too-many", "read of %zu returned %zd", cnt, rv);
			CHECK((size_t)rv == got, "read:count", "read returned %zd but %zu bytes were taken from the port", rv, got);
			for (size_t k = 0; k < got; k++) CHECK(buf[k] == t->taken[tk0 + k].b, "read:data", "byte %zu of %zd is %02x, the port delivered %02x", k, rv, buf[k], t->taken[tk0 + k].b);
			if ((size_t)rv < cnt && !err) {
				CHECK(el + 1 * US >= tmo * MS, "read:early", "read returned %zd of %zu bytes after %.3f of %u ms", rv, cnt, el / 1e6, tmo);
			}
			if ((size_t)rv == cnt) {
				// prompt: not later than the arrival of the last byte
				u64 need = t->taken.back().t;
				CHECK(now() <= std::max(need, a) + margin + got * syscall_cost * 8, "read:late", "the last byte was there at %.3f ms, read returned at %.3f", need / 1e6, now() / 1e6);
			}
		} else if (rv == DIAG_ERR_TIMEOUT) {
			CHECK(got == 0 , "read:lost", "read reported a time-out but had taken %zu bytes", got);
			CHECK(el + 1 * US >= tmo * MS, "read:early", "read reported a time-out after %.3f of %u ms", el / 1e6, tmo);
			CHECK(!t->hup || el + 1 * US >= tmo * MS, "read:hup", "a hang-up was reported as a time-out");
			if (errs && !t->hup && err) VIOL("read:error-hidden", "an I/O error was reported as a time-out");
		} else {
			CHECK(rv < 0, "read:zero", "read returned 0");
			CHECK(err, "read:spurious-error", "read failed (%zd) although no I/O error occurred (%zu bytes taken)", rv, got);
		}
		CHECK(el <= tmo * MS + margin + got * syscall_cost * 8, "read:overrun", "read with time-out %u ms took %.3f ms (imposed %.3f)", tmo, el / 1e6, imp / 1e6);
		if (!err && imp < 1 * MS && (tmo >= 20 || count_of("f.read.eintr") == int0) && count_of("f.read.short") == short0 && (rv == DIAG_ERR_TIMEOUT || (rv > 0 && (size_t)rv < cnt))) {
			// nothing that was visible before the deadline may be left
			if (!t->rxq.empty()) { u64 v = t->rxq.front().t; CHECK(v + margin >= a + tmo * MS, "read:left", "a byte visible at %.3f ms was left unread by a read until %.3f ms", v / 1e6, (a + tmo * MS) / 1e6); }
		}
		for (size_t k = rv > 0 ? rv : got; k < cnt; k++) if (buf[k] != 0xCC) VIOL("read:scribble", "read changed the buffer behind the data (%zd of %zu)", rv, cnt);
		free(buf);
		if (t->hup) break;
	}
	// order and completeness over the whole history: taken is a subsequence in order (flushes drop)
	{
		FaultsOff f; set_op("close"); diag_tty_close(p);
	}
	CHECK(open_fds() == 0, "fd:leak", "descriptor still open after close");
	sample("%d ops, %zu bytes arrived, %zu read, %d faults", nops, t->rx_log.size(), t->taken.size(), faults_fired);
}
SCENARIO("C01", read_plain, 1) { read_ops(false); }
SCENARIO("C01", read_faults, 3) { read_ops(true); }

// ------------------------------------------------------------------ C02
static void write_ops(bool nasty) {
	NullPeer peer; Tty *t = add_tty("/dev/ttyS0", &peer);
	if (nasty) host_any(); else host_good();
	os_up();
	unsigned sp = speeds[rnd("k.speed", 8)];
	ttyp *p = open_ok(t, sp);
	if (nasty) {
		swarm({"f.write.eintr", "f.write.short"}, 0.6, 0.02, 0.5);
		swarm({"f.write.stall", "f.write.zero", "f.write.eio", "f.io.drain"}, 0.3, 0.02, 0.5);
		if (chance("k.stuck", 0.1)) set_rate(chance("k.stuckz", 0.5) ? "f.write.zero" : "f.write.eintr", 1.0);
	}
	int nops = 1 + rnd("n.ops", 10);
	for (int i = 0; i < nops; i++) {
		size_t n = chance("k.big", 0.1) ? 256 + rnd("v.big", 600) : 1 + rnd("v.n", 40);
		Bytes d = rnd_bytes("v.data", n);
		u8 *buf = (u8 *)malloc(n); memcpy(buf, d.data(), n);
		size_t w0 = t->wire_tx.size();
		u64 a = now(), i0 = imposed; auto cnt0 = count_of;
		u32 e0 = cnt0("f.write.eio"), dr0 = cnt0("f.io.drain");
		u64 lim = n * t->char_time() * 2 + 10 * MS + 5 * MS + n * 12 * syscall_cost * 4;
		set_op("write");
		op_deadline(now() + 60 * SEC);
		ssize_t rv = diag_tty_write(p, buf, n);
		op_deadline(0);
		bool drained = cnt0("f.io.drain") == dr0;
		bool busy = t->tx_free > now();
		u64 el = now() - a, imp = imposed - i0;
		ev("write rv %zd", rv);
		CHECK(!memcmp(buf, d.data(), n), "write:buffer", "write changed the caller's data");
		free(buf);
		CHECK(el <= lim + imp, "write:overrun", "write of %zu bytes at %u bps took %.3f ms", n, sp, el / 1e6);
		if (rv > 0 && drained) CHECK(!busy, "write:not-sent", "write returned %zd while the line was still transmitting", rv);
		if (busy) { FaultsOff f; sleep_until(t->tx_free); }
		{ FaultsOff f; sleep_until(now() + 1); }
		size_t w = t->wire_tx.size() - w0;
		CHECK(rv <= (ssize_t)n, "write:count", "write of %zu returned %zd", n, rv);
		CHECK(w <= n, "write:extra", "%zu bytes were given, %zu went out", n, w);
		for (size_t k = 0; k < w; k++) CHECK(t->wire_tx[w0 + k].b == d[k], "write:data", "byte %zu on the line is %02x instead of %02x", k, t->wire_tx[w0 + k].b, d[k]);
		if (rv >= 0) CHECK((size_t)rv == w, "write:reported", "write reported %zd bytes, %zu went out", rv, w);
		if (!nasty || (cnt0("f.write.eio") == e0 && rate("f.write.stall") == 0 && rate("f.write.zero") == 0 && rate("f.write.eintr") < 0.9 && rate("f.write.short") < 0.01))
			CHECK(rv == (ssize_t)n || (nasty && el >= 10 * MS), "write:refused", "write of %zu returned %zd without a reason", n, rv);
		if (cnt0("f.write.eio") != e0) CHECK(rv < (ssize_t)n, "write:error-hidden", "an I/O error was not reported");
	}
	{ FaultsOff f; set_op("close"); diag_tty_close(p); }
	CHECK(open_fds() == 0, "fd:leak", "descriptor still open after close");
	sample("%d writes at %u bps, %zu bytes on the line, %d faults", nops, sp, t->wire_tx.size(), faults_fired);
}
SCENARIO("C02", write_plain, 1) { write_ops(false); }
SCENARIO("C02", write_faults, 3) { write_ops(true); }

// ------------------------------------------------------------------ C03
SCENARIO("C03", waits, 3) {
	struct P : NullPeer {   // half duplex: echoes; a 0x00 character is a low level of 9 bits
		std::vector<std::pair<u64, bool>> b;
		void brk(bool on) override { b.push_back({now(), on}); }
		void tx_byte(u8 c, u64 t0, u64 t1, unsigned baud) override { if (c == 0) { b.push_back({t0, true}); b.push_back({t0 + 9 * SEC / baud, false}); } tty->deliver(c, t1); }
	} peer;
	Tty *t = add_tty("/dev/ttyS0", &peer);
	host_any();
	static const u64 bases[] = {5000 * SEC, 1 * SEC, 4294967 * SEC + 296 * MS - 3 * SEC, 86400ull * 365 * SEC, 2147483 * SEC};
	mono_base = bases[rnd("k.base", 5)];
	os_up();
	ttyp *p = open_ok(t, 10400);
	swarm({"f.sleep.eintr", "f.wallclock", "f.oversleep"}, 0.6, 0.02, 0.7);
	int nops = 1 + rnd("n.ops", 12);
	unsigned long lastms = diag_os_getms(); unsigned long long lasthr = diag_os_gethrt();
	u64 ms_sim0 = now(); unsigned long ms0 = lastms; unsigned long long hr0 = lasthr;
	for (int i = 0; i < nops; i++) {
		unsigned ms = chance("k.longms", 0.1) ? 1000 + rnd("v.longms", 4000) : rnd("v.ms", 120);
		int what = rnd("v.what", 4);
		u64 a = now(), i0 = imposed;
		u64 slack = 0;
		if (what == 0 || what == 1) { set_op("millisleep"); diag_os_millisleep(ms); slack = 40 * syscall_cost + 100 * US; }
		else if (what == 2) {
			if (ms == 0) ms = 1;
			peer.b.clear(); set_op("break");
			int rv = diag_tty_break(p, ms);
			CHECK(rv == 0, "break:refused", "break of %u ms failed", ms);
			CHECK(peer.b.size() == 2 && peer.b[0].second && !peer.b[1].second, "break:shape", "a break request made %zu line changes", peer.b.size());
			u64 d = peer.b[1].first - peer.b[0].first;
			CHECK(d + 1 >= ms * MS, "break:short", "break of %u ms lasted %.3f ms", ms, d / 1e6);
			CHECK(d <= ms * MS + (imposed - i0) + 60 * syscall_cost + 200 * US, "break:long", "break of %u ms lasted %.3f ms", ms, d / 1e6);
			slack = 80 * syscall_cost + 200 * US;
		} else {
			unsigned tot = 30 + rnd("v.fb", 60);
			peer.b.clear(); set_op("fastbreak"); ms = tot;
			int rv = diag_tty_fastbreak(p, tot);
			if (rv == 0) {
				CHECK(peer.b.size() == 2 && peer.b[0].second && !peer.b[1].second, "break:shape", "a fast break made %zu line changes", peer.b.size());
				u64 d = peer.b[1].first - peer.b[0].first;
				CHECK(d + 1 >= 25 * MS, "break:short", "fast break lasted %.3f ms", d / 1e6);
				CHECK(d <= 25 * MS + (imposed - i0) + 60 * syscall_cost + 200 * US, "break:long", "fast break lasted %.3f ms", d / 1e6);
			} else CHECK(imposed - i0 > 1 * MS, "break:refused", "fast break failed");
			slack = 80 * syscall_cost + 1200 * US;
			if (rv) ms = 0;
		}
		u64 el = now() - a;
		CHECK(el + 2 * US >= ms * MS || (what == 3 && el + 1 * MS + 2 * US >= ms * MS), "wait:short", "a wait of %u ms took %.3f ms", ms, el / 1e6);
		if (what != 3 || ms) CHECK(el <= ms * MS + (imposed - i0) + slack, "wait:long", "a wait of %u ms took %.3f ms (system imposed %.3f)", ms, el / 1e6, (imposed - i0) / 1e6);
		// clocks
		u64 s1 = now();
		unsigned long m = diag_os_getms(); unsigned long long h = diag_os_gethrt();
		u64 s2 = now();
		CHECK(m >= lastms, "clock:back", "millisecond time went from %lu to %lu", lastms, m);
		CHECK(h >= lasthr, "clock:back", "high resolution time went backwards");
		i64 dm = (i64)(m - ms0), sm = (i64)((s2 - ms_sim0) / MS);
		CHECK(dm >= sm - 2 && dm <= sm + 2, "clock:drift", "%lld ms elapsed, the clock says %lld", (long long)sm, (long long)dm);
		i64 dh = (i64)diag_os_hrtus(h - hr0), sh = (i64)((s2 - ms_sim0) / US);
		CHECK(dh >= sh - 1000 && dh <= sh + 1000, "clock:drift", "%lld us elapsed, the high resolution clock says %lld", (long long)sh, (long long)dh);
		i64 hm = (i64)(diag_os_hrtus(h) / 1000) - (i64)m;
		CHECK(hm >= 0 && hm <= (i64)((s2 - s1) / MS) + 1, "clock:disagree", "the two clocks differ by %lld ms", (long long)hm);
		lastms = m; lasthr = h;
	}
	{ FaultsOff f; diag_tty_close(p); }
	sample("%d waits, %d faults", nops, faults_fired);
}

// ------------------------------------------------------------------ C04
static bool same_set(const SerSettings &a, const SerSettings &b, std::string &why) {
	char s[200];
#define D(f) if (a.f != b.f) { snprintf(s, sizeof s, #f " %x became %x", (unsigned)a.f, (unsigned)b.f); why = s; return false; }
	D(iflag) D(oflag) D(lflag)
	// the speed can be expressed as a code or literally
	if ((a.cflag & ~(CBAUD | (CBAUD << IBSHIFT))) != (b.cflag & ~(CBAUD | (CBAUD << IBSHIFT)))) { snprintf(s, sizeof s, "cflag %x became %x", a.cflag, b.cflag); why = s; return false; }
	D(ospeed) D(ispeed)
	for (int i = 0; i < 19; i++) D(cc[i])
	return true;
}
SCENARIO("C04", port_config, 3) {
	NullPeer peer; Tty *t = add_tty("/dev/ttyS0", &peer);
	host_good();
	// how the port was left by others
	static const unsigned orig[] = {9600, 115200, 19200, 1200, 38400};
	t->cur.ospeed = t->cur.ispeed = orig[rnd("k.orig", 5)];
	unsigned code = t->cur.ospeed == 9600 ? B9600 : t->cur.ospeed == 115200 ? B115200 : t->cur.ospeed == 19200 ? B19200 : t->cur.ospeed == 1200 ? B1200 : B38400;
	t->cur.cflag = (t->cur.cflag & ~CBAUD) | code;
	if (chance("k.origpar", 0.4)) t->cur.cflag |= PARENB | (chance("k.origodd", 0.5) ? PARODD : 0);
	if (chance("k.orig7", 0.3)) t->cur.cflag = (t->cur.cflag & ~CSIZE) | CS7;
	if (chance("k.orig2", 0.3)) t->cur.cflag |= CSTOPB;
	if (chance("k.origcrt", 0.3)) t->cur.cflag |= CRTSCTS;
	if (chance("k.origraw", 0.3)) { t->cur.iflag = 0; t->cur.lflag = 0; t->cur.oflag = 0; t->cur.cc[VMIN] = 0; t->cur.cc[VTIME] = 7; }
	if (chance("k.origflow", 0.4)) { static const unsigned fl[] = {IGNBRK, BRKINT, IGNPAR, PARMRK, INPCK, ISTRIP, INLCR, IGNCR, ICRNL, IXON, IXOFF, IXANY, IMAXBEL, IUCLC}; u32 m = rnd("v.iflags", 1 << 14); for (int i = 0; i < 14; i++) if (m >> i & 1) t->cur.iflag |= fl[i]; }
	if (chance("k.orignoread", 0.2)) t->cur.cflag &= ~CREAD;
	if (chance("k.origlocal", 0.4)) t->cur.cflag |= CLOCAL;
	if (chance("k.origcust", 0.2)) { t->cur.cflag = (t->cur.cflag & ~CBAUD) | BOTHER; t->cur.ospeed = t->cur.ispeed = 10400; }
	t->has_serial = !chance("k.usb", 0.4);
	if (chance("k.origss", 0.3)) { t->ss_flags = 0x2010; t->ss_divisor = 11; }
	static const int mods[] = {6, 0, 2, 4};
	t->modem = mods[rnd("k.modem", 4)];
	if (chance("k.out", 0.4)) t->modem_out = (1 + rnd("k.outv", 3)) << 13;
	if (chance("k.minspeed", 0.2)) t->min_speed = rnd("k.minspeedv", 2) ? 300 : 1200;
	SerSettings o = t->cur; int om = t->modem, oo = t->modem_out, osf = t->ss_flags, osd = t->ss_divisor;
	os_up();
	size_t la0 = live_allocs();
	bool nasty = chance("k.nasty", 0.7);
	if (nasty) swarm({"f.open", "f.fcntl", "f.io.tcgets", "f.io.tcgets2", "f.io.tcsets", "f.io.tcsets2", "f.io.gser", "f.io.sser", "f.io.mget", "f.io.mset", "f.alloc"}, 0.25, 0.03, 0.4);
	auto nf = []() { return faults_fired; };
	int f0 = nf();
	bool closeok = chance("k.cleanclose", 0.6);
	set_op("open");
	ttyp *p = diag_tty_open(t->path.c_str());
	if (!p) CHECK(nf() > f0, "open:refused", "opening a healthy port failed");
	bool restored_faulty = false;
	auto sum = [](std::initializer_list<const char *> l) { u32 n = 0; for (auto k : l) for (u32 i = 0; i < res->ncounters; i++) if (!strcmp(res->counters[i].name, k)) n += res->counters[i].n; return n; };
	if (p) {
		int nops = rnd("n.ops", 6);
		for (int i = 0; i < nops; i++) {
			int what = rnd("v.what", 3);
			f0 = nf();
			if (what < 2) {
				static const unsigned sp[] = {10400, 9600, 4800, 115200, 5, 360, 1200, 38400, 7812, 10};
				struct diag_serial_settings s;
				s.speed = sp[rnd("v.speed", 10)]; s.databits = (enum diag_databits)(8 - rnd("v.bits", 4)); s.stopbits = (enum diag_stopbits)(1 + rnd("v.stop", 2));
				static const enum diag_parity par[] = {diag_par_n, diag_par_e, diag_par_o};
				s.parflag = par[rnd("v.par", 3)];
				set_op("setup");
				if (chance("k.spd0", 0.05)) { struct diag_serial_settings z = s; z.speed = 0; CHECK(diag_tty_setup(p, &z) < 0, "setup:zero", "a speed of 0 bps was accepted"); f0 = nf(); }
				int rv = diag_tty_setup(p, &s);
				if (rv == 0) {
					const SerSettings &c = t->cur;
					if (s.speed < t->min_speed) CHECK(captured_stderr().find("speed off") != std::string::npos, "setup:speed", "configured %u bps, the port only does %u and nothing was said", s.speed, c.ospeed);
					else CHECK(c.ospeed == s.speed && c.ispeed == s.speed, "setup:speed", "configured %u bps, the port runs at %u", s.speed, c.ospeed);
					CHECK(t->databits() == (int)s.databits, "setup:bits", "configured %d data bits, the port uses %d", s.databits, t->databits());
					CHECK(((c.cflag & CSTOPB) ? 2 : 1) == (int)s.stopbits, "setup:stop", "stop bits wrong (wanted %d)", s.stopbits);
					CHECK(!(c.cflag & PARENB) == (s.parflag == diag_par_n), "setup:parity", "parity enable wrong");
					if (s.parflag != diag_par_n) CHECK(!!(c.cflag & PARODD) == (s.parflag == diag_par_o), "setup:parity", "parity sense wrong");
					CHECK(!(c.lflag & (ICANON | ECHO | ISIG | IEXTEN)) && !(c.oflag & OPOST) && !(c.iflag & (ICRNL | INLCR | IGNCR | IUCLC | IXON | IXOFF | ISTRIP | IGNBRK | BRKINT | PARMRK)) && !(c.cflag & CRTSCTS) && (c.cflag & CREAD) && (c.cflag & CLOCAL), "setup:raw", "port is not in raw mode (i=%x o=%x l=%x c=%x)", c.iflag, c.oflag, c.lflag, c.cflag);
				} else CHECK(nf() > f0, "setup:refused", "configuring %u/%d/%d/%d failed", s.speed, s.databits, s.stopbits, s.parflag);
			} else {
				int dtr = rnd("v.dtr", 2), rts = rnd("v.rts", 2);
				set_op("control");
				int rv = diag_tty_control(p, dtr, rts);
				if (rv == 0) CHECK(t->modem == (dtr ? 2 : 0) + (rts ? 4 : 0), "control:lines", "asked DTR=%d RTS=%d, lines are %x", dtr, rts, t->modem);
				if (rv == 0) CHECK(t->modem_out == oo, "control:others", "setting DTR/RTS changed other lines from %x to %x", oo, t->modem_out);
				else CHECK(nf() > f0, "control:refused", "setting DTR/RTS failed");
			}
		}
		set_op("close");
		if (closeok) faults_on = false;
		u32 rf0 = sum({"f.io.tcsets", "f.io.tcsets2", "f.io.sser", "f.io.mset"});
		diag_tty_close(p);
		restored_faulty = sum({"f.io.tcsets", "f.io.tcsets2", "f.io.sser", "f.io.mset"}) != rf0;
	} else restored_faulty = sum({"f.io.tcsets2", "f.io.sser", "f.io.mset"}) > 0;
	CHECK(open_fds() == 0, "fd:leak", "descriptor still open");
	CHECK(t->nopen_total == t->nclose_total, "fd:leak", "%d opens, %d closes", t->nopen_total, t->nclose_total);
	CHECK(live_allocs() == la0, "leak", "memory not released: %s", describe_leaks().c_str());
	if (!restored_faulty) {
		std::string why;
		CHECK(same_set(o, t->cur, why), "restore:termios", "the port was not given back as found: %s", why.c_str());
		CHECK(t->modem == om, "restore:modem", "modem lines were %x, are %x", om, t->modem);
		CHECK(t->modem_out == oo, "restore:modem", "other modem control lines were %x, are %x", oo, t->modem_out);
		if (t->has_serial && !sum({"f.io.gser"})) CHECK(t->ss_flags == osf && t->ss_divisor == osd, "restore:serial", "serial parameters were %x/%d, are %x/%d", osf, osd, t->ss_flags, t->ss_divisor);
	}
	sample("open %s, %d faults, found %u bps, %s", p ? "ok" : "failed", faults_fired, o.ospeed, restored_faulty ? "restore refused" : "restored");
}
