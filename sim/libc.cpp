// The operating system as seen by freediag: every function here replaces the libc symbol of the
// same name (without "vos_") in freediag's object files.
#include "sim.h"
#include "tty.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <ctime>
#include <csignal>
#include <pthread.h>
#include <sys/select.h>
#include <sys/time.h>
#include <sys/types.h>
#include <dirent.h>
#include <poll.h>
#include <unistd.h>
#include <fcntl.h>
#include <asm/termbits.h>
#include <asm/ioctls.h>
#include <linux/serial.h>
#include <algorithm>
#define TIOCM_DTR_ 0x002
#define TIOCM_RTS_ 0x004

using namespace sim;

namespace sim {
bool malloc_fail_enabled;
u64 malloc_fail_at, malloc_count;
bool alloc_tracking = true;
std::vector<std::string> cli_input;
u64 oversleep_max = 0;
i64 wall_offset = 0;
u64 mono_base = 5000 * SEC;
std::map<std::string, VFile> vfs;
u64 full_disk_after = ~0ull;
bool stdin_pending = false;
Console *console = nullptr;

struct AllocInfo { size_t n; u64 seq; void *ra; };
static std::unordered_map<void *, AllocInfo> *allocs;
static std::map<std::string, Tty *> *ttys;
struct Fd { Tty *tty; int flags; };
static std::map<int, Fd> *fds;
struct Mutex { int owner = -1; int count = 0; bool recursive = false; bool destroyed = false; };
static std::unordered_map<void *, Mutex> *mutexes;
struct Timer { int id; void (*fn)(union sigval); union sigval val; int notify; u64 interval; u64 evid; bool alive; u64 next; };
static std::vector<Timer *> *timers;
std::vector<u64> ticks;
static int nfiles_open;

void libc_reset() {
	allocs = new std::unordered_map<void *, AllocInfo>;
	ttys = new std::map<std::string, Tty *>;
	fds = new std::map<int, Fd>;
	mutexes = new std::unordered_map<void *, Mutex>;
	timers = new std::vector<Timer *>;
}
size_t live_allocs() { return allocs->size(); }
std::string describe_leaks() {
	std::string s; char b[100]; int k = 0;
	std::vector<std::pair<u64, std::pair<void *, AllocInfo>>> v;
	for (auto &a : *allocs) v.push_back({a.second.seq, a});
	std::sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; });
	for (auto &a : v) { snprintf(b, sizeof b, "#%llu %zu bytes (caller %p); ", (unsigned long long)a.first, a.second.second.n, a.second.second.ra); s += b; if (++k > 8) break; }
	return s;
}
int open_fds() { return (int)fds->size(); }
int open_files() { return nfiles_open; }
int timers_alive() { int n = 0; for (auto t : *timers) n += t->alive; return n; }
Tty *add_tty(const char *path, Peer *p) {
	Tty *t = new Tty; t->path = path; t->peer = p; if (p) p->tty = t;
	memset(&t->cur, 0, sizeof t->cur);
	t->cur.cflag = B9600 | CS8 | CREAD | HUPCL; t->cur.iflag = ICRNL | IXON; t->cur.oflag = OPOST | ONLCR;
	t->cur.lflag = ISIG | ICANON | ECHO | ECHOE | IEXTEN; t->cur.ispeed = t->cur.ospeed = 9600;
	static const u8 cc[] = {3, 28, 127, 21, 4, 0, 1, 0, 17, 19, 26, 0, 18, 15, 23, 22, 0, 0, 0};
	memcpy(t->cur.cc, cc, sizeof cc);
	(*ttys)[path] = t;
	return t;
}
Tty *find_tty(const char *path) { auto i = ttys->find(path); return i == ttys->end() ? nullptr : i->second; }
void reset_ttys() { ttys->clear(); }
} // namespace sim

// ------------------------------------------------------------------ tty model
int Tty::databits() const { switch (cur.cflag & CSIZE) { case CS5: return 5; case CS6: return 6; case CS7: return 7; default: return 8; } }
u64 Tty::char_time() const {
	u64 bits = 1 + databits() + ((cur.cflag & CSTOPB) ? 2 : 1) + ((cur.cflag & PARENB) ? 1 : 0);
	unsigned s = cur.ospeed ? cur.ospeed : 9600;
	return bits * SEC / s;
}
void Tty::deliver(u8 b, u64 t) { sim::at(t, [this, b]() { deliver_now(b); }); }
bool sim::mangle_rx = false;
static const u8 odd_bytes[] = {0, 1, 2, 3, 4, 5, 9, 0x0a, 0x0d, 0x10, 0x0f, 0x20, 0x30, 0x38, 0x3e, '>', '?', 'A', 0x40, 0x41, 0x48, 0x55, 0x6b, 0x68, 0x7e, 0x7f, 0x80, 0x81, 0x83, 0xaa, 0xbf, 0xc0, 0xc1, 0xc7, 0xd3, 0xf1, 0xfc, 0xfe, 0xff};
void sim::mangle_frame(Bytes &f) {
	if (!mangle_rx || f.size() < 2 || !fault("f.mg.frame")) return;
	auto sum = [](const Bytes &b) { u8 s = 0; for (u8 x : b) s += x; return s; };
	auto crc = [](const Bytes &b) { u8 c = 0xff; for (u8 x : b) { c ^= x; for (int i = 0; i < 8; i++) c = c & 0x80 ? (u8)(c << 1 ^ 0x1d) : (u8)(c << 1); } return (u8)~c; };
	u8 last = f.back(); Bytes d(f.begin(), f.end() - 1); bool isc = crc(d) == last && sum(d) != last; Prng p(rnd("v.mg", 1u << 30)); for (int i = 0; i < 4; i++) p.next();
	for (u32 n = 1 + p.below(2); n--;) switch (p.below(8)) {
	case 0: if (!d.empty()) d[p.below((u32)d.size())] = p.byte(); break;
	case 1: if (!d.empty()) d[p.below((u32)d.size())] = odd_bytes[p.below(sizeof odd_bytes)]; break;
	case 2: d.resize(p.below((u32)d.size() + 1)); break;
	case 3: for (u32 k = 1 + p.below(p.below(4) ? 12 : 300); k--;) d.push_back(p.byte()); break;
	case 4: if (!d.empty()) d[0] = (d[0] & 0xC0) | p.below(64); break;
	case 5: for (size_t k = std::min<size_t>(d.size(), 3 + p.below(3)); k < d.size(); k++) d[k] = p.below(3) ? p.byte() : odd_bytes[p.below(sizeof odd_bytes)]; break;
	case 6: if (d.size() > 4) { d.resize(4 + p.below(3) % (u32)(d.size() - 3)); } break;
	case 7: if (d.size() > 3) { d[3] = p.below(2) ? 0x7f : p.byte(); } break;
	}
	if (p.below(4) == 0 && d.size() >= 3 && d.size() <= 66 && (d[0] & 0x80)) d[0] = (d[0] & 0xC0) | (u8)(d.size() - 3);
	d.push_back(isc ? crc(d) : sum(d)); if (p.below(12) == 0) d.back() ^= 1 << p.below(8); f = d;
}
void Tty::deliver_now(u8 b) {
	if (!mangle_rx) { arrive(b); return; }
	if (u32 f = fault("f.mg.flip", 9)) b ^= 1 << (f - 1);
	if (fault("f.mg.set")) b = odd_bytes[rnd("v.mgb", sizeof odd_bytes)];
	if (!fault("f.mg.drop")) arrive(b);
	u32 n = 0, w = 0; if (fault("f.mg.ins")) { n = 1 + rnd("n.mg", 8); w = rnd("k.mg", 3); } if (fault("f.mg.flood")) { n = 200 + rnd("n.mg", 3000); w = rnd("k.mg", 4); } if (fault("f.mg.rep")) { n = 1 + rnd("n.mg", 60); w = 4; }
	if (!n) return;
	Prng p(rnd("v.mg", 1u << 30)); for (int i = 0; i < 4; i++) p.next(); u8 c = w == 1 ? p.byte() : odd_bytes[p.below(sizeof odd_bytes)]; size_t s = rx_log.size() > n ? rx_log.size() - n : 0; u64 ct = char_time();
	for (u32 i = 0; i < n; i++) { u8 x = w == 0 ? p.byte() : w == 3 ? odd_bytes[p.below(sizeof odd_bytes)] : w == 4 ? (s + i < rx_log.size() ? rx_log[s + i].b : 0) : c; at(now() + (i + 1) * ct, [this, x]() { arrive(x); }); }
}
void Tty::arrive(u8 b) {
	if (!opens) return;
	rx_total++;
	rx_log.push_back({b, now()});
	evbytes("rx", &b, 1);
	if (rxq.size() >= rx_limit) { count("p.rx.overrun"); return; }
	u64 t = now();
	if (rx_chunk) t = (t / rx_chunk + 1) * rx_chunk;
	rxq.push_back({b, t});
	if (rx_chunk) sim::at(t, []() {});   // wake-up point
}
static bool rx_ready(Tty *t) { return t->hup || (!t->rxq.empty() && t->rxq.front().t <= now()); }
static size_t rx_avail(Tty *t) { size_t n = 0; for (auto &r : t->rxq) { if (r.t > now()) break; n++; } return n; }

static const unsigned std_speeds[][2] = {{B50, 50}, {B75, 75}, {B110, 110}, {B134, 134}, {B150, 150}, {B200, 200}, {B300, 300}, {B600, 600},
	{B1200, 1200}, {B1800, 1800}, {B2400, 2400}, {B4800, 4800}, {B9600, 9600}, {B19200, 19200}, {B38400, 38400}, {B57600, 57600}, {B115200, 115200}};
static unsigned speed_of(unsigned cflag, unsigned lit, unsigned old) {
	unsigned c = cflag & CBAUD;
	if (c == BOTHER) return lit ? lit : old;
	for (auto &s : std_speeds) if (s[0] == c) return s[1];
	return 0;
}
static void apply(Tty *t, const SerSettings &n) {
	t->cur = n; t->tcount++;
	ev("tty c=%x i=%x o=%x l=%x spd=%u", n.cflag, n.iflag, n.oflag, n.lflag, n.ospeed);
}
static void impose(u64 d) { if (d) { imposed += d; sleep_until(now() + d); } }
static int fail(int e) { errno = e; return -1; }

static Tty *ttyof(int fd) { auto i = fds->find(fd); return i == fds->end() ? nullptr : i->second.tty; }
static void badfd(const char *f, int fd) { VIOL("badfd", "%s on file descriptor %d which is not open", f, fd); }

extern "C" {
int vos_open(const char *path, int flags, ...) {
	syscall_point("open");
	Tty *t = find_tty(path);
	ev("open %s %s", path, t ? "" : "(none)");
	if (!t || t->hup) return fail(ENOENT);
	if (u32 f = fault("f.open", 4)) return fail(f == 1 ? EACCES : f == 2 ? EBUSY : EMFILE);
	int fd = 10;
	while (fds->count(fd)) fd++;
	if (!t->opens) { t->before = t->cur; t->modem0 = t->modem; t->ss_flags0 = t->ss_flags; t->ss_divisor0 = t->ss_divisor; }
	(*fds)[fd] = {t, flags};
	t->opens++; t->nopen_total++;
	if (t->opens == 1 && t->peer) t->peer->opened();
	return fd;
}
int vos_close(int fd) {
	syscall_point("close");
	Tty *t = ttyof(fd);
	ev("close %d", fd);
	if (!t) badfd("close", fd);
	fds->erase(fd);
	t->opens--; t->nclose_total++;
	if (!t->opens) { t->rxq.clear(); if (t->brk) { t->brk = false; if (t->peer) t->peer->brk(false); } if (t->peer) t->peer->closed(); }
	return 0;
}
int vos_isatty(int fd) { if (fd < 3) return 0; syscall_point("isatty"); Tty *t = ttyof(fd); if (!t) badfd("isatty", fd); return 1; }
int vos_fcntl(int fd, int cmd, ...) {
	syscall_point("fcntl");
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	auto i = fds->find(fd);
	if (i == fds->end()) badfd("fcntl", fd);
	if (fault("f.fcntl")) return fail(EIO);
	if (cmd == F_GETFL) return i->second.flags;
	if (cmd == F_SETFL) { i->second.flags = (int)arg; return 0; }
	return 0;
}
static void note_tx(Tty *t, u8 b, u64 t0, u64 t1, unsigned baud) {
	at(t0, [t, b, t0, baud]() { if (t->peer) t->peer->tx_start(b, t0, baud); });
	at(t1, [t, b, t0, t1, baud]() { t->wire_tx.push_back({b, t1}); evbytes("tx", &b, 1); if (t->peer) t->peer->tx_byte(b, t0, t1, baud); });
}
ssize_t vos_write(int fd, const void *buf, size_t n) {
	syscall_point("write");
	Tty *t = ttyof(fd);
	if (!t) badfd("write", fd);
	io_mark();
	if (n == 0) return 0;
	if (t->hup) return fail(EIO);
	size_t k = n;
	if (fault("f.write.eintr")) { sleep_until(now() + 100 * US); return fail(EINTR); }
	if (fault("f.write.eio")) return fail(EIO);
	if (u32 s = fault("f.write.stall", 4)) {
		// output blocked (flow control, USB stall): blocks a while, takes nothing
		impose(s * 30 * MS);
		return fail(EINTR);
	}
	if (fault("f.write.zero")) { sleep_until(now() + 100 * US); return 0; }
	if (n > 1 && fault("f.write.short")) k = 1 + rnd("v.wshort", (u32)n - 1);
	u64 ct = t->char_time(); unsigned baud = t->cur.ospeed;
	u8 mask = (u8)((1u << t->databits()) - 1);
	const u8 *p = (const u8 *)buf;
	if (t->tx_free < now()) t->tx_free = now();
	for (size_t i = 0; i < k; i++) {
		u64 t0 = t->tx_free, t1 = t0 + ct;
		note_tx(t, p[i] & mask, t0, t1, baud);
		t->tx_free = t1;
	}
	ev("write %zu/%zu", k, n);
	return (ssize_t)k;
}
ssize_t vos_read(int fd, void *buf, size_t n) {
	syscall_point("read");
	Tty *t = ttyof(fd);
	if (!t) badfd("read", fd);
	io_mark();
	if (n == 0) return 0;
	if (fault("f.read.eintr")) return fail(EINTR);
	if (fault("f.read.eio")) return fail(EIO);
	if (fault("f.read.eof")) return 0;
	std::function<bool()> rdy = [t]() { return rx_ready(t); };
	if (!rdy()) {
		auto it = fds->find(fd);
		if (it->second.flags & O_NONBLOCK) return fail(EAGAIN);
		if (t->cur.cc[VMIN] == 0 && !(t->cur.lflag & ICANON)) return 0;
		wait_on(rdy, ~0ull);
	}
	if (t->hup && t->rxq.empty()) return 0;
	size_t k = rx_avail(t);
	if (k > n) k = n;
	if (k > 1 && fault("f.read.short")) k = 1 + rnd("v.rshort", (u32)k - 1);
	u8 *p = (u8 *)buf;
	std::vector<u8> tmp;
	for (size_t i = 0; i < k; i++) { tmp.push_back(t->rxq.front().b); t->taken.push_back(t->rxq.front()); t->rxq.pop_front(); }
	volatile size_t vk = k;
	memcpy(p, tmp.data(), vk);   // checked by the address sanitizer: a destination that is too small is reported
	evbytes("read", buf, k);
	return (ssize_t)k;
}
int vos_select(int nfds, fd_set *rd, fd_set *wr, fd_set *ex, struct timeval *tv) {
	syscall_point("select");
	(void)wr; (void)ex;
	Tty *t = nullptr; int tfd = -1; bool in0 = false;
	for (int i = 0; i < nfds; i++) if (rd && FD_ISSET(i, rd)) { if (i == 0) { in0 = true; continue; } t = ttyof(i); tfd = i; if (!t) badfd("select", i); }
	if (in0 && !t) { if (stdin_pending || (console && console->eof())) return 1; FD_ZERO(rd); return 0; }
	if (!t) { if (tv) sleep_until(now() + tv->tv_sec * SEC + tv->tv_usec * US); return 0; }
	if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0 || tv->tv_usec >= 1000000)) { return fail(EINVAL); }
	u64 to = tv ? tv->tv_sec * SEC + tv->tv_usec * US : ~0ull;
	u64 start = now();
	u64 dl = tv ? start + to : ~0ull;
	if (fault("f.sel.err")) return fail(EIO);
	std::function<bool()> rdy = [t]() { return rx_ready(t); };
	if (u32 f = fault("f.sel.eintr", 9)) {
		u64 idl = tv ? start + to * (f - 1) / 8 : start + f * MS;
		if (!rdy()) wait_on(rdy, idl);
		if (!rdy()) { return fail(EINTR); }   // contents of the sets are undefined after an error
	} else if (!rdy() && to) wait_on(rdy, dl);
	if (!rdy() && tv && to) {
		// timer slack
		if (oversleep_max) { u64 o = rnd("v.slack", 5) * oversleep_max / 4; impose(o); }
	} else if (oversleep_max && to) {
		impose(choose("v.wake", 5, 0.1) * oversleep_max / 4);
	}
	if (u32 f = fault("f.sel.late", 6)) impose(f * f * 3 * MS);
	if (rdy() && fault("f.sel.spur")) { // readiness reported late: behaves as a time-out that was not one
		if (tv && now() < dl) return fail(EINTR);
	}
	FD_ZERO(rd);
	if (tv) { u64 el = now() - start; u64 rem = el >= to ? 0 : to - el; tv->tv_sec = rem / SEC; tv->tv_usec = rem % SEC / US; }
	if (rdy()) { FD_SET(tfd, rd); return 1; }
	return 0;
}
int vos_poll(struct pollfd *p, nfds_t n, int timeout) {
	syscall_point("poll");
	Tty *t = nullptr; nfds_t k = 0;
	for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd > 2) { t = ttyof(p[i].fd); k = i; if (!t) badfd("poll", p[i].fd); } }
	if (!t) return stdin_pending || (console && console->eof()) ? 1 : 0;
	std::function<bool()> rdy = [t]() { return rx_ready(t); };
	u64 dl = timeout < 0 ? ~0ull : now() + timeout * MS;
	if (u32 f = fault("f.sel.eintr", 9)) {
		u64 idl = timeout < 0 ? now() + f * MS : now() + timeout * MS * (f - 1) / 8;
		if (!rdy()) wait_on(rdy, idl);
		if (!rdy()) return fail(EINTR);
	} else if (!rdy() && timeout) wait_on(rdy, dl);
	if (rdy()) { p[k].revents = POLLIN; return 1; }
	return 0;
}
static void drain(Tty *t) { if (t->tx_free > now()) sleep_until(t->tx_free); }
int vos_ioctl(int fd, unsigned long req, ...) {
	syscall_point("ioctl");
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	Tty *t = ttyof(fd);
	if (!t) badfd("ioctl", fd);
	io_mark();
	if (t->hup) return fail(EIO);
	SerSettings s = t->cur;
	switch (req) {
	case TCGETS: case TCGETS2: {
		if (fault(req == TCGETS ? "f.io.tcgets" : "f.io.tcgets2")) return fail(EIO);
		if (req == TCGETS) {
			struct termios *x = (struct termios *)arg;
			memset(x, 0, sizeof *x);
			x->c_iflag = s.iflag; x->c_oflag = s.oflag; x->c_cflag = s.cflag; x->c_lflag = s.lflag; memcpy(x->c_cc, s.cc, NCCS);
		} else {
			struct termios2 *x = (struct termios2 *)arg;
			memset(x, 0, sizeof *x);
			x->c_iflag = s.iflag; x->c_oflag = s.oflag; x->c_cflag = s.cflag; x->c_lflag = s.lflag; memcpy(x->c_cc, s.cc, NCCS);
			x->c_ispeed = s.ispeed; x->c_ospeed = s.ospeed;
		}
		return 0;
	}
	case TCSETS: case TCSETSW: case TCSETSF: {
		if (req != TCSETS) drain(t);
		if (fault("f.io.tcsets")) return fail(EIO);
		struct termios *x = (struct termios *)arg;
		s.iflag = x->c_iflag; s.oflag = x->c_oflag; s.cflag = x->c_cflag; s.lflag = x->c_lflag; memcpy(s.cc, x->c_cc, NCCS);
		unsigned sp = speed_of(s.cflag, 0, t->cur.ospeed); s.ispeed = s.ospeed = t->allowed(sp);
		if (req == TCSETSF) t->rxq.clear();
		apply(t, s);
		return 0;
	}
	case TCSETS2: case TCSETSW2: case TCSETSF2: {
		if (req != TCSETS2) drain(t);
		if (fault("f.io.tcsets2")) return fail(EINVAL);
		struct termios2 *x = (struct termios2 *)arg;
		s.iflag = x->c_iflag; s.oflag = x->c_oflag; s.cflag = x->c_cflag; s.lflag = x->c_lflag; memcpy(s.cc, x->c_cc, NCCS);
		s.ospeed = t->allowed(speed_of(s.cflag, x->c_ospeed, 0)); s.ispeed = s.ospeed;
		// hardware divisor rounding (16x oversampling from 1.8432 MHz is not modelled; USB chips are exact enough)
		if (req == TCSETSF2) t->rxq.clear();
		apply(t, s);
		return 0;
	}
	case TIOCGSERIAL: {
		if (!t->has_serial) return fail(ENOTTY);
		if (fault("f.io.gser")) return fail(EIO);
		struct serial_struct *x = (struct serial_struct *)arg;
		memset(x, 0, sizeof *x);
		x->flags = t->ss_flags; x->custom_divisor = t->ss_divisor; x->baud_base = t->ss_baud_base;
		return 0;
	}
	case TIOCSSERIAL: {
		if (!t->has_serial) return fail(ENOTTY);
		if (fault("f.io.sser")) return fail(EPERM);
		struct serial_struct *x = (struct serial_struct *)arg;
		t->ss_flags = x->flags; t->ss_divisor = x->custom_divisor;
		ev("sserial f=%x d=%d", t->ss_flags, t->ss_divisor);
		return 0;
	}
	case TIOCMGET: if (fault("f.io.mget")) return fail(EIO); *(int *)arg = t->modem | t->modem_out | 0x100; return 0;
	case TIOCMSET: {
		if (fault("f.io.mset")) return fail(EIO);
		int v = *(int *)arg & (TIOCM_DTR_ | TIOCM_RTS_);
		t->modem_out = *(int *)arg & 0x6000;
		ev("modem %x", v);
		t->modem = v; if (t->peer) t->peer->modem(v);
		return 0;
	}
	case TIOCMBIS: case TIOCMBIC: {
		if (fault("f.io.mset")) return fail(EIO);
		t->modem_out = req == TIOCMBIS ? t->modem_out | (*(int *)arg & 0x6000) : t->modem_out & ~*(int *)arg;
		int v = *(int *)arg & (TIOCM_DTR_ | TIOCM_RTS_);
		t->modem = req == TIOCMBIS ? t->modem | v : t->modem & ~v;
		ev("modem %x", t->modem);
		if (t->peer) t->peer->modem(t->modem);
		return 0;
	}
	case TCSBRK:
		if ((long)arg == 0) { drain(t); t->brk = true; if (t->peer) t->peer->brk(true); sleep_until(now() + 250 * MS); t->brk = false; if (t->peer) t->peer->brk(false); return 0; }
		drain(t);
		if (fault("f.io.drain")) return fail(EINTR);
		return 0;
	case TIOCSBRK:
		if (fault("f.io.sbrk")) return fail(EIO);
		ev("break on");
		if (!t->brk) { t->brk = true; t->brk_since = now(); if (t->peer) t->peer->brk(true); }
		return 0;
	case TIOCCBRK:
		if (fault("f.io.cbrk")) return fail(EIO);
		ev("break off");
		if (t->brk) { t->brk = false; if (t->peer) t->peer->brk(false); }
		return 0;
	case TCFLSH: {
		if (fault("f.io.flush")) return fail(EIO);
		long q = (long)arg;
		if (q == TCIFLUSH || q == TCIOFLUSH) { t->flushed_total += t->rxq.size(); t->rxq.clear(); ev("iflush"); }
		return 0;
	}
	case FIONREAD: *(int *)arg = (int)rx_avail(t); return 0;
	default: return fail(ENOTTY);
	}
}
// POSIX termios calls (another implementation selector may use them); kernel struct layout assumed
int vos_tcdrain(int fd) { return vos_ioctl(fd, TCSBRK, 1); }
int vos_tcflush(int fd, int q) { return vos_ioctl(fd, TCFLSH, (long)q); }

// ------------------------------------------------------------------ directories
struct SimDir { size_t i; std::vector<std::string> names; struct dirent de; };
DIR *vos_opendir(const char *path) {
	syscall_point("opendir");
	if (fault("f.opendir")) { errno = EMFILE; return nullptr; }
	SimDir *d = new SimDir; d->i = 0;
	std::string p = path; if (p.back() != '/') p += '/';
	for (auto &t : *ttys) if (!t.first.compare(0, p.size(), p) && t.first.find('/', p.size()) == std::string::npos) d->names.push_back(t.first.substr(p.size()));
	if (d->names.empty() && p != "/dev/") { delete d; errno = ENOENT; return nullptr; }
	nfiles_open++;
	return (DIR *)d;
}
struct dirent *vos_readdir(DIR *dp) {
	SimDir *d = (SimDir *)dp;
	if (d->i >= d->names.size()) return nullptr;
	memset(&d->de, 0, sizeof d->de);
	snprintf(d->de.d_name, sizeof d->de.d_name, "%s", d->names[d->i++].c_str());
	return &d->de;
}
int vos_closedir(DIR *dp) { delete (SimDir *)dp; nfiles_open--; return 0; }

// ------------------------------------------------------------------ time
int vos_clock_gettime(clockid_t c, struct timespec *ts) {
	syscall_point("clock");
	u64 t;
	if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
		if (u32 j = fault("f.wallclock", 6)) { static const i64 jmp[] = {0, -3600, 3600, -5, 86400 * 30, -1}; wall_offset += jmp[j] * (i64)SEC; }
		t = 1700000000ull * SEC + now() + wall_offset;
	} else if (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_COARSE) t = mono_base + now();
	else return fail(EINVAL);
	ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC;
	return 0;
}
int vos_gettimeofday(struct timeval *tv, void *) { struct timespec ts; vos_clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t vos_time(time_t *p) { struct timespec ts; vos_clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
static int do_sleep(u64 dur, u64 *rem) {
	u64 end = now() + dur;
	if (dur == 0) return 0;
	if (u32 f = fault("f.sleep.eintr", 9)) {
		u64 t = now() + dur * (f - 1) / 8;
		sleep_until(t);
		*rem = end > now() ? end - now() : 0;
		return EINTR;
	}
	u64 o = 0;
	if (oversleep_max) o = rnd("v.slack", 5) * oversleep_max / 4;
	if (u32 f = fault("f.oversleep", 6)) o += f * f * 3 * MS;
	imposed += o;
	sleep_until(end + o);
	*rem = 0;
	return 0;
}
int vos_clock_nanosleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *rem) {
	syscall_point("nanosleep");
	(void)c;
	if (c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_REALTIME_COARSE) return ENOTSUP;   // as Linux does
	if (rq->tv_nsec < 0 || rq->tv_nsec >= 1000000000 || rq->tv_sec < 0) return EINVAL;
	u64 d = rq->tv_sec * SEC + rq->tv_nsec, r = 0;
	if (flags & TIMER_ABSTIME) { u64 base = c == CLOCK_REALTIME ? 1700000000ull * SEC + wall_offset : mono_base; d = d > base + now() ? d - base - now() : 0; }
	int rv = do_sleep(d, &r);
	if (rv == EINTR && rem && !(flags & TIMER_ABSTIME)) { rem->tv_sec = r / SEC; rem->tv_nsec = r % SEC; }
	return rv;
}
int vos_nanosleep(const struct timespec *rq, struct timespec *rem) { int rv = vos_clock_nanosleep(CLOCK_MONOTONIC, 0, rq, rem); return rv ? fail(rv) : 0; }
int vos_usleep(unsigned us) { u64 r; syscall_point("usleep"); int rv = do_sleep(us * US, &r); return rv ? fail(rv) : 0; }
unsigned vos_sleep(unsigned s) { u64 r; syscall_point("sleep"); do_sleep(s * SEC, &r); return (unsigned)(r / SEC); }

// ------------------------------------------------------------------ timers
static void arm(Timer *t);
static void fire(Timer *t) {
	if (!t->alive) return;
	ev("timer %d", t->id);
	count("s.timer");
	if (fault("f.tmr.lost")) { /* expiry not delivered */ }
	else if (t->notify == SIGEV_THREAD) {
		u64 lat = 0;
		if (callback_delay_max) lat = rnd("v.cblat", 8) * callback_delay_max / 7;
		if (u32 f = fault("f.tmr.late", 6)) lat += f * f * 10 * MS;
		auto fn = t->fn; auto val = t->val;
		at(now() + lat, [fn, val]() { spawn("callback", [fn, val]() { ticks.push_back(now()); syscall_point("cb"); fn(val); }); });
	}
	if (t->interval) { t->next += t->interval; arm(t); }
}
static void arm(Timer *t) { t->evid = at(t->next, [t]() { t->evid = 0; fire(t); }); }
int vos_timer_create(clockid_t, struct sigevent *se, timer_t *id) {
	syscall_point("timer_create");
	if (fault("f.timer_create")) return fail(EAGAIN);
	Timer *t = new Timer; t->id = (int)timers->size() + 1; t->notify = se->sigev_notify;
	if (t->notify != SIGEV_THREAD) internal_error("timer with notify %d not modelled", t->notify);
	t->fn = se->sigev_notify_function; t->val = se->sigev_value; t->interval = 0; t->evid = 0; t->alive = true;
	timers->push_back(t);
	*id = (timer_t)(size_t)t->id;
	return 0;
}
static Timer *tm(timer_t id) { size_t i = (size_t)id; if (i < 1 || i > timers->size() || !(*timers)[i - 1]->alive) VIOL("badtimer", "operation on a timer that does not exist"); return (*timers)[i - 1]; }
int vos_timer_settime(timer_t id, int, const struct itimerspec *v, struct itimerspec *) {
	syscall_point("timer_settime");
	Timer *t = tm(id);
	if (fault("f.timer_settime")) return fail(EINVAL);
	if (t->evid) { cancel(t->evid); t->evid = 0; }
	u64 d = v->it_value.tv_sec * SEC + v->it_value.tv_nsec;
	t->interval = v->it_interval.tv_sec * SEC + v->it_interval.tv_nsec;
	if (d) { t->next = now() + d; arm(t); }
	return 0;
}
int vos_timer_delete(timer_t id) {
	syscall_point("timer_delete");
	Timer *t = tm(id);
	if (t->evid) cancel(t->evid);
	t->alive = false;
	ev("timer_delete");
	return 0;
}

// ------------------------------------------------------------------ mutexes
int vos_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
	Mutex x;
	int ty = PTHREAD_MUTEX_DEFAULT;
	if (a) pthread_mutexattr_gettype(a, &ty);
	x.recursive = ty == PTHREAD_MUTEX_RECURSIVE;
	auto i = mutexes->find(m);
	if (i != mutexes->end() && i->second.owner >= 0) VIOL("mutex:reinit", "a locked mutex is initialised again");
	(*mutexes)[m] = x;
	return 0;
}
static Mutex &mtx(pthread_mutex_t *m, const char *what) {
	Mutex &x = (*mutexes)[m];
	if (x.destroyed) VIOL("mutex:destroyed", "%s of a destroyed mutex", what);
	static bool once = false; static pthread_mutex_t rec;
	if (!once) { pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE); pthread_mutex_init(&rec, &a); once = true; }
	return x;
}
int vos_pthread_mutex_destroy(pthread_mutex_t *m) {
	syscall_point("mtx_destroy");
	Mutex &x = mtx(m, "destroy");
	if (x.owner >= 0) VIOL("mutex:destroy-locked", "a locked mutex is destroyed");
	x.destroyed = true;
	return 0;
}
int vos_pthread_mutex_lock(pthread_mutex_t *m) {
	syscall_point("lock");
	Mutex *x = &mtx(m, "lock");
	if (x->owner == cur_task_id()) {
		if (x->recursive || m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { x->count++; return 0; }
		VIOL("hang:selflock", "a thread locks a mutex it already holds");
	}
	if (x->owner >= 0) {
		std::function<bool()> rdy = [m]() { Mutex &y = (*mutexes)[m]; return y.owner < 0; };
		count("s.lockwait");
		while (x->owner >= 0) { wait_on(rdy, ~0ull); x = &mtx(m, "lock"); }
	}
	x->owner = cur_task_id(); x->count = 1;
	return 0;
}
int vos_pthread_mutex_trylock(pthread_mutex_t *m) {
	syscall_point("trylock");
	Mutex &x = mtx(m, "trylock");
	if (x.owner == cur_task_id() && (x.recursive || m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP)) { x.count++; return 0; }
	if (x.owner >= 0) { count("s.trybusy"); return EBUSY; }
	x.owner = cur_task_id(); x.count = 1;
	return 0;
}
int vos_pthread_mutex_unlock(pthread_mutex_t *m) {
	Mutex &x = mtx(m, "unlock");
	if (x.owner != cur_task_id()) VIOL("mutex:unlock", "unlock of a mutex the thread does not hold");
	if (--x.count == 0) x.owner = -1;
	syscall_point("unlock");
	return 0;
}
// ------------------------------------------------------------------ memory
static void *track(void *p, size_t n, void *ra) {
	if (p) (*allocs)[p] = {n, malloc_count, ra};
	return p;
}
static bool alloc_fails() {
	malloc_count++;
	if (malloc_fail_enabled && malloc_fail_at && malloc_count == malloc_fail_at) { count("f.malloc"); faults_fired++; last_fault_at = now(); ev("FAULT malloc %llu", (unsigned long long)malloc_count); errno = ENOMEM; return true; }
	if (fault("f.alloc")) { errno = ENOMEM; return true; }
	return false;
}
void *vos_malloc(size_t n) { if (alloc_fails()) return nullptr; void *p = malloc(n); if (p) memset(p, 0xA5, n); return track(p, n, __builtin_return_address(0)); }
void *vos_calloc(size_t a, size_t b) { if (alloc_fails()) return nullptr; return track(calloc(a, b), a * b, __builtin_return_address(0)); }
void *vos_realloc(void *o, size_t n) {
	if (alloc_fails()) return nullptr;
	if (o) allocs->erase(o);
	return track(realloc(o, n), n, __builtin_return_address(0));
}
void vos_free(void *p) { if (p) allocs->erase(p); free(p); }
char *vos_strdup(const char *s) { if (alloc_fails()) return nullptr; return (char *)track(strdup(s), strlen(s) + 1, __builtin_return_address(0)); }
char *vos_strndup(const char *s, size_t n) { if (alloc_fails()) return nullptr; return (char *)track(strndup(s, n), n + 1, __builtin_return_address(0)); }
uid_t vos_getuid(void) { return 1000; }
int vos_sigaction(int, const struct sigaction *, struct sigaction *) { return 0; }

// ------------------------------------------------------------------ files
struct FCookie { std::string name; VFile *f; size_t pos; bool app, wr, rd; bool failed; };
static ssize_t ck_read(void *c, char *b, size_t n) {
	FCookie *k = (FCookie *)c; syscall_point("fread");
	if (fault("f.fread")) { errno = EIO; return -1; }
	size_t av = k->f->data.size() > k->pos ? k->f->data.size() - k->pos : 0;
	if (n > av) n = av;
	if (n > 1 && fault("f.fread.short")) n = 1 + rnd("v.frshort", (u32)n - 1);
	memcpy(b, k->f->data.data() + k->pos, n); k->pos += n;
	return (ssize_t)n;
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
	FCookie *k = (FCookie *)c; syscall_point("fwrite");
	if (u32 f = fault("f.fwrite", 3)) { k->failed = true; errno = f == 1 ? ENOSPC : EIO; return 0; }
	size_t w = n;
	if (w > full_disk_after) w = (size_t)full_disk_after;
	if (w > 1 && fault("f.fwrite.short")) w = 1 + rnd("v.fwshort", (u32)w - 1);
	if (k->app) k->pos = k->f->data.size();
	if (k->f->data.size() < k->pos + w) k->f->data.resize(k->pos + w);
	memcpy(k->f->data.data() + k->pos, b, w); k->pos += w; k->f->writes++;
	if (full_disk_after != ~0ull) full_disk_after -= w;
	evbytes("fwrite", b, w);
	if (w < n && full_disk_after == 0) { count("f.diskfull"); k->failed = true; errno = ENOSPC; return (ssize_t)w; }
	return (ssize_t)w;
}
static int ck_seek(void *c, off64_t *o, int wh) {
	FCookie *k = (FCookie *)c; i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)k->pos : (i64)k->f->data.size();
	b += *o; if (b < 0) return -1; k->pos = (size_t)b; *o = b; return 0;
}
static int ck_close(void *c) { FCookie *k = (FCookie *)c; delete k; nfiles_open--; syscall_point("fclose"); if (fault("f.fclose")) { errno = EIO; return -1; } return 0; }
FILE *vos_fopen(const char *path, const char *mode) {
	syscall_point("fopen");
	ev("fopen %s %s", path, mode);
	auto i = vfs.find(path);
	if (fault("f.fopen")) { errno = EACCES; return nullptr; }
	bool wr = strchr(mode, 'w'), ap = strchr(mode, 'a'), pl = strchr(mode, '+');
	if (!wr && !ap && (i == vfs.end() || !i->second.exists)) { errno = ENOENT; return nullptr; }
	VFile &f = vfs[path];
	f.exists = true;
	if (wr) f.data.clear();
	FCookie *k = new FCookie{path, &f, 0, ap, wr || ap || pl, !wr || pl, false};
	cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
	FILE *fp = fopencookie(k, mode, io);
	if (fp) nfiles_open++;
	return fp;
}
int vos_fclose(FILE *f) { return fclose(f); }
void vos_exit(int code) { if (console) console->exited(code); VIOL("exit", "the program called exit(%d)", code); }
// console input
static size_t cli_i;
static bool console_line(std::string &l) {
	if (stdin_pending) { stdin_pending = false; l.clear(); return true; }
	if (console) return console->line(l);
	if (cli_i >= cli_input.size()) return false;
	l = cli_input[cli_i++]; return true;
}
char *vos_readline(const char *pr) {
	syscall_point("readline"); std::string l; sim::rl_prompt = pr ? pr : "";
	if (!console_line(l)) return nullptr;
	ev("line %s", l.c_str());
	return (char *)track(strdup(l.c_str()), l.size() + 1, __builtin_return_address(0));
}
void vos_add_history(const char *) {}
static bool stdin_ended;
char *vos_fgets(char *b, int n, FILE *f) {
	if (f != stdin) return fgets(b, n, f);
	syscall_point("fgets"); std::string l;
	if (!console_line(l)) { if (!stdin_ended) { stdin_ended = true; } return nullptr; }
	ev("fgets %s", l.c_str());
	snprintf(b, n, "%s\n", l.c_str());
	return b;
}
int vos_getc(FILE *f) {
	if (f != stdin) return getc(f);
	syscall_point("getc");
	if (stdin_pending) { stdin_pending = false; return '\n'; }
	if (console) return console->key();
	return EOF;
}
}
