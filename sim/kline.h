// A K-line bus: the tester's dumb interface on one side, ECUs on the other.
#pragma once
#include "env.h"
struct KLine;
struct BusByte { u8 b; u64 t0, t1; int src; unsigned baud; };   // src 0 = tester, >0 = ECU, -1 = noise
struct Edge { u64 t; bool low; };
struct Frame { u64 t0, t1; Bytes b; };
struct Ecu {
	KLine *bus = nullptr; int id = 1;
	unsigned baud = 10400;
	u64 p1 = 0;                       // gap between its bytes
	bool listen_l = false;            // takes its address from the L line
	virtual ~Ecu() {}
	virtual void rx(u8 b, u64 t0, u64 t1) { (void)b; (void)t0; (void)t1; }
	virtual void addr5(u8 a, u64 tend) { (void)a; (void)tend; }
	virtual void wup(u64 tfall) { (void)tfall; }
};
struct KLine : Peer {
	bool echo = true;
	bool has_l = false, l_inv = false;
	bool ecu_on = true;               // ECUs powered / connected
	std::vector<BusByte> bus;         // everything that was on the line
	std::vector<Edge> k, l;           // line level changes caused by the tester
	std::vector<RxByte> ecu_rx;       // bytes of ECUs and noise that reached the UART
	std::vector<Ecu *> ecus;
	int collisions = 0;
	int echoes = 0, lose_at = -1, flip_at = -1, flip_bit = 0;  // one chosen echo is lost or changed
	u64 ecu_busy = 0;                 // an ECU transmits until then
	u64 sched_end = 0;                // end of the last byte that is scheduled
	void settle(u64 t);               // waits until nothing is scheduled any more, and t longer
	bool klow = false, llow = false;
	u64 kfall = 0;
	u64 sampling = 0;                 // start of the 5 baud character being sampled, 0 = none
	u64 wup_tol = 1 * MS;
	u64 last_activity = 0;            // last edge or byte on K
	u8 last5 = 0; u64 last5_end = 0; int n5 = 0; int nwup = 0; u64 last_wup = 0;
	void add(Ecu *e) { e->bus = this; e->id = (int)ecus.size() + 1; ecus.push_back(e); }
	void setk(bool low);
	void tx_start(u8 b, u64 t0, unsigned baud) override;
	void tx_byte(u8 b, u64 t0, u64 t1, unsigned baud) override;
	void brk(bool on) override;
	void modem(int bits) override;
	void opened() override;
	// an ECU sends bytes from t on (with its own gaps); returns the end time
	u64 ecu_tx(Ecu *e, const Bytes &d, u64 t, bool faultable = true);
	void noise(const Bytes &d, u64 t);
	size_t mark() const { return ecu_rx.size(); }
	// frames of the tester since index (bytes of the tester separated by more than gap)
	std::vector<Frame> tester_frames(size_t from_bus, u64 gap) const;
	// true if d appears contiguously in what reached the UART from ECUs since mark; pos is advanced behind it
	bool arrived(size_t &pos, const Bytes &d) const;
	bool level_at(const std::vector<Edge> &v, u64 t) const { bool r = false; for (auto &e : v) { if (e.t > t) break; r = e.low; } return r; }
	virtual void rx_byte(u8 b, u64 t, unsigned baud);   // a byte from the line reaches the UART
private:
	void edge(bool low);
	void sample5(u64 start);
};
inline u32 vary(u64 t, u32 n) { return n ? (t / 1000 * 2654435761ull >> 9) % n : 0; }    // a choice derived from a drawn time
u8 cks(const Bytes &b);
Bytes cat(const Bytes &a, const Bytes &b);
#define KLINE_FAULTS {"f.bus.drop", "f.bus.flip", "f.bus.dup", "f.bus.gap", "f.bus.noise", "f.bus.trunc"}
// ------------------------------------------------------------------ session helpers
// C23: one allocation fails while an operation runs; if it was hit, the operation may fail (Soft is thrown)
struct Soft {};
struct Oom { static bool soft, any; static u32 f0; static bool hit(); static void arm(double p = 0.7); static bool done(); };
inline void soft_fail(bool failed) { if (failed && Oom::soft && (Oom::any || Oom::hit())) throw Soft{}; }
struct Msg { Bytes d; unsigned src, dest, fmt; };
std::vector<Msg> chain(struct diag_msg *m);
struct Sess {
	Tty *t = nullptr; struct diag_l0_device *dl0d = nullptr; struct diag_l2_conn *conn = nullptr;
	bool l2open = false;
	int add(const char *l0, const char *port, Peer *p, int dumbopts = -1);   // creates port and L0 device
	bool open(int l1proto);
	bool start(int l2proto, unsigned flags, unsigned bitrate, unsigned target, unsigned source);
	void stop();
	void down();                     // close everything that is still open, delete the device
};
bool set_cfg(struct diag_l0_device *d, const char *name, const char *sval, int ival);
// leak and state checks at the end of a run, after lib_down()
void end_checks(size_t allocs0);
void idle(u64 t);
u64 gap_to_prev(const KLine &b, u64 t0);      // end of the last byte on the line before t0
struct ReqResult { std::vector<Msg> m; int err = 0; bool null = true; };
ReqResult l2_request(struct diag_l2_conn *c, Bytes d, u64 limit, u8 src = 0, u8 dest = 0);
ReqResult l2_recv(struct diag_l2_conn *c, unsigned timeout, u64 limit);
int l2_send(struct diag_l2_conn *c, Bytes d, u64 limit, u8 src = 0, u8 dest = 0);
Bytes rx_since(const KLine &b, size_t mark, size_t max = 300);
extern const int dopts[20];
