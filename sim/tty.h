// Virtual serial ports and what is plugged into them.
#pragma once
#include "sim.h"

struct Tty;
// Something connected to a serial port.
struct Peer {
	Tty *tty = nullptr;
	virtual ~Peer() {}
	virtual void tx_byte(u8 b, u64 t0, u64 t1, unsigned baud) = 0;  // called at t1
	virtual void tx_start(u8 b, u64 t0, unsigned baud) { (void)b; (void)t0; (void)baud; }
	virtual void brk(bool on) { (void)on; }
	virtual void modem(int bits) { (void)bits; }
	virtual void opened() {}
	virtual void closed() {}
};
struct RxByte { u8 b; u64 t; };
struct SerSettings {            // what the UART is programmed to
	unsigned cflag, iflag, oflag, lflag, ispeed, ospeed; u8 cc[32];
	bool operator==(const SerSettings &o) const {
		if (!(cflag == o.cflag && iflag == o.iflag && oflag == o.oflag && lflag == o.lflag && ispeed == o.ispeed && ospeed == o.ospeed)) return false;
		for (int i = 0; i < 19; i++) if (cc[i] != o.cc[i]) return false;
		return true;
	}
};
struct Tty {
	std::string path;
	Peer *peer = nullptr;
	SerSettings cur, before;
	bool has_serial = true;
	int ss_flags = 0x10, ss_divisor = 0, ss_baud_base = 115200;
	int ss_flags0 = 0, ss_divisor0 = 0;
	int modem = 0x6;            // TIOCM_DTR|RTS
	int modem0 = 0;
	int modem_out = 0;          // TIOCM_OUT1|OUT2: other outputs of the UART, nobody's business
	unsigned min_speed = 0;     // the hardware can't go slower: like kernel drivers, take this instead
	unsigned allowed(unsigned s) const { return s && s < min_speed ? min_speed : s; }
	std::deque<RxByte> rxq;
	u64 tx_free = 0;            // transmitter idle from then on
	bool brk = false;
	u64 brk_since = 0;
	int opens = 0;
	int nopen_total = 0, nclose_total = 0;
	bool hup = false;           // unplugged: reads give EOF, writes EIO
	// accounting for oracles
	std::vector<RxByte> wire_tx;   // bytes that left the UART (time = end)
	std::vector<RxByte> taken;     // bytes handed to the program by read()
	u64 rx_total = 0, flushed_total = 0;
	std::vector<RxByte> rx_log;    // every byte that arrived at the UART
	u64 rx_chunk = 0;              // receive FIFO latency (bytes become visible in multiples of this)
	size_t rx_limit = 1 << 20;     // kernel buffer
	unsigned baud() const { return cur.ospeed; }
	u64 char_time() const;         // ns per character with current settings
	int databits() const;
	// called by peers
	void deliver(u8 b, u64 t);     // byte arrives at time t (event)
	void deliver_now(u8 b);
	void arrive(u8 b);             // ... undisturbed
	int tcount = 0;                // number of settings changes
};

namespace sim {
extern bool mangle_rx;          // arbitrary bytes may arrive instead (C24; fault kinds f.mg.*)
void mangle_frame(Bytes &f);    // f.mg.frame: the content of a frame changes, its checksum still fits
Tty *add_tty(const char *path, Peer *p);
Tty *find_tty(const char *path);
void reset_ttys();
// virtual files
struct VFile { Bytes data; bool exists = true; int fault_open = 0; u64 writes = 0; };
extern std::map<std::string, VFile> vfs;
int open_files();
extern u64 full_disk_after;   // bytes the disk still takes (~0 = no limit)
extern bool stdin_pending;
}
