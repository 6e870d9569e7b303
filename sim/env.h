// Helpers shared by the scenarios.
#pragma once
#include "scen.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
extern "C" {
#include "diag.h"
#include "diag_os.h"
#include "diag_err.h"
#include "diag_tty.h"
#include "diag_cfg.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_l2.h"
#include "diag_l3.h"
}
#include <initializer_list>
using namespace sim;

// host timing of this run: small = a good machine, else scheduling delays of some ms
void host_good();
void host_any();
// each listed fault kind is enabled with probability pk, with a rate in [lo,hi] (log-uniform)
void swarm(std::initializer_list<const char *> kinds, double pk, double lo, double hi);
struct FaultsOff { bool old; FaultsOff() : old(faults_on) { faults_on = false; } ~FaultsOff() { faults_on = old; } };
u32 count_of(const char *counter);
void os_up();            // clocks usable (calibrates without faults)
extern bool whole_program;  // the program under test does all the set-up itself
void lib_up();           // diag_init
void lib_down();         // diag_end
struct NullPeer : Peer { void tx_byte(u8, u64, u64, unsigned) override {} };
Bytes rnd_bytes(const char *kind, size_t n);
// a timed operation: must end within max ns plus what the simulator imposed
struct Op {
	u64 t0, imp0; std::string name;
	Op(const char *n, u64 max_ns = 0);
	u64 elapsed() const { return now() - t0; }
	u64 imposed_ns() const { return imposed - imp0; }
};
