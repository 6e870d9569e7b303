// C24: hostile bytes on every interface, protocol and terminal command.
#include "ka.h"
#include "d2_sess.h"
#include "i9.h"
#include "hostile.h"
namespace {
const std::vector<int> ALL_L1 = {DIAG_L1_ISO9141, DIAG_L1_ISO14230, DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_CAN, DIAG_L1_RAW}, ALL_L2 = {DIAG_L2_PROT_RAW, DIAG_L2_PROT_ISO9141, DIAG_L2_PROT_ISO14230, DIAG_L2_PROT_SAEJ1850, DIAG_L2_PROT_VAG, DIAG_L2_PROT_MB1, DIAG_L2_PROT_D2};
}
SCENARIO("C24", hostile_kline, 1.5) {
	host_good(); u32 w = rnd("k.world", 4); KW kw; I9 i9; VG vg; MB mb; Sess *s = nullptr; std::function<bool()> good; int p = 0, l1 = 0;
	switch (w) {
	case 0: kw.setup(); kw.up(); s = &kw.s; p = DIAG_L2_PROT_ISO14230; l1 = DIAG_L1_ISO14230; good = [&]() { return kw.start(2000 * SEC); }; kw.ecu.handler = [&](const Bytes &q) { return rnd_rsps(kw, q, true); }; break;
	case 1: i9.setup(); i9.up(); s = &i9.s; p = DIAG_L2_PROT_ISO9141; l1 = DIAG_L1_ISO9141; good = [&]() { return i9.s.start(DIAG_L2_PROT_ISO9141, DIAG_L2_TYPE_SLOWINIT, 0, i9.ecu.addr, i9.src); }; i9.ecu.handler = [&](const Bytes &) { return i9.rsps(5); }; break;
	case 2: vg.setup(); vg.up(); s = &vg.s; p = DIAG_L2_PROT_VAG; l1 = DIAG_L1_ISO9141; good = [&]() { return vg.s.start(DIAG_L2_PROT_VAG, DIAG_L2_TYPE_SLOWINIT, vg.speed, vg.ecu.addr, 0xF1); }; break;
	case 3: mb.setup(); mb.up(); s = &mb.s; p = DIAG_L2_PROT_MB1; l1 = DIAG_L1_ISO9141; good = [&]() { return mb.s.start(DIAG_L2_PROT_MB1, DIAG_L2_TYPE_SLOWINIT, mb.speed, mb.ecu.addr, 0xF1); }; break;
	}
	hostile_faults(); Api a{*s, {l1, l1, l1, DIAG_L1_RAW}, ALL_L2, good}; a.p = p; a.l7 = w == 2; size_t a0 = w == 0 ? kw.a0 : w == 1 ? i9.a0 : w == 2 ? vg.a0 : mb.a0;
	a.run(3 + rnd("n.ops", 25)); sample("%u calls with a disturbed ECU of protocol %d", a.nops, p); a.down(a0);
}
SCENARIO("C24", hostile_elm, 1.2) {
	host_good(); D2 z; bool d2 = rnd("k.d2", 2); Rig g; Sess *s; std::function<bool()> good; size_t a0; int l1;
	if (d2) { z.setup(); z.k.up(); s = &z.k.s; l1 = DIAG_L1_ISO9141; good = [&]() { return z.start(); }; a0 = z.k.a0; auto old = z.k.e.request; z.k.e.request = [&, old](const Bytes &h, const Bytes &d) { auto v = old(h, d); if (v.empty() && !d.empty()) for (u32 n = rnd("n.rsp", 4); n--;) v.push_back(z.rsp(z.frame(cat({(u8)(rnd("k.neg", 6) ? d[0] | 0x40 : 0x7F)}, rnd_bytes("v.rsp", rnd("v.rspn", 40)))))); return v; }; }
	else { g.elm = true; g.p = rnd("k.proto", 5); g.car.make(1 + rnd("n.ecu", 4), true); g.odds = rnd("k.odds", 2); g.up(); s = &g.k.s; l1 = g.k.l1; a0 = g.a0; int p = g.p <= PWM ? DIAG_L2_PROT_SAEJ1850 : g.p == I9141 ? DIAG_L2_PROT_ISO9141 : DIAG_L2_PROT_ISO14230; good = [&, p]() { return g.k.s.start(p, g.p == FAST ? (unsigned)DIAG_L2_TYPE_FASTINIT | DIAG_L2_TYPE_FUNCADDR : (unsigned)DIAG_L2_TYPE_SLOWINIT, 0, 0x33, 0xF1); }; }
	hostile_faults(); Api a{*s, {l1, l1, l1, l1, DIAG_L1_ISO9141, DIAG_L1_ISO14230, DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM}, ALL_L2, good}; a.p = d2 ? DIAG_L2_PROT_D2 : 0; a.l7 = d2;
	a.run(3 + rnd("n.ops", 25)); sample("%u calls over a disturbed ELM", a.nops); a.down(a0);
}
SCENARIO("C24", hostile_rogue, 1.5) {
	host_good(); size_t a0 = live_allocs(); Sess s; Rogue r; static const char *l0[] = {"DUMB", "DUMB", "DUMBT", "ELM", "ELM", "MET16", "BR1"}; const char *n = l0[rnd("k.l0", 7)]; r.echo = rnd("k.echo", 3); static const u64 q[] = {20, 5, 2, 60}; r.quiet = q[rnd("k.quiet", 4)] * MS; r.left = 400; r.talk = 0.3 + 0.1 * rnd("k.talk", 7);
	lib_up(); if (s.add(n, "/dev/ttyS0", &r, strcmp(n, "DUMB") ? -1 : dopts[rnd("k.dopt", 20)])) VIOL("setup", "creating the interface failed");
	if (rnd("k.io", 2)) hostile_faults(); Api a{s, ALL_L1, ALL_L2, nullptr}; a.l7 = true; a.run(3 + rnd("n.ops", 30)); sample("%u calls, something else on a %s", a.nops, n); a.down(a0);
}
SCENARIO("C24", hostile_terminal, 0.8) {
	host_good(); whole_program = true; Sess s; Rogue r; static const char *l0[] = {"dumb", "elm", "met16", "br1"}; const char *n = l0[rnd("k.l0", 4)]; r.echo = rnd("k.echo", 3); static const u64 q[] = {20, 5, 2, 60}; r.quiet = q[rnd("k.quiet", 4)] * MS; r.left = 600; r.talk = 0.3 + 0.1 * rnd("k.talk", 7);
	if (s.add(n, "/dev/ttyS0", &r)) VIOL("setup", "creating the port failed"); User u; { FaultsOff f; u.up(s.t, n); } if (rnd("k.io", 2)) hostile_faults(); Cli c(u, s.t); c.run(2 + rnd("n.cmd", 12)); sample("commands, something else on a %s", n); c.bye();
}
