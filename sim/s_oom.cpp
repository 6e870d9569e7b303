// C23: failing allocations (the sessions over the adapters are beside their other scenarios).
#include "ka.h"
#include "oom.h"
SCENARIO("C23", oom_kline, 3) {
	host_good(); auto kp = make_ks(); KS &k = *kp; k.up(); OomUnit u; u.name = k.name; if (auto c = dynamic_cast<KCar *>(&k)) { static const char *pn[] = {"VPW", "PWM", "14230 fast", "9141", "14230 slow"}; u.name = std::string("J1979 ") + pn[c->g.p] + (c->g.elm ? " ELM" : ""); } u.s = &k.sess(); u.close();
	u.open = [&]() { return k.reopen(); }; u.start = [&]() { return k.try_start(); }; u.alive = [&]() { return k.alive(); }; u.good = [&]() { k.ex(); }; u.stop = [&]() { k.stop(); }; u.rest = k.recovery(); u.calm = [&]() { if (k.bus().tty) k.bus().settle(300 * MS); if (auto c = dynamic_cast<KCar *>(&k)) if (c->g.elm) c->g.k.settle(); }; u.finish = [&]() { k.finish(); };
	u.run();
}
extern "C" void vos_free(void *);
namespace {
std::string cfg_val(struct cfgi *c) { char *s = diag_cfg_getstr(c); std::string r = s ? s : "(none)"; vos_free(s); return r; }
}
SCENARIO("C23", oom_setup, 1) {
	// library start and end, creating, configuring and deleting interfaces
	host_good(); size_t a0 = live_allocs(); int n = 1 + rnd("n.rounds", 3); static const char *l0[] = {"DUMB", "DUMBT", "ELM", "MET16", "BR1", "CARSIM"};
	for (int i = 0; i < 3; i++) { std::string pt = "/dev/ttyS" + std::to_string(i); add_tty(pt.c_str(), nullptr); }
	while (n--) {
		Oom::arm(0.5); set_op("diag_init"); int rv = diag_init(); bool hit = Oom::done(); if (rv) { CHECK(hit, "init:failed", "diag_init failed with %d", rv); diag_end(); CHECK(timers_alive() == 0, "timer:leak", "a timer is left after diag_init failed"); rv = diag_init(); CHECK(rv == 0, "oom:init-again", "diag_init fails again: %d", rv); }
		int m = 1 + rnd("n.dev", 4); struct diag_l0_device *dev[4] = {};
		for (int i = 0; i < m; i++) {
			std::string name = l0[rnd("v.l0", 6)]; bool busy = false; for (int j = 0; j < i; j++) if (dev[j] && name == dev[j]->dl0->shortname) busy = true; if (busy) continue;    // the interfaces keep one state each
			Oom::arm(); set_op("diag_l0_new"); struct diag_l0_device *d = diag_l0_new(name.c_str()); hit = Oom::done(); if (!d) { CHECK(hit, "new:failed", "creating a %s interface failed", name.c_str()); count("p.oomnew"); d = diag_l0_new(name.c_str()); CHECK(d, "oom:new-again", "a %s interface cannot be created after an allocation had failed", name.c_str()); }
			dev[i] = d; int k = rnd("n.cfg", 5);
			while (k--) {
				std::vector<struct cfgi *> v; for (struct cfgi *c = diag_l0_getcfg(d); c; c = c->next) v.push_back(c); if (v.empty()) break; struct cfgi *c = v[rnd("v.cfg", (u32)v.size())]; std::string old = cfg_val(c), val;
				if (c->type == CFGT_STR) val = rnd("k.tty", 2) ? "/dev/ttyS" + std::to_string(rnd("v.tty", 3)) : std::string(1 + rnd("v.len", 300), 'x'); else if (c->type == CFGT_BOOL) val = rnd("v.b", 2) ? "1" : "0"; else val = std::to_string(rnd("v.num", 200));
				Oom::arm(); set_op("diag_cfg_setstr"); rv = c->type == CFGT_STR ? diag_cfg_setstr(c, val.c_str()) : c->type == CFGT_BOOL ? diag_cfg_setbool(c, val == "1") : c->type == CFGT_U8 ? diag_cfg_setu8(c, atoi(val.c_str())) : diag_cfg_setint(c, atoi(val.c_str())); hit = Oom::done(); bool str = c->type == CFGT_STR;
				if (rv) { if (!hit) { count("p.refused"); CHECK(!str, "cfg:failed", "setting %s failed with %d", c->shortname, rv); continue; } std::string now_ = cfg_val(c); CHECK(now_ == old, "oom:cfg-lost", "setting %s failed, and its value changed from '%s' to '%s'", c->shortname, old.c_str(), now_.c_str()); rv = str ? diag_cfg_setstr(c, val.c_str()) : 0; CHECK(rv == 0, "oom:cfg-again", "setting %s fails again (%d)", c->shortname, rv); }
				if (str) CHECK(cfg_val(c) == val, "cfg:value", "%s was set to '%s' and is '%s'", c->shortname, val.c_str(), cfg_val(c).c_str());
				Oom::arm(0.3); char *s = diag_cfg_getstr(c); hit = Oom::done(); CHECK(s || hit, "cfg:get", "the value of %s cannot be read", c->shortname); vos_free(s); Oom::arm(0.2); diag_cfg_refresh(c); Oom::done(); if (rnd("k.reset", 5) == 1) { Oom::arm(0.5); diag_cfg_reset(c); Oom::done(); }
			}
		}
		for (int i = 0; i < m; i++) if (dev[i]) { Oom::arm(0.3); set_op("diag_l0_del"); diag_l0_del(dev[i]); Oom::done(); }
		diag_end(); CHECK(live_allocs() == a0, "leak", "%d blocks more than at the start: %s", (int)(live_allocs() - a0), describe_leaks().c_str());
	}
	sample("creating and configuring interfaces"); end_checks(a0);
}
