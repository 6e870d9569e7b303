// C23: sessions in which one allocation after the other fails.
#pragma once
#include "kline.h"
namespace {
struct OomUnit {
	std::string name; Sess *s = nullptr;
	std::function<bool()> open, start, alive;          // open and start: as an application does it
	std::function<void()> good, stop, idle_ka;         // good: an exchange of which everything is checked
	std::function<void()> finish; u64 rest = 6 * SEC; std::function<void()> calm; u32 maxidle = 8000;
	void repose() { idle(rest); if (calm) calm(); }
	void reopen() { CHECK(open(), "oom:open-again", "%s: the interface cannot be opened after an allocation had failed", name.c_str()); }
	void restart() { for (int i = 0;; i++) { if (start()) return; CHECK(i < 2, "oom:start-again", "%s: no session can be started after an allocation had failed", name.c_str()); repose(); } }
	bool attempt(bool tolerant) { Oom::soft = true; Oom::any = tolerant; bool ok = true; try { good(); } catch (Soft &) { ok = false; } Oom::soft = Oom::any = false; return ok; }
	void recovered() { for (int i = 0; i < 2; i++) { if (attempt(true)) return; count("p.oomretry"); idle(500 * MS); if (calm) calm(); } good(); }
	void close() { set_op("close"); if (s->l2open) { int rv = diag_l2_close(s->dl0d); CHECK(rv == 0, "close:failed", "closing returned %d", rv); s->l2open = false; } CHECK(open_fds() == 0, "oom:fd", "%s: the port is still open after closing", name.c_str()); }
	void run() {
		// up to here: the device exists and is closed
		int rounds = 1 + rnd("n.rounds", 3);
		while (rounds--) {
			Oom::arm(); bool ok = open(), hit = Oom::done();
			if (!ok) { CHECK(hit, "open:refused", "%s: opening a healthy interface failed", name.c_str()); CHECK(open_fds() == 0, "oom:fd", "%s: opening failed, but the port is open", name.c_str()); count("p.oomopen"); idle(2 * SEC); if (calm) calm(); reopen(); }
			Oom::arm(); ok = start(); hit = Oom::done();
			if (!ok) { CHECK(hit, "start:refused", "%s: a healthy start failed", name.c_str()); count("p.oomstart"); repose(); if (rnd("k.reopen", 2)) { close(); reopen(); } restart(); }
			int m = rnd("n.ex", 6);
			while (m--) {
				u32 what = rnd("k.what", 5);
				if (what == 4) { Oom::arm(); idle(rnd("v.idle", maxidle) * MS); hit = Oom::done(); if (hit) count("p.oomidle"); }
				else { Oom::arm(); bool failed = !attempt(false); hit = Oom::done(); if (failed) { count("p.oomex"); idle(500 * MS); if (calm) calm(); } }
				if (what == 4 && !hit && maxidle < 5000) good();
				if (hit) { if (alive && !alive()) { count("p.oomlost"); stop(); repose(); restart(); } recovered(); if (rnd("k.gap", 2)) idle(rnd("v.gap", 400) * MS); }
			}
			Oom::arm(); stop(); if (Oom::done()) count("p.oomstop"); repose();
			Oom::arm(0.3); close(); Oom::done(); idle(rnd("v.closed", 500) * MS);
		}
		sample("%s with failing allocations, %u hit", name.c_str(), count_of("p.oomhit")); finish();
	}
};
}
