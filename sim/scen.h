// Scenario registry.
#pragma once
#include "sim.h"
#include "tty.h"
struct Scenario { const char *prop; const char *name; double weight; void (*fn)(); };
void register_scenario(const Scenario &s);
struct RegScen { RegScen(const char *p, const char *n, double w, void (*f)()) { register_scenario({p, n, w, f}); } };
#define SCENARIO(prop, name, weight) static void name(); static RegScen reg_##name(prop, #name, weight, name); static void name()
// what the program printed
std::string captured_stdout();
std::string captured_stderr();
