// Linked first among the simulator's objects: freediag's code lies before this address.
extern "C" void sim_text_mark() { asm volatile(""); }
