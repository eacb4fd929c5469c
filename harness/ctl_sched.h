// A seeded, serialising scheduler under the C library's threading calls: at every lock, unlock, wait, signal, create
// and join exactly one thread is chosen to go on. Deadlocks and lost wakeups become states in which nobody can run.
#pragma once
#include <stdint.h>
#include <string>
namespace sched {
void start(uint64_t seed, int strategy, bool spurious);   // the calling thread becomes thread 0 and the only one running
void stop();                                              // call with every other thread finished
void point();                                             // a place where another thread may be chosen
uint64_t trace();                                         // hash of the choices made since start
uint64_t steps();
uint64_t switches();
extern void (*onDeadlock)(const char *state);             // does not return
}
