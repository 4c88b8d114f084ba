// Deterministic scheduler: the code under test is compiled with
// -fsanitize=thread but linked with vsched.cc instead of the sanitizer, so every
// shared memory access, lock, wait and sleep is a point where another thread
// may be made to run.  One thread runs at a time, and the seed decides which.
#pragma once
#include <cstdint>
namespace vs {
struct Opts { uint64_t seed = 1; int strategy = 0; uint64_t maxSteps = 40000000; bool coarse = false; };   // coarse: long programs, fewer switches
void begin(const Opts&);          // the calling thread becomes the first one
void end();                       // every other thread has finished
bool active();
int self();                       // number of the calling thread, -1 if not scheduled
uint64_t steps();                 // scheduling points passed
void yield();                     // lets another thread run
uint64_t rnd();
void touch(const void* p, unsigned n);   // an access made by the driver
extern char* lastWords;           // 256 bytes for the reason of an abort
}
