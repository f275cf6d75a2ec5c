// The simulated vendor libraries (IPP, MKL, Accelerate): live resources and injected failures.
#pragma once
#include "sim.hpp"

namespace vend {
void arm(sim::i64 nth);  // the nth acquiring call of the current task from now fails
sim::i64 disarm();       // how many failed
void begin(int op);      // resources acquired from now on belong to this operation
void check_released();   // nothing may be left
}  // namespace vend
