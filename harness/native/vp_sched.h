#pragma once
#include <cstddef>
// deterministic scheduler of the native replay (vp_sched.cpp), linked only for harnesses with threads
extern "C" void vp_sched_start(const int* sched, size_t n) __attribute__((weak));
extern "C" void vp_sched_end() __attribute__((weak));  // reports threads that are still running
