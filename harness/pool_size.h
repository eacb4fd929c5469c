// The size of the library's default thread pool follows the number of processors: let the harness choose it.
#pragma once
#include <thread>
inline unsigned &poolSize() { static unsigned n = 4; return n; }
unsigned int std::thread::hardware_concurrency() noexcept { return poolSize(); }
