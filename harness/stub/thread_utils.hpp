// Stand-in for a header that binfile_utils.cpp includes and the repository does not carry.
#ifndef THREAD_UTILS_HPP
#define THREAD_UTILS_HPP
#include <cstdint>
#include <cstring>
namespace ThreadUtils {
inline void parcpy(void *dst, const void *src, uint64_t nBytes, int nThreads) {
    if (nThreads < 1) nThreads = 1;
    uint64_t per = nBytes / nThreads;
    for (int i = 0; i < nThreads; i++) { uint64_t a = i * per, b = i + 1 == nThreads ? nBytes : a + per; if (b > a) memcpy((char *)dst + a, (const char *)src + a, b - a); }
}
inline void parset(void *dst, int c, uint64_t nBytes, int) { memset(dst, c, nBytes); }
}
#endif
