#pragma once
// address space of many gigabytes over a few megabytes of memory, mapped again and again:
// the period is no divisor of a power of two, so that a position cut to 32 bits shows other contents
#include <sys/mman.h>
#include <unistd.h>
#include <cstring>
#include <cstdint>

struct Huge {
    static constexpr size_t period = 1021 * 4096;
    size_t size = 0;
    char* base = nullptr;   // null: not available here
    char* image = nullptr;  // one period
    explicit Huge(size_t bytes) {
        int fd = memfd_create("sim", 0);
        if (fd < 0) return;
        size_t n = bytes / period + 1;
        if (ftruncate(fd, off_t(period)) == 0) {
            void* p = mmap(nullptr, n * period, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            bool ok = p != MAP_FAILED;
            for (size_t i = 0; ok && i < n; ++i)
                ok = mmap(static_cast<char*>(p) + i * period, period, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, fd, 0) != MAP_FAILED;
            if (ok) { base = static_cast<char*>(p); size = n * period; image = base; fill(); }
        }
        close(fd);
    }
    void fill() { // deterministic contents
        uint64_t h = 0x9e3779b97f4a7c15u;
        for (size_t i = 0; i < period; i += 8) {
            h ^= h << 13; h ^= h >> 7; h ^= h << 17;
            memcpy(image + i, &h, 8);
        }
    }
    const char* at(size_t byte) const { return image + byte % period; } // a character there does not cross the end of the image
};
