// LD_PRELOAD: other threads get a chance between the placement of the file cursor and the read.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sched.h>
#include <stdint.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
static __thread uint64_t x;
static void pause_a_bit(void) {
    if (!x) x = (uint64_t)(uintptr_t)&x * 0x9E3779B97F4A7C15ull | 1;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    switch ((x >> 32) & 7) {
    case 0: { struct timespec t = {0, 1000 * (1 + (long)((x >> 40) % 60))}; nanosleep(&t, 0); break; }
    case 1: case 2: sched_yield();
    }
}
off64_t lseek64(int fd, off64_t off, int whence) {
    static off64_t (*real)(int, off64_t, int);
    if (!real) real = dlsym(RTLD_NEXT, "lseek64");
    off64_t r = real(fd, off, whence);
    pause_a_bit();
    return r;
}
ssize_t read(int fd, void *buf, size_t n) {
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "read");
    pause_a_bit();
    return real(fd, buf, n);
}
