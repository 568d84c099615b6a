// LD_PRELOAD: pretend the machine has JV_NCPU processors (number of compression workers).
#define _GNU_SOURCE
#include <sched.h>
#include <stdlib.h>
#include <string.h>
int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
    const char *s = getenv("JV_NCPU");
    int n = s ? atoi(s) : 1;
    memset(set, 0, size);
    for (int i = 0; i < n; i++) CPU_SET_S(i, size, set);
    return 0;
}
