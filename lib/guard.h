/* Buffers that end exactly at an inaccessible page: any read or write beyond the stated size
 * faults, also inside libraries that are not instrumented. */
#ifndef GUARD_H
#define GUARD_H
#include <sys/mman.h>
#include <string.h>
#include <stdlib.h>
#define GUARD_SLOTS 8
#define GUARD_MAX (1u << 21)
static char *guard_area(int slot)
{
    static char *a[GUARD_SLOTS];
    if (!a[slot]) {
        a[slot] = mmap(NULL, GUARD_MAX + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (a[slot] == MAP_FAILED || mprotect(a[slot] + GUARD_MAX, 4096, PROT_NONE)) abort();
    }
    return a[slot] + GUARD_MAX;
}
/* n bytes of writable space followed by the guard; byte before it is 0xA5 */
static inline char *guard_buf(int slot, size_t n) { char *p = guard_area(slot) - n; p[-1] = (char)0xA5; memset(p, 0x5C, n); return p; }
static inline char *guard_copy(int slot, const void *d, size_t n) { char *p = guard_area(slot) - n; p[-1] = (char)0xA5; memcpy(p, d, n); return p; }
static inline int guard_under(const char *p) { return p[-1] != (char)0xA5; }
#endif
