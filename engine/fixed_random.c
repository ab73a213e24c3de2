/* Fixed hash keys: re-execution has to be deterministic. */
#include <stddef.h>
#include <sys/types.h>
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    unsigned char *b = buf;
    (void)flags;
    for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(i * 37 + 11);
    return (ssize_t)n;
}
