// Faults in the storage calls on *.tsfile and on uuid.lock* (LD_PRELOAD).
// SHIM: comma separated  short:K  (at most K bytes per write)
//   fail:N:ERRNO[:COUNT]  (COUNT writes from the N-th on fail, 1-based)   zero:N   die:N (process ends at the N-th write)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <netdb.h>
// hosts:A:B:...  every name has these addresses (SHIM starts with it)
int getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **out) {
    static int (*real)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
    if (!real) real = dlsym(RTLD_NEXT, "getaddrinfo");
    const char *e = getenv("SHIM");
    if (!e || strncmp(e, "hosts:", 6)) return real(n, s, h, out);
    char t[256];
    strncpy(t, e + 6, 255);
    t[255] = 0;
    struct addrinfo **end = out;
    for (char *sv, *p = strtok_r(t, ":", &sv); p; p = strtok_r(0, ":", &sv)) {
        int r = real(p, s, h, end);
        if (r) return r;
        while (*end) end = &(*end)->ai_next;
    }
    return 0;
}
static long count;
static int ours(int fd) {
    char l[64], p[512];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, p, sizeof p - 1);
    if (n <= 0) return 0;
    p[n] = 0;
    return strstr(p, ".tsfile") != 0 || strstr(p, "uuid.lock") != 0;
}
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    const char *s = getenv("SHIM");
    if (!s || !n || fd < 3 || !ours(fd)) return real(fd, b, n);
    count++;
    char t[256];
    strncpy(t, s, 255);
    t[255] = 0;
    for (char *sv, *p = strtok_r(t, ",", &sv); p; p = strtok_r(0, ",", &sv)) {
        long a = 0, e = 0, c = 1;
        if (sscanf(p, "short:%ld", &a) == 1) { if ((long)n > a) n = a; }
        else if (sscanf(p, "fail:%ld:%ld:%ld", &a, &e, &c) >= 2) { if (count >= a && count < a + c) { errno = e; return -1; } }
        else if (sscanf(p, "zero:%ld", &a) == 1) { if (count == a) return 0; }
        else if (sscanf(p, "die:%ld", &a) == 1) { if (count == a) _exit(0); }
    }
    return real(fd, b, n);
}
