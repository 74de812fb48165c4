/* Bodies of the C library functions that CBMC and irx.py have no model of; linked when the code under test calls them.
 * Written from ISO C / POSIX, compiled with -fno-builtin. */
#include <stddef.h>
#include <stdint.h>
#include <limits.h>

#ifdef VP_GOTO
/* CBMC's own memmove goes wrong on byte-wise moves of symbolic size within objects of other types */
void* memmove(void* d, const void* s, size_t n) {
    unsigned char* to = (unsigned char*)d;
    const unsigned char* from = (const unsigned char*)s;
    if (__CPROVER_same_object(d, s) && (__CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s))) {
        for (size_t i = n; i > 0; --i) { to[i - 1] = from[i - 1]; }
    } else {
        for (size_t i = 0; i < n; ++i) { to[i] = from[i]; }
    }
    return d;
}
void* memchr(const void* s, int c, size_t n) {
    const unsigned char* p = (const unsigned char*)s;
    for (size_t i = 0; i < n; ++i) {
        if (p[i] == (unsigned char)c) { return (void*)&p[i]; }
    }
    return 0;
}
char* stpcpy(char* d, const char* s) {
    size_t i = 0;
    for (; s[i] != '\0'; ++i) { d[i] = s[i]; }
    d[i] = '\0';
    return &d[i];
}
#endif
void* memrchr(const void* s, int c, size_t n) {
    const unsigned char* p = (const unsigned char*)s;
    while (n-- != 0) {
        if (p[n] == (unsigned char)c) { return (void*)&p[n]; }
    }
    return 0;
}
void* mempcpy(void* d, const void* s, size_t n) {
    for (size_t i = 0; i < n; ++i) { ((unsigned char*)d)[i] = ((const unsigned char*)s)[i]; }
    return (unsigned char*)d + n;
}
void* memccpy(void* d, const void* s, int c, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        ((unsigned char*)d)[i] = ((const unsigned char*)s)[i];
        if (((const unsigned char*)s)[i] == (unsigned char)c) { return (unsigned char*)d + i + 1; }
    }
    return 0;
}
size_t strnlen(const char* s, size_t n) {
    size_t i = 0;
    while ((i < n) && (s[i] != '\0')) { ++i; }
    return i;
}
static int in(const char* set, char c) {
    for (; *set != '\0'; ++set) {
        if (*set == c) { return 1; }
    }
    return 0;
}
size_t strspn(const char* s, const char* set) {
    size_t i = 0;
    while ((s[i] != '\0') && in(set, s[i])) { ++i; }
    return i;
}
size_t strcspn(const char* s, const char* set) {
    size_t i = 0;
    while ((s[i] != '\0') && !in(set, s[i])) { ++i; }
    return i;
}
char* strpbrk(const char* s, const char* set) {
    s += strcspn(s, set);
    return (*s != '\0') ? (char*)s : 0;
}
char* strstr(const char* h, const char* n) {
    for (;; ++h) {
        size_t i = 0;
        while ((n[i] != '\0') && (h[i] == n[i])) { ++i; }
        if (n[i] == '\0') { return (char*)h; }
        if (*h == '\0') { return 0; }
    }
}
int ffs(int v) {
    for (int i = 0; i < 32; ++i) {
        if ((((unsigned)v) >> i) & 1U) { return i + 1; }
    }
    return 0;
}
static unsigned long long number(const char* s, char** end, int base, int* neg, int* any) {
    const char* p = s;
    unsigned long long v = 0;
    while ((*p == ' ') || ((*p >= '\t') && (*p <= '\r'))) { ++p; }
    *neg = (*p == '-');
    if ((*p == '-') || (*p == '+')) { ++p; }
    *any = 0;
    if (base == 0) { base = 10; }
    for (;; ++p) {
        int d = ((*p >= '0') && (*p <= '9')) ? *p - '0' : ((*p >= 'a') && (*p <= 'z')) ? *p - 'a' + 10 : ((*p >= 'A') && (*p <= 'Z')) ? *p - 'A' + 10 : 99;
        if (d >= base) { break; }
        if (v > (ULLONG_MAX - (unsigned)d) / (unsigned)base) { *any |= 2; } else { v = v * (unsigned)base + (unsigned)d; }
        *any |= 1;
    }
    if (end) { *end = (char*)((*any & 1) ? p : s); }
    return v;
}
unsigned long long strtoull(const char* s, char** end, int base) {
    int neg, any;
    unsigned long long v = number(s, end, base, &neg, &any);
    return (any & 2) ? ULLONG_MAX : (neg ? 0ULL - v : v);
}
unsigned long strtoul(const char* s, char** end, int base) { return (unsigned long)strtoull(s, end, base); }
long long strtoll(const char* s, char** end, int base) {
    int neg, any;
    unsigned long long v = number(s, end, base, &neg, &any);
    const unsigned long long lim = neg ? (unsigned long long)LLONG_MAX + 1ULL : (unsigned long long)LLONG_MAX;
    if ((any & 2) || (v > lim)) { v = lim; }
    return (long long)(neg ? 0ULL - v : v);
}
long strtol(const char* s, char** end, int base) { return (long)strtoll(s, end, base); }
unsigned long long __isoc23_strtoull(const char* s, char** end, int base) { return strtoull(s, end, base); }
unsigned long __isoc23_strtoul(const char* s, char** end, int base) { return strtoul(s, end, base); }
long long __isoc23_strtoll(const char* s, char** end, int base) { return strtoll(s, end, base); }
long __isoc23_strtol(const char* s, char** end, int base) { return strtol(s, end, base); }
void* bsearch(const void* key, const void* base, size_t n, size_t size, int (*cmp)(const void*, const void*)) {
    size_t lo = 0, hi = n;
    while (lo < hi) {
        size_t mid = lo + (hi - lo) / 2;
        const void* p = (const unsigned char*)base + mid * size;
        int c = cmp(key, p);
        if (c == 0) { return (void*)p; }
        if (c < 0) { hi = mid; } else { lo = mid + 1; }
    }
    return 0;
}
#ifndef VP_GOTO
char* strrchr(const char* s, int c) {
    const char* r = 0;
    for (;; ++s) {
        if (*s == (char)c) { r = s; }
        if (*s == '\0') { return (char*)r; }
    }
}
char* strncat(char* d, const char* s, size_t n) {
    size_t k = 0, i = 0;
    while (d[k] != '\0') { ++k; }
    for (; (i < n) && (s[i] != '\0'); ++i) { d[k + i] = s[i]; }
    d[k + i] = '\0';
    return d;
}
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
int abs(int v) { return (v < 0) ? -v : v; }
int isdigit(int c) { return (c >= '0') && (c <= '9'); }
int isupper(int c) { return (c >= 'A') && (c <= 'Z'); }
int islower(int c) { return (c >= 'a') && (c <= 'z'); }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return (c == ' ') || ((c >= '\t') && (c <= '\r')); }
int isblank(int c) { return (c == ' ') || (c == '\t'); }
int isxdigit(int c) { return isdigit(c) || ((c >= 'A') && (c <= 'F')) || ((c >= 'a') && (c <= 'f')); }
int iscntrl(int c) { return ((c >= 0) && (c < 32)) || (c == 127); }
int isprint(int c) { return (c >= 32) && (c < 127); }
int isgraph(int c) { return (c > 32) && (c < 127); }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
#endif
