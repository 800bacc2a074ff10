// C library pieces, compiled without the system headers and linked with every harness (symbolic build only).
typedef unsigned long size_t;
#define SXW __attribute__((weak))
extern "C" {
double sx_tok_value(const char *p);
SXW long strtol(const char *s, char **e, int base) {
    const char *p = s;
    while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
    bool neg = false, any = false;
    if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
    long r = 0;
    while (*p >= '0' && *p <= '9') { r = r * base + (*p - '0'); p++; any = true; }
    if (e) *e = (char *)(any ? p : s);
    return neg ? -r : r;
}
SXW long __isoc23_strtol(const char *s, char **e, int base) { return strtol(s, e, base); }
SXW unsigned long strtoul(const char *s, char **e, int base) { return (unsigned long)strtol(s, e, base); }
SXW unsigned long __isoc23_strtoul(const char *s, char **e, int base) { return (unsigned long)strtol(s, e, base); }
SXW double strtod(const char *s, char **e) {
    const char *p = s;
    while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
    bool neg = false, any = false, dot = false;
    if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
    if (*p == 1) { double v = sx_tok_value(p); if (e) *e = (char *)(p + 6); return neg ? -v : v; }
    long r = 0; double sc = 1;
    for (;; p++) {
        if (*p == '.' && !dot) { dot = true; continue; }
        if (*p < '0' || *p > '9') break;
        r = r * 10 + (*p - '0'); if (dot) sc *= 10; any = true;
    }
    if (e) *e = (char *)(any ? p : s);
    return (double)(neg ? -r : r) / sc;
}
SXW float strtof(const char *s, char **e) { return (float)strtod(s, e); }
SXW int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
SXW int isdigit(int c) { return c >= '0' && c <= '9'; }
SXW int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
SXW int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
SXW int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
SXW int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
SXW void *memchr(const void *s, int c, size_t n) { const char *p = (const char *)s; for (size_t k = 0; k < n; k++) if (p[k] == (char)c) return (void *)(p + k); return nullptr; }
}
