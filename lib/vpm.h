// Models of libc functions (verifier only; natively the real ones run).
// Character classes as in the "C" locale.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
int vpm_tolower(int c) { return 'A' <= c && c <= 'Z' ? c + 32 : c; }
int vpm_toupper(int c) { return 'a' <= c && c <= 'z' ? c - 32 : c; }
int vpm_isdigit(int c) { return '0' <= c && c <= '9'; }
int vpm_isspace(int c) { return c == ' ' || (9 <= c && c <= 13); }
int vpm_isalpha(int c) { return ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z'); }
int vpm_isalnum(int c) { return vpm_isalpha(c) || vpm_isdigit(c); }
int vpm_isxdigit(int c) { return vpm_isdigit(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F'); }
int vpm_memcmp(const void *a, const void *b, size_t n)
{
    const uint8_t *p = (const uint8_t*)a, *q = (const uint8_t*)b;
    for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
    return 0;
}
int vpm_bcmp(const void *a, const void *b, size_t n) { return vpm_memcmp(a, b, n); }
size_t vpm_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int vpm_strcmp(const char *a, const char *b)
{
    size_t i = 0;
    while (a[i] && a[i] == b[i]) i++;
    return (int)(uint8_t)a[i] - (int)(uint8_t)b[i];
}
int vpm_strncmp(const char *a, const char *b, size_t n)
{
    for (size_t i = 0; i < n; i++)
    {
        if (a[i] != b[i]) return (int)(uint8_t)a[i] - (int)(uint8_t)b[i];
        if (!a[i]) return 0;
    }
    return 0;
}
char *vpm_strchr(const char *s, int c)
{
    for (; ; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; }
}
char *vpm_strcpy(char *d, const char *s)
{
    size_t i = 0;
    do d[i] = s[i]; while (s[i++]);
    return d;
}
char *vpm_strncpy(char *d, const char *s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
}
static int vpm_errno_value;
extern "C" int *vpm_errno_location() { return &vpm_errno_value; }
