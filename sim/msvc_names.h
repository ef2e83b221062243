/* Force-included in every file: the few names of the Microsoft C runtime and of strsafe.h that jom uses
   and that Winelib (Wine headers with the native glibc) does not declare. They forward to glibc and Wine. */
#ifndef VP_MSVC_NAMES_H
#define VP_MSVC_NAMES_H
#ifdef __cplusplus
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>

#define _O_BINARY 0
extern "C" int winsim_fileno(FILE *f);
#define _fileno winsim_fileno

static inline int _setmode(int, int) { return 0; } /* no text mode on Linux */

static inline wchar_t *_wcsdup(const wchar_t *s) /* wchar_t is 16 bits: wcsdup of glibc is not usable */
{
    size_t n = 0;
    while (s[n])
        ++n;
    wchar_t *r = static_cast<wchar_t *>(malloc((n + 1) * sizeof(wchar_t)));
    return r ? static_cast<wchar_t *>(memcpy(r, s, (n + 1) * sizeof(wchar_t))) : r;
}

static inline std::string vp_utf8(const wchar_t *s)
{
    std::string r;
    for (; *s; ++s) {
        unsigned long c = static_cast<unsigned short>(*s);
        if (c >= 0xd800 && c < 0xdc00 && s[1])
            c = 0x10000 + ((c - 0xd800) << 10) + (static_cast<unsigned short>(*++s) - 0xdc00);
        if (c < 0x80) {
            r += char(c);
        } else if (c < 0x800) {
            r += char(0xc0 | c >> 6);
            r += char(0x80 | (c & 63));
        } else if (c < 0x10000) {
            r += char(0xe0 | c >> 12);
            r += char(0x80 | (c >> 6 & 63));
            r += char(0x80 | (c & 63));
        } else {
            r += char(0xf0 | c >> 18);
            r += char(0x80 | (c >> 12 & 63));
            r += char(0x80 | (c >> 6 & 63));
            r += char(0x80 | (c & 63));
        }
    }
    return r;
}

extern "C" FILE *winsim_fopen(const char *name, const char *mode);
extern "C" FILE *winsim_freopen(const char *name, const char *mode, FILE *f);
static inline FILE *_wfopen(const wchar_t *name, const wchar_t *mode)
{
    return winsim_fopen(vp_utf8(name).c_str(), vp_utf8(mode).c_str());
}

static inline FILE *_wfreopen(const wchar_t *name, const wchar_t *mode, FILE *f)
{
    return winsim_freopen(vp_utf8(name).c_str(), vp_utf8(mode).c_str(), f);
}

static inline int rand_s(unsigned int *value)
{
    static unsigned int n = 0x1000; *value = ++n;
    return 0;
}

/* wsprintfW (user32) writes at most 1024 characters; jom's buffers are 256 and 512 for short strings. */
#define swprintf_s(buf, size, ...) wsprintfW(buf, __VA_ARGS__)
#define StringCchPrintf(buf, size, ...) (wsprintfW(buf, __VA_ARGS__), S_OK)
#endif
#endif
