// Windows API entry points used by jom, on top of the winsim core.  Compiled with Wine's headers.
#include <windows.h>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include "core.h"
using sim::H; using sim::ustr;

static H toH(HANDLE h) { return h == INVALID_HANDLE_VALUE ? 0 : (H)(ULONG_PTR)h; }
static HANDLE fromH(H h) { return (HANDLE)(ULONG_PTR)h; }
static ustr U(const WCHAR *s) { return s ? ustr(reinterpret_cast<const char16_t *>(s)) : ustr(); }
static ustr A(const char *s) { return s ? sim::from_utf8(s) : ustr(); }

extern "C" int winsim_call_ctrl_handler(void *fn, unsigned type)
{ return reinterpret_cast<PHANDLER_ROUTINE>(fn)(type); }

extern "C" {
DWORD WINAPI GetLastError(void) { return sim::get_last_error(); }
void WINAPI SetLastError(DWORD e) { sim::set_last_error(e); }
BOOL WINAPI CloseHandle(HANDLE h) { return sim::close_handle(toH(h)); }
BOOL WINAPI DuplicateHandle(HANDLE, HANDLE h, HANDLE, HANDLE *out, DWORD, BOOL, DWORD)
{ H n = sim::dup_handle(toH(h)); *out = fromH(n); return n != 0; }
HANDLE WINAPI GetCurrentProcess(void) { return (HANDLE)~(ULONG_PTR)0; }
BOOL WINAPI SetHandleInformation(HANDLE, DWORD, DWORD) { return TRUE; }

HANDLE WINAPI CreateNamedPipeW(LPCWSTR name, DWORD, DWORD, DWORD, DWORD, DWORD, DWORD, LPSECURITY_ATTRIBUTES)
{ H h = sim::pipe_create(U(name)); return h ? fromH(h) : INVALID_HANDLE_VALUE; }
HANDLE WINAPI CreateNamedPipeA(LPCSTR name, DWORD, DWORD, DWORD, DWORD, DWORD, DWORD, LPSECURITY_ATTRIBUTES)
{ H h = sim::pipe_create(A(name)); return h ? fromH(h) : INVALID_HANDLE_VALUE; }
BOOL WINAPI CreatePipe(HANDLE *r, HANDLE *w, LPSECURITY_ATTRIBUTES, DWORD)
{
    static volatile LONG n = 0;
    ustr name = sim::from_utf8("anon-" + std::to_string(__sync_add_and_fetch(&n, 1)));
    H a = sim::pipe_create(name), b = sim::pipe_open(name);
    *r = fromH(a); *w = fromH(b);
    return a && b;
}
HANDLE WINAPI CreateFileW(LPCWSTR name, DWORD, DWORD, LPSECURITY_ATTRIBUTES, DWORD, DWORD, HANDLE)
{ H h = sim::pipe_open(U(name)); return h ? fromH(h) : INVALID_HANDLE_VALUE; }
HANDLE WINAPI CreateFileA(LPCSTR name, DWORD, DWORD, LPSECURITY_ATTRIBUTES, DWORD, DWORD, HANDLE)
{ H h = sim::pipe_open(A(name)); return h ? fromH(h) : INVALID_HANDLE_VALUE; }
BOOL WINAPI ConnectNamedPipe(HANDLE h, LPOVERLAPPED)
{ DWORD e = sim::pipe_connect(toH(h)); SetLastError(e); return FALSE; }
BOOL WINAPI DisconnectNamedPipe(HANDLE) { return TRUE; }
BOOL WINAPI PeekNamedPipe(HANDLE h, LPVOID, DWORD, LPDWORD rd, LPDWORD avail, LPDWORD left)
{
    uint32_t n = 0;
    if (!sim::pipe_peek(toH(h), &n)) { SetLastError(sim::E_BROKEN_PIPE); return FALSE; }
    if (rd) *rd = 0;
    if (avail) *avail = n;
    if (left) *left = 0;
    return TRUE;
}
BOOL WINAPI ReadFile(HANDLE h, LPVOID buf, DWORD len, LPDWORD got, LPOVERLAPPED ov)
{
    uint32_t n = 0, e = sim::pipe_read(toH(h), buf, len, ov, &n);
    if (got) *got = n;
    SetLastError(e);
    return e == 0;
}
BOOL WINAPI CancelIo(HANDLE h) { sim::pipe_cancel(toH(h)); return TRUE; }
BOOL WINAPI CancelIoEx(HANDLE h, LPOVERLAPPED) { sim::pipe_cancel(toH(h)); return TRUE; }

BOOL WINAPI CreateProcessW(LPCWSTR app, LPWSTR cmd, LPSECURITY_ATTRIBUTES, LPSECURITY_ATTRIBUTES, BOOL,
                           DWORD, LPVOID env, LPCWSTR cwd, LPSTARTUPINFOW si, LPPROCESS_INFORMATION pi)
{
    ustr e;
    if (env) {
        const char16_t *p = (const char16_t *)env;
        while (*p) { ustr s(p); p += s.size() + 1; e += s; e += u'\n'; }
    }
    H hp = 0, ht = 0; uint32_t pid = 0;
    uint32_t err = sim::proc_create(cmd ? U(cmd) : U(app), U(cwd), env ? &e : 0, toH(si->hStdInput),
                                    toH(si->hStdOutput), toH(si->hStdError), &hp, &ht, &pid);
    if (err) { SetLastError(err); return FALSE; }
    pi->hProcess = fromH(hp); pi->hThread = fromH(ht); pi->dwProcessId = pid; pi->dwThreadId = pid + 1;
    return TRUE;
}
BOOL WINAPI GetExitCodeProcess(HANDLE h, LPDWORD code)
{ uint32_t c = 0; if (!sim::proc_exitcode(toH(h), &c)) { SetLastError(sim::E_INVALID_HANDLE); return FALSE; } *code = c; return TRUE; }
BOOL WINAPI TerminateProcess(HANDLE h, UINT c) { sim::proc_terminate(toH(h), c); return TRUE; }
DWORD WINAPI WaitForSingleObject(HANDLE h, DWORD t) { return sim::wait_handle(toH(h), t); }
DWORD WINAPI WaitForSingleObjectEx(HANDLE h, DWORD t, BOOL) { return sim::wait_handle(toH(h), t); }

HANDLE WINAPI CreateIoCompletionPort(HANDLE file, HANDLE port, ULONG_PTR key, DWORD)
{
    if (file == INVALID_HANDLE_VALUE) return fromH(sim::iocp_create());
    if (!sim::iocp_assoc(toH(file), toH(port), key)) { SetLastError(sim::E_INVALID_HANDLE); return 0; }
    return port;
}
BOOL WINAPI GetQueuedCompletionStatus(HANDLE port, LPDWORD n, PULONG_PTR key, LPOVERLAPPED *ov, DWORD t)
{
    uint32_t bytes = 0; uint64_t k = 0; void *o = 0;
    uint32_t e = sim::iocp_get(toH(port), &bytes, &k, &o, t);
    *n = bytes; *key = k; *ov = (LPOVERLAPPED)o;
    SetLastError(e);
    return e == 0;
}
BOOL WINAPI PostQueuedCompletionStatus(HANDLE port, DWORD n, ULONG_PTR key, LPOVERLAPPED ov)
{ return sim::iocp_post(toH(port), n, key, ov); }

static BOOL attr(const ustr &p, LPVOID out)
{
    WIN32_FILE_ATTRIBUTE_DATA *d = (WIN32_FILE_ATTRIBUTE_DATA *)out;
    sim::FileAttr a;
    if (!sim::file_attr(p, &a)) { SetLastError(sim::E_FILE_NOT_FOUND); return FALSE; }
    memset(d, 0, sizeof *d);
    d->dwFileAttributes = a.dir ? FILE_ATTRIBUTE_DIRECTORY : FILE_ATTRIBUTE_ARCHIVE;
    d->ftLastWriteTime.dwLowDateTime = (DWORD)a.mtime100ns;
    d->ftLastWriteTime.dwHighDateTime = (DWORD)(a.mtime100ns >> 32);
    d->ftCreationTime = d->ftLastAccessTime = d->ftLastWriteTime;
    d->nFileSizeLow = (DWORD)a.size; d->nFileSizeHigh = (DWORD)(a.size >> 32);
    return TRUE;
}
BOOL WINAPI GetFileAttributesExW(LPCWSTR p, GET_FILEEX_INFO_LEVELS, LPVOID out) { return attr(U(p), out); }
BOOL WINAPI GetFileAttributesExA(LPCSTR p, GET_FILEEX_INFO_LEVELS, LPVOID out) { return attr(A(p), out); }
DWORD WINAPI GetFileAttributesW(LPCWSTR p)
{ WIN32_FILE_ATTRIBUTE_DATA d; return attr(U(p), &d) ? d.dwFileAttributes : INVALID_FILE_ATTRIBUTES; }
DWORD WINAPI GetFileAttributesA(LPCSTR p)
{ WIN32_FILE_ATTRIBUTE_DATA d; return attr(A(p), &d) ? d.dwFileAttributes : INVALID_FILE_ATTRIBUTES; }
static HANDLE findFirst(const ustr &p, WCHAR *nameOut, FILETIME *ft, DWORD *attrs)
{
    WIN32_FILE_ATTRIBUTE_DATA d;
    if (!attr(p, &d)) return INVALID_HANDLE_VALUE;
    *ft = d.ftLastWriteTime; *attrs = d.dwFileAttributes;
    return (HANDLE)(ULONG_PTR)0x7ffffff0;
}
HANDLE WINAPI FindFirstFileW(LPCWSTR p, LPWIN32_FIND_DATAW fd)
{ memset(fd, 0, sizeof *fd); return findFirst(U(p), fd->cFileName, &fd->ftLastWriteTime, &fd->dwFileAttributes); }
BOOL WINAPI FindClose(HANDLE) { return TRUE; }
BOOL WINAPI DeleteFileW(LPCWSTR p) { return sim::file_delete(U(p)); }

DWORD WINAPI GetTempPathW(DWORD n, LPWSTR buf)
{
    ustr t = sim::temp_path();
    if (t.size() + 1 > n) return t.size() + 1;
    memcpy(buf, t.c_str(), (t.size() + 1) * 2);
    return t.size();
}
DWORD WINAPI GetCurrentProcessId(void) { return sim::current_pid(); }
DWORD WINAPI GetCurrentThreadId(void) { return 1; }
DWORD WINAPI GetTickCount(void) { return sim::tick_count(); }
ULONGLONG WINAPI GetTickCount64(void) { return sim::tick_count(); }
void WINAPI Sleep(DWORD) {}

static void toSystem(uint64_t t, SYSTEMTIME *st)
{
    uint64_t ms = t / 10000;
    uint64_t days = ms / 86400000; uint64_t rem = ms % 86400000;
    long z = (long)days - 134774 + 719468;            // days since 1601 -> civil
    long era = z / 146097; unsigned doe = z - era * 146097;
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    unsigned mp = (5 * doy + 2) / 153;
    st->wDay = doy - (153 * mp + 2) / 5 + 1;
    st->wMonth = mp < 10 ? mp + 3 : mp - 9;
    st->wYear = yoe + era * 400 + (st->wMonth <= 2);
    st->wDayOfWeek = (days + 1) % 7;
    st->wHour = rem / 3600000; st->wMinute = rem / 60000 % 60; st->wSecond = rem / 1000 % 60; st->wMilliseconds = rem % 1000;
}
static uint64_t fromSystem(const SYSTEMTIME *st)
{
    long y = st->wYear - (st->wMonth <= 2);
    long era = y / 400; unsigned yoe = y - era * 400;
    unsigned doy = (153 * (st->wMonth + (st->wMonth > 2 ? -3 : 9)) + 2) / 5 + st->wDay - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    uint64_t days = era * 146097 + (long)doe - 719468 + 134774;
    return ((days * 86400 + st->wHour * 3600 + st->wMinute * 60 + st->wSecond) * 1000 + st->wMilliseconds) * 10000;
}
static uint64_t F(const FILETIME *f) { return (uint64_t)f->dwHighDateTime << 32 | f->dwLowDateTime; }
static void setF(FILETIME *f, uint64_t t) { f->dwLowDateTime = (DWORD)t; f->dwHighDateTime = (DWORD)(t >> 32); }
void WINAPI GetSystemTime(LPSYSTEMTIME st) { toSystem(sim::now100ns(), st); }
void WINAPI GetLocalTime(LPSYSTEMTIME st) { toSystem(sim::now100ns(), st); }
void WINAPI GetSystemTimeAsFileTime(LPFILETIME f) { setF(f, sim::now100ns()); }
void WINAPI GetSystemTimePreciseAsFileTime(LPFILETIME f) { setF(f, sim::now100ns()); }
BOOL WINAPI SystemTimeToFileTime(const SYSTEMTIME *st, LPFILETIME f) { setF(f, fromSystem(st)); return TRUE; }
BOOL WINAPI FileTimeToSystemTime(const FILETIME *f, LPSYSTEMTIME st) { toSystem(F(f), st); return TRUE; }
BOOL WINAPI FileTimeToLocalFileTime(const FILETIME *f, LPFILETIME o) { *o = *f; return TRUE; }
BOOL WINAPI SystemTimeToTzSpecificLocalTime(const TIME_ZONE_INFORMATION *, const SYSTEMTIME *a, LPSYSTEMTIME b) { *b = *a; return TRUE; }
LONG WINAPI CompareFileTime(const FILETIME *a, const FILETIME *b) { uint64_t x = F(a), y = F(b); return x < y ? -1 : x > y ? 1 : 0; }

DWORD WINAPI GetEnvironmentVariableW(LPCWSTR name, LPWSTR buf, DWORD n)
{
    ustr v;
    if (!sim::env_get(U(name), &v)) { SetLastError(sim::E_ENVVAR_NOT_FOUND); return 0; }
    if (v.size() + 1 > n || !buf) return v.size() + 1;
    memcpy(buf, v.c_str(), (v.size() + 1) * 2);
    SetLastError(0);
    return v.size();
}
DWORD WINAPI GetEnvironmentVariableA(LPCSTR name, LPSTR buf, DWORD n)
{
    ustr v;
    if (!sim::env_get(A(name), &v)) { SetLastError(sim::E_ENVVAR_NOT_FOUND); return 0; }
    std::string s = sim::to_utf8(v);
    if (s.size() + 1 > n || !buf) return s.size() + 1;
    memcpy(buf, s.c_str(), s.size() + 1);
    SetLastError(0);
    return s.size();
}
BOOL WINAPI SetEnvironmentVariableW(LPCWSTR name, LPCWSTR v) { ustr x = U(v); sim::env_set(U(name), v ? &x : 0); return TRUE; }
BOOL WINAPI SetEnvironmentVariableA(LPCSTR name, LPCSTR v) { ustr x = A(v); sim::env_set(A(name), v ? &x : 0); return TRUE; }

BOOL WINAPI SetConsoleCtrlHandler(PHANDLER_ROUTINE fn, BOOL add) { sim::set_ctrl_handler(add ? (void *)fn : 0); return TRUE; }
BOOL WINAPI GenerateConsoleCtrlEvent(DWORD, DWORD) { sim::log_misc("ctrlevent", ""); return TRUE; }

static int vfmt(WCHAR *out, const WCHAR *f, __builtin_ms_va_list ap)
{
    WCHAR *o = out;
    for (; *f; ++f) {
        if (*f != '%') { *o++ = *f; continue; }
        ++f;
        char spec[16]; int k = 0; spec[k++] = '%';
        while ((*f >= '0' && *f <= '9') || *f == '-' || *f == '#' || *f == 'l') { if (*f != 'l' && k < 12) spec[k++] = (char)*f; ++f; }
        char tmp[64];
        if (*f == 's') {
            const WCHAR *s = __builtin_va_arg(ap, const WCHAR *);
            while (s && *s) *o++ = *s++;
            continue;
        }
        if (*f == '%') { *o++ = '%'; continue; }
        spec[k++] = (char)*f; spec[k] = 0;
        snprintf(tmp, sizeof tmp, spec, __builtin_va_arg(ap, int));
        for (char *c = tmp; *c; ++c) *o++ = *c;
    }
    *o = 0;
    return (int)(o - out);
}
int WINAPIV wsprintfW(LPWSTR out, LPCWSTR f, ...)
{
    __builtin_ms_va_list ap;
    __builtin_ms_va_start(ap, f);
    int n = vfmt(out, f, ap);
    __builtin_ms_va_end(ap);
    return n;
}
} // extern "C"
