// winsim: a deterministic, schedulable stand-in for the operating system under jom.
// Interface between the Windows-ABI translation units and the native core.
// Nothing here may use wchar_t (the two sides disagree about its width).
#ifndef WINSIM_CORE_H
#define WINSIM_CORE_H
#include <string>
#include <cstdint>
#include <cstddef>

namespace sim {
typedef std::u16string ustr;
typedef uint64_t H;                 // handle; 0 = none

enum : uint32_t {
    E_OK = 0, E_FILE_NOT_FOUND = 2, E_INVALID_HANDLE = 6, E_BROKEN_PIPE = 109,
    E_PIPE_BUSY = 231, E_PIPE_CONNECTED = 535, E_OPERATION_ABORTED = 995, E_IO_PENDING = 997,
    E_ENVVAR_NOT_FOUND = 203, E_DIRECTORY = 267
};

void set_last_error(uint32_t e);
uint32_t get_last_error();

// completion port
H iocp_create();
bool iocp_assoc(H file, H port, uint64_t key);
// returns 0: success packet; otherwise error code.  *haveOverlapped tells whether a packet was dequeued
uint32_t iocp_get(H port, uint32_t *bytes, uint64_t *key, void **ov, uint32_t timeoutMs);
bool iocp_post(H port, uint32_t bytes, uint64_t key, void *ov);

// pipes
H pipe_create(const ustr &name);
H pipe_open(const ustr &name);
uint32_t pipe_connect(H h);
bool pipe_peek(H h, uint32_t *avail);
uint32_t pipe_read(H h, void *buf, uint32_t len, void *ov, uint32_t *got);
void pipe_cancel(H h);
bool close_handle(H h);
H dup_handle(H h);

// processes
uint32_t proc_create(const ustr &cmd, const ustr &cwd, const ustr *env, H in, H out, H err,
                     H *hProc, H *hThread, uint32_t *pid);
bool proc_exitcode(H h, uint32_t *code);
bool handle_signaled(H h);
void proc_terminate(H h, uint32_t code);
uint32_t wait_handle(H h, uint32_t timeoutMs);

// notifiers (QWinEventNotifier objects)
void notifier_set(void *qobject, H h, bool enabled);
void notifier_gone(void *qobject);

// files / environment / time
struct FileAttr { bool dir; uint64_t size; uint64_t mtime100ns; /* FILETIME */ };
bool file_attr(const ustr &path, FileAttr *out);
bool file_delete(const ustr &path);
ustr temp_path();
bool env_get(const ustr &name, ustr *value);
void env_set(const ustr &name, const ustr *value);
uint64_t now100ns();
uint32_t tick_count();
uint32_t current_pid();
void set_ctrl_handler(void *fn);
void log_misc(const char *what, const char *detail);
int run_system(const char *cmd);

std::string to_utf8(const ustr &s);
ustr from_utf8(const std::string &s);
}
// implemented in win32.cpp: invoke a console control handler (Windows calling convention)
extern "C" int winsim_call_ctrl_handler(void *fn, unsigned type);
#endif
