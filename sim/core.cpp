#include <sys/resource.h>
// winsim core: virtual processes, pipes, completion port, semaphores, clock and files for one jom process,
// with every environment step taken at a well-defined point (main thread about to block, all other threads asleep)
// and chosen by the scenario (prefix of choices, then a policy).  Every observable event is logged in one sequence.
#include "core.h"
#include <QtCore/QtCore>
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <vector>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <grp.h>

extern char **environ;

Q_CORE_EXPORT uint qGlobalPostedEventsCount();
namespace sim {

// ------------------------------------------------------------------ log
static int logFd = -1;
static void onAlarm(int);
static std::mutex logM;
static long seqNo = 0;
static long BASE = 1577836800;      // 2020-01-01; all logged times are seconds relative to this

static std::string jstr(const std::string &raw, bool utf8 = false)
{
    std::string o = "\"";
    auto put = [&](unsigned c) {
        char b[16];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c == '\r') o += "\\r";
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    };
    if (utf8) { for (char16_t c : from_utf8(raw)) put(c); }
    else for (unsigned char c : raw) put(c);
    return o + '"';
}
static void logEvent(const std::string &body)
{
    std::lock_guard<std::mutex> g(logM);
    if (seqNo >= 200000) {               // it goes on for ever
        if (seqNo++ == 200000) onAlarm(0);
        return;
    }
    std::string s = "{\"n\":" + std::to_string(++seqNo) + "," + body + "}\n";
    if (logFd >= 0) { ssize_t r = write(logFd, s.data(), s.size()); (void)r; }
}
void log_misc(const char *what, const char *detail)
{ logEvent("\"e\":\"misc\",\"w\":" + jstr(what) + ",\"d\":" + jstr(detail)); }

std::string to_utf8(const ustr &s) { return QString::fromUtf16(s.c_str(), (int)s.size()).toStdString(); }
ustr from_utf8(const std::string &s) { return QString::fromStdString(s).toStdU16String(); }

// ------------------------------------------------------------------ scenario
static QJsonObject SC;
static bool packets = false, manual, lazyDeath = false, deathFirst;
static long vclock = 100000;
static std::string CWD;
static pid_t mainTid;

// ------------------------------------------------------------------ objects
struct Packet { uint32_t err, bytes; uint64_t key; void *ov; bool posted; };
struct Port { std::deque<Packet> q; int grants = 0; };
struct Pipe {
    std::string name; int readers = 0, writers = 0; std::string data;
    bool pending = false; void *buf = 0; uint32_t len = 0; void *ov = 0;
    std::shared_ptr<Port> port; uint64_t key = 0;
};
struct Step { char kind; std::string a, b; };  // o/e: text chunk; c: close outputs; x: exit
struct Proc {
    int no; std::string id, cmd, cwd; std::vector<Step> steps; size_t pc = 0;
    std::vector<std::pair<char, std::string>> effects; long rc = 0; bool leak = false; std::vector<std::string> reads;
    std::shared_ptr<Pipe> out, err, in; bool exited = false, posted = false, known = false;
};
enum Kind { PIPE_R, PIPE_W, PROC, THREAD, PORT };
struct Obj { Kind k; std::shared_ptr<Pipe> pipe; std::shared_ptr<Proc> proc; std::shared_ptr<Port> port; };

static std::mutex G;
static std::condition_variable &CV = *new std::condition_variable;     // threads may still wait when the process ends
static std::map<H, Obj> objs;
static std::map<std::string, std::shared_ptr<Pipe>> pipesByName;
static std::vector<std::shared_ptr<Proc>> procs;
static std::vector<std::shared_ptr<Port>> ports;
static H nextH = 0x100;
static thread_local uint32_t lastError = 0;
static bool hold = false;           // deathFirst: packets wait until the next block
static bool ending = false;         // main loop is over: nothing is scheduled any more

void set_last_error(uint32_t e) { lastError = e; }
uint32_t get_last_error() { return lastError; }
static H add(const Obj &o) { H h = nextH; nextH += 4; objs[h] = o; return h; }

// ---- completion port
H iocp_create()
{
    std::lock_guard<std::mutex> g(G);
    Obj o; o.k = PORT; o.port = std::make_shared<Port>();
    ports.push_back(o.port);
    return add(o);
}
bool iocp_assoc(H f, H p, uint64_t key)
{
    std::lock_guard<std::mutex> g(G);
    auto a = objs.find(f), b = objs.find(p);
    if (a == objs.end() || b == objs.end() || a->second.k != PIPE_R || b->second.k != PORT) return false;
    if (a->second.pipe->port) return false;
    a->second.pipe->port = b->second.port; a->second.pipe->key = key;
    return true;
}
static bool deliverable(Port &p)
{
    if (p.q.empty()) return false;
    for (auto &k : p.q) if (k.posted) return true;
    if (ending) return true;
    if (hold) return false;
    return !(manual || lazyDeath) || p.grants > 0;
}
uint32_t iocp_get(H port, uint32_t *bytes, uint64_t *key, void **ov, uint32_t timeoutMs)
{
    std::unique_lock<std::mutex> g(G);
    auto it = objs.find(port);
    if (it == objs.end() || it->second.k != PORT) { *ov = 0; return E_INVALID_HANDLE; }
    std::shared_ptr<Port> p = it->second.port;
    while (!deliverable(*p)) {
        if (timeoutMs != 0xffffffffu) {
            if (CV.wait_for(g, std::chrono::milliseconds(timeoutMs)) == std::cv_status::timeout && !deliverable(*p)) {
                *ov = 0; return 258;
            }
        } else
            CV.wait(g);
    }
    Packet k = p->q.front(); p->q.pop_front();
    if (p->grants > 0) --p->grants;
    *bytes = k.bytes; *key = k.key; *ov = k.ov;
    return k.err;
}
bool iocp_post(H port, uint32_t bytes, uint64_t key, void *ov)
{
    std::lock_guard<std::mutex> g(G);
    auto it = objs.find(port);
    if (it == objs.end() || it->second.k != PORT) return false;
    it->second.port->q.push_back(Packet{0, bytes, key, ov, true});
    CV.notify_all();
    return true;
}
static void complete(Pipe &p, uint32_t err, uint32_t n)
{
    p.pending = false;
    if (p.ov) { ((uint64_t *)p.ov)[0] = err ? 0xC0000000u | err : 0; ((uint64_t *)p.ov)[1] = n; }
    if (p.port) { p.port->q.push_back(Packet{err, n, p.key, p.ov, false}); CV.notify_all(); }
}
static void pump(Pipe &p)
{
    if (!p.pending) return;
    if (!p.data.empty()) {
        uint32_t n = std::min<size_t>(p.len, p.data.size());
        memcpy(p.buf, p.data.data(), n);
        p.data.erase(0, n);
        complete(p, 0, n);
    } else if (p.writers == 0)
        complete(p, E_BROKEN_PIPE, 0);
}

// ---- pipes
H pipe_create(const ustr &n)
{
    std::lock_guard<std::mutex> g(G);
    std::string name = to_utf8(n);
    if (pipesByName.count(name)) { lastError = E_PIPE_BUSY; return 0; }
    Obj o; o.k = PIPE_R; o.pipe = std::make_shared<Pipe>(); o.pipe->name = name; o.pipe->readers = 1;
    pipesByName[name] = o.pipe;
    return add(o);
}
H pipe_open(const ustr &n)
{
    std::lock_guard<std::mutex> g(G);
    auto it = pipesByName.find(to_utf8(n));
    if (it == pipesByName.end()) { lastError = E_FILE_NOT_FOUND; return 0; }
    Obj o; o.k = PIPE_W; o.pipe = it->second; o.pipe->writers++;
    return add(o);
}
uint32_t pipe_connect(H) { return E_PIPE_CONNECTED; }
bool pipe_peek(H h, uint32_t *avail)
{
    std::lock_guard<std::mutex> g(G);
    auto it = objs.find(h);
    if (it == objs.end() || it->second.k != PIPE_R) return false;
    Pipe &p = *it->second.pipe;
    *avail = p.data.size();
    return !(p.data.empty() && p.writers == 0);
}
uint32_t pipe_read(H h, void *buf, uint32_t len, void *ov, uint32_t *got)
{
    std::lock_guard<std::mutex> g(G);
    auto it = objs.find(h);
    if (it == objs.end() || it->second.k != PIPE_R) return E_INVALID_HANDLE;
    Pipe &p = *it->second.pipe;
    if (p.data.empty() && p.writers == 0) return E_BROKEN_PIPE;
    p.pending = true; p.buf = buf; p.len = len; p.ov = ov;
    if (p.ov) { ((uint64_t *)p.ov)[0] = 0x103; ((uint64_t *)p.ov)[1] = 0; }
    if (p.data.empty()) return E_IO_PENDING;
    uint32_t n = std::min<size_t>(len, p.data.size());
    pump(p);
    if (got) *got = n;
    return E_OK;
}
void pipe_cancel(H h)
{
    std::lock_guard<std::mutex> g(G);
    auto it = objs.find(h);
    if (it != objs.end() && it->second.pipe && it->second.pipe->pending) complete(*it->second.pipe, E_OPERATION_ABORTED, 0);
}
static void dropWriter(std::shared_ptr<Pipe> &p)
{
    if (!p) return;
    if (--p->writers == 0) pump(*p);
    p.reset();
}
bool close_handle(H h)
{
    std::lock_guard<std::mutex> g(G);
    auto it = objs.find(h);
    if (it == objs.end()) { lastError = E_INVALID_HANDLE; return false; }
    Obj o = it->second; objs.erase(it);
    if (o.k == PIPE_W) { if (--o.pipe->writers == 0) pump(*o.pipe); }
    else if (o.k == PIPE_R) {
        if (--o.pipe->readers == 0) {
            if (o.pipe->pending) complete(*o.pipe, E_OPERATION_ABORTED, 0);
            pipesByName.erase(o.pipe->name);
        }
    }
    return true;
}
H dup_handle(H h)
{
    std::lock_guard<std::mutex> g(G);
    auto it = objs.find(h);
    if (it == objs.end()) return 0;
    Obj o = it->second;
    if (o.k == PIPE_W) o.pipe->writers++;
    if (o.k == PIPE_R) o.pipe->readers++;
    return add(o);
}

// ---- files
static std::string winpath(std::string p)
{
    if (p.compare(0, 4, "\\\\?\\") == 0) p.erase(0, 4);
    for (char &c : p) if (c == '\\') c = '/';
    return p;
}
// case-insensitive resolution of every component, as on NTFS
static std::string resolve(const std::string &in)
{
    std::string p = winpath(in);
    struct stat st;
    if (p.empty() || lstat(p.c_str(), &st) == 0) return p;
    std::string cur = p[0] == '/' ? "/" : "", rest = p[0] == '/' ? p.substr(1) : p;
    while (!rest.empty()) {
        size_t k = rest.find('/');
        std::string comp = rest.substr(0, k);
        rest = k == std::string::npos ? "" : rest.substr(k + 1);
        if (comp.empty()) continue;
        std::string cand = cur + comp;
        if (lstat(cand.c_str(), &st) != 0) {
            if (DIR *d = opendir(cur.empty() ? "." : cur.c_str())) {
                while (dirent *e = readdir(d))
                    if (QString::fromUtf8(e->d_name).compare(QString::fromStdString(comp), Qt::CaseInsensitive) == 0) {
                        cand = cur + e->d_name; break;
                    }
                closedir(d);
            }
        }
        cur = cand + (rest.empty() ? "" : "/");
    }
    return cur;
}
static void logWarnEscape(const std::string &p);
static bool inScratch(const std::string &p) { return !CWD.empty() && p.compare(0, CWD.size() + 1, CWD + "/") == 0 && p.find("/..") == std::string::npos; }
static std::string absPath(const std::string &p, const std::string &base)
{
    std::string q = winpath(p);
    if (q.empty() || q[0] != '/') q = base + "/" + q;
    return resolve(q);
}
bool file_attr(const ustr &path, FileAttr *out)
{
    struct stat st;
    if (stat(resolve(to_utf8(path)).c_str(), &st) != 0) return false;
    out->dir = S_ISDIR(st.st_mode); out->size = st.st_size;
    out->mtime100ns = (uint64_t)st.st_mtim.tv_sec * 10000000ull + st.st_mtim.tv_nsec / 100 + 116444736000000000ull;
    return true;
}
bool file_delete(const ustr &path)
{
    std::string p = absPath(to_utf8(path), CWD);
    if (!inScratch(p)) { log_misc("escape", p.c_str()); return false; }
    return unlink(p.c_str()) == 0;
}
static void touchFile(const std::string &p, const std::string *content)
{
    if (!inScratch(p)) { log_misc("escape", p.c_str()); return; }
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | (content ? O_TRUNC : 0), 0644);
    if (fd < 0) return;
    if (content) { ssize_t r = write(fd, content->data(), content->size()); (void)r; }
    struct timespec ts[2] = {{BASE + vclock, 0}, {BASE + vclock, 0}};
    futimens(fd, ts);
    close(fd);
}
ustr temp_path()
{
    std::string t = CWD + "/tmp/";
    for (char &c : t) if (c == '/') c = '\\';
    return from_utf8(t);
}

// ---- environment block of the process (names are case-insensitive)
struct CiLess { bool operator()(const QString &a, const QString &b) const { return a.compare(b, Qt::CaseInsensitive) < 0; } };
static std::map<QString, QString, CiLess> ENV;
bool env_get(const ustr &name, ustr *v)
{
    std::lock_guard<std::mutex> g(G);
    auto it = ENV.find(QString::fromStdU16String(name));
    if (it == ENV.end()) return false;
    *v = it->second.toStdU16String();
    return true;
}
void env_set(const ustr &name, const ustr *v)
{
    std::lock_guard<std::mutex> g(G);
    QString n = QString::fromStdU16String(name);
    if (v) ENV[n] = QString::fromStdU16String(*v); else ENV.erase(n);
}

// ---- time
static long tickCalls = 0;
uint64_t now100ns()
{
    std::lock_guard<std::mutex> g(G);
    return (uint64_t)(BASE + ++vclock) * 10000000ull + 116444736000000000ull;
}
uint32_t tick_count() { std::lock_guard<std::mutex> g(G); return 5000 + (++tickCalls) / 5 * 16; }
uint32_t current_pid() { return 4242; }
static void *ctrlHandler = 0;
void set_ctrl_handler(void *fn) { ctrlHandler = fn; }

// ---- processes
static std::vector<std::string> splitArgs(const std::string &s)
{
    std::vector<std::string> r; std::string cur; bool q = false, any = false;
    for (char c : s) {
        if (c == '"') { q = !q; any = true; }
        else if (!q && (c == ' ' || c == '\t')) { if (any) r.push_back(cur); cur.clear(); any = false; }
        else { cur += c; any = true; }
    }
    if (any) r.push_back(cur);
    return r;
}
static std::string lower(std::string s) { for (char &c : s) c = tolower((unsigned char)c); return s; }
static std::string baseName(const std::string &s)
{
    size_t k = s.find_last_of("/\\");
    std::string b = lower(k == std::string::npos ? s : s.substr(k + 1));
    if (b.size() > 4 && b.compare(b.size() - 4, 4, ".exe") == 0) b.resize(b.size() - 4);
    return b;
}
static std::string readFile(const std::string &p, bool *ok)
{
    std::string s; *ok = false;
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0) return s;
    char b[4096]; ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
    close(fd); *ok = true;
    return s;
}
// name and content of the files that a command names, when it starts and when it ends
static std::string readAll(const Proc &p)
{
    std::string fj;
    for (const std::string &name : p.reads) {
        bool ok; std::string c = readFile(absPath(name, p.cwd), &ok);
        fj += (fj.empty() ? "" : ",") + ("[" + jstr(name, true)) + "," + (ok ? jstr(c) : std::string("null")) + "]";
    }
    return "[" + fj + "]";
}
static std::map<std::string, int> runCount;
// program x: x ID [o=text] [e=text] [t=touch] [d=delete] [w=file:content] [m=directory to make] [W=ext:pattern] [f=file to read] [rc=N] [leak]
static void interpret(Proc &p, const std::vector<std::string> &a, std::string *files)
{
    p.id = a.size() > 1 ? a[1] : "?";
    for (size_t i = 2; i < a.size(); ++i) {
        const std::string &s = a[i];
        size_t k = s.find('=');
        std::string key = s.substr(0, k), val = k == std::string::npos ? "" : s.substr(k + 1);
        if (key == "o" || key == "e") p.steps.push_back({key[0], val + "\n", ""});
        else if (key == "t" || key == "d" || key == "w" || key == "m") p.effects.push_back({key[0], val});
        else if (key == "rc") p.rc = strtol(val.c_str(), 0, 0);
        else if (key == "leak") p.leak = true;
        else if (key == "W" && val.find(':') != std::string::npos && val.find('*') != std::string::npos) {
            // W=.c:dir\*.obj touches dir\NAME.obj for every following argument NAME.c
            std::string ext = lower(val.substr(0, val.find(':'))), to = val.substr(val.find(':') + 1);
            for (size_t j = i + 1; j < a.size(); ++j) {
                std::string n = a[j];
                size_t sl = n.find_last_of("/\\");
                if (sl != std::string::npos) n = n.substr(sl + 1);
                if (n.size() <= ext.size() || lower(n.substr(n.size() - ext.size())) != ext) continue;
                std::string r = to;
                r.replace(r.find('*'), 1, n.substr(0, n.size() - ext.size()));
                p.effects.push_back({'t', r});
            }
        }
        else if (key == "f" || k == std::string::npos) {
            if (k == std::string::npos && s.find('.') == std::string::npos) continue;
            std::string name = key == "f" ? val : s;
            p.reads.push_back(name[0] == '@' ? name.substr(1) : name);
        }
    }
    QJsonValue o = SC["procs"].toObject()[QString::fromStdString(p.id)];
    if (o.isArray()) {
        QJsonArray arr = o.toArray();
        int n = runCount[p.id]++;
        o = arr[std::min(n, arr.size() - 1)];
    }
    if (o.isObject()) {
        QJsonObject b = o.toObject();
        for (const QJsonValue &v : b["steps"].toArray()) {
            QJsonArray st = v.toArray();
            QString k = st[0].toString();
            if (k == "o" || k == "e") {
                std::string text = st[1].toString().toStdString();
                int rep = st.size() > 2 ? st[2].toInt() : 1; std::string t;
                for (int i = 0; i < rep; ++i) t += text;
                p.steps.push_back({k.toStdString()[0], t, ""});
            } else if (k == "c") p.steps.push_back({'c', "", ""});
            else p.effects.push_back({k.toStdString()[0], st[1].toString().toStdString()});
        }
        if (b.contains("rc")) p.rc = (long)b["rc"].toDouble();
        if (b["leak"].toBool()) p.leak = true;
    }
    p.steps.push_back({'x', "", ""});
    *files = readAll(p);
}
static void interpretShell(Proc &p, const std::string &inner, std::string *files)
{
    std::string s = inner;
    *files = "[]";
    size_t gt = s.find('>');
    std::string redir;
    if (gt != std::string::npos) {
        redir = s.substr(gt + 1);
        if (!redir.empty() && redir[0] == '>') redir.erase(0, 1);
        s = s.substr(0, gt);
    }
    std::vector<std::string> a = splitArgs(s), r = splitArgs(redir);
    std::string prog = a.empty() ? "" : baseName(a[0]);
    if (prog == "x") { interpret(p, a, files); p.steps.pop_back(); }
    else if (prog == "echo") { size_t k = s.find_first_of(" \t"); if (r.empty()) p.steps.push_back({'o', (k == std::string::npos ? "" : s.substr(k + 1)) + "\n", ""}); }
    else if (prog == "exit") { p.rc = a.size() > 1 ? atol(a.back().c_str()) : 0; }
    else if (prog == "del") { for (size_t i = 1; i < a.size(); ++i) p.effects.push_back({'d', a[i]}); }
    else if (prog.empty() || prog == "copy" || prog == "type" || prog == "rem" || prog == "ver" || prog == "set" || prog == "cd") {}
    else { p.rc = 1; p.steps.push_back({'e', "'" + prog + "' is not recognized\n", ""}); }
    if (!r.empty() && lower(r[0]) != "nul") p.effects.push_back({'t', r[0]});
    p.steps.push_back({'x', "", ""});
    if (p.id.empty()) p.id = prog;
}
uint32_t proc_create(const ustr &cmd, const ustr &cwd, const ustr *env, H in, H out, H err, H *hProc, H *hThread, uint32_t *pid)
{
    std::lock_guard<std::mutex> g(G);
    auto p = std::make_shared<Proc>();
    p->cmd = to_utf8(cmd);
    p->cwd = cwd.empty() ? CWD : absPath(to_utf8(cwd), CWD);
    struct stat st;
    if (!cwd.empty() && (stat(p->cwd.c_str(), &st) != 0 || !S_ISDIR(st.st_mode))) {
        logEvent("\"e\":\"nospawn\",\"why\":\"cwd\",\"cmd\":" + jstr(p->cmd, true)); return E_DIRECTORY;
    }
    std::vector<std::string> a = splitArgs(p->cmd);
    std::string prog = a.empty() ? "" : baseName(a[0]);
    bool shell = false;
    std::string files = "[]";
    if (prog == "cmd" && a.size() > 1 && lower(a[1]) == "/c") {
        shell = true;
        size_t k = lower(p->cmd).find("/c");
        std::string inner = p->cmd.substr(k + 2);
        while (!inner.empty() && inner[0] == ' ') inner.erase(0, 1);
        if (inner.size() > 1 && inner[0] == '"' && inner[inner.size() - 1] == '"') inner = inner.substr(1, inner.size() - 2);
        interpretShell(*p, inner, &files);
    } else if (prog == "x" || prog == "winsim") {
        interpret(*p, a, &files);
    } else {
        logEvent("\"e\":\"nospawn\",\"why\":\"noexe\",\"cmd\":" + jstr(p->cmd, true));
        return E_FILE_NOT_FOUND;
    }
    for (const QJsonValue &v : SC["failspawn"].toArray())
        if (v.toString().toStdString() == p->id) {
            logEvent("\"e\":\"nospawn\",\"why\":\"fail\",\"cmd\":" + jstr(p->cmd, true));
            return E_FILE_NOT_FOUND;
        }
    p->no = (int)procs.size() + 1;
    auto o = objs.find(out), e = objs.find(err), i = objs.find(in);
    if (o != objs.end() && o->second.k == PIPE_W) { p->out = o->second.pipe; p->out->writers++; }
    if (e != objs.end() && e->second.k == PIPE_W) { p->err = e->second.pipe; p->err->writers++; }
    procs.push_back(p);
    std::map<QString, QString, CiLess> pe;
    if (env) {
        for (const QString &line : QString::fromStdU16String(*env).split('\n', Qt::SkipEmptyParts)) {
            int k = line.indexOf('=', 1);
            if (k > 0) pe.insert({line.left(k), line.mid(k + 1)});
        }
    } else
        pe = ENV;
    std::string ej;
    for (const QJsonValue &v : SC["logenv"].toArray()) {
        if (v.toString() == "*") {
            for (auto it = pe.begin(); it != pe.end(); ++it)
                ej += (ej.empty() ? "" : ",") + jstr(it->first.toLower().toStdString(), true) + ":" + jstr(it->second.toStdString(), true);
            continue;
        }
        auto it = pe.find(v.toString());
        ej += (ej.empty() ? "" : ",") + jstr(v.toString().toStdString(), true) + ":" +
              (it == pe.end() ? std::string("null") : jstr(it->second.toStdString(), true));
    }
    std::string rel = p->cwd == CWD ? "." : inScratch(p->cwd) ? p->cwd.substr(CWD.size() + 1) : p->cwd;
    logEvent("\"e\":\"spawn\",\"p\":" + std::to_string(p->no) + ",\"id\":" + jstr(p->id, true) + ",\"cmd\":" + jstr(p->cmd, true) +
             ",\"cwd\":" + jstr(rel, true) + ",\"sh\":" + (shell ? "1" : "0") + ",\"env\":{" + ej + "},\"files\":" + files);
    Obj po; po.k = PROC; po.proc = p;
    *hProc = add(po); po.k = THREAD; *hThread = add(po);
    *pid = 10000 + p->no * 4;
    return E_OK;
}
bool proc_exitcode(H h, uint32_t *code)
{
    std::lock_guard<std::mutex> g(G);
    auto it = objs.find(h);
    if (it == objs.end() || !it->second.proc) return false;
    *code = it->second.proc->exited ? (uint32_t)it->second.proc->rc : 259;
    if (it->second.proc->exited && !it->second.proc->known) {
        it->second.proc->known = true;
        logEvent("\"e\":\"death\",\"p\":" + std::to_string(it->second.proc->no));
    }
    return true;
}
bool handle_signaled(H h)
{
    auto it = objs.find(h);
    return it != objs.end() && it->second.proc && it->second.proc->exited;
}
static void doExit(std::shared_ptr<Proc> p)
{
    ++vclock;
    std::string t, d, f = p->reads.empty() ? "" : ",\"files\":" + readAll(*p);
    for (auto &e : p->effects) {
        std::string name = e.second, content; bool hasContent = false;
        if (e.first == 'w') { size_t k = name.find(':'); content = name.substr(k + 1); name = name.substr(0, k); hasContent = true; }
        std::string path = absPath(name, p->cwd);
        if (e.first == 'm') { if (inScratch(path)) mkdir(path.c_str(), 0755); continue; }
        if (e.first == 'd') { if (inScratch(path)) unlink(path.c_str()); d += (d.empty() ? "" : ",") + jstr(name, true); }
        else { touchFile(path, hasContent ? &content : 0); t += (t.empty() ? "" : ",") + jstr(name, true); }
    }
    p->exited = true;
    logEvent("\"e\":\"exit\",\"p\":" + std::to_string(p->no) + ",\"rc\":" + std::to_string(p->rc) + ",\"now\":" + std::to_string(vclock) +
             ",\"t\":[" + t + "],\"d\":[" + d + "]" + f);
    if (!p->leak) { dropWriter(p->out); dropWriter(p->err); }
}
void proc_terminate(H h, uint32_t code)
{
    std::lock_guard<std::mutex> g(G);
    auto it = objs.find(h);
    if (it == objs.end() || !it->second.proc || it->second.proc->exited) return;
    it->second.proc->rc = code; it->second.proc->effects.clear();
    log_misc("terminate", it->second.proc->id.c_str());
    doExit(it->second.proc);
}

// ---- notifiers
struct Notif { H h = 0; bool enabled = false; };
static std::map<void *, Notif> notifs;
void notifier_set(void *o, H h, bool en) { std::lock_guard<std::mutex> g(G); notifs[o].h = h; notifs[o].enabled = en; }
void notifier_gone(void *o) { std::lock_guard<std::mutex> g(G); notifs.erase(o); }

// ---- semaphores
struct Sem { std::string key; int tokens = 0; std::deque<int *> waiters; };
static std::map<std::string, Sem> sems;
struct Ext { std::string name; std::vector<QString> ops; size_t pc = 0; };
static std::vector<Ext> exts;
static std::string defaultSem;
Sem *sem_open(const std::string &key, int initial, bool create)
{
    std::lock_guard<std::mutex> g(G);
    QString f = SC["semfail"].toString();
    if ((create && f == "create") || (!create && f == "open")) return 0;
    bool fresh = !sems.count(key);
    Sem &s = sems[key];
    s.key = key;
    if (fresh || create) s.tokens = initial;
    if (fresh && !create && SC["sems"].toObject().contains(QString::fromStdString(key)))
        s.tokens = SC["sems"].toObject()[QString::fromStdString(key)].toInt();
    if (create || defaultSem.empty()) defaultSem = key;
    logEvent("\"e\":\"sem\",\"own\":" + std::string(create ? "1" : "0") + ",\"tokens\":" + std::to_string(s.tokens) + ",\"key\":" + jstr(key, true));
    return &s;
}
bool sem_acquire(Sem *s)
{
    std::unique_lock<std::mutex> g(G);
    if (SC["semfail"].toString() == "acquire") return false;
    int granted = 0;
    s->waiters.push_back(&granted);
    logEvent("\"e\":\"acq\",\"tokens\":" + std::to_string(s->tokens));
    while (!granted) CV.wait(g);
    return true;
}
bool sem_release(Sem *s, int n)
{
    std::lock_guard<std::mutex> g(G);
    s->tokens += n;
    logEvent("\"e\":\"rel\",\"k\":" + std::to_string(n) + ",\"tokens\":" + std::to_string(s->tokens));
    return true;
}

// ---- timers (QTimer::singleShot with a delay)
struct VTimer { QPointer<QObject> o; std::string member; };
static std::deque<VTimer> timers;
void timer_add(QObject *o, const char *member)
{ std::lock_guard<std::mutex> g(G); timers.push_back({QPointer<QObject>(o), std::string(member)}); }

// ---- scheduling
static void quiesce()
{
    for (int spins = 0;; ++spins) {
        bool busy = false;
        DIR *d = opendir("/proc/self/task");
        if (!d) return;
        while (dirent *e = readdir(d)) {
            if (e->d_name[0] == '.' || atoi(e->d_name) == mainTid) continue;
            char path[80], b[256];
            snprintf(path, sizeof path, "/proc/self/task/%s/stat", e->d_name);
            int fd = open(path, O_RDONLY);
            if (fd < 0) { busy = true; continue; }
            ssize_t n = read(fd, b, sizeof b - 1);
            close(fd);
            if (n <= 0) { busy = true; continue; }
            b[n] = 0;
            char *r = strrchr(b, ')');
            if (!r || r[2] != 'S') busy = true;
        }
        closedir(d);
        if (!busy) return;
        if (spins < 50) sched_yield(); else usleep(50);
    }
}
static int choiceNo = 0, steps = 0;
static uint64_t rng = 0;
static QJsonArray choiceList;
static int choose(int n)
{
    int k = 0;
    if (choiceNo < choiceList.size()) k = choiceList[choiceNo].toInt();
    else if (SC.contains("seed")) {
        rng = rng * 6364136223846793005ull + 1442695040888963407ull;
        k = (int)((rng >> 33) % n);
    } else if (SC["policy"].toString() == "last") k = n - 1;
    ++choiceNo;
    if (k < 0 || k >= n) k = n - 1;
    return k;
}
struct Opt { int type; std::shared_ptr<Proc> p; size_t i; std::string label; void *o; };
enum { O_PROC, O_GRANT, O_EXT, O_PKT, O_DEATH, O_TIMER, O_CTRL, O_DELIVER };
static void finishLog(const char *how)
{
    std::string r, tk;
    for (auto &p : procs) if (!p->exited) r += (r.empty() ? "" : ",") + std::to_string(p->no);
    int waiters = 0, tokens = -1;
    if (!defaultSem.empty()) { tokens = sems[defaultSem].tokens; waiters = (int)sems[defaultSem].waiters.size(); }
    logEvent("\"e\":\"end\",\"how\":\"" + std::string(how) + "\",\"running\":[" + r + "],\"tokens\":" + std::to_string(tokens) +
             ",\"waiters\":" + std::to_string(waiters));
}
static void onAlarm(int)
{
    static const char m[] = "{\"n\":999999,\"e\":\"end\",\"how\":\"hang\",\"running\":[],\"tokens\":-1,\"waiters\":0}\n";
    ssize_t r = write(logFd, m, sizeof m - 1); (void)r;
    _exit(97);
}
static void onFatal(int sig)
{
    char m[160];
    int n = snprintf(m, sizeof m, "{\"n\":999999,\"e\":\"end\",\"how\":\"crash%d\",\"running\":[],\"tokens\":-1,\"waiters\":0}\n", sig);
    ssize_t r = write(logFd, m, n); (void)r;
    _exit(96);
}
static void setTimer(long ms)
{
    struct itimerval it = {{0, 0}, {ms / 1000, (ms % 1000) * 1000}};
    setitimer(ITIMER_REAL, &it, 0);
}
static long wallBudgetMs = 10000;

static void onBlock(QAbstractEventDispatcher *disp)
{
    setTimer(wallBudgetMs);
    bool idleLogged = false;
    for (;;) {
        quiesce();
        if (disp->hasPendingEvents()) return;
        // Like the dispatcher of Windows: an inner event loop also sends the events that were posted together with
        // the one that is being handled.
        if (qGlobalPostedEventsCount() > 0) { disp->wakeUp(); return; }
        std::unique_lock<std::mutex> g(G);
        if (hold) { hold = false; CV.notify_all(); continue; }
        std::vector<Opt> opts;
        std::vector<void *> deaths;
        for (auto &n : notifs) if (n.second.enabled && handle_signaled(n.second.h)) deaths.push_back(n.first);
        std::sort(deaths.begin(), deaths.end(), [](void *a, void *b) { return notifs[a].h < notifs[b].h; });
        if (!manual && !lazyDeath && !deaths.empty()) {
            g.unlock();
            for (void *o : deaths) QCoreApplication::postEvent((QObject *)o, new QEvent(QEvent::WinEventAct));
            if (++steps > 20000) onAlarm(0);
            return;
        }
        for (auto &p : procs)
            if (!p->exited) {
                const Step &s = p->steps[p->pc];
                opts.push_back({O_PROC, p, 0, std::string(1, s.kind) + std::to_string(p->no), 0});
            }
        for (auto &s : sems) if (!s.second.waiters.empty() && s.second.tokens > 0) opts.push_back({O_GRANT, 0, 0, "grant", &s.second});
        for (size_t i = 0; i < exts.size(); ++i)
            if (exts[i].pc < exts[i].ops.size() && !defaultSem.empty()) {
                QString op = exts[i].ops[exts[i].pc];
                if (op == "take" && sems[defaultSem].tokens <= 0) continue;
                opts.push_back({O_EXT, 0, i, exts[i].name + "." + op.toStdString(), 0});
            }
        if (manual)
            for (size_t i = 0; i < ports.size(); ++i) if (!ports[i]->q.empty()) opts.push_back({O_PKT, 0, i, "pkt", 0});
        if (lazyDeath) {
            bool any = !deaths.empty();
            for (auto &q : ports) if (!q->q.empty()) any = true;
            if (any) opts.push_back({O_DELIVER, 0, 0, "deliver", 0});
        }
        bool packetsLeft = false;
        for (auto &q : ports) if (!q->q.empty()) packetsLeft = true;
        if (manual && !(packets && packetsLeft)) {
            for (void *o : deaths) opts.push_back({O_DEATH, 0, 0, "death", o});
        }
        if (SC["ctrlc"].toBool() && ctrlHandler && !procs.empty()) opts.push_back({O_CTRL, 0, 0, "ctrlc", 0});
        if (opts.empty() && !timers.empty()) opts.push_back({O_TIMER, 0, 0, "timer", 0});
        else if (manual && !packets && !timers.empty()) opts.push_back({O_TIMER, 0, 0, "timer", 0});
        if (opts.empty()) {
            // nothing can happen any more: give real timers a moment, then call it a hang
            logEvent("\"e\":\"idle\",\"n_opts\":0");
            setTimer(1500);
            return;
        }
        if (!idleLogged) { logEvent("\"e\":\"idle\",\"n_opts\":" + std::to_string(opts.size())); idleLogged = true; }
        if (++steps > 20000) onAlarm(0);
        int k = choose((int)opts.size());
        std::string os;
        for (auto &o : opts) os += (os.empty() ? "" : ",") + jstr(o.label);
        logEvent("\"e\":\"choice\",\"opts\":[" + os + "],\"pick\":" + std::to_string(k));
        Opt o = opts[k];
        switch (o.type) {
        case O_PROC: {
            Step s = o.p->steps[o.p->pc++];
            if (s.kind == 'o' || s.kind == 'e') {
                ++vclock;
                std::shared_ptr<Pipe> pp = s.kind == 'o' ? o.p->out : o.p->err;
                logEvent("\"e\":\"chunk\",\"p\":" + std::to_string(o.p->no) + ",\"s\":" + (s.kind == 'o' ? "1" : "2") + ",\"d\":" + jstr(s.a));
                if (pp && pp->readers > 0) { pp->data += s.a; pump(*pp); }
            } else if (s.kind == 'c') {
                dropWriter(o.p->out); dropWriter(o.p->err);
            } else {
                if (deathFirst) hold = true;
                doExit(o.p);
                if (deathFirst) {
                    // the death notification overtakes the completion packets
                    std::vector<void *> dd;
                    for (auto &n : notifs) if (n.second.enabled && handle_signaled(n.second.h)) dd.push_back(n.first);
                    g.unlock();
                    for (void *x : dd) QCoreApplication::postEvent((QObject *)x, new QEvent(QEvent::WinEventAct));
                    return;
                }
            }
            break; }
        case O_GRANT: {
            Sem *s = (Sem *)o.o;
            s->tokens--;
            *s->waiters.front() = 1; s->waiters.pop_front();
            logEvent("\"e\":\"grant\",\"tokens\":" + std::to_string(s->tokens));
            CV.notify_all();
            break; }
        case O_EXT: {
            Ext &x = exts[o.i];
            QString op = x.ops[x.pc++];
            Sem &s = sems[defaultSem];
            s.tokens += op == "take" ? -1 : 1;
            logEvent("\"e\":\"ext\",\"who\":" + jstr(x.name) + ",\"op\":" + jstr(op.toStdString()) + ",\"tokens\":" + std::to_string(s.tokens));
            break; }
        case O_PKT: ports[o.i]->grants++; CV.notify_all(); break;
        case O_DELIVER:
            // everything that is known by now reaches jom at once
            for (auto &q : ports) q->grants = q->q.size();
            CV.notify_all();
            g.unlock();
            for (void *x : deaths) QCoreApplication::postEvent((QObject *)x, new QEvent(QEvent::WinEventAct));
            break;
        case O_DEATH:
            g.unlock();
            QCoreApplication::postEvent((QObject *)o.o, new QEvent(QEvent::WinEventAct));
            return;
        case O_TIMER: {
            VTimer t = timers.front(); timers.pop_front();
            g.unlock();
            std::string m = t.member.substr(1, t.member.find('(') - 1);
            if (t.o) QMetaObject::invokeMethod(t.o, m.c_str(), Qt::QueuedConnection);
            return; }
        case O_CTRL: {
            logEvent("\"e\":\"ctrlc\"");
            void *fn = ctrlHandler;
            g.unlock();
            winsim_call_ctrl_handler(fn, 0);
            return; }
        }
    }
}

uint32_t wait_handle(H h, uint32_t timeoutMs)
{
    // a blocking wait of the main thread: let the process' remaining steps happen
    std::unique_lock<std::mutex> g(G);
    auto it = objs.find(h);
    if (it == objs.end() || !it->second.proc) return 0xffffffffu;
    std::shared_ptr<Proc> p = it->second.proc;
    if (p->exited) return 0;
    if (timeoutMs != 0xffffffffu) return 258;
    while (!p->exited) {
        Step s = p->steps[p->pc++];
        if (s.kind == 'o' || s.kind == 'e') {
            std::shared_ptr<Pipe> pp = s.kind == 'o' ? p->out : p->err;
            logEvent("\"e\":\"chunk\",\"p\":" + std::to_string(p->no) + ",\"s\":" + (s.kind == 'o' ? "1" : "2") + ",\"d\":" + jstr(s.a));
            if (pp && pp->readers > 0) { pp->data += s.a; pump(*pp); }
        } else if (s.kind == 'x') doExit(p);
    }
    return 0;
}
int run_system(const char *cmd)
{
    std::vector<std::string> a = splitArgs(cmd ? cmd : "");
    int rc = 0;
    for (auto &s : a) if (s.compare(0, 3, "rc=") == 0) rc = atoi(s.c_str() + 3);
    logEvent("\"e\":\"system\",\"cmd\":" + jstr(cmd ? cmd : "") + ",\"rc\":" + std::to_string(rc));
    return rc;
}

// ---- preemption: while the main thread is about to write, running commands print something and the other thread handles it
static uint64_t prng = 0;
void preempt()
{
    double prob = SC["preempt"].toDouble();
    if (prob <= 0 || syscall(SYS_gettid) != mainTid) return;
    for (;;) {
        {
            std::unique_lock<std::mutex> g(G);
            if (!prng) prng = (uint64_t)SC["seed"].toDouble() * 40503u + 12345;
            prng = prng * 6364136223846793005ull + 1442695040888963407ull;
            if (((prng >> 33) % 1000) >= prob * 1000) return;
            std::vector<std::shared_ptr<Proc>> can;
            for (auto &p : procs) if (!p->exited && (p->steps[p->pc].kind == 'o' || p->steps[p->pc].kind == 'e')) can.push_back(p);
            if (can.empty()) return;
            std::shared_ptr<Proc> p = can[(prng >> 20) % can.size()];
            Step s = p->steps[p->pc++];
            ++vclock;
            std::shared_ptr<Pipe> pp = s.kind == 'o' ? p->out : p->err;
            logEvent("\"e\":\"chunk\",\"p\":" + std::to_string(p->no) + ",\"s\":" + (s.kind == 'o' ? "1" : "2") + ",\"d\":" + jstr(s.a));
            if (pp && pp->readers > 0) { pp->data += s.a; pump(*pp); }
        }
        quiesce();
    }
}

// ---- standard streams
static ssize_t cookieWrite(void *c, const char *b, size_t n)
{
    logEvent(std::string("\"e\":\"w\",\"s\":") + (c ? "2" : "1") + ",\"d\":" + jstr(std::string(b, n)));
    return n;
}
static void setupStreams()
{
    cookie_io_functions_t io = {0, cookieWrite, 0, 0};
    FILE *o = fopencookie((void *)0, "w", io);
    setvbuf(o, 0, _IOFBF, 65536);
    FILE *e = fopencookie((void *)1, "w", io);
    setvbuf(e, 0, _IONBF, 0);
    stdout = o; stderr = e;
}
static void atExit(int status, void *)
{
    fflush(stdout); fflush(stderr);
    { std::lock_guard<std::mutex> g(G); ending = true; CV.notify_all(); }
    finishLog("exit");
    _exit(status);                       // the other threads still use what static destructors would take from under them
}
__attribute__((constructor(200))) static void earlySetup()
{
    mainTid = syscall(SYS_gettid);
    if (const char *l = getenv("SIM_LOG")) logFd = open(l, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644);
    unsetenv("SIM_LOG");
    setenv("QT_NO_GLIB", "1", 1);
    setupStreams();
    for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL}) signal(s, onFatal);
    signal(SIGALRM, onAlarm);
    setTimer(wallBudgetMs);
    struct rlimit mem = {(rlim_t)3 << 30, (rlim_t)3 << 30};
    setrlimit(RLIMIT_AS, &mem);
}
static bool cfgLoaded = false;
static void loadScenario()
{
    if (cfgLoaded) return;
    cfgLoaded = true;
    on_exit(atExit, 0);
    {
        // Containment: only ever run below a scratch directory of the checks, and as a user who can change nothing else.
        char b[4096];
        CWD = getcwd(b, sizeof b) ? b : "";
        if (CWD.find("/vjom.") == std::string::npos) { fprintf(stderr, "winsim: not in a scratch directory\n"); _exit(95); }
        if (geteuid() == 0) { if (setgroups(0, 0)) {} if (setgid(65534)) {} if (setuid(65534)) {} }
    }
    if (const char *f = getenv("SIM_SCENARIO")) {
        bool ok; std::string s = readFile(f, &ok);
        SC = QJsonDocument::fromJson(QByteArray::fromStdString(s)).object();
    }
    unsetenv("SIM_SCENARIO"); unsetenv("QT_NO_GLIB");
    packets = SC["mode"].toString() == "packets";      // packets one by one, but before the death notification
    manual = packets || SC["mode"].toString() == "manual";
    deathFirst = SC["mode"].toString() == "deathfirst";
    lazyDeath = SC["mode"].toString() == "lazy";
    choiceList = SC["choices"].toArray();
    rng = (uint64_t)SC["seed"].toDouble() * 2654435761u + 88172645463325252ull;
    for (const QJsonValue &v : SC["ext"].toArray()) {
        Ext x; x.name = v.toObject()["name"].toString().toStdString();
        for (const QJsonValue &o : v.toObject()["ops"].toArray()) x.ops.push_back(o.toString());
        exts.push_back(x);
    }
    for (char **e = environ; *e; ++e) {
        QString s = QString::fromLocal8Bit(*e);
        int k = s.indexOf('=');
        if (k > 0) ENV.insert({s.left(k), s.mid(k + 1)});
    }
}
struct Loader { Loader() { loadScenario(); } };
static Loader loader;
int scenario_cpus() { return SC["cpus"].toInt(4); }

static void startup()
{
    QAbstractEventDispatcher *d = QAbstractEventDispatcher::instance();
    if (d) QObject::connect(d, &QAbstractEventDispatcher::aboutToBlock, [d]() { onBlock(d); });
}
Q_COREAPP_STARTUP_FUNCTION(startup)

std::string resolve_path(const std::string &p) { return resolve(p); }
} // namespace sim

// ------------------------------------------------------------------ Qt and libc stand-ins
using namespace sim;
namespace sim { Sem *sem_open(const std::string &, int, bool); bool sem_acquire(Sem *); bool sem_release(Sem *, int); }

class QSystemSemaphorePrivate { public: QString key; Sem *s = 0; QSystemSemaphore::SystemSemaphoreError err = QSystemSemaphore::NoError; QString msg; };
QSystemSemaphore::QSystemSemaphore(const QString &key, int initialValue, AccessMode mode) : d(new QSystemSemaphorePrivate) { setKey(key, initialValue, mode); }
QSystemSemaphore::~QSystemSemaphore() {}
void QSystemSemaphore::setKey(const QString &key, int initialValue, AccessMode mode)
{
    d->key = key; d->err = NoError;
    d->s = sem_open(key.toStdString(), initialValue, mode == Create);
    if (!d->s) { d->err = PermissionDenied; d->msg = QStringLiteral("simulated failure"); }
}
QString QSystemSemaphore::key() const { return d->key; }
bool QSystemSemaphore::acquire()
{
    if (!d->s) return false;
    if (!sem_acquire(d->s)) { d->err = UnknownError; d->msg = QStringLiteral("simulated failure"); return false; }
    return true;
}
bool QSystemSemaphore::release(int n) { return d->s && sem_release(d->s, n); }
QSystemSemaphore::SystemSemaphoreError QSystemSemaphore::error() const { return d->err; }
QString QSystemSemaphore::errorString() const { return d->msg; }

QChar QDir::separator() { return QLatin1Char('\\'); }
QString QDir::toNativeSeparators(const QString &s) { QString r = s; r.replace(QLatin1Char('/'), QLatin1Char('\\')); return r; }
QString QDir::fromNativeSeparators(const QString &s) { QString r = s; r.replace(QLatin1Char('\\'), QLatin1Char('/')); return r; }
int QThread::idealThreadCount() Q_DECL_NOTHROW { return sim::scenario_cpus(); }

static QString conv(const QString &s) { return QDir::fromNativeSeparators(s); }
static QString convFile(const QString &s) { return s.isEmpty() ? s : QString::fromStdString(sim::resolve_path(s.toStdString())); }
template <class F> static F realSym(const char *n)
{
    F f = (F)dlsym(RTLD_NEXT, n);
    if (!f) { fprintf(stderr, "winsim: no %s\n", n); abort(); }
    return f;
}
extern "C" {
void _ZN9QFileInfoC1ERK7QString(void *self, const QString &n)
{ static auto f = realSym<void (*)(void *, const QString &)>("_ZN9QFileInfoC1ERK7QString"); f(self, conv(n)); }
void _ZN9QFileInfo7setFileERK7QString(void *self, const QString &n)
{ static auto f = realSym<void (*)(void *, const QString &)>("_ZN9QFileInfo7setFileERK7QString"); f(self, conv(n)); }
bool _ZN9QFileInfo6existsERK7QString(const QString &n)
{ static auto f = realSym<bool (*)(const QString &)>("_ZN9QFileInfo6existsERK7QString"); return f(convFile(n)); }
void _ZN5QFileC1ERK7QString(void *self, const QString &n)
{ static auto f = realSym<void (*)(void *, const QString &)>("_ZN5QFileC1ERK7QString"); f(self, convFile(n)); }
bool _ZN5QFile6existsERK7QString(const QString &n)
{ static auto f = realSym<bool (*)(const QString &)>("_ZN5QFile6existsERK7QString"); return f(convFile(n)); }
bool _ZN5QFile6removeERK7QString(const QString &n)
{ static auto f = realSym<bool (*)(const QString &)>("_ZN5QFile6removeERK7QString"); return f(convFile(n)); }
void _ZN5QFile11setFileNameERK7QString(void *self, const QString &n)
{ static auto f = realSym<void (*)(void *, const QString &)>("_ZN5QFile11setFileNameERK7QString"); f(self, convFile(n)); }
void _ZN4QDirC1ERK7QString(void *self, const QString &n)
{ static auto f = realSym<void (*)(void *, const QString &)>("_ZN4QDirC1ERK7QString"); f(self, conv(n)); }
FILE *winsim_fopen(const char *name, const char *mode) { return fopen(sim::resolve_path(name).c_str(), mode); }
FILE *winsim_freopen(const char *name, const char *mode, FILE *f)
{
    FILE *n = fopen(sim::resolve_path(name).c_str(), mode);
    if (!n) return 0;
    fflush(f);
    if (f == stderr) stderr = n; else if (f == stdout) stdout = n;
    return n;
}
int winsim_fileno(FILE *f) { sim::preempt(); return f == stdout ? 1 : f == stderr ? 2 : fileno(f); }
int system(const char *cmd) { return sim::run_system(cmd); }
}
namespace sim { void timer_add(QObject *, const char *); }
void QTimer::singleShot(int msec, const QObject *r, const char *m)
{
    if (msec <= 0) { QMetaObject::invokeMethod(const_cast<QObject *>(r), std::string(m + 1, strchr(m, '(')).c_str(), Qt::QueuedConnection); return; }
    sim::timer_add(const_cast<QObject *>(r), m);
}
void QTimer::singleShot(int msec, Qt::TimerType, const QObject *r, const char *m) { singleShot(msec, r, m); }
