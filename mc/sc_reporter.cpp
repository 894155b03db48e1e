// C19: the status report file.  The real reporter writes real files in a scratch directory; every
// file system call it makes is a scheduling point, a fault point and a crash point.
#include "sim.hpp"
#include "wsrep/reporter.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace
{
typedef enum wsrep::server_state::state SState;
typedef wsrep::server_state SS;

// ---- an independent JSON parser ------------------------------------------------------------
struct J
{
    enum K { null, boolean, number, string, array, object } k = null;
    double num = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
    const J* get(const char* n) const
    {
        for (auto& e : o) if (e.first == n) return &e.second;
        return nullptr;
    }
    bool operator==(const J& x) const
    {
        return k == x.k && num == x.num && s == x.s && a == x.a && o == x.o;
    }
};
struct Parser
{
    const std::string& t;
    size_t p = 0;
    std::string err;
    explicit Parser(const std::string& s) : t(s) {}
    bool bad(const char* m)
    {
        if (err.empty()) err = std::string(m) + " at byte " + std::to_string(p);
        return false;
    }
    void ws() { while (p < t.size() && strchr(" \t\r\n", t[p]) && t[p]) ++p; }
    bool lit(const char* w)
    {
        size_t n = strlen(w);
        if (t.compare(p, n, w)) return bad("bad literal");
        p += n;
        return true;
    }
    bool str(std::string& out)
    {
        if (p >= t.size() || t[p] != '"') return bad("string expected");
        for (++p; p < t.size(); ++p)
        {
            unsigned char c = (unsigned char)t[p];
            if (c == '"') { ++p; return true; }
            if (c < 0x20) return bad("raw control character in string");
            if (c != '\\') { out += (char)c; continue; }
            if (++p >= t.size()) break;
            switch (t[p])
            {
            case '"': out += '"'; break;
            case '\\': out += '\\'; break;
            case '/': out += '/'; break;
            case 'b': out += '\b'; break;
            case 'f': out += '\f'; break;
            case 'n': out += '\n'; break;
            case 'r': out += '\r'; break;
            case 't': out += '\t'; break;
            case 'u':
            {
                unsigned v = 0;
                for (int i = 0; i < 4; ++i)
                {
                    if (++p >= t.size() || !isxdigit((unsigned char)t[p])) return bad("bad \\u");
                    v = v * 16 + (unsigned)(isdigit((unsigned char)t[p]) ? t[p] - '0' : (t[p] | 32) - 'a' + 10);
                }
                if (v < 0x80) out += (char)v;
                else if (v < 0x800) { out += (char)(0xc0 | v >> 6); out += (char)(0x80 | (v & 63)); }
                else { out += (char)(0xe0 | v >> 12); out += (char)(0x80 | ((v >> 6) & 63)); out += (char)(0x80 | (v & 63)); }
                break;
            }
            default: return bad("bad escape");
            }
        }
        return bad("unterminated string");
    }
    bool num(double& out)
    {
        size_t b = p;
        auto digits = [&] { size_t q = p; while (p < t.size() && isdigit((unsigned char)t[p])) ++p; return p > q; };
        if (p < t.size() && t[p] == '-') ++p;
        if (p < t.size() && t[p] == '0') ++p;
        else if (!digits()) return bad("bad number");
        if (p < t.size() && t[p] == '.') { ++p; if (!digits()) return bad("bad fraction"); }
        if (p < t.size() && (t[p] | 32) == 'e')
        {
            ++p;
            if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p;
            if (!digits()) return bad("bad exponent");
        }
        out = strtod(t.substr(b, p - b).c_str(), nullptr);
        return true;
    }
    bool val(J& j, int depth = 0)
    {
        if (depth > 20) return bad("too deep");
        ws();
        if (p >= t.size()) return bad("unexpected end");
        char c = t[p];
        if (c == '"') { j.k = J::string; return str(j.s); }
        if (c == '{')
        {
            j.k = J::object;
            ++p; ws();
            if (p < t.size() && t[p] == '}') { ++p; return true; }
            for (;;)
            {
                std::string n; J v;
                ws();
                if (!str(n)) return false;
                ws();
                if (p >= t.size() || t[p] != ':') return bad("':' expected");
                ++p;
                if (!val(v, depth + 1)) return false;
                j.o.push_back({n, v});
                ws();
                if (p < t.size() && t[p] == ',') { ++p; continue; }
                if (p < t.size() && t[p] == '}') { ++p; return true; }
                return bad("',' or '}' expected");
            }
        }
        if (c == '[')
        {
            j.k = J::array;
            ++p; ws();
            if (p < t.size() && t[p] == ']') { ++p; return true; }
            for (;;)
            {
                J v;
                if (!val(v, depth + 1)) return false;
                j.a.push_back(v);
                ws();
                if (p < t.size() && t[p] == ',') { ++p; continue; }
                if (p < t.size() && t[p] == ']') { ++p; return true; }
                return bad("',' or ']' expected");
            }
        }
        if (c == 't') { j.k = J::boolean; j.num = 1; return lit("true"); }
        if (c == 'f') { j.k = J::boolean; return lit("false"); }
        if (c == 'n') return lit("null");
        j.k = J::number;
        return num(j.num);
    }
    bool doc(J& j)
    {
        if (!val(j)) return false;
        ws();
        return p == t.size() || bad("trailing text");
    }
};
J parse_ok(const std::string& s)
{
    Parser p(s); J j;
    if (!p.doc(j)) vf::fail("harness: %s", p.err.c_str());
    return j;
}

// ---- reference model -------------------------------------------------------------------------
struct Msg { double ts; std::string text; }; // ts < 0: time of the call
struct Model
{
    size_t max = 3;
    std::string state = "DISCONNECTED", comment = "Disconnected";
    J progress;
    std::deque<Msg> err, warn, events;
    bool init = false, joining = false;
    SState server = SS::s_disconnected;
    Model() { progress = prog(-1); }
    static J prog(int total)
    {
        return parse_ok("{\"from\":-1,\"to\":-1,\"total\":" + std::to_string(total) + ",\"done\":" +
                        std::to_string(total) + ",\"indefinite\":-1}");
    }
    void set(const char* s, const char* c)
    {
        if (state == s && comment == c) return;
        state = s; comment = c;
        progress = prog(state == "SYNCED" ? 0 : -1);
    }
    void report_state(SState s)
    {
        server = s;
        switch (s)
        {
        case SS::s_disconnected: init = joining = false; set("DISCONNECTED", "Disconnected"); break;
        case SS::s_initializing:
            if (joining) set("JOINING", "Initializing"); else set("DISCONNECTED", "Initializing");
            break;
        case SS::s_initialized:
            init = true;
            if (joining) set("JOINING", "Receiving IST"); else set("DISCONNECTED", "Connecting");
            break;
        case SS::s_connected: joining = false; set("CONNECTED", "Waiting"); break;
        case SS::s_joiner:
            joining = true;
            if (init) set("JOINING", "Receiving state"); else set("JOINING", "Receiving SST");
            break;
        case SS::s_joined: joining = false; set("JOINED", "Syncing"); break;
        case SS::s_donor: set("DONOR", "Donating SST"); break;
        case SS::s_synced: set("SYNCED", "Operational"); break;
        case SS::s_disconnecting: joining = false; set("DISCONNECTING", "Disconnecting"); break;
        default: break;
        }
    }
    // Server states that can follow.
    std::vector<SState> next() const
    {
        static const char allowed[9][10] = {
            "010100000", "101000001", "100101001", "100110011", "110001001",
            "100100111", "100101001", "100101101", "100000000"};
        std::vector<SState> r;
        for (int i = 0; i < 9; ++i)
        {
            if (allowed[(int)server][i] == '0') continue;
            if (i == SS::s_initializing && init) continue; // initializes once per connection
            if (i == SS::s_joined && server == SS::s_initialized && !joining) continue;
            r.push_back((SState)i);
        }
        if (server != SS::s_initializing && server != SS::s_initialized) r.push_back(server); // reported again
        return r;
    }
    void add(std::deque<Msg>& q, const Msg& m, bool distinct)
    {
        if (distinct && !q.empty() && q.back().text == m.text) return;
        q.push_back(m);
        while (q.size() > max) q.pop_front();
    }
    static bool same(const std::deque<Msg>& q, const J* a, const char* field, bool event, std::string& why)
    {
        if (!a || a->k != J::array) { why = "array missing"; return false; }
        if (a->a.size() != q.size())
        {
            why = std::to_string(a->a.size()) + " entries instead of " + std::to_string(q.size());
            return false;
        }
        for (size_t i = 0; i < q.size(); ++i)
        {
            const J* m = a->a[i].get(field);
            const J* t = a->a[i].get("timestamp");
            if (!m || !t || t->k != J::number) { why = "incomplete entry"; return false; }
            if (event ? !(*m == parse_ok(q[i].text)) : m->k != J::string || m->s != q[i].text)
            {
                why = "entry " + std::to_string(i) + " has another text";
                return false;
            }
            if (q[i].ts >= 0 && t->num != q[i].ts) { why = "entry has another time"; return false; }
        }
        return true;
    }
    bool matches(const J& d, std::string& why) const
    {
        const J* st = d.get("status");
        if (!st) { why = "no status"; return false; }
        const J *s = st->get("state"), *c = st->get("comment"), *p = st->get("progress");
        if (!s || !c || !p) { why = "incomplete status"; return false; }
        if (s->s != state || c->s != comment)
        {
            why = "shows " + s->s + "/" + c->s + " instead of " + state + "/" + comment;
            return false;
        }
        if (!(*p == progress)) { why = "other progress"; return false; }
        std::string w;
        if (!same(err, d.get("errors"), "msg", false, w)) { why = "errors: " + w; return false; }
        if (!same(warn, d.get("warnings"), "msg", false, w)) { why = "warnings: " + w; return false; }
        if (!same(events, d.get("events"), "event", true, w)) { why = "events: " + w; return false; }
        return true;
    }
};

struct Op
{
    enum K { state, progress, event, log } k;
    SState s;
    std::string text;
    bool warning = false;
    double ts = 0;
    void model(Model& m) const
    {
        switch (k)
        {
        case state: m.report_state(s); break;
        case progress: if (m.state != "SYNCED") m.progress = parse_ok(text); break;
        case event: m.add(m.events, {-1, text}, false); break;
        case log: m.add(warning ? m.warn : m.err, {ts > 0 ? ts : -1, text}, true); break;
        }
    }
    void run(wsrep::reporter& r) const
    {
        switch (k)
        {
        case state: r.report_state(s); break;
        case progress: r.report_progress(text); break;
        case event: r.report_event(text); break;
        case log:
            if (ts > 0) r.report_log_msg(warning ? wsrep::reporter::warning : wsrep::reporter::error, text, ts);
            else r.report_log_msg(warning ? wsrep::reporter::warning : wsrep::reporter::error, text);
            break;
        }
    }
    std::string name() const
    {
        static const char* n[] = {"state ", "progress ", "event ", "log "};
        return n[k] + (k == state ? std::string(wsrep::to_c_string(s)) : text);
    }
};
Op op_state(SState s) { Op o{}; o.k = Op::state; o.s = s; return o; }
Op op_text(Op::K k, const std::string& t) { Op o{}; o.k = k; o.text = t; return o; }
Op op_log(bool w, const std::string& t, double ts = 0)
{ Op o{}; o.k = Op::log; o.warning = w; o.text = t; o.ts = ts; return o; }
const char* PROG_A = "{ \"from\": 3, \"to\": 4, \"total\": 100, \"done\": 7, \"indefinite\": -1 }";
const char* PROG_B = "{ \"from\": 3, \"to\": 4, \"total\": 100, \"done\": 100, \"indefinite\": -1 }";
const char* EV_A = "{\"status\": \"SUCCESS\", \"message\": \"a \\\"b\\\"\"}";
const char* EV_B = "{\"status\": \"WARNING\", \"message\": \"\"}";

// ---- the file system --------------------------------------------------------------------------
struct Fs
{
    bool on = false, faults = false, crash = false;
    std::string dir, file;
    std::vector<Model> ok;      // documents the file may show now
    bool absent_ok = true;
    bool crashed = false;
    int failed = 0;
    std::set<int> fds;
    int calls = 0;
    std::string slurp(bool& present) const
    {
        present = false;
        int fd = (int)syscall(SYS_openat, AT_FDCWD, file.c_str(), O_RDONLY, 0);
        std::string s;
        if (fd < 0) return s;
        present = true;
        char buf[4096];
        for (;;)
        {
            long n = syscall(SYS_read, fd, buf, sizeof(buf));
            if (n <= 0) break;
            s.append(buf, (size_t)n);
        }
        syscall(SYS_close, fd);
        return s;
    }
    std::vector<std::string> others() const
    {
        std::vector<std::string> r;
        DIR* d = opendir(dir.c_str());
        if (!d) return r;
        while (dirent* e = readdir(d))
        {
            std::string n = e->d_name;
            if (n != "." && n != ".." && dir + "/" + n != file) r.push_back(n);
        }
        closedir(d);
        return r;
    }
    std::string last_text;
    void check(const char* when, const std::vector<Model>& allowed, bool absent, bool quick = false)
    {
        bool present;
        const std::string t = slurp(present);
        if (!present)
        {
            VF_CHECK(absent, "%s: the report file has disappeared", when);
            return;
        }
        absent_ok = false; // once there, it stays
        if (quick && t == last_text) return; // judged before
        last_text = t;
        Parser p(t); J d;
        VF_CHECK(p.doc(d), "%s: the report file is not a JSON document: %s (%zu bytes)", when, p.err.c_str(), t.size());
        std::string why, first;
        for (auto& m : allowed)
        {
            if (m.matches(d, why)) { when = nullptr; break; }
            if (first.empty()) first = why;
        }
        if (when) vf::fail("%s: the report file %s", when, why.c_str());
        // date and timestamp name the same moment
        const J *ts = d.get("timestamp"), *da = d.get("date");
        VF_CHECK(ts && da && ts->k == J::number && da->k == J::string, "document without date");
        time_t tt = (time_t)floor(ts->num);
        struct tm tm; localtime_r(&tt, &tm);
        char buf[64];
        snprintf(buf, sizeof(buf), "%04d-%02d-%02d %02d:%02d:%02d.", tm.tm_year + 1900, tm.tm_mon + 1,
                 tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
        VF_CHECK(da->s.compare(0, strlen(buf), buf) == 0 && da->s.size() == strlen(buf) + 3,
                 "date %s does not match the time stamp %f", da->s.c_str(), ts->num);
    }
    void step(const char* name)
    {
        on = false;
        ++calls;
        vf::point(name);
        check(name, ok, absent_ok, true);
        on = true;
    }
    // Crash of the process: nothing of it runs any more.
    void maybe_crash(const char* name)
    {
        if (!crash) return;
        on = false;
        const int c = vf::env(2, name);
        on = true;
        if (c) die();
    }
    void die()
    {
        on = false;
        crashed = true;
        vf::trace("the process dies here");
        vf::block_until([] { return false; }, "dead");
    }
    bool fault(const char* name)
    {
        if (!faults) return false;
        on = false;
        const int c = vf::env(2, name);
        on = true;
        if (c) ++failed;
        return c != 0;
    }
    int nfault(int n, const char* name)
    {
        if (!faults) return 0;
        on = false;
        const int c = vf::env(n, name);
        on = true;
        if (c) ++failed;
        return c;
    }
};
Fs fs;

bool inside(const char* p) { return fs.on && p && !strncmp(p, fs.dir.c_str(), fs.dir.size()); }
int raw_open(const char* p, int fl, int mode) { return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode); }

int fs_open(const char* path, int fl, int mode)
{
    if (!inside(path)) return raw_open(path, fl, mode);
    fs.step("open");
    fs.maybe_crash("crash at open");
    const int f = fs.nfault(3, "open");
    if (f) { errno = f == 1 ? ENOSPC : EMFILE; return -1; }
    int fd = raw_open(path, fl, mode);
    if (fd >= 0) fs.fds.insert(fd);
    return fd;
}

long fs_write(int fd, const void* buf, size_t n)
{
    if (!fs.on || !fs.fds.count(fd)) return syscall(SYS_write, fd, buf, n);
    fs.step("write");
    if (fs.crash)
    {
        fs.on = false;
        const int c = vf::env(4, "crash at write");
        fs.on = true;
        if (c)
        {
            const size_t part = c == 1 ? 0 : c == 2 ? n / 2 : n;
            if (part) syscall(SYS_write, fd, buf, part);
            fs.die();
        }
    }
    switch (fs.nfault(6, "write"))
    {
    case 1: errno = ENOSPC; return -1;
    case 2: errno = EIO; return -1;
    case 3: errno = EINTR; return -1;
    case 4: return syscall(SYS_write, fd, buf, n > 1 ? n / 2 : n);
    case 5: return n > 1 ? syscall(SYS_write, fd, buf, n - 1) : 0;
    }
    return syscall(SYS_write, fd, buf, n);
}
}

extern "C"
{
int mkostemps(char* t, int suffix, int flags)
{
    const size_t l = strlen(t);
    if (l < 6 + (size_t)suffix || memcmp(t + l - suffix - 6, "XXXXXX", 6)) { errno = EINVAL; return -1; }
    static unsigned long counter;
    char* x = t + l - suffix - 6;
    if (inside(t))
    {
        fs.step("mkstemp");
        fs.maybe_crash("crash at mkstemp");
        const int f = fs.nfault(3, "mkstemp");
        if (f) { errno = f == 1 ? ENOSPC : EMFILE; return -1; }
    }
    for (int i = 0; i < 1000; ++i)
    {
        unsigned long v = ++counter;
        for (int j = 0; j < 6; ++j) { x[j] = (char)('a' + v % 26); v /= 26; }
        int fd = raw_open(t, O_RDWR | O_CREAT | O_EXCL | flags, 0600);
        if (fd >= 0) { if (fs.on) fs.fds.insert(fd); return fd; }
        if (errno != EEXIST) return -1;
    }
    return -1;
}
int mkstemp(char* t) { return mkostemps(t, 0, 0); }
int mkostemp(char* t, int flags) { return mkostemps(t, 0, flags); }
int mkstemps(char* t, int s) { return mkostemps(t, s, 0); }
int open(const char* p, int fl, ...)
{
    va_list a; va_start(a, fl); int mode = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a);
    return fs_open(p, fl, mode);
}
int creat(const char* p, mode_t m) { return fs_open(p, O_WRONLY | O_CREAT | O_TRUNC, (int)m); }
ssize_t write(int fd, const void* b, size_t n) { return fs_write(fd, b, n); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
    if (fs.on && fs.fds.count(fd)) { lseek(fd, o, SEEK_SET); return fs_write(fd, b, n); }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (!fs.on || !fs.fds.count(fd)) return syscall(SYS_writev, fd, v, c);
    std::string s;
    for (int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len);
    return fs_write(fd, s.data(), s.size());
}
int fsync(int fd)
{
    if (fs.on && fs.fds.count(fd))
    {
        fs.step("fsync");
        fs.maybe_crash("crash at fsync");
        if (fs.fault("fsync")) { errno = EIO; return -1; }
    }
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int close(int fd)
{
    if (fs.on && fs.fds.count(fd))
    {
        fs.step("close");
        fs.maybe_crash("crash at close");
        fs.fds.erase(fd);
        const bool f = fs.fault("close");
        const int r = (int)syscall(SYS_close, fd); // closed even if close() fails
        if (f) { errno = EIO; return -1; }
        return r;
    }
    return (int)syscall(SYS_close, fd);
}
int rename(const char* a, const char* b) noexcept(true)
{
    if (inside(b))
    {
        fs.step("rename");
        fs.maybe_crash("crash at rename");
        if (fs.fault("rename")) { errno = EACCES; return -1; }
        const int r = (int)syscall(SYS_rename, a, b);
        const int e = errno;
        fs.step("renamed");
        fs.maybe_crash("crash after rename");
        errno = e;
        return r;
    }
    return (int)syscall(SYS_rename, a, b);
}
int unlink(const char* p) noexcept(true)
{
    if (inside(p))
    {
        fs.step("unlink");
        fs.maybe_crash("crash at unlink");
        const int r = (int)syscall(SYS_unlink, p);
        const int e = errno;
        fs.step("unlinked");
        errno = e;
        return r;
    }
    return (int)syscall(SYS_unlink, p);
}
int remove(const char* p) noexcept(true) { return unlink(p); }
}

namespace
{
void fresh_dir()
{
    fs = Fs();
    fs.dir = "rep." + std::to_string(getpid());
    fs.file = fs.dir + "/status.json";
    syscall(SYS_mkdir, fs.dir.c_str(), 0700);
    for (auto& n : fs.others()) syscall(SYS_unlink, (fs.dir + "/" + n).c_str());
    syscall(SYS_unlink, fs.file.c_str());
    vf::vtime_advance(1700000000123456789ULL);
}
struct Quiet // no clutter from the reporter's own error messages
{
    std::streambuf* b;
    Quiet() : b(std::cerr.rdbuf(nullptr)) {}
    ~Quiet() { std::cerr.rdbuf(b); }
};

// One reporter, calls one after another.
struct Run
{
    std::unique_ptr<sim::SMutex> mutex{new sim::SMutex("reporter")};
    Model model;        // after the calls so far
    std::vector<Model> disk; // what the file may show
    std::unique_ptr<wsrep::reporter> rep;
    bool first = true;

    void act(const std::string& name, const Model& after, bool must_write, const std::function<void()>& fn)
    {
        fs.ok = disk;
        fs.ok.push_back(after);
        fs.failed = 0;
        fs.last_text.clear();
        fs.calls = 0;
        vf::trace("%s", name.c_str());
        fs.on = true;
        fn();
        fs.on = false;
        model = after;
        if (!fs.failed)
        {
            // Whether the call had to write is seen from the document.
            std::vector<Model> want{after};
            if (must_write) { disk = want; fs.check(name.c_str(), disk, false); }
            else { disk.push_back(after); fs.check(name.c_str(), disk, fs.absent_ok); }
        }
        else
        {
            fs.check(name.c_str(), fs.ok, fs.absent_ok);
            disk.push_back(after); // an old document may stay
        }
        const auto tmp = fs.others();
        VF_CHECK(tmp.empty(), "%s: temporary file %s left behind", name.c_str(), tmp.empty() ? "" : tmp[0].c_str());
        VF_CHECK(fs.fds.empty(), "%s: file descriptor left open", name.c_str());
    }
    void start(size_t max)
    {
        model = Model();
        model.max = max;
        act("start", model, true,
            [&] { rep.reset(new wsrep::reporter(*mutex, fs.file, max)); });
    }
    void op(const Op& o)
    {
        vf::vtime_advance(250000000);
        Model a = model;
        o.model(a);
        // A call that changes nothing need not write, unless an earlier one failed to.
        std::string w;
        bool changes = o.k == Op::event;
        if (o.k == Op::log)
        {
            const std::deque<Msg>& q = o.warning ? model.warn : model.err;
            changes = a.max == 0 || q.empty() || q.back().text != o.text;
        }
        if (o.k == Op::state) changes = a.state != model.state || a.comment != model.comment;
        if (o.k == Op::progress) changes = !(a.progress == model.progress);
        act(o.name(), a, changes, [&] { o.run(*rep); });
        vf::state_hash(vf::hash_str(o.name() + a.state + a.comment + std::to_string(a.err.size() * 49 + a.warn.size() * 7 + a.events.size())));
    }
    Op choose_op()
    {
        switch (vf::pick(4, "call"))
        {
        case 0:
        {
            auto n = model.next();
            return op_state(n[(size_t)vf::pick((int)n.size(), "state")]);
        }
        case 1: return op_text(Op::progress, vf::pick(2, "progress") ? PROG_B : PROG_A);
        case 2: return op_text(Op::event, vf::pick(2, "event") ? EV_B : EV_A);
        default:
        {
            const int i = vf::pick(3, "log");
            return i == 0 ? op_log(false, "plain error") : i == 1 ? op_log(true, "\"w\"\n\\")
                                                         : op_log(false, "plain error", 1500000000.5);
        }
        }
    }
};

void states(int depth)
{
    Quiet q;
    fresh_dir();
    Run r;
    r.start(2);
    // The walk through server states; in between anything else may be reported.
    for (int i = 0; i < depth; ++i)
    {
        auto n = r.model.next();
        const int k = vf::pick((int)n.size() + 2, "step");
        if (k < (int)n.size()) r.op(op_state(n[(size_t)k]));
        else r.op(op_text(Op::progress, k == (int)n.size() ? PROG_A : PROG_B));
    }
    vf::outcome(r.model.state);
}
vf::Reg s1("reporter.states", {"C19"}, {{0, 0}}, {{0, 0}}, [] { states(6); });
vf::Reg s2("reporter.states_deep", {"C19"}, {}, {{0, 0}}, [] { states(8); });

// Bounded lists of distinct messages.
void messages(int depth)
{
    Quiet q;
    fresh_dir();
    Run r;
    r.start((size_t)vf::pick(4, "maximum"));
    static const std::vector<std::string> texts{"a", "\"", "\\\"", ""};
    for (int i = 0; i < depth; ++i)
    {
        const int k = vf::pick((int)texts.size() * 2 + 2, "message");
        if (k < (int)texts.size()) r.op(op_log(false, texts[(size_t)k]));
        else if (k < (int)texts.size() * 2) r.op(op_log(true, texts[(size_t)k - texts.size()], 1500000000.25 + i));
        else r.op(op_text(Op::event, k & 1 ? EV_A : EV_B));
    }
    vf::outcome(std::to_string(r.model.err.size()) + std::to_string(r.model.warn.size()));
}
vf::Reg s3("reporter.messages", {"C19"}, {{0, 0}}, {{0, 0}}, [] { messages(4); });
vf::Reg s4("reporter.messages_deep", {"C19"}, {}, {{0, 0}}, [] { messages(5); });

// Every byte, every pair of critical bytes, in messages of both kinds.
void text()
{
    Quiet q;
    fresh_dir();
    Run r;
    r.start(2);
    static const std::string crit("\"\\/\b\f\n\r\t\0\x01\x1f\x7f\x80\xc3\xa9\xff u{}[],:0", 25);
    std::string t;
    const int first = vf::pick(256 + 1, "first byte");
    if (first < 256)
    {
        t += (char)first;
        if (crit.find((char)first) != std::string::npos)
        {
            const int second = vf::pick((int)crit.size() + 1, "second byte");
            if (second < (int)crit.size())
            {
                t += crit[(size_t)second];
                const int third = vf::pick((int)crit.size() + 1, "third byte");
                if (third < (int)crit.size()) t += crit[(size_t)third];
            }
        }
    }
    r.op(op_log(false, t));
    r.op(op_log(true, "x" + t + "y"));
}
vf::Reg s5("reporter.text", {"C19"}, {{0, 0}}, {{0, 0}}, text);

// Long texts: a document larger than any buffer on the way.
void big()
{
    Quiet q;
    fresh_dir();
    fs.faults = true;
    Run r;
    r.start(3);
    static const size_t len[] = {4000, 8191, 65536, 1 << 20};
    r.op(op_log(false, std::string(len[vf::pick(4, "length")], 'x')));
    r.op(op_log(true, "small"));
}
vf::Reg s6("reporter.big", {"C19"}, {{0, 1}}, {{0, 2}}, big);

// Every file system call may fail or be cut short.
void faults(int depth)
{
    Quiet q;
    fresh_dir();
    fs.faults = true;
    Run r;
    r.start(2);
    for (int i = 0; i < depth; ++i) r.op(r.choose_op());
    // and once the trouble is over the file is current again
    fs.faults = false;
    r.op(op_log(true, "over"));
    vf::outcome(r.model.state);
}
vf::Reg s7("reporter.faults", {"C19"}, {{0, 1}, {0, 2}}, {{0, 2}, {0, 3}}, [] { faults(2); });
vf::Reg s8("reporter.faults_deep", {"C19"}, {}, {{0, 1}, {0, 2}}, [] { faults(3); });

// The process may die at every file system call; another one takes over.
void crash(int depth)
{
    Quiet q;
    fresh_dir();
    fs.crash = fs.faults = true;
    bool done = false;
    Run* r = new Run; // belongs to the dead process
    vf::spawn("victim", [&, r] {
        r->start(2);
        for (int i = 0; i < depth; ++i) r->op(r->choose_op());
        done = true;
    }, true);
    vf::block_until([&] { return done || fs.crashed; }, "end of the first process");
    fs.on = false;
    fs.check("after the crash", fs.ok.empty() ? std::vector<Model>{Model()} : fs.ok, fs.absent_ok);
    vf::outcome(fs.crashed ? "crashed" : "ran");
    const size_t left = fs.others().size();
    VF_CHECK(left <= 1, "%zu temporary files left behind by a crash", left);
    // next process
    bool present; fs.slurp(present);
    fs.crash = fs.faults = false;
    fs.fds.clear();
    std::set<std::string> old;
    for (auto& n : fs.others()) old.insert(n);
    for (auto& n : old) syscall(SYS_unlink, (fs.dir + "/" + n).c_str()); // of the dead process
    Run n;
    if (present) n.disk = fs.ok;
    n.start(2);
    n.op(op_log(false, "next"));
    if (done) delete r;
}
vf::Reg s9("reporter.crash", {"C19"}, {{0, 1}, {0, 2}}, {{0, 2}, {0, 3}}, [] { crash(2); });

// Threads reporting at the same time, with a reader looking at every step.
void threads(int per_thread)
{
    Quiet q;
    fresh_dir();
    std::vector<std::vector<Op>> th(2);
    const int variant = vf::pick(3, "calls");
    th[0] = {op_log(false, "e1"), op_state(SS::s_connected)};
    th[1] = {op_text(Op::event, EV_A), op_log(true, "w1")};
    if (variant == 1) th[1] = {op_log(false, "e2"), op_text(Op::progress, PROG_A)};
    if (variant == 2) { th[0] = {op_log(false, "same"), op_log(false, "other")}; th[1] = {op_log(false, "same"), op_log(false, "third")}; }
    for (auto& t : th) t.resize((size_t)per_thread, op_text(Op::event, EV_B));
    // all states any order of the calls can lead to
    std::vector<Model> all, last;
    std::function<void(Model, size_t, size_t)> walk = [&](Model m, size_t i, size_t j) {
        all.push_back(m);
        if (i == th[0].size() && j == th[1].size()) { last.push_back(m); return; }
        if (i < th[0].size()) { Model n = m; th[0][i].model(n); walk(n, i + 1, j); }
        if (j < th[1].size()) { Model n = m; th[1][j].model(n); walk(n, i, j + 1); }
    };
    Model m0; m0.max = 2;
    walk(m0, 0, 0);
    sim::SMutex mutex("reporter");
    fs.ok = all;
    fs.on = true;
    {
        wsrep::reporter rep(mutex, fs.file, 2);
        fs.absent_ok = false;
        int ids[2];
        for (int t = 0; t < 2; ++t)
            ids[t] = vf::spawn(t ? "reporter 2" : "reporter 1", [&, t] { for (auto& o : th[(size_t)t]) o.run(rep); });
        vf::join(ids[0]); vf::join(ids[1]);
    }
    fs.on = false;
    fs.check("at the end", last, false);
    VF_CHECK(fs.others().empty(), "temporary file left behind");
    VF_CHECK(fs.fds.empty(), "file descriptor left open");
}
vf::Reg s10("reporter.threads", {"C19"}, {{2, 0}}, {{3, 0}}, [] { threads(2); });
}
