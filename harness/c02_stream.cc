// C02: stream reads and writes under every kernel answer.
#include "seq.h"
#include "cppev/nio.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <system_error>
#include <memory>
using cppev::nstream;

static const char *names[] = {"read_chunk, all kernel answers", "read_all, all kernel answers", "write_chunk, all kernel answers",
    "write_all, all kernel answers", "mixed calls, kernel answers with few deviations", "interruption storms",
    "default step, large data", "real pipe", "real socket pair", "socket types: mixed calls on a TCP socket object"};
int seq_nscenarios() { return 10; }
const char *seq_scenario_name(int i) { return names[i]; }

// ---- the scripted kernel -------------------------------------------------------------------
namespace
{
bool scripted;
int sfd;
enum { FULL, ONE, ALLBUT1, INTR, AGAIN, END, RESET, PIPE, OTHER };
// facts of the call under test
std::string delivered, taken;      // bytes moved through the kernel, in order
size_t want_max;                   // bytes the caller may still ask for
int calls, last, deviations, maxdev, storm;
bool chunked, blocked;
size_t srcpos, avail;              // bytes handed out, bytes that have arrived and are not read yet
int other_errs[] = {EIO, ETIMEDOUT, EBADF, ENOBUFS};
int err_used;

char src_byte(size_t i) { static const char t[] = "\0a\xff" "bcd\0\0efghijklmnopq"; return t[i % 22] ^ (char)(i / 22 * 7); }

int answer(bool rd, size_t n)
{
    SEQ_CHECK(!blocked, "another system call after the descriptor would have blocked");
    ++calls;
    SEQ_CHECK(calls < 4000, "endless loop of system calls");
    if (storm > 0) { --storm; return INTR; }
    int menu[9], k = 0;
    bool dry = rd && !avail;
    menu[k++] = dry ? AGAIN : FULL;
    if (rd) n = std::min(n, avail);
    if (deviations < maxdev)
    {
        if (n > 1) menu[k++] = ONE;
        if (n > 2) menu[k++] = ALLBUT1;
        menu[k++] = INTR;
        if (!dry) menu[k++] = AGAIN;
        if (rd) menu[k++] = END;
        else menu[k++] = PIPE;
        menu[k++] = RESET;
        menu[k++] = OTHER;
    }
    int a = menu[seq::choose(k)];
    if (a != menu[0]) ++deviations;
    return a;
}
int fail_with(int e) { errno = e; return -1; }
ssize_t fake(bool rd, const iovec *v, int cnt)
{
    size_t n = 0;
    for (int i = 0; i < cnt; ++i) n += v[i].iov_len;
    if (chunked) SEQ_CHECK(n <= want_max, "asks the kernel to move %zu bytes although only %zu of the requested chunk are left", n, want_max);
    if (n == 0) { return 0; }
    last = answer(rd, n);
    static const char *an[] = {"all", "1 byte", "all but 1", "EINTR", "EAGAIN", "end of file", "ECONNRESET", "EPIPE", "other error"};
    seq::log("%s(%zu): %s", rd ? "read" : "write", n, an[last]);
    if (rd) n = std::min(n, avail);
    size_t m = n;
    switch (last)
    {
    case FULL: break;
    case ONE: m = 1; break;
    case ALLBUT1: m = n - 1; break;
    case INTR: return fail_with(EINTR);
    case AGAIN: blocked = true; return fail_with(EAGAIN);
    case END: return 0;
    case RESET: return fail_with(ECONNRESET);
    case PIPE: return fail_with(EPIPE);
    case OTHER: err_used = other_errs[seq::choose(2)]; return fail_with(err_used);
    }
    want_max -= m;
    if (rd) avail -= m;
    size_t left = m;
    for (int i = 0; i < cnt && left; ++i)
    {
        size_t c = std::min(left, v[i].iov_len);
        char *p = (char *)v[i].iov_base;
        for (size_t j = 0; j < c; ++j)
        {
            if (rd) { p[j] = src_byte(srcpos++); delivered += p[j]; }
            else taken += p[j];
        }
        left -= c;
    }
    return m;
}
}
extern "C" {
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
ssize_t __real_recv(int, void *, size_t, int); ssize_t __real_send(int, const void *, size_t, int);
ssize_t __real_readv(int, const iovec *, int); ssize_t __real_writev(int, const iovec *, int);
ssize_t __real_recvfrom(int, void *, size_t, int, sockaddr *, socklen_t *); ssize_t __real_sendto(int, const void *, size_t, int, const sockaddr *, socklen_t);
ssize_t __real_recvmsg(int, msghdr *, int); ssize_t __real_sendmsg(int, const msghdr *, int);
ssize_t __wrap_read(int fd, void *b, size_t n) { iovec v{b, n}; return scripted && fd == sfd ? fake(true, &v, 1) : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { iovec v{(void *)b, n}; return scripted && fd == sfd ? fake(false, &v, 1) : __real_write(fd, b, n); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { iovec v{b, n}; return scripted && fd == sfd ? fake(true, &v, 1) : __real_recv(fd, b, n, f); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { iovec v{(void *)b, n}; return scripted && fd == sfd ? fake(false, &v, 1) : __real_send(fd, b, n, f); }
ssize_t __wrap_readv(int fd, const iovec *v, int n) { return scripted && fd == sfd ? fake(true, v, n) : __real_readv(fd, v, n); }
ssize_t __wrap_writev(int fd, const iovec *v, int n) { return scripted && fd == sfd ? fake(false, v, n) : __real_writev(fd, v, n); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int f, sockaddr *a, socklen_t *l) { iovec v{b, n}; return scripted && fd == sfd ? fake(true, &v, 1) : __real_recvfrom(fd, b, n, f, a, l); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int f, const sockaddr *a, socklen_t l) { iovec v{(void *)b, n}; return scripted && fd == sfd ? fake(false, &v, 1) : __real_sendto(fd, b, n, f, a, l); }
ssize_t __wrap_recvmsg(int fd, msghdr *m, int f) { return scripted && fd == sfd ? fake(true, m->msg_iov, m->msg_iovlen) : __real_recvmsg(fd, m, f); }
ssize_t __wrap_sendmsg(int fd, const msghdr *m, int f) { return scripted && fd == sfd ? fake(false, m->msg_iov, m->msg_iovlen) : __real_sendmsg(fd, m, f); }
}

namespace
{
struct model
{
    std::string r, w;      // expected buffer contents
    bool eof = false, reset = false, eop = false;
    size_t wnext = 0;      // next byte the user puts
};
int pfd = -1;
int other_end()
{
    if (pfd < 0)
    {
        int p[2];
        if (pipe(p)) abort();
        pfd = p[0];
    }
    return dup(pfd);
}
char user_byte(size_t i) { static const char t[] = "W\0X\xfeYZ\0\0"; return t[i % 8] + (char)(i / 8); }
void put(nstream &s, model &m, int n)
{
    std::string x;
    for (int i = 0; i < n; ++i) x += user_byte(m.wnext++);
    s.wbuffer().put_string(x);
    m.w += x;
}
void check(nstream &s, model &m, const char *op)
{
    SEQ_CHECK(s.rbuffer().get_string(-1, false) == m.r, "after %s: read buffer holds %s instead of %s", op,
        seq::show(s.rbuffer().get_string(-1, false)).c_str(), seq::show(m.r).c_str());
    SEQ_CHECK(s.wbuffer().get_string(-1, false) == m.w, "after %s: write buffer holds %s instead of %s", op,
        seq::show(s.wbuffer().get_string(-1, false)).c_str(), seq::show(m.w).c_str());
    SEQ_CHECK(s.eof() == m.eof, "after %s: eof flag is %d", op, s.eof());
    SEQ_CHECK(s.is_reset() == m.reset, "after %s: reset flag is %d", op, s.is_reset());
    SEQ_CHECK(s.eop() == m.eop, "after %s: broken pipe flag is %d", op, s.eop());
    uint64_t h = seq::hash(m.r, m.eof + 2 * m.reset + 4 * m.eop);
    seq::state(seq::hash(m.w, h));
}
// one call under test; kind: 0 read_chunk 1 read_all 2 write_chunk 3 write_all
void call(nstream &s, model &m, int kind, int len)
{
    static const char *kn[] = {"read_chunk", "read_all", "write_chunk", "write_all"};
    seq::log("%s(%d)", kn[kind], len);
    delivered.clear(); taken.clear();
    calls = 0; last = FULL; blocked = false;
    bool rd = kind < 2;
    chunked = kind == 0 || kind == 2;
    want_max = rd ? len : std::min<size_t>(len, m.w.size());
    size_t req = want_max, wsize = m.w.size();
    int got = -1;
    bool thrown = false;
    scripted = true;
    try
    {
        switch (kind)
        {
        case 0: got = s.read_chunk(len); break;
        case 1: got = len ? s.read_all(len) : s.read_all(); break;
        case 2: got = s.write_chunk(len); break;
        case 3: got = len ? s.write_all(len) : s.write_all(); break;
        }
    }
    catch (const std::system_error &e)
    {
        thrown = true;
        SEQ_CHECK(calls && last == OTHER, "%s threw %s without an error of the kernel", kn[kind], e.what());
        SEQ_CHECK(e.code().value() == err_used, "%s threw error %d instead of %d", kn[kind], e.code().value(), err_used);
    }
    scripted = false;
    size_t moved = rd ? delivered.size() : taken.size();
    m.r += delivered;
    SEQ_CHECK(taken == m.w.substr(0, taken.size()), "%s handed %s to the kernel, the write buffer began with %s", kn[kind],
        seq::show(taken).c_str(), seq::show(m.w).c_str());
    m.w = m.w.substr(taken.size());
    if (calls)
    {
        if (last == END) m.eof = true;
        if (last == RESET) m.reset = true;
        if (last == PIPE && !rd) m.eop = true;
        SEQ_CHECK(thrown == (last == OTHER), "%s swallowed an error of the kernel", kn[kind]);
    }
    check(s, m, kn[kind]);
    if (!thrown)
    {
        SEQ_CHECK(got == (int)moved, "%s returned %d although %zu bytes were moved", kn[kind], got, moved);
        bool terminal = calls && (last == AGAIN || last == END || last == RESET || last == PIPE);
        if (kind == 0 || kind == 2)
            SEQ_CHECK(terminal || moved == req, "%s stopped after %zu of %zu bytes although the descriptor would not block", kn[kind], moved, req);
        if (kind == 1) SEQ_CHECK(terminal, "read_all stopped although the descriptor would not block");
        if (kind == 3) SEQ_CHECK(terminal || moved == wsize, "write_all stopped after %zu of %zu bytes although the descriptor would not block", moved, wsize);
    }
}
// read buffer and write buffer in several initial shapes
void shape(nstream &s, model &m, int wsize)
{
    switch (seq::choose(4))
    {
    case 1: s.rbuffer().put_string("xyz"); m.r = "xyz"; break;
    case 2: s.rbuffer().put_string("xyz"); s.rbuffer().consume(2); m.r = "z"; break;
    case 3: s.rbuffer().put_string("abcd"); s.rbuffer().consume(); s.wbuffer().put_string("pqr"); s.wbuffer().consume(3); break;
    }
    if (seq::choose(2))
    {
        s.wbuffer().put_string("12");
        put(s, m, wsize);
        s.wbuffer().consume(2);
    }
    else put(s, m, wsize);
}

// real kernel objects: bytes in equals bytes out
void real_run(int a, int b, bool both)
{
    // a: written, b: read
    nstream w(a), r(b);
    static const int sizes[] = {1, 1024, 1023, 3000, 70000};
    size_t nin = 0, nout = 0;
    bool closed = false;
    int depth = seq::bound(3, 5);
    auto take = [&]
    {
        std::string x = r.rbuffer().get_string();
        for (char c : x) { SEQ_CHECK(c == user_byte(nout), "byte %zu arrived wrong", nout); ++nout; }
    };
    for (int d = 0; d < depth; ++d)
    {
        int op = seq::choose(8);
        switch (op)
        {
        case 0: case 1: case 2: case 3: case 4:
        {
            if (closed) return;
            std::string x;
            for (int i = 0; i < sizes[op]; ++i) x += user_byte(nin++);
            w.wbuffer().put_string(x);
            size_t before = w.wbuffer().size();
            int n = seq::choose(2) ? w.write_all() : w.write_chunk(w.wbuffer().size());
            SEQ_CHECK(n >= 0 && n + (size_t)w.wbuffer().size() == before, "write returned %d, buffer went from %zu to %d", n, before, w.wbuffer().size());
            seq::log("write %d: %d", sizes[op], n);
            break;
        }
        case 5:
        {
            int before = r.rbuffer().size();
            int n = r.read_chunk(100);
            SEQ_CHECK(n >= 0 && n <= 100 && n == r.rbuffer().size() - before, "read_chunk returned %d", n);
            seq::log("read_chunk: %d", n);
            break;
        }
        case 6: { int n = r.read_all(); seq::log("read_all: %d", n); take(); SEQ_CHECK(closed || !r.eof(), "end of file too early"); break; }
        case 7:
            if (closed) return;
            w.close();
            closed = true;
            break;
        }
    }
    size_t pending = w.wbuffer().size();
    while (!closed && w.wbuffer().size()) { w.write_all(); r.read_all(); take(); }
    r.read_all();
    take();
    SEQ_CHECK(nout == nin - (closed ? pending : 0), "%zu bytes written, %zu arrived", nin - (closed ? pending : 0), nout);
    SEQ_CHECK(r.eof() == closed, "eof flag %d, peer closed %d", r.eof(), closed);
    seq::state(nin * 31 + nout);
}
}

void seq_run(int sc)
{
    signal(SIGPIPE, SIG_IGN);
    srcpos = avail = 0; deviations = 0; storm = 0; scripted = false;
    if (sc == 7) { int p[2]; if (pipe(p)) abort(); real_run(p[1], p[0], false); return; }
    if (sc == 8) { int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) abort(); real_run(p[0], p[1], false); return; }
    std::unique_ptr<nstream> st;
    if (sc == 9)
    {
        int fd = socket(AF_UNIX, SOCK_STREAM, 0);
        st.reset(new cppev::nsocktcp(fd, cppev::family::local));
    }
    else st.reset(new nstream(other_end()));
    nstream &s = *st;
    sfd = s.fd();
    model m;
    switch (sc)
    {
    case 0: case 1: case 2: case 3:
    {
        maxdev = seq::bound(3, 5);
        shape(s, m, sc >= 2 ? seq::choose(6) : 0);
        int len = sc == 0 || sc == 2 ? seq::choose(7) : 1 + seq::choose(4);
        if (sc < 2) avail = seq::choose(6);
        call(s, m, sc, len);
        if (sc < 2) avail += seq::choose(2);
        call(s, m, sc, len ? len : 1);
        break;
    }
    case 4: case 9:
    {
        maxdev = sc == 4 ? seq::bound(2, 3) : 2;
        int depth = seq::bound(3, 4);
        put(s, m, 3);
        avail = 3;
        for (int d = 0; d < depth; ++d)
        {
            int op = seq::choose(6);
            switch (op)
            {
            case 0: call(s, m, 0, 2); break;
            case 1: call(s, m, 1, 2); break;
            case 2: call(s, m, 2, 2); break;
            case 3: call(s, m, 3, 2); break;
            case 4: put(s, m, 2); avail += 3; seq::log("put 2, 3 bytes arrive"); break;
            case 5:
            {
                int n = std::min(1, s.rbuffer().size());
                s.rbuffer().consume(n); m.r = m.r.substr(n);
                seq::log("consume %d", n);
                break;
            }
            }
            check(s, m, "user operation");
        }
        break;
    }
    case 5:
    {
        static const int storms[] = {1, 10, 1000};
        storm = storms[seq::choose(3)];
        maxdev = 1;
        put(s, m, 5);
        avail = 5;
        call(s, m, seq::choose(4), 1 + seq::choose(3));
        break;
    }
    case 6:
    {
        maxdev = seq::bound(3, 4);
        static const int sizes[] = {1023, 1024, 1025, 2048, 3000};
        int kind = 1 + 2 * seq::choose(2);
        if (kind == 3) put(s, m, sizes[seq::choose(5)]);
        else avail = sizes[seq::choose(5)];
        call(s, m, kind, seq::choose(2) ? 0 : 700);
        call(s, m, kind, 0);
        break;
    }
    }
}
