// C17: byte streams over the loopback network between the library and itself, and between it and raw sockets.
#include "plyvf.h"
#include "fsvf.h"
#include <ply-runtime/network/Socket.h>
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <sys/resource.h>
using namespace ply;
using vf::Str;
namespace fs = vf::fs;

static int family = AF_INET; // what raw peers use
static bool v6 = false;
static void initSockets(bool wantV6) {
    static bool done = false;
    if (done)
        return;
    done = true;
    Socket::initialize(wantV6 ? IPAddress::V6 : IPAddress::V4);
    if (!wantV6)
        return;
    int s = socket(AF_INET6, SOCK_STREAM, 0);
    struct sockaddr_in6 a = {};
    a.sin6_family = AF_INET6;
    a.sin6_addr = in6addr_loopback;
    v6 = s >= 0 && bind(s, (struct sockaddr*) &a, sizeof a) == 0;
    if (s >= 0)
        close(s);
    if (v6)
        family = AF_INET6;
}
static u16 portOf(int fd, bool peer = false) {
    struct sockaddr_in6 a = {};
    socklen_t n = sizeof a;
    if ((peer ? getpeername : getsockname)(fd, (struct sockaddr*) &a, &n) != 0)
        return 0;
    return ntohs(a.sin6_port);
}
static int rawConnect(u16 port) {
    int s = socket(family, SOCK_STREAM | SOCK_CLOEXEC, 0);
    struct sockaddr_in6 a = {};
    socklen_t n = sizeof a;
    if (family == AF_INET6) {
        a.sin6_family = AF_INET6;
        a.sin6_port = htons(port);
        a.sin6_addr = in6addr_loopback;
    } else {
        struct sockaddr_in* b = (struct sockaddr_in*) &a;
        b->sin_family = AF_INET;
        b->sin_port = htons(port);
        b->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        n = sizeof *b;
    }
    if (connect(s, (struct sockaddr*) &a, n) != 0) {
        close(s);
        return -1;
    }
    return s;
}
static int rawListen(u16* port) {
    int s = socket(family, SOCK_STREAM | SOCK_CLOEXEC, 0);
    struct sockaddr_in6 a = {};
    socklen_t n = sizeof a;
    if (family == AF_INET6) {
        a.sin6_family = AF_INET6;
        a.sin6_addr = in6addr_loopback;
    } else {
        ((struct sockaddr_in*) &a)->sin_family = AF_INET;
        ((struct sockaddr_in*) &a)->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        n = sizeof(struct sockaddr_in);
    }
    if (bind(s, (struct sockaddr*) &a, n) != 0 || listen(s, 8) != 0)
        abort();
    *port = portOf(s);
    return s;
}
static IPAddress loopback(vf::Rng& r) {
    return IPAddress::localHost(v6 && r.chance(2, 3) ? IPAddress::V6 : IPAddress::V4);
}
static bool isLoopback(const IPAddress& a) {
    static const unsigned char m4[16] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 127, 0, 0, 1};
    return memcmp(&a, &in6addr_loopback, 16) == 0 || memcmp(&a, m4, 16) == 0;
}
static Str payload(vf::Rng& r) {
    u32 n = r.chance(1, 4) ? r.pick({0u, 1u, 65535u, 65536u, 300000u, 3000000u}) : r.below(r.chance(1, 3) ? 100000 : 500);
    Str s(n, 0);
    u64 x = r.u64() | 1;
    for (char& c : s) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        c = (char) (x >> 56);
    }
    return s;
}

struct End { // one end of a connection: what it sends and what it got
    TCPConnection* conn = nullptr; // null: raw
    int fd = -1;
    Str send, got;
    uint64_t seed = 0;
    bool useStream = false, sent = true, more = false, shutWhenSent = true;
    u32 chunk = 1000;
};
static void* sendThread(void* p) {
    End* e = (End*) p;
    vf::Rng r(e->seed);
    if (e->conn && e->useStream) {
        OutStream outs = e->conn->createOutStream();
        size_t at = 0;
        while (at < e->send.size()) {
            size_t n = std::min(e->send.size() - at, (size_t) 1 + r.below(e->chunk));
            outs << vf::view(e->send.substr(at, n));
            at += n;
            if (r.chance(1, 8))
                outs.flush();
        }
        outs.flush();
    } else {
        size_t at = 0;
        while (at < e->send.size() && e->sent) {
            size_t n = std::min(e->send.size() - at, (size_t) 1 + r.below(e->chunk));
            if (e->conn)
                e->sent = e->conn->outPipe.write(vf::view(e->send.substr(at, n)));
            else {
                ssize_t k = ::send(e->fd, e->send.data() + at, n, MSG_NOSIGNAL);
                if (k <= 0)
                    e->sent = false;
                else
                    n = (size_t) k;
            }
            at += n;
            if (r.chance(1, 200))
                usleep(r.below(300));
        }
    }
    if (e->shutWhenSent)
        ::shutdown(e->conn ? e->conn->getHandle() : e->fd, SHUT_WR);
    return nullptr;
}
static void* recvThread(void* p) {
    End* e = (End*) p;
    vf::Rng r(e->seed ^ 77);
    if (e->conn && e->useStream) {
        InStream ins = e->conn->createInStream();
        while (ins.tryMakeBytesAvailable()) {
            size_t n = std::min((size_t) ins.numBytesAvailable(), (size_t) 1 + r.below(e->chunk));
            e->got.append((const char*) ins.curByte, n);
            ins.curByte += n;
        }
        e->more = ins.tryMakeBytesAvailable();
        return nullptr;
    }
    std::vector<char> b(e->chunk);
    for (;;) {
        u32 want = 1 + r.below(e->chunk);
        ssize_t n = e->conn ? (ssize_t) e->conn->inPipe.readSome({b.data(), want}) : recv(e->fd, b.data(), want, 0);
        if (n <= 0)
            break;
        if ((size_t) n > want)
            abort();
        e->got.append(b.data(), (size_t) n);
        if (r.chance(1, 300))
            usleep(r.below(500));
    }
    if (e->conn)
        e->more = e->conn->inPipe.readSome({b.data(), 1}) != 0;
    return nullptr;
}
static void exchange(End* a, End* b) {
    pthread_t t[4];
    pthread_create(&t[0], nullptr, sendThread, a);
    pthread_create(&t[1], nullptr, recvThread, a);
    pthread_create(&t[2], nullptr, sendThread, b);
    pthread_create(&t[3], nullptr, recvThread, b);
    for (pthread_t x : t)
        pthread_join(x, nullptr);
}
static void prepare(vf::Rng& r, End* e) {
    e->send = payload(r);
    e->seed = r.u64();
    e->useStream = r.chance(1, 2);
    e->chunk = r.pick({40u, 1000u, 8192u, 100000u});
    if (e->send.size() > 500000)
        e->chunk = 100000;
    int fd = e->conn ? e->conn->getHandle() : e->fd;
    if (r.chance(1, 3)) { // small buffers make writes partial
        int n = 1 + (int) r.below(4000);
        setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
    }
    if (r.chance(1, 3)) {
        int n = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &n, sizeof n);
    }
}
static void streams(vf::Rng& r, bool want6) {
    initSockets(want6);
    int fds = fs::openFds();
    {
        int how = r.below(3); // both, only the server, only the client is the library
        End a, b;
        TCPListener listener;
        Owned<TCPConnection> server, client;
        int raw = -1;
        IPAddress addr = loopback(r);
        u16 port;
        if (how < 2) {
            listener = Socket::bindTCP(0);
            VF_CHECK(listener.isValid() && Socket::lastResult() == IPResult::OK, "bind", "bindTCP: %d", (int) Socket::lastResult());
            port = portOf(listener.listenSocket);
            // accept would wait forever for a connection that was not made
            if (how == 0) {
                client = Socket::connectTCP(addr, port);
                VF_CHECK(client && Socket::lastResult() == IPResult::OK, "connect", "connectTCP: %d", (int) Socket::lastResult());
            } else
                raw = rawConnect(port);
            VF_CHECK(client || raw >= 0, "connect", "connecting to a bound port fails: errno %d", errno);
            server = listener.accept();
            VF_CHECK(server && Socket::lastResult() == IPResult::OK, "accept", "accept: %d", (int) Socket::lastResult());
            VF_CHECK(isLoopback(server->remoteAddress()), "accept-address", "a local connection comes from %s", vf::str(server->remoteAddress().toString()).c_str());
            u16 from = portOf(client ? client->getHandle() : raw);
            VF_CHECK(server->remotePort() == from, "accept-port", "a connection from port %u comes from port %u", from, server->remotePort());
            if (r.chance(1, 2))
                listener.close();
        } else {
            int l = rawListen(&port);
            if (v6 && family == AF_INET6)
                addr = IPAddress::localHost(IPAddress::V6);
            else
                addr = IPAddress::localHost(IPAddress::V4);
            client = Socket::connectTCP(addr, port);
            VF_CHECK(client && Socket::lastResult() == IPResult::OK, "connect", "connectTCP: %d", (int) Socket::lastResult());
            raw = accept4(l, nullptr, nullptr, SOCK_CLOEXEC);
            close(l);
        }
        if (client)
            VF_CHECK(client->remotePort() == port && memcmp(&client->remoteAddress(), &addr, 16) == 0, "connect-address", "connected to port %u instead of %u",
                     client->remotePort(), port);
        a.conn = server ? (TCPConnection*) server : (TCPConnection*) client;
        if (how == 0)
            b.conn = client;
        else
            b.fd = raw;
        prepare(r, &a);
        prepare(r, &b);
        exchange(&a, &b);
        VF_CHECK(a.got == b.send && b.got == a.send, "bytes", "%zu of %zu and %zu of %zu bytes arrive (mode %d)%s", a.got.size(), b.send.size(), b.got.size(), a.send.size(),
                 how, a.got.size() == b.send.size() && b.got.size() == a.send.size() ? ", changed" : "");
        VF_CHECK(a.sent && b.sent, "sent", "a write fails");
        VF_CHECK(!a.more && !b.more, "end", "bytes after the end of the stream");
        vf::count("bytes exchanged", a.got.size() + b.got.size());
        vf::count("connections");
        vf::distinct(vf::hashStr(a.send) ^ vf::hashStr(b.send) ^ (u64) how);
        if (raw >= 0)
            close(raw);
    }
    int left = fs::openFds() - fds;
    VF_CHECK(left == 0, "descriptors", "%d descriptors are left", left);
}
VF_WORKLOAD(streams_v4, 120, 2500) {
    streams(r, false);
}
VF_WORKLOAD(streams_v6, 120, 2500) {
    streams(r, true);
}

// The peer goes away at any byte, orderly or not.
VF_WORKLOAD(disconnects, 160, 3000) {
    initSockets(idx % 2);
    int fds = fs::openFds();
    {
        u16 port;
        TCPListener listener;
        Owned<TCPConnection> conn;
        int raw;
        if (r.chance(1, 2)) {
            listener = Socket::bindTCP(0);
            raw = rawConnect(portOf(listener.listenSocket));
            VF_CHECK(raw >= 0, "connect", "connecting to a bound port fails");
            conn = listener.accept();
        } else {
            int l = rawListen(&port);
            conn = Socket::connectTCP(IPAddress::localHost(v6 ? IPAddress::V6 : IPAddress::V4), port);
            raw = accept4(l, nullptr, nullptr, SOCK_CLOEXEC);
            close(l);
        }
        VF_CHECK(conn, "connection", "no connection");
        Str data = payload(r).substr(0, 60000);
        bool reset = r.chance(1, 2);
        size_t at = 0;
        while (at < data.size()) {
            ssize_t n = ::send(raw, data.data() + at, data.size() - at, MSG_NOSIGNAL);
            if (n <= 0)
                break;
            at += (size_t) n;
        }
        bool readFirst = r.chance(1, 2);
        Str got;
        char b[3000];
        if (readFirst)
            while (got.size() < data.size()) {
                u32 n = conn->inPipe.readSome({b, (u32) std::min(sizeof b, data.size() - got.size())});
                if (n == 0)
                    break;
                got.append(b, n);
            }
        if (readFirst)
            VF_CHECK(got == data, "bytes", "%zu of %zu bytes arrive", got.size(), data.size());
        if (reset) {
            struct linger lg = {1, 0};
            setsockopt(raw, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
        }
        close(raw);
        bool useStream = r.chance(1, 2);
        if (useStream) {
            InStream ins = conn->createInStream();
            String rest = ins.readRemainingContents();
            got += vf::str(rest);
            VF_CHECK(ins.atEOF(), "stream-end", "a stream does not end when the peer goes away");
        } else
            while (u32 n = conn->inPipe.readSome({b, sizeof b}))
                got.append(b, n);
        VF_CHECK(reset ? data.compare(0, got.size(), got) == 0 : got == data, "bytes-end", "%zu of %zu bytes arrive before the connection ends", got.size(), data.size());
        // writing must fail after a while, not end the process or wait forever
        bool failed = false;
        Str block(20000, 'w');
        for (int i = 0; i < 2000 && !failed; i++) {
            if (useStream) {
                OutStream outs = conn->createOutStream();
                outs << vf::view(block);
                outs.flush();
                failed = outs.atEOF();
            } else
                failed = !conn->outPipe.write(vf::view(block));
            if (!failed && i > 3)
                usleep(200);
        }
        VF_CHECK(failed, "write-after", "writing to a peer that is gone keeps succeeding");
        vf::count(reset ? "connections reset" : "connections closed");
        vf::distinct(vf::fmt("%zu %d %d", data.size(), reset, readFirst));
    }
    int left = fs::openFds() - fds;
    VF_CHECK(left == 0, "descriptors", "%d descriptors are left", left);
}

// Several clients of one listener, with a thread for each connection.
struct Service {
    Owned<TCPConnection> conn;
    pthread_t t;
};
static void* serviceThread(void* p) {
    Service* s = (Service*) p;
    char b[5000];
    while (u32 n = s->conn->inPipe.readSome({b, sizeof b}))
        if (!s->conn->outPipe.write({b, n}))
            break;
    s->conn.clear();
    return nullptr;
}
// A full queue of connections that wait to be accepted makes the kernel drop some of them, so clients connect in turn.
static pthread_mutex_t turn = PTHREAD_MUTEX_INITIALIZER;
struct Server {
    TCPListener* listener;
    u32 accepted = 0;
    Str bad;
};
static void* serverThread(void* p) {
    Server* s = (Server*) p;
    static Service services[64];
    for (;;) {
        Owned<TCPConnection> c = s->listener->accept();
        if (!c) {
            if (Socket::lastResult() == IPResult::OK)
                s->bad = "accept returns nothing with OK";
            break;
        }
        if (Socket::lastResult() != IPResult::OK)
            s->bad = "accept returns a connection and an error";
        Service* x = &services[__atomic_fetch_add(&s->accepted, 1, __ATOMIC_SEQ_CST)];
        x->conn = std::move(c);
        pthread_create(&x->t, nullptr, serviceThread, x);
    }
    for (u32 i = 0; i < s->accepted; i++)
        pthread_join(services[i].t, nullptr);
    return nullptr;
}
struct Client {
    Server* server;
    u16 port;
    IPAddress addr;
    Str data, bad;
    uint64_t seed;
};
static void* clientThread(void* p) {
    Client* c = (Client*) p;
    vf::Rng r(c->seed);
    for (int i = 0; i < 3; i++) {
        if (r.chance(1, 4)) { // results belong to threads
            u16 none;
            int l = rawListen(&none);
            close(l);
            Owned<TCPConnection> x = Socket::connectTCP(IPAddress::localHost(IPAddress::V4), 1);
            if (x || Socket::lastResult() == IPResult::OK)
                c->bad = "connecting to a closed port succeeds";
        }
        pthread_mutex_lock(&turn);
        u32 before = __atomic_load_n(&c->server->accepted, __ATOMIC_SEQ_CST);
        Owned<TCPConnection> conn = Socket::connectTCP(c->addr, c->port);
        for (int k = 0; conn && k < 200000 && __atomic_load_n(&c->server->accepted, __ATOMIC_SEQ_CST) == before; k++)
            usleep(50);
        IPResult result = Socket::lastResult();
        pthread_mutex_unlock(&turn);
        if (!conn || result != IPResult::OK) {
            c->bad = vf::fmt("connectTCP: %d", (int) result);
            break;
        }
        End e;
        e.conn = conn;
        e.send = c->data;
        e.seed = r.u64();
        e.chunk = 9000;
        e.useStream = r.chance(1, 2);
        pthread_t t;
        pthread_create(&t, nullptr, sendThread, &e);
        recvThread(&e);
        pthread_join(t, nullptr);
        if (e.got != e.send)
            c->bad = vf::fmt("%zu of %zu bytes come back", e.got.size(), e.send.size());
    }
    return nullptr;
}
VF_WORKLOAD_SERIAL(concurrent, 40, 800) {
    initSockets(true);
    int fds = fs::openFds();
    {
        TCPListener first = Socket::bindTCP(0);
        TCPListener listener = std::move(first);
        VF_CHECK(listener.isValid() && !first.isValid(), "move", "moving a listener leaves it valid");
        Server s;
        s.listener = &listener;
        pthread_t st, ct[8];
        pthread_create(&st, nullptr, serverThread, &s);
        Client c[8];
        u32 n = 1 + r.below(8);
        for (u32 i = 0; i < n; i++) {
            c[i].server = &s;
            c[i].port = portOf(listener.listenSocket);
            c[i].addr = loopback(r);
            c[i].data = payload(r).substr(0, 200000);
            c[i].seed = r.u64();
            pthread_create(&ct[i], nullptr, clientThread, &c[i]);
        }
        for (u32 i = 0; i < n; i++) {
            pthread_join(ct[i], nullptr);
            VF_EXPECT(c[i].bad.empty(), "concurrent", "client %u of %u: %s", i, n, c[i].bad.c_str());
            vf::count("bytes echoed", 3 * c[i].data.size());
        }
        listener.endComm(); // wakes the waiting thread
        pthread_join(st, nullptr);
        VF_EXPECT(s.accepted == 3 * n, "accepted", "%u connections accepted of %u", s.accepted, 3 * n);
        VF_EXPECT(s.bad.empty(), "accept-result", "%s", s.bad.c_str());
        vf::count("connections", s.accepted);
        vf::distinct(r.u64());
    }
    int left = fs::openFds() - fds;
    VF_CHECK(left == 0, "descriptors", "%d descriptors are left", left);
}

// Names: the resolver's answers are made up here.
static int gaiCode = 0, gaiFreed = 0, gaiMade = 0, gaiFamily = 0;
static bool gaiFake = false;
static std::vector<std::pair<int, Str>> gaiList;
extern "C" {
int __real_getaddrinfo(const char* n, const char* s, const struct addrinfo* h, struct addrinfo** r);
int __wrap_getaddrinfo(const char* n, const char* s, const struct addrinfo* h, struct addrinfo** res);
int __wrap_getaddrinfo(const char* n, const char* s, const struct addrinfo* h, struct addrinfo** res) {
    if (!gaiFake)
        return __real_getaddrinfo(n, s, h, res);
    gaiFamily = h ? h->ai_family : AF_UNSPEC;
    if (gaiCode) {
        *res = (struct addrinfo*) 0x10; // not to be used
        return gaiCode;
    }
    struct addrinfo** at = res;
    *res = nullptr;
    for (auto& x : gaiList) {
        struct addrinfo* a = (struct addrinfo*) calloc(1, sizeof *a + sizeof(struct sockaddr_in6));
        a->ai_family = x.first;
        a->ai_addr = (struct sockaddr*) (a + 1);
        a->ai_addr->sa_family = (sa_family_t) x.first;
        if (x.first == AF_INET6) {
            a->ai_addrlen = sizeof(struct sockaddr_in6);
            memcpy(&((struct sockaddr_in6*) a->ai_addr)->sin6_addr, x.second.data(), 16);
        } else {
            a->ai_addrlen = sizeof(struct sockaddr_in);
            memcpy(&((struct sockaddr_in*) a->ai_addr)->sin_addr, x.second.data(), 4);
        }
        *at = a;
        at = &a->ai_next;
        gaiMade++;
    }
    return 0;
}
void __real_freeaddrinfo(struct addrinfo* r);
void __wrap_freeaddrinfo(struct addrinfo* r);
void __wrap_freeaddrinfo(struct addrinfo* r) {
    if (!gaiFake)
        return __real_freeaddrinfo(r);
    while (r) {
        struct addrinfo* n = r->ai_next;
        free(r);
        gaiFreed++;
        r = n;
    }
}
}
VF_WORKLOAD(names, 1500, 40000) {
    initSockets(idx % 2);
    bool want6 = r.chance(1, 2);
    gaiCode = r.chance(1, 4) ? r.pick({EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_MEMORY, EAI_SYSTEM, EAI_FAMILY}) : 0;
    gaiList.clear();
    gaiMade = gaiFreed = 0;
    for (u32 n = r.below(5); n > 0; n--) {
        bool six = want6 && r.chance(1, 2);
        Str a(six ? 16 : 4, 0);
        for (char& c : a)
            c = (char) r.below(256);
        gaiList.push_back({six ? AF_INET6 : AF_INET, a});
    }
    gaiFake = true;
    vf::Exact name(r.pick({Str("host"), Str("example.com"), Str("x")}));
    IPAddress got = IPAddress::resolveHostName(name.view(), want6 ? IPAddress::V6 : IPAddress::V4);
    gaiFake = false;
    Str want(16, 0);
    bool found = false;
    for (int pass = want6 ? 0 : 1; pass < 2 && !found && !gaiCode; pass++)
        for (auto& x : gaiList)
            if (!found && x.first == (pass == 0 ? AF_INET6 : AF_INET)) {
                found = true;
                want = pass == 0 ? x.second : Str(10, 0) + "\xff\xff" + x.second;
            }
    VF_CHECK(memcmp(&got, want.data(), 16) == 0, "resolve", "a name with %zu addresses (code %d, V6 %d) resolves to %s", gaiList.size(), gaiCode, want6,
             vf::str(got.toString()).c_str());
    VF_CHECK(got.isNull() == (want == Str(16, 0)), "resolve-null", "null");
    VF_CHECK(gaiMade == gaiFreed, "resolve-leak", "%d of %d entries are freed", gaiFreed, gaiMade);
    // addresses as text
    unsigned char back[16];
    Str text = vf::str(got.toString());
    bool is4 = found && want.substr(0, 12) == Str(10, 0) + "\xff\xff";
    VF_CHECK((got.version() == IPAddress::V4) == is4, "version", "%s", text.c_str());
    VF_CHECK(inet_pton(is4 ? AF_INET : AF_INET6, text.c_str(), back) == 1 && memcmp(back, want.data() + (is4 ? 12 : 0), is4 ? 4 : 16) == 0, "text", "text is %s", text.c_str());
    vf::distinct(vf::hashStr(want) ^ (u64) gaiCode);
    vf::count(gaiCode ? "names that don't resolve" : "names resolved");
    if (idx % 100 == 0) {
        IPAddress l = IPAddress::resolveHostName("127.0.0.1", IPAddress::V4);
        VF_CHECK(memcmp(&l, &static_cast<const IPAddress&>(IPAddress::localHost(IPAddress::V4)), 16) == 0, "resolve-literal", "127.0.0.1 is %s",
                 vf::str(l.toString()).c_str());
    }
}

VF_WORKLOAD(failures, 300, 4000) {
    initSockets(idx % 2);
    int fds = fs::openFds();
    int how = r.below(6);
    vf::ctx(vf::fmt("failure %d", how));
    if (how == 0) { // the port is taken
        TCPListener a = Socket::bindTCP(0);
        u16 port = portOf(a.listenSocket);
        TCPListener b = Socket::bindTCP(port);
        VF_CHECK(!b.isValid() && Socket::lastResult() == IPResult::InUse, "in-use", "binding a port twice: %d", (int) Socket::lastResult());
        VF_CHECK(!b.accept() && Socket::lastResult() == IPResult::NoSocket, "accept-invalid", "%d", (int) Socket::lastResult());
        int s = rawConnect(port);
        VF_CHECK(s >= 0, "first", "the first listener no longer works");
        Owned<TCPConnection> c = a.accept();
        VF_CHECK(c, "first", "the first listener no longer works");
        close(s);
        a.close();
        VF_CHECK(!a.isValid(), "close", "a closed listener is valid");
        if (r.chance(1, 2)) { // and can be bound again
            c.clear();
            a = Socket::bindTCP(port);
            VF_CHECK(a.isValid(), "rebind", "binding again: %d", (int) Socket::lastResult());
        }
    } else if (how == 1) { // nobody listens
        u16 port;
        close(rawListen(&port));
        Owned<TCPConnection> c = Socket::connectTCP(loopback(r), port);
        VF_CHECK(!c && Socket::lastResult() == IPResult::Refused, "refused", "connecting to a closed port: %d", (int) Socket::lastResult());
    } else if (how == 2) { // descriptors run out
        struct rlimit old, lim;
        getrlimit(RLIMIT_NOFILE, &old);
        lim = old;
        lim.rlim_cur = (rlim_t) 3;
        TCPListener a = Socket::bindTCP(0);
        u16 port = portOf(a.listenSocket);
        bool acc = r.chance(1, 2);
        int s = acc ? rawConnect(port) : -1;
        setrlimit(RLIMIT_NOFILE, &lim);
        IPResult r1 = IPResult::OK, r2, r3;
        bool got = false;
        if (acc) {
            got = (bool) a.accept();
            r1 = Socket::lastResult();
        }
        bool b = Socket::bindTCP(0).isValid();
        r2 = Socket::lastResult();
        bool c = (bool) Socket::connectTCP(IPAddress::localHost(IPAddress::V4), port);
        r3 = Socket::lastResult();
        setrlimit(RLIMIT_NOFILE, &old);
        if (s >= 0)
            close(s);
        VF_CHECK(!got && !b && !c && (!acc || r1 != IPResult::OK) && r2 == IPResult::NoSocket && r3 == IPResult::NoSocket, "exhausted",
                 "without descriptors: accept %d (%d), bind %d (%d), connect %d (%d)", got, (int) r1, b, (int) r2, c, (int) r3);
    } else if (how == 3) { // a port that can't be bound
        if (geteuid() == 0)
            return;
        TCPListener a = Socket::bindTCP(1);
        VF_CHECK(a.isValid() || Socket::lastResult() != IPResult::OK, "privileged", "an invalid listener with OK");
    } else if (how == 4) { // an address that can't be reached
        IPAddress bad = IPAddress::fromIPv4(inet_addr("255.255.255.255"));
        Owned<TCPConnection> c = Socket::connectTCP(bad, 80);
        VF_CHECK(!c && Socket::lastResult() != IPResult::OK, "unreachable", "connecting to the broadcast address: %d", (int) Socket::lastResult());
    } else { // moves
        TCPListener a = Socket::bindTCP(0), b = Socket::bindTCP(0);
        u16 pa = portOf(a.listenSocket), pb = portOf(b.listenSocket);
        a = std::move(b);
        VF_CHECK(a.isValid() && !b.isValid() && portOf(a.listenSocket) == pb, "move", "moving a listener");
        int s = rawConnect(pa);
        VF_CHECK(s < 0, "move-closes", "a replaced listener still accepts");
        s = rawConnect(pb);
        VF_CHECK(s >= 0, "move-keeps", "a moved listener does not accept");
        if (s >= 0)
            close(s);
    }
    int left = fs::openFds() - fds;
    VF_CHECK(left == 0, "descriptors", "failure %d leaves %d descriptors", how, left);
    vf::count("failures provoked");
    vf::distinct(vf::fmt("%d %u", how, r.below(20)));
}

VF_MAIN()
