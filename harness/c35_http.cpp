// C35: the HTTP server. Clients on raw sockets send requests, well-formed or not, split and pipelined at random; a monitor compares
// what each handler call was given and every byte that came back with a model of the exchange.
#include "plyvf.h"
#include <ply-runtime/network/Socket.h>
#include <web-common/Server.h>
#include <web-common/Echo.h>
#include <web-common/URLEscape.h>
#include <web-common/OutPipe_HTTPChunked.h>
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <unistd.h>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <thread>
#include <atomic>

extern char** environ;

using namespace ply;
using namespace vf;

namespace {

//---- What handlers do, decided by the request path alone

struct Plan {
    enum Kind { Write, Nothing, Generic, Unfinished } kind = Write;
    u32 code = 1;         // web::ResponseCode
    Str body;
    std::vector<u32> cuts; // where the handler's writes end
    std::vector<bool> flushes;
    Str header;
};

Plan planFor(const Str& uri) {
    vf::Rng r(hashStr(uri) * 2654435761u + 17);
    Plan p;
    u32 k = r.below(20);
    p.kind = k == 0 ? Plan::Nothing : k == 1 ? Plan::Generic : k == 2 ? Plan::Unfinished : Plan::Write;
    p.code = 1 + r.below(4);
    u32 n = r.chance(1, 8) ? 0 : r.chance(1, 12) ? r.below(40000) : r.chance(1, 4) ? r.pick({1u, 9u, 10u, 15u, 16u, 17u, 255u, 256u, 4095u, 4096u, 4097u}) : r.below(600);
    p.body.resize(n);
    for (char& c : p.body)
        c = (char) r.pick({(u32) '\r', (u32) '\n', (u32) '0', (u32) 'a', (u32) 0, (u32) 255, (u32) r.below(256)});
    for (u32 at = 0; at < n;) {
        at = std::min(n, at + 1 + r.below(r.chance(1, 3) ? 5000 : 100));
        p.cuts.push_back(at);
        p.flushes.push_back(r.chance(1, 6));
    }
    if (r.chance(1, 2))
        p.header = vf::fmt("X-Extra: %u\r\n", r.below(1000));
    return p;
}

const char* const codeNames[] = {"", "200 OK", "400 Bad Request", "404 Not Found", "500 Internal Server Error"};

Str genericBody(u32 code) {
    Str c = codeNames[code];
    return "<html>\n<head><title>" + c + "</title></head>\n<body>\n<center><h1>" + c + "</h1></center>\n<hr>\n</body>\n</html>\n";
}

//---- What handler calls were given, by client port

struct Call {
    Str path, method, uri, version;
    std::vector<std::pair<Str, Str>> fields;
    bool loopback = false;
    bool operator==(const Call& o) const {
        return path == o.path && method == o.method && uri == o.uri && version == o.version && fields == o.fields && loopback == o.loopback;
    }
    Str text() const {
        Str s = method + "|" + uri + "|" + version;
        for (auto& f : fields)
            s += "|" + f.first + "=" + f.second;
        return esc(s) + (loopback ? "" : " (not loopback)") + (path == uri ? "" : " (path " + esc(path) + ")");
    }
};

std::mutex callMutex;
std::map<u16, std::vector<Call>> calls;
u64 identity = 0;

void handleRequest(void*, StringView path, web::ResponseIface* resp) {
    static const unsigned char m4[16] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 127, 0, 0, 1};
    Call c;
    c.path = str(path);
    c.method = str(resp->request.startLine.method);
    c.uri = str(resp->request.startLine.uri);
    c.version = str(resp->request.startLine.httpVersion);
    for (auto& f : resp->request.headerFields)
        c.fields.push_back({str(f.name), str(f.value)});
    c.loopback = memcmp(&resp->request.clientAddr, m4, 16) == 0;
    if (c.path == "/identity") {
        OutStream* outs = resp->beginResponseHeader(web::ResponseCode::OK);
        *outs << "\r\n";
        resp->endResponseHeader();
        *outs << view(vf::fmt("%llu", (unsigned long long) identity));
        return;
    }
    static const unsigned char rude4[16] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 127, 0, 0, 2};
    if (memcmp(&resp->request.clientAddr, rude4, 16) != 0) {
        std::lock_guard<std::mutex> g(callMutex);
        calls[resp->request.clientPort].push_back(c);
    }
    Plan p = planFor(c.path);
    if (p.kind == Plan::Nothing)
        return;
    if (p.kind == Plan::Generic) {
        resp->respondGeneric((web::ResponseCode) p.code);
        return;
    }
    OutStream* outs = resp->beginResponseHeader((web::ResponseCode) p.code);
    *outs << view(p.header);
    if (p.kind == Plan::Unfinished)
        return;
    *outs << "\r\n";
    resp->endResponseHeader();
    u32 at = 0;
    for (size_t i = 0; i < p.cuts.size(); i++) {
        outs->write(view(p.body.substr(at, p.cuts[i] - at)));
        at = p.cuts[i];
        if (p.flushes[i])
            outs->flush();
    }
}

//---- Client sockets

int rawSocket() {
    return socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
}

bool rawConnect(int s, u16 port) {
    struct sockaddr_in a = {};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (connect(s, (struct sockaddr*) &a, sizeof a) != 0)
        return false;
    int one = 1;
    setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    return true;
}

u16 localPort(int s) {
    struct sockaddr_in a = {};
    socklen_t n = sizeof a;
    getsockname(s, (struct sockaddr*) &a, &n);
    return ntohs(a.sin_port);
}

bool sendAll(int s, const Str& data) {
    size_t at = 0;
    while (at < data.size()) {
        ssize_t k = send(s, data.data() + at, data.size() - at, MSG_NOSIGNAL);
        if (k <= 0)
            return false;
        at += (size_t) k;
    }
    return true;
}

// Reads until the other end closes, or nothing comes for a long time
std::atomic<u32> timeouts{0};
bool gaveUp() {
    return timeouts >= 2; // reported already
}

enum End { Closed, Reset, Timeout };
End recvAll(int s, Str& got, size_t enough = (size_t) -1) {
    char buf[65536];
    while (got.size() < enough) {
        struct pollfd p = {s, POLLIN, 0};
        int rc = poll(&p, 1, 8000);
        if (rc == 0) {
            timeouts++;
            return Timeout;
        }
        ssize_t k = recv(s, buf, sizeof buf, 0);
        if (k == 0)
            return Closed;
        if (k < 0)
            return Reset;
        got.append(buf, (size_t) k);
    }
    return Closed;
}

u16 startServer() {
    static u16 port = 0;
    if (port)
        return port;
    Socket::initialize(IPAddress::V4);
    vf::Rng r((u64) getpid() * 7919 + (u64) time(nullptr) * 1000003);
    identity = r.u64();
    for (u32 tries = 0; tries < 200; tries++) {
        u16 tryPort = (u16) (20000 + r.below(12000));
        auto* failed = new std::atomic<bool>{false};
        std::thread([tryPort, failed] {
            web::runServer(tryPort, web::RequestHandler{handleRequest, (void*) &identity});
            failed->store(true);
        }).detach();
        for (u32 wait = 0; wait < 2000 && !failed->load(); wait++) {
            int s = rawSocket();
            if (rawConnect(s, tryPort)) {
                Str got;
                sendAll(s, "GET /identity HTTP/1.0\n\n");
                shutdown(s, SHUT_WR);
                recvAll(s, got);
                close(s);
                if (got.find(vf::fmt("%llu", (unsigned long long) identity)) != Str::npos) {
                    count("serversStarted", 1);
                    return port = tryPort;
                }
            } else
                close(s);
            usleep(2000);
        }
    }
    fprintf(stderr, "no port\n");
    abort();
}

//---- The model: what bytes of requests mean

struct Expect {
    std::vector<Call> calls;
    Str bytes; // exact bytes of all the responses
    bool open = false; // connection stays open until the client closes it
};

bool white(char c) {
    return c == ' ' || c == '\t' || c == '\r' || c == '\n';
}
Str trimmed(Str s, bool left) {
    while (!s.empty() && white(s.back()))
        s.pop_back();
    size_t i = 0;
    while (left && i < s.size() && white(s[i]))
        i++;
    return s.substr(i);
}

Str genericResponse(u32 code, bool chunked);

// HTTP responses as the harness expects them are compared after decoding, not byte by byte
struct Response {
    u32 code = 0;
    Str extra, body;
    bool complete = true;
    bool operator==(const Response& o) const {
        return code == o.code && extra == o.extra && body == o.body && complete == o.complete;
    }
    Str text() const {
        return vf::fmt("%u %s%s %zu bytes %s", code, esc(extra).c_str(), complete ? "" : " (unfinished)", body.size(), esc(body.substr(0, 60)).c_str());
    }
};

struct Model {
    std::vector<Call> calls;
    std::vector<Response> responses;
    bool bad = false; // the server closes on a malformed request, perhaps with input unread

    explicit Model(const Str& in) {
        std::vector<Str> lines;
        size_t at = 0;
        bool eof = false;
        for (;;) {
            lines.clear();
            for (;;) {
                Str line;
                size_t nl = in.find('\n', at);
                if (nl != Str::npos) {
                    line = in.substr(at, nl + 1 - at);
                    at = nl + 1;
                } else {
                    line = in.substr(at);
                    at = in.size();
                    eof = true;
                }
                if (line.empty()) {
                    if (!lines.empty())
                        fail400();
                    return;
                }
                if (trimmed(line, false).empty())
                    break;
                lines.push_back(line);
            }
            if (lines.empty()) {
                bad = true;
                return;
            }
            Str start = trimmed(lines[0], false);
            std::vector<Str> toks;
            bool inToken = false;
            for (char c : start) {
                if (c != ' ') {
                    if (!inToken)
                        toks.push_back({});
                    toks.back() += c;
                }
                inToken = c != ' ';
            }
            if (toks.size() != 3)
                {
                fail400();
                return;
            }
            Call c;
            c.path = c.uri = toks[1];
            c.method = toks[0];
            c.version = toks[2];
            c.loopback = true;
            for (size_t i = 1; i < lines.size(); i++) {
                if (white(lines[i][0]))
                    continue;
                size_t colon = lines[i].find(':');
                if (colon == Str::npos) {
                    fail400();
                    return;
                }
                c.fields.push_back({trimmed(lines[i].substr(0, colon), false), trimmed(lines[i].substr(colon + 1), true)});
            }
            calls.push_back(c);
            bool chunked = c.version == "HTTP/1.1";
            Plan p = planFor(c.path);
            Response resp;
            switch (p.kind) {
                case Plan::Nothing:
                    resp.code = 4;
                    resp.extra = "Content-Type: text/html";
                    resp.body = genericBody(4);
                    break;
                case Plan::Generic:
                    resp.code = p.code;
                    resp.extra = "Content-Type: text/html";
                    resp.body = genericBody(p.code);
                    break;
                case Plan::Unfinished:
                    resp.code = p.code;
                    resp.complete = false;
                    break;
                default:
                    resp.code = p.code;
                    resp.extra = p.header.substr(0, p.header.empty() ? 0 : p.header.size() - 2);
                    resp.body = p.body;
            }
            responses.push_back(resp);
            if (p.kind == Plan::Unfinished || !chunked)
                return;
            (void) eof;
        }
    }
    void fail400() {
        Response resp;
        resp.code = 2;
        resp.extra = "Content-Type: text/html";
        resp.body = genericBody(2);
        responses.push_back(resp);
        bad = true;
    }
};

// Strict decoder of the bytes of one connection
struct Decoder {
    const Str& in;
    size_t at = 0;
    Str problem;

    bool line(Str& out) {
        size_t nl = in.find("\r\n", at);
        if (nl == Str::npos) {
            problem = vf::fmt("no end of line at %zu", at);
            return false;
        }
        out = in.substr(at, nl - at);
        at = nl + 2;
        return true;
    }
    // unfinished: the handler never ended this header
    bool response(Response& resp, bool unfinished) {
        Str l;
        if (!line(l))
            return false;
        resp.code = 0;
        for (u32 c = 1; c <= 4; c++) {
            if (l == Str("HTTP/1.1 ") + codeNames[c])
                resp.code = c;
        }
        if (!resp.code) {
            problem = "status line " + esc(l);
            return false;
        }
        if (unfinished) {
            resp.complete = false;
            at = in.size();
            return true;
        }
        bool chunked = false;
        for (;;) {
            if (!line(l))
                return false;
            if (l.empty())
                break;
            if (l == "Transfer-Encoding: chunked")
                chunked = true;
            else if (l == "Connection: keep-alive")
                ;
            else
                resp.extra += l;
        }
        if (!chunked) {
            resp.body = in.substr(at);
            at = in.size();
            return true;
        }
        for (;;) {
            if (!line(l))
                return false;
            if (l.empty() || l.size() > 8 || l.find_first_not_of("0123456789abcdefABCDEF") != Str::npos) {
                problem = "chunk size " + esc(l.substr(0, 40));
                return false;
            }
            size_t n = strtoul(l.c_str(), nullptr, 16);
            if (at + n + 2 > in.size()) {
                problem = vf::fmt("chunk of %zu bytes with %zu left", n, in.size() - at);
                return false;
            }
            resp.body += in.substr(at, n);
            at += n;
            if (in.compare(at, 2, "\r\n") != 0) {
                problem = vf::fmt("no end of chunk at %zu", at);
                return false;
            }
            at += 2;
            count("chunks", 1);
            if (n == 0)
                return true;
        }
    }
};

//---- Requests

struct ReqGen {
    vf::Rng& r;
    bool valid;
    Str word() {
        static const char* const w[] = {"a", "docs", "index", "%20", "x=1", "..", ".", "static", "Z", "~", "1"};
        return w[r.below(11)];
    }
    Str eol() {
        return r.chance(1, 3) ? "\n" : r.chance(1, 12) ? " \t\r\n" : "\r\n";
    }
    Str uri() {
        Str s = "/";
        for (u32 n = r.below(4); n > 0; n--)
            s += word() + (r.chance(1, 4) ? "?" : "/");
        return s + vf::fmt("%u", r.below(100000));
    }
    Str request() {
        Str s;
        s += r.pick(std::vector<Str>{"GET", "GET", "POST", "HEAD", "get", "X"}) + " " + uri() + " " + (r.chance(4, 5) ? "HTTP/1.1" : r.pick(std::vector<Str>{"HTTP/1.0", "HTTP/2", "http/1.1"})) + eol();
        if (!valid && r.chance(1, 4))
            s = r.pick(std::vector<Str>{"GET /", "GET", "GET  / HTTP/1.1", "GET / HTTP/1.1 x", "a b c d e", "/", "  x", "\tGET / HTTP/1.1", " GET HTTP/1.1", ":", "\x01\x02"}) + eol();
        for (u32 n = r.chance(1, 30) ? r.below(300) : r.below(5); n > 0; n--) {
            if (!valid && r.chance(1, 8))
                s += r.pick(std::vector<Str>{"no colon", "x", "Host", "\xff\xfe", Str("a\0b", 3)}) + eol();
            else if (r.chance(1, 10))
                s += r.pick(std::vector<Str>{" folded", "\tfolded: x", "  :"}) + eol();
            else {
                s += r.pick(std::vector<Str>{"Host", "Accept", "X-A", "", "A B", "Name "}) + ":" + r.pick(std::vector<Str>{"", " ", "\t"}) +
                     r.pick(std::vector<Str>{"", "x", "localhost:80", "a: b", "text/html, */*", Str(r.below(r.chance(1, 10) ? 9000 : 90), 'v'), Str("n\0l", 3)}) + r.pick(std::vector<Str>{"", "  "}) + eol();
            }
        }
        return s + r.pick(std::vector<Str>{"\r\n", "\n", "\r\n", "  \r\n", "\t\n"});
    }
    Str all() {
        Str s;
        for (u32 n = 1 + r.below(r.chance(1, 6) ? 12 : 3); n > 0; n--)
            s += request();
        if (!valid) {
            switch (r.below(6)) {
                case 0:
                    s.resize(r.below((u32) s.size() + 1));
                    break;
                case 1:
                    s += r.pick(std::vector<Str>{"\r\n", "\n", "x", "GET", "GET / HTTP/1.1\r\n", "GET / HTTP/1.1"});
                    break;
                case 2:
                    for (u32 n = 1 + r.below(4); n > 0 && !s.empty(); n--)
                        s[r.below((u32) s.size())] = (char) r.below(256);
                    break;
                case 3:
                    s += randBytes(r, 200);
                    break;
            }
            // whether white space before the end is a line is not specified
            size_t end = s.find_last_not_of(" \t\r");
            s.resize(end == Str::npos ? 0 : end + 1);
        }
        return s;
    }
};

// One client: sends all the bytes, then checks everything that comes back
Str exchange(u16 port, vf::Rng& r, const Str& in, int s = -1) {
    if (s < 0) {
        s = rawSocket();
        if (!rawConnect(s, port)) {
            close(s);
            return "could not connect";
        }
    }
    u16 me = localPort(s);
    {
        std::lock_guard<std::mutex> g(callMutex);
        calls.erase(me);
    }
    Str got;
    size_t at = 0;
    bool slow = r.chance(1, 10), sendFailed = false;
    while (at < in.size()) {
        size_t n = std::min(in.size() - at, (size_t) 1 + r.below(r.chance(1, 2) ? 20000 : slow ? 30 : 300));
        if (!sendAll(s, in.substr(at, n))) {
            // This takes the error that the reset left, so that receiving ends as if at the end of the stream.
            sendFailed = true;
            break;
        }
        at += n;
        if (slow && r.chance(1, 4))
            usleep(r.below(300));
    }
    shutdown(s, SHUT_WR);
    End end = recvAll(s, got);
    // the port can't be another client's before the socket is closed
    struct Closer {
        int s;
        ~Closer() {
            close(s);
        }
    } closer{s};
    if (end == Timeout)
        return "the server neither answered nor closed the connection";
    Model m(in);
    std::vector<Call> seen;
    {
        std::lock_guard<std::mutex> g(callMutex);
        seen = calls[me];
        calls.erase(me);
    }
    count("requestsHandled", seen.size());
    count("bytesReceived", got.size());
    // Everything the client sent before the server gave up is handled; exactly once, in order
    if (seen.size() > m.calls.size())
        return vf::fmt("%zu requests handled, not %zu (end %d, %zu bytes back)", seen.size(), m.calls.size(), (int) end, got.size());
    for (size_t i = 0; i < seen.size(); i++) {
        if (!(seen[i] == m.calls[i]))
            return vf::fmt("request %zu: handler got %s, not %s", i, seen[i].text().c_str(), m.calls[i].text().c_str());
    }
    bool closesEarly = m.bad || (!m.responses.empty() && m.calls.size() > 0 && (m.calls.back().version != "HTTP/1.1" || !m.responses.back().complete));
    if (seen.size() != m.calls.size())
        return vf::fmt("%zu requests handled, not %zu (end %d, %zu bytes back)", seen.size(), m.calls.size(), (int) end, got.size());
    if (end == Reset || sendFailed) {
        // only when the server closed with unread input
        count("resets", 1);
        return closesEarly ? Str() : Str("connection reset");
    }
    Decoder d{got, 0, {}};
    for (size_t i = 0; i < m.responses.size(); i++) {
        if (d.at >= got.size())
            return vf::fmt("%zu responses, not %zu", i, m.responses.size());
        Response resp;
        if (!d.response(resp, !m.responses[i].complete))
            return vf::fmt("response %zu: %s", i, d.problem.c_str());
        if (!(resp == m.responses[i]))
            return vf::fmt("response %zu: %s, not %s", i, resp.text().c_str(), m.responses[i].text().c_str());
        count("responses", 1);
    }
    if (d.at != got.size())
        return vf::fmt("%zu bytes after the last response: %s", got.size() - d.at, esc(got.substr(d.at, 80)).c_str());
    return {};
}

VF_WORKLOAD_SERIAL(requests, 3000, 60000) {
    u16 port = startServer();
    if (gaveUp())
        return;
    ReqGen gen{r, r.chance(1, 2)};
    Str in = gen.all();
    Str problem = exchange(port, r, in);
    VF_CHECK((problem.empty()), "exchange", "%s; sent %s", problem.c_str(), esc(in).substr(0, 600).c_str());
    evals(1);
    distinct(hashStr(in));
    if (idx < 20)
        sample(esc(in).substr(0, 200));
}

// A client that waits for each response before the next request
VF_WORKLOAD_SERIAL(turns, 80, 2000) {
    u16 port = startServer();
    if (gaveUp())
        return;
    ReqGen gen{r, true};
    int s = rawSocket();
    VF_CHECKR((rawConnect(s, port)), , "connect", "could not connect");
    for (u32 n = 1 + r.below(8); n > 0; n--) {
        Str in = gen.request();
        Model m(in);
        if (m.calls.size() != 1 || m.calls[0].version != "HTTP/1.1" || !m.responses[0].complete)
            continue;
        sendAll(s, in);
        // read exactly one response: up to the last chunk
        Str got;
        for (;;) {
            Decoder d{got, 0, {}};
            Response resp;
            if (!got.empty() && d.response(resp, false)) {
                VF_CHECK((d.at == got.size()), "turn", "bytes after the response to %s", esc(in).substr(0, 300).c_str());
                VF_CHECK((resp == m.responses[0]), "turn", "%s, not %s", resp.text().c_str(), m.responses[0].text().c_str());
                count("turns", 1);
                break;
            }
            struct pollfd p = {s, POLLIN, 0};
            bool some = poll(&p, 1, 8000) > 0;
            timeouts += some ? 0 : 1;
            char buf[65536];
            ssize_t k = some ? recv(s, buf, sizeof buf, 0) : 0;
            if (k <= 0) {
                close(s);
                VF_CHECKR((false), , "turn", "no whole response to %s: %s (%s)", esc(in).substr(0, 300).c_str(), esc(got).substr(0, 300).c_str(), d.problem.c_str());
            }
            got.append(buf, (size_t) k);
        }
        distinct(hashStr(in));
    }
    close(s);
    evals(1);
}

// Many clients at once, some of which vanish
VF_WORKLOAD_SERIAL(concurrent, 60, 1500) {
    u16 port = startServer();
    if (gaveUp())
        return;
    u32 n = 2 + r.below(7);
    std::vector<std::thread> threads;
    std::vector<Str> problems(n), sent(n);
    for (u32 i = 0; i < n; i++) {
        u64 seed = r.u64();
        bool rude = i > 0 && r.chance(1, 3);
        threads.emplace_back([&, i, seed, rude] {
            vf::Rng q(seed);
            for (u32 k = 0; k < 4; k++) {
                ReqGen gen{q, q.chance(1, 2)};
                Str in = gen.all();
                if (!rude) {
                    problems[i] = exchange(port, q, in);
                    if (!problems[i].empty()) {
                        sent[i] = in;
                        return;
                    }
                    continue;
                }
                int s = rawSocket();
                struct sockaddr_in a = {};
                a.sin_family = AF_INET;
                a.sin_addr.s_addr = htonl(0x7f000002);
                if (bind(s, (struct sockaddr*) &a, sizeof a) != 0 || !rawConnect(s, port)) {
                    problems[i] = "could not connect";
                    close(s);
                    return;
                }
                sendAll(s, in.substr(0, q.below((u32) in.size() + 1)));
                if (q.chance(1, 2)) {
                    Str some;
                    char buf[100];
                    if (q.chance(1, 2))
                        usleep(q.below(500));
                    recv(s, buf, 1 + q.below(100), MSG_DONTWAIT);
                }
                if (q.chance(1, 2)) {
                    struct linger l = {1, 0};
                    setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l);
                }
                close(s);
            }
        });
    }
    for (auto& t : threads)
        t.join();
    for (u32 i = 0; i < n; i++)
        VF_CHECK((problems[i].empty()), "exchange", "%s; sent %s", problems[i].c_str(), esc(sent[i]).substr(0, 600).c_str());
    evals(n);
    distinct(r.u64());
    count("clients", n);
}

// The server runs out of descriptors: it goes on when there are some again
VF_WORKLOAD_SERIAL(descriptors, 12, 200) {
    u16 port = startServer();
    if (gaveUp())
        return;
    usleep(20000);
    u32 n = 1 + r.below(3);
    std::vector<int> socks;
    for (u32 i = 0; i < n; i++)
        socks.push_back(rawSocket());
    // The limit is one above the highest descriptor open, and all below are taken
    std::vector<int> fill;
    int top = socks.back();
    for (;;) {
        int f = open("/dev/null", O_RDONLY | O_CLOEXEC);
        if (f < 0)
            break;
        fill.push_back(f);
        if (f > top)
            break;
    }
    struct rlimit was, now;
    getrlimit(RLIMIT_NOFILE, &was);
    now = was;
    now.rlim_cur = (rlim_t) fill.back() + 1;
    setrlimit(RLIMIT_NOFILE, &now);
    bool all = true;
    for (int s : socks)
        all = rawConnect(s, port) && all;
    usleep(5000 + r.below(20000));
    setrlimit(RLIMIT_NOFILE, &was);
    for (int f : fill)
        close(f);
    VF_CHECK((all), "connect", "could not connect");
    for (int s : socks) {
        ReqGen gen{r, true};
        Str in = gen.all();
        Str problem = exchange(port, r, in, s);
        VF_CHECK((problem.empty()), "exchange", "%s; sent %s", problem.c_str(), esc(in).substr(0, 600).c_str());
    }
    evals(n);
    distinct(idx);
}

//---- Parts on their own

VF_WORKLOAD(escapes, 20000, 400000) {
    Str in = r.chance(1, 2) ? randBytes(r, 60) : randUtf8(r, 40);
    int64_t live = liveBytes();
    {
        Exact ex(in);
        Str out = str(String::format("{}", web::URLEscape{ex.view()}));
        Str back;
        for (size_t i = 0; i < out.size(); i++) {
            unsigned char c = (unsigned char) out[i];
            if (c == '%') {
                bool hex = i + 2 < out.size() && strchr("0123456789ABCDEF", out[i + 1]) && strchr("0123456789ABCDEF", out[i + 2]) && out[i + 1] && out[i + 2];
                VF_CHECKR((hex), , "escape", "%s from %s", esc(out).c_str(), esc(in).c_str());
                back += (char) strtoul(out.substr(i + 1, 2).c_str(), nullptr, 16);
                i += 2;
                bool plain = isalnum((unsigned char) back.back()) || (back.back() && strchr("-_.~", back.back()));
                VF_CHECK((!plain), "needless", "%s from %s", esc(out).c_str(), esc(in).c_str());
            } else {
                VF_CHECK((isalnum(c) || (c && strchr("-_.~", c))), "unescaped", "%s from %s", esc(out).c_str(), esc(in).c_str());
                back += (char) c;
            }
        }
        VF_CHECK((back == in), "unescape", "%s from %s", esc(out).c_str(), esc(in).c_str());
    }
    VF_CHECK((idx < 8 || liveBytes() == live), "leak", "%lld bytes", (long long) (liveBytes() - live));
    evals(1);
    distinct(hashStr(in));
}

VF_WORKLOAD(chunked, 5000, 100000) {
    Str head = "head" + Str(r.below(40), 'h'), body;
    body.reserve(1 << 17);
    bool owned = r.chance(1, 2), mode = r.chance(5, 6);
    int64_t live = liveBytes();
    {
        Str got;
        struct Sink : OutPipe {
            Str* got;
            bool* closed;
        };
        MemOutStream mout;
        static Str* sinkText;
        static u32 sinkClosed;
        sinkText = &got;
        sinkClosed = 0;
        static OutPipe::Funcs funcs = {[](OutPipe*) { sinkClosed++; },
                                       [](OutPipe*, StringView v) {
                                           *sinkText += str(v);
                                           return true;
                                       },
                                       [](OutPipe*, bool) { return true; }, OutPipe::seek_Empty};
        u32 memSize = 7 + r.below(6);
        {
            OutStream base{Owned<OutPipe>{new OutPipe{&funcs}}, memSize};
            OutStream* target = &base;
            Owned<OutStream> own;
            if (owned) {
                own = new OutStream{Owned<OutPipe>{new OutPipe{&funcs}}, memSize};
                target = own;
            }
            web::OutPipe_HTTPChunked* pipe = owned ? new web::OutPipe_HTTPChunked{std::move(own)} : new web::OutPipe_HTTPChunked{borrow(target)};
            {
                OutStream outs{Owned<OutPipe>{pipe}, 7 + r.below(8)};
                outs << view(head);
                outs.flushMem();
                pipe->setChunkMode(mode);
                for (u32 n = r.below(8); n > 0; n--) {
                    Str part = randBytes(r, r.chance(1, 4) ? 6000 : 60);
                    outs.write(view(part));
                    body += part;
                    if (r.chance(1, 3)) {
                        outs.flush();
                        VF_CHECK((mode ? got.size() >= head.size() + body.size() : got == head + body), "flush", "%zu bytes out after %zu", got.size(), head.size() + body.size());
                    }
                    if (r.chance(1, 5))
                        outs.flushMem();
                }
            }
            VF_CHECK((sinkClosed == (owned ? 1 : 0)), "close", "%u closed", sinkClosed);
        }
        VF_CHECK((got.substr(0, head.size()) == head), "head", "%s", esc(got).substr(0, 200).c_str());
        if (mode) {
            Str text = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + got.substr(std::min(head.size(), got.size()));
            Decoder d{text, 0, {}};
            Response resp;
            bool ok = d.response(resp, false);
            VF_CHECK((ok && resp.body == body && d.at == text.size()), "chunks", "%s: %zu bytes, not %zu", d.problem.c_str(), resp.body.size(), body.size());
        } else {
            VF_CHECK((got == head + body + "0\r\n\r\n"), "unchunked", "%zu bytes", got.size());
        }
    }
    VF_CHECK((idx < 8 || liveBytes() == live), "leak", "%lld bytes", (long long) (liveBytes() - live));
    evals(1);
    distinct(hashStr(head + body));
}

struct Capture : web::ResponseIface {
    MemOutStream mout;
    u32 began = 0, ended = 0;
    web::ResponseCode code = web::ResponseCode::Unknown;
    OutStream* beginResponseHeader(web::ResponseCode c) override {
        began++;
        code = c;
        return &mout;
    }
    void endResponseHeader() override {
        ended++;
    }
};

Str xml(const Str& s) {
    Str o;
    for (char c : s)
        o += c == '<' ? Str("&lt;") : c == '>' ? Str("&gt;") : c == '&' ? Str("&amp;") : c == '"' ? Str("&quot;") : Str(1, c);
    return o;
}

VF_WORKLOAD(echo, 2000, 40000) {
    Str out, want;
    {
        Capture cap;
        std::vector<Str> keep;
        for (u32 i = 0; i < 40; i++)
            keep.push_back(randOver(r, "ab<>&\"';:/ ", 20));
        u32 k = 0;
        cap.request.startLine = {view(keep[0]), view(keep[1]), view(keep[2])};
        k = 3;
        for (u32 n = r.below(6); n > 0; n--, k += 2)
            cap.request.headerFields.append({view(keep[k]), view(keep[k + 1])});
        cap.request.clientAddr = IPAddress::localHost(IPAddress::V4);
        cap.request.clientPort = (u16) r.below(65536);
        web::echo_serve(nullptr, "/echo", &cap);
        out = str(cap.mout.moveToString());
        want = vf::fmt("Connection from: <code>127.0.0.1:%u</code>", cap.request.clientPort);
        VF_CHECK((cap.began == 1 && cap.ended == 1 && cap.code == web::ResponseCode::OK), "framing", "%u %u", cap.began, cap.ended);
        VF_CHECK((out.find(want) != Str::npos), "address", "no %s in %s", want.c_str(), esc(out).substr(0, 500).c_str());
        want = "<pre>\n" + xml(keep[0]) + " " + xml(keep[1]) + " " + xml(keep[2]) + "\n";
        for (u32 j = 3; j < k; j += 2)
            want += xml(keep[j]) + ": " + xml(keep[j + 1]) + "\n";
        want += "</pre>\n<p>Environment variables:</p>\n<pre>\n";
        for (char** e = environ; *e; e++)
            want += xml(*e) + "\n";
        want += "</pre>\n</body>\n</html>\n";
        size_t at = out.find("<pre>\n");
        VF_CHECK((at != Str::npos && out.substr(at) == want), "echo", "%s, not %s", esc(out.substr(at == Str::npos ? 0 : at)).substr(0, 600).c_str(), esc(want).substr(0, 600).c_str());
    }
    evals(1);
    distinct(hashStr(out));
}

} // namespace

VF_MAIN()
