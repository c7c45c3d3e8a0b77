// Owning handles: every object is destroyed exactly once, at the moment its last owner lets go.
#include "plyvf.h"
#include <ply-runtime/container/Owned.h>
#include <ply-runtime/container/Reference.h>
#include <ply-runtime/container/WeakRef.h>
#include <ply-runtime/container/Functor.h>
#include <ply-runtime/container/HiddenArgFunctor.h>
#include <ply-runtime/container/LambdaView.h>
#include <ply-runtime/container/Any.h>
#include <ply-runtime/container/Switch.h>
#include <ply-runtime/container/SetInScope.h>
#include <ply-runtime/container/Tuple.h>
#include <ply-runtime/container/EnumIndexedArray.h>
#include <set>
using namespace ply;
using vf::Str;
using vf::Tracked;

// ---- objects with identities
static std::set<int> aliveIds, deadIds;
static int nextId = 1;
static int doubleKills = 0;
struct Node {
    int id;
    Owned<Node> next;
    Tracked t;
    Node(int extra = 0) : id{nextId++}, t{extra} {
        aliveIds.insert(id);
    }
    virtual ~Node() {
        if (!aliveIds.erase(id))
            doubleKills++;
        deadIds.insert(id);
    }
};
struct Derived : Node {
    Tracked more{5};
    Derived() : Node{1} {
    }
};
struct ByMember { // destroyed through its own destroy() hook
    int id;
    static int destroys;
    ByMember() : id{nextId++} {
        aliveIds.insert(id);
    }
    void destroy() {
        destroys++;
        if (!aliveIds.erase(id))
            doubleKills++;
        delete this;
    }
};
int ByMember::destroys = 0;

static bool balanced(const std::set<int>& want, const Str& log) {
    VF_CHECKR(doubleKills == 0, false, "owner-double", "an object was destroyed twice after %s", log.c_str());
    VF_CHECKR(Tracked::errors() == 0, false, "owner-double", "a dead member was used after %s", log.c_str());
    VF_CHECKR(aliveIds == want, false, "owner-alive", "%zu objects alive, %zu have an owner, after %s",
              aliveIds.size(), want.size(), log.c_str());
    return true;
}
struct ReportMem {
    size_t b0 = vf::liveBytes();
    const char* what;
    ReportMem(const char* what) : what{what} {
    }
    ~ReportMem() {
        if (!vf::failed() && vf::liveBytes() != b0)
            vf::fail("owner-leak", "%s: %zd bytes outlive their owners", what, (ssize_t) (vf::liveBytes() - b0));
    }
};

VF_WORKLOAD(owned, 5000, 60000) {
    ReportMem rm{"owned"};
    aliveIds.clear();
    deadIds.clear();
    Str log;
    {
        const u32 N = 5;
        Owned<Node> o[N];
        OptionallyOwned<Node> oo[N];
        Owned<ByMember> bm[2];
        std::vector<Node*> borrowed; // freed by hand
        auto chain = [](Node* n, std::set<int>& s) {
            for (; n; n = n->next.get())
                s.insert(n->id);
        };
        for (u32 step = 0; step < 40; step++) {
            u32 i = r.below(N), j = r.below(N), op = r.below(15);
            log += vf::fmt("%u:%u,%u ", op, i, j);
            vf::ctx(log);
            switch (op) {
                case 0:
                    o[i] = Owned<Node>::create();
                    break;
                case 1: {
                    Owned<Derived> d = Owned<Derived>::create();
                    Node* p = d.get();
                    o[i] = std::move(d);
                    VF_CHECK(!d.get() && o[i].get() == p, "owner-move", "moved-from owner still owns");
                    break;
                }
                case 2:
                    if (i != j) {
                        Node* p = o[j].get();
                        o[i] = std::move(o[j]);
                        VF_CHECK(o[i].get() == p && !o[j].get(), "owner-move", "move assignment");
                    }
                    break;
                case 3:
                    o[i].clear();
                    VF_CHECK(!o[i].get(), "owner-clear", "clear() left a pointer");
                    break;
                case 4: {
                    Node* p = o[i].release();
                    VF_CHECK(!o[i].get(), "owner-release", "release() left a pointer");
                    if (j == i || !p) {
                        o[i] = p; // give it back
                    } else {
                        o[j] = Owned<Node>::adopt(p);
                    }
                    break;
                }
                case 5: { // push on a list
                    Owned<Node> n = Owned<Node>::create(7);
                    n->next = std::move(o[i]);
                    o[i] = std::move(n);
                    break;
                }
                case 6: // pop from a list: the new value lives inside the object being replaced
                    if (o[i].get())
                        o[i] = std::move(o[i]->next);
                    break;
                case 7:
                    o[i] = new Node{3};
                    break;
                case 8:
                    oo[i] = OptionallyOwned<Node>{std::move(o[j])};
                    VF_CHECK(!o[j].get(), "owner-move", "still owned");
                    break;
                case 9: {
                    Node* n = new Node{9};
                    borrowed.push_back(n);
                    oo[i] = OptionallyOwned<Node>{borrow(n)};
                    VF_CHECK(!oo[i].isOwned() && oo[i].get() == n, "owner-borrow", "borrowed pointer is owned");
                    break;
                }
                case 10:
                    if (i != j) {
                        bool w = oo[j].isOwned();
                        Node* p = oo[j].get();
                        oo[i] = std::move(oo[j]);
                        VF_CHECK(oo[i].get() == p && oo[i].isOwned() == w && !oo[j].get(), "owner-move",
                                 "OptionallyOwned move");
                    }
                    break;
                case 11: {
                    bool w = oo[i].isOwned();
                    Node* p = oo[i].release();
                    VF_CHECK(!oo[i].get() && !oo[i].isOwned(), "owner-release", "OptionallyOwned release");
                    if (w)
                        delete p;
                    break;
                }
                case 12: {
                    Owned<Node> t{std::move(o[i])};
                    OptionallyOwned<Node> u{OptionallyOwned<Node>{std::move(t)}};
                    VF_CHECK(!t.get() && !o[i].get(), "owner-move", "move construction");
                    break; // destroyed here
                }
                case 13:
                    bm[i & 1] = Owned<ByMember>::create();
                    break;
                case 14:
                    bm[i & 1] = std::move(bm[1 - (i & 1)]);
                    break;
            }
            if (vf::failed())
                break;
            std::set<int> want;
            for (u32 k = 0; k < N; k++) {
                chain(o[k].get(), want);
                if (oo[k].isOwned())
                    chain(oo[k].get(), want);
            }
            for (auto* b : borrowed)
                want.insert(b->id);
            for (auto& b : bm)
                if (b.get())
                    want.insert(b->id);
            if (!balanced(want, log))
                break;
        }
        for (auto* b : borrowed)
            delete b;
    }
    if (vf::failed())
        vf::abandon();
    VF_CHECK(aliveIds.empty() && !doubleKills, "owner-alive", "%zu objects outlive every owner after %s",
             aliveIds.size(), log.c_str());
    aliveIds.clear();
    deadIds.clear();
    vf::evals(40);
    vf::distinct(log);
    if (vf::wantSample())
        vf::sample(log);
}

// ---- reference counting
struct Shared : RefCounted<Shared> {
    int id;
    Reference<Shared> next;
    Tracked t{1};
    Shared() : id{nextId++} {
        aliveIds.insert(id);
    }
    void onRefCountZero() {
        if (!aliveIds.erase(id))
            doubleKills++;
        delete this;
    }
};
VF_WORKLOAD(reference, 5000, 60000) {
    ReportMem rm{"reference"};
    aliveIds.clear();
    Str log;
    {
        const u32 N = 6;
        Reference<Shared> f[N];
        for (u32 step = 0; step < 40; step++) {
            u32 i = r.below(N), j = r.below(N), op = r.below(10);
            log += vf::fmt("%u:%u,%u ", op, i, j);
            vf::ctx(log);
            switch (op) {
                case 0:
                    f[i] = new Shared;
                    break;
                case 1:
                    f[i] = f[j]; // also to itself
                    break;
                case 2:
                    if (i != j) {
                        f[i] = std::move(f[j]);
                        VF_CHECK(f[j].isEmpty(), "ref-move", "moved-from reference is not empty");
                    }
                    break;
                case 3:
                    f[i].clear();
                    break;
                case 4: {
                    Reference<Shared> c{f[i]}, d{std::move(c)};
                    VF_CHECK(c.isEmpty() && d.get() == f[i].get() && (bool) d == (d.get() != nullptr), "ref-move",
                             "move construction");
                    break;
                }
                case 5:
                    f[i] = f[j].get();
                    break;
                case 6: { // push
                    Reference<Shared> n = new Shared;
                    n->next = f[i];
                    f[i] = n;
                    break;
                }
                case 7: // pop by copy
                    if (f[i])
                        f[i] = f[i]->next;
                    break;
                case 8: // pop by move: the source may die with the old target
                    if (f[i]) {
                        bool only = f[i]->getRefCount() == 1;
                        if (only)
                            f[i] = std::move(f[i]->next);
                    }
                    break;
                case 9: {
                    Shared* p = f[i].release();
                    if (p)
                        p->decRef();
                    break;
                }
            }
            if (vf::failed())
                break;
            // reachable objects and how many references each has
            std::map<Shared*, int> refs;
            std::vector<Shared*> todo;
            for (auto& x : f)
                if (x && refs[x.get()]++ == 0)
                    todo.push_back(x.get());
            while (!todo.empty()) {
                Shared* s = todo.back();
                todo.pop_back();
                if (s->next && refs[s->next.get()]++ == 0)
                    todo.push_back(s->next.get());
            }
            std::set<int> want;
            for (auto& x : refs) {
                want.insert(x.first->id);
                VF_EXPECT(x.first->getRefCount() == x.second, "ref-count", "count is %d with %d references after %s",
                          x.first->getRefCount(), x.second, log.c_str());
            }
            if (vf::failed() || !balanced(want, log))
                break;
        }
        if (vf::failed())
            vf::abandon();
    }
    VF_CHECK(aliveIds.empty(), "owner-alive", "%zu objects outlive every reference after %s", aliveIds.size(),
             log.c_str());
    aliveIds.clear();
    vf::evals(40);
    vf::distinct(log);
}

// ---- strong and weak counts
struct Dual : DualRefCounted<Dual> {
    int partial = 0;
    Tracked payload{1};
    static int fulls;
    void onPartialRefCountZero() {
        partial++;
    }
    void onFullRefCountZero() {
        fulls++;
        if (partial != 1)
            doubleKills++;
        delete this;
    }
};
int Dual::fulls = 0;
VF_WORKLOAD(weakref, 4000, 40000) {
    ReportMem rm{"weakref"};
    Str log;
    int64_t live0 = Tracked::live();
    {
        const u32 N = 4;
        Reference<Dual> s[N];
        ply::WeakRef<Dual> w[N];
        for (u32 step = 0; step < 40; step++) {
            u32 i = r.below(N), j = r.below(N), op = r.below(10);
            log += vf::fmt("%u:%u,%u ", op, i, j);
            vf::ctx(log);
            switch (op) {
                case 0:
                    s[i] = new Dual;
                    break;
                case 1:
                    s[i] = s[j];
                    break;
                case 2:
                    s[i].clear();
                    break;
                case 3:
                    if (s[j])
                        w[i] = s[j].get();
                    break;
                case 4: { // weak references may only be added while a strong one exists
                    Dual* d = w[j];
                    if (!d || d->getRefCount() > 0)
                        w[i] = w[j];
                    break;
                }
                case 5:
                    w[i] = nullptr;
                    break;
                case 6:
                    if (i != j)
                        w[i] = std::move(w[j]);
                    break;
                case 7:
                    if (w[i] && w[i]->getRefCount() > 0)
                        s[j] = w[i];
                    break;
                case 8:
                    if (!w[i] && s[j])
                        w[i].setFromNull(s[j]);
                    break;
                case 9:
                    if (w[i] && w[i]->getRefCount() > 0) {
                        ply::WeakRef<Dual> c{w[i]}, d{std::move(c)};
                        VF_CHECK(!(Dual*) c && (Dual*) d == (Dual*) w[i], "weak-move", "move construction");
                    }
                    break;
            }
            std::map<Dual*, std::pair<u32, u32>> cnt;
            for (auto& x : s)
                if (x)
                    cnt[x.get()].first++;
            for (auto& x : w)
                if (x)
                    cnt[x].second++;
            for (auto& c : cnt) {
                VF_EXPECT(c.first->getRefCount() == c.second.first && c.first->getWeakRefCount() == c.second.second,
                          "weak-count", "counts %u/%u, references %u/%u after %s", c.first->getRefCount(),
                          c.first->getWeakRefCount(), c.second.first, c.second.second, log.c_str());
                VF_EXPECT(c.first->partial == (c.second.first == 0), "weak-partial",
                          "partial teardown ran %d times with %u strong references after %s", c.first->partial,
                          c.second.first, log.c_str());
            }
            VF_EXPECT(Tracked::live() - live0 == (int64_t) cnt.size(), "weak-alive",
                      "%lld objects alive, %zu referenced after %s", (long long) (Tracked::live() - live0), cnt.size(),
                      log.c_str());
            if (vf::failed() || doubleKills)
                break;
        }
    }
    VF_CHECK(doubleKills == 0, "weak-partial", "fully destroyed before (or after two) partial teardowns: %s",
             log.c_str());
    VF_CHECK(Tracked::live() == live0, "weak-alive", "objects outlive every reference: %s", log.c_str());
    vf::evals(40);
    vf::distinct(log);
}

// ---- callables
VF_WORKLOAD(functor, 4000, 40000) {
    ReportMem rm{"functor"};
    int64_t live0 = Tracked::live();
    Str log;
    {
        const u32 N = 4;
        Functor<int(int)> f[N];
        int base[N];
        bool tracked[N] = {};
        bool valid[N] = {};
        for (u32 step = 0; step < 30; step++) {
            u32 i = r.below(N), j = r.below(N), op = r.below(6);
            int v = (int) r.below(1000);
            log += vf::fmt("%u:%u,%u ", op, i, j);
            vf::ctx(log);
            switch (op) {
                case 0: { // captured state with a destructor
                    Tracked t{v};
                    f[i] = Functor<int(int)>{[t](int x) {
                        t.verify();
                        return t.value + x;
                    }};
                    base[i] = v;
                    valid[i] = tracked[i] = true;
                    break;
                }
                case 1: {
                    f[i] = [v](int x) { return v + x; };
                    base[i] = v;
                    valid[i] = true;
                    tracked[i] = false;
                    break;
                }
                case 2:
                    if (i != j) {
                        f[i] = std::move(f[j]);
                        base[i] = base[j];
                        valid[i] = valid[j];
                        tracked[i] = tracked[j];
                        valid[j] = tracked[j] = false;
                    }
                    break;
                case 3: {
                    Functor<int(int)> g{std::move(f[i])};
                    VF_CHECK(!f[i].isValid() && g.isValid() == valid[i], "functor-move", "move construction");
                    if (valid[i])
                        VF_CHECK(g(5) == base[i] + 5, "functor-call", "moved functor gives another result");
                    valid[i] = tracked[i] = false;
                    break;
                }
                case 4:
                    f[i] = Functor<int(int)>{};
                    valid[i] = tracked[i] = false;
                    break;
                case 5: {
                    Owned<Tracked> ot = Owned<Tracked>::create(v); // move-only capture
                    f[i] = [o = std::move(ot)](int x) { return o->value + x; };
                    base[i] = v;
                    valid[i] = tracked[i] = true;
                    break;
                }
            }
            int64_t want = 0;
            for (u32 k = 0; k < N; k++) {
                VF_EXPECT(f[k].isValid() == valid[k] && (bool) f[k] == valid[k], "functor-valid", "validity after %s",
                          log.c_str());
                if (f[k].isValid() && valid[k])
                    VF_EXPECT(f[k](7) == base[k] + 7, "functor-call", "functor gives another result after %s",
                              log.c_str());
                want += tracked[k];
            }
            VF_EXPECT(Tracked::live() - live0 == want, "functor-alive", "%lld captured objects alive, expected %lld: %s",
                      (long long) (Tracked::live() - live0), (long long) want, log.c_str());
            if (vf::failed())
                vf::abandon();
        }
        int sum = 0;
        auto add = [&sum](int x) {
            sum += x;
            return sum;
        };
        LambdaView<int(int)> lv{add};
        VF_CHECK(lv.isValid() && lv(3) == 3 && lv(4) == 7 && sum == 7, "lambdaview", "LambdaView call");
        VF_CHECK(!LambdaView<int(int)>{}.isValid(), "lambdaview", "empty LambdaView is valid");
        HiddenArgFunctor<int(int)> h{[](int* p, int x) { return *p += x; }, &sum};
        VF_CHECK(h && h(10) == 17 && sum == 17 && !HiddenArgFunctor<int(int)>{}, "hiddenarg", "HiddenArgFunctor");
    }
    VF_CHECK(Tracked::live() == live0, "functor-alive", "captured objects outlive their functor: %s", log.c_str());
    vf::evals(30);
    vf::distinct(log);
}

// ---- tagged unions
struct Sw {
    enum class ID { A, B, C, Count };
    struct A {
        Tracked t{1};
    };
    struct B {
        String s;
        u32 n = 0;
    };
    struct C {
        Array<Tracked> items;
    };
    union Storage_ {
        A a;
        B b;
        C c;
        PLY_INLINE Storage_() {
        }
        PLY_INLINE ~Storage_() {
        }
    };
    SWITCH_FOOTER(Sw, A)
    SWITCH_ACCESSOR(A, a)
    SWITCH_ACCESSOR(B, b)
    SWITCH_ACCESSOR(C, c)
};
SWITCH_TABLE_BEGIN(Sw)
SWITCH_TABLE_STATE(Sw, A)
SWITCH_TABLE_STATE(Sw, B)
SWITCH_TABLE_STATE(Sw, C)
SWITCH_TABLE_END(Sw)

VF_WORKLOAD(tagged_union, 4000, 40000) {
    ReportMem rm{"switch"};
    int64_t live0 = Tracked::live();
    Str log;
    struct M {
        int id = 0;
        int a = 1;
        Str s;
        u32 n = 0;
        std::vector<int> items;
        bool operator==(const M& o) const {
            return id == o.id && (id != 0 || a == o.a) && (id != 1 || (s == o.s && n == o.n)) &&
                   (id != 2 || items == o.items);
        }
    };
    auto check = [&](Sw& s, const M& m) {
        VF_CHECKR((int) s.id == m.id && (bool) s.a() == (m.id == 0) && (bool) s.b() == (m.id == 1) &&
                      (bool) s.c() == (m.id == 2),
                  false, "switch-id", "active state is %d, expected %d after %s", (int) s.id, m.id, log.c_str());
        if (m.id == 0)
            VF_CHECKR(s.a()->t.ok() && s.a()->t.value == m.a, false, "switch-value", "state A after %s", log.c_str());
        if (m.id == 1)
            VF_CHECKR(vf::str(s.b()->s.view()) == m.s && s.b()->n == m.n, false, "switch-value", "state B after %s",
                      log.c_str());
        if (m.id == 2) {
            VF_CHECKR(s.c()->items.numItems() == m.items.size(), false, "switch-value", "state C after %s",
                      log.c_str());
            for (u32 i = 0; i < m.items.size(); i++)
                VF_CHECKR(s.c()->items[i].ok() && s.c()->items[i].value == m.items[i], false, "switch-value",
                          "state C after %s", log.c_str());
        }
        return true;
    };
    {
        const u32 N = 4;
        Sw s[N];
        M m[N];
        for (u32 step = 0; step < 40; step++) {
            u32 i = r.below(N), j = r.below(N), op = r.below(9);
            int v = (int) r.below(1000);
            log += vf::fmt("%u:%u,%u ", op, i, j);
            vf::ctx(log);
            switch (op) {
                case 0:
                    s[i].a().switchTo();
                    s[i].a()->t = Tracked{v};
                    m[i] = M{};
                    m[i].a = v;
                    break;
                case 1: {
                    auto b = s[i].b().switchTo();
                    b->n = (u32) v;
                    b->s = String{vf::view(vf::fmt("text %d that is owned", v))};
                    m[i] = M{};
                    m[i].id = 1;
                    m[i].n = (u32) v;
                    m[i].s = vf::fmt("text %d that is owned", v);
                    break;
                }
                case 2: {
                    s[i].c().switchTo();
                    m[i] = M{};
                    m[i].id = 2;
                    for (u32 k = r.below(6); k > 0; k--) {
                        s[i].c()->items.append(v + (int) k);
                        m[i].items.push_back(v + (int) k);
                    }
                    break;
                }
                case 3:
                    s[i] = s[j]; // also to itself
                    m[i] = M(m[j]);
                    break;
                case 4:
                    if (i != j) {
                        s[i] = std::move(s[j]);
                        m[i] = m[j];
                        VF_CHECK((int) s[j].id == m[i].id, "switch-id", "moved-from state changed");
                        s[j].a().switchTo();
                        m[j] = M{};
                    }
                    break;
                case 5: {
                    Sw c{s[j]};
                    if (!check(c, m[j]))
                        break;
                    Sw d{std::move(c)};
                    check(d, m[j]);
                    break;
                }
                case 6: {
                    Sw::ID id = (Sw::ID) r.below(3);
                    s[i].switchTo(id);
                    m[i] = M{};
                    m[i].id = (int) id;
                    if (id == Sw::ID::B)
                        m[i].n = 0;
                    break;
                }
                case 7: {
                    Sw::A a;
                    a.t = Tracked{v};
                    Sw c{std::move(a)};
                    M mm;
                    mm.a = v;
                    check(c, mm);
                    break;
                }
                case 8:
                    if (s[i].b()) {
                        Sw::B b;
                        b.n = (u32) v;
                        s[i].b() = b;
                        m[i].n = (u32) v;
                        m[i].s.clear();
                    }
                    break;
            }
            int64_t want = 0;
            for (u32 k = 0; k < N && !vf::failed(); k++) {
                check(s[k], m[k]);
                want += m[k].id == 0 ? 1 : m[k].id == 2 ? (int64_t) m[k].items.size() : 0;
            }
            VF_EXPECT(Tracked::live() - live0 == want && !Tracked::errors(), "switch-alive",
                      "%lld state members alive, expected %lld after %s", (long long) (Tracked::live() - live0),
                      (long long) want, log.c_str());
            if (vf::failed())
                vf::abandon();
        }
    }
    VF_CHECK(Tracked::live() == live0, "switch-alive", "members outlive their union: %s", log.c_str());
    vf::evals(40);
    vf::distinct(log);
}

// ---- scopes, tuples, enum-indexed arrays, type-erased values
enum class Fruit { Apple, Pear, Plum, Count };
struct Wide {
    Tracked a{1}, b{2};
    u64 pad[5] = {};
    Wide(int x) : a{x} {
    }
};
VF_WORKLOAD(small_holders, 2500, 20000) {
    ReportMem rm{"holders"};
    int64_t live0 = Tracked::live();
    int v = (int) r.below(100000), w = (int) r.below(100000);
    vf::distinct(vf::mix((uint64_t) v << 20 | (uint64_t) w));
    {
        String s = String::from(v);
        Tracked t{v};
        int runs = 0;
        {
            PLY_SET_IN_SCOPE(s, String::from(w));
            PLY_SET_IN_SCOPE(t, Tracked{w});
            VF_CHECK(s == String::from(w) && t.value == w, "scope-set", "value inside the scope");
            {
                auto x = setOnScopeExit([&] { runs++; });
                VF_CHECK(runs == 0, "scope-exit", "callback ran early");
            }
            VF_CHECK(runs == 1, "scope-exit", "callback ran %d times", runs);
        }
        VF_CHECK(s == String::from(v) && t.value == v, "scope-set", "value not restored");
        Tuple<String, Tracked> a{String::from(v), Tracked{w}};
        Tuple<String, Tracked> b = a;
        Tuple<String, Tracked> c = std::move(a);
        VF_CHECK(b == c && b.first == String::from(v) && c.second.value == w, "tuple", "tuple copy/move");
        Tuple<StringView, int> d;
        (void) d;
        Tuple<String, Tracked, int> e{String::from(w), Tracked{v}, 3};
        Tuple<String, Tracked, int> f = e;
        VF_CHECK(e == f && f.third == 3 && f.second.value == v, "tuple", "3-tuple copy");
        f.third = 4;
        VF_CHECK(!(e == f), "tuple", "3-tuple equality");
        EnumIndexedArray<Tracked, Fruit> arr(Tracked{v});
        VF_CHECK(arr.numItems() == 3 && arr[Fruit::Plum].value == v, "enumarray", "fill");
        arr[Fruit::Pear] = Tracked{w};
        u32 n = 0;
        for (Tracked& x : arr)
            VF_CHECK(x.value == (n++ == 1 ? w : v), "enumarray", "iteration");
        VF_CHECK(n == 3 && arr.view().numItems == 3 && arr[1u].value == w, "enumarray", "size");
        Any any1{(u32*) nullptr, (u32) v};
        Any any2{(Wide*) nullptr, v};
        Any any3{(u64*) nullptr, (u64) w};
        VF_CHECK(*any1.get<u32>() == (u32) v && any2.get<Wide>()->a.value == v && any2.get<Wide>()->b.value == 2 &&
                     *any3.get<u64>() == (u64) w,
                 "any", "stored value");
        any1.destruct<u32>();
        any2.destruct<Wide>();
        any3.destruct<u64>();
    }
    VF_CHECK(Tracked::live() == live0 && !Tracked::errors(), "holder-alive", "members outlive their holder");
}
VF_MAIN()
