// Persistence: objects written with their schema and read back into the same types, into changed types, and past unknown ones.
#include "reflectvf.h"
#include <ply-reflect/PersistRead.h>
#include <ply-reflect/PersistWrite.h>

namespace {
struct Links {
    PLY_REFLECT()
    Array<Owned<v1::Leaf>> owns;
    Array<v1::Leaf*> refs;
    String tail;
};
// A type that holds objects of its own type
struct Branch {
    PLY_REFLECT()
    u32 n = 0;
    Array<Owned<Branch>> kids;
    String name;
    Array<Branch> more;
    Array<Branch*> back;
};
Str dump(const Branch& b) {
    Str s = vf::fmt("(%u %s", b.n, vf::str(b.name).c_str());
    for (const Owned<Branch>& k : b.kids)
        s += dump(*k);
    s += "|";
    for (const Branch& k : b.more)
        s += dump(k);
    return s + ")";
}
void grow(vf::Rng& r, Branch& b, u32 depth) {
    b.n = r.below(1000000);
    b.name = vf::rstr(r);
    for (u32 k = depth ? r.below(4) : 0; k > 0; k--) {
        Branch* kid = new Branch;
        grow(r, *kid, depth - 1);
        b.kids.append(kid);
    }
    for (u32 k = depth ? r.below(3) : 0; k > 0; k--)
        grow(r, b.more.append(), depth - 1);
}
struct Resolver : PersistentTypeResolver {
    TypeDescriptor* type = nullptr;
    FormatDescriptor* seen = nullptr;
    TypeDescriptor* getType(FormatDescriptor* f) override {
        seen = f;
        return type;
    }
};
// One stream holds the schema, the other the objects.
struct Writer {
    MemOutStream schema, data;
    WriteFormatContext formats{&schema};
    WriteObjectContext ctx{&data, &formats};
};
template <class T>
void put(Writer& w, T& obj) {
    writeObject(AnyObject::bind(&obj), &w.ctx);
}
} // namespace
PLY_STRUCT_BEGIN(Branch)
PLY_STRUCT_MEMBER(n) PLY_STRUCT_MEMBER(kids) PLY_STRUCT_MEMBER(name) PLY_STRUCT_MEMBER(more) PLY_STRUCT_MEMBER(back) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(Links)
PLY_STRUCT_MEMBER(owns) PLY_STRUCT_MEMBER(refs) PLY_STRUCT_MEMBER(tail) PLY_STRUCT_END()

VF_WORKLOAD(roundTrips, 2500, 50000) {
    s64 live = vf::liveBytes();
    {
        std::vector<std::unique_ptr<v1::Tree>> objs;
        std::vector<Str> want, want2;
        Writer w;
        u32 n = 1 + r.below(3);
        for (u32 i = 0; i < n; i++) {
            objs.emplace_back(new v1::Tree);
            vf::fill(r, *objs.back());
            want.push_back(vf::dump(*objs.back()));
            want2.push_back(vf::later(*objs.back()));
            put(w, *objs.back());
        }
        w.formats.endSchema();
        objs.clear();
        Str schemaBytes = vf::str(w.schema.moveToString()), dataBytes = vf::str(w.data.moveToString());
        for (u32 version = 1; version <= 2; version++) {
            vf::Exact sm(schemaBytes), dm(dataBytes);
            ViewInStream sin{sm.view()}, din{dm.view()};
            Schema schema;
            readSchema(schema, &sin);
            VF_CHECK(sin.atEOF() || sin.getSeekPos() == schemaBytes.size(), "schema-end", "the schema reader stops at %llu of %zu", (unsigned long long) sin.getSeekPos(), schemaBytes.size());
            Resolver res;
            res.type = version == 1 ? getTypeDescriptor<v1::Tree>() : getTypeDescriptor<v2::Tree>();
            ReadObjectContext ctx{&schema, &din, &res};
            for (u32 i = 0; i < n; i++) {
                AnyOwnedObject got = readObject(&ctx);
                VF_CHECK(got.data, "missing", "object %u of %u", i, n);
                Str d = version == 1 ? vf::dump(*got.cast<v1::Tree>()) : vf::dump(*got.cast<v2::Tree>());
                const Str& x = version == 1 ? want[i] : want2[i];
                VF_CHECK(d == x, version == 1 ? "roundtrip" : "new-version", "wrote %s, read %s", x.substr(0, 3000).c_str(), d.substr(0, 3000).c_str());
                VF_CHECK(res.seen && res.seen->formatKey == (u8) FormatKey::Struct && vf::str(static_cast<FormatDescriptor_Struct*>(res.seen)->name) == "v1::Tree", "format-name",
                         "the root format isn't v1::Tree");
            }
            AnyOwnedObject none = readObject(&ctx);
            VF_CHECK(!none.data, "extra", "an object after the last");
            VF_CHECK(din.getSeekPos() == dataBytes.size(), "data-end", "the reader stops at %llu of %zu", (unsigned long long) din.getSeekPos(), dataBytes.size());
            vf::evals(n);
        }
        vf::distinct(vf::hashStr(want[0]));
    }
    VF_CHECK(idx < 8 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}

// skip() passes over exactly one object of any format.
VF_WORKLOAD(skips, 800, 16000) {
    s64 live = vf::liveBytes();
    {
        v1::Tree a;
        vf::fill(r, a);
        v1::Leaf mark = vf::leaf(r);
        Writer w;
        put(w, a);
        put(w, mark);
        w.formats.endSchema();
        Str sb = vf::str(w.schema.moveToString()), db = vf::str(w.data.moveToString());
        vf::Exact sm(sb), dm(db);
        ViewInStream sin{sm.view()}, din{dm.view()};
        Schema schema;
        readSchema(schema, &sin);
        Resolver res;
        res.type = getTypeDescriptor<v1::Leaf>();
        ReadObjectContext ctx{&schema, &din, &res};
        skip(&ctx, schema.getFormatDesc(ctx.in.read<u32>()));
        AnyOwnedObject got = readObject(&ctx);
        VF_CHECK(got.data && vf::dump(*got.cast<v1::Leaf>()) == vf::dump(mark), "skip", "after skipping, read %s",
                 got.data ? vf::dump(*got.cast<v1::Leaf>()).c_str() : "nothing");
        // Reading into an unrelated type ignores what doesn't fit and stays in step.
        vf::evals(1);
        vf::distinct(vf::hashStr(db));
    }
    VF_CHECK(idx < 8 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}

// Pointers to owned objects point to the corresponding objects.
VF_WORKLOAD(links, 800, 16000) {
    s64 live = vf::liveBytes();
    {
        Links a;
        u32 n = 1 + r.size(6);
        for (u32 i = 0; i < n; i++)
            a.owns.append(vf::newLeaf(r));
        std::vector<u32> to;
        for (u32 k = r.size(8); k > 0; k--) {
            to.push_back(r.below(n));
            a.refs.append(a.owns[to.back()].get());
        }
        a.tail = vf::rstr(r);
        Writer w;
        // The object data, then the link table
        put(w, a);
        w.formats.endSchema();
        String data = w.data.moveToString();
        MemOutStream table;
        resolveLinksAndWriteLinkTable({data.bytes, data.numBytes}, &table, &w.ctx.ptrResolver);
        Str sb = vf::str(w.schema.moveToString()), db = vf::str(data), tb = vf::str(table.moveToString());
        vf::Exact sm(sb), dm(db), tm(tb);
        ViewInStream sin{sm.view()}, din{dm.view()}, tin{tm.view()};
        Schema schema;
        readSchema(schema, &sin);
        Resolver res;
        res.type = getTypeDescriptor<Links>();
        ReadObjectContext ctx{&schema, &din, &res};
        NativeEndianReader tr{&tin};
        readLinkTable(&tr, &ctx.ptrResolver);
        AnyOwnedObject got = readObject(&ctx);
        VF_CHECK(got.data, "links-missing", "nothing was read");
        resolveLinks(&ctx.ptrResolver);
        Links& b = *got.cast<Links>();
        VF_CHECK(b.owns.numItems() == n && b.refs.numItems() == to.size() && b.tail == a.tail, "links", "%u owned, %u pointers", b.owns.numItems(),
                 b.refs.numItems());
        for (u32 i = 0; i < n; i++)
            VF_CHECK(vf::dump(*b.owns[i]) == vf::dump(*a.owns[i]), "links-owned", "object %u", i);
        for (u32 i = 0; i < to.size(); i++)
            VF_CHECK(b.refs[i] == b.owns[to[i]].get(), "links-target", "pointer %u doesn't point to object %u", i, to[i]);
        vf::evals(1);
        vf::distinct(vf::hashStr(db));
    }
    VF_CHECK(idx < 8 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}

// A type that holds objects of its own type, alone or after another type
VF_WORKLOAD(recursive, 600, 12000) {
    s64 live = vf::liveBytes();
    {
        Branch a;
        grow(r, a, r.below(4));
        v1::Leaf mark = vf::leaf(r);
        Writer w;
        bool first = r.chance(1, 3), skipIt = r.chance(1, 3);
        if (first)
            put(w, mark);
        put(w, a);
        put(w, mark);
        w.formats.endSchema();
        Str sb = vf::str(w.schema.moveToString()), db = vf::str(w.data.moveToString());
        vf::Exact sm(sb), dm(db);
        ViewInStream sin{sm.view()}, din{dm.view()};
        Schema schema;
        readSchema(schema, &sin);
        Resolver res;
        res.type = getTypeDescriptor<v1::Leaf>();
        ReadObjectContext ctx{&schema, &din, &res};
        if (first) {
            AnyOwnedObject got = readObject(&ctx);
            VF_CHECK(got.data && vf::dump(*got.cast<v1::Leaf>()) == vf::dump(mark), "recursive-before", "the object before differs");
        }
        if (skipIt) {
            skip(&ctx, schema.getFormatDesc(ctx.in.read<u32>()));
        } else {
            res.type = getTypeDescriptor<Branch>();
            AnyOwnedObject got = readObject(&ctx);
            VF_CHECK(got.data && dump(*got.cast<Branch>()) == dump(a), "recursive", "wrote %s, read %s", dump(a).substr(0, 2000).c_str(), got.data ? dump(*got.cast<Branch>()).substr(0, 2000).c_str() : "nothing");
            res.type = getTypeDescriptor<v1::Leaf>();
        }
        AnyOwnedObject got = readObject(&ctx);
        VF_CHECK(got.data && vf::dump(*got.cast<v1::Leaf>()) == vf::dump(mark), "recursive-after", "the object after differs");
        vf::evals(1);
        vf::distinct(vf::hashStr(db));
    }
    VF_CHECK(idx < 8 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}

VF_MAIN()
