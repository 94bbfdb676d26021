#include "scn.h"

#include <set>
#include <sstream>

namespace scn {
Obj create(const TypeOps &t)
{
    Sut s;
    const alloc::NoFail n;
    return Obj(t, t.create());
}
Obj build(const TypeOps &t, const Graph &g, const std::vector<std::uint64_t> *fakeIds)
{
    auto o = create(t);
    bind::AssignCtx c(g);
    c.fakeIds = fakeIds;
    {
        Sut s;
        const alloc::NoFail n;
        t.assign(o.p, g.root, c);
    }
    Harness h;
    c.objs.clear();
    return o;
}
void assign(Obj &o, const Graph &g)
{
    bind::AssignCtx c(g);
    Sut s;
    const alloc::NoFail n;
    o.t->assign(o.p, g.root, c);
}
void release(bind::AssignCtx &c)
{
    for (std::size_t i = 0; i < c.objs.size(); ++i)
        if (c.objs[i] && c.resets[i]) {
            Sut s;
            c.resets[i](c.objs[i].get());
        }
    Sut s;
    c.objs.clear();
}
void release(bind::ExtractCtx &c)
{
    for (auto &o : c.owners) {
        Sut s;
        o.reset(o.obj);
    }
    Harness h;
    auto owners = std::move(c.owners);
    c = bind::ExtractCtx();
    Sut s;
    for (auto &o : owners)
        o.keep.reset();
}
Graph snapshot(const Obj &o, bind::ExtractCtx *ctx)
{
    Harness h;
    bind::ExtractCtx own;
    auto &c = ctx ? *ctx : own;
    auto v = o.t->extract(o.p, c);
    Graph g = c.g;
    g.root = std::move(v);
    return g;
}
Val canon(const Obj &o) { return model::canonical(*o.t->schema, snapshot(o)); }
Val flat(const Obj &o) { return model::unshared(*o.t->schema, snapshot(o)); }

const TypeOps &pick(const std::function<bool(const TypeOps &)> &filter)
{
    std::vector<const TypeOps *> c;
    for (auto &t : ops::types())
        if (filter(t))
            c.push_back(&t);
    return *c[ch().below(c.size())];
}
bool isBin(const TypeOps &t) { return t.bin; }
bool isJson(const TypeOps &t) { return t.json && !t.lossy; }
bool isJsonAny(const TypeOps &t) { return t.json; }
void drawPolicy(alloc::Policy &p, bool extreme)
{
    p.region = extreme ? int(ch().below(3)) : 0;
    p.reuse = int(ch().below(3));
    p.gapSeed = ch().chance(1, 2) ? 1 + ch().below(60000) : 0;
}
void restart(bool extreme)
{
    alloc::Policy p;
    drawPolicy(p, extreme);
    alloc::restart(p);
    const bool foreign = ch().chance(1, 5);
    setForeignLocale(foreign);
    if (foreign)
        count("fault:foreign global locale");
    ev("process starts, memory region %d reuse %d gaps %u%s", p.region, p.reuse, p.gapSeed, foreign ? ", decimal comma" : "");
}
model::GenOpts drawOpts(bool json)
{
    model::GenOpts o;
    o.json = json;
    static const unsigned budgets[] = { 12, 4, 30, 60, 150 };
    o.budget = budgets[ch().below(5)];
    o.longSizes = ch().chance(1, 6);
    o.sharedPool = ch().below(3) * 40;
    o.bulk = ch().chance(1, 500);
    static const unsigned depths[] = { 12, 40, 70, 140, 300, 600 };
    o.deep = ch().chance(1, 20) ? depths[ch().below(6)] : 0;
    return o;
}
bool versioned(const Schema &s)
{
    if (s.version)
        return true;
    for (auto &f : s.fields)
        if (f.asOf || f.until)
            return true;
    return false;
}
Val expectedRead(const TypeOps &t, const Graph &g)
{
    if (!versioned(*t.schema))
        return model::canonical(*t.schema, g);
    const auto bytes = model::encode(*t.schema, g, g.root);
    Graph out;
    model::DecodeSession sess;
    auto r = model::decode(*t.schema, bytes, 0, out, sess);
    out.root = r.value;
    return model::canonical(*t.schema, out);
}
void setSample(const std::string &s)
{
    if (run->stats && run->sample.empty())
        run->sample = s;
}
void checkMemory(const char *where)
{
    if (failed())
        return;
    if (alloc::liveBlocks())
        fail("leak", "%s: %llu blocks (%llu bytes) of the code under test are never freed", where, (unsigned long long)alloc::liveBlocks(),
            (unsigned long long)alloc::liveBytes());
    else if (alloc::mallocBalance() > 0)
        fail("leak", "%s: %lld blocks taken through malloc are never freed", where, (long long)alloc::mallocBalance());
}
static void finalizeSchema(Schema &s, std::set<Schema *> &path, std::set<Schema *> &all)
{
    if (path.count(&s)) {
        s.recursive = true;
        return;
    }
    if (!all.insert(&s).second)
        return;
    path.insert(&s);
    const auto sub = [&](const Schema *c) { finalizeSchema(const_cast<Schema &>(*c), path, all); };
    for (auto *c : s.elems)
        sub(c);
    for (auto *c : s.bases)
        sub(c);
    for (auto &f : s.fields)
        sub(f.type);
    path.erase(&s);
}
static void flags(const Schema &s, std::set<const Schema *> &seen, bool &shared, bool &unordered, bool &flt)
{
    if (!seen.insert(&s).second)
        return;
    shared = shared || s.kind == model::K::Shared;
    unordered = unordered || ((s.kind == model::K::Set || s.kind == model::K::Map) && s.unordered);
    flt = flt || s.kind == model::K::F32 || s.kind == model::K::F64;
    for (auto *c : s.elems)
        flags(*c, seen, shared, unordered, flt);
    for (auto *c : s.bases)
        flags(*c, seen, shared, unordered, flt);
    for (auto &f : s.fields)
        flags(*f.type, seen, shared, unordered, flt);
}
} // namespace scn

namespace sim {
void prepare()
{
    using namespace scn;
    std::set<Schema *> all, path;
    for (auto &t : ops::types())
        finalizeSchema(const_cast<Schema &>(*t.schema), path, all);
    for (auto *s : all) {
        std::set<const Schema *> seen;
        flags(*s, seen, s->hasShared, s->hasUnordered, s->hasFloat);
    }
    run->ch.load({});
    setForeignLocale(false);
}
// Everything with a first-time effect (static data of the library and the runtime) happens before the first run.
void warmup()
{
    using namespace scn;
    for (auto &t : ops::types()) {
        void *p = t.create();
        try {
            std::stringstream s;
            s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
            if (t.bin) {
                t.toBinary(p, s, 0);
                t.restore(p, s);
                t.restore(p, s); // fails
            }
        } catch (...) {
        }
        try {
            if (t.json) {
                std::string text;
                t.toJson(p, text);
                t.pull(p, text, nullptr);
                auto *e = ops::newErrors(0);
                t.pull(p, "[]", e);
                ops::freeErrors(e);
                t.pull(p, "{", nullptr);
            }
        } catch (...) {
        }
        t.destroy(p);
    }
}
} // namespace sim
