// C08: identity of shared objects across sessions, for every memory layout.
#include "scn.h"

#include <deque>

using namespace scn;

namespace {
struct Session {
    io::Sink sink;
    std::ostream out;
    ops::Writer *w = nullptr;
    struct Item {
        const TypeOps *t;
        std::size_t gen;
        Val value;
        std::size_t end;
        unsigned epoch;
    };
    std::vector<Item> items;
    std::vector<std::size_t> gens; // generations of objects this session has met
    unsigned epoch = 0;     // sessions before this one whose output it appends to
    bool restarts = false;
    Session(std::size_t buf)
        : sink(buf)
        , out(&sink)
    {
    }
};
bool sharedBin(const TypeOps &t) { return t.bin && t.schema->hasShared; }
bool wild(const TypeOps &t) { return t.bin && !std::strcmp(t.name, "Wild"); }

// addresses an allocator may hand out on some machine: around every border of the encoding
std::uint64_t drawAddress()
{
    const auto shift = ch().below(65);
    std::uint64_t base = shift == 64 ? ~0ull : 1ull << shift;
    base += ch().below(7);
    base -= 3;
    if (ch().chance(1, 3))
        base = ch().bits(64);
    return base;
}

void c08()
{
    g_stepLimit = 60000000;
    restart();
    const auto nSessions = 1 + (ch().below(3) == 2 ? 1 : 0);
    std::vector<std::unique_ptr<Session>> sessions;
    for (unsigned i = 0; i < nSessions; ++i) {
        sessions.emplace_back(new Session(std::size_t(ch().below(2) ? 0 : 256)));
        sessions.back()->out.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        sessions.back()->restarts = ch().chance(1, 5);
        Sut s;
        sessions.back()->w = ops::newWriter(sessions.back()->out);
    }
    // generations of objects: the objects of one are gone before those of the next exist
    std::deque<Graph> graphs;
    const auto generations = 1 + (ch().below(3) == 2 ? 1 + ch().below(2) : 0);
    std::set<std::uint64_t> usedFakes; // also over generations: these are not memory that is freed
    for (unsigned gen = 0; gen < generations && !failed(); ++gen) {
        graphs.emplace_back();
        auto &g = graphs.back();
        struct Root {
            const TypeOps *t;
            Val v;
            Obj o;
        };
        std::vector<Root> roots;
        const auto n = 1 + ch().below(4);
        const bool onlyWild = ch().chance(1, 4);
        auto opts = drawOpts(false);
        for (unsigned i = 0; i < n; ++i) {
            opts.sharedPool = 30 + 30 * ch().below(3);
            opts.cycles = ch().chance(1, 2);
            Root r{ &pick(onlyWild ? wild : sharedBin), {}, {} };
            r.v = model::generateInto(g, *r.t->schema, opts);
            roots.push_back(std::move(r));
        }
        std::vector<std::uint64_t> fakes(g.pool.size());
        const bool fake = ch().chance(1, 2);
        for (std::size_t i = 0; i < fakes.size(); ++i) {
            if (!fake || !ch().chance(2, 3) || g.poolType[i]->kind != model::K::Struct || !g.poolType[i]->fields.empty())
                continue;
            for (;;) {
                const auto a = drawAddress();
                // not one of the simulated memory, there may be another object
                if (a && !alloc::owns(reinterpret_cast<void *>(a)) && usedFakes.insert(a).second) {
                    fakes[i] = a;
                    if (a >> 55)
                        count("probe:big-address");
                    break;
                }
            }
        }
        bind::AssignCtx c(g);
        c.fakeIds = &fakes;
        for (auto &r : roots) {
            r.o = create(*r.t);
            Sut s;
            r.t->assign(r.o.p, r.v, c);
        }
        // every root through every session, in any order, some more than once
        const auto writes = 1 + ch().below(2 * n);
        for (unsigned k = 0; k < writes && !failed(); ++k) {
            auto &s = *sessions[ch().below(sessions.size())];
            const auto idx = ch().below(n);
            auto &r = roots[idx];
            const auto res = ops::guarded([&] { r.t->write(*s.w, r.o.p, 0); });
            if (!res.ok())
                return fail("save-failed", "%s: saving throws %s %s", r.t->name, ops::caughtName(res.kind), res.what.c_str());
            s.items.push_back({ r.t, gen, r.v, s.sink.accepted.size() + s.sink.pending(), s.epoch });
            ev("generation %u root %u (%s) saved %016llx", gen, idx, r.t->name, (unsigned long long)model::hashVal(r.v));
            if (run->stats)
                run->stats->simTime++;
            if (s.restarts && ch().chance(1, 3)) {
                // a new session appends to what the former one has written
                {
                    Sut x;
                    ops::freeWriter(s.w);
                    s.w = nullptr;
                    s.w = ops::newWriter(s.out);
                }
                ++s.epoch;
                count("probe:sessions appended to each other");
            }
        }
        setSample(std::string(roots[0].t->name) + " " + model::showGraph(*roots[0].t->schema, [&] { Graph q = g; q.root = roots[0].v; return q; }(), 200));
        // saving leaves the objects alone
        {
            model::Joint want, have;
            want.addPool(g);
            bind::ExtractCtx x;
            for (auto &r : roots) {
                want.add(*r.t->schema, r.v);
                have.add(*r.t->schema, r.t->extract(r.o.p, x));
            }
            have.addPool(x.g);
            const auto d = model::diff(want.schema, model::canonical(want.schema, want.g), model::canonical(have.schema, have.g));
            if (!d.empty())
                return fail("source-changed", "saving changed the objects: %s", d.c_str());
            Sut s;
            x.owners.clear();
        }
        release(c);
        roots.clear();
        if (gen + 1 < generations)
            count("fault:objects destroyed within a session");
    }
    for (auto &s : sessions) {
        s->out.flush();
        Sut x;
        ops::freeWriter(s->w);
        s->w = nullptr;
    }
    checkMemory("saving process");
    if (failed())
        return;
    restart();
    struct Reading {
        std::unique_ptr<io::Source> src;
        std::unique_ptr<std::istream> in;
        ops::Reader *r = nullptr;
        std::vector<Obj> objs;
        bind::ExtractCtx ctx;
        std::vector<Val> got;
    };
    std::vector<Reading> readings(sessions.size());
    std::vector<unsigned> left;
    for (unsigned i = 0; i < sessions.size(); ++i) {
        auto &rd = readings[i];
        std::uint32_t chunks[4];
        io::drawChunks(chunks);
        const auto &b = sessions[i]->sink.accepted;
        rd.src.reset(new io::Source(b, 0, b.size(), chunks));
        rd.in.reset(new std::istream(rd.src.get()));
        rd.in->exceptions(std::ios_base::failbit | std::ios_base::badbit);
        {
            Sut s;
            rd.r = ops::newReader(*rd.in);
        }
        for (unsigned k = 0; k < sessions[i]->items.size(); ++k)
            left.push_back(i);
    }
    while (!left.empty() && !failed()) {
        const auto p = ch().below(left.size());
        const auto i = left[p];
        left.erase(left.begin() + p);
        auto &rd = readings[i];
        const auto &it = sessions[i]->items[rd.got.size()];
        auto o = create(*it.t);
        const auto res = ops::guarded([&] { it.t->read(*rd.r, o.p); });
        ev("session %u: %s restored: %s", i, it.t->name, ops::caughtName(res.kind));
        if (!res.ok()) {
            fail("restore-failed", "%s: restoring throws %s %s", it.t->name, ops::caughtName(res.kind), res.what.c_str());
            break;
        }
        if (rd.src->position() != it.end) {
            fail("consumption", "%s: the restore stopped at byte %zu, the save at %zu", it.t->name, rd.src->position(), it.end);
            break;
        }
        rd.got.push_back(it.t->extract(o.p, rd.ctx));
        rd.objs.push_back(std::move(o));
    }
    for (unsigned i = 0; i < sessions.size() && !failed(); ++i) {
        auto &rd = readings[i];
        model::Joint want, have, meant;
        std::vector<std::uint64_t> by;
        for (unsigned e = 0; e <= sessions[i]->epoch; ++e) // the objects of different sessions are different ones
            for (auto &g : graphs)
                by.push_back(want.addPool(g));
        have.addPool(rd.ctx.g);
        // an independent, strict reading of the bytes
        Graph mg;
        model::DecodeSession sess;
        model::DecodeOpts d;
        d.strict = true;
        std::size_t pos = 0;
        std::vector<Val> mv;
        for (std::size_t k = 0; k < rd.got.size(); ++k) {
            auto &it = sessions[i]->items[k];
            auto v = it.value;
            model::shiftIds(*it.t->schema, v, by[it.epoch * graphs.size() + it.gen]);
            want.add(*it.t->schema, std::move(v));
            have.add(*it.t->schema, rd.got[k]);
            if (k && it.epoch != sessions[i]->items[k - 1].epoch)
                sess.live.clear();
            auto r = model::decode(*it.t->schema, sessions[i]->sink.accepted, pos, mg, sess, d);
            if (r.status != model::DecodeResult::Ok) {
                fail("not-the-format", "%s: the bytes are not what the format asks for: %s", it.t->name, r.error.empty() ? "they end early" : r.error.c_str());
                break;
            }
            pos += r.consumed;
            meant.add(*it.t->schema, r.value);
        }
        if (failed())
            break;
        meant.addPool(mg);
        const auto expected = model::canonical(want.schema, want.g);
        auto diff = model::diff(want.schema, expected, model::canonical(meant.schema, meant.g));
        if (!diff.empty())
            fail("saved-identity", "%s...: the objects vs what the bytes say: %s", sessions[i]->items[0].t->name, diff.c_str());
        diff = model::diff(want.schema, expected, model::canonical(have.schema, have.g));
        if (!diff.empty())
            fail("restored-identity", "%s...: saved vs restored: %s", sessions[i]->items[0].t->name, diff.c_str());
        if (want.g.pool.size())
            nontrivial();
        state(mix(model::hashVal(expected)));
    }
    for (auto &rd : readings) {
        {
            Sut s;
            ops::freeReader(rd.r);
        }
        release(rd.ctx);
        rd.objs.clear();
    }
    checkMemory("restoring process");
}
Register r08("C08", c08, 100000, 5000000,
    "runs: 1-2 interleaved sessions write 1-8 roots (some repeatedly) of 1-3 generations of objects sharing contents, possibly in cycles, in any memory "
    "region, with addresses around every border of the encoding; restored in another memory layout; non-trivial: there was a shared object");
} // namespace
