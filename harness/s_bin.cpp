// C03, C04, C06: binary input that ends, fails or is damaged; output devices that fail.
#include "scn.h"

using namespace scn;

namespace {
// what a reader holds after each of the records that follow each other in one session
struct Expect {
    std::vector<model::DecodeResult> res;
    std::vector<Val> values; // canonical, of each record on its own
    bool undefined = false;
};

std::uint64_t hashName(const TypeOps &t) { return hashBytes(t.name, std::strlen(t.name)); }

// --- C03 ----------------------------------------------------------------------------------------
void c03()
{
    g_stepLimit = 40000000;
    restart();
    // a session of records of a few types; an intact head, then the one that breaks
    const auto heads = ch().below(4) == 3 ? 1 + ch().below(2) : 0;
    struct Item {
        const TypeOps *t;
        Graph g;
        std::size_t begin, end;
    };
    std::vector<Item> items;
    std::string bytes;
    for (unsigned i = 0; i <= heads; ++i) {
        Item it{ &pick(isBin), {}, bytes.size(), 0 };
        it.g = model::generate(*it.t->schema, drawOpts(false));
        bytes += model::encode(*it.t->schema, it.g, it.g.root);
        it.end = bytes.size();
        items.push_back(std::move(it));
    }
    auto &last = items.back();
    const auto &t = *last.t;
    const auto &s = *t.schema;
    if (last.begin == last.end)
        return; // nothing to tear
    setSample(std::string(t.name) + " " + model::showGraph(s, last.g, 200));
    Obj target = create(t);
    if (ch().chance(1, 3)) {
        const auto old = model::generate(s, drawOpts(false));
        assign(target, old);
        ev("target used before");
    }
    const auto attempts = 1 + ch().below(3);
    for (unsigned a = 0; a < attempts && !failed(); ++a) {
        const auto cut = last.begin + ch().below(last.end - last.begin);
        const auto how = ch().chance(1, 2) ? io::Source::Throw : io::Source::Eof;
        std::uint32_t chunks[4];
        io::drawChunks(chunks);
        const auto style = heads ? 2 : ch().below(3);
        io::Source src(bytes, 0, cut, chunks, how);
        std::istream in(&src);
        const auto mask = ch().below(3);
        in.exceptions(mask == 0 ? std::ios_base::failbit | std::ios_base::badbit
                : mask == 1     ? std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit
                                : std::ios_base::failbit | std::ios_base::badbit);
        ops::Reader *reader = nullptr;
        if (style == 2) {
            Sut x;
            reader = ops::newReader(in);
        }
        struct Free {
            ops::Reader *&r;
            ~Free()
            {
                Sut x;
                if (r)
                    ops::freeReader(r);
            }
        } free{ reader };
        for (unsigned i = 0; i < heads; ++i) {
            auto o = create(*items[i].t);
            const auto r = ops::guarded([&] { items[i].t->read(*reader, o.p); });
            if (!r.ok())
                return fail("restore-failed", "%s: restoring an intact record before the torn one throws %s %s", items[i].t->name, ops::caughtName(r.kind),
                    r.what.c_str());
            const auto d = model::diff(*items[i].t->schema, expectedRead(*items[i].t, items[i].g), canon(o));
            if (!d.empty())
                return fail("value", "%s: the record before the torn one: %s", items[i].t->name, d.c_str());
        }
        Obj made;
        const auto res = ops::guarded([&] {
            if (style == 0)
                t.restore(target.p, in);
            else if (style == 1) {
                made.t = &t;
                made.p = t.fromBinary(in);
            } else
                t.read(*reader, target.p);
        });
        ev("restore %s: %s at byte %zu of %zu: %s", t.name, how == io::Source::Eof ? "ends" : "device error", cut - last.begin, last.end - last.begin,
            ops::caughtName(res.kind));
        count(how == io::Source::Eof ? "fault:input-ends" : "fault:read-error");
        if (chunks[0] < 100)
            count("fault:short-reads");
        if (res.ok())
            return fail("torn-accepted", "%s: restoring from %zu of %zu bytes returns as if it had succeeded", t.name, cut - last.begin, last.end - last.begin);
        if (res.kind == ops::Other)
            return fail("odd-exception", "%s: the restore ends in something that is no std::exception", t.name);
        if (!src.ended)
            return fail("early-refusal", "%s: the restore of intact bytes throws %s %s before they end", t.name, ops::caughtName(res.kind), res.what.c_str());
        canon(target); // a valid object
        state(mix(hashName(t) ^ mix(std::min<std::size_t>(cut - last.begin, 200)) ^ how));
        if (run->stats)
            run->stats->simTime++;
        nontrivial();
    }
    if (failed())
        return;
    Val before = canon(target);
    std::uint32_t chunks[4];
    io::drawChunks(chunks);
    const auto alone = model::encode(s, last.g, last.g.root);
    io::Source src(alone, 0, alone.size(), chunks);
    std::istream in(&src);
    in.exceptions(std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit);
    const auto res = ops::guarded([&] { t.restore(target.p, in); });
    ev("retry on intact input: %s", ops::caughtName(res.kind));
    if (!res.ok())
        return fail("retry", "%s: restoring intact bytes after a torn restore throws %s %s", t.name, ops::caughtName(res.kind), res.what.c_str());
    Graph out;
    model::DecodeSession sess;
    model::DecodeOpts d;
    d.initial = &before;
    auto r = model::decode(s, alone, 0, out, sess, d);
    out.root = std::move(r.value);
    const auto diff = model::diff(s, model::canonical(s, out), canon(target));
    if (!diff.empty())
        return fail("retry", "%s: expected vs restored on retry: %s", t.name, diff.c_str());
    target.reset();
    if (failed())
        return;
    checkMemory("torn restores");
}
Register r03("C03", c03, 150000, 6000000,
    "runs: a record (sometimes behind intact ones in the same session) restored 1-3 times from input that ends or fails at a random byte, into a fresh or "
    "used target or a new object, then once from intact input; non-trivial: every run that tore a record");

// --- C04 ----------------------------------------------------------------------------------------
std::string oddVar()
{
    std::string v;
    static const std::uint64_t odd[] = { 0, 1, 2, 126, 127, 128, 16383, 16384, 1ull << 20, 1ull << 24, (1ull << 28) - 1, 1ull << 32, 1ull << 35, 1ull << 40, 1ull << 48,
        (1ull << 56) - 2, 300, 5000 };
    model::putVar(v, odd[ch().below(sizeof(odd) / sizeof(*odd))]);
    return v;
}
void damageBytes(std::string &b, const std::vector<std::string> &others)
{
    const auto at = [&] { return b.empty() ? 0 : ch().below(b.size()); };
    switch (ch().below(11)) {
    case 0:
        if (!b.empty())
            b[at()] ^= char(1 << ch().below(8));
        break;
    case 1:
        if (!b.empty()) {
            static const unsigned char odd[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 0x7f, 0x80, 0x81, 0xff, 0x40, 0x20, 0x10, 0xc0 };
            b[at()] = char(odd[ch().below(sizeof(odd))]);
        }
        break;
    case 2:
        if (!b.empty())
            b[at()] = char(ch().below(256));
        break;
    case 3: {
        const auto p = at();
        std::string ins;
        for (unsigned n = 1 + ch().below(4); n; --n)
            ins += char(ch().below(256));
        b.insert(p, ins);
        break;
    }
    case 4:
        if (!b.empty()) {
            const auto p = at();
            b.erase(p, 1 + ch().below(4));
        }
        break;
    case 5: { // swap two pieces
        if (b.size() < 2)
            break;
        auto p = at(), q = at();
        const auto n = 1 + ch().below(9);
        if (p > q)
            std::swap(p, q);
        if (q + n > b.size() || p + n > q)
            break;
        std::swap_ranges(b.begin() + p, b.begin() + p + n, b.begin() + q);
        break;
    }
    case 6: { // repeat a piece
        if (b.empty())
            break;
        const auto p = at(), n = 1 + ch().below(16), q = at();
        b.insert(q, b.substr(p, n));
        break;
    }
    case 7: { // a size or id
        const auto p = at();
        const auto v = oddVar();
        if (ch().chance(1, 2))
            b.replace(p, std::min(v.size(), b.size() - p), v);
        else
            b.replace(p, b.empty() ? 0 : 1, v);
        break;
    }
    case 8: { // a piece of another record
        const auto &o = others[ch().below(others.size())];
        if (o.empty())
            break;
        const auto p = at();
        const auto q = ch().below(o.size()), n = 1 + ch().below(24);
        if (ch().chance(1, 2))
            b.insert(p, o.substr(q, n));
        else
            b.replace(p, std::min<std::size_t>(n, b.size() - p), o.substr(q, n));
        break;
    }
    case 9:
        b.resize(at());
        break;
    default:
        for (unsigned n = 1 + ch().below(12), p = at(); n && p < b.size(); --n, ++p)
            b[p] = char(ch().below(256));
    }
}
void c04()
{
    g_stepLimit = 60000000;
    restart();
    {
        auto p = alloc::policy();
        p.capBytes = 1u << 20;
        alloc::setPolicy(p);
    }
    const auto roots = ch().below(4) == 3 ? 2 : 1;
    std::vector<const TypeOps *> ts;
    std::string bytes;
    std::vector<std::string> others;
    std::vector<bool> written;
    Graph g;
    for (unsigned i = 0; i < roots; ++i) {
        ts.push_back(&pick(isBin));
        auto o = drawOpts(false);
        o.cycles = ch().chance(1, 4);
        const auto v = model::generateInto(g, *ts[i]->schema, o);
        model::EncodeOpts e;
        e.written = &written;
        written.resize(g.pool.size());
        bytes += model::encode(*ts[i]->schema, g, v, e);
    }
    others.push_back(bytes);
    {
        auto &t = pick(isBin);
        const auto og = model::generate(*t.schema, drawOpts(false));
        others.push_back(model::encode(*t.schema, og, og.root));
    }
    static const unsigned counts[] = { 1, 2, 4, 10 };
    const auto n = counts[ch().below(4)];
    for (unsigned i = 0; i < n; ++i)
        damageBytes(bytes, others);
    count("fault:bytes-damaged", n);
    ev("%s%s%s %zu bytes damaged %u times %016llx", ts[0]->name, roots > 1 ? ", " : "", roots > 1 ? ts[1]->name : "", bytes.size(), n,
        (unsigned long long)hashBytes(bytes.data(), bytes.size()));
    note("bytes %s", hex(bytes, 1000).c_str());
    setSample(std::string(ts[0]->name) + " from " + hex(bytes, 100));
    std::uint32_t chunks[4];
    io::drawChunks(chunks);
    io::Source src(bytes, 0, bytes.size(), chunks, ch().chance(1, 4) ? io::Source::Throw : io::Source::Eof);
    std::istream in(&src);
    in.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    ops::Reader *reader = nullptr;
    const auto style = roots > 1 ? 2 : ch().below(3);
    if (style == 2) {
        Sut x;
        reader = ops::newReader(in);
    }
    struct Free {
        ops::Reader *&r;
        ~Free()
        {
            Sut x;
            if (r)
                ops::freeReader(r);
        }
    } free{ reader };
    Graph out;
    model::DecodeSession sess;
    std::vector<Obj> objs;
    std::size_t pos = 0;
    bind::ExtractCtx ctx;
    bool skipLeak = false;
    for (unsigned i = 0; i < roots && !failed(); ++i) {
        const auto &t = *ts[i];
        const auto &s = *t.schema;
        objs.push_back(create(t));
        auto &o = objs.back();
        Val before;
        model::DecodeOpts d;
        d.maxElements = 20000;
        if (!s.hasShared && style != 1 && ch().chance(1, 4)) {
            const auto old = model::generate(s, drawOpts(false));
            assign(o, old);
            before = canon(o);
            d.initial = &before;
        }
        auto want = model::decode(s, bytes, pos, out, sess, d);
        if (style == 1)
            o.reset();
        std::uint64_t version = 0;
        const auto held = std::uint64_t(alloc::liveBytes()); // also by the value to be replaced
        const auto res = ops::guarded([&] {
            if (style == 0)
                version = t.restore(o.p, in);
            else if (style == 1)
                o.p = t.fromBinary(in);
            else
                version = t.read(*reader, o.p);
        });
        ev("restore %s: %s", t.name, ops::caughtName(res.kind));
        static const char *const statusName[] = { "defined", "incomplete", "refused", "huge" };
        note("model: %s%s %s", statusName[want.status], want.undefined ? " (undefined)" : "", want.error.c_str());
        count(res.ok() ? "damaged input restored" : "damaged input refused");
        state(mix(hashName(t) ^ (unsigned(res.kind) << 4) ^ want.status ^ hashBytes(want.error.data(), want.error.size())));
        nontrivial();
        if (run->stats)
            run->stats->simTime++;
        if (!res.ok() && !res.stdDerived() && res.kind != ops::Version)
            return fail("odd-exception", "%s: damaged input ends in an exception not derived from the standard one (%s)", t.name, ops::caughtName(res.kind));
        // what surely fits into the memory granted
        const bool small = want.memory + held < 500000 && bytes.size() < 20000;
        if (want.undefined) {
            skipLeak = skipLeak || s.recursive;
        } else if (want.status == model::DecodeResult::Short || want.status == model::DecodeResult::Error) {
            if (res.ok())
                return fail("accepted", "%s: input the format does not define (%s) is restored; bytes %s", t.name,
                    want.status == model::DecodeResult::Short ? "it ends early" : want.error.c_str(), hex(bytes, 200).c_str());
            if (want.versionRefused && want.status == model::DecodeResult::Error && small) {
                if (res.kind != ops::Version)
                    return fail("version", "%s: version %llu is refused by %s instead of the version exception", t.name,
                        (unsigned long long)want.presentVersion, ops::caughtName(res.kind));
                if (res.version.present != want.presentVersion || res.version.max != want.maxVersion || res.version.record != want.record)
                    return fail("version", "%s: refused version reported as %llu/%llu/%s instead of %llu/%llu/%s", t.name,
                        (unsigned long long)res.version.present, (unsigned long long)res.version.max, res.version.record.c_str(),
                        (unsigned long long)want.presentVersion, (unsigned long long)want.maxVersion, want.record.c_str());
            }
        } else if (want.status == model::DecodeResult::Ok) {
            if (!res.ok() && small)
                return fail("refused", "%s: input the format defines is refused: %s %s; bytes %s", t.name, ops::caughtName(res.kind), res.what.c_str(),
                    hex(bytes, 200).c_str());
            if (res.ok()) {
                if (src.position() != pos + want.consumed)
                    return fail("consumption", "%s: the restore read up to byte %zu instead of %zu", t.name, src.position(), pos + want.consumed);
                if (style != 1 && s.version && version != want.usedVersion)
                    return fail("version", "%s: version %llu returned, %llu used", t.name, (unsigned long long)version, (unsigned long long)want.usedVersion);
            }
        }
        if (s.recursive && (!o.p || (!res.ok() && want.cycle)))
            skipLeak = true; // may have died with a cycle within that nobody can reach any more
        if (o.p) {
            // also a target of a failed restore is a valid object
            auto val = o.t->extract(o.p, ctx);
            if (res.ok() && want.status == model::DecodeResult::Ok && !want.undefined) {
                Graph have = ctx.g;
                have.root = std::move(val);
                Graph expect = out;
                expect.root = want.value;
                const auto diff = model::diff(s, model::canonical(s, expect), model::canonical(s, have));
                if (!diff.empty())
                    return fail("value", "%s: the bytes mean vs restored: %s; bytes %s", t.name, diff.c_str(), hex(bytes, 200).c_str());
            }
        }
        if (!res.ok() || want.status != model::DecodeResult::Ok || want.undefined)
            break;
        pos += want.consumed;
    }
    if (failed())
        return;
    {
        Sut x;
        if (reader) {
            ops::freeReader(reader);
            reader = nullptr;
        }
    }
    release(ctx); // objects in cycles keep each other alive: that is what the input asked for
    objs.clear();
    if (!skipLeak)
        checkMemory("restoring damaged input");
}
Register r04("C04", c04, 200000, 8000000,
    "runs: the encoding of one or two random records of one session with 1-10 changes (bits, bytes, insertions, removals, swaps, repetitions, odd sizes and "
    "ids, pieces of other records, truncation), restored under 1 MiB of memory; non-trivial: every run");

// --- C06 ----------------------------------------------------------------------------------------
void c06()
{
    g_stepLimit = 40000000;
    restart();
    const auto n = 1 + ch().below(3);
    std::vector<const TypeOps *> ts;
    Graph g;
    std::vector<Val> roots;
    for (unsigned i = 0; i < n; ++i) {
        ts.push_back(&pick(isBin));
        auto o = drawOpts(false);
        roots.push_back(model::generateInto(g, *ts[i]->schema, o));
    }
    std::vector<Obj> objs;
    {
        bind::AssignCtx c(g);
        for (unsigned i = 0; i < n; ++i) {
            objs.push_back(create(*ts[i]));
            Sut x;
            ts[i]->assign(objs[i].p, roots[i], c);
        }
        Sut x;
        c.objs.clear();
    }
    const bool session = ch().chance(1, 2);
    // the correct encoding of what the objects really hold
    std::string reference;
    std::vector<std::size_t> ends;
    {
        bind::ExtractCtx ctx;
        std::vector<Val> now;
        for (unsigned i = 0; i < n; ++i)
            now.push_back(ts[i]->extract(objs[i].p, ctx));
        std::vector<std::uint64_t> ids(ctx.g.pool.size());
        for (auto &e : ctx.ids)
            ids[e.second - 1] = reinterpret_cast<std::uintptr_t>(e.first.first);
        std::vector<bool> written;
        for (unsigned i = 0; i < n; ++i) {
            if (!session)
                written.clear();
            written.resize(ctx.g.pool.size());
            model::EncodeOpts e;
            e.ids = &ids;
            e.written = &written;
            reference += model::encode(*ts[i]->schema, ctx.g, now[i], e);
            ends.push_back(reference.size());
        }
        ctx.owners.clear();
    }
    const auto rounds = 1 + ch().below(2);
    for (unsigned round = 0; round <= rounds && !failed(); ++round) {
        const bool faulty = round < rounds;
        io::Sink sink(std::size_t(ch().below(3) == 0 ? 0 : 1u << ch().below(13)));
        std::ostream out(&sink);
        const bool throwing = ch().chance(1, 2);
        if (faulty) {
            const auto kind = ch().below(6);
            sink.mode = io::Sink::Mode(ch().below(4));
            if (kind < 5)
                sink.failAt = ch().below(reference.size() + 1);
            else
                sink.syncFails = true;
        }
        if (throwing)
            out.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        bool threw = false;
        ops::Outcome res;
        ops::Writer *w = nullptr;
        if (session)
            res = ops::guarded([&] { w = ops::newWriter(out); });
        const bool flushEach = ch().chance(1, 3);
        unsigned told = n; // the save after which the caller knew
        for (unsigned i = 0; i < n && !threw; ++i) {
            res = ops::guarded([&] {
                if (session)
                    ts[i]->write(*w, objs[i].p, 0);
                else
                    ts[i]->toBinary(objs[i].p, out, 0);
                if (flushEach || i + 1 == n)
                    out.flush();
            });
            threw = !res.ok();
            if (told == n && (threw || !out))
                told = i;
        }
        if (w) {
            Sut x;
            ops::freeWriter(w);
        }
        if (failed())
            return;
        ev("save %u records to a %s device (fails at %zd, mode %d, sync %d): accepted %zu, refused %llu, %s%s", n, faulty ? "failing" : "working",
            std::ptrdiff_t(sink.failAt), int(sink.mode), int(sink.syncFails), sink.accepted.size(), (unsigned long long)sink.refusals,
            out ? "stream good" : "stream failed", threw ? ", threw" : "");
        static const char *const kinds[] = { "fault:write-refused", "fault:short-write", "fault:write-throws", "fault:write-refused-once" };
        if (sink.refusals)
            count(sink.syncFails ? "fault:sync-fails" : kinds[sink.mode]);
        if (sink.accepted != reference.substr(0, sink.accepted.size()) || sink.accepted.size() > reference.size()) {
            const auto at = std::size_t(std::mismatch(sink.accepted.begin(), sink.accepted.begin() + std::ptrdiff_t(std::min(sink.accepted.size(), reference.size())), reference.begin()).first
                - sink.accepted.begin());
            return fail("not-a-prefix", "%s: what the device accepted differs from the encoding at byte %zu of %zu", ts[0]->name, at, sink.accepted.size());
        }
        if (sink.refusals) {
            nontrivial();
            if (!threw && out)
                return fail("hidden", "%s: the device refused a write and the stream is good", ts[0]->name);
            if (throwing && !threw)
                return fail("hidden", "%s: the device refused a write, the stream is set to throw and nothing was thrown", ts[0]->name);
            if (threw && res.kind == ops::Other)
                return fail("odd-exception", "the save ends in something that is no std::exception");
        } else {
            if (threw || !out)
                return fail("false-failure", "%s: no write was refused and the save fails with %s %s", ts[0]->name, ops::caughtName(res.kind), res.what.c_str());
            if (sink.accepted != reference)
                return fail("incomplete", "%s: %zu of %zu bytes reached the device, and nothing failed", ts[0]->name, sink.accepted.size(), reference.size());
        }
        state(mix(hashName(*ts[0]) ^ mix(std::min<std::size_t>(sink.accepted.size(), 300)) ^ unsigned(sink.mode) ^ (sink.refusals ? 64u : 0u)));
        if (run->stats)
            run->stats->simTime++;
    }
    setSample(std::string(ts[0]->name) + " " + std::to_string(reference.size()) + " bytes");
    if (failed())
        return;
    objs.clear();
    checkMemory("saving to a failing device");
}
Register r06("C06", c06, 150000, 6000000,
    "runs: 1-3 objects (which may share contents) saved in one session or one by one, 1-2 times to a device that refuses, shortens, throws or fails to "
    "synchronise at a random byte behind a buffer of 0-4096 bytes, then to a working one; non-trivial: a write was refused");
} // namespace
