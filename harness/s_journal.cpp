// C01, C02: a journal of saved objects on a simulated disk, crashes at any byte, restarts.
#include "scn.h"

using namespace scn;

namespace {
struct Rec {
    const TypeOps *t;
    Graph g;
    Val expected;
    std::size_t begin = 0, end = npos; // on the medium
    static constexpr std::size_t npos = io::npos;
};

// one process that appends records until it is done or crashes; returns how many records it believes written
void writer(std::vector<Rec> &recs, std::string &medium, std::size_t &durable, bool json)
{
    const auto n = 1 + ch().below(4);
    io::Sink sink(std::size_t(ch().below(3) == 0 ? 0 : 1u << ch().below(13)));
    std::ostream out(&sink);
    sink.accepted = medium;
    const auto before = recs.size();
    // a crash in this life, at a byte drawn below once the sizes are known, or between two records
    const bool crash = ch().chance(2, 3);
    const auto crashRec = crash ? ch().below(n) : n;
    const auto crashFrac = crash ? ch().below(1000) : 0;
    for (unsigned i = 0; i < n && !sink.dead; ++i) {
        Rec r;
        r.t = &pick(json ? isJson : isBin);
        auto o = drawOpts(json);
        r.g = model::generate(*r.t->schema, o);
        r.expected = json ? model::unshared(*r.t->schema, r.g) : expectedRead(*r.t, r.g);
        r.begin = sink.accepted.size() + sink.pending();
        auto obj = build(*r.t, r.g);
        // the value the object really holds is the reference
        std::string text;
        if (json) {
            const auto res = ops::guarded([&] { r.t->toJson(obj.p, text); });
            if (!res.ok())
                return fail("save-failed", "%s: saving as JSON throws %s %s", r.t->name, ops::caughtName(res.kind), res.what.c_str());
        }
        if (i == crashRec) {
            const auto size = json ? text.size() + 4 : model::encode(*r.t->schema, r.g, r.g.root).size();
            sink.crashAt = r.begin + (size + 1) * crashFrac / 1000;
            if (sink.crashAt < sink.accepted.size())
                sink.crashAt = sink.accepted.size();
        }
        const auto style = ch().below(2);
        const auto res = ops::guarded([&] {
            if (json) {
                char len[4] = { char(text.size() >> 24), char(text.size() >> 16), char(text.size() >> 8), char(text.size()) };
                out.write(len, 4);
                out.write(text.data(), std::streamsize(text.size()));
            } else if (style) {
                auto *w = ops::newWriter(out);
                r.t->write(*w, obj.p, 0);
                ops::freeWriter(w);
            } else
                r.t->toBinary(obj.p, out, 0);
        });
        if (!res.ok())
            return fail("save-failed", "%s: saving throws %s %s", r.t->name, ops::caughtName(res.kind), res.what.c_str());
        r.end = sink.accepted.size() + sink.pending();
        const auto now = snapshot(obj);
        if (!model::equal(*r.t->schema, model::canonical(*r.t->schema, now), model::canonical(*r.t->schema, r.g)))
            return fail("source-changed", "%s: saving changed the object: %s", r.t->name,
                model::diff(*r.t->schema, model::canonical(*r.t->schema, r.g), model::canonical(*r.t->schema, now)).c_str());
        note("value %s", run->verbose ? model::showGraph(*r.t->schema, r.g, 2000).c_str() : "");
        ev("save %s %016llx -> bytes %zu..%zu", r.t->name, (unsigned long long)model::hashVal(r.expected), r.begin, r.end);
        setSample(std::string("save ") + r.t->name + " " + model::showGraph(*r.t->schema, r.g, 200));
        if (sink.dead) {
            r.end = Rec::npos; // nobody was told it was saved; how much of it is there is up to the crash
            recs.push_back(std::move(r));
            break;
        }
        recs.push_back(std::move(r));
        switch (ch().below(4)) {
        case 0:
            out.flush(); // reaches the operating system, not yet the disk
            break;
        case 1:
            break;
        default:
            out.flush();
            if (!sink.dead) {
                durable = sink.accepted.size();
                count("durable syncs");
                ev("synced %zu bytes", durable);
            }
        }
        if (sink.dead)
            break;
    }
    if (!sink.dead) {
        if (ch().chance(1, 2)) {
            // power loss between two saves: of what was written after the last sync any prefix may be there
            out.flush();
            medium = sink.accepted;
            if (medium.size() > durable) {
                const auto keep = durable + ch().below(medium.size() - durable + 1);
                if (keep < medium.size()) {
                    count("fault:lost-tail");
                    medium.resize(keep);
                    ev("power loss leaves %zu of %zu bytes", keep, sink.accepted.size());
                }
            }
        } else {
            out.flush();
            medium = sink.accepted;
            durable = medium.size();
        }
    } else {
        // also what was in the cache of the operating system may be lost partly
        medium = sink.accepted;
        if (medium.size() > durable && ch().chance(1, 3)) {
            medium.resize(durable + ch().below(medium.size() - durable + 1));
            count("fault:lost-tail");
        }
    }
    if (medium.size() < durable)
        fail("harness", "durable bytes lost");
    (void)before;
}

// a process that reads everything back; truncates the journal to the complete records
void recover(std::vector<Rec> &recs, std::string &medium, std::size_t durable, bool json)
{
    std::uint32_t chunks[4];
    io::drawChunks(chunks);
    io::Source src(medium, 0, medium.size(), chunks, ch().chance(1, 4) ? io::Source::Throw : io::Source::Eof);
    std::istream in(&src);
    in.exceptions(std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit);
    const auto style = ch().below(3);
    count("fault:short-reads", chunks[0] < 100 ? 1 : 0);
    std::size_t pos = 0, i = 0;
    for (; i < recs.size(); ++i) {
        auto &r = recs[i];
        Obj obj;
        ops::Errors *errors = json ? ops::newErrors(0) : nullptr;
        std::vector<model::Err> errs;
        std::string text;
        const bool torn = r.end == Rec::npos || r.end > medium.size();
        if (style != 1)
            obj = create(*r.t);
        const auto res = ops::guarded([&] {
            if (json) {
                char len[4];
                in.read(len, 4);
                std::size_t size = 0;
                for (const char c : len)
                    size = size << 8 | static_cast<unsigned char>(c);
                {
                    Harness h;
                    // a reader that does not trust the length takes what is there
                    text.resize(torn ? std::min(size, medium.size() - std::min(medium.size(), src.position())) : size);
                }
                if (!text.empty())
                    in.read(&text[0], std::streamsize(text.size()));
                if (style == 1) {
                    obj.t = r.t;
                    obj.p = r.t->fromJson(text, errors);
                } else
                    r.t->pull(obj.p, text, errors);
            } else if (style == 0) {
                r.t->restore(obj.p, in);
            } else if (style == 1) {
                obj.t = r.t;
                obj.p = r.t->fromBinary(in);
            } else {
                auto *d = ops::newReader(in);
                struct Free {
                    ops::Reader *d;
                    ~Free() { ops::freeReader(d); }
                } f{ d };
                r.t->read(*d, obj.p);
            }
        });
        if (errors) {
            errs = ops::listErrors(errors);
            ops::freeErrors(errors);
        }
        if (failed())
            return;
        ev("restore %s at %zu%s: %s", r.t->name, pos, torn ? " (torn)" : "", ops::caughtName(res.kind));
        if (torn) {
            const auto left = medium.size() - pos;
            if (res.ok() && !json)
                return fail("third-object", "%s: a restore from the first %zu bytes of a torn record succeeds", r.t->name, left);
            if (res.ok()) {
                // the text can only be complete if all of it made it
                const auto now = flat(obj);
                if (r.t->scalar)
                    break; // the beginning of a number is a number
                if (!errs.empty() || !model::equal(*r.t->schema, now, r.expected))
                    return fail("third-object", "%s: a restore from %zu bytes of torn text gives an object that was never saved", r.t->name, left);
            }
            count("torn tails refused");
            nontrivial();
            break;
        }
        if (!res.ok())
            return fail("restore-failed", "%s: restoring a durable record throws %s %s", r.t->name, ops::caughtName(res.kind), res.what.c_str());
        if (!errs.empty())
            return fail("restore-failed", "%s: restoring durable text reports %zu errors, first %s; text %s", r.t->name, errs.size(),
                model::showErr(errs[0]).c_str(), quote(text, 200).c_str());
        const auto consumed = src.position();
        if (consumed != r.end)
            return fail("consumption", "%s: the restore stopped at byte %zu, the save at %zu", r.t->name, consumed, r.end);
        const auto now = json ? flat(obj) : canon(obj);
        const auto d = model::diff(*r.t->schema, r.expected, now);
        if (!d.empty())
            return fail("restored-differs", "%s: saved vs restored: %s; text %s", r.t->name, d.c_str(), quote(text, 200).c_str());
        if (json) {
            // every member is there exactly once, and the text means what was saved
            model::J actual;
            if (!model::jparse(text, actual))
                return fail("bad-text", "%s: the saved text is not JSON: %s", r.t->name, quote(text, 200).c_str());
            const auto expected = model::toJ(*r.t->schema, r.g, r.g.root);
            if (!model::jmatch(*r.t->schema, expected, actual))
                return fail("bad-text", "%s: the saved text %s does not say %s", r.t->name, quote(text, 300).c_str(),
                    quote(model::jtext(expected), 300).c_str());
        }
        if (r.end <= durable)
            count("durable records restored");
        state(mix(hashBytes(r.t->name, std::strlen(r.t->name)) ^ mix(r.end - r.begin)));
        pos = r.end;
        nontrivial();
    }
    for (std::size_t k = i; k < recs.size(); ++k)
        if (recs[k].end != Rec::npos && recs[k].end <= durable)
            fail("lost", "record %zu was durable and is gone", k);
    recs.resize(i);
    medium.resize(pos);
}

void journal(bool json)
{
    std::vector<Rec> recs;
    std::string medium;
    std::size_t durable = 0;
    const auto lives = 1 + ch().below(3);
    g_stepLimit = 40000000;
    for (unsigned life = 0; life < lives && !failed(); ++life) {
        restart();
        writer(recs, medium, durable, json);
        if (failed())
            return;
        checkMemory("saving process");
        restart();
        recover(recs, medium, durable, json);
        if (failed())
            return;
        checkMemory("restoring process");
        durable = std::min(durable, medium.size());
        count("process lives", 2);
    }
    if (run->stats)
        run->stats->simTime += lives;
}
void c01() { journal(false); }
void c02() { journal(true); }
Register r01("C01", c01, 60000, 3000000,
    "runs: 1-3 process lives appending 1-4 saved objects of random types and values to a simulated disk, with crashes at any byte, power loss of any "
    "unsynced suffix, split reads and writes and a fresh random memory layout per life; non-trivial: at least one record restored and compared or one "
    "torn record refused");
Register r02("C02", c02, 40000, 2000000,
    "runs: 1-3 process lives appending 1-4 objects saved as length-framed JSON text to a simulated disk, with crashes at any byte, power loss of any "
    "unsynced suffix, split reads and writes and a fresh random memory layout per life; non-trivial: at least one record restored and compared or one "
    "torn record refused");
} // namespace
