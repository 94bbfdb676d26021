// C14: objects with a past.
#include "jmut.h"

using namespace scn;
using model::J;

namespace {
void c14()
{
    g_stepLimit = 80000000;
    restart();
    const auto &t = pick([](const TypeOps &) { return true; });
    const auto &s = *t.schema;
    // two objects of the user that may share what shared pointers own
    std::vector<Obj> objs;
    objs.push_back(create(t));
    objs.push_back(create(t));
    std::vector<Val> values{ canon(objs[0]), canon(objs[1]) };
    const auto n = 2 + ch().below(6);
    bool used = false;
    for (unsigned i = 0; i < n && !failed(); ++i) {
        const auto k = ch().below(8) == 7 ? 1 : 0;
        auto &o = objs[k];
        auto what = ch().below(6);
        if (what < 3 ? !t.bin : !t.json)
            what = what < 3 ? what + 3 : what - 3;
        const auto other = canon(objs[1 - k]);
        switch (ch().chance(1, 4) ? 6 : what) {
        case 0:
        case 1: { // binary restore from intact bytes
            auto opts = drawOpts(false);
            opts.cycles = false;
            const auto g = model::generate(s, opts);
            const auto bytes = model::encode(s, g, g.root);
            Val expected;
            if (versioned(s)) {
                Graph out;
                model::DecodeSession sess;
                model::DecodeOpts d;
                const auto now = canon(o);
                d.initial = &now;
                out.root = model::decode(s, bytes, 0, out, sess, d).value;
                expected = model::canonical(s, out);
            } else
                expected = model::canonical(s, g);
            std::uint32_t chunks[4];
            io::drawChunks(chunks);
            io::Source src(bytes, 0, bytes.size(), chunks);
            std::istream in(&src);
            in.exceptions(std::ios_base::failbit | std::ios_base::badbit);
            const auto res = ops::guarded([&] { t.restore(o.p, in); });
            ev("binary restore over object %u (%s): %s", k, used ? "used" : "fresh", ops::caughtName(res.kind));
            if (!res.ok())
                return fail("restore-failed", "%s: restoring intact bytes throws %s %s", t.name, ops::caughtName(res.kind), res.what.c_str());
            const auto diff = model::diff(s, expected, canon(o));
            if (!diff.empty())
                return fail(used ? "past-shows" : "value", "%s: expected vs restored: %s", t.name, diff.c_str());
            if (used)
                nontrivial();
            state(mix(hashBytes(t.name, std::strlen(t.name)) ^ (used ? 5 : 0)));
            used = true;
            break;
        }
        case 2: { // binary restore that fails somewhere
            const auto g = model::generate(s, drawOpts(false));
            const auto bytes = model::encode(s, g, g.root);
            if (bytes.empty())
                break;
            const auto cut = ch().below(bytes.size());
            std::uint32_t chunks[4];
            io::drawChunks(chunks);
            io::Source src(bytes, 0, cut, chunks, ch().chance(1, 2) ? io::Source::Throw : io::Source::Eof);
            std::istream in(&src);
            in.exceptions(std::ios_base::failbit | std::ios_base::badbit);
            const auto res = ops::guarded([&] { t.restore(o.p, in); });
            ev("binary restore over object %u ends at byte %u: %s", k, cut, ops::caughtName(res.kind));
            count("fault:restore-cut");
            if (res.ok())
                return fail("torn-accepted", "%s: a restore from %u of %zu bytes succeeds", t.name, cut, bytes.size());
            canon(o); // is a valid object
            used = true;
            break;
        }
        case 3:
        case 4:
        case 5: { // JSON: complete, partial or damaged document
            const auto g = model::generate(s, drawOpts(true));
            auto j = model::toJ(s, g, g.root);
            if (what == 4 && j.t == J::Obj) {
                // some members only
                for (auto m = j.o.begin(); m != j.o.end();)
                    m = ch().chance(1, 2) ? j.o.erase(m) : m + 1;
                count("fault:members-missing");
            }
            if (what == 5)
                count("fault:values-damaged", jmut::damageTree(j, 1 + ch().below(3)));
            const auto text = jmut::render(j);
            J tree;
            if (!ops::parseTree(text, tree))
                return fail("harness", "own text is not JSON");
            note("text %s", quote(text, 3000).c_str());
            Graph e;
            e.root = flat(o);
            model::PullCtx c;
            model::pull(s, tree, e.root, c);
            const auto res = ops::guarded([&] { t.pull(o.p, text, nullptr); });
            ev("JSON restore over object %u (%s) from %zu bytes: %s", k, used ? "used" : "fresh", text.size(), ops::caughtName(res.kind));
            if (!res.ok())
                return fail("restore-failed", "%s: restoring JSON throws %s %s", t.name, ops::caughtName(res.kind), res.what.c_str());
            const auto diff = model::diff(s, model::unshared(s, e), flat(o));
            if (!diff.empty())
                return fail(used ? "past-shows" : "value", "%s: expected vs restored: %s; text %s", t.name, diff.c_str(), quote(text, 300).c_str());
            if (used)
                nontrivial();
            used = true;
            break;
        }
        default: { // the user's own changes; both objects may get the same shared objects
            auto opts = drawOpts(t.json);
            const auto g = model::generate(s, opts);
            bind::AssignCtx c(g);
            const bool both = ch().chance(1, 2);
            {
                Sut x;
                t.assign(objs[0].p, g.root, c);
                if (both)
                    t.assign(objs[1].p, g.root, c);
            }
            {
                Sut x;
                c.objs.clear();
            }
            ev("objects assigned %016llx", (unsigned long long)model::hashVal(canon(objs[0])));
            setSample(std::string(t.name) + " restored over " + model::showGraph(s, g, 200));
            used = true;
            if (run->stats)
                run->stats->simTime++;
            continue;
        }
        }
        if (failed())
            return;
        // nobody else's object changes, even if the old value was shared with it
        const auto diff = model::diff(s, other, canon(objs[1 - k]));
        if (!diff.empty())
            return fail("other-changed", "%s: restoring an object changed another one that shared its old contents: %s", t.name, diff.c_str());
        if (run->stats)
            run->stats->simTime++;
    }
    if (failed())
        return;
    if (s.recursive && s.hasShared)
        return; // may hold cycles
    objs.clear();
    checkMemory("restoring over used objects");
}
Register r14("C14", c14, 80000, 4000000,
    "runs: 2-7 steps on one or two objects of a random type that may share contents: restores from intact binary input, cut binary input, complete, partial "
    "or damaged JSON, and assignments; non-trivial: a restore over a used object was compared with the model of a fresh restore");
} // namespace
