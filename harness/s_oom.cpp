// C12: memory runs out at any allocation.
#include "jmut.h"

using namespace scn;
using model::Err;
using model::J;

namespace {
enum Op { Save, Restore, Make, ToJson, ToDoc, PushInto, Pull, FromJson, OpCount };
const char *const opNames[] = { "binary save", "binary restore", "new object from binary", "JSON save", "JSON document", "push into document", "JSON restore", "new object from JSON" };

// allocations an operation makes when none fails, and whether it ends well
struct Dry {
    std::uint64_t allocations = 0;
    ops::Outcome res;
};
template <class F> Dry dry(F &&f)
{
    Dry d;
    alloc::arm(-1, false);
    d.res = ops::guarded(f);
    d.allocations = alloc::counter();
    return d;
}
// run with memory running out; true if it did
bool attempt(std::uint64_t expectedAllocations, const std::function<void()> &f, const char *what, const TypeOps &t, bool persistent, std::uint64_t at)
{
    const auto before = alloc::failuresInjected();
    alloc::arm(std::int64_t(at), persistent);
    const auto res = ops::guarded(f);
    alloc::disarm();
    const auto injected = alloc::failuresInjected() - before;
    if (failed())
        return false;
    ev("%s of %s with allocation %llu%s failing (of about %llu): %s", what, t.name, (unsigned long long)at, persistent ? " and all further ones" : "",
        (unsigned long long)expectedAllocations, ops::caughtName(res.kind));
    if (!injected)
        return false;
    count(persistent ? "fault:allocations-failing-from-some-point" : "fault:allocation-failing-once");
    if (res.kind != ops::BadAlloc)
        fail(res.ok() ? "swallowed" : "wrong-exception", "%s: memory runs out during %s (allocation %llu%s) and the caller gets %s %s", t.name, what,
            (unsigned long long)at, persistent ? " and all further ones" : "", ops::caughtName(res.kind), res.what.c_str());
    return true;
}
std::string errDiff(const std::vector<Err> &a, const std::vector<Err> &b, bool prefix)
{
    for (std::size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
        if (i >= a.size())
            return "not expected: " + model::showErr(b[i]);
        if (i >= b.size())
            return prefix ? std::string() : "missing: " + model::showErr(a[i]);
        if (!(a[i] == b[i]))
            return "should be " + model::showErr(a[i]) + " but is " + model::showErr(b[i]);
    }
    return {};
}
void c12()
{
    g_stepLimit = 80000000;
    restart();
    auto op = Op(ch().below(OpCount));
    const bool json = op >= ToJson;
    const auto &t = pick(json ? isJson : isBin);
    const auto &s = *t.schema;
    const auto rounds = 1 + ch().below(3);
    bool met = false;
    const auto policyOf = [&](std::uint64_t n, std::uint64_t &at, bool &persistent) {
        persistent = ch().chance(1, 3);
        // the last ones are as interesting as the first ones
        at = ch().below(n + (n < 4 ? 1 : 0));
    };
    auto opts = drawOpts(json);
    const auto g = model::generate(s, opts);
    setSample(std::string(opNames[op]) + " of " + t.name + " " + model::showGraph(s, g, 200));
    switch (op) {
    case Save:
    case ToJson:
    case ToDoc:
    case PushInto: {
        const auto source = build(t, g);
        if (failed())
            return;
        const auto value = canon(source);
        const auto blocks = alloc::liveBlocks();
        const auto mallocs = alloc::mallocBalance();
        std::string full, text;
        ops::Doc *doc = nullptr;
        ops::Doc *array = nullptr;
        std::size_t buffer = ch().below(3) * 37;
        const auto work = [&](std::string &out) {
            return [&] {
                switch (op) {
                case Save: {
                    io::Sink sink(buffer);
                    std::ostream os(&sink);
                    const auto finish = [&] {
                        os.flush();
                        Harness h;
                        out = sink.accepted;
                    };
                    try {
                        t.toBinary(source.p, os, 0);
                    } catch (...) {
                        finish();
                        throw;
                    }
                    finish();
                    break;
                }
                case ToJson:
                    t.toJson(source.p, out);
                    break;
                case ToDoc:
                    doc = t.toDoc(source.p);
                    break;
                default:
                    t.pushInto(*array, source.p);
                }
            };
        };
        const auto drop = [&](ops::Doc *&d) {
            if (d) {
                Sut x;
                ops::freeDoc(d);
            }
            d = nullptr;
        };
        const auto fresh = [&] {
            if (op == PushInto) {
                drop(array);
                Sut x;
                array = ops::newArrayDoc();
            }
        };
        fresh();
        const auto d = dry(work(full));
        if (!d.res.ok())
            return fail("harness", "%s fails without faults: %s", opNames[op], d.res.what.c_str());
        if (op == ToDoc)
            full = ops::docText(*doc), drop(doc);
        if (op == PushInto)
            full = ops::docText(*array);
        for (unsigned r = 0; r < rounds && d.allocations; ++r) {
            std::uint64_t at;
            bool persistent;
            policyOf(d.allocations, at, persistent);
            text.clear();
            fresh();
            const auto hit = attempt(d.allocations, work(text), opNames[op], t, persistent, at);
            if (failed())
                return;
            met = met || hit;
            drop(doc);
            drop(array);
            if (op == Save && full.compare(0, text.size(), text))
                return fail("wrong-prefix", "%s: what was written before memory ran out is no prefix of the encoding", t.name);
            if (const auto now = alloc::liveBlocks(); now != blocks)
                return fail("leak", "%s: %s without memory (allocation %llu%s): %lld blocks are never freed", t.name, opNames[op], (unsigned long long)at,
                    persistent ? " and all further ones" : "", (long long)(now - blocks));
            if (alloc::mallocBalance() > mallocs)
                return fail("leak", "%s: %s without memory (allocation %llu): %lld malloc blocks are never freed", t.name, opNames[op], (unsigned long long)at,
                    (long long)(alloc::mallocBalance() - mallocs));
            const auto diff = model::diff(s, value, canon(source));
            if (!diff.empty())
                return fail("source-changed", "%s: %s without memory changed the source: %s", t.name, opNames[op], diff.c_str());
            state(mix(hashBytes(t.name, std::strlen(t.name)) ^ mix(op * 1000 + std::min<std::uint64_t>(at, 900))));
        }
        fresh();
        text.clear();
        const auto again = ops::guarded(work(text));
        if (op == ToDoc && doc)
            text = ops::docText(*doc), drop(doc);
        if (op == PushInto)
            text = ops::docText(*array), drop(array);
        if (!again.ok() || text != full)
            return fail("retry", "%s: %s differs from before once memory is available again (%s)", t.name, opNames[op], ops::caughtName(again.kind));
        break;
    }
    case Restore:
    case Make: {
        const auto bytes = model::encode(s, g, g.root);
        std::uint32_t chunks[4];
        io::drawChunks(chunks);
        auto target = op == Restore && ch().chance(1, 2) ? build(t, model::generate(s, drawOpts(false))) : create(t);
        if (failed())
            return;
        Obj made;
        const auto work = [&](Obj &into) {
            return [&] {
                io::Source src(bytes, 0, bytes.size(), chunks);
                std::istream in(&src);
                in.exceptions(std::ios_base::failbit | std::ios_base::badbit);
                if (op == Make) {
                    made.t = &t;
                    made.p = t.fromBinary(in);
                } else
                    t.restore(into.p, in);
            };
        };
        std::uint64_t n;
        {
            auto scratch = create(t);
            const auto d = dry(work(scratch));
            if (!d.res.ok())
                return fail("harness", "restoring intact bytes throws %s", d.res.what.c_str());
            n = d.allocations;
            made.reset();
        }
        for (unsigned r = 0; r < rounds && n; ++r) {
            std::uint64_t at;
            bool persistent;
            policyOf(n, at, persistent);
            const auto blocks = alloc::liveBlocks();
            const auto hit = attempt(n, work(target), opNames[op], t, persistent, at);
            if (failed())
                return;
            met = met || hit;
            made.reset();
            if (op == Make && alloc::liveBlocks() != blocks)
                return fail("leak", "%s: %s without memory (allocation %llu): blocks are never freed", t.name, opNames[op], (unsigned long long)at);
            canon(target); // is a valid object
            if (failed())
                return;
            state(mix(hashBytes(t.name, std::strlen(t.name)) ^ mix(op * 1000 + std::min<std::uint64_t>(at, 900))));
        }
        Graph out;
        model::DecodeSession sess;
        model::DecodeOpts d;
        const auto now = op == Make ? canon(create(t)) : canon(target);
        d.initial = &now;
        out.root = model::decode(s, bytes, 0, out, sess, d).value;
        const auto again = ops::guarded(work(target));
        if (!again.ok())
            return fail("retry", "%s: %s throws %s %s once memory is available again", t.name, opNames[op], ops::caughtName(again.kind), again.what.c_str());
        const auto diff = model::diff(s, model::canonical(s, out), canon(op == Make ? made : target));
        if (!diff.empty())
            return fail("retry", "%s: %s once memory is available again: expected vs restored: %s", t.name, opNames[op], diff.c_str());
        break;
    }
    default: {
        auto j = model::toJ(s, g, g.root);
        const auto damage = ch().chance(1, 2) ? jmut::damageTree(j, jmut::drawCount()) : 0;
        const auto text = jmut::render(j);
        J tree;
        if (!ops::parseTree(text, tree))
            return fail("harness", "own text is not JSON");
        note("text %s", quote(text, 3000).c_str());
        const bool haveErrors = !ch().chance(1, 4);
        auto target = op == Pull && ch().chance(1, 2) ? build(t, model::generate(s, drawOpts(true))) : create(t);
        if (failed())
            return;
        ops::Errors *errors = haveErrors ? ops::newErrors(0) : nullptr;
        if (damage)
            count("fault:values-damaged", damage);
        Obj made;
        const auto work = [&](Obj &into) {
            return [&] {
                if (op == FromJson) {
                    made.t = &t;
                    made.p = t.fromJson(text, errors);
                } else
                    t.pull(into.p, text, errors);
            };
        };
        std::uint64_t n;
        {
            auto scratch = create(t);
            const auto d = dry(work(scratch));
            if (!d.res.ok())
                return fail("harness", "restoring JSON throws %s", d.res.what.c_str());
            n = d.allocations;
            made.reset();
            if (errors) {
                // a fresh one is asked for memory again
                Sut x;
                ops::freeErrors(errors);
                errors = ops::newErrors(0);
            }
        }
        for (unsigned r = 0; r < rounds && n; ++r) {
            std::uint64_t at;
            bool persistent;
            policyOf(n, at, persistent);
            model::PullCtx c;
            c.haveErrors = true;
            Graph e;
            e.root = op == FromJson ? flat(create(t)) : flat(target);
            model::pull(s, tree, e.root, c);
            const auto mallocs = alloc::mallocBalance();
            const auto hit = attempt(n, work(target), opNames[op], t, persistent, at);
            if (failed())
                return;
            met = met || hit;
            made.reset();
            if (alloc::mallocBalance() > mallocs)
                return fail("leak", "%s: %s without memory (allocation %llu): %lld malloc blocks are never freed", t.name, opNames[op], (unsigned long long)at,
                    (long long)(alloc::mallocBalance() - mallocs));
            flat(target); // is a valid object
            if (failed())
                return;
            if (errors) {
                const auto w = errDiff(c.errors, ops::listErrors(errors), hit);
                if (!w.empty())
                    return fail("errors", "%s: errors reported until memory ran out: %s", t.name, w.c_str());
                ops::clearErrors(errors);
            }
            state(mix(hashBytes(t.name, std::strlen(t.name)) ^ mix(op * 1000 + std::min<std::uint64_t>(at, 900))));
        }
        model::PullCtx c;
        c.haveErrors = true;
        Graph e;
        e.root = op == FromJson ? flat(create(t)) : flat(target);
        model::pull(s, tree, e.root, c);
        const auto again = ops::guarded(work(target));
        if (!again.ok())
            return fail("retry", "%s: %s throws %s %s once memory is available again", t.name, opNames[op], ops::caughtName(again.kind), again.what.c_str());
        const auto diff = model::diff(s, model::unshared(s, e), flat(op == FromJson ? made : target));
        if (!diff.empty())
            return fail("retry", "%s: %s once memory is available again: expected vs restored: %s", t.name, opNames[op], diff.c_str());
        if (errors) {
            const auto w = errDiff(c.errors, ops::listErrors(errors), false);
            if (!w.empty())
                return fail("retry-errors", "%s: errors reported once memory is available again: %s", t.name, w.c_str());
            Sut x;
            ops::freeErrors(errors);
        }
    }
    }
    if (failed())
        return;
    if (met)
        nontrivial();
    checkMemory("running out of memory");
    if (run->stats)
        run->stats->simTime += rounds + 1;
}
Register r12("C12", c12, 80000, 4000000,
    "runs: a save to or restore from binary data or JSON of a value of a random type, met by up to three rounds of memory running out at a random allocation "
    "(that one only, or all from there on), then repeated with memory available; non-trivial: an allocation failed within the library");
} // namespace
