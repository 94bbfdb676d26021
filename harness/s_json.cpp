// C05, C13: damaged JSON and what is reported about it. C11: documents as snapshots.
#include "jmut.h"

using namespace scn;
using model::Err;
using model::J;

namespace {
std::string firstDiff(const std::vector<Err> &a, const std::vector<Err> &b)
{
    for (std::size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
        if (i >= a.size())
            return "error " + std::to_string(i) + " reported but not expected: " + model::showErr(b[i]);
        if (i >= b.size())
            return "error " + std::to_string(i) + " expected but not reported: " + model::showErr(a[i]);
        if (!(a[i] == b[i]))
            return "error " + std::to_string(i) + " should be " + model::showErr(a[i]) + " but is " + model::showErr(b[i]);
    }
    return {};
}
struct Doc {
    const TypeOps *t;
    std::string text;
    bool valid = false;
    std::string error; // why it is no JSON
    J tree;
    unsigned damage = 0;
};
// a document for a value of the type, damaged in the tree and maybe in the text
Doc drawDoc(const TypeOps &t, unsigned textPermille)
{
    Doc d;
    d.t = &t;
    const auto g = model::generate(*t.schema, drawOpts(true));
    auto j = model::toJ(*t.schema, g, g.root);
    d.damage = jmut::damageTree(j, jmut::drawCount());
    d.text = jmut::render(j);
    if (ch().chance(textPermille, 1000)) {
        d.damage += jmut::damageText(d.text, 1 + ch().below(3));
        count("fault:text-damaged");
    }
    if (d.damage)
        count("fault:values-damaged", d.damage);
    d.valid = ops::parseTree(d.text, d.tree, &d.error);
    return d;
}

void c05()
{
    g_stepLimit = 40000000;
    restart();
    const auto &t = pick(isJsonAny);
    auto d = drawDoc(t, 300);
    const bool haveErrors = !ch().chance(1, 3);
    const auto style = ch().below(3); // over a fresh object, over a used one, a new one
    setSample(std::string(t.name) + " from " + quote(d.text, 300));
    note("text %s", quote(d.text, 5000).c_str());
    Obj o;
    Val before;
    if (style == 1)
        o = build(t, model::generate(*t.schema, drawOpts(true)));
    else
        o = create(t);
    before = flat(o);
    auto *errors = haveErrors ? ops::newErrors(0) : nullptr;
    Obj made;
    const auto res = ops::guarded([&] {
        if (style == 2) {
            made.t = &t;
            made.p = t.fromJson(d.text, errors);
        } else
            t.pull(o.p, d.text, errors);
    });
    std::vector<Err> errs;
    std::vector<std::string> worded;
    if (errors) {
        errs = ops::listErrors(errors);
        worded = ops::formatErrors(errors);
        ops::freeErrors(errors);
    }
    if (failed())
        return;
    ev("restore %s over %s%s from %zu bytes: %s, %zu errors", t.name, style == 0 ? "fresh" : style == 1 ? "used" : "new", haveErrors ? "" : " without errors",
        d.text.size(), ops::caughtName(res.kind), errs.size());
    if (!d.valid) {
        if (res.kind != ops::Parse)
            return fail("parse-result", "%s: text that is not JSON gives %s instead of the parser's result; text %s", t.name, ops::caughtName(res.kind),
                quote(d.text, 300).c_str());
        if (res.what != d.error)
            return fail("parse-result", "%s: text that is not JSON gives %s instead of %s; text %s", t.name, res.what.c_str(), d.error.c_str(),
                quote(d.text, 300).c_str());
        count("texts refused by the parser");
        const auto now = flat(o);
        if (!errs.empty() || !model::equal(*t.schema, now, before))
            return fail("touched", "%s: text that is not JSON changed the target or was reported as errors; text %s", t.name, quote(d.text, 300).c_str());
        nontrivial();
    } else {
        if (!res.ok())
            return fail("throws", "%s: valid JSON makes the restore throw %s %s; text %s", t.name, ops::caughtName(res.kind), res.what.c_str(),
                quote(d.text, 300).c_str());
        model::PullCtx c;
        c.haveErrors = true;
        Graph e;
        e.root = before;
        model::pull(*t.schema, d.tree, e.root, c);
        const auto expected = model::unshared(*t.schema, e);
        const auto now = flat(style == 2 ? made : o);
        const auto diff = model::diff(*t.schema, expected, now);
        if (!diff.empty())
            return fail("value", "%s%s: expected vs restored: %s; text %s", t.name, haveErrors ? "" : " (without error object)", diff.c_str(), quote(d.text, 300).c_str());
        if (haveErrors) {
            const auto w = firstDiff(c.errors, errs);
            if (!w.empty())
                return fail("errors", "%s: %s; text %s", t.name, w.c_str(), quote(d.text, 300).c_str());
            for (std::size_t i = 0; i < errs.size(); ++i)
                if (worded[i] != model::formatErr(errs[i]))
                    return fail("wording", "%s: %s is worded as %s", t.name, model::showErr(errs[i]).c_str(), worded[i].c_str());
            count("errors compared", errs.size());
            for (auto &x : errs)
                state(mix(hashBytes(t.name, std::strlen(t.name)) ^ mix(x.kind * 64 + x.expected * 8 + x.actual) ^ (x.index == ~0ull ? 0 : 1)));
        }
        if (d.damage)
            nontrivial();
    }
    o.reset();
    made.reset();
    checkMemory("restore from damaged JSON");
    if (run->stats)
        run->stats->simTime++;
}

void c13()
{
    g_stepLimit = 80000000;
    restart();
    auto *errors = [] {
        Sut s;
        return ops::newErrors(0);
    }();
    const auto n = 2 + ch().below(5);
    std::size_t had = 0;
    unsigned fatals = 0;
    static const std::uint32_t masks[] = { 0, 0xff, 0x1, 0x4, 0x8, 0x10, 0x20, 0x2, 0x3f };
    for (unsigned i = 0; i < n && !failed(); ++i) {
        const auto &t = pick(isJsonAny);
        auto d = drawDoc(t, 150);
        const auto throwOn = ch().chance(1, 4) ? ch().below(256) : masks[ch().below(9)];
        ops::setThrowOn(errors, throwOn);
        const auto style = ch().below(3);
        Obj o = style == 1 ? build(t, model::generate(*t.schema, drawOpts(true))) : create(t), made;
        const auto before = flat(o);
        const auto errsBefore = ops::listErrors(errors);
        note("text %s", quote(d.text, 5000).c_str());
        const bool oom = ch().chance(1, 6);
        if (oom)
            alloc::arm(std::int64_t(ch().below(40)), false);
        const auto inj = alloc::failuresInjected();
        const auto res = ops::guarded([&] {
            if (style == 2) {
                made.t = &t;
                made.p = t.fromJson(d.text, errors);
            } else
                t.pull(o.p, d.text, errors);
        });
        alloc::disarm();
        if (alloc::failuresInjected() != inj)
            count("fault:allocation-failed");
        const auto errs = ops::listErrors(errors);
        if (failed())
            return;
        ev("restore %s throwing on %x: %s, %zu new errors", t.name, throwOn, ops::caughtName(res.kind), errs.size() - had);
        if (errs.size() < had)
            return fail("history", "%s: errors recorded before are gone", t.name);
        for (std::size_t k = 0; k < had; ++k)
            if (!(errs[k] == errsBefore[k]))
                return fail("history", "%s: an error recorded before is now %s", t.name, model::showErr(errs[k]).c_str());
        const std::vector<Err> fresh(errs.begin() + std::ptrdiff_t(had), errs.end());
        if (!d.valid) {
            if (res.kind != ops::Parse && !(res.kind == ops::BadAlloc && alloc::failuresInjected() != inj))
                return fail("parse-result", "%s: text that is not JSON gives %s", t.name, ops::caughtName(res.kind));
            if (!fresh.empty())
                return fail("errors", "%s: errors recorded for text that is not JSON", t.name);
        } else {
            model::PullCtx c;
            c.throwOn = throwOn;
            Graph e;
            e.root = before;
            bool fatal = false;
            Err thrown{};
            try {
                model::pull(*t.schema, d.tree, e.root, c);
            } catch (const model::Fatal &f) {
                fatal = true;
                thrown = f.err;
            }
            if (res.kind == ops::BadAlloc && alloc::failuresInjected() != inj) {
                if (fresh.size() > c.errors.size())
                    return fail("errors", "%s: more errors recorded before the allocation failed than there are", t.name);
                c.errors.resize(fresh.size());
                const auto w = firstDiff(c.errors, fresh);
                if (!w.empty())
                    return fail("errors", "%s: %s; text %s", t.name, w.c_str(), quote(d.text, 300).c_str());
            } else {
                const auto w = firstDiff(c.errors, fresh);
                if (!w.empty())
                    return fail(fatals ? "errors-after-fatal" : "errors", "%s: %s; text %s", t.name, w.c_str(), quote(d.text, 300).c_str());
                if (fatal && res.kind != ops::Fatal)
                    return fail("not-thrown", "%s: the fatal error %s ends in %s", t.name, model::showErr(thrown).c_str(), ops::caughtName(res.kind));
                if (!fatal && !res.ok())
                    return fail("thrown", "%s: ends in %s %s though no error is fatal; text %s", t.name, ops::caughtName(res.kind),
                        res.kind == ops::Fatal ? model::showErr(res.fatal).c_str() : res.what.c_str(), quote(d.text, 300).c_str());
                if (fatal && !(res.fatal == thrown))
                    return fail("not-last", "%s: thrown is %s, last recorded %s", t.name, model::showErr(res.fatal).c_str(), model::showErr(thrown).c_str());
                if (fatal) {
                    ++fatals;
                    count("fatal errors");
                }
                if (!fatal) {
                    const auto diff = model::diff(*t.schema, model::unshared(*t.schema, e), flat(style == 2 ? made : o));
                    if (!diff.empty())
                        return fail("value", "%s: expected vs restored: %s; text %s", t.name, diff.c_str(), quote(d.text, 300).c_str());
                }
                for (auto &x : fresh)
                    state(mix(hashBytes(t.name, std::strlen(t.name)) ^ mix(x.kind * 64 + x.expected * 8 + x.actual) ^ (fatal ? 7 : 0) ^ (fatals << 8)));
            }
        }
        // whatever happened, the target is a valid object
        if (!made.p)
            flat(o);
        had = errs.size();
        if (had && i)
            nontrivial();
        if (ch().chance(1, 4)) {
            Sut s;
            ops::clearErrors(errors);
            had = 0;
        }
        if (ch().chance(1, 4)) {
            // reported by code of the user (reflection written by hand)
            const auto what = ch().below(12), present = ch().below(7);
            const auto want = ops::reportOwn(nullptr, what, present);
            const auto own = ops::guarded([&] { ops::reportOwn(errors, what, present); });
            const auto now = ops::listErrors(errors);
            const bool fatalKind = throwOn == 0xff || (throwOn >> want.kind & 1);
            ev("own report %s: %s", model::showErr(want).c_str(), ops::caughtName(own.kind));
            if (now.size() != had + 1 || !(now.back() == want))
                return fail("own-report", "the error %s reported by hand is recorded as %s", model::showErr(want).c_str(),
                    now.size() > had ? model::showErr(now.back()).c_str() : "nothing");
            if (fatalKind ? own.kind != ops::Fatal || !(own.fatal == want) : !own.ok())
                return fail("own-report", "the error %s reported by hand while %x are fatal ends in %s", model::showErr(want).c_str(), throwOn,
                    ops::caughtName(own.kind));
            had = now.size();
        }
        if (run->stats)
            run->stats->simTime++;
    }
    {
        Sut s;
        ops::freeErrors(errors);
    }
    checkMemory("history of restores with one error object");
}

// --- C11 -------------------------------------------------------------------------------------------
void c11()
{
    g_stepLimit = 80000000;
    restart();
    struct Live {
        Obj o;
        Val value;
    };
    struct Snap {
        ops::Doc *d = nullptr;
        J expected; // the tree when the document was made
    };
    std::vector<Live> objs;
    std::vector<Snap> docs;
    struct FreeDocs {
        std::vector<Snap> &v;
        ~FreeDocs()
        {
            for (auto &s : v)
                if (s.d) {
                    Sut x;
                    ops::freeDoc(s.d);
                }
        }
    };
    {
        FreeDocs freer{ docs };
        const auto n = 3 + ch().below(12);
        const auto check = [&](const char *when) {
            for (std::size_t i = 0; i < docs.size() && !failed(); ++i) {
                const auto now = ops::docTree(*docs[i].d);
                if (now != docs[i].expected)
                    return fail("document-changed", "after %s: document %zu says %s, was %s", when, i, quote(model::jtext(now), 300).c_str(),
                        quote(model::jtext(docs[i].expected), 300).c_str());
            }
            for (std::size_t i = 0; i < objs.size() && !failed(); ++i) {
                const auto diff = model::diff(*objs[i].o.t->schema, objs[i].value, flat(objs[i].o));
                if (!diff.empty())
                    return fail("object-changed", "after %s: object %zu: %s", when, i, diff.c_str());
            }
        };
        const auto fresh = [&] {
            const auto &t = pick(isJsonAny);
            auto g = model::generate(*t.schema, drawOpts(true));
            Live l{ build(t, g), {} };
            l.value = flat(l.o);
            ev("object %zu: %s", objs.size(), t.name);
            objs.push_back(std::move(l));
        };
        for (unsigned i = 0; i < n && !failed(); ++i) {
            const char *what = "";
            switch (objs.empty() ? 0 : ch().below(10)) {
            case 0:
                what = "making an object";
                fresh();
                break;
            case 1:
            case 2: {
                auto &l = objs[ch().below(objs.size())];
                Snap s;
                const auto res = ops::guarded([&] { s.d = l.o.t->toDoc(l.o.p); });
                if (!res.ok())
                    return fail("throws", "%s: making a document throws %s", l.o.t->name, ops::caughtName(res.kind));
                s.expected = ops::docTree(*s.d);
                const auto g = snapshot(l.o);
                if (!model::jmatch(*l.o.t->schema, model::toJ(*l.o.t->schema, g, g.root), s.expected))
                    return fail("document", "%s: the document is %s, expected %s", l.o.t->name, quote(model::jtext(s.expected), 300).c_str(),
                        quote(model::jtext(model::toJ(*l.o.t->schema, g, g.root)), 300).c_str());
                docs.push_back(std::move(s));
                ev("document %zu from a %s", docs.size() - 1, l.o.t->name);
                what = "making a document";
                setSample(std::string("document of ") + l.o.t->name);
                break;
            }
            case 3: { // several objects and texts into one document
                Snap s;
                {
                    Sut x;
                    s.d = ops::newArrayDoc();
                }
                const auto k = 1 + ch().below(3);
                J expected;
                expected.t = J::Arr;
                for (unsigned m = 0; m < k; ++m) {
                    if (ch().chance(1, 3)) {
                        const auto size = ch().below(40);
                        std::string text;
                        for (unsigned b = 0; b < size; ++b)
                            text += char('a' + ch().below(26));
                        const auto kind = ch().below(8);
                        ops::pushText(*s.d, kind, text); // from memory that is gone afterwards
                        count("texts pushed");
                        if (kind == 6) {
                            expected.a.resize(expected.a.size() + 2);
                            continue;
                        }
                        J e;
                        e.t = J::Str;
                        e.s = text;
                        if (kind == 4 || kind == 5) {
                            J arr, half = e;
                            arr.t = J::Arr;
                            half.s.resize(half.s.size() / 2);
                            arr.a.push_back(kind == 4 ? half : e);
                            arr.a.push_back(kind == 4 ? e : half);
                            e = std::move(arr);
                        }
                        if (kind == 3 || kind == 7) {
                            J obj;
                            obj.t = J::Obj;
                            obj.o.emplace_back("text", std::move(e));
                            e = std::move(obj);
                        }
                        expected.a.push_back(std::move(e));
                        continue;
                    }
                    auto &l = objs[ch().below(objs.size())];
                    const auto res = ops::guarded([&] { l.o.t->pushInto(*s.d, l.o.p); });
                    if (!res.ok())
                        return fail("throws", "%s: pushing throws %s", l.o.t->name, ops::caughtName(res.kind));
                    auto now = ops::docTree(*s.d);
                    const auto g = snapshot(l.o);
                    if (!model::jmatch(*l.o.t->schema, model::toJ(*l.o.t->schema, g, g.root), now.a.back()))
                        return fail("document", "%s: pushed is %s", l.o.t->name, quote(model::jtext(now.a.back()), 300).c_str());
                    expected.a.push_back(now.a.back());
                }
                s.expected = std::move(expected);
                docs.push_back(std::move(s));
                ev("document %zu from %u values", docs.size() - 1, k);
                what = "pushing into a document";
                break;
            }
            case 4: {
                const auto k = ch().below(objs.size());
                auto &l = objs[k];
                const auto g = model::generate(*l.o.t->schema, drawOpts(true));
                assign(l.o, g);
                l.value = flat(l.o);
                ev("object %u modified", k);
                count("fault:source-modified", docs.empty() ? 0 : 1);
                what = "modifying an object";
                if (!docs.empty())
                    nontrivial();
                break;
            }
            case 5: {
                const auto k = ch().below(objs.size());
                objs[k].o.reset();
                objs.erase(objs.begin() + k);
                ev("object %u destroyed", k);
                count("fault:source-destroyed", docs.empty() ? 0 : 1);
                what = "destroying an object";
                if (!docs.empty())
                    nontrivial();
                break;
            }
            case 6: {
                // others use the memory that became free
                const auto k = 1 + ch().below(20);
                std::vector<char *> blocks;
                std::vector<std::size_t> sizes;
                for (unsigned m = 0; m < k; ++m) {
                    const std::size_t size = 1 + ch().below(200);
                    char *p;
                    {
                        Sut x;
                        p = static_cast<char *>(::operator new(size));
                    }
                    std::memset(p, 0xa5, size);
                    blocks.push_back(p);
                }
                for (auto *p : blocks) {
                    Sut x;
                    ::operator delete(p);
                }
                ev("memory reused");
                count("fault:memory-reused");
                what = "reusing memory";
                break;
            }
            case 7: {
                // an object made from a document or a text must outlive it
                const auto &t = pick(isJsonAny);
                const auto g = model::generate(*t.schema, drawOpts(true));
                auto text = model::jtext(model::toJ(*t.schema, g, g.root));
                Live l{ create(t), {} };
                if (t.lossy && ch().chance(1, 2))
                    l.o = build(t, model::generate(*t.schema, drawOpts(true)));
                const bool viaDoc = ch().chance(1, 2);
                ops::Doc *d = nullptr;
                const auto res = ops::guarded([&] {
                    if (viaDoc) {
                        d = ops::parseDoc(text);
                        t.pullDoc(l.o.p, *d, nullptr);
                    } else
                        t.pull(l.o.p, text, nullptr);
                });
                if (t.lossy) {
                    // views are not restored: they refer to what they referred to before or to nothing
                    l.value = flat(l.o);
                    count("objects with views restored");
                } else
                    l.value = model::unshared(*t.schema, g);
                if (d) {
                    Sut x;
                    ops::freeDoc(d);
                }
                std::fill(text.begin(), text.end(), '#');
                if (!res.ok())
                    return fail("throws", "%s: restoring throws %s", t.name, ops::caughtName(res.kind));
                ev("object %zu: %s restored from a %s that is gone", objs.size(), t.name, viaDoc ? "document" : "text");
                objs.push_back(std::move(l));
                what = "restoring an object";
                break;
            }
            case 8: { // a text alone
                const auto size = ch().below(40);
                std::string text;
                for (unsigned b = 0; b < size; ++b)
                    text += char('a' + ch().below(26));
                Snap s;
                const auto kind = ch().below(3);
                s.d = ops::textDoc(kind, text);
                s.expected.t = J::Str;
                s.expected.s = text;
                docs.push_back(std::move(s));
                ev("document %zu from a text", docs.size() - 1);
                count("texts pushed");
                what = "making a document of a text";
                break;
            }
            default: {
                if (docs.empty())
                    break;
                const auto k = ch().below(docs.size());
                Sut x;
                ops::freeDoc(docs[k].d);
                Harness h;
                docs.erase(docs.begin() + k);
                ev("document %u freed", k);
                what = "freeing a document";
            }
            }
            if (!failed())
                check(what);
            if (run->stats)
                run->stats->simTime++;
        }
        state(run->hash);
    }
    objs.clear();
    checkMemory("documents");
}

Register r05("C05", c05, 150000, 8000000,
    "runs: one restore of a random type from a document with 0-8 damaged values and, in 30%, damaged text, over a fresh, used or new object, with and "
    "without error object, in a random memory layout; non-trivial: the text is refused or at least one value is damaged");
Register r13("C13", c13, 60000, 3000000,
    "runs: 2-6 restores of random types with one error object, each with 0-8 damaged values, random fatal kinds, text damage (15%), and a failing "
    "allocation (1 in 6); non-trivial: errors were recorded before the last restore");
Register r11("C11", c11, 40000, 2000000,
    "runs: 3-14 steps: objects made, modified, destroyed, memory reused, documents made from them (one or several per document) or freed, objects restored "
    "from documents and texts that go away; all live documents and objects compared after each step; non-trivial: a source changed while a document existed");
} // namespace
