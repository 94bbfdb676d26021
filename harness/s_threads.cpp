// C10: several threads at once, under a scheduler that decides after which basic block another one goes on.
#include "jmut.h"
#include "threads.h"

using namespace scn;
using model::Err;
using model::J;

namespace {
enum Op { Save, ToJson, Restore, Pull, Make, FromJson, ToDoc, PushInto, Session };
const char *const opNames[]
    = { "binary save", "JSON save", "binary restore", "JSON restore", "new object from binary", "new object from JSON", "JSON document", "push into document", "binary session" };

struct Step {
    Op op = Save;
    const TypeOps *t = nullptr;
    const Obj *src = nullptr;
    std::string input;
    std::size_t end = 0; // bytes of the input that arrive
    io::Source::End how = io::Source::Eof;
    std::uint32_t chunks[4];
    std::size_t buffer = 0, failAt = io::npos;
    io::Sink::Mode mode = io::Sink::Refuse;
    bool withErrors = false;
};
struct Result {
    std::vector<std::string> parts; // what the session observes, step by step
};
struct Session_ {
    std::vector<Step> steps;
    std::uint32_t throwOn = 0;
    std::vector<Obj> targets[2]; // for the solo run and for the run with others
    ops::Errors *errors[2] = { nullptr, nullptr };
    Result result[2];
};

std::string showOutcome(const ops::Outcome &o)
{
    std::string r = ops::caughtName(o.kind);
    if (o.kind == ops::Fatal)
        r += " " + model::showErr(o.fatal);
    else if (!o.ok())
        r += " " + o.what;
    return r;
}
void perform(Session_ &s, int which)
{
    for (std::size_t i = 0; i < s.steps.size(); ++i) {
        auto &st = s.steps[i];
        auto &target = s.targets[which][i];
        auto *errors = st.withErrors ? s.errors[which] : nullptr;
        std::string out;
        ops::Outcome res;
        switch (st.op) {
        case Save:
        case Session: {
            io::Sink sink(st.buffer);
            sink.failAt = st.failAt;
            sink.mode = st.mode;
            std::ostream os(&sink);
            os.exceptions(std::ios_base::failbit | std::ios_base::badbit);
            res = ops::guarded([&] {
                if (st.op == Save)
                    st.t->toBinary(st.src->p, os, 0);
                else {
                    struct Guard {
                        ops::Writer *w;
                        ~Guard() { ops::freeWriter(w); }
                    } g{ ops::newWriter(os) };
                    st.t->write(*g.w, st.src->p, 0);
                    st.t->write(*g.w, st.src->p, 0);
                }
                os.flush();
            });
            Harness h;
            out = hex(sink.accepted, 1u << 20);
            break;
        }
        case ToJson:
            res = ops::guarded([&] { st.t->toJson(st.src->p, out); });
            break;
        case Restore:
        case Make: {
            io::Source src(st.input, 0, st.end, st.chunks, st.how);
            std::istream in(&src);
            in.exceptions(std::ios_base::failbit | std::ios_base::badbit);
            res = ops::guarded([&] {
                if (st.op == Restore)
                    st.t->restore(target.p, in);
                else {
                    void *p = st.t->fromBinary(in);
                    st.t->destroy(target.p);
                    target.p = p;
                }
            });
            Harness h;
            out = std::to_string(src.position());
            break;
        }
        case Pull:
            res = ops::guarded([&] { st.t->pull(target.p, st.input, errors); });
            break;
        case FromJson:
            res = ops::guarded([&] {
                void *p = st.t->fromJson(st.input, errors);
                st.t->destroy(target.p);
                target.p = p;
            });
            break;
        case ToDoc: {
            ops::Doc *doc = nullptr;
            res = ops::guarded([&] { doc = st.t->toDoc(st.src->p); });
            if (doc) {
                Harness h;
                out = ops::docText(*doc);
                Sut x;
                ops::freeDoc(doc);
            }
            break;
        }
        case PushInto: {
            ops::Doc *doc = nullptr;
            res = ops::guarded([&] {
                doc = ops::newArrayDoc();
                st.t->pushInto(*doc, st.src->p);
                st.t->pushInto(*doc, st.src->p);
            });
            if (doc) {
                Harness h;
                out = ops::docText(*doc);
                Sut x;
                ops::freeDoc(doc);
            }
            break;
        }
        }
        Harness h;
        std::string errs;
        if (errors)
            for (auto &e : ops::listErrors(errors))
                errs += "; " + model::showErr(e);
        s.result[which].parts.push_back(showOutcome(res) + errs + " | " + out);
    }
}
void c10()
{
    g_stepLimit = 200000000;
    restart();
    const auto n = 2 + ch().below(ch().chance(1, 3) ? 3 : 1);
    std::vector<Session_> sessions(n);
    std::vector<std::unique_ptr<Obj>> sources;
    std::vector<Val> sourceValues;
    bool faults = false;
    // threads that do the same kind of thing at the same time are the most likely to meet
    const auto family = ch().below(4); // 0: anything, 1: binary, 2: JSON, 3: one type
    const TypeOps *one = family == 3 ? &pick([](const TypeOps &) { return true; }) : nullptr;
    for (auto &s : sessions) {
        if (ch().chance(1, 3))
            s.throwOn = 1u << ch().below(8);
        for (int w = 0; w < 2; ++w) {
            Sut x;
            s.errors[w] = ops::newErrors(s.throwOn);
        }
        const auto steps = 1 + ch().below(3);
        for (unsigned i = 0; i < steps; ++i) {
            Step st;
            st.op = Op(ch().below(9));
            auto json = st.op == ToJson || st.op == Pull || st.op == FromJson || st.op == ToDoc || st.op == PushInto;
            if (one ? (json ? !one->json : !one->bin) : (family == 1 && json) || (family == 2 && !json)) {
                static const Op swap[] = { ToJson, Save, Pull, Restore, FromJson, Make, Save, Restore, PushInto };
                st.op = swap[st.op];
                json = !json;
            }
            st.t = one ? one : &pick(json ? isJson : isBin);
            const auto &schema = *st.t->schema;
            auto opts = drawOpts(json);
            opts.bulk = false;
            if (opts.budget > 60)
                opts.budget = 60;
            io::drawChunks(st.chunks);
            st.buffer = ch().below(3) * 23;
            switch (st.op) {
            case Save:
            case Session:
            case ToJson:
            case ToDoc:
            case PushInto: {
                // maybe an object another thread reads too
                if (!sources.empty() && ch().chance(1, 2)) {
                    const auto &o = *sources[ch().below(sources.size())];
                    if (json ? o.t->json : o.t->bin) {
                        st.t = o.t;
                        st.src = &o;
                    }
                }
                if (!st.src) {
                    const auto g = model::generate(schema, opts);
                    sources.push_back(std::make_unique<Obj>(build(*st.t, g)));
                    st.src = sources.back().get();
                    sourceValues.push_back(canon(*st.src));
                }
                if (!json && ch().chance(1, 5)) {
                    st.failAt = ch().below(60);
                    st.mode = io::Sink::Mode(ch().below(4));
                    faults = true;
                    count("fault:write-fails");
                }
                break;
            }
            case Restore:
            case Make: {
                const auto g = model::generate(schema, opts);
                st.input = model::encode(schema, g, g.root);
                st.end = st.input.size();
                if (ch().chance(1, 5)) {
                    st.end = ch().below(st.end);
                    st.how = ch().chance(1, 2) ? io::Source::Throw : io::Source::Eof;
                    faults = true;
                    count("fault:read-ends");
                }
                break;
            }
            default: {
                const auto g = model::generate(schema, opts);
                auto j = model::toJ(schema, g, g.root);
                if (ch().chance(1, 2)) {
                    count("fault:values-damaged", jmut::damageTree(j, jmut::drawCount()));
                    faults = true;
                }
                st.input = jmut::render(j);
                st.withErrors = !ch().chance(1, 4);
                if (ch().chance(1, 10)) {
                    jmut::damageText(st.input, 1);
                    faults = true;
                    count("fault:text-damaged");
                }
            }
            }
            for (int w = 0; w < 2; ++w)
                s.targets[w].push_back(create(*st.t));
            s.steps.push_back(std::move(st));
        }
    }
    if (failed())
        return;
    const bool soloLast = ch().chance(1, 3);
    std::uint64_t total = 0;
    const auto solo = [&] {
        for (auto &s : sessions)
            perform(s, 0);
    };
    {
        // the run alone comes first or last; its length is measured in either case
        const auto before = g_steps;
        if (!soloLast)
            solo();
        total = g_steps - before;
    }
    if (soloLast)
        total = 200 + 300 * n * ch().below(40);
    if (failed())
        return;
    std::vector<std::function<void()>> fns;
    for (auto &s : sessions)
        fns.push_back([&s] { perform(s, 1); });
    std::uint32_t granularity, first;
    const auto mode = ch().below(5);
    switch (mode) {
    case 0: // a few switches all over
    case 1:
        granularity = std::uint32_t(total / (mode ? 12 : 3) + 1);
        first = granularity;
        break;
    case 2: // a burst of switches somewhere
        granularity = 2;
        first = std::uint32_t(total / 2 + 1);
        break;
    case 3:
        granularity = 25;
        first = std::uint32_t(total / 2 + 1);
        break;
    default:
        granularity = 200;
        first = 200;
    }
    g_readOnlyCount = 0;
    for (auto &o : sources)
        if (g_readOnlyCount < 16)
            g_readOnly[g_readOnlyCount++] = { reinterpret_cast<std::uintptr_t>(o->p), reinterpret_cast<std::uintptr_t>(o->p) + o->t->schema->mem };
    const auto r = sched::runAll(fns, granularity, first, 300);
    g_readOnlyCount = 0;
    if (failed())
        return;
    if (soloLast)
        solo();
    if (failed())
        return;
    ev("%u sessions interleaved with %llu switches: %016llx", n, (unsigned long long)r.switches, (unsigned long long)r.interleaving);
    count("probe:thread-switches", r.switches);
    if (r.accesses)
        count("probe:accesses to static variables", r.accesses);
    state(r.interleaving);
    for (unsigned k = 0; k < n; ++k) {
        auto &s = sessions[k];
        for (std::size_t i = 0; i < s.steps.size(); ++i) {
            auto &st = s.steps[i];
            ev("thread %u: %s of %s: %s", k, opNames[st.op], st.t->name, s.result[1].parts[i].substr(0, 300).c_str());
            if (s.result[0].parts[i] != s.result[1].parts[i]) {
                std::size_t at = 0;
                const auto &a = s.result[0].parts[i], &b = s.result[1].parts[i];
                while (at < a.size() && at < b.size() && a[at] == b[at])
                    ++at;
                at = at > 40 ? at - 40 : 0;
                return fail("interference", "%s of %s alone vs with others: ..%s vs ..%s", opNames[st.op], st.t->name, quote(a.substr(at), 160).c_str(),
                    quote(b.substr(at), 160).c_str());
            }
            const auto diff = model::diff(*st.t->schema, canon(s.targets[0][i]), canon(s.targets[1][i]));
            if (!diff.empty())
                return fail("interference", "%s of %s alone vs with others: %s", opNames[st.op], st.t->name, diff.c_str());
        }
        setSample("threads: " + std::string(opNames[s.steps[0].op]) + " of " + s.steps[0].t->name);
    }
    for (std::size_t i = 0; i < sources.size(); ++i) {
        const auto diff = model::diff(*sources[i]->t->schema, sourceValues[i], canon(*sources[i]));
        if (!diff.empty())
            return fail("source-changed", "%s read by several threads changed: %s", sources[i]->t->name, diff.c_str());
    }
    if (r.switches)
        nontrivial();
    if (faults)
        count("probe:runs-with-faults");
    bool cyclic = false;
    for (auto &s : sessions) {
        for (int w = 0; w < 2; ++w) {
            Sut x;
            ops::freeErrors(s.errors[w]);
        }
        for (auto &st : s.steps)
            cyclic = cyclic || (st.t->schema->recursive && st.t->schema->hasShared);
    }
    if (run->stats)
        run->stats->simTime += r.switches;
    if (cyclic)
        return;
    sessions.clear();
    sources.clear();
    checkMemory("working in several threads");
}
Register r10("C10", c10, 40000, 2000000,
    "runs: 2-4 threads, each with 1-3 saves to or restores from binary data or JSON (some meeting faults or sharing a constant source), switched by the "
    "scheduler at up to 300 basic-block edges, allocations or device calls, compared with the same sessions alone; non-trivial: at least one switch happened "
    "within a session; states: distinct interleavings (thread and its step at every switch)");
} // namespace
