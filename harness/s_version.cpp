// C09: a cluster of nodes running different builds of the same records during a rolling upgrade.
#include "scn.h"

using namespace scn;

namespace {
const TypeOps &buildOf(const char *family, unsigned version)
{
    const auto *t = ops::find("v" + std::to_string(version) + "::" + family);
    if (!t)
        fail("harness", "no type %s at %u", family, version);
    return *t;
}
struct Bytes {
    std::string data;
    unsigned writer = 0;       // build that wrote it, 0: nothing there
    std::uint64_t version = 0; // asked for
};
struct Node {
    unsigned build = 1;
    Obj obj;
    Bytes disk;
};
bool isVersioned(const TypeOps &t) { return t.schema->version != 0; }

// write the node's record at a version
bool writeRecord(Node &n, std::uint64_t version, Bytes &out)
{
    const auto &t = *n.obj.t;
    io::Sink sink(std::size_t(ch().below(2) ? 0 : 64));
    std::ostream os(&sink);
    os.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    const auto style = ch().below(2);
    const auto given = version || ch().below(2) ? version : ops::explicitZero;
    const auto before = snapshot(n.obj);
    const auto res = ops::guarded([&] {
        if (style)
            t.toBinary(n.obj.p, os, given);
        else {
            auto *w = ops::newWriter(os);
            t.write(*w, n.obj.p, given);
            ops::freeWriter(w);
        }
        os.flush();
    });
    if (!res.ok())
        return fail("save-failed", "%s: writing at version %llu throws %s %s", t.name, (unsigned long long)version, ops::caughtName(res.kind), res.what.c_str()), false;
    model::EncodeOpts e;
    e.version = version;
    const auto expected = model::encode(*t.schema, before, before.root, e);
    if (sink.accepted != expected)
        return fail("written", "%s: written at version %llu: %s instead of %s", t.name, (unsigned long long)version, hex(sink.accepted, 150).c_str(),
                   hex(expected, 150).c_str()),
               false;
    const auto d = model::diff(*t.schema, model::canonical(*t.schema, before), canon(n.obj));
    if (!d.empty())
        return fail("source-changed", "%s: writing changed the object: %s", t.name, d.c_str()), false;
    out.data = expected;
    out.writer = n.build;
    out.version = version;
    return true;
}
// restore into the node's record; the model says what has to come out
void readRecord(Node &n, const Bytes &b, const char *why)
{
    const auto &t = *n.obj.t;
    const auto &s = *t.schema;
    auto style = ch().below(3);
    std::uint32_t chunks[4];
    io::drawChunks(chunks);
    io::Source src(b.data, 0, b.data.size(), chunks);
    std::istream in(&src);
    in.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    const auto before = canon(n.obj);
    // records without a version of their own take the one they are read at
    const bool own = isVersioned(t);
    if (!own)
        style = 2;
    const auto at = own ? (ch().chance(1, 4) ? 1 + ch().below(5) : 0) : b.version;
    Graph out;
    model::DecodeSession sess;
    model::DecodeOpts o;
    o.version = style == 2 ? at : 0;
    if (style != 1)
        o.initial = &before;
    const auto want = model::decode(s, b.data, 0, out, sess, o);
    std::uint64_t used = 0;
    Obj made;
    const auto res = ops::guarded([&] {
        if (style == 0)
            used = t.restore(n.obj.p, in);
        else if (style == 1) {
            made.t = &t;
            made.p = t.fromBinary(in);
        } else {
            auto *r = ops::newReader(in);
            struct Free {
                ops::Reader *r;
                ~Free() { ops::freeReader(r); }
            } f{ r };
            used = t.readAt(*r, n.obj.p, at);
        }
    });
    ev("%s: %s reads %zu bytes of build %u at version %llu: %s", why, t.name, b.data.size(), b.writer, (unsigned long long)b.version, ops::caughtName(res.kind));
    note("bytes %s", hex(b.data, 300).c_str());
    state(mix(hashBytes(t.name, std::strlen(t.name)) ^ (std::uint64_t(b.writer) << 32) ^ (b.version << 40) ^ unsigned(res.kind) ^ (style << 8)));
    nontrivial();
    if (want.status == model::DecodeResult::Error && want.versionRefused) {
        count("newer versions refused");
        if (res.kind != ops::Version)
            return fail("not-refused", "%s: version %llu of %s is not refused with the version exception but ends in %s %s", t.name,
                (unsigned long long)want.presentVersion, want.record.c_str(), ops::caughtName(res.kind), res.what.c_str());
        if (res.version.present != want.presentVersion || res.version.max != want.maxVersion || res.version.record != want.record)
            return fail("refusal-data", "%s: the refusal says version %llu of %s, supported %llu, instead of %llu of %s, supported %llu", t.name,
                (unsigned long long)res.version.present, res.version.record.c_str(), (unsigned long long)res.version.max,
                (unsigned long long)want.presentVersion, want.record.c_str(), (unsigned long long)want.maxVersion);
        Graph e = out;
        e.root = style == 1 ? before : want.value;
        const auto held = canon(n.obj);
        const auto d = model::diff(s, model::canonical(s, e), held);
        if (!d.empty() && !model::diff(s, before, held).empty())
            return fail("changed-before-refusal", "%s: after a refusal: expected vs held: %s", t.name, d.c_str());
        return;
    }
    if (want.status != model::DecodeResult::Ok)
        return fail("harness", "%s: the model cannot read what build %u wrote: %s", t.name, b.writer, want.error.c_str());
    if (!res.ok())
        return fail("refused", "%s: reading what build %u wrote at version %llu throws %s %s", t.name, b.writer, (unsigned long long)b.version,
            ops::caughtName(res.kind), res.what.c_str());
    if (style == 1)
        n.obj = std::move(made);
    else if (used != want.usedVersion)
        return fail("returned-version", "%s: version %llu returned, %llu used", t.name, (unsigned long long)used, (unsigned long long)want.usedVersion);
    if (src.position() != b.data.size())
        return fail("consumption", "%s: %zu of %zu bytes read", t.name, src.position(), b.data.size());
    Graph e = out;
    e.root = want.value;
    const auto d = model::diff(s, model::canonical(s, e), canon(n.obj));
    if (!d.empty())
        return fail("value", "%s: written by build %u at version %llu: expected vs restored: %s", t.name, b.writer, (unsigned long long)b.version, d.c_str());
    count(b.writer == n.build ? "restored by the same build" : b.writer > n.build ? "restored by an older build" : "restored by a newer build");
}

void c09()
{
    g_stepLimit = 60000000;
    restart();
    static const char *const families[] = { "Rec", "Alone", "Heir", "Plain", "Mid", "Win" };
    const auto *family = families[ch().below(6)];
    const bool own = isVersioned(buildOf(family, 4));
    std::vector<Node> nodes(2 + ch().below(3));
    const auto start = 1 + ch().below(3);
    for (auto &n : nodes) {
        n.build = ch().chance(1, 3) ? 1 + ch().below(4) : start;
        n.obj = create(buildOf(family, n.build));
    }
    struct Flight {
        unsigned to;
        Bytes b;
    };
    std::vector<Flight> flying;
    const auto steps = 4 + ch().below(24);
    for (unsigned i = 0; i < steps && !failed(); ++i) {
        const auto k = ch().below(nodes.size());
        auto &n = nodes[k];
        if (run->stats)
            run->stats->simTime++;
        switch (ch().below(7)) {
        case 0: { // the application changes the record
            const auto g = model::generate(*n.obj.t->schema, drawOpts(false));
            assign(n.obj, g);
            ev("node %u changes its record %016llx", k, (unsigned long long)model::hashVal(g.root));
            setSample(std::string(n.obj.t->name) + " " + model::showGraph(*n.obj.t->schema, g, 200));
            break;
        }
        case 1:
        case 2: { // send it, at a version both know, the own one, or any
            const auto to = ch().below(nodes.size());
            std::uint64_t v = 0;
            switch (ch().below(4)) {
            case 0:
                v = std::min(n.build, nodes[to].build);
                break;
            case 1:
                break;
            case 2:
                v = 1 + ch().below(n.build);
                break;
            default:
                // beyond what the build knows: at most what it knows can be written
                v = ch().chance(1, 3) ? n.build + 1 + ch().below(200) : 1 + ch().below(n.build);
            }
            if (!own && v > std::min(n.build, nodes[to].build))
                v = std::min(n.build, nodes[to].build); // nobody could tell the reader
            Flight f;
            f.to = to;
            if (!writeRecord(n, v, f.b))
                return;
            ev("node %u (build %u) sends to node %u at version %llu", k, n.build, to, (unsigned long long)v);
            flying.push_back(std::move(f));
            break;
        }
        case 3:
        case 4: { // a message arrives, not necessarily the oldest
            if (flying.empty())
                break;
            const auto m = ch().below(flying.size());
            if (m)
                count("fault:reordered");
            auto f = flying[m];
            if (!ch().chance(1, 6))
                flying.erase(flying.begin() + m);
            else
                count("fault:duplicated");
            if (ch().chance(1, 10)) {
                count("fault:lost");
                break;
            }
            // without a version of its own in the bytes the peers have to agree
            if (!own && f.b.version > nodes[f.to].build)
                break;
            // a build of a far future: another version is denoted at the beginning
            if (own && ch().chance(1, 6)) {
                const auto far = (std::uint64_t(1) << (2 + ch().below(54))) + ch().below(8);
                std::string data;
                model::putVar(data, far);
                const auto head = static_cast<unsigned char>(f.b.data.empty() ? 0 : f.b.data[0]);
                if (head < 0x81 || head > 0x84)
                    break; // does not begin with a version
                data.append(f.b.data, 1, std::string::npos);
                Graph out;
                model::DecodeSession sess;
                model::DecodeOpts o;
                const auto want = model::decode(*nodes[f.to].obj.t->schema, data, 0, out, sess, o);
                if (!want.versionRefused)
                    break;
                f.b.data = data;
                f.b.version = far;
                count("fault:far version");
            }
            readRecord(nodes[f.to], f.b, "message");
            break;
        }
        case 5: // save
            if (!writeRecord(n, own ? 0 : n.build, n.disk))
                return;
            ev("node %u (build %u) saves", k, n.build);
            break;
        default: { // restart with another build: upgrade, or roll back
            const auto b = ch().chance(2, 3) ? std::min(4u, n.build + 1) : std::max(1u, n.build - 1);
            count(b > n.build ? "fault:upgrade" : "fault:rollback");
            ev("node %u restarts with build %u", k, b);
            n.build = b;
            n.obj = create(buildOf(family, b));
            if (n.disk.writer && (own || n.disk.version <= b))
                readRecord(n, n.disk, "restart");
        }
        }
    }
    if (failed())
        return;
    nodes.clear();
    checkMemory("rolling upgrade");
}
Register r09("C09", c09, 150000, 6000000,
    "runs: 4-27 events in a cluster of 2-4 nodes with builds of versions 1-4: changes, messages at the common, own, any lower or a higher version that "
    "arrive reordered, duplicated or not at all, saves, restarts with a newer or older build; non-trivial: a record was read");
} // namespace
