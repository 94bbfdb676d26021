// C07: two peers, a connection that fragments, delays, coalesces and drops, and independent
// implementations of the format on either end.
#include "scn.h"

#include <deque>

using namespace scn;

namespace {
struct World;

struct Msg {
    const TypeOps *t;
    std::size_t graph; // index into Dir::graphs
    Val value;
    bool cycles = false; // objects may be part of themselves
};

struct Dir { // one direction of the connection
    const char *name;
    bool libSend = true, libRecv = true, session = false;
    unsigned total = 0;     // messages the sender has to deliver
    unsigned delivered = 0; // messages the receiver has got, over all connections
    // --- this connection
    std::string sent;       // put on the wire
    std::size_t avail = 0;  // arrived at the receiver
    bool closed = false, throwAtEnd = false;
    unsigned first = 0;     // index of the first message of this connection
    std::vector<Msg> msgs;  // sent on this connection
    std::vector<std::size_t> ends;
    std::deque<Graph> graphs;
    std::unique_ptr<bind::AssignCtx> assign;
    // sending library
    std::unique_ptr<io::Sink> sink;
    std::unique_ptr<std::ostream> out;
    ops::Writer *writer = nullptr;
    std::size_t moved = 0; // bytes of the sink moved to the wire
    // sending model
    std::vector<std::uint64_t> ids;
    std::vector<bool> written;
    std::uint64_t nextId = 0;
    bool bigIds = false;
    // receiver
    std::size_t pos = 0; // consumed (model)
    std::unique_ptr<std::streambuf> rx;
    std::unique_ptr<std::istream> in;
    ops::Reader *reader = nullptr;
    std::vector<Obj> objs;
    bind::ExtractCtx extract;
    std::vector<Val> got;
    Graph mg;
    model::DecodeSession msess;
    unsigned recvd() const { return unsigned(delivered - first); }
};

struct World {
    Dir dirs[2];
    bool pingpong = false, mayDrop = false, tornCycle = false;
    unsigned dropIn = ~0u; // events until the connection drops
    std::uint64_t events = 0;

    bool maySend(unsigned d) const
    {
        const auto &x = dirs[d];
        const auto next = x.first + x.msgs.size();
        if (x.closed || next >= x.total)
            return false;
        if (!pingpong)
            return true;
        // requests and replies in turn
        return next == x.delivered && (d == 0 ? dirs[1].delivered == x.delivered : dirs[0].delivered == x.delivered + 1);
    }
    void put(Dir &x)
    {
        // what the sink has accepted is on the wire
        if (x.closed)
            return;
        x.sent.append(x.sink->accepted, x.moved, std::string::npos);
        x.moved = x.sink->accepted.size();
    }
    void send(unsigned d)
    {
        Harness h;
        auto &x = dirs[d];
        Msg m{ &pick(isBin), 0, {} };
        const auto &s = *m.t->schema;
        if (x.graphs.empty() || !x.session || ch().chance(1, 4)) {
            // objects of earlier messages go away, their memory may be used again
            if (x.assign)
                release(*x.assign);
            x.graphs.emplace_back();
            x.ids.clear();
            x.written.clear();
            x.assign.reset(new bind::AssignCtx(x.graphs.back()));
        }
        m.graph = x.graphs.size() - 1;
        auto &g = x.graphs.back();
        auto o = drawOpts(false);
        o.cycles = ch().chance(1, 5);
        m.cycles = o.cycles && s.recursive;
        m.value = model::generateInto(g, s, o);
        const auto style = ch().below(2);
        const bool flush = pingpong || ch().chance(2, 3);
        if (x.libSend) {
            x.assign->grow();
            auto obj = create(*m.t);
            {
                Sut y;
                m.t->assign(obj.p, m.value, *x.assign);
            }
            const auto res = ops::guarded([&] {
                if (x.session)
                    m.t->write(*x.writer, obj.p, 0);
                else if (style)
                    m.t->toBinary(obj.p, *x.out, 0);
                else {
                    auto *w = ops::newWriter(*x.out);
                    m.t->write(*w, obj.p, 0);
                    ops::freeWriter(w);
                }
                if (flush)
                    x.out->flush();
            });
            if (!res.ok())
                fail("send-failed", "%s: sending throws %s %s", m.t->name, ops::caughtName(res.kind), res.what.c_str());
            x.ends.push_back(x.sink->accepted.size() + x.sink->pending());
            put(x);
        } else {
            x.written.resize(g.pool.size());
            while (x.ids.size() < g.pool.size()) {
                x.nextId += 1 + ch().below(3);
                x.ids.push_back(x.bigIds ? (ch().chance(1, 2) ? ~0ull - x.nextId : (1ull << 55) - 3 + x.nextId) : x.nextId);
            }
            model::EncodeOpts e;
            e.ids = &x.ids;
            e.written = &x.written;
            const auto bytes = model::encode(s, g, m.value, e);
            x.ends.push_back((x.ends.empty() ? 0 : x.ends.back()) + bytes.size());
            if (!x.closed)
                x.sent += bytes;
        }
        ev("%s sends message %u: %s %016llx, %zu bytes%s", x.name, unsigned(x.first + x.msgs.size()), m.t->name,
            (unsigned long long)model::hashVal(m.value), x.ends.back() - (x.ends.size() > 1 ? x.ends[x.ends.size() - 2] : 0), flush ? "" : " (not flushed)");
        setSample(std::string(m.t->name) + " " + model::showGraph(s, [&] { Graph q = g; q.root = m.value; return q; }(), 200));
        x.msgs.push_back(std::move(m));
    }
    void drop()
    {
        for (auto &x : dirs) {
            const auto flying = x.sent.size() - x.avail;
            // some of what is in flight still arrives
            x.sent.resize(x.avail + ch().below(flying + 1));
            x.avail = x.sent.size();
            x.closed = true;
            x.throwAtEnd = ch().chance(1, 2);
        }
        dropIn = ~0u;
        count("fault:connection-dropped");
        ev("connection drops");
    }
    // one event of the network or of a sender; false if nothing can happen any more
    bool step()
    {
        Harness h;
        if (++events > 20000) {
            fail("stall", "no progress after 20000 events");
            return false;
        }
        if (dropIn != ~0u && !dropIn--) {
            drop();
            return true;
        }
        unsigned enabled[6], n = 0;
        for (unsigned d = 0; d < 2; ++d) {
            auto &x = dirs[d];
            if (x.avail < x.sent.size())
                enabled[n++] = d;
            if (maySend(d))
                enabled[n++] = 2 + d;
            if (x.libSend && !x.closed && x.sink->pending())
                enabled[n++] = 4 + d;
        }
        if (!n)
            return false;
        const auto e = enabled[ch().below(n)];
        auto &x = dirs[e & 1];
        if (e < 2) {
            const auto flying = x.sent.size() - x.avail;
            static const unsigned seg[] = { 1, 2, 3, 8, 64, 1400 };
            const auto size = std::min<std::size_t>(flying, ch().chance(1, 3) ? flying : seg[ch().below(6)]);
            x.avail += size;
            const auto delay = 1 + ch().below(40);
            if (run->stats)
                run->stats->simTime += delay;
            if (size < flying)
                count("fault:fragmented");
            ev("%s: %zu bytes arrive after %u ms", x.name, size, delay);
        } else if (e < 4)
            send(e & 1);
        else {
            ops::guarded([&] { x.out->flush(); });
            put(x);
            count("fault:coalesced");
        }
        return !failed();
    }
};

class Rx : public std::streambuf {
public:
    Rx(World &w, Dir &d)
        : m_w(w)
        , m_d(d)
    {
    }
    std::size_t position() const { return m_next - std::size_t(egptr() - gptr()); }

protected:
    int_type underflow() override
    {
        Harness h;
        for (;;) {
            const auto idx = m_d.recvd();
            if (m_next < m_d.avail) {
                const auto n = std::min<std::size_t>(m_d.avail - m_next, ch().chance(1, 2) ? m_d.avail : 1 + ch().below(9));
                m_mem = m_d.sent.substr(m_next, n);
                m_next += n;
                setg(&m_mem[0], &m_mem[0], &m_mem[0] + n);
                return traits_type::to_int_type(m_mem[0]);
            }
            if (idx < m_d.ends.size() && m_next >= m_d.ends[idx]) {
                fail("waits-beyond", "%s: the reader asks for bytes beyond the message of type %s", m_d.name, m_d.msgs[idx].t->name);
                return traits_type::eof();
            }
            if (m_d.closed) {
                if (m_d.throwAtEnd)
                    throw io::DeviceError("connection reset");
                return traits_type::eof();
            }
            if (!m_w.step() && !m_d.closed) {
                fail("blocked", "%s: the reader waits for bytes nobody is going to send", m_d.name);
                return traits_type::eof();
            }
        }
    }

private:
    World &m_w;
    Dir &m_d;
    std::string m_mem;
    std::size_t m_next = 0;
};

void openConnection(World &w)
{
    for (auto &x : w.dirs) {
        x.sent.clear();
        x.avail = x.moved = x.pos = 0;
        x.closed = false;
        x.first = x.delivered;
        x.msgs.clear();
        x.ends.clear();
        x.graphs.clear();
        x.ids.clear();
        x.written.clear();
        x.bigIds = ch().chance(1, 3);
        x.nextId = x.bigIds ? 0 : ch().chance(1, 2) ? 0 : ch().bits(54);
        x.sink.reset(new io::Sink(std::size_t(ch().below(3) == 0 ? 0 : 1u << ch().below(11))));
        x.out.reset(new std::ostream(x.sink.get()));
        x.out->exceptions(std::ios_base::failbit | std::ios_base::badbit);
        x.rx.reset(new Rx(w, x));
        x.in.reset(new std::istream(x.rx.get()));
        x.in->exceptions(std::ios_base::failbit | std::ios_base::badbit);
        Sut s;
        if (x.session) {
            x.writer = ops::newWriter(*x.out);
            x.reader = ops::newReader(*x.in);
        }
    }
    w.dropIn = w.mayDrop && ch().chance(2, 3) ? ch().below(60) : ~0u;
}
void closeConnection(World &w)
{
    for (auto &x : w.dirs) {
        {
            Sut s;
            if (x.writer)
                ops::freeWriter(x.writer);
            if (x.reader)
                ops::freeReader(x.reader);
            x.writer = nullptr;
            x.reader = nullptr;
        }
        release(x.extract);
        x.objs.clear();
        x.got.clear();
        x.mg = Graph();
        x.msess = model::DecodeSession();
        x.in.reset();
        x.rx.reset();
        x.out.reset();
        x.sink.reset();
        if (x.assign)
            release(*x.assign);
        x.assign.reset();
    }
}
Val asRead(const TypeOps &t, const Graph &g, const Val &v)
{
    if (!versioned(*t.schema))
        return v;
    Graph out;
    model::DecodeSession sess;
    return model::decode(*t.schema, model::encode(*t.schema, g, v), 0, out, sess).value;
}
// are the messages received on this connection the ones sent, also as far as sharing between them is concerned?
bool compare(Dir &x)
{
    const auto n = x.got.size();
    const auto one = [&](std::size_t from, std::size_t to) {
        model::Joint want, have;
        std::vector<std::uint64_t> by;
        for (auto &g : x.graphs)
            by.push_back(want.addPool(g));
        have.addPool(x.libRecv ? x.extract.g : x.mg);
        for (std::size_t i = from; i < to; ++i) {
            auto &m = x.msgs[i];
            auto v = asRead(*m.t, x.graphs[m.graph], m.value);
            model::shiftIds(*m.t->schema, v, by[m.graph]);
            want.add(*m.t->schema, std::move(v));
            have.add(*m.t->schema, x.got[i]);
        }
        const auto d = model::diff(want.schema, model::canonical(want.schema, want.g), model::canonical(have.schema, have.g));
        if (d.empty())
            return true;
        fail("message-differs", "%s: messages %zu..%zu (%s): sent vs received: %s", x.name, from, to - 1, x.msgs[to - 1].t->name, d.c_str());
        return false;
    };
    if (x.session)
        return !n || one(0, n);
    for (std::size_t i = 0; i < n; ++i)
        if (!one(i, i + 1))
            return false;
    return true;
}
// receive the next message; false if the connection is over
bool receive(World &w, unsigned d)
{
    auto &x = w.dirs[d];
    // what is coming next is part of the agreement between the peers, so the sender decides it before anything arrives
    while (x.recvd() >= x.msgs.size()) {
        if (x.closed || (w.maySend(d) ? (w.send(d), false) : !w.step()))
            break;
        if (failed())
            return false;
    }
    if (x.recvd() >= x.msgs.size())
        return false;
    const auto idx = x.recvd();
    const auto &m = x.msgs[idx];
    const auto &t = *m.t;
    if (x.libRecv) {
        auto o = create(t);
        const auto style = ch().below(2);
        const auto res = ops::guarded([&] {
            if (x.session)
                t.read(*x.reader, o.p);
            else if (style)
                t.restore(o.p, *x.in);
            else {
                auto *r = ops::newReader(*x.in);
                struct Free {
                    ops::Reader *r;
                    ~Free() { ops::freeReader(r); }
                } f{ r };
                t.read(*r, o.p);
            }
        });
        if (failed())
            return false;
        const auto arrived = x.ends[idx] <= x.avail;
        ev("%s: message %u (%s) %s", x.name, x.delivered, t.name, res.ok() ? "received" : "torn");
        if (!res.ok()) {
            if (arrived)
                return fail("not-delivered", "%s: message %u (%s) has arrived and its restore throws %s %s", x.name, x.delivered, t.name,
                           ops::caughtName(res.kind), res.what.c_str()),
                       false;
            if (!x.closed)
                return fail("refused", "%s: message %u (%s): the restore throws %s %s while it is still arriving", x.name, x.delivered, t.name,
                           ops::caughtName(res.kind), res.what.c_str()),
                       false;
            count("messages torn by a drop");
            auto val = t.extract(o.p, x.extract); // valid, and its cycles get broken
            w.tornCycle = w.tornCycle || x.msgs[idx].cycles; // unless what has been restored so far is not part of the target
            x.objs.push_back(std::move(o));
            return false;
        }
        if (!arrived)
            return fail("partial-delivered", "%s: message %u (%s) is delivered after %zu of its bytes", x.name, x.delivered, t.name,
                       x.avail - (idx ? x.ends[idx - 1] : 0)),
                   false;
        const auto p = static_cast<Rx &>(*x.rx).position();
        if (p != x.ends[idx])
            return fail("framing", "%s: message %u (%s) ends at byte %zu, the reader is at %zu", x.name, x.delivered, t.name, x.ends[idx], p), false;
        x.got.push_back(t.extract(o.p, x.extract));
        x.objs.push_back(std::move(o));
    } else {
        while (x.avail < x.ends[idx]) {
            if (x.closed) {
                count("messages torn by a drop");
                return false;
            }
            if (!w.step() && !x.closed)
                return fail("blocked", "%s: message %u never arrives completely", x.name, x.delivered), false;
        }
        model::DecodeOpts o;
        o.strict = true;
        if (!x.session)
            x.msess.live.clear();
        const auto r = model::decode(*t.schema, x.sent.substr(0, x.avail), x.pos, x.mg, x.msess, o);
        ev("%s: message %u (%s) decoded by the peer", x.name, x.delivered, t.name);
        if (r.status != model::DecodeResult::Ok)
            return fail("not-the-format", "%s: a peer with an independent implementation cannot read message %u (%s): %s; bytes %s", x.name, x.delivered, t.name,
                       r.error.empty() ? "it ends early" : r.error.c_str(), hex(x.sent.substr(x.pos), 200).c_str()),
                   false;
        if (x.pos + r.consumed != x.ends[idx])
            return fail("framing", "%s: message %u (%s) has %zu bytes, an independent implementation uses %zu", x.name, x.delivered, t.name, x.ends[idx] - x.pos,
                       r.consumed),
                   false;
        x.pos += r.consumed;
        x.got.push_back(r.value);
    }
    state(mix(hashBytes(t.name, std::strlen(t.name)) ^ (x.libSend ? 1 : 0) ^ (x.libRecv ? 2 : 0) ^ (x.session ? 4 : 0) ^ (std::min<std::uint64_t>(w.events, 60) << 8)));
    count(x.libSend && x.libRecv ? "messages library to library" : x.libSend ? "messages library to model" : "messages model to library");
    ++x.delivered;
    nontrivial();
    return true;
}
void c07()
{
    g_stepLimit = 60000000;
    restart();
    World w;
    const auto kinds = ch().below(4);
    w.dirs[0].name = "A->B";
    w.dirs[1].name = "B->A";
    w.pingpong = ch().chance(1, 3);
    const auto n = 1 + ch().below(5);
    for (unsigned d = 0; d < 2; ++d) {
        auto &x = w.dirs[d];
        // A is always the library; B the library or an independent implementation
        const bool libB = kinds < 2;
        x.libSend = d == 0 || libB;
        x.libRecv = d == 1 || libB;
        x.session = ch().chance(1, 2);
        x.total = w.pingpong ? n : ch().below(6);
    }
    for (unsigned conn = 0; conn < 4 && !failed(); ++conn) {
        w.mayDrop = conn < 3;
        openConnection(w);
        ev("connection %u opens", conn);
        for (bool over = false; !over && !failed();) {
            unsigned who[2], k = 0;
            for (unsigned d = 0; d < 2; ++d)
                if (w.dirs[d].delivered < w.dirs[d].total)
                    who[k++] = d;
            if (!k)
                break;
            unsigned d = who[ch().below(k)];
            if (w.pingpong)
                d = w.dirs[0].delivered == w.dirs[1].delivered ? 0 : 1;
            over = !receive(w, d);
            if (over && !failed() && !w.dirs[d].closed)
                fail("blocked", "%s: message %u is never sent completely", w.dirs[d].name, w.dirs[d].delivered);
        }
        if (failed())
            break;
        // after a drop also the other direction delivers all that has arrived
        for (unsigned d = 0; d < 2 && !failed(); ++d)
            while (w.dirs[d].closed && w.dirs[d].recvd() < w.dirs[d].msgs.size() && w.dirs[d].ends[w.dirs[d].recvd()] <= w.dirs[d].avail && !failed())
                if (!receive(w, d))
                    break;
        for (auto &x : w.dirs)
            if (!failed() && !compare(x))
                break;
        for (auto &x : w.dirs) {
            unsigned complete = 0;
            for (auto e : x.ends)
                complete += e <= x.avail;
            if (!failed() && x.closed && complete != x.recvd())
                fail("not-delivered", "%s: %u messages have arrived on the dropped connection, %u were delivered", x.name, complete, x.recvd());
        }
        closeConnection(w);
    }
    if (failed())
        return;
    for (auto &x : w.dirs)
        if (x.delivered != x.total)
            return fail("liveness", "%s: %u of %u messages delivered although the last connection did not drop", x.name, x.delivered, x.total);
    if (!w.tornCycle)
        checkMemory("exchanging messages");
}
Register r07("C07", c07, 60000, 3000000,
    "runs: 1-5 messages of random types per direction between two peers (library or independent implementation) over up to four connections with random "
    "segmentation, delays, delayed flushes and drops, as requests and replies or pipelined; non-trivial: a message was received");
} // namespace
