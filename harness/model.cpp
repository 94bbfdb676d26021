#include "model.h"

#include <c++utilities/chrono/datetime.h>
#include <c++utilities/chrono/timespan.h>
#include <c++utilities/conversion/conversionexception.h>

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <unordered_set>

namespace model {
using sim::ch;

namespace {
std::string keyBytes(const Schema &s, const Val &v)
{
    Graph none;
    return encode(s, none, v);
}
// tells whether an equal element was there before
struct Dedupe {
    const Schema &s;
    std::unordered_set<std::string> seen;
    bool dup(const Val &v) { return !seen.insert(keyBytes(s, v)).second; }
};
} // namespace

std::string dateToText(std::int64_t t) { return CppUtilities::DateTime(static_cast<std::uint64_t>(t)).toIsoString(); }
std::string spanToText(std::int64_t t) { return CppUtilities::TimeSpan(t).toString(); }
bool dateFromText(const std::string &s, std::int64_t &t)
{
    try {
        t = static_cast<std::int64_t>(CppUtilities::DateTime::fromIsoStringGmt(s.c_str()).totalTicks());
        return true;
    } catch (const CppUtilities::ConversionException &) {
        return false;
    }
}
bool spanFromText(const std::string &s, std::int64_t &t)
{
    try {
        t = CppUtilities::TimeSpan::fromString(s.c_str()).totalTicks();
        return true;
    } catch (const CppUtilities::ConversionException &) {
        return false;
    }
}

// --- generation -----------------------------------------------------------------------------------

namespace {
std::uint64_t maskTo(std::uint64_t v, unsigned size) { return size >= 8 ? v : v & ((1ull << (size * 8)) - 1); }
std::uint64_t genInt(unsigned size)
{
    // 0 is the simplest; borders are frequent
    switch (ch().below(8)) {
    case 0:
        return 0;
    case 1:
    case 2:
        return maskTo(ch().below(200), size);
    case 3:
        return maskTo(~0ull - ch().below(3), size); // -1.. / max..
    case 4:
        return maskTo((1ull << (size * 8 - 1)) - 1 + ch().below(3), size); // around the sign border
    case 5:
        return maskTo(1ull << ch().below(size * 8), size);
    default:
        return maskTo(ch().bits(size * 8), size);
    }
}
std::uint64_t dbits(double d)
{
    std::uint64_t u;
    std::memcpy(&u, &d, 8);
    return u;
}
double dval(std::uint64_t u)
{
    double d;
    std::memcpy(&d, &u, 8);
    return d;
}
std::uint32_t fbits(float d)
{
    std::uint32_t u;
    std::memcpy(&u, &d, 4);
    return u;
}
float fval(std::uint64_t v)
{
    auto u = static_cast<std::uint32_t>(v);
    float d;
    std::memcpy(&d, &u, 4);
    return d;
}
std::size_t genLen(const GenOpts &o, unsigned small)
{
    static const std::uint32_t borders[] = { 126, 127, 128, 129, 255, 256, 16382, 16383, 16384 };
    if (o.longSizes && ch().chance(1, 12))
        return borders[ch().below(ch().chance(1, 6) ? 9 : 6)];
    return ch().below(small + 1);
}
std::string genStr(const GenOpts &o)
{
    std::string s;
    switch (ch().below(6)) {
    case 0: {
        const auto n = ch().below(5);
        for (unsigned i = 0; i < n; ++i)
            s += char('a' + ch().below(26));
        break;
    }
    case 1: {
        // printable and structural characters
        static const char chars[] = "\"\\/{}[],: \t\n\r\b\f\x01\x1f\x7f'<>&aZ09";
        const auto n = ch().below(12);
        for (unsigned i = 0; i < n; ++i)
            s += chars[ch().below(sizeof(chars) - 1)];
        break;
    }
    case 2: {
        static const char *const parts[] = { "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "x", "\xe4\xb8\xad", "\xd0\x96" };
        const auto n = ch().below(6);
        for (unsigned i = 0; i < n; ++i)
            s += parts[ch().below(6)];
        break;
    }
    case 3: {
        // embedded zero bytes
        s = "a";
        const auto n = 1 + ch().below(3);
        for (unsigned i = 0; i < n; ++i) {
            s += '\0';
            s += char('a' + ch().below(26));
        }
        if (ch().chance(1, 3))
            s += '\0';
        break;
    }
    case 4: {
        const auto n = genLen(o, 40);
        const char c = char('a' + ch().below(26));
        s.assign(n, c);
        for (std::size_t i = 0; i < n; i += 7)
            s[i] = char('A' + (i % 26));
        break;
    }
    default: {
        const auto n = ch().below(10);
        const bool ascii = o.json && ch().below(3);
        for (unsigned i = 0; i < n; ++i)
            s += ascii ? char(1 + ch().below(126)) : char(ch().below(256));
        break;
    }
    }
    return s;
}
bool isJsonDate(std::int64_t t, bool span)
{
    std::int64_t r = 0;
    return span ? spanFromText(spanToText(t), r) && r == t : dateFromText(dateToText(t), r) && r == t;
}

struct Gen {
    Graph &g;
    const GenOpts &o;
    int budget;
    int depth = 0;
    bool bulk = false;
    unsigned deep = 0;

    // whether a record can contain itself by way of this
    bool link(const Schema &s)
    {
        if (!deep || s.recursive)
            return deep;
        if (s.kind == K::Shared || s.kind == K::Opt || s.kind == K::Seq)
            return link(*s.elems[0]);
        return s.kind == K::Map && link(*s.elems[1]);
    }
    static std::size_t nodes(const Val &v)
    {
        std::size_t n = 1 + v.s.size() / 16;
        for (auto &e : v.k)
            n += nodes(e);
        return n;
    }
    // as many elements of that size as memory and time permit
    static std::size_t fit(std::size_t n, std::size_t each) { return n * each > 1500000 ? 300 : n; }
    // the one very large text or container of the value
    bool genBulk(const Schema &s, Val &v)
    {
        static const std::uint32_t borders[] = { 16383, 16384, 65535, 65536, 65537, 100, 1000, 4096 };
        switch (s.kind) {
        case K::Str: {
            static const std::uint32_t more[] = { 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1 };
            const auto n = ch().chance(1, 5) ? more[ch().below(4)] : borders[ch().below(8)];
            v.s.assign(n, 'b');
            for (std::size_t i = 0; i < n; i += 97)
                v.s[i] = char('a' + i % 26);
            for (unsigned i = ch().below(4); i; --i)
                v.s[ch().below(n)] = "\0\"\n\\\x7f,"[ch().below(6)];
            break;
        }
        case K::Seq: {
            std::vector<Val> few;
            const auto saved = budget;
            std::size_t weight = 0;
            for (unsigned i = 0; i < 3; ++i) {
                budget = 4;
                few.push_back(gen(*s.elems[0]));
                weight += nodes(few.back());
            }
            budget = saved;
            if (s.elems[0]->kind == K::Shared) {
                // many objects
                static const std::uint32_t counts[] = { 300, 130, 1030, 5000, 20000, 66000 };
                std::size_t content = s.elems[0]->elems[0]->mem / 16;
                for (auto &f : few)
                    content += f.u ? nodes(g.pool[f.u - 1]) * 2 : 0;
                const auto n = fit(counts[ch().below(ch().chance(1, 4) ? 6 : 4)], content);
                v.k.reserve(n);
                const auto known = g.pool.size();
                for (std::size_t i = 0; i < n; ++i) {
                    v.k.push_back(few[i % 3]);
                    if (!v.k.back().u || i % 5 == 4)
                        continue;
                    const auto like = few[i % 3].u - 1;
                    auto copy = like < known ? g.pool[like] : Val();
                    v.k.back().u = g.pool.size() + 1;
                    g.pool.push_back(std::move(copy));
                    g.poolType.push_back(s.elems[0]->elems[0]);
                    done.push_back(true);
                }
                // the first ones once more
                for (std::size_t i = 0; i < n && i < 20; ++i)
                    v.k.push_back(v.k[i]);
                break;
            }
            const auto small = s.elems[0]->kind <= K::Str && s.elems[0]->kind != K::Str;
            const auto n = small || ch().chance(1, 3) ? fit(borders[ch().below(8)], s.elems[0]->mem / 16 + weight * 2) : 100 + ch().below(200);
            v.k.reserve(n);
            for (std::size_t i = 0; i < n; ++i)
                v.k.push_back(few[i % 3]);
            break;
        }
        case K::Set:
        case K::Map: {
            const auto &key = *s.elems[0];
            if ((key.kind != K::Int || key.size < 4) && key.kind != K::Str)
                return false;
            static const std::uint32_t some[] = { 127, 128, 129, 255, 256, 257, 300, 16384 };
            // (writing a multimap as JSON takes quadratic time)
            const auto n = some[ch().below(s.kind == K::Set || (!s.multi && s.elems[1]->kind == K::Int) ? 8 : 7)];
            for (std::size_t i = 0; i < n; ++i) {
                Val k;
                if (key.kind == K::Int)
                    k.u = i + 1;
                else
                    k.s = "key " + std::to_string(i);
                if (s.kind == K::Set) {
                    v.k.push_back(std::move(k));
                    continue;
                }
                Val e;
                e.k.push_back(std::move(k));
                const auto saved = budget;
                budget = 1;
                e.k.push_back(i < 3 ? gen(*s.elems[1]) : v.k[i % 3].k[1]);
                budget = saved;
                v.k.push_back(std::move(e));
            }
            break;
        }
        default:
            return false;
        }
        sim::count("probe:bulk-value");
        // what is taken for a hang depends on the amount of data
        if (sim::g_stepLimit != ~0ull)
            sim::g_stepLimit += s.kind == K::Str ? v.s.size() * 1000 : v.k.size() * 20000;
        return true;
    }
    Val gen(const Schema &s)
    {
        --budget;
        Val v;
        if (bulk && (s.kind == K::Str || s.kind == K::Seq || s.kind == K::Set || s.kind == K::Map) && ch().chance(1, 2)) {
            bulk = false;
            if (genBulk(s, v))
                return v;
            bulk = true;
        }
        switch (s.kind) {
        case K::Unit:
            break;
        case K::Bool:
            v.u = ch().below(2);
            break;
        case K::Int:
            v.u = genInt(s.size);
            break;
        case K::Enum:
            v.u = genInt(s.size);
            break;
        case K::F32: {
            static const float c[] = { 0.f, 1.f, -1.5f, 3.1415927f, 1e-45f, 1.17549435e-38f, 3.4028235e38f, -0.f, 0.1f, 16777217.f };
            v.u = ch().chance(1, 2) ? ch().bits(32) : fbits(c[ch().below(10)]);
            if (!std::isfinite(fval(v.u)) && o.json)
                v.u = fbits(42.25f);
            break;
        }
        case K::F64: {
            static const double c[] = { 0., 1., -1.5, 3.14159265358979, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -0., 0.1, 9007199254740993., 1e22, 123456789.123456789 };
            v.u = ch().chance(1, 2) ? ch().bits(64) : dbits(c[ch().below(12)]);
            if (!std::isfinite(dval(v.u)) && o.json)
                v.u = dbits(42.25);
            break;
        }
        case K::Str:
            v.s = genStr(o);
            budget -= int(v.s.size() / 16);
            break;
        case K::Seq:
        case K::Set:
        case K::Map: {
            ++depth;
            std::size_t n = 0;
            if (s.kind != K::Set && link(*s.elems[s.kind == K::Map]) && ch().chance(2, 3)) {
                --deep;
                n = 1;
            } else if (budget > 0 && depth < 8) {
                const bool scalar = s.kind == K::Seq && s.elems[0]->kind == K::Int;
                n = scalar ? genLen(o, 5) : (o.longSizes && ch().chance(1, 40) && s.elems[0]->kind == K::Int ? 128 : ch().below(4));
            }
            for (std::size_t i = 0; i < n; ++i) {
                if (s.kind == K::Map) {
                    Val e;
                    // reuse a key of a multimap now and then
                    if (s.multi && !v.k.empty() && ch().chance(1, 2))
                        e.k.push_back(v.k[ch().below(v.k.size())].k[0]);
                    else
                        e.k.push_back(gen(*s.elems[0]));
                    bool dup = false;
                    for (std::size_t x = 0; x < v.k.size() && !s.multi; ++x)
                        dup = dup || equal(*s.elems[0], v.k[x].k[0], e.k[0]);
                    if (dup)
                        continue;
                    e.k.push_back(gen(*s.elems[1]));
                    v.k.push_back(std::move(e));
                } else if (s.kind == K::Set && s.multi && !v.k.empty() && ch().chance(1, 3))
                    v.k.push_back(v.k[ch().below(v.k.size())]);
                else {
                    auto e = gen(*s.elems[0]);
                    bool dup = false;
                    for (std::size_t x = 0; x < v.k.size() && s.kind == K::Set && !s.multi; ++x)
                        dup = dup || equal(*s.elems[0], v.k[x], e);
                    if (!dup)
                        v.k.push_back(std::move(e));
                }
            }
            --depth;
            break;
        }
        case K::Pair:
        case K::Tuple:
            for (auto *e : s.elems)
                v.k.push_back(gen(*e));
            break;
        case K::Opt:
            ++depth;
            if (link(*s.elems[0]) && ch().chance(2, 3)) {
                --deep;
                v.u = 1;
            } else
                v.u = budget > 0 && depth < 8 ? ch().below(2) : 0;
            if (v.u)
                v.k.push_back(gen(*s.elems[0]));
            // JSON has one null only: an engaged optional without a value in it cannot be told from an empty one
            if (o.json && v.u && (s.elems[0]->kind == K::Opt || s.elems[0]->kind == K::Shared) && !v.k[0].u) {
                v.u = 0;
                v.k.clear();
            }
            --depth;
            break;
        case K::Shared: {
            ++depth;
            const bool further = link(*s.elems[0]) && ch().chance(2, 3);
            if (further)
                --deep;
            else if (budget <= 0 || depth >= 10 || !ch().below(4)) {
                --depth;
                break;
            }
            std::vector<std::size_t> same;
            for (std::size_t i = 0; i < g.pool.size(); ++i)
                if (g.poolType[i] == s.elems[0] && (done[i] || o.cycles))
                    same.push_back(i);
            if (!further && !same.empty() && ch().chance(o.sharedPool, 100)) {
                v.u = same[ch().below(same.size())] + 1;
            } else {
                const auto id = g.pool.size();
                g.pool.emplace_back();
                g.poolType.push_back(s.elems[0]);
                done.push_back(false);
                v.u = id + 1;
                auto content = gen(*s.elems[0]);
                g.pool[id] = std::move(content);
                done[id] = true;
            }
            --depth;
            break;
        }
        case K::Var:
            ++depth;
            v.u = ch().below(s.elems.size());
            if (depth >= 9 || budget <= 0)
                v.u = 0;
            v.k.push_back(gen(*s.elems[v.u]));
            --depth;
            break;
        case K::Date:
            if (o.json) {
                // 0001..9999 at tick precision
                v.u = (std::uint64_t(ch().below(3652000)) * 864000000000ull + (ch().chance(1, 2) ? ch().bits(40) % 864000000000ull : ch().below(86400) * 10000000ull));
                if (!isJsonDate(std::int64_t(v.u), false)) {
                    v.u = 636267546810000000ull;
                    sim::count("probe:date-text-inexact");
                }
            } else
                v.u = genInt(8);
            break;
        case K::Span:
            if (o.json) {
                v.u = ch().chance(1, 2) ? ch().bits(44) : std::uint64_t(ch().below(100000)) * 10000000ull;
                if (!isJsonDate(std::int64_t(v.u), true)) {
                    v.u = 117190000000ull;
                    sim::count("probe:span-text-inexact");
                }
            } else
                v.u = genInt(8);
            break;
        case K::Struct:
            ++depth;
            for (auto *b : s.bases)
                v.k.push_back(gen(*b));
            for (std::size_t i = 0; i < s.fields.size(); ++i) {
                const auto &f = s.fields[i];
                if ((o.json && !(f.push && f.pull)) || (!o.json && !f.binary))
                    v.k.push_back(s.def.k[s.bases.size() + i]);
                else
                    v.k.push_back(gen(*f.type));
            }
            --depth;
            break;
        }
        return v;
    }
    std::vector<bool> done;
};
} // namespace

Val generateInto(Graph &g, const Schema &s, const GenOpts &o)
{
    Gen gen{ g, o, int(o.budget), 0, o.bulk, o.deep, {} };
    gen.done.assign(g.pool.size(), true);
    auto v = gen.gen(s);
    if (gen.deep + 10 < o.deep)
        sim::count("probe:deeply nested value");
    return v;
}
Graph generate(const Schema &s, const GenOpts &o)
{
    Graph g;
    g.root = generateInto(g, s, o);
    return g;
}
Val defaultOf(const Schema &s) { return s.def; }

void shiftIds(const Schema &s, Val &v, std::uint64_t by)
{
    switch (s.kind) {
    case K::Shared:
        if (v.u)
            v.u += by;
        break;
    case K::Var:
        if (!v.k.empty())
            shiftIds(*s.elems[v.u], v.k[0], by);
        break;
    case K::Seq:
    case K::Set:
    case K::Opt:
        for (auto &e : v.k)
            shiftIds(*s.elems[0], e, by);
        break;
    case K::Map:
        for (auto &e : v.k)
            for (std::size_t i = 0; i < e.k.size(); ++i)
                shiftIds(*s.elems[i], e.k[i], by);
        break;
    case K::Pair:
    case K::Tuple:
        for (std::size_t i = 0; i < v.k.size(); ++i)
            shiftIds(*s.elems[i], v.k[i], by);
        break;
    case K::Struct: {
        const auto nb = s.bases.size();
        for (std::size_t i = 0; i < v.k.size(); ++i)
            shiftIds(i < nb ? *s.bases[i] : *s.fields[i - nb].type, v.k[i], by);
        break;
    }
    default:;
    }
}
Joint::Joint() { schema.kind = K::Tuple; }
void Joint::add(const Schema &s, Val v)
{
    schema.elems.push_back(&s);
    schema.hasShared = schema.hasShared || s.hasShared;
    schema.hasUnordered = schema.hasUnordered || s.hasUnordered;
    g.root.k.push_back(std::move(v));
}
std::uint64_t Joint::addPool(const Graph &other)
{
    const auto by = g.pool.size();
    for (std::size_t i = 0; i < other.pool.size(); ++i) {
        g.pool.push_back(other.pool[i]);
        g.poolType.push_back(other.poolType[i]);
        shiftIds(*other.poolType[i], g.pool.back(), by);
    }
    return by;
}

// --- canonical form -------------------------------------------------------------------------------

namespace {
struct Canonicalizer {
    const Graph &g;
    bool identity;
    std::vector<std::uint64_t> canonOf; // pool index -> canonical id
    Canon *out;
    std::uint64_t next = 0;
    int depth = 0;

    Val run(const Schema &s, const Val &v)
    {
        Val r;
        r.u = v.u;
        switch (s.kind) {
        case K::Str:
            r.s = v.s;
            r.u = 0;
            break;
        case K::Seq:
        case K::Pair:
        case K::Tuple:
            r.u = 0;
            for (std::size_t i = 0; i < v.k.size(); ++i)
                r.k.push_back(run(*s.elems[s.kind == K::Seq ? 0 : i], v.k[i]));
            break;
        case K::Set:
        case K::Map: {
            r.u = 0;
            const bool map = s.kind == K::Map;
            std::vector<std::pair<std::string, std::size_t>> order;
            for (std::size_t i = 0; i < v.k.size(); ++i) {
                auto key = keyBytes(*s.elems[0], map ? v.k[i].k[0] : v.k[i]);
                if (map && s.unordered && s.multi)
                    key += keyBytes(*s.elems[1], v.k[i].k[1]);
                order.emplace_back(std::move(key), i);
            }
            std::sort(order.begin(), order.end()); // stable through the index
            for (auto &e : order) {
                if (map) {
                    Val p;
                    p.k.push_back(run(*s.elems[0], v.k[e.second].k[0]));
                    p.k.push_back(run(*s.elems[1], v.k[e.second].k[1]));
                    r.k.push_back(std::move(p));
                } else
                    r.k.push_back(run(*s.elems[0], v.k[e.second]));
            }
            break;
        }
        case K::Opt:
            if (v.u)
                r.k.push_back(run(*s.elems[0], v.k[0]));
            break;
        case K::Shared: {
            if (!v.u)
                break;
            if (!identity) {
                r.u = 1;
                if (++depth < 60)
                    r.k.push_back(run(*s.elems[0], v.k.empty() ? g.pool[v.u - 1] : v.k[0]));
                --depth;
                break;
            }
            auto &id = canonOf[v.u - 1];
            if (id) {
                r.u = id;
                break;
            }
            r.u = id = ++next;
            if (out)
                out->ids.push_back(v.u);
            r.k.push_back(run(*s.elems[0], g.pool[v.u - 1]));
            break;
        }
        case K::Var:
            if (!v.k.empty())
                r.k.push_back(run(*s.elems[v.u], v.k[0]));
            break;
        case K::Struct: {
            r.u = 0;
            const auto nb = s.bases.size();
            for (std::size_t i = 0; i < v.k.size(); ++i)
                r.k.push_back(run(i < nb ? *s.bases[i] : *s.fields[i - nb].type, v.k[i]));
            break;
        }
        default:;
        }
        return r;
    }
};
} // namespace

Val canonical(const Schema &s, const Graph &g, Canon *c)
{
    Canonicalizer cz{ g, true, std::vector<std::uint64_t>(g.pool.size(), 0), c };
    return cz.run(s, g.root);
}
Val unshared(const Schema &s, const Graph &g)
{
    Canonicalizer cz{ g, false, {}, nullptr };
    return cz.run(s, g.root);
}

bool equal(const Schema &s, const Val &a, const Val &b)
{
    switch (s.kind) {
    case K::Unit:
        return true;
    case K::Str:
        return a.s == b.s;
    case K::Seq:
    case K::Set:
    case K::Map:
    case K::Pair:
    case K::Tuple:
    case K::Struct:
        break;
    default:
        if (a.u != b.u)
            return false;
    }
    if (a.k.size() != b.k.size())
        return false;
    const auto nb = s.bases.size();
    for (std::size_t i = 0; i < a.k.size(); ++i) {
        if (s.kind == K::Map) {
            if (!equal(*s.elems[0], a.k[i].k[0], b.k[i].k[0]) || !equal(*s.elems[1], a.k[i].k[1], b.k[i].k[1]))
                return false;
            continue;
        }
        const auto *c = s.kind == K::Struct ? (i < nb ? s.bases[i] : s.fields[i - nb].type)
            : s.kind == K::Pair || s.kind == K::Tuple ? s.elems[i]
            : s.kind == K::Var ? s.elems[a.u]
                               : s.elems[0];
        if (!equal(*c, a.k[i], b.k[i]))
            return false;
    }
    return true;
}

std::string diff(const Schema &s, const Val &a, const Val &b, const std::string &path)
{
    if (equal(s, a, b))
        return {};
    const auto here = path.empty() ? std::string("value") : path;
    switch (s.kind) {
    case K::Unit:
        return {};
    case K::Str:
        return a.s == b.s ? std::string() : here + ": text " + sim::quote(a.s) + " vs " + sim::quote(b.s);
    case K::Seq:
    case K::Set:
    case K::Map:
        if (a.k.size() != b.k.size())
            return here + ": " + std::to_string(a.k.size()) + " vs " + std::to_string(b.k.size()) + " elements";
        break;
    case K::Pair:
    case K::Tuple:
    case K::Struct:
        if (a.k.size() != b.k.size())
            return here + ": malformed";
        break;
    default:
        if (a.u != b.u)
            return here + ": " + std::to_string(a.u) + " vs " + std::to_string(b.u);
        if (a.k.size() != b.k.size())
            return here + ": different sharing";
    }
    for (std::size_t i = 0; i < a.k.size(); ++i) {
        std::string d;
        switch (s.kind) {
        case K::Map:
            d = diff(*s.elems[0], a.k[i].k[0], b.k[i].k[0], here + "[" + std::to_string(i) + "].key");
            if (d.empty())
                d = diff(*s.elems[1], a.k[i].k[1], b.k[i].k[1], here + "[" + std::to_string(i) + "].value");
            break;
        case K::Seq:
        case K::Set:
            d = diff(*s.elems[0], a.k[i], b.k[i], here + "[" + std::to_string(i) + "]");
            break;
        case K::Pair:
        case K::Tuple:
            d = diff(*s.elems[i], a.k[i], b.k[i], here + "." + std::to_string(i));
            break;
        case K::Opt:
        case K::Shared:
            d = diff(*s.elems[0], a.k[i], b.k[i], "*" + here);
            break;
        case K::Var:
            d = diff(*s.elems[a.u], a.k[i], b.k[i], here + "<" + std::to_string(a.u) + ">");
            break;
        case K::Struct:
            if (i < s.bases.size())
                d = diff(*s.bases[i], a.k[i], b.k[i], here + "." + s.bases[i]->name);
            else
                d = diff(*s.fields[i - s.bases.size()].type, a.k[i], b.k[i], here + "." + s.fields[i - s.bases.size()].name);
            break;
        default:;
        }
        if (!d.empty())
            return d;
    }
    return {};
}

std::uint64_t hashVal(const Val &v, std::uint64_t h)
{
    h = sim::hashBytes(&v.u, 8, h);
    h = sim::hashBytes(v.s.data(), v.s.size(), h);
    const std::uint64_t n = v.k.size();
    h = sim::hashBytes(&n, 8, h);
    for (auto &c : v.k)
        h = hashVal(c, h);
    return h;
}

namespace {
void showInto(std::string &out, const Schema &s, const Graph *g, const Val &v, std::size_t max, int depth)
{
    if (out.size() > max || depth > 12) {
        if (out.empty() || out.back() != '~')
            out += '~';
        return;
    }
    switch (s.kind) {
    case K::Unit:
        out += "()";
        break;
    case K::Bool:
        out += v.u ? "true" : "false";
        break;
    case K::Int:
    case K::Enum:
        if (s.isSigned) {
            const auto shift = 64 - 8 * s.size;
            out += std::to_string(std::int64_t(v.u << shift) >> shift);
        } else
            out += std::to_string(v.u);
        break;
    case K::Date:
    case K::Span:
        out += "t" + std::to_string(std::int64_t(v.u));
        break;
    case K::F32: {
        char b[40];
        std::snprintf(b, sizeof(b), "%.9gf", double(fval(v.u)));
        out += b;
        break;
    }
    case K::F64: {
        char b[40];
        std::snprintf(b, sizeof(b), "%.17g", dval(v.u));
        out += b;
        break;
    }
    case K::Str:
        out += sim::quote(v.s, 40);
        break;
    case K::Seq:
    case K::Set:
    case K::Map:
        out += s.kind == K::Seq ? "[" : "{";
        for (std::size_t i = 0; i < v.k.size(); ++i) {
            if (i)
                out += ", ";
            if (i > 10) {
                out += "... " + std::to_string(v.k.size());
                break;
            }
            if (s.kind == K::Map) {
                showInto(out, *s.elems[0], g, v.k[i].k[0], max, depth + 1);
                out += ": ";
                showInto(out, *s.elems[1], g, v.k[i].k[1], max, depth + 1);
            } else
                showInto(out, *s.elems[0], g, v.k[i], max, depth + 1);
        }
        out += s.kind == K::Seq ? "]" : "}";
        break;
    case K::Pair:
    case K::Tuple:
        out += "(";
        for (std::size_t i = 0; i < v.k.size(); ++i) {
            if (i)
                out += ", ";
            showInto(out, *s.elems[i], g, v.k[i], max, depth + 1);
        }
        out += ")";
        break;
    case K::Opt:
        if (!v.u)
            out += "none";
        else
            showInto(out, *s.elems[0], g, v.k[0], max, depth + 1);
        break;
    case K::Shared:
        if (!v.u)
            out += "null";
        else {
            out += "#" + std::to_string(v.u);
            if (!v.k.empty()) {
                out += "=";
                showInto(out, *s.elems[0], g, v.k[0], max, depth + 1);
            }
        }
        break;
    case K::Var:
        out += "<" + std::to_string(v.u) + ">";
        if (!v.k.empty())
            showInto(out, *s.elems[v.u], g, v.k[0], max, depth + 1);
        break;
    case K::Struct:
        out += "{";
        for (std::size_t i = 0; i < v.k.size(); ++i) {
            if (i)
                out += ", ";
            if (i < s.bases.size())
                showInto(out, *s.bases[i], g, v.k[i], max, depth + 1);
            else {
                out += s.fields[i - s.bases.size()].name;
                out += ":";
                showInto(out, *s.fields[i - s.bases.size()].type, g, v.k[i], max, depth + 1);
            }
        }
        out += "}";
        break;
    }
}
} // namespace
std::string show(const Schema &s, const Val &v, std::size_t max)
{
    std::string out;
    showInto(out, s, nullptr, v, max, 0);
    return out;
}
std::string showGraph(const Schema &s, const Graph &g, std::size_t max) { return show(s, canonical(s, g), max); }

// --- binary format --------------------------------------------------------------------------------

void putVar(std::string &out, std::uint64_t v)
{
    unsigned n = 1;
    while (n < 8 && v >= (1ull << (7 * n)))
        ++n;
    const auto first = static_cast<unsigned char>((0x80u >> (n - 1)) | (n < 8 ? (v >> (8 * (n - 1))) : 0));
    out += char(first);
    for (unsigned i = n - 1; i-- > 0;)
        out += char((v >> (8 * i)) & 0xff);
}
namespace {
void putBE(std::string &out, std::uint64_t v, unsigned size)
{
    for (unsigned i = size; i-- > 0;)
        out += char((v >> (8 * i)) & 0xff);
}
struct Encoder {
    const Graph &g;
    std::string out;
    std::vector<bool> *written;
    std::vector<std::uint64_t> *ids;
    std::vector<bool> own;

    void enc(const Schema &s, const Val &v, std::uint64_t version)
    {
        switch (s.kind) {
        case K::Unit:
            break;
        case K::Bool:
            putBE(out, v.u, 1);
            break;
        case K::Int:
        case K::Enum:
            putBE(out, v.u, s.size);
            break;
        case K::F32:
            putBE(out, v.u, 4);
            break;
        case K::F64:
        case K::Date:
        case K::Span:
            putBE(out, v.u, 8);
            break;
        case K::Str:
            putVar(out, v.s.size());
            out += v.s;
            break;
        case K::Seq:
        case K::Set:
            putVar(out, v.k.size());
            for (auto &e : v.k)
                enc(*s.elems[0], e, 0);
            break;
        case K::Map:
            putVar(out, v.k.size());
            for (auto &e : v.k) {
                enc(*s.elems[0], e.k[0], 0);
                enc(*s.elems[1], e.k[1], 0);
            }
            break;
        case K::Pair:
        case K::Tuple:
            for (std::size_t i = 0; i < v.k.size(); ++i)
                enc(*s.elems[i], v.k[i], 0);
            break;
        case K::Opt:
            putBE(out, v.u ? 1 : 0, 1);
            if (v.u)
                enc(*s.elems[0], v.k[0], 0);
            break;
        case K::Shared: {
            if (!v.u) {
                putBE(out, 0, 1);
                break;
            }
            const auto idx = v.u - 1;
            if (written->size() <= idx)
                written->resize(idx + 1, false);
            const auto id = ids && idx < ids->size() ? (*ids)[idx] : 0x1000 + 16 * idx;
            const bool first = !(*written)[idx];
            const bool big = id >> 55;
            putBE(out, (first ? 1 : 2) | (big ? 4 : 0), 1);
            if (big)
                putBE(out, id, 8);
            else
                putVar(out, id);
            if (first) {
                (*written)[idx] = true;
                enc(*s.elems[0], v.k.empty() ? g.pool[idx] : v.k[0], 0);
            }
            break;
        }
        case K::Var:
            putBE(out, v.u, 1);
            if (!v.k.empty())
                enc(*s.elems[v.u], v.k[0], 0);
            break;
        case K::Struct: {
            const auto nb = s.bases.size();
            for (std::size_t i = 0; i < nb; ++i)
                enc(*s.bases[i], v.k[i], version);
            if (s.version) {
                if (!version || version > s.version)
                    version = s.version; // a record cannot be written at a version it does not know
                putVar(out, version);
            }
            for (std::size_t i = 0; i < s.fields.size(); ++i) {
                const auto &f = s.fields[i];
                if (!f.binary || (f.asOf && version < f.asOf) || (f.until && version > f.until))
                    continue;
                enc(*f.type, v.k[nb + i], version);
            }
            break;
        }
        }
    }
};
} // namespace
std::string encode(const Schema &s, const Graph &g, const Val &v, const EncodeOpts &o)
{
    Encoder e{ g, {}, o.written, o.ids, {} };
    if (!e.written)
        e.written = &e.own;
    e.enc(s, v, o.version);
    return e.out;
}

namespace {
struct Stop {};
struct Decoder {
    const std::string &b;
    std::size_t pos;
    Graph &g;
    DecodeSession &sess;
    const DecodeOpts &o;
    DecodeResult &r;
    std::vector<std::size_t> building = {}; // shared objects being read

    [[noreturn]] void shortInput()
    {
        r.status = DecodeResult::Short;
        throw Stop();
    }
    [[noreturn]] void error(std::string e)
    {
        r.status = DecodeResult::Error;
        r.error = std::move(e);
        throw Stop();
    }
    std::uint64_t be(unsigned n)
    {
        if (b.size() - pos < n)
            shortInput();
        std::uint64_t v = 0;
        for (unsigned i = 0; i < n; ++i)
            v = v << 8 | static_cast<unsigned char>(b[pos++]);
        return v;
    }
    std::uint64_t var()
    {
        if (pos >= b.size())
            shortInput();
        const auto first = static_cast<unsigned char>(b[pos]);
        if (!first)
            error("invalid length denotation");
        unsigned n = 1;
        while (!(first & (0x80 >> (n - 1))))
            ++n;
        if (b.size() - pos < n)
            shortInput();
        std::uint64_t v = first ^ (0x80 >> (n - 1));
        ++pos;
        for (unsigned i = 1; i < n; ++i)
            v = v << 8 | static_cast<unsigned char>(b[pos++]);
        if (o.strict && n > 1 && v < (1ull << (7 * (n - 1))))
            error("non-minimal length denotation");
        return v;
    }
    void element()
    {
        if (++r.elements > o.maxElements) {
            r.status = DecodeResult::TooBig;
            throw Stop();
        }
    }
    void dec(const Schema &s, Val &v, std::uint64_t version, std::uint64_t *used)
    {
        switch (s.kind) {
        case K::Unit:
            break;
        case K::Bool: {
            const auto raw = be(1);
            if (o.strict && raw > 1)
                error("boolean that is neither 0 nor 1");
            v.u = raw ? 1 : 0;
            break;
        }
        case K::Int:
        case K::Enum:
            v.u = be(s.size);
            break;
        case K::F32:
            v.u = be(4);
            break;
        case K::F64:
        case K::Date:
        case K::Span:
            v.u = be(8);
            break;
        case K::Str: {
            const auto n = var();
            if (n > b.size() - pos)
                shortInput();
            r.memory += 2 * n + 64;
            v.s = b.substr(pos, n);
            pos += n;
            break;
        }
        case K::Seq:
        case K::Set: {
            v.k.clear();
            const auto n = var();
            r.memory += std::min<std::uint64_t>(n, 1u << 30) * (s.kind == K::Seq ? 2 * s.elems[0]->mem + 64 : 0);
            Dedupe before{ *s.elems[0], {} };
            for (std::uint64_t i = 0; i < n; ++i) {
                element();
                r.memory += s.elems[0]->mem + 128;
                Val e = s.elems[0]->def;
                dec(*s.elems[0], e, 0, nullptr);
                if (s.kind == K::Set && !s.multi) {
                    if (before.dup(e)) {
                        if (o.strict)
                            error("duplicate in set");
                        continue;
                    }
                }
                v.k.push_back(std::move(e));
            }
            break;
        }
        case K::Map: {
            v.k.clear();
            const auto n = var();
            Dedupe before{ *s.elems[0], {} };
            for (std::uint64_t i = 0; i < n; ++i) {
                element();
                r.memory += 2 * (s.elems[0]->mem + s.elems[1]->mem) + 128;
                Val e;
                e.k.push_back(s.elems[0]->def);
                e.k.push_back(s.elems[1]->def);
                dec(*s.elems[0], e.k[0], 0, nullptr);
                dec(*s.elems[1], e.k[1], 0, nullptr);
                if (!s.multi) {
                    if (before.dup(e.k[0])) {
                        if (o.strict)
                            error("duplicate key in map");
                        r.undefined = true; // which of the two values counts is not defined
                        continue;
                    }
                }
                v.k.push_back(std::move(e));
            }
            break;
        }
        case K::Pair:
        case K::Tuple:
            for (std::size_t i = 0; i < s.elems.size(); ++i)
                dec(*s.elems[i], v.k[i], 0, nullptr);
            break;
        case K::Opt: {
            const auto raw = be(1);
            if (o.strict && raw > 1)
                error("flag that is neither 0 nor 1");
            v.k.clear();
            v.u = raw ? 1 : 0;
            r.memory += s.elems[0]->mem + 64;
            if (raw) {
                v.k.push_back(s.elems[0]->def);
                dec(*s.elems[0], v.k[0], 0, nullptr);
            }
            break;
        }
        case K::Shared: {
            const auto mode = be(1);
            v.k.clear();
            r.memory += s.elems[0]->mem + 256;
            if (!mode) {
                v.u = 0;
                break;
            }
            if (mode & ~7ull || (mode & 3) == 0 || (mode & 3) == 3) {
                if (o.strict)
                    error("undefined shared pointer mode");
                r.undefined = true;
            }
            const auto id = mode & 4 ? be(8) : var();
            if (o.strict && ((mode & 4) != 0) != ((id >> 55) != 0))
                error("wrong width of shared object id");
            if ((mode & 3) == 1) {
                const auto idx = g.pool.size();
                if (o.strict && sess.live.count(id))
                    error("shared object sent twice");
                sess.live[id] = idx; // instead of a former one
                g.pool.push_back(s.elems[0]->def);
                g.poolType.push_back(s.elems[0]);
                sess.ids.push_back(id);
                v.u = idx + 1;
                Val content = s.elems[0]->def;
                building.push_back(idx);
                try {
                    dec(*s.elems[0], content, 0, nullptr);
                    building.pop_back();
                } catch (const Stop &) {
                    g.pool[idx] = std::move(content);
                    throw;
                }
                g.pool[idx] = std::move(content);
            } else {
                const auto known = sess.live.find(id);
                if (known == sess.live.end())
                    error("reference to unknown shared object");
                const auto idx = known->second;
                if (g.poolType[idx] != s.elems[0])
                    error("reference to shared object of another type");
                v.u = idx + 1;
                r.cycle = r.cycle || std::find(building.begin(), building.end(), idx) != building.end();
            }
            break;
        }
        case K::Var: {
            const auto idx = be(1);
            if (idx >= s.elems.size())
                error("variant index out of range");
            v.u = idx;
            v.k.clear();
            v.k.push_back(s.elems[idx]->def);
            dec(*s.elems[idx], v.k[0], 0, nullptr);
            break;
        }
        case K::Struct: {
            const auto nb = s.bases.size();
            for (std::size_t i = 0; i < nb; ++i)
                dec(*s.bases[i], v.k[i], version, nullptr);
            if (s.version) {
                version = var();
                if (version > s.version) {
                    r.versionRefused = true;
                    r.presentVersion = version;
                    r.maxVersion = s.version;
                    r.record = s.name;
                    error("version not supported");
                }
            }
            if (used)
                *used = version;
            for (std::size_t i = 0; i < s.fields.size(); ++i) {
                const auto &f = s.fields[i];
                if (!f.binary || (f.asOf && version < f.asOf) || (f.until && version > f.until))
                    continue;
                dec(*f.type, v.k[nb + i], version, nullptr);
            }
            break;
        }
        }
    }
};
} // namespace

DecodeResult decode(const Schema &s, const std::string &bytes, std::size_t offset, Graph &g, DecodeSession &sess, const DecodeOpts &o)
{
    DecodeResult r;
    r.value = o.initial ? *o.initial : s.def;
    Decoder d{ bytes, offset, g, sess, o, r };
    try {
        d.dec(s, r.value, o.version, &r.usedVersion);
    } catch (const Stop &) {
    }
    r.consumed = d.pos - offset;
    return r;
}

// --- JSON -----------------------------------------------------------------------------------------

bool J::operator==(const J &r) const
{
    if (t != r.t)
        return false;
    switch (t) {
    case Num:
        if (n == r.n)
            return n == I ? i == r.i : n == U ? u == r.u : dbits(d) == dbits(r.d);
        return false;
    case Str:
        return s == r.s;
    case Arr:
        return a == r.a;
    case Obj:
        return o == r.o;
    default:
        return true;
    }
}
JType jtype(const J &j)
{
    switch (j.t) {
    case J::False:
    case J::True:
        return JBool;
    case J::Num:
        return JNumber;
    case J::Str:
        return JString;
    case J::Arr:
        return JArray;
    case J::Obj:
        return JObject;
    default:
        return JNull;
    }
}
static void jstr(std::string &out, const std::string &s)
{
    out += '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            out += '\\';
            out += char(c);
        } else if (c < 0x20) {
            char b[8];
            std::snprintf(b, sizeof(b), "\\u%04x", c);
            out += b;
        } else
            out += char(c);
    }
    out += '"';
}
static void jwrite(std::string &out, const J &j)
{
    switch (j.t) {
    case J::Null:
        out += "null";
        break;
    case J::False:
        out += "false";
        break;
    case J::True:
        out += "true";
        break;
    case J::Num:
        if (j.n == J::I)
            out += std::to_string(j.i);
        else if (j.n == J::U)
            out += std::to_string(j.u);
        else {
            char b[40];
            std::snprintf(b, sizeof(b), "%.17g", j.d);
            out += b;
            if (!std::strpbrk(b, ".eEn"))
                out += ".0";
        }
        break;
    case J::Str:
        jstr(out, j.s);
        break;
    case J::Arr: {
        out += '[';
        bool first = true;
        for (auto &e : j.a) {
            if (!first)
                out += ',';
            first = false;
            jwrite(out, e);
        }
        out += ']';
        break;
    }
    case J::Obj: {
        out += '{';
        bool first = true;
        for (auto &e : j.o) {
            if (!first)
                out += ',';
            first = false;
            jstr(out, e.first);
            out += ':';
            jwrite(out, e.second);
        }
        out += '}';
        break;
    }
    }
}
std::string jtext(const J &j)
{
    std::string out;
    jwrite(out, j);
    return out;
}

namespace {
struct Parser {
    const std::string &t;
    std::size_t p = 0;
    int depth = 0;
    void ws()
    {
        while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r'))
            ++p;
    }
    bool lit(const char *l)
    {
        const auto n = std::strlen(l);
        if (t.compare(p, n, l))
            return false;
        p += n;
        return true;
    }
    static void utf8(std::string &o, std::uint32_t c)
    {
        if (c < 0x80)
            o += char(c);
        else if (c < 0x800) {
            o += char(0xc0 | c >> 6);
            o += char(0x80 | (c & 0x3f));
        } else if (c < 0x10000) {
            o += char(0xe0 | c >> 12);
            o += char(0x80 | ((c >> 6) & 0x3f));
            o += char(0x80 | (c & 0x3f));
        } else {
            o += char(0xf0 | c >> 18);
            o += char(0x80 | ((c >> 12) & 0x3f));
            o += char(0x80 | ((c >> 6) & 0x3f));
            o += char(0x80 | (c & 0x3f));
        }
    }
    bool hex4(std::uint32_t &v)
    {
        v = 0;
        for (int i = 0; i < 4; ++i) {
            if (p >= t.size() || !std::isxdigit(static_cast<unsigned char>(t[p])))
                return false;
            const char c = t[p++];
            v = v * 16 + std::uint32_t(c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
        }
        return true;
    }
    bool str(std::string &o)
    {
        if (p >= t.size() || t[p] != '"')
            return false;
        ++p;
        while (p < t.size()) {
            const auto c = static_cast<unsigned char>(t[p++]);
            if (c == '"')
                return true;
            if (c < 0x20)
                return false;
            if (c != '\\') {
                o += char(c);
                continue;
            }
            if (p >= t.size())
                return false;
            switch (t[p++]) {
            case '"': o += '"'; break;
            case '\\': o += '\\'; break;
            case '/': o += '/'; break;
            case 'b': o += '\b'; break;
            case 'f': o += '\f'; break;
            case 'n': o += '\n'; break;
            case 'r': o += '\r'; break;
            case 't': o += '\t'; break;
            case 'u': {
                std::uint32_t v, w;
                if (!hex4(v))
                    return false;
                if (v >= 0xd800 && v < 0xdc00) {
                    if (!lit("\\u") || !hex4(w) || w < 0xdc00 || w > 0xdfff)
                        return false;
                    v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
                } else if (v >= 0xdc00 && v < 0xe000)
                    return false;
                utf8(o, v);
                break;
            }
            default:
                return false;
            }
        }
        return false;
    }
    bool num(J &j)
    {
        const auto b = p;
        bool isInt = true;
        if (p < t.size() && t[p] == '-')
            ++p;
        if (p >= t.size() || !std::isdigit(static_cast<unsigned char>(t[p])))
            return false;
        if (t[p] == '0')
            ++p;
        else
            while (p < t.size() && std::isdigit(static_cast<unsigned char>(t[p])))
                ++p;
        if (p < t.size() && t[p] == '.') {
            isInt = false;
            ++p;
            if (p >= t.size() || !std::isdigit(static_cast<unsigned char>(t[p])))
                return false;
            while (p < t.size() && std::isdigit(static_cast<unsigned char>(t[p])))
                ++p;
        }
        if (p < t.size() && (t[p] | 32) == 'e') {
            isInt = false;
            ++p;
            if (p < t.size() && (t[p] == '+' || t[p] == '-'))
                ++p;
            if (p >= t.size() || !std::isdigit(static_cast<unsigned char>(t[p])))
                return false;
            while (p < t.size() && std::isdigit(static_cast<unsigned char>(t[p])))
                ++p;
        }
        const auto text = t.substr(b, p - b);
        j.t = J::Num;
        if (isInt) {
            errno = 0;
            if (text[0] == '-') {
                const auto v = std::strtoll(text.c_str(), nullptr, 10);
                if (!errno) {
                    j.n = J::I;
                    j.i = v;
                    if (v == 0) { // "-0"
                        j.n = J::U;
                        j.u = 0;
                    }
                    return true;
                }
            } else {
                const auto v = std::strtoull(text.c_str(), nullptr, 10);
                if (!errno) {
                    j.n = J::U;
                    j.u = v;
                    return true;
                }
            }
        }
        j.n = J::D;
        j.d = std::strtod(text.c_str(), nullptr);
        return std::isfinite(j.d);
    }
    bool val(J &j)
    {
        if (++depth > 2000)
            return false;
        ws();
        if (p >= t.size())
            return false;
        bool ok = false;
        switch (t[p]) {
        case 'n': ok = lit("null"); j.t = J::Null; break;
        case 't': ok = lit("true"); j.t = J::True; break;
        case 'f': ok = lit("false"); j.t = J::False; break;
        case '"': j.t = J::Str; ok = str(j.s); break;
        case '[':
            ++p;
            j.t = J::Arr;
            ws();
            if (p < t.size() && t[p] == ']') {
                ++p;
                ok = true;
                break;
            }
            for (;;) {
                j.a.emplace_back();
                if (!val(j.a.back()))
                    break;
                ws();
                if (p < t.size() && t[p] == ',') {
                    ++p;
                    continue;
                }
                if (p < t.size() && t[p] == ']') {
                    ++p;
                    ok = true;
                }
                break;
            }
            break;
        case '{':
            ++p;
            j.t = J::Obj;
            ws();
            if (p < t.size() && t[p] == '}') {
                ++p;
                ok = true;
                break;
            }
            for (;;) {
                ws();
                j.o.emplace_back();
                if (!str(j.o.back().first))
                    break;
                ws();
                if (p >= t.size() || t[p] != ':')
                    break;
                ++p;
                if (!val(j.o.back().second))
                    break;
                ws();
                if (p < t.size() && t[p] == ',') {
                    ++p;
                    continue;
                }
                if (p < t.size() && t[p] == '}') {
                    ++p;
                    ok = true;
                }
                break;
            }
            break;
        default:
            ok = num(j);
        }
        --depth;
        return ok;
    }
};
} // namespace
bool jparse(const std::string &text, J &out)
{
    Parser p{ text };
    out = J();
    if (!p.val(out))
        return false;
    p.ws();
    return p.p == text.size();
}

static std::int64_t signExtend(std::uint64_t v, unsigned size)
{
    const auto shift = 64 - 8 * size;
    return std::int64_t(v << shift) >> shift;
}
static J jnumI(std::int64_t v)
{
    J j;
    j.t = J::Num;
    if (v >= 0) {
        j.n = J::U;
        j.u = std::uint64_t(v);
    } else {
        j.n = J::I;
        j.i = v;
    }
    return j;
}
static J jnumU(std::uint64_t v)
{
    J j;
    j.t = J::Num;
    j.n = J::U;
    j.u = v;
    return j;
}
static J jnumD(double d)
{
    J j;
    j.t = J::Num;
    j.n = J::D;
    j.d = d;
    return j;
}
static J jtextv(std::string s)
{
    J j;
    j.t = J::Str;
    j.s = std::move(s);
    return j;
}
static void structInto(const Schema &s, const Graph &g, const Val &v, J &j)
{
    const auto nb = s.bases.size();
    for (std::size_t i = 0; i < nb; ++i)
        structInto(*s.bases[i], g, v.k[i], j);
    for (std::size_t i = 0; i < s.fields.size(); ++i)
        if (s.fields[i].push)
            j.o.emplace_back(s.fields[i].name, toJ(*s.fields[i].type, g, v.k[nb + i]));
}
J toJ(const Schema &s, const Graph &g, const Val &v)
{
    J j;
    switch (s.kind) {
    case K::Unit:
        break;
    case K::Bool:
        j.t = v.u ? J::True : J::False;
        break;
    case K::Int:
    case K::Enum:
        return s.isSigned ? jnumI(signExtend(v.u, s.size)) : jnumU(v.u);
    case K::F32:
        return jnumD(double(fval(v.u)));
    case K::F64:
        return jnumD(dval(v.u));
    case K::Str:
        return jtextv(v.s);
    case K::Seq:
    case K::Set:
        j.t = J::Arr;
        for (auto &e : v.k)
            j.a.push_back(toJ(*s.elems[0], g, e));
        break;
    case K::Map:
        j.t = J::Obj;
        for (auto &e : v.k) {
            auto x = toJ(*s.elems[1], g, e.k[1]);
            if (!s.multi) {
                j.o.emplace_back(e.k[0].s, std::move(x));
                continue;
            }
            J *arr = nullptr;
            for (auto &m : j.o)
                if (m.first == e.k[0].s)
                    arr = &m.second;
            if (!arr) {
                j.o.emplace_back(e.k[0].s, J());
                arr = &j.o.back().second;
                arr->t = J::Arr;
            }
            arr->a.push_back(std::move(x));
        }
        break;
    case K::Pair:
    case K::Tuple:
        j.t = J::Arr;
        for (std::size_t i = 0; i < v.k.size(); ++i)
            j.a.push_back(toJ(*s.elems[i], g, v.k[i]));
        break;
    case K::Opt:
        if (v.u)
            return toJ(*s.elems[0], g, v.k[0]);
        break;
    case K::Shared:
        if (v.u)
            return toJ(*s.elems[0], g, v.k.empty() ? g.pool[v.u - 1] : v.k[0]);
        break;
    case K::Var:
        j.t = J::Obj;
        j.o.emplace_back("index", jnumU(v.u));
        j.o.emplace_back("data", toJ(*s.elems[v.u], g, v.k[0]));
        break;
    case K::Date:
        return jtextv(dateToText(std::int64_t(v.u)));
    case K::Span:
        return jtextv(spanToText(std::int64_t(v.u)));
    case K::Struct:
        j.t = J::Obj;
        structInto(s, g, v, j);
        break;
    }
    return j;
}
namespace {
const Field *findField(const Schema &s, const std::string &n)
{
    for (auto *b : s.bases)
        if (auto *f = findField(*b, n))
            return f;
    for (auto &f : s.fields)
        if (f.push && n == f.name)
            return &f;
    return nullptr;
}
bool sameMultiset(const Schema &s, const std::vector<J> &a, const std::vector<J> &b)
{
    if (a.size() != b.size())
        return false;
    std::vector<bool> used(b.size(), false);
    for (auto &x : a) {
        bool found = false;
        for (std::size_t i = 0; i < b.size() && !found; ++i)
            if (!used[i] && jmatch(s, x, b[i]))
                used[i] = found = true;
        if (!found)
            return false;
    }
    return true;
}
bool numEq(const J &a, const J &b)
{
    if (a.t != J::Num || b.t != J::Num)
        return false;
    if (a.n == J::D || b.n == J::D) {
        const double x = a.n == J::D ? a.d : a.n == J::I ? double(a.i) : double(a.u);
        const double y = b.n == J::D ? b.d : b.n == J::I ? double(b.i) : double(b.u);
        return dbits(x) == dbits(y) || (x == y && (a.n != J::D || b.n != J::D) && x != 0);
    }
    return a == b;
}
} // namespace
bool jmatch(const Schema &s, const J &e, const J &a)
{
    if (e.t != a.t)
        return false;
    switch (s.kind) {
    case K::Int:
    case K::Enum:
        return e == a;
    case K::F32:
        // any text that reads back as the same float
        return a.t == J::Num && fbits(float(a.n == J::D ? a.d : a.n == J::I ? double(a.i) : double(a.u))) == fbits(float(e.d));
    case K::F64:
        return numEq(e, a);
    case K::Seq:
        if (e.a.size() != a.a.size())
            return false;
        for (std::size_t i = 0; i < e.a.size(); ++i)
            if (!jmatch(*s.elems[0], e.a[i], a.a[i]))
                return false;
        return true;
    case K::Set:
        return sameMultiset(*s.elems[0], e.a, a.a);
    case K::Map:
        if (e.o.size() != a.o.size())
            return false;
        for (auto &m : e.o) {
            const J *found = nullptr;
            for (auto &x : a.o)
                if (x.first == m.first) {
                    if (found)
                        return false;
                    found = &x.second;
                }
            if (!found)
                return false;
            if (s.multi) {
                if (found->t != J::Arr)
                    return false;
                if (s.unordered) {
                    if (!sameMultiset(*s.elems[1], m.second.a, found->a))
                        return false;
                } else {
                    if (m.second.a.size() != found->a.size())
                        return false;
                    for (std::size_t i = 0; i < found->a.size(); ++i)
                        if (!jmatch(*s.elems[1], m.second.a[i], found->a[i]))
                            return false;
                }
            } else if (!jmatch(*s.elems[1], m.second, *found))
                return false;
        }
        return true;
    case K::Pair:
    case K::Tuple:
        if (e.a.size() != a.a.size())
            return false;
        for (std::size_t i = 0; i < e.a.size(); ++i)
            if (!jmatch(*s.elems[i], e.a[i], a.a[i]))
                return false;
        return true;
    case K::Opt:
    case K::Shared:
        return e.t == J::Null || jmatch(*s.elems[0], e, a);
    case K::Var: {
        if (a.o.size() != 2)
            return false;
        const J *idx = nullptr, *data = nullptr;
        for (auto &m : a.o)
            (m.first == "index" ? idx : data) = &m.second;
        if (!idx || !data || *idx != e.o[0].second)
            return false;
        return jmatch(*s.elems[e.o[0].second.u], e.o[1].second, *data);
    }
    case K::Struct: {
        if (e.o.size() != a.o.size())
            return false;
        for (auto &m : e.o) {
            const J *found = nullptr;
            for (auto &x : a.o)
                if (x.first == m.first) {
                    if (found)
                        return false;
                    found = &x.second;
                }
            const auto *f = findField(s, m.first);
            if (!found || !f || !jmatch(*f->type, m.second, *found))
                return false;
        }
        return true;
    }
    default:
        return e == a;
    }
}

std::string showErr(const Err &e)
{
    static const char *const kinds[] = { "TypeMismatch", "ArraySizeMismatch", "ConversionError", "UnexpectedDuplicate", "InvalidVariantObject", "InvalidVariantIndex" };
    static const char *const types[] = { "null", "number", "bool", "string", "array", "object" };
    std::string r = e.kind < 6 ? kinds[e.kind] : "kind " + std::to_string(e.kind);
    r += std::string("(expected ") + (e.expected < 6 ? types[e.expected] : "?") + ", actual " + (e.actual < 6 ? types[e.actual] : "?") + ", record "
        + (e.hasRecord ? e.record : "-") + ", member " + (e.hasMember ? e.member : "-") + ", index "
        + (e.index == ~0ull ? std::string("-") : std::to_string(e.index)) + ")";
    return r;
}

namespace {
unsigned expectedType(const Schema &s)
{
    switch (s.kind) {
    case K::Bool:
        return JBool;
    case K::Int:
    case K::Enum:
    case K::F32:
    case K::F64:
        return JNumber;
    case K::Str:
    case K::Date:
    case K::Span:
        return JString;
    case K::Seq:
    case K::Set:
    case K::Pair:
    case K::Tuple:
        return JArray;
    default:
        return JObject;
    }
}
void report(PullCtx &c, unsigned kind, unsigned expected, unsigned actual)
{
    if (!c.haveErrors)
        return;
    Err e;
    e.kind = kind;
    e.expected = expected;
    e.actual = actual;
    e.record = c.record;
    e.hasRecord = c.hasRecord;
    e.member = c.member;
    e.hasMember = c.hasMember;
    e.index = c.index;
    c.errors.push_back(e);
    if (c.throwOn & (1u << kind))
        throw Fatal{ e };
}
struct CtxKeeper { // the context is that of the enclosing value again once a value is done, however it ends
    PullCtx &c;
    std::string record, member;
    bool hasRecord, hasMember;
    std::uint64_t index;
    explicit CtxKeeper(PullCtx &c)
        : c(c)
        , record(c.record)
        , member(c.member)
        , hasRecord(c.hasRecord)
        , hasMember(c.hasMember)
        , index(c.index)
    {
    }
    ~CtxKeeper()
    {
        c.record = record;
        c.member = member;
        c.hasRecord = hasRecord;
        c.hasMember = hasMember;
        c.index = index;
    }
};
void pullStruct(const Schema &s, const J &j, Val &target, PullCtx &c)
{
    const auto nb = s.bases.size();
    for (std::size_t i = 0; i < nb; ++i)
        pullStruct(*s.bases[i], j, target.k[i], c);
    CtxKeeper keep(c);
    if (!s.hanaRecord) {
        c.record = s.name;
        c.hasRecord = true;
    }
    for (std::size_t i = 0; i < s.fields.size(); ++i) {
        const auto &f = s.fields[i];
        if (!f.pull)
            continue;
        const J *m = nullptr;
        for (auto &x : j.o)
            if (x.first == f.name) {
                m = &x.second;
                break;
            }
        if (!m)
            continue;
        CtxKeeper keepMember(c);
        c.member = f.name;
        c.hasMember = true;
        pull(*f.type, *m, target.k[nb + i], c);
    }
}
double asDouble(const J &j) { return j.n == J::D ? j.d : j.n == J::I ? double(j.i) : double(j.u); }
// whether the number fits an integer of that size after truncation of fractions
bool toInteger(const J &j, unsigned size, bool isSigned, std::uint64_t &out)
{
    const unsigned bits = size * 8;
    if (j.n == J::D) {
        const double d = std::trunc(j.d);
        const double lo = isSigned ? -std::ldexp(1., int(bits) - 1) : 0., hi = std::ldexp(1., int(isSigned ? bits - 1 : bits));
        if (!(d >= lo && d < hi))
            return false;
        out = isSigned ? std::uint64_t(std::int64_t(d)) : std::uint64_t(d);
    } else if (isSigned) {
        if (j.n == J::U) {
            if (j.u > ((1ull << (bits - 1)) - 1))
                return false;
            out = j.u;
        } else {
            if (j.i < (bits == 64 ? INT64_MIN : -(1ll << (bits - 1))))
                return false;
            out = std::uint64_t(j.i);
        }
    } else {
        if (j.n == J::I) // negative by construction
            return false;
        if (bits < 64 && j.u >> bits)
            return false;
        out = j.u;
    }
    out = maskTo(out, size);
    return true;
}
} // namespace

void pull(const Schema &s, const J &j, Val &t, PullCtx &c)
{
    switch (s.kind) {
    case K::Unit:
        break;
    case K::Bool:
        if (j.t != J::True && j.t != J::False)
            return report(c, TypeMismatch, JBool, jtype(j));
        t.u = j.t == J::True;
        break;
    case K::Int: {
        if (j.t != J::Num)
            return report(c, TypeMismatch, JNumber, jtype(j));
        std::uint64_t v;
        if (!toInteger(j, s.size, s.isSigned, v))
            return report(c, ConversionError, JNumber, JNumber);
        t.u = v;
        break;
    }
    case K::Enum: {
        std::uint64_t v;
        if (j.t != J::Num || j.n == J::D || !toInteger(j, 8, s.isSigned, v))
            return report(c, TypeMismatch, JNumber, jtype(j));
        if (!toInteger(j, s.size, s.isSigned, v))
            return report(c, ConversionError, JNumber, JNumber);
        t.u = v;
        break;
    }
    case K::F32:
        if (j.t != J::Num)
            return report(c, TypeMismatch, JNumber, jtype(j));
        if (std::fabs(asDouble(j)) > 3.4028234663852886e38)
            return report(c, ConversionError, JNumber, JNumber);
        t.u = fbits(float(asDouble(j)));
        break;
    case K::F64:
        if (j.t != J::Num)
            return report(c, TypeMismatch, JNumber, jtype(j));
        t.u = dbits(asDouble(j));
        break;
    case K::Str:
        if (j.t != J::Str)
            return report(c, TypeMismatch, JString, jtype(j));
        t.s = j.s;
        break;
    case K::Date:
    case K::Span: {
        if (j.t != J::Str)
            return report(c, TypeMismatch, JString, jtype(j));
        std::int64_t v = 0;
        if (!(s.kind == K::Date ? dateFromText(j.s, v) : spanFromText(j.s, v)))
            return report(c, ConversionError, JString, JString);
        t.u = std::uint64_t(v);
        break;
    }
    case K::Seq:
    case K::Set: {
        if (j.t != J::Arr)
            return report(c, TypeMismatch, expectedType(s), jtype(j));
        t.k.clear();
        CtxKeeper keep(c);
        Dedupe before{ *s.elems[0], {} };
        for (std::size_t i = 0; i < j.a.size(); ++i) {
            c.index = i;
            if (s.kind == K::Seq) {
                t.k.push_back(s.elems[0]->def);
                pull(*s.elems[0], j.a[i], t.k.back(), c);
                continue;
            }
            Val e = s.elems[0]->def;
            pull(*s.elems[0], j.a[i], e, c);
            if (!s.multi && before.dup(e))
                report(c, UnexpectedDuplicate, JArray, JArray);
            else
                t.k.push_back(std::move(e));
        }
        break;
    }
    case K::Map:
        if (j.t != J::Obj)
            return report(c, TypeMismatch, JObject, jtype(j));
        t.k.clear();
        for (auto &m : j.o) {
            const auto add = [&]() -> Val & {
                Val e;
                e.k.emplace_back();
                e.k[0].s = m.first;
                e.k.push_back(s.elems[1]->def);
                // keep insertion order among equal keys
                t.k.push_back(std::move(e));
                return t.k.back().k[1];
            };
            if (!s.multi) {
                Val *target = nullptr;
                for (auto &x : t.k)
                    if (x.k[0].s == m.first)
                        target = &x.k[1];
                pull(*s.elems[1], m.second, target ? *target : add(), c);
            } else if (m.second.t != J::Arr)
                pull(*s.elems[1], m.second, add(), c);
            else
                for (auto &e : m.second.a)
                    pull(*s.elems[1], e, add(), c);
        }
        break;
    case K::Pair:
    case K::Tuple:
        if (j.t != J::Arr)
            return report(c, TypeMismatch, JArray, jtype(j));
        if (j.a.size() != s.elems.size())
            return report(c, ArraySizeMismatch, JArray, JArray);
        for (std::size_t i = 0; i < j.a.size(); ++i)
            pull(*s.elems[i], j.a[i], t.k[i], c);
        break;
    case K::Opt:
    case K::Shared:
        if (s.view) {
            if (j.t != J::Str)
                report(c, TypeMismatch, JString, jtype(j));
            return;
        }
        t.k.clear();
        t.u = 0;
        if (j.t == J::Null)
            return;
        t.u = 1;
        t.k.push_back(s.elems[0]->def);
        pull(*s.elems[0], j, t.k[0], c);
        break;
    case K::Var: {
        if (j.t != J::Obj)
            return report(c, TypeMismatch, JObject, jtype(j));
        const J *idx = nullptr, *data = nullptr;
        for (auto &m : j.o) {
            if (!idx && m.first == "index")
                idx = &m.second;
            if (!data && m.first == "data")
                data = &m.second;
        }
        if (!idx || !data)
            return report(c, InvalidVariantObject, JObject, JObject);
        std::uint64_t i = 0;
        if (idx->t != J::Num || idx->n == J::D || !toInteger(*idx, 8, false, i))
            return report(c, InvalidVariantIndex, JNumber, jtype(*idx));
        if (i >= s.elems.size())
            return report(c, InvalidVariantIndex, JNumber, JNumber);
        t.u = i;
        t.k.clear();
        t.k.push_back(s.elems[i]->def);
        pull(*s.elems[i], *data, t.k[0], c);
        break;
    }
    case K::Struct:
        if (j.t != J::Obj)
            return report(c, TypeMismatch, JObject, jtype(j));
        pullStruct(s, j, t, c);
        break;
    }
}

std::string formatErr(const Err &e)
{
    static const char *const kinds[] = { "type mismatch", "array size mismatch", "conversion error", "unexpected duplicate", "invalid variant object", "invalid variant index" };
    static const char *const types[] = { "null", "number", "bool", "string", "array", "object" };
    std::string r = e.kind < 6 ? kinds[e.kind] : "semantic error";
    if (!e.hasRecord)
        r += " in document";
    else {
        r += " within record \"" + e.record + '"';
        if (e.hasMember)
            r += " and member \"" + e.member + '"';
        else if (e.index != ~0ull)
            r += " and index \"" + std::to_string(e.index) + '"';
    }
    if (e.kind == TypeMismatch)
        r += std::string(": expected \"") + types[e.expected] + "\", got \"" + types[e.actual] + '"';
    return r;
}

} // namespace model
