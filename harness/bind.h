// Binds C++ types to model schemas and values. Independent of the reflection the library offers:
// members are named by hand (Desc<T>), so that what the library and its generator do can be compared.
#pragma once
#include "alloc.h"
#include "model.h"

#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

namespace CppUtilities {
class DateTime;
class TimeSpan;
} // namespace CppUtilities

namespace bind {
using model::Graph;
using model::K;
using model::Schema;
using model::Val;

struct AssignCtx {
    const Graph &g;
    std::vector<std::shared_ptr<void>> objs;           // by pool index, null until first met
    std::vector<void (*)(void *)> resets;              // how to break cycles through them
    std::deque<std::string> *texts = nullptr;            // owner of the texts that views refer to
    const std::vector<std::uint64_t> *fakeIds = nullptr; // addresses for shared pointers to empty objects
    explicit AssignCtx(const Graph &g)
        : g(g)
        , objs(g.pool.size())
        , resets(g.pool.size())
    {
    }
    void grow() // the graph got larger
    {
        objs.resize(g.pool.size());
        resets.resize(g.pool.size());
    }
};
struct ExtractCtx {
    Graph g;
    std::map<std::pair<const void *, const Schema *>, std::uint64_t> ids;
    struct Owner {
        std::shared_ptr<const void> keep;
        void *obj;
        void (*reset)(void *);
    };
    std::vector<Owner> owners;
    bool invalid = false; // met an object in an invalid state
};

template <class T, class = void> struct Bind;
template <class T> struct Desc; // members of a record, see types_*.h

template <class T, class = void> inline constexpr bool isLossy = false;
template <class T> inline constexpr bool isLossy<T, std::void_t<decltype(Desc<T>::texts(std::declval<T &>()))>> = true;

template <class T> inline Schema &schemaOf()
{
    static Schema s;
    static bool init = false;
    if (!init) {
        init = true;
        s.mem = sizeof(T);
        Bind<T>::fill(s);
        Bind<T>::fillDefault(s);
    }
    return s;
}
struct ScalarBase {
    static void fillDefault(Schema &) {}
};

template <> struct Bind<bool> : ScalarBase {
    static void fill(Schema &s) { s.kind = K::Bool; }
    static void assign(bool &t, const Val &v, AssignCtx &) { t = v.u != 0; }
    static Val extract(const bool &t, ExtractCtx &c)
    {
        unsigned char raw;
        std::memcpy(&raw, &t, 1);
        if (raw > 1) {
            sim::fail("invalid-object", "a boolean holds %u", raw);
            c.invalid = true;
        }
        Val v;
        v.u = raw;
        return v;
    }
};
template <class T> struct Bind<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> : ScalarBase {
    static void fill(Schema &s)
    {
        s.kind = K::Int;
        s.size = sizeof(T);
        s.isSigned = std::is_signed_v<T>;
    }
    static void assign(T &t, const Val &v, AssignCtx &) { t = static_cast<T>(v.u); }
    static Val extract(const T &t, ExtractCtx &)
    {
        Val v;
        v.u = static_cast<std::uint64_t>(static_cast<std::make_unsigned_t<T>>(t));
        return v;
    }
};
template <class T> struct Bind<T, std::enable_if_t<std::is_enum_v<T>>> : ScalarBase {
    using U = std::underlying_type_t<T>;
    static void fill(Schema &s)
    {
        s.kind = K::Enum;
        s.size = sizeof(U);
        s.isSigned = std::is_signed_v<U>;
    }
    static void assign(T &t, const Val &v, AssignCtx &) { t = static_cast<T>(static_cast<U>(v.u)); }
    static Val extract(const T &t, ExtractCtx &)
    {
        Val v;
        v.u = static_cast<std::uint64_t>(static_cast<std::make_unsigned_t<U>>(static_cast<U>(t)));
        return v;
    }
};
template <> struct Bind<float> : ScalarBase {
    static void fill(Schema &s) { s.kind = K::F32; s.hasFloat = true; }
    static void assign(float &t, const Val &v, AssignCtx &)
    {
        const auto u = static_cast<std::uint32_t>(v.u);
        std::memcpy(&t, &u, 4);
    }
    static Val extract(const float &t, ExtractCtx &)
    {
        std::uint32_t u;
        std::memcpy(&u, &t, 4);
        Val v;
        v.u = u;
        return v;
    }
};
template <> struct Bind<double> : ScalarBase {
    static void fill(Schema &s) { s.kind = K::F64; s.hasFloat = true; }
    static void assign(double &t, const Val &v, AssignCtx &) { std::memcpy(&t, &v.u, 8); }
    static Val extract(const double &t, ExtractCtx &)
    {
        Val v;
        std::memcpy(&v.u, &t, 8);
        return v;
    }
};
template <> struct Bind<std::string> : ScalarBase {
    static void fill(Schema &s) { s.kind = K::Str; }
    static void assign(std::string &t, const Val &v, AssignCtx &) { t.assign(v.s.data(), v.s.size()); }
    static Val extract(const std::string &t, ExtractCtx &)
    {
        Val v;
        v.s.assign(t.data(), t.size());
        return v;
    }
};
template <class T> struct ViewBind : ScalarBase {
    static void fill(Schema &s)
    {
        s.kind = K::Opt;
        s.view = true;
        s.elems = { &schemaOf<std::string>() };
        s.binary = false;
    }
    static void assign(T &t, const Val &v, AssignCtx &c)
    {
        if (!v.u) {
            t = T();
            return;
        }
        c.texts->emplace_back(v.k[0].s);
        if constexpr (std::is_same_v<T, const char *>)
            t = c.texts->back().c_str();
        else
            t = T(c.texts->back().data(), c.texts->back().size());
    }
    static Val extract(const T &t, ExtractCtx &)
    {
        Val v;
        const char *p;
        std::size_t n;
        if constexpr (std::is_same_v<T, const char *>) {
            p = t;
            n = t ? std::strlen(t) : 0;
        } else {
            p = t.data();
            n = t.size();
        }
        if (p) {
            v.u = 1;
            v.k.emplace_back();
            v.k[0].s.assign(p, n);
        }
        return v;
    }
};
template <> struct Bind<const char *> : ViewBind<const char *> {};
template <> struct Bind<std::string_view> : ViewBind<std::string_view> {};
template <> struct Bind<std::monostate> : ScalarBase {
    static void fill(Schema &s) { s.kind = K::Unit; }
    static void assign(std::monostate &, const Val &, AssignCtx &) {}
    static Val extract(const std::monostate &, ExtractCtx &) { return {}; }
};
template <class T> struct TicksBind : ScalarBase {
    static void assign(T &t, const Val &v, AssignCtx &) { t = T(static_cast<decltype(t.totalTicks())>(v.u)); }
    static Val extract(const T &t, ExtractCtx &)
    {
        Val v;
        v.u = static_cast<std::uint64_t>(t.totalTicks());
        return v;
    }
};
template <class T> struct Bind<T, std::enable_if_t<std::is_same_v<T, CppUtilities::DateTime>>> : TicksBind<T> {
    static void fill(Schema &s) { s.kind = K::Date; }
};
template <class T> struct Bind<T, std::enable_if_t<std::is_same_v<T, CppUtilities::TimeSpan>>> : TicksBind<T> {
    static void fill(Schema &s) { s.kind = K::Span; }
};

template <class C> struct SeqBind : ScalarBase {
    using E = typename C::value_type;
    static void fill(Schema &s)
    {
        s.kind = K::Seq;
        s.elems = { &schemaOf<E>() };
    }
    static void assign(C &t, const Val &v, AssignCtx &c)
    {
        t.clear();
        for (auto &e : v.k) {
            t.emplace_back();
            Bind<E>::assign(t.back(), e, c);
        }
    }
    static Val extract(const C &t, ExtractCtx &c)
    {
        Val v;
        for (auto &e : t)
            v.k.push_back(Bind<E>::extract(e, c));
        return v;
    }
};
template <class E> struct Bind<std::vector<E>> : SeqBind<std::vector<E>> {};
template <class E> struct Bind<std::list<E>> : SeqBind<std::list<E>> {};
template <class E> struct Bind<std::deque<E>> : SeqBind<std::deque<E>> {};

template <class C, bool unordered, bool multi> struct SetBind : ScalarBase {
    using E = typename C::value_type;
    static void fill(Schema &s)
    {
        s.kind = K::Set;
        s.unordered = unordered;
        s.multi = multi;
        s.hasUnordered = unordered;
        s.elems = { &schemaOf<E>() };
    }
    static void assign(C &t, const Val &v, AssignCtx &c)
    {
        t.clear();
        for (auto &e : v.k) {
            E x{};
            Bind<E>::assign(x, e, c);
            t.emplace(std::move(x));
        }
    }
    static Val extract(const C &t, ExtractCtx &c)
    {
        Val v;
        for (auto &e : t)
            v.k.push_back(Bind<E>::extract(e, c));
        return v;
    }
};
template <class E> struct Bind<std::set<E>> : SetBind<std::set<E>, false, false> {};
template <class E> struct Bind<std::multiset<E>> : SetBind<std::multiset<E>, false, true> {};
template <class E> struct Bind<std::unordered_set<E>> : SetBind<std::unordered_set<E>, true, false> {};
template <class E> struct Bind<std::unordered_multiset<E>> : SetBind<std::unordered_multiset<E>, true, true> {};

template <class C, bool unordered, bool multi> struct MapBind : ScalarBase {
    using Key = typename C::key_type;
    using M = typename C::mapped_type;
    static void fill(Schema &s)
    {
        s.kind = K::Map;
        s.unordered = unordered;
        s.multi = multi;
        s.hasUnordered = unordered;
        s.elems = { &schemaOf<Key>(), &schemaOf<M>() };
    }
    static void assign(C &t, const Val &v, AssignCtx &c)
    {
        t.clear();
        for (auto &e : v.k) {
            Key key{};
            Bind<Key>::assign(key, e.k[0], c);
            M m{};
            Bind<M>::assign(m, e.k[1], c);
            t.emplace(std::move(key), std::move(m));
        }
    }
    static Val extract(const C &t, ExtractCtx &c)
    {
        Val v;
        for (auto &e : t) {
            Val p;
            p.k.push_back(Bind<Key>::extract(e.first, c));
            p.k.push_back(Bind<M>::extract(e.second, c));
            v.k.push_back(std::move(p));
        }
        return v;
    }
};
template <class A, class B> struct Bind<std::map<A, B>> : MapBind<std::map<A, B>, false, false> {};
template <class A, class B> struct Bind<std::multimap<A, B>> : MapBind<std::multimap<A, B>, false, true> {};
template <class A, class B> struct Bind<std::unordered_map<A, B>> : MapBind<std::unordered_map<A, B>, true, false> {};
template <class A, class B> struct Bind<std::unordered_multimap<A, B>> : MapBind<std::unordered_multimap<A, B>, true, true> {};

template <class A, class B> struct Bind<std::pair<A, B>> {
    static void fill(Schema &s)
    {
        s.kind = K::Pair;
        s.elems = { &schemaOf<A>(), &schemaOf<B>() };
    }
    static void fillDefault(Schema &s) { s.def.k = { schemaOf<A>().def, schemaOf<B>().def }; }
    static void assign(std::pair<A, B> &t, const Val &v, AssignCtx &c)
    {
        Bind<A>::assign(t.first, v.k[0], c);
        Bind<B>::assign(t.second, v.k[1], c);
    }
    static Val extract(const std::pair<A, B> &t, ExtractCtx &c)
    {
        Val v;
        v.k.push_back(Bind<A>::extract(t.first, c));
        v.k.push_back(Bind<B>::extract(t.second, c));
        return v;
    }
};
template <class... E> struct Bind<std::tuple<E...>> {
    static void fill(Schema &s)
    {
        s.kind = K::Tuple;
        s.elems = { &schemaOf<E>()... };
        s.binary = false;
    }
    static void fillDefault(Schema &s) { s.def.k = { schemaOf<E>().def... }; }
    template <std::size_t... I> static void assignI(std::tuple<E...> &t, const Val &v, AssignCtx &c, std::index_sequence<I...>)
    {
        (Bind<E>::assign(std::get<I>(t), v.k[I], c), ...);
    }
    static void assign(std::tuple<E...> &t, const Val &v, AssignCtx &c) { assignI(t, v, c, std::index_sequence_for<E...>()); }
    template <std::size_t... I> static Val extractI(const std::tuple<E...> &t, ExtractCtx &c, std::index_sequence<I...>)
    {
        Val v;
        (v.k.push_back(Bind<E>::extract(std::get<I>(t), c)), ...);
        return v;
    }
    static Val extract(const std::tuple<E...> &t, ExtractCtx &c) { return extractI(t, c, std::index_sequence_for<E...>()); }
};
template <class E> struct Bind<std::optional<E>> : ScalarBase {
    static void fill(Schema &s)
    {
        s.kind = K::Opt;
        s.elems = { &schemaOf<E>() };
    }
    static void assign(std::optional<E> &t, const Val &v, AssignCtx &c)
    {
        t.reset();
        if (v.u)
            Bind<E>::assign(t.emplace(), v.k[0], c);
    }
    static Val extract(const std::optional<E> &t, ExtractCtx &c)
    {
        Val v;
        if (t) {
            v.u = 1;
            v.k.push_back(Bind<E>::extract(*t, c));
        }
        return v;
    }
};
template <class E> struct Bind<std::unique_ptr<E>> : ScalarBase {
    static void fill(Schema &s)
    {
        s.kind = K::Opt;
        s.owning = true;
        s.elems = { &schemaOf<E>() };
    }
    static void assign(std::unique_ptr<E> &t, const Val &v, AssignCtx &c)
    {
        t.reset();
        if (v.u) {
            t = std::make_unique<E>();
            Bind<E>::assign(*t, v.k[0], c);
        }
    }
    static Val extract(const std::unique_ptr<E> &t, ExtractCtx &c)
    {
        Val v;
        if (t) {
            v.u = 1;
            v.k.push_back(Bind<E>::extract(*t, c));
        }
        return v;
    }
};
template <class E> struct Bind<std::shared_ptr<E>> : ScalarBase {
    static void fill(Schema &s)
    {
        s.kind = K::Shared;
        s.hasShared = true;
        s.elems = { &schemaOf<E>() };
    }
    static void assign(std::shared_ptr<E> &t, const Val &v, AssignCtx &c)
    {
        if (!v.u) {
            t.reset();
            return;
        }
        auto &slot = c.objs[v.u - 1];
        if constexpr (std::is_empty_v<E>) {
            if (c.fakeIds && v.u - 1 < c.fakeIds->size() && (*c.fakeIds)[v.u - 1]) {
                // points somewhere no allocator of this machine would place it; there is nothing to dereference
                t = std::shared_ptr<E>(std::shared_ptr<void>(), reinterpret_cast<E *>((*c.fakeIds)[v.u - 1]));
                return;
            }
        }
        if (!slot) {
            auto p = std::make_shared<E>();
            slot = p;
            c.resets[v.u - 1] = &reset;
            t = p;
            Bind<E>::assign(*p, c.g.pool[v.u - 1], c);
        } else
            t = std::static_pointer_cast<E>(slot);
    }
    static void reset(void *p)
    {
        Graph none;
        AssignCtx c(none);
        Bind<E>::assign(*static_cast<E *>(p), schemaOf<E>().def, c);
    }
    static Val extract(const std::shared_ptr<E> &t, ExtractCtx &c)
    {
        Val v;
        if (!t)
            return v;
        auto &id = c.ids[{ t.get(), &schemaOf<E>() }];
        if (id) {
            v.u = id;
            return v;
        }
        const auto n = c.g.pool.size();
        v.u = id = n + 1;
        c.g.pool.emplace_back();
        c.g.poolType.push_back(&schemaOf<E>());
        c.owners.push_back({ t, const_cast<std::remove_const_t<E> *>(t.get()), &reset });
        auto content = Bind<E>::extract(*t, c);
        c.g.pool[n] = std::move(content);
        return v;
    }
};
template <class... E> struct Bind<std::variant<E...>> {
    using V = std::variant<E...>;
    static void fill(Schema &s)
    {
        s.kind = K::Var;
        s.elems = { &schemaOf<E>()... };
    }
    static void fillDefault(Schema &s) { s.def.k = { s.elems[0]->def }; }
    template <std::size_t I = 0> static void assignI(V &t, const Val &v, AssignCtx &c)
    {
        if constexpr (I < sizeof...(E)) {
            if (v.u == I)
                Bind<std::variant_alternative_t<I, V>>::assign(t.template emplace<I>(), v.k[0], c);
            else
                assignI<I + 1>(t, v, c);
        }
    }
    static void assign(V &t, const Val &v, AssignCtx &c) { assignI(t, v, c); }
    static Val extract(const V &t, ExtractCtx &c)
    {
        Val v;
        if (t.valueless_by_exception()) {
            v.u = ~0ull;
            return v;
        }
        v.u = t.index();
        std::visit([&](auto &x) { v.k.push_back(Bind<std::decay_t<decltype(x)>>::extract(x, c)); }, t);
        return v;
    }
};

// --- records ------------------------------------------------------------------------------------
enum Flags : unsigned { Both = 0, NoBinary = 1, NoPush = 2, NoPull = 4 };
template <class C, class M> struct FieldDesc {
    const char *name;
    M C::*ptr;
    std::uint64_t asOf, until;
    unsigned flags;
};
template <class C, class M> constexpr FieldDesc<C, M> F(const char *name, M C::*p, unsigned flags = Both, std::uint64_t asOf = 0, std::uint64_t until = 0)
{
    return { name, p, asOf, until, flags };
}
template <class C, class M> constexpr FieldDesc<C, M> FV(const char *name, M C::*p, std::uint64_t asOf, std::uint64_t until = 0)
{
    return { name, p, asOf, until, Both };
}
template <class... B> struct Bases {};
struct DescBase { // defaults of Desc<T>
    using bases = Bases<>;
    static constexpr std::uint64_t version = 0;
    static constexpr bool hana = false;
};
template <class T> struct Bind<T, std::void_t<decltype(Desc<T>::name)>> {
    using D = Desc<T>;
    template <class... B> static void addBases(Schema &s, Bases<B...>) { s.bases = { &schemaOf<B>()... }; }
    static void fill(Schema &s)
    {
        s.kind = K::Struct;
        s.name = D::name;
        s.version = D::version;
        s.hanaRecord = D::hana;
        addBases(s, typename D::bases());
        std::apply(
            [&](auto... f) {
                (
                    [&](auto &d) {
                        using M = std::remove_const_t<std::remove_reference_t<decltype(std::declval<T &>().*(d.ptr))>>;
                        model::Field x{};
                        x.name = d.name;
                        x.type = &schemaOf<M>();
                        x.asOf = d.asOf;
                        x.until = d.until;
                        x.binary = !(d.flags & NoBinary);
                        x.push = !(d.flags & NoPush);
                        x.pull = !(d.flags & NoPull);
                        s.fields.push_back(x);
                    }(f),
                    ...);
            },
            D::fields());
    }
    static void fillDefault(Schema &s)
    {
        if constexpr (std::is_default_constructible_v<T>) {
            sim::Harness h;
            const T t = T();
            ExtractCtx c;
            s.def = extract(t, c);
        }
    }
    template <class B> static void assignBase(T &t, const Val &v, std::size_t &i, AssignCtx &c) { Bind<B>::assign(static_cast<B &>(t), v.k[i++], c); }
    template <class... B> static void assignBases(T &t, const Val &v, std::size_t &i, AssignCtx &c, Bases<B...>) { (assignBase<B>(t, v, i, c), ...); }
    static void assign(T &t, const Val &v, AssignCtx &c)
    {
        if constexpr (isLossy<T>) {
            c.texts = &D::texts(t);
            c.texts->clear();
        }
        std::size_t i = 0;
        assignBases(t, v, i, c, typename D::bases());
        std::apply(
            [&](auto... f) {
                (
                    [&](auto &d) {
                        using M = std::remove_reference_t<decltype(t.*(d.ptr))>;
                        if constexpr (!std::is_const_v<M>)
                            Bind<M>::assign(t.*(d.ptr), v.k[i], c);
                        ++i;
                    }(f),
                    ...);
            },
            D::fields());
    }
    template <class... B> static void extractBases(const T &t, Val &v, ExtractCtx &c, Bases<B...>)
    {
        (v.k.push_back(Bind<B>::extract(static_cast<const B &>(t), c)), ...);
    }
    static Val extract(const T &t, ExtractCtx &c)
    {
        Val v;
        extractBases(t, v, c, typename D::bases());
        std::apply(
            [&](auto... f) {
                (v.k.push_back(Bind<std::remove_const_t<std::remove_reference_t<decltype(t.*(f.ptr))>>>::extract(t.*(f.ptr), c)), ...);
            },
            D::fields());
        return v;
    }
};

} // namespace bind
