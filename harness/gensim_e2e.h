// C17: whole histories of releases. A header evolves from release to release; of every release the generator is run
// (under simulated files, memory and faults), a program is built from the generated code and the real library, and
// the programs exchange what they saved. Included by gensim.cpp.

struct XMember {
    std::string name;
    int kind = 0, rec = -1; // see kTypes; rec: the class of records
    bool isPublic = true, isConst = false, isStatic = false;
    std::string init, initText; // initialiser within the class and what it shows
    int spelling = 0; // another way of writing the same
    std::uint64_t asOf = 0, until = 0;
};
struct XItem { // what a class declares, in order
    int what = 0; // 0: member, 1: marker as of, 2: marker until, 3: anything else
    int member = -1;
    std::uint64_t version = 0;
    int spelling = 0; // of the version
    std::string text;
};
struct XBase {
    int cls;
};
struct XClass {
    std::string name, ns, outer; // ns: "" or a namespace; outer: the class it is nested in
    bool json = false, bin = false, adaptedJson = false, adaptedBin = false, viaAlias = false, viaMacro = false, viaOption = false;
    std::uint64_t version = 0;
    std::vector<XBase> bases;
    bool openPush = false, openPull = false, openBin = false, isClass = false, isFinal = false, noDefault = false, forward = false, included = false;
    bool virtualBase = false, inlineNs = false, externBlock = false, openLate = false, isAbstract = false;
    int constructor = 0; // how the default constructor is declared
    int versionSpelling = 0;
    std::vector<int> friends; // others with access
    std::vector<XMember> members;
    std::vector<XItem> items;
    std::vector<int> nested; // classes declared within
    std::string qualified() const { return (ns.empty() ? "" : ns + "::") + (outer.empty() ? "" : outer + "::") + name; }
};
struct XRelease {
    std::vector<XClass> classes;
    std::vector<std::string> jsonOption, binOption; // names given on the command line
};
enum XKind { KInt, KUnsigned, KLong, KULong, KDouble, KBool, KString, KEnum, KVecInt, KVecStr, KMap, KOptInt, KShStr, KUqInt, KRec, KVecRec, KOptRec, KShRec, KKinds };
const char *const kTypes[] = { "int", "std::uint32_t", "std::int64_t", "std::uint64_t", "double", "bool", "std::string", "::E0", "std::vector<int>", "std::vector<std::string>",
    "std::map<std::string, int>", "std::optional<int>", "std::shared_ptr<std::string>", "std::unique_ptr<int>" };
const char *const kDefaults[] = { "0", "0", "0", "0", "0x0p+0", "0", "\"\"", "0", "[]", "[]", "[]", "null", "null", "null" };

std::string typeOf(const XRelease &r, const XMember &m)
{
    if (m.kind < KRec)
        return kTypes[m.kind];
    const auto q = "::" + r.classes[std::size_t(m.rec)].qualified();
    return m.kind == KRec ? q : m.kind == KVecRec ? "std::vector<" + q + ">" : m.kind == KOptRec ? "std::optional<" + q + ">" : "std::shared_ptr<" + q + ">";
}

struct XObj;
struct XVal {
    std::string text, expr;
    std::vector<XObj> recs; // one for records and engaged optionals and pointers
};
struct XObj {
    int cls = 0;
    std::map<std::string, XVal> vals;
};

bool covered(const XClass &c, bool bin) { return bin ? c.bin || c.adaptedBin : c.json || c.adaptedJson; }
void lineage(const XRelease &r, int cls, std::vector<int> &out)
{
    for (auto &b : r.classes[std::size_t(cls)].bases)
        lineage(r, b.cls, out);
    if (std::find(out.begin(), out.end(), cls) == out.end())
        out.push_back(cls);
}
std::vector<int> lineage(const XRelease &r, int cls)
{
    std::vector<int> out;
    lineage(r, cls, out);
    return out;
}
// no version anywhere below
bool versionFree(const XRelease &r, int cls)
{
    for (auto k : lineage(r, cls)) {
        if (r.classes[std::size_t(k)].version)
            return false;
        for (auto &m : r.classes[std::size_t(k)].members)
            if (m.kind >= KRec && !versionFree(r, m.rec))
                return false;
    }
    return true;
}
// records of the class can be members of records saved in that format
bool usableAsMember(const XRelease &r, int cls, bool json, bool bin)
{
    const auto &k = r.classes[std::size_t(cls)];
    // the classes around it have to be complete (initialisers are parsed then)
    for (auto outer = k.outer; !outer.empty(); outer.resize(outer.rfind("::") == std::string::npos ? 0 : outer.rfind("::")))
        if (std::none_of(r.classes.begin(), r.classes.end(), [&](const XClass &x) { return x.ns == k.ns && (x.outer.empty() ? x.name : x.outer + "::" + x.name) == outer; }))
            return false;
    return !k.noDefault && !k.isAbstract && (!json || covered(k, false)) && (!bin || covered(k, true));
}

// ---- values

std::string numText(std::int64_t v) { return std::to_string(v); }
XVal drawScalar(int kind)
{
    auto &c = ch();
    XVal v;
    static const char *const ints[] = { "0", "1", "-1", "42", "2147483647", "-2147483647" };
    static const char *const strings[] = { "", "a", "two words", "\xC3\xA4", "line\n", "quote\"" };
    const auto str = [&](const char *s) {
        v.text = "\"" + hex(s, 100) + "\"";
        v.expr = "std::string(\"";
        for (const auto *p = s; *p; ++p) {
            char b[8];
            std::snprintf(b, sizeof(b), "\\%03o", unsigned(static_cast<unsigned char>(*p)));
            v.expr += b;
        }
        v.expr += "\")";
    };
    switch (kind) {
    case KInt:
        v.text = v.expr = ints[c.below(6)];
        break;
    case KUnsigned:
        v.text = v.expr = std::to_string(c.below(65536));
        break;
    case KLong:
        v.text = numText(std::int64_t(c.bits(62)) - (std::int64_t(1) << 60));
        v.expr = v.text + "ll";
        break;
    case KULong:
        v.text = std::to_string(c.bits(64));
        v.expr = v.text + "ull";
        break;
    case KDouble: {
        const double d = (double(c.below(100000)) - 50000) / (1 + c.below(1000));
        char b[64];
        std::snprintf(b, sizeof(b), "%a", d);
        v.text = v.expr = b;
        break;
    }
    case KBool:
        v.text = c.below(2) ? "1" : "0";
        v.expr = v.text;
        break;
    case KString:
        str(strings[c.below(6)]);
        break;
    case KEnum: {
        const bool b = c.below(2);
        v.text = b ? "7" : "1";
        v.expr = b ? "::E0::B" : "::E0::A";
        break;
    }
    default:;
    }
    return v;
}
XVal drawVal(const XRelease &r, const XMember &m);
XObj drawObj(const XRelease &r, int cls)
{
    XObj o;
    o.cls = cls;
    for (auto k : lineage(r, cls))
        for (auto &m : r.classes[std::size_t(k)].members)
            if (!m.isStatic) {
                if (m.isConst)
                    o.vals[m.name].text = m.initText;
                else
                    o.vals[m.name] = drawVal(r, m);
            }
    return o;
}
XVal drawVal(const XRelease &r, const XMember &m)
{
    auto &c = ch();
    XVal v;
    const auto list = [&](int kind, bool keys) {
        v.text = "[";
        v.expr = "{";
        for (unsigned i = 0, n = c.below(4); i < n; ++i) {
            const auto e = drawScalar(kind);
            if (keys) {
                v.text += std::string(1, char('a' + i)) + ":";
                v.expr += std::string("{\"") + char('a' + i) + "\", ";
            }
            v.text += e.text + ",";
            v.expr += e.expr + (keys ? "}," : ",");
        }
        v.text += "]";
        v.expr += "}";
    };
    switch (m.kind) {
    case KVecInt:
        list(KInt, false);
        break;
    case KVecStr:
        list(KString, false);
        break;
    case KMap:
        list(KInt, true);
        break;
    case KOptInt:
    case KUqInt:
    case KShStr:
        if (c.below(3)) {
            v = drawScalar(m.kind == KShStr ? KString : KInt);
            if (m.kind != KOptInt)
                v.expr = std::string(m.kind == KShStr ? "std::make_shared<std::string>" : "std::make_unique<int>") + "(" + v.expr + ")";
        } else {
            v.text = "null";
            v.expr = m.kind == KOptInt ? "std::nullopt" : "nullptr";
        }
        break;
    case KRec:
        v.recs.push_back(drawObj(r, m.rec));
        break;
    case KVecRec:
        for (unsigned i = 0, n = c.below(3); i < n; ++i)
            v.recs.push_back(drawObj(r, m.rec));
        break;
    case KOptRec:
    case KShRec:
        if (c.below(3))
            v.recs.push_back(drawObj(r, m.rec));
        break;
    default:
        v = drawScalar(m.kind);
    }
    return v;
}
XObj defaultObj(const XRelease &r, int cls)
{
    XObj o;
    o.cls = cls;
    for (auto k : lineage(r, cls))
        for (auto &m : r.classes[std::size_t(k)].members) {
            if (m.isStatic)
                continue;
            auto &v = o.vals[m.name];
            if (m.kind == KRec)
                v.recs.push_back(defaultObj(r, m.rec));
            else if (m.kind < KRec)
                v.text = m.initText.empty() ? kDefaults[m.kind] : m.initText;
        }
    return o;
}
std::string showObj(const XRelease &r, const XObj &o)
{
    std::string s = "{";
    for (auto k : lineage(r, o.cls))
        for (auto &m : r.classes[std::size_t(k)].members) {
            if (m.isStatic)
                continue;
            const auto &v = o.vals.at(m.name);
            s += m.name + "=";
            if (m.kind == KVecRec) {
                s += "[";
                for (auto &e : v.recs)
                    s += showObj(r, e) + ",";
                s += "]";
            } else if (m.kind >= KRec)
                s += v.recs.empty() ? "null" : showObj(r, v.recs.front());
            else
                s += v.text;
            s += ";";
        }
    return s + "}";
}

// ---- what is to be restored

// Which classes of the lineage are saved with the class itself.
std::vector<int> parts(const XRelease &r, int cls, bool bin)
{
    std::vector<int> out;
    for (auto k : lineage(r, cls))
        if (k == cls || covered(r.classes[std::size_t(k)], bin))
            out.push_back(k);
    return out;
}
const XMember *findMember(const XRelease &r, int cls, const std::string &name, const XClass **owner)
{
    for (auto k : lineage(r, cls))
        for (auto &m : r.classes[std::size_t(k)].members)
            if (m.name == name)
                return *owner = &r.classes[std::size_t(k)], &m;
    return nullptr;
}
struct Saved {
    const XRelease *rel;
    XObj obj; // as the reader is to find it in the data: only what was saved
    bool refusedBelow = false;
};
// applies what was saved (of the class of the writer) to an object of the reader
void restoreJson(const XRelease &w, const XObj &from, const XRelease &r, XObj &to)
{
    for (auto k : parts(r, to.cls, false)) {
        const auto &kc = r.classes[std::size_t(k)];
        for (auto &m : kc.members) {
            if (m.isStatic || m.isConst || !(m.isPublic || kc.openPull))
                continue;
            // saved?
            const XMember *wm = nullptr;
            for (auto wk : parts(w, from.cls, false)) {
                const auto &wc = w.classes[std::size_t(wk)];
                for (auto &x : wc.members)
                    if (x.name == m.name && !x.isStatic && (x.isPublic || wc.openPush))
                        wm = &x;
            }
            if (!wm)
                continue;
            const auto &src = from.vals.at(m.name);
            auto &dst = to.vals[m.name];
            if (m.kind < KRec) {
                dst.text = src.text;
                continue;
            }
            if (m.kind == KRec) {
                restoreJson(w, src.recs.front(), r, dst.recs.front());
                continue;
            }
            dst.recs.clear();
            for (auto &e : src.recs) {
                auto d = defaultObj(r, m.rec);
                restoreJson(w, e, r, d);
                dst.recs.push_back(std::move(d));
            }
        }
    }
}
// the same for binary data; false if the reader has to refuse a version
bool restoreBinary(const XRelease &w, const XObj &from, std::uint64_t version, const XRelease &r, XObj &to)
{
    for (auto k : parts(w, from.cls, true)) {
        const auto &wc = w.classes[std::size_t(k)];
        // the reader's version of that class
        const XClass *rc = nullptr;
        for (auto &x : r.classes)
            if (x.qualified() == wc.qualified())
                rc = &x;
        const auto e = !wc.version ? version : !version || version > wc.version ? wc.version : version;
        if (rc && wc.version && e > rc->version)
            return false;
        for (auto &m : wc.members) {
            if (m.isStatic || m.isConst || !(m.isPublic || wc.openBin))
                continue;
            if (wc.version && !((!m.asOf || e >= m.asOf) && (!m.until || e <= m.until)))
                continue;
            const auto &src = from.vals.at(m.name);
            const XClass *owner;
            const auto *rm = findMember(r, to.cls, m.name, &owner);
            if (!rm)
                return false; // not to be drawn
            auto &dst = to.vals[m.name];
            if (m.kind < KRec) {
                dst.text = src.text;
                continue;
            }
            if (m.kind == KRec) {
                if (!restoreBinary(w, src.recs.front(), wc.version ? e : version, r, dst.recs.front()))
                    return false;
                continue;
            }
            dst.recs.clear();
            for (auto &x : src.recs) {
                auto d = defaultObj(r, rm->rec);
                if (!restoreBinary(w, x, 0, r, d))
                    return false;
                dst.recs.push_back(std::move(d));
            }
        }
    }
    return true;
}
std::vector<std::string> jsonKeys(const XRelease &r, int cls)
{
    std::vector<std::string> keys;
    for (auto k : parts(r, cls, false)) {
        const auto &kc = r.classes[std::size_t(k)];
        for (auto &m : kc.members)
            if (!m.isStatic && (m.isPublic || kc.openPush))
                keys.push_back(m.name);
    }
    std::sort(keys.begin(), keys.end());
    return keys;
}

// ---- drawing and changing releases

struct XWriter {
    XRelease r;
    unsigned serial = 0;
    bool mayUseOption = false;
    // now and then names are long
    static std::string longer()
    {
        return ch().chance(1, 40) ? "_" + std::string(30 + ch().below(250), char('a' + ch().below(26))) : std::string();
    }
    std::string memberName()
    {
        static const char *const stems[] = { "m", "value", "version", "reflectable", "errors", "allocator", "serializer", "customObject", "M", "_m", "gr\xC3\xB6\xC3\x9F" "e", "rrjAsOf", "push", "previousRecord" };
        return std::string(stems[ch().below(3) ? 0 : ch().below(14)]) + std::to_string(serial++) + longer();
    }
    void drawMember(XClass &k, bool json, bool bin, bool isPublic, std::uint64_t asOf, std::uint64_t until, bool plain)
    {
        auto &c = ch();
        XMember m;
        m.name = memberName();
        m.isPublic = isPublic;
        m.asOf = asOf;
        m.until = until;
        m.kind = int(c.below(KKinds));
        m.spelling = c.chance(1, 3) ? 1 + int(c.below(6)) : 0;
        if (m.kind >= KRec) {
            std::vector<int> usable;
            for (std::size_t i = 0; i < r.classes.size(); ++i)
                if (usableAsMember(r, int(i), json, bin) && (m.kind == KRec || versionFree(r, int(i))))
                    usable.push_back(int(i));
            if (usable.empty())
                m.kind = int(c.below(KRec));
            else
                m.rec = usable[c.below(usable.size())];
        }
        if (m.kind <= KString && m.kind != KDouble && c.chance(1, 5)) {
            const auto v = drawScalar(m.kind);
            m.init = v.expr;
            m.initText = v.text;
            if (!plain && c.chance(1, 3))
                m.isConst = true;
            else if (!plain && m.kind == KInt && c.chance(1, 4))
                m.isStatic = true;
        }
        XItem it;
        it.member = int(k.members.size());
        k.members.push_back(m);
        k.items.push_back(it);
    }
    void other(XClass &k)
    {
        auto &c = ch();
        XItem it;
        it.what = 3;
        const auto n = std::to_string(serial++);
        static const char *const texts[] = { "enum class T@ { A, B };", "void f@() const {}", "static constexpr int s@ = 4;", "using U@ = int;", "template <typename T> struct X@ { T value; };",
            "struct P@ { int inner; };", "static_assert(true, \"\");", "// comment @", "typedef unsigned V@;", "int : 0;", "unsigned : 5;", "friend struct F@;", "static int t@;", "int operator[](int (*)[@ + 1]) const { return @; }",
            "friend void g@(int) {}", "template <typename T> friend struct Y@;", "virtual void v@() const {}", "void w@(int a@ = 0) {}", "int *h@() { return nullptr; }", "template <int i> static int z@() { return i; }" };
        it.text = texts[c.below(20)];
        for (std::size_t at; (at = it.text.find('@')) != std::string::npos;)
            it.text.replace(at, 1, n);
        k.items.push_back(it);
    }
    void drawMembers(XClass &k, unsigned n)
    {
        auto &c = ch();
        const bool json = covered(k, false), bin = covered(k, true);
        bool isPublic = !k.isClass;
        // as the generator takes the markers
        std::uint64_t asOf = 0, until = 0;
        for (unsigned i = 0; i < n; ++i) {
            if (c.chance(1, 6)) {
                isPublic = c.below(3) != 0;
                XItem it;
                it.what = 3;
                it.text = isPublic ? "public:" : c.below(2) ? "protected:" : "private:";
                k.items.push_back(it);
            }
            if (c.chance(1, 8))
                other(k);
            if (k.version && c.chance(1, 3)) {
                XItem it;
                it.what = 1 + int(c.below(3) == 2);
                it.version = c.below(3) && k.version > 4 ? k.version - c.below(4) : 1 + c.below(std::min<std::uint64_t>(k.version, 4));
                if (it.what == 2 && asOf > 1 && c.below(2))
                    it.version = asOf - 1 - (asOf > 2 ? c.below(2) : 0); // only members gone before those before came
                else if (it.what == 1 && c.chance(1, 6))
                    it.version = 0; // any version from here
                it.spelling = c.chance(1, 4) ? 1 + int(c.below(5)) : 0;
                mark(it, asOf, until);
                k.items.push_back(it);
                isPublic = true;
            }
            drawMember(k, json, bin, isPublic, asOf, until, false);
        }
    }
    static void mark(const XItem &it, std::uint64_t &asOf, std::uint64_t &until)
    {
        if (it.what == 1) {
            asOf = it.version;
            if (asOf > until)
                until = 0;
        } else {
            until = it.version;
            if (until < asOf)
                asOf = 0;
        }
    }
    void drawBases(XClass &k)
    {
        auto &c = ch();
        std::vector<int> all; // whole lineage so far
        for (unsigned i = 0, n = c.chance(1, 10) ? 3 + c.below(4) : c.below(3); i < n && !r.classes.empty(); ++i) {
            const auto b = int(c.below(r.classes.size()));
            const auto &bc = r.classes[std::size_t(b)];
            // what another header declares is not covered (known finding)
            if (bc.isFinal || bc.noDefault || bc.included)
                continue;
            const auto l = lineage(r, b);
            // (in JSON a virtual base shows once per path: known finding)
            if (std::any_of(l.begin(), l.end(), [&](int x) { return (!r.classes[std::size_t(x)].virtualBase || covered(r.classes[std::size_t(x)], false)) && std::find(all.begin(), all.end(), x) != all.end(); }))
                continue;
            all.insert(all.end(), l.begin(), l.end());
            if (std::none_of(k.bases.begin(), k.bases.end(), [b](const XBase &x) { return x.cls == b; }))
                k.bases.push_back({ b });
        }
    }
    int drawClass(const std::string &ns, const std::string &outer, unsigned depth, bool included)
    {
        auto &c = ch();
        XClass k;
        k.name = "C" + std::to_string(serial++) + longer();
        k.ns = ns;
        k.outer = outer;
        k.included = included;
        const bool mayOption = !included && mayUseOption && outer.empty() && r.jsonOption.size() < 4 && r.binOption.size() < 4;
        const bool wantOption = mayOption && c.chance(1, 3);
        switch (wantOption ? 7 : c.below(8)) {
        case 5:
            k.json = true;
            break;
        case 6:
            k.bin = true;
            break;
        case 7:
            // neither; maybe adapted
            if (!wantOption && c.below(3)) {
                k.adaptedJson = c.below(3) != 2;
                k.adaptedBin = c.below(3) != 2;
            }
            break;
        default:
            k.json = k.bin = true;
        }
        if (k.bin && c.below(2)) {
            static const std::uint64_t later[] = { 100, 254, 65534, (1ull << 32) - 2, 1ull << 40 };
            k.version = 1 + c.below(4) + (c.chance(1, 4) ? later[c.below(5)] : 0);
            k.versionSpelling = c.chance(1, 4) ? 1 + int(c.below(5)) : 0;
        }
        k.constructor = int(c.chance(1, 4) ? 1 + c.below(4) : 0);
        if (mayOption && !covered(k, false) && !covered(k, true)) {
            // only found via an option; adapted in the other header
            for (auto *option : { &r.jsonOption, &r.binOption }) {
                if (c.below(3)) {
                    option->push_back(k.qualified());
                    k.viaOption = (option == &r.jsonOption ? k.adaptedJson : k.adaptedBin) = true;
                }
            }
        }
        k.isClass = c.chance(1, 4);
        k.isFinal = c.chance(1, 12);
        k.forward = outer.empty() && c.chance(1, 6);
        k.viaAlias = k.forward && c.chance(1, 2);
        k.viaMacro = !k.viaAlias && outer.empty() && k.json && c.chance(1, 8);
        k.noDefault = c.chance(1, 12);
        k.isAbstract = !k.noDefault && !k.isFinal && c.chance(1, 10);
        if (k.json && c.chance(1, 4)) {
            k.openPush = c.below(4) != 3;
            k.openPull = c.below(4) != 3;
        }
        if (k.bin && c.chance(1, 4))
            k.openBin = true;
        k.openLate = c.chance(1, 3);
        if (k.openPush || k.openPull || k.openBin ? c.below(2) : c.chance(1, 6))
            for (unsigned i = 1 + c.below(2); i; --i)
                k.friends.push_back(int(c.below(6)));
        k.inlineNs = !ns.empty() && outer.empty() && !k.viaOption && c.chance(1, 6);
        const bool mayExtern = outer.empty() && c.chance(1, 20);
        if (!included) {
            k.virtualBase = c.chance(1, 4);
            if (!k.virtualBase)
                drawBases(k);
        }
        // a class is complete before those in it are used; so nested ones come first
        if (depth < 2 && c.chance(1, 8))
            k.nested.push_back(drawClass(ns, (outer.empty() ? "" : outer + "::") + k.name, depth + 1, included));
        // (clang drops the namespaces of classes nested in classes in such a block)
        k.externBlock = mayExtern && k.nested.empty();
        drawMembers(k, c.chance(1, 25) ? 18 + c.below(60) : c.below(6));
        r.classes.push_back(std::move(k));
        return int(r.classes.size()) - 1;
    }
    void drawMore(unsigned n, bool included)
    {
        for (unsigned i = 0; i < n; ++i)
            {
            std::string ns;
            if (ch().chance(1, 4))
                ns = "n" + std::to_string(serial++);
            const bool deep = !ns.empty() && ch().chance(1, 3);
            if (deep)
                for (unsigned d = ch().chance(1, 4) ? 2 + ch().below(6) : 1; d; --d)
                    ns += "::k" + std::to_string(serial++);
            const auto k = drawClass(ns, "", 0, included);
            if (deep)
                r.classes[std::size_t(k)].inlineNs = false;
        }
    }
    // the next release of the header
    void evolve()
    {
        auto &c = ch();
        for (std::size_t i = 0; i < r.classes.size(); ++i) {
            auto &k = r.classes[i];
            const bool json = covered(k, false), bin = covered(k, true);
            if (!c.below(3))
                continue;
            // members are found by what was declared before
            XWriter w;
            w.serial = serial;
            w.r.classes.assign(r.classes.begin(), r.classes.begin() + long(i));
            if (bin && k.version) {
                // a new version, its members behind the others
                ++k.version;
                XItem it;
                it.what = 1;
                it.version = k.version;
                k.items.push_back(it);
                std::uint64_t asOf = 0, until = 0;
                for (auto &x : k.items)
                    if (x.what == 1 || x.what == 2)
                        mark(x, asOf, until);
                for (unsigned n = 1 + c.below(2); n; --n)
                    w.drawMember(k, json, bin, true, asOf, until, true);
            } else if (!bin) {
                // JSON does without order
                if (c.below(2))
                    for (std::size_t n = k.items.size(); n-- > 1;) {
                        const auto j = c.below(n + 1);
                        if (k.items[n].what == 0 && k.items[j].what == 0 && k.members[std::size_t(k.items[n].member)].isPublic == k.members[std::size_t(k.items[j].member)].isPublic)
                            std::swap(k.items[n], k.items[j]);
                    }
                if (!k.items.empty() && c.below(2)) {
                    // no member any more
                    const auto j = c.below(k.items.size());
                    if (k.items[j].what == 0) {
                        const auto gone = k.items[j].member;
                        k.items.erase(k.items.begin() + long(j));
                        k.members.erase(k.members.begin() + gone);
                        for (auto &x : k.items)
                            if (x.what == 0 && x.member > gone)
                                --x.member;
                    }
                }
                if (c.below(2)) {
                    XItem it;
                    it.what = 3;
                    it.text = "public:";
                    k.items.push_back(it);
                    w.drawMember(k, json, bin, true, 0, 0, true);
                }
            } else if (c.below(2))
                w.other(k);
            serial = w.serial;
        }
        if (c.below(2))
            drawMore(1, false);
    }
};

// ---- the source

std::string versionText(std::uint64_t v, int spelling)
{
    char b[64];
    switch (spelling) {
    case 1:
        std::snprintf(b, sizeof(b), "0x%llX", static_cast<unsigned long long>(v));
        break;
    case 2:
        if (!v)
            return "1 - 1";
        std::snprintf(b, sizeof(b), "%llu + 1", static_cast<unsigned long long>(v - 1));
        break;
    case 3:
        std::snprintf(b, sizeof(b), "%lluull", static_cast<unsigned long long>(v));
        break;
    case 4:
        std::snprintf(b, sizeof(b), "Release<%llu>::version", static_cast<unsigned long long>(v));
        break;
    case 5:
        std::snprintf(b, sizeof(b), "(%llu - firstRelease)", static_cast<unsigned long long>(v + 1));
        break;
    default:
        std::snprintf(b, sizeof(b), "%llu", static_cast<unsigned long long>(v));
    }
    return b;
}

void declare(const XRelease &r, int index, std::string &o, const std::string &ind)
{
    const auto &k = r.classes[std::size_t(index)];
    const auto q = "::" + k.qualified();
    std::vector<std::string> bases;
    const auto jb = "ReflectiveRapidJSON::JsonSerializable<" + k.name + ">";
    const auto bb = "ReflectiveRapidJSON::BinarySerializable<" + k.name + (k.version ? ", " + versionText(k.version, k.versionSpelling) : "") + ">";
    if (k.forward)
        o += ind + (k.isClass ? "class " : "struct ") + k.name + ";\n";
    if (k.viaAlias) {
        if (k.json)
            o += ind + "using J" + k.name + " = " + jb + ";\n", bases.push_back("J" + k.name);
        if (k.bin)
            o += ind + "typedef " + bb + " B" + k.name + ";\n", bases.push_back("B" + k.name);
    } else {
        if (k.json && !k.viaMacro)
            bases.push_back(jb);
        if (k.bin)
            bases.push_back(bb);
    }
    for (auto &b : k.bases)
        bases.push_back((r.classes[std::size_t(b.cls)].virtualBase ? "virtual ::" : "::") + r.classes[std::size_t(b.cls)].qualified());
    if (k.viaMacro)
        o += ind + "JSON_RECORD(" + (k.isClass ? "class" : "struct") + ", " + k.name + (k.isFinal ? " final" : "") + ", " + k.name + ")";
    else
        o += ind + (k.isClass ? "class " : "struct ") + k.name + (k.isFinal ? " final" : "");
    for (std::size_t i = 0; i < bases.size(); ++i)
        o += (i || k.viaMacro ? ", public " : " : public ") + bases[i];
    o += " {\n";
    const auto in = ind + "    ";
    o += in + "friend struct ::Probe;\n";
    const auto open = [&] {
        if (k.openPush && k.openPull)
            o += in + "REFLECTIVE_RAPIDJSON_ENABLE_PRIVATE_MEMBERS(" + k.name + ");\n";
        else if (k.openPush)
            o += in + "REFLECTIVE_RAPIDJSON_PUSH_PRIVATE_MEMBERS(" + k.name + ");\n";
        else if (k.openPull)
            o += in + "REFLECTIVE_RAPIDJSON_PULL_PRIVATE_MEMBERS(" + k.name + ");\n";
        if (k.openBin)
            o += in + "friend void ::ReflectiveRapidJSON::BinaryReflector::writeCustomType<" + k.name + ">(::ReflectiveRapidJSON::BinaryReflector::BinarySerializer &, const " + k.name
                + " &, ::ReflectiveRapidJSON::BinaryVersion);\n" + in + "friend ::ReflectiveRapidJSON::BinaryVersion (::ReflectiveRapidJSON::BinaryReflector::readCustomType<" + k.name
                + ">)(::ReflectiveRapidJSON::BinaryReflector::BinaryDeserializer &, " + k.name + " &, ::ReflectiveRapidJSON::BinaryVersion);\n";
    };
    const auto befriend = [&] {
        static const char *const kinds[] = { "friend struct FF@;", "template <typename T> friend struct FT@;", "friend void fg@(int) {}", "friend Probe;", "template <typename T> friend void fh@(T);",
            "friend void push(int (*)[@ + 1]);" };
        for (auto &f : k.friends) {
            std::string text = kinds[f];
            for (std::size_t at; (at = text.find('@')) != std::string::npos;)
                text.replace(at, 1, std::to_string(std::strtoul(k.name.c_str() + 1, nullptr, 10)) + (&f == k.friends.data() ? "0" : "1"));
            o += in + text + "\n";
        }
    };
    for (auto x : lineage(r, index))
        if (r.classes[std::size_t(x)].isAbstract)
            o += in + "virtual void pure" + std::to_string(std::strtoul(r.classes[std::size_t(x)].name.c_str() + 1, nullptr, 10)) + "() const" + (x == index ? " = 0;\n" : " override {}\n");
    if (!k.openLate) {
        if (k.friends.size() > 1)
            befriend();
        open();
        if (k.friends.size() < 2)
            befriend();
    } else
        befriend();
    if (k.isClass && (!k.nested.empty() || k.noDefault || k.constructor))
        o += ind + "public:\n";
    for (auto n : k.nested)
        declare(r, n, o, in);
    if (k.noDefault)
        o += in + "explicit " + k.name + "(int) {}\n";
    else if (k.constructor == 1)
        o += in + k.name + "() = default;\n" + in + "explicit " + k.name + "(const char *) {}\n";
    else if (k.constructor == 2)
        o += in + "explicit " + k.name + "(const char *, int = 0) {}\n" + in + "template <typename T = int> " + k.name + "(T *, T * = nullptr) {}\n" + in + k.name + "() {}\n";
    else if (k.constructor == 3)
        o += in + k.name + "(int = 0, bool = false) {}\n";
    else if (k.constructor == 4)
        o += in + k.name + "() noexcept(true);\n";
    if (k.isClass && (!k.nested.empty() || k.noDefault || k.constructor))
        o += ind + "private:\n";
    for (auto &it : k.items)
        switch (it.what) {
        case 0: {
            const auto &m = k.members[std::size_t(it.member)];
            auto type = (m.isConst ? "const " : "") + typeOf(r, m);
            auto head = in;
            auto name = m.name;
            switch (m.spelling) {
            case 1:
                if (!m.isConst && !m.isStatic)
                    head += "mutable ";
                break;
            case 2:
                head += "[[maybe_unused]] ";
                break;
            case 3:
                o += in + "using A" + m.name + " = " + type + ";\n";
                type = "A" + m.name;
                break;
            case 4:
                head += "alignas(16) ";
                break;
            case 5:
                name = "(" + name + ")";
                break;
            case 6:
                if (m.isConst)
                    type = typeOf(r, m) + " const";
                break;
            }
            o += head + (m.isStatic ? "static inline " : "") + type + " " + name + (m.init.empty() ? "{}" : " = " + m.init) + ";\n";
            break;
        }
        case 1:
            o += ind + "as_of_version(" + versionText(it.version, it.spelling) + "):\n";
            break;
        case 2:
            o += ind + "REFLECTIVE_RAPIDJSON_UNTIL_VERSION(" + versionText(it.version, it.spelling) + "):\n";
            break;
        default:
            o += in + it.text + "\n";
        }
    if (k.openLate)
        open();
    o += ind + "};\n";
}
std::string headerOf(const XRelease &r, bool included, bool withBase)
{
    std::string o = "#pragma once\n#include <rrj.h>\n";
    if (withBase)
        o += "#include \"base.h\"\n";
    if (included)
        for (auto &k : r.classes)
            if (k.viaOption) {
                o += (k.ns.empty() ? std::string() : "namespace " + k.ns + " { ") + (k.isClass ? "class " : "struct ") + k.name + (k.ns.empty() ? ";\n" : "; }\n");
                if (k.adaptedJson)
                    o += "REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE(" + k.qualified() + ");\n";
                if (k.adaptedBin)
                    o += "REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE(" + k.qualified() + ");\n";
            }
    for (std::size_t i = 0; i < r.classes.size(); ++i) {
        const auto &k = r.classes[i];
        if (k.included != included || !k.outer.empty())
            continue;
        if (!k.ns.empty())
            o += (k.inlineNs ? "inline namespace " : "namespace ") + k.ns + " {\n";
        if (k.externBlock)
            o += "extern \"C++\" {\n";
        declare(r, int(i), o, "");
        if (k.externBlock)
            o += "}\n";
        if (!k.ns.empty())
            o += "}\n";
        const auto adapt = [&](int x, auto &&self) -> void {
            const auto &a = r.classes[std::size_t(x)];
            if (a.adaptedJson && !a.viaOption)
                o += "REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE(" + a.qualified() + ");\n";
            if (a.adaptedBin && !a.viaOption)
                o += "REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE(" + a.qualified() + ");\n";
            for (auto n : a.nested)
                self(n, self);
        };
        adapt(int(i), adapt);
        const auto define = [&](int x, auto &&self) -> void {
            const auto &a = r.classes[std::size_t(x)];
            if (a.constructor == 4 && !a.noDefault)
                o += "inline " + a.qualified() + "::" + a.name + "() noexcept(true) {}\n";
            for (auto n : a.nested)
                self(n, self);
        };
        define(int(i), define);
    }
    return o;
}

const char kProbe[] = R"(
struct Probe {
    template <typename T> static void show(std::ostream &o, const T &v)
    {
        if constexpr (std::is_enum_v<T>)
            o << +static_cast<std::underlying_type_t<T>>(v);
        else
            o << +v;
    }
    static void show(std::ostream &o, double v)
    {
        char b[64];
        std::snprintf(b, sizeof(b), "%a", v);
        o << b;
    }
    static void show(std::ostream &o, const std::string &v) { o << '"' << hex(v) << '"'; }
    template <typename T> static void show(std::ostream &o, const std::vector<T> &v)
    {
        o << '[';
        for (auto &e : v)
            show(o, e), o << ',';
        o << ']';
    }
    static void show(std::ostream &o, const std::map<std::string, int> &v)
    {
        o << '[';
        for (auto &e : v)
            o << e.first << ':' << e.second << ',';
        o << ']';
    }
    template <typename T> static void showPtr(std::ostream &o, const T &v)
    {
        if (v)
            show(o, *v);
        else
            o << "null";
    }
    template <typename T> static void show(std::ostream &o, const std::optional<T> &v) { showPtr(o, v); }
    template <typename T> static void show(std::ostream &o, const std::shared_ptr<T> &v) { showPtr(o, v); }
    template <typename T> static void show(std::ostream &o, const std::unique_ptr<T> &v) { showPtr(o, v); }
    template <typename T> static T fresh()
    {
        if constexpr (std::is_default_constructible_v<T>)
            return T();
        else
            return T(0);
    }
    static std::string hex(const std::string &s)
    {
        static const char d[] = "0123456789abcdef";
        std::string o;
        for (unsigned char c : s)
            o += d[c >> 4], o += d[c & 15];
        return o;
    }
    static std::string unhex(const std::string &s)
    {
        std::string o;
        const auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
        for (std::size_t i = 0; i + 1 < s.size(); i += 2)
            o += char(v(s[i]) << 4 | v(s[i + 1]));
        return o;
    }
    template <typename T> static std::string saveJson(const T &o)
    {
        if constexpr (std::is_base_of_v<ReflectiveRapidJSON::JsonSerializable<T>, T>) {
            const auto b = static_cast<const ReflectiveRapidJSON::JsonSerializable<T> &>(o).toJson();
            return std::string(b.GetString(), b.GetSize());
        } else {
            const auto b = ReflectiveRapidJSON::JsonReflector::toJson(o);
            return std::string(b.GetString(), b.GetSize());
        }
    }
    template <typename T> static std::string loadJson(const std::string &text)
    {
        ReflectiveRapidJSON::JsonDeserializationErrors errors;
        const T o(ReflectiveRapidJSON::JsonReflector::fromJson<T>(text.data(), text.size(), &errors));
        std::ostringstream s;
        show(s, o);
        if (!errors.empty())
            s << " errors " << errors.size();
        return s.str();
    }
    template <typename T> static std::string saveBinary(const T &o, std::uint64_t version)
    {
        std::stringstream s;
        s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        ReflectiveRapidJSON::BinaryReflector::BinarySerializer(&s).write(o, version);
        return s.str();
    }
    template <typename T> static std::string loadBinary(const std::string &data)
    {
        std::stringstream s(data);
        s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        T o;
        ReflectiveRapidJSON::BinaryReflector::BinaryDeserializer(&s).read(o);
        std::ostringstream out;
        show(out, o);
        const auto left = data.size() - std::size_t(s.tellg());
        if (left)
            out << " left " << left;
        return out.str();
    }
    static std::string keys(const std::string &text)
    {
        const auto doc = ReflectiveRapidJSON::JsonReflector::parseJsonDocFromString(text.data(), text.size());
        std::vector<std::string> names;
        for (auto &m : doc.GetObject())
            names.emplace_back(m.name.GetString(), m.name.GetStringLength());
        std::sort(names.begin(), names.end());
        std::string o;
        for (auto &n : names)
            o += n + " ";
        return o;
    }
)";

struct XObject { // an instance of a release
    int cls;
    XObj obj;
};

void emitFill(const XRelease &r, const XObj &o, const std::string &path, std::string &out)
{
    for (auto k : lineage(r, o.cls)) {
        const auto &kc = r.classes[std::size_t(k)];
        for (auto &m : kc.members) {
            if (m.isStatic || m.isConst)
                continue;
            const auto &v = o.vals.at(m.name);
            const auto lhs = "static_cast<::" + kc.qualified() + " &>(" + path + ")." + m.name;
            switch (m.kind) {
            case KRec:
                emitFill(r, v.recs.front(), lhs, out);
                break;
            case KVecRec:
                out += "        " + lhs + ".resize(" + std::to_string(v.recs.size()) + ");\n";
                for (std::size_t i = 0; i < v.recs.size(); ++i)
                    emitFill(r, v.recs[i], lhs + "[" + std::to_string(i) + "]", out);
                break;
            case KOptRec:
            case KShRec:
                if (!v.recs.empty()) {
                    out += "        " + lhs + (m.kind == KOptRec ? ".emplace();\n" : " = std::make_shared<::" + r.classes[std::size_t(m.rec)].qualified() + ">();\n");
                    emitFill(r, v.recs.front(), "(*" + lhs + ")", out);
                }
                break;
            default:
                out += "        " + lhs + " = " + v.expr + ";\n";
            }
        }
    }
}
std::string driverOf(const XRelease &r, const std::vector<XObject> &objects, bool withBase)
{
    std::string o = "#include <rrj.h>\n#define VIS inline\n#include \"input.h\"\n";
    // what is not declared serializable may be provided by hand
    for (auto &k : r.classes) {
        const auto q = "::" + k.qualified();
        if (!covered(k, false))
            o += "namespace ReflectiveRapidJSON { namespace JsonReflector {\ntemplate <> inline void push<" + q + ">(const " + q
                + " &, ::RAPIDJSON_NAMESPACE::Value::Object &, ::RAPIDJSON_NAMESPACE::Document::AllocatorType &) {}\ntemplate <> inline void pull<" + q + ">(" + q
                + " &, const ::RAPIDJSON_NAMESPACE::GenericValue<::RAPIDJSON_NAMESPACE::UTF8<char>>::ConstObject &, JsonDeserializationErrors *) {}\n}}\n";
        if (!covered(k, true))
            o += "namespace ReflectiveRapidJSON { namespace BinaryReflector {\ntemplate <> inline void writeCustomType<" + q + ">(BinarySerializer &, const " + q
                + " &, BinaryVersion) {}\ntemplate <> inline BinaryVersion readCustomType<" + q + ">(BinaryDeserializer &, " + q + " &, BinaryVersion v) { return v; }\n}}\n";
    }
    if (withBase)
        o += "#include \"base_out.h\"\n";
    o += "#include \"output.h\"\n";
    o += kProbe;
    for (std::size_t i = 0; i < r.classes.size(); ++i) {
        const auto &k = r.classes[i];
        o += "    static void show(std::ostream &o, const ::" + k.qualified() + " &v)\n    {\n        o << '{';\n";
        for (auto p : lineage(r, int(i)))
            for (auto &m : r.classes[std::size_t(p)].members)
                if (!m.isStatic)
                    o += "        o << \"" + m.name + "=\";\n        show(o, static_cast<const ::" + r.classes[std::size_t(p)].qualified() + " &>(v)." + m.name + ");\n        o << ';';\n";
        o += "        o << '}';\n    }\n";
    }
    for (std::size_t i = 0; i < objects.size(); ++i) {
        o += "    static ::" + r.classes[std::size_t(objects[i].cls)].qualified() + " make" + std::to_string(i) + "()\n    {\n        auto o = fresh<::"
            + r.classes[std::size_t(objects[i].cls)].qualified() + ">();\n";
        emitFill(r, objects[i].obj, "o", o);
        o += "        return o;\n    }\n";
    }
    o += "};\nint main()\n{\n    for (std::string op, what, arg; std::cin >> op >> what >> arg;) {\n        try {\n";
    for (std::size_t i = 0; i < objects.size(); ++i) {
        const auto &k = r.classes[std::size_t(objects[i].cls)];
        const auto n = std::to_string(i);
        if (covered(k, false))
            o += "            if (op == \"json\" && what == \"" + n + "\")\n                std::cout << Probe::hex(Probe::saveJson(Probe::make" + n + "())) << std::endl;\n";
        if (covered(k, true))
            o += "            if (op == \"bin\" && what == \"" + n + "\")\n                std::cout << Probe::hex(Probe::saveBinary(Probe::make" + n + "(), std::stoull(arg))) << std::endl;\n";
    }
    o += "            if (op == \"keys\")\n                std::cout << Probe::keys(Probe::unhex(arg)) << std::endl;\n";
    for (auto &k : r.classes) {
        if (k.noDefault || k.isAbstract)
            continue;
        const auto q = "::" + k.qualified();
        if (covered(k, false))
            o += "            if (op == \"fromjson\" && what == \"" + q + "\")\n                std::cout << Probe::loadJson<" + q + ">(Probe::unhex(arg)) << std::endl;\n";
        if (covered(k, true))
            o += "            if (op == \"frombin\" && what == \"" + q + "\")\n                std::cout << Probe::loadBinary<" + q + ">(Probe::unhex(arg.substr(1))) << std::endl;\n";
    }
    o += "        } catch (const ReflectiveRapidJSON::BinaryVersionNotSupported &) {\n            std::cout << \"refused\" << std::endl;\n"
         "        } catch (const std::exception &e) {\n            std::cout << \"exception \" << e.what() << std::endl;\n"
         "        } catch (...) {\n            std::cout << \"exception\" << std::endl;\n        }\n    }\n}\n";
    return o;
}
std::string stubHeader()
{
    return "#pragma once\n" + slurp(std::string(E2E_DIR) + "/macros.h") + R"(
struct Probe;
namespace std {
using size_t = unsigned long;
using uint32_t = unsigned;
using int64_t = long;
using uint64_t = unsigned long;
struct string {
    string() {}
    string(const char *) {}
};
template <typename T> struct vector { T *data; };
template <typename K, typename V> struct map { K *data; V *values; };
template <typename T> struct optional { T *data; };
template <typename T> struct shared_ptr { T *data; };
template <typename T> struct unique_ptr { T *data; };
}
namespace rapidjson {
struct Value { struct Object {}; };
struct Document { struct AllocatorType {}; };
template <typename> struct UTF8 {};
template <typename> struct GenericValue { struct ConstObject {}; };
}
namespace ReflectiveRapidJSON {
namespace Traits { template <bool> struct Bool {}; }
using BinaryVersion = std::uint64_t;
struct JsonDeserializationErrors;
template <typename T> struct JsonSerializable { static constexpr const char *qualifiedName = ""; };
template <typename T, BinaryVersion v = 0> struct BinarySerializable { static constexpr BinaryVersion version = v; };
template <typename T> struct AdaptedJsonSerializable : Traits::Bool<false> {};
template <typename T> struct AdaptedBinarySerializable : Traits::Bool<false> {};
namespace JsonReflector {
template <typename T> void push(const T &, ::rapidjson::Value::Object &, ::rapidjson::Document::AllocatorType &);
template <typename T> void pull(T &, const ::rapidjson::GenericValue<::rapidjson::UTF8<char>>::ConstObject &, JsonDeserializationErrors *);
}
namespace BinaryReflector {
struct BinarySerializer;
struct BinaryDeserializer;
template <typename T> void writeCustomType(BinarySerializer &, const T &, BinaryVersion = 0);
template <typename T> BinaryVersion readCustomType(BinaryDeserializer &, T &, BinaryVersion = 0);
}
}
#define JSON_RECORD(key, head, name) key head : public ReflectiveRapidJSON::JsonSerializable<name>
template <unsigned long long v> struct Release { static constexpr unsigned long long version = v; };
constexpr unsigned firstRelease = 1;
enum class E0 : unsigned char { A = 1, B = 7 };
)";
}

// runs a program; stdin and stdout are files of the scratch directory
int execute(const std::vector<std::string> &args, const std::string &dir, const std::string &input, std::string &out, std::string &err, unsigned cpuSeconds)
{
    const auto in = dir + "/home/in", o = dir + "/stdout", e = dir + "/stderr";
    spill(in, input);
    const auto pid = fork();
    if (pid < 0) {
        std::perror("fork");
        std::_Exit(3);
    }
    if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(0);
        std::signal(SIGALRM, SIG_DFL);
        struct rlimit lim = { cpuSeconds, cpuSeconds };
        setrlimit(RLIMIT_CPU, &lim);
        lim = { 0, 0 };
        setrlimit(RLIMIT_CORE, &lim);
        dup2(open(in.c_str(), O_RDONLY), 0);
        dup2(open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), 1);
        dup2(open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), 2);
        if (chdir((dir + "/home").c_str()))
            _exit(3);
        clearenv();
        setenv("PATH", "/usr/bin:/bin", 1);
        setenv("TMPDIR", (dir + "/home").c_str(), 1);
        std::vector<char *> argv;
        for (auto &a : args)
            argv.push_back(const_cast<char *>(a.c_str()));
        argv.push_back(nullptr);
        execv(argv[0], argv.data());
        _exit(127);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    out = slurp(o);
    err = slurp(e);
    return status;
}
std::vector<std::string> splitWords(const char *s)
{
    std::vector<std::string> out;
    for (std::string w; *s; ++s) {
        if (*s != ' ')
            w += *s;
        if ((*s == ' ' || !s[1]) && !w.empty())
            out.push_back(w), w.clear();
    }
    return out;
}
std::vector<std::string> lines(const std::string &s)
{
    std::vector<std::string> out;
    for (std::size_t at = 0; at < s.size();) {
        const auto e = s.find('\n', at);
        out.push_back(s.substr(at, e == std::string::npos ? e : e - at));
        if (e == std::string::npos)
            break;
        at = e + 1;
    }
    return out;
}
void showText(const char *name, const std::string &text)
{
    if (!run->verbose)
        return;
    note("--- %s", name);
    for (auto &l : lines(text))
        note("%s", l.c_str());
}

// a run of the generator as a build tool would do it: again until it succeeds
bool generate(const Scratch &d, const Program &p, Setup s, Result &r)
{
    auto &c = ch();
    const unsigned trouble = c.chance(1, 3) ? 1 + c.below(2) : 0;
    for (unsigned i = 0;; ++i) {
        auto v = s;
        if (c.chance(1, 3)) {
            v.memory.direction = std::uint8_t(c.below(3));
            v.memory.reuse = std::uint8_t(c.below(3));
            v.memory.fill = c.below(2) ? 0xFF : 0;
            v.memory.gaps = c.chance(1, 2);
            v.memory.seed = c.bits(32);
            count("fault:memory layout changed");
        }
        if (c.chance(1, 4))
            v.splitSeed = 1 + c.bits(32);
        if (i < trouble) {
            Fault f;
            f.at = c.below(70);
            f.code = std::uint8_t(c.below(60));
            f.arg = std::uint16_t(c.below(5000));
            f.kill = c.chance(1, 3);
            v.faults.push_back(f);
        }
        r = live(p, v, d);
        ev("generator: %s", describe(r).c_str());
        if (r.killedByPlan)
            continue;
        if (crashed("", r))
            return false;
        if (r.code == 0 || i >= trouble)
            return true;
    }
}

bool compileProgram(const std::string &dir, std::string &err)
{
    auto cmd = splitWords(E2E_CXX);
    for (const auto &a : { std::string("-I") + E2E_DIR, "-I" + dir + "/src", std::string("-include-pch"), std::string(E2E_DIR) + "/rrj.h.pch", dir + "/home/driver.cpp", std::string("-o"), dir + "/home/program", std::string("-lmartchus-c++utilities") })
        cmd.push_back(a);
    std::string out;
    const auto status = execute(cmd, dir, "", out, err, 120);
    if (status && (!WIFEXITED(status) || WEXITSTATUS(status) == 127)) { // not about the code
        std::fprintf(stderr, "the compiler ends with status %d\n", status);
        std::_Exit(3);
    }
    return !status;
}

// known finding: a virtual base reached via two bases
std::string virtualDiamond()
{
    XRelease r;
    for (int i = 0; i < 4; ++i) {
        XClass k;
        k.name = "V" + std::to_string(i);
        k.json = true;
        k.virtualBase = i == 0;
        if (i == 1 || i == 2)
            k.bases = { { 0 } };
        else if (i == 3)
            k.bases = { { 1 }, { 2 } };
        XMember m;
        m.name = "m" + std::to_string(i);
        k.members = { m };
        XItem it;
        it.member = 0;
        k.items = { it };
        r.classes.push_back(k);
    }
    XObj obj;
    obj.cls = 3;
    for (int i = 0; i < 4; ++i)
        obj.vals["m" + std::to_string(i)].expr = "1";
    Scratch d;
    Program p;
    p.files.emplace_back("input.h", headerOf(r, false, false));
    p.files.emplace_back("rrj.h", stubHeader());
    store(p, d);
    Setup s;
    s.include = true;
    s.generators = { "json" };
    const auto res = live(p, s, d);
    spill(d.dir + "/src/output.h", res.output);
    spill(d.dir + "/home/driver.cpp", driverOf(r, { { 3, obj } }, false));
    std::string out, err;
    if (res.code || !compileProgram(d.dir, err))
        return "the probe does not compile: " + err.substr(0, 300);
    execute({ d.dir + "/home/program" }, d.dir, "json 0 0\n", out, err, 20);
    const auto json = lines(out);
    if (json.empty())
        return "the probe crashes";
    execute({ d.dir + "/home/program" }, d.dir, "keys - " + json.front() + "\n", out, err, 20);
    const auto keys = lines(out);
    return !keys.empty() && keys.front() == "m0 m1 m2 m3 " ? "" : "members saved: " + (keys.empty() ? "" : keys.front());
}
sim::RegisterProbe rp17("C17", "virtual-diamond", virtualDiamond);

// the versions around those at which anything changes
std::vector<std::uint64_t> versionsOf(const XRelease &r, int cls)
{
    std::vector<std::uint64_t> out = { 0 };
    const auto version = r.classes[std::size_t(cls)].version;
    const auto add = [&](std::uint64_t v) {
        for (auto x : { v - 1, v, v + 1 })
            if (x && x <= version && std::find(out.begin(), out.end(), x) == out.end())
                out.push_back(x);
    };
    if (!version)
        return out;
    for (auto k : lineage(r, cls)) {
        add(r.classes[std::size_t(k)].version);
        for (auto &it : r.classes[std::size_t(k)].items)
            if (it.what == 1 || it.what == 2)
                add(it.version);
    }
    return out;
}

void c17()
{
    auto &c = ch();
    XWriter w;
    const bool withBase = c.chance(1, 3);
    if (withBase)
        w.drawMore(1 + c.below(2), true);
    w.mayUseOption = withBase;
    w.drawMore(c.chance(1, 30) ? 8 + c.below(16) : 1 + c.below(5), false);
    const unsigned releases = c.below(3) ? c.below(2) ? 2 : 1 : 3;
    struct Built {
        XRelease rel;
        std::vector<XObject> objects;
        std::unique_ptr<Scratch> dir;
        std::vector<std::string> generators;
    };
    struct Record {
        std::size_t release, object;
        bool bin;
        std::uint64_t version;
        std::string data; // hexadecimal
    };
    std::vector<Built> built;
    std::vector<Record> disk;
    for (unsigned n = 0; n < releases; ++n) {
        if (n)
            w.evolve();
        Built b;
        b.rel = w.r;
        for (std::size_t i = 0; i < b.rel.classes.size(); ++i)
            if (!b.rel.classes[i].isAbstract && (covered(b.rel.classes[i], false) || covered(b.rel.classes[i], true)))
                b.objects.push_back({ int(i), drawObj(b.rel, int(i)) });
        b.dir = std::make_unique<Scratch>();
        const auto &dir = b.dir->dir;
        Program p;
        p.files.emplace_back("input.h", headerOf(b.rel, false, withBase));
        p.files.emplace_back("rrj.h", stubHeader());
        if (withBase)
            p.files.emplace_back("base.h", headerOf(b.rel, true, false));
        p.jsonClasses = b.rel.jsonOption;
        p.binaryClasses = b.rel.binOption;
        // names which are not those of any class
        for (auto &k : b.rel.classes)
            for (bool bin : { false, true })
                if (!covered(k, bin) && !k.inlineNs && c.chance(1, 3)) {
                    auto &names = bin ? p.binaryClasses : p.jsonClasses;
                    names.insert(names.begin() + long(c.below(names.size() + 1)), k.qualified() != k.name ? k.name : "n::" + k.name);
                }
        store(p, *b.dir);
        ev("release %u: input %016llx", n, static_cast<unsigned long long>(programHash(p)));
        state(programHash(p));
        showText("input.h", p.files[0].second);
        if (withBase)
            showText("base.h", p.files[2].second);
        Setup s;
        s.include = true;
        s.generators = c.below(2) ? std::vector<std::string>{ "json", "binary" } : std::vector<std::string>{ "binary", "json" };
        s.cwd = int(c.below(4));
        s.toStdout = c.chance(1, 4);
        if (c.chance(1, 6)) {
            // errors elsewhere, and the generator does not even know all types
            s.resilient = true;
            auto &text = p.files[0].second;
            const auto broken = semanticErrors(n);
            if (c.below(2))
                text += broken;
            else
                text.insert(text.find("#include <rrj.h>\n") + 17, broken);
            auto &stub = p.files[1].second;
            if (c.below(2))
                stub.resize(stub.rfind("enum class E0"));
            store(p, *b.dir);
            count("probe:error-resilient mode");
        }
        s.visibility = c.chance(1, 6);
        const auto emit = [&](const char *target) {
            Result r;
            if (!generate(*b.dir, p, s, r))
                return false;
            if (r.code) {
                fail("refused", "valid input refused with status %d", r.code);
                note("stderr: %s", r.err.substr(0, 1500).c_str());
                return false;
            }
            spill(dir + "/src/" + target, r.output);
            showText(target, r.output);
            return true;
        };
        if (!emit("output.h"))
            return;
        if (withBase) {
            std::swap(p.files[0], p.files[2]);
            if (!emit("base_out.h"))
                return;
        }
        spill(dir + "/src/input.h", headerOf(b.rel, false, withBase));
        const auto driver = driverOf(b.rel, b.objects, withBase);
        spill(dir + "/home/driver.cpp", driver);
        std::string out, err;
        if (!compileProgram(dir, err)) {
            fail("uncompilable", "the generated code does not compile");
            note("%s", err.substr(0, 3000).c_str());
            showText("driver.cpp", driver);
            return;
        }
        count("programs built from generated code");
        // save everything, in versions still supported by earlier releases
        std::string input;
        std::vector<Record> saves;
        for (std::size_t i = 0; i < b.objects.size(); ++i) {
            const auto &k = b.rel.classes[std::size_t(b.objects[i].cls)];
            if (covered(k, false)) {
                saves.push_back({ n, i, false, 0, "" });
                input += "json " + std::to_string(i) + " 0\n";
            }
            if (covered(k, true))
                for (auto v : versionsOf(b.rel, b.objects[i].cls)) {
                    if (v && c.below(2))
                        continue;
                    saves.push_back({ n, i, true, v, "" });
                    input += "bin " + std::to_string(i) + " " + std::to_string(v) + "\n";
                }
        }
        const auto rc = execute({ dir + "/home/program" }, dir, input, out, err, 20);
        const auto got = lines(out);
        if (rc || got.size() != saves.size()) {
            fail("crash", "the program of release %u ends with status %d after saving %zu of %zu objects", n, rc, got.size(), saves.size());
            note("stderr: %s", err.substr(0, 1000).c_str());
            return;
        }
        for (std::size_t i = 0; i < saves.size(); ++i) {
            saves[i].data = got[i];
            ev("saved %s %llu: %s", saves[i].bin ? "binary" : "JSON", static_cast<unsigned long long>(saves[i].version), got[i].substr(0, 400).c_str());
            disk.push_back(saves[i]);
            count(saves[i].bin ? "objects saved in binary form" : "objects saved as JSON");
        }
        b.generators = s.generators;
        built.push_back(std::move(b));
    }
    // every program restores what every other one saved
    for (std::size_t reader = 0; reader < built.size(); ++reader) {
        auto &b = built[reader];
        std::string input;
        std::vector<std::string> expected, about;
        for (auto &rec : disk) {
            const auto &wr = built[rec.release].rel;
            const auto &obj = built[rec.release].objects[rec.object];
            const auto q = wr.classes[std::size_t(obj.cls)].qualified();
            int rcls = -1;
            for (std::size_t i = 0; i < b.rel.classes.size(); ++i)
                if (b.rel.classes[i].qualified() == q)
                    rcls = int(i);
            if (rcls < 0)
                continue;
            const auto what = "::" + q + " of release " + std::to_string(rec.release) + (rec.bin ? ", binary version " + std::to_string(rec.version) : ", JSON") + ", by release " + std::to_string(reader);
            if (!rec.bin && reader == rec.release) {
                input += "keys - " + rec.data + "\n";
                std::string keys;
                for (auto &k : jsonKeys(wr, obj.cls))
                    keys += k + " ";
                expected.push_back(keys);
                about.push_back("members of " + what);
            }
            if (b.rel.classes[std::size_t(rcls)].noDefault)
                continue;
            input += (rec.bin ? "frombin ::" : "fromjson ::") + q + (rec.bin ? " x" : " ") + rec.data + "\n";
            about.push_back(what);
            auto target = defaultObj(b.rel, rcls);
            if (!rec.bin)
                restoreJson(wr, obj.obj, b.rel, target);
            else if (!restoreBinary(wr, obj.obj, rec.version, b.rel, target)) {
                expected.push_back("refused");
                count("probe:data of a later version refused");
                continue;
            }
            if (reader != rec.release)
                count(reader > rec.release ? "probe:data of an earlier release restored" : "probe:data of a later release restored");
            expected.push_back(showObj(b.rel, target));
        }
        std::string out, err;
        const auto rc = execute({ b.dir->dir + "/home/program" }, b.dir->dir, input, out, err, 20);
        const auto got = lines(out);
        for (std::size_t i = 0; i < expected.size(); ++i) {
            if (i >= got.size()) {
                fail("crash", "the program of release %zu ends with status %d instead of restoring %s", reader, rc, about[i].c_str());
                note("stderr: %s", err.substr(0, 1000).c_str());
                return;
            }
            if (got[i] != expected[i]) {
                fail("wrong", "%s: %s instead of %s", about[i].c_str(), got[i].substr(0, 300).c_str(), expected[i].substr(0, 300).c_str());
                return;
            }
            if (run->stats)
                run->stats->simTime++;
            ev("restored %s: %s", about[i].c_str(), got[i].substr(0, 200).c_str());
        }
        if (rc) {
            fail("crash", "the program of release %zu ends with status %d", reader, rc);
            return;
        }
    }
    if (!disk.empty())
        nontrivial();
    run->sample = std::to_string(releases) + " releases, " + std::to_string(w.r.classes.size()) + " classes, " + std::to_string(disk.size()) + " saved objects";
}
