#include "jmut.h"

using namespace sim;

namespace jmut {
namespace {
void collect(J &j, std::vector<J *> &all)
{
    all.push_back(&j);
    for (auto &e : j.a)
        collect(e, all);
    for (auto &m : j.o)
        collect(m.second, all);
}
J num(double d)
{
    J j;
    j.t = J::Num;
    j.n = J::D;
    j.d = d;
    return j;
}
J uns(std::uint64_t u)
{
    J j;
    j.t = J::Num;
    j.n = J::U;
    j.u = u;
    return j;
}
J neg(std::int64_t i)
{
    J j;
    j.t = J::Num;
    j.n = i < 0 ? J::I : J::U;
    j.i = i;
    j.u = std::uint64_t(i);
    return j;
}
J str(std::string s)
{
    J j;
    j.t = J::Str;
    j.s = std::move(s);
    return j;
}
J special()
{
    switch (ch().below(24)) {
    case 0: return neg(-1);
    case 1: return uns(255);
    case 2: return uns(256);
    case 3: return neg(-129);
    case 4: return uns(127);
    case 5: return uns(128);
    case 6: return uns(65536);
    case 7: return neg(-32769);
    case 8: return uns(0x7fffffffull);
    case 9: return uns(0x80000000ull);
    case 10: return neg(-0x80000000ll);
    case 11: return neg(-0x80000001ll);
    case 12: return uns(0xffffffffull);
    case 13: return uns(0x100000000ull);
    case 14: return uns(0x7fffffffffffffffull);
    case 15: return uns(0x8000000000000000ull);
    case 16: return neg(INT64_MIN);
    case 17: return uns(~0ull);
    case 18: return num(18446744073709551616.);
    case 19: return num(-9223372036854777856.);
    case 20: return num(1.5);
    case 21: return num(-0.75);
    case 22: return num(1e300);
    default: return num(4e38);
    }
}
J scalar()
{
    J j;
    switch (ch().below(9)) {
    case 0: return j;
    case 1: j.t = J::True; return j;
    case 2: j.t = J::False; return j;
    case 3: return uns(ch().below(5));
    case 4: return str("");
    case 5: return str(std::string("no\0t", 4));
    case 6: j.t = J::Arr; return j;
    case 7: j.t = J::Obj; return j;
    default: return special();
    }
}
// put an unusual number in the place of the number at or after that offset
void oddNumber(std::string &t, std::size_t at)
{
    const auto digit = [&](std::size_t i) { return t[i] >= '0' && t[i] <= '9'; };
    while (at < t.size() && !digit(at))
        ++at;
    if (at >= t.size())
        return;
    while (at > 0 && (digit(at - 1) || t[at - 1] == '.' || t[at - 1] == '-'))
        --at;
    auto end = at;
    while (end < t.size() && (digit(end) || t[end] == '.' || t[end] == '-' || t[end] == '+' || t[end] == 'e' || t[end] == 'E'))
        ++end;
    static const unsigned lens[] = { 1, 5, 18, 19, 20, 40, 310, 330, 420, 800 };
    std::string n = ch().chance(1, 3) ? "-" : "";
    switch (ch().below(8)) {
    case 0: n += "0." + std::string(lens[ch().below(10)], '0') + "1"; break;
    case 1: n += std::string(1, char('1' + ch().below(9))) + std::string(lens[ch().below(10)], char('0' + ch().below(10))); break;
    case 2: n += "0.0"; break;
    case 3: n += "0"; break;
    case 4: n += "1." + std::string(lens[ch().below(10)], char('0' + ch().below(10))); break;
    case 5: n += std::to_string(ch().below(10)) + "e" + std::to_string(ch().below(320)); break;
    default: n += std::to_string(ch().below(100)); break;
    }
    if (ch().chance(1, 3)) {
        static const char *const exps[] = { "e1", "E+2", "e-1", "e-300", "e-325", "e-400", "e-1000", "e300", "e308", "e400", "e99999999999", "e-99999999999" };
        if (n.find('e') == std::string::npos)
            n += exps[ch().below(12)];
    }
    t.replace(at, end - at, n);
}
} // namespace

// make an array long, most or the last of its elements being damaged
unsigned lengthen(J &root)
{
    std::vector<J *> all, arr;
    collect(root, all);
    for (auto *x : all)
        if (x->t == J::Arr && !x->a.empty())
            arr.push_back(x);
    if (arr.empty())
        return 0;
    auto &a = arr[ch().below(arr.size())]->a;
    static const unsigned lens[] = { 18, 33, 66, 130, 258, 300, 1030, 5000, 65540 };
    std::size_t n = lens[ch().below(ch().chance(1, 3) ? 9 : 6)];
    std::vector<J *> sub;
    for (std::size_t i = 0; i < a.size() && i < 4; ++i)
        collect(a[i], sub);
    std::size_t text = 0;
    for (auto *x : sub)
        text += x->s.size();
    if ((sub.size() > 16 || text > 200) && n > 300)
        n = 300;
    if (n <= a.size())
        return 0;
    const auto bad = ch().below(3);
    const auto damaged = ch().chance(1, 2) ? scalar() : a[ch().below(a.size())];
    const auto first = a.size();
    unsigned done = 0;
    for (auto i = first; i < n; ++i) {
        const bool hurt = bad == 0 || (bad == 1 && i + 3 > n) || (bad == 2 && i % 3);
        done += hurt;
        auto copy = hurt ? damaged : a[i % first];
        a.push_back(std::move(copy));
    }
    count("probe:many damaged elements");
    if (g_stepLimit != ~0ull)
        g_stepLimit += n * 20000;
    return done;
}

unsigned damageTree(J &root, unsigned n)
{
    unsigned done = 0;
    if (ch().chance(1, 100))
        done += lengthen(root);
    for (unsigned i = 0; i < n; ++i) {
        std::vector<J *> all;
        collect(root, all);
        // the root less often than anything else
        auto &j = *all[all.size() > 1 && ch().chance(39, 40) ? 1 + ch().below(all.size() - 1) : 0];
        ++done;
        switch (ch().below(10)) {
        default:
            j = scalar();
            break;
        case 2:
            j = special();
            break;
        case 3: {
            const J other = *all[ch().below(all.size())];
            std::vector<J *> sub;
            J copy = other;
            collect(copy, sub);
            if (sub.size() < 40)
                j = std::move(copy);
            break;
        }
        case 4: {
            J wrap;
            wrap.t = J::Arr;
            wrap.a.push_back(j);
            j = std::move(wrap);
            break;
        }
        case 5: {
            // arrays: lose, repeat or gain an element
            std::vector<J *> arr;
            for (auto *x : all)
                if (x->t == J::Arr)
                    arr.push_back(x);
            if (arr.empty())
                break;
            auto &a = arr[ch().below(arr.size())]->a;
            const auto k = ch().below(3);
            if (a.empty() || k == 0)
                a.insert(a.begin() + std::ptrdiff_t(ch().below(a.size() + 1)), scalar());
            else if (k == 1)
                a.erase(a.begin() + std::ptrdiff_t(ch().below(a.size())));
            else {
                J c = a[ch().below(a.size())];
                a.insert(a.begin() + std::ptrdiff_t(ch().below(a.size() + 1)), std::move(c));
            }
            break;
        }
        case 6: {
            // objects: lose, repeat, rename or gain a member
            std::vector<J *> obj;
            for (auto *x : all)
                if (x->t == J::Obj)
                    obj.push_back(x);
            if (obj.empty())
                break;
            auto &o = obj[ch().below(obj.size())]->o;
            const auto k = ch().below(5);
            if (o.empty() || k == 0)
                o.emplace(o.begin() + std::ptrdiff_t(ch().below(o.size() + 1)), ch().chance(1, 2) ? "data" : "what", scalar());
            else if (k == 1)
                o.erase(o.begin() + std::ptrdiff_t(ch().below(o.size())));
            else if (k == 2) {
                auto c = o[ch().below(o.size())];
                if (ch().chance(1, 2))
                    c.second = scalar();
                o.insert(o.begin() + std::ptrdiff_t(ch().below(o.size() + 1)), std::move(c));
            } else if (k == 3)
                o[ch().below(o.size())].first = ch().chance(1, 2) ? "index" : "x";
            else
                std::swap(o[ch().below(o.size())], o[ch().below(o.size())]);
            break;
        }
        case 7: {
            std::vector<J *> strs;
            for (auto *x : all)
                if (x->t == J::Str)
                    strs.push_back(x);
            if (strs.empty())
                break;
            auto &s = strs[ch().below(strs.size())]->s;
            if (s.empty() || ch().chance(1, 3))
                s += "x";
            else if (ch().chance(1, 2))
                s.resize(ch().below(s.size()));
            else
                s[ch().below(s.size())] = char('0' + ch().below(12));
            break;
        }
        case 8: {
            // the index of a variant
            std::vector<J *> idx;
            for (auto *x : all)
                for (auto &m : x->o)
                    if (m.first == "index")
                        idx.push_back(&m.second);
            if (!idx.empty())
                *idx[ch().below(idx.size())] = ch().chance(1, 2) ? uns(ch().below(6)) : scalar();
            break;
        }
        }
    }
    return done;
}
unsigned damageText(std::string &t, unsigned n)
{
    for (unsigned i = 0; i < n; ++i) {
        const auto at = ch().below(t.size() + 1);
        static const char bytes[] = "\"\\{}[]:,0eE+-. nt\n\x01\x80\xff";
        switch (ch().below(7)) {
        case 6:
            oddNumber(t, at);
            break;
        case 0:
            if (at < t.size())
                t[at] = bytes[ch().below(sizeof(bytes))]; // the NUL included
            break;
        case 1:
            if (at < t.size())
                t.erase(at, 1);
            break;
        case 2:
            t.insert(t.begin() + std::ptrdiff_t(at), bytes[ch().below(sizeof(bytes) - 1)]);
            break;
        case 3:
            t.resize(at);
            break;
        case 4:
            if (at < t.size())
                t[at] = char(t[at] ^ (1u << ch().below(8)));
            break;
        default: {
            const auto len = std::min<std::size_t>(t.size() - at, 1 + ch().below(16));
            const auto part = t.substr(at, len);
            t.insert(ch().below(t.size() + 1), part);
            break;
        }
        }
    }
    return n;
}
unsigned drawCount()
{
    static const unsigned n[] = { 1, 2, 0, 4, 8 };
    return n[ch().below(5)];
}
std::string render(const J &j)
{
    auto t = model::jtext(j);
    if (!ch().chance(1, 4))
        return t;
    // white space between tokens
    std::string out;
    bool inStr = false;
    for (std::size_t i = 0; i < t.size(); ++i) {
        out += t[i];
        if (inStr) {
            if (t[i] == '\\')
                out += t[++i];
            else if (t[i] == '"')
                inStr = false;
            continue;
        }
        if (t[i] == '"')
            inStr = true;
        else if (t[i] == ',' || t[i] == ':' || t[i] == '{' || t[i] == '[')
            out += ch().chance(1, 4) ? "\n\t " : "";
    }
    return out;
}
} // namespace jmut
