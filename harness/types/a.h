// scalars, sequences, sets, maps
#pragma once
#include "common.h"

namespace uni {
enum class E8 : std::uint8_t { A, B, C = 200 };
enum class E16 : std::int16_t { A = -3, B = 7 };
enum class E32 : std::uint32_t { A, B };
enum class E64 : std::int64_t { A = -1, B };
enum class U64 : std::uint64_t { A, B };
enum Old { OldA, OldB };

struct Scal : public JsonSerializable<Scal>, public BinarySerializable<Scal> {
    int i = 0;
    unsigned int u = 0;
    std::int64_t l = -1;
    std::uint64_t ul = 0;
    std::uint8_t b8 = 0;
    bool flag = false;
    float f = 0;
    double d = 0;
    std::string s;
    E8 e8 = E8::A;
    E64 e64 = E64::B;
};
struct Enums : public JsonSerializable<Enums>, public BinarySerializable<Enums> {
    E8 e8 = E8::A;
    E16 e16 = E16::B;
    E32 e32 = E32::A;
    E64 e64 = E64::A;
    U64 u64 = U64::A;
    std::vector<E16> list;
    bool last = true;
};
struct Small : public JsonSerializable<Small>, public BinarySerializable<Small> {
    int a = 7;
    std::string t = "x";
    bool operator<(const Small &o) const { return a != o.a ? a < o.a : t < o.t; }
};
struct BScal : public BinarySerializable<BScal> {
    char c = 'c';
    std::int16_t i16 = -2;
    std::uint16_t u16 = 2;
    std::int32_t i32 = 0;
    std::uint32_t u32 = 0;
    std::int64_t i64 = 0;
    std::uint64_t u64 = 0;
    std::uint8_t u8 = 0;
    bool b = true;
    float f = 1.5f;
    double d = -2.5;
    std::string s = "s";
    E16 e = E16::A;
};
struct JScal : public JsonSerializable<JScal> {
    std::int8_t i8 = -1;
    std::uint8_t u8 = 1;
    std::tuple<int, std::string, double> t{ 1, "t", 0.5 };
    std::tuple<bool> one{ false };
    std::vector<std::tuple<std::string, std::vector<int>>> ts;
    E16 e16 = E16::A;
    E32 e32 = E32::B;
    float f = 0.25f;
};
struct Seqs : public JsonSerializable<Seqs>, public BinarySerializable<Seqs> {
    std::vector<int> vi;
    std::vector<std::string> vs;
    std::list<double> ld;
    std::deque<std::uint64_t> du;
    std::vector<std::vector<int>> vvi;
    std::vector<Small> vo;
    std::list<std::vector<std::string>> lvs;
    int last = 3;
};
struct Sets : public JsonSerializable<Sets>, public BinarySerializable<Sets> {
    std::set<int> si;
    std::set<std::string> ss;
    std::unordered_set<std::uint64_t> us;
    std::unordered_set<std::string> uss;
    std::multiset<int> mi;
    std::unordered_multiset<std::string> um;
    std::set<std::vector<int>> sv;
    std::set<std::pair<int, std::string>> sp;
    std::multiset<Small> ms;
    int last = 4;
};
struct Maps : public JsonSerializable<Maps>, public BinarySerializable<Maps> {
    std::map<std::string, int> mi;
    std::unordered_map<std::string, Small> um;
    std::multimap<std::string, int> mm;
    std::unordered_multimap<std::string, std::string> umm;
    std::map<std::string, std::vector<int>> mv;
    std::map<std::string, std::map<std::string, bool>> mmap;
    std::multimap<std::string, std::vector<int>> mmv;
    std::multimap<std::string, Small> mms;
    int last = 5;
};
// texts owned by somebody else; not restored, see README
struct Views : public JsonSerializable<Views> {
    const char *c = nullptr;
    std::string_view v;
    std::vector<std::string_view> vv;
    std::map<std::string, std::string_view> mv;
    std::optional<std::string_view> ov;
    int last = 13;

private:
    template <class T> friend struct ::bind::Desc;
    std::deque<std::string> owner;
};
struct BMaps : public BinarySerializable<BMaps> {
    std::map<int, std::string> mi;
    std::unordered_map<std::uint64_t, std::vector<std::string>> uv;
    std::multimap<std::int16_t, int> mm;
    std::unordered_multimap<std::uint32_t, std::uint8_t> umm;
    std::map<std::pair<int, int>, Small> mp;
    std::map<std::string, std::set<int>> ms;
};
} // namespace uni
