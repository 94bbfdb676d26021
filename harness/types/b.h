// optionals, pointers, variants, pairs, dates, inheritance, nesting
#pragma once
#include "a.h"

namespace uni {
struct Opts : public JsonSerializable<Opts>, public BinarySerializable<Opts> {
    std::optional<int> oi;
    std::optional<std::string> os;
    std::optional<std::vector<int>> ov;
    std::optional<Small> oo;
    std::unique_ptr<Small> uo;
    std::unique_ptr<std::string> us;
    std::vector<std::optional<int>> vo;
    std::vector<std::unique_ptr<Small>> vu;
    int last = 6;
};
struct BOpts : public BinarySerializable<BOpts> {
    std::optional<std::optional<int>> oo;
    std::unique_ptr<std::optional<std::string>> uo;
    std::optional<std::map<int, int>> om;
};
struct Vars : public JsonSerializable<Vars>, public BinarySerializable<Vars> {
    std::variant<std::monostate, int, std::string, Small> a;
    std::variant<std::string, std::vector<int>> b;
    std::map<std::string, std::variant<int, bool>> c;
    std::vector<std::variant<int, std::string, std::map<std::string, int>>> d;
    std::variant<int, int, double> e;
    int last = 8;
};
struct Pairs : public JsonSerializable<Pairs>, public BinarySerializable<Pairs> {
    std::pair<int, std::string> p{ 1, "one" };
    std::vector<std::pair<std::string, double>> vp;
    std::pair<Small, std::vector<int>> po;
    std::map<std::string, std::pair<int, bool>> mp;
    int last = 9;
};
struct Dates : public JsonSerializable<Dates>, public BinarySerializable<Dates> {
    CppUtilities::DateTime dt;
    CppUtilities::TimeSpan ts;
    std::vector<CppUtilities::DateTime> vd;
    std::optional<CppUtilities::TimeSpan> ot;
    std::map<std::string, CppUtilities::TimeSpan> mt;
    int last = 10;
};
struct BaseA : public JsonSerializable<BaseA>, public BinarySerializable<BaseA> {
    int baseA = 1;
    std::vector<int> listA;
};
struct BaseB : public JsonSerializable<BaseB>, public BinarySerializable<BaseB> {
    std::string baseB = "b";
};
// several levels of bases (JSON only)
struct Level1 : public JsonSerializable<Level1> {
    int level1 = 1;
    std::vector<int> list1;
};
struct Level2 : public Level1, public JsonSerializable<Level2> {
    std::string level2 = "two";
};
struct Gap : public Level1 { // not serialisable on its own
    int gap = 3;
};
struct Level3 : public Level2, public BaseB, public JsonSerializable<Level3> {
    std::optional<Small> level3;
    bool last = true;
};
struct OverGap : public Gap, public JsonSerializable<OverGap> {
    double over = 0.5;
};
struct Unrelated {
    int unrelated = 5;
};
struct Derived : public BaseA, public BaseB, public Unrelated, public JsonSerializable<Derived>, public BinarySerializable<Derived> {
    std::map<std::string, int> own;
    bool last = false;
};
class Private : public JsonSerializable<Private>, public BinarySerializable<Private> {
    REFLECTIVE_RAPIDJSON_ENABLE_PRIVATE_MEMBERS(Private);
    friend void ReflectiveRapidJSON::BinaryReflector::writeCustomType<Private>(
        ReflectiveRapidJSON::BinaryReflector::BinarySerializer &, const Private &, ReflectiveRapidJSON::BinaryVersion);
    friend ReflectiveRapidJSON::BinaryVersion ReflectiveRapidJSON::BinaryReflector::readCustomType<Private>(
        ReflectiveRapidJSON::BinaryReflector::BinaryDeserializer &, Private &, ReflectiveRapidJSON::BinaryVersion);
    template <class T> friend struct ::bind::Desc;

    int secret = 1;
    std::string word = "hidden";

public:
    std::vector<std::string> open;

protected:
    std::optional<int> guarded;
};
struct PartPrivate : public JsonSerializable<PartPrivate>, public BinarySerializable<PartPrivate> {
    int open = 2;
    const int fixed = 77;
    std::string after = "z";
    static int shared;

private:
    template <class T> friend struct ::bind::Desc;
    int hidden = 3;
};
struct Outer : public JsonSerializable<Outer>, public BinarySerializable<Outer> {
    Scal scal;
    Seqs seqs;
    std::vector<Derived> der;
    std::map<std::string, Opts> mo;
    std::optional<Vars> ov;
    std::unique_ptr<Maps> um;
    std::vector<Sets> vs;
    int last = 11;
};
} // namespace uni
