// Written by tools/mkversions.py: the same records as built at versions 1 to 4.
#pragma once
#include "common.h"

namespace v1 {
using ReflectiveRapidJSON::BinarySerializable;
struct Plain : public BinarySerializable<Plain> {
    std::uint32_t foo = 1;
    until_version(1):
    std::uint16_t p1 = 11;
};
struct Own : public BinarySerializable<Own, 1> {
    std::string name = "own";
};
struct Low : public BinarySerializable<Low, 1> {
    std::uint16_t low = 6;
    until_version(1):
    bool low1 = true;
};
struct Mid : public BinarySerializable<Mid> {
    Plain plain;
    Own own;
    until_version(2):
    std::string mid2 = "mid2";
};
struct Base : public BinarySerializable<Base, 1> {
    int base = 5;
};
struct Rec : public Base, public BinarySerializable<Rec, 1> {
    std::uint32_t a = 1;
    Plain plain;
    Own own;
    until_version(1):
    std::string old1 = "old1";
    until_version(2):
    std::uint32_t old2 = 2;
    Plain oldPlain;
    until_version(0):
    Low low;
};
struct Heir : public Low, public BinarySerializable<Heir, 1> {
    std::string heir = "heir";
};
struct Alone : public BinarySerializable<Alone, 1> {
    until_version(2):
    std::string o2 = "o2";
};
struct Win : public BinarySerializable<Win, 1> {
    std::uint16_t w = 1;
    until_version(1):
    std::uint8_t w1 = 11;
    until_version(2):
    std::string w2 = "w2";
};
} // namespace v1

namespace v2 {
using ReflectiveRapidJSON::BinarySerializable;
struct Plain : public BinarySerializable<Plain> {
    std::uint32_t foo = 1;
    as_of_version(2):
    std::uint64_t p2 = 12;
    until_version(1):
    std::uint16_t p1 = 11;
};
struct Own : public BinarySerializable<Own, 2> {
    std::string name = "own";
    as_of_version(2):
    std::uint16_t own2 = 21;
};
struct Low : public BinarySerializable<Low, 2> {
    std::uint16_t low = 6;
    as_of_version(2):
    std::string low2 = "low2";
    until_version(1):
    bool low1 = true;
};
struct Mid : public BinarySerializable<Mid> {
    Plain plain;
    Own own;
    until_version(2):
    std::string mid2 = "mid2";
};
struct Base : public BinarySerializable<Base, 2> {
    int base = 5;
    as_of_version(2):
    std::string base2 = "base2";
};
struct Rec : public Base, public BinarySerializable<Rec, 2> {
    std::uint32_t a = 1;
    Plain plain;
    Own own;
    as_of_version(2):
    std::string new2 = "new2";
    std::uint8_t new2b = 22;
    until_version(1):
    std::string old1 = "old1";
    until_version(2):
    std::uint32_t old2 = 2;
    Plain oldPlain;
    as_of_version(2):
    until_version(3):
    std::vector<int> mid;
    until_version(0):
    Low low;
    as_of_version(2):
    Mid middle;
};
struct Heir : public Low, public BinarySerializable<Heir, 2> {
    std::string heir = "heir";
    as_of_version(2):
    Low heir2;
};
struct Alone : public BinarySerializable<Alone, 2> {
    until_version(2):
    std::string o2 = "o2";
};
struct Win : public BinarySerializable<Win, 2> {
    std::uint16_t w = 1;
    as_of_version(2):
    until_version(2):
    std::string once2 = "once2";
    until_version(3):
    std::uint16_t two3 = 23;
    until_version(1):
    std::uint8_t w1 = 11;
    until_version(2):
    std::string w2 = "w2";
    as_of_version(2):
    std::uint8_t again2 = 22;
    Low low2;
};
} // namespace v2

namespace v3 {
using ReflectiveRapidJSON::BinarySerializable;
struct Plain : public BinarySerializable<Plain> {
    std::uint32_t foo = 1;
    as_of_version(2):
    std::uint64_t p2 = 12;
    until_version(1):
    std::uint16_t p1 = 11;
    as_of_version(3):
    std::map<std::string, int> p3;
};
struct Own : public BinarySerializable<Own, 3> {
    std::string name = "own";
    as_of_version(2):
    std::uint16_t own2 = 21;
    as_of_version(3):
    std::optional<int> own3;
};
struct Low : public BinarySerializable<Low, 2> {
    std::uint16_t low = 6;
    as_of_version(2):
    std::string low2 = "low2";
    until_version(1):
    bool low1 = true;
};
struct Mid : public BinarySerializable<Mid> {
    Plain plain;
    as_of_version(3):
    Low low;
    until_version(0):
    Own own;
    until_version(2):
    std::string mid2 = "mid2";
};
struct Base : public BinarySerializable<Base, 3> {
    int base = 5;
    as_of_version(2):
    std::string base2 = "base2";
    as_of_version(3):
    std::vector<std::string> base3;
};
struct Rec : public Base, public BinarySerializable<Rec, 3> {
    std::uint32_t a = 1;
    Plain plain;
    Own own;
    as_of_version(2):
    std::string new2 = "new2";
    std::uint8_t new2b = 22;
    until_version(1):
    std::string old1 = "old1";
    until_version(2):
    std::uint32_t old2 = 2;
    Plain oldPlain;
    as_of_version(3):
    std::map<std::string, int> new3;
    std::uint8_t new3b = 33;
    as_of_version(2):
    until_version(3):
    std::vector<int> mid;
    until_version(0):
    Low low;
    as_of_version(2):
    Mid middle;
};
struct Heir : public Low, public BinarySerializable<Heir, 3> {
    std::string heir = "heir";
    as_of_version(2):
    Low heir2;
};
struct Alone : public BinarySerializable<Alone, 3> {
    as_of_version(3):
    std::uint32_t x3 = 3;
    until_version(2):
    std::string o2 = "o2";
};
struct Win : public BinarySerializable<Win, 3> {
    std::uint16_t w = 1;
    as_of_version(2):
    until_version(2):
    std::string once2 = "once2";
    until_version(3):
    std::uint16_t two3 = 23;
    as_of_version(3):
    std::uint8_t once3 = 33;
    until_version(1):
    std::uint8_t w1 = 11;
    until_version(2):
    std::string w2 = "w2";
    as_of_version(2):
    std::uint8_t again2 = 22;
    Low low2;
};
} // namespace v3

namespace v4 {
using ReflectiveRapidJSON::BinarySerializable;
struct Plain : public BinarySerializable<Plain> {
    std::uint32_t foo = 1;
    as_of_version(2):
    std::uint64_t p2 = 12;
    until_version(1):
    std::uint16_t p1 = 11;
    as_of_version(3):
    std::map<std::string, int> p3;
    as_of_version(4):
    bool p4 = false;
};
struct Own : public BinarySerializable<Own, 4> {
    std::string name = "own";
    as_of_version(2):
    std::uint16_t own2 = 21;
    as_of_version(3):
    std::optional<int> own3;
    as_of_version(4):
    std::string own4 = "own4";
};
struct Low : public BinarySerializable<Low, 2> {
    std::uint16_t low = 6;
    as_of_version(2):
    std::string low2 = "low2";
    until_version(1):
    bool low1 = true;
};
struct Mid : public BinarySerializable<Mid> {
    Plain plain;
    as_of_version(3):
    Low low;
    until_version(0):
    Own own;
    until_version(2):
    std::string mid2 = "mid2";
};
struct Base : public BinarySerializable<Base, 4> {
    int base = 5;
    as_of_version(2):
    std::string base2 = "base2";
    as_of_version(3):
    std::vector<std::string> base3;
    as_of_version(4):
    double base4 = 4.5;
};
struct Rec : public Base, public BinarySerializable<Rec, 4> {
    std::uint32_t a = 1;
    Plain plain;
    Own own;
    as_of_version(2):
    std::string new2 = "new2";
    std::uint8_t new2b = 22;
    until_version(1):
    std::string old1 = "old1";
    until_version(2):
    std::uint32_t old2 = 2;
    Plain oldPlain;
    as_of_version(3):
    std::map<std::string, int> new3;
    std::uint8_t new3b = 33;
    as_of_version(4):
    std::optional<std::string> new4;
    Plain plain4;
    as_of_version(2):
    until_version(3):
    std::vector<int> mid;
    until_version(0):
    Low low;
    as_of_version(2):
    Mid middle;
};
struct Heir : public Low, public BinarySerializable<Heir, 4> {
    std::string heir = "heir";
    as_of_version(2):
    Low heir2;
    as_of_version(4):
    std::vector<int> heir4;
};
struct Alone : public BinarySerializable<Alone, 4> {
    as_of_version(3):
    std::uint32_t x3 = 3;
    until_version(2):
    std::string o2 = "o2";
    as_of_version(4):
    std::vector<int> x4;
};
struct Win : public BinarySerializable<Win, 4> {
    std::uint16_t w = 1;
    as_of_version(2):
    until_version(2):
    std::string once2 = "once2";
    until_version(3):
    std::uint16_t two3 = 23;
    as_of_version(3):
    std::uint8_t once3 = 33;
    as_of_version(4):
    std::string w4 = "w4";
    until_version(1):
    std::uint8_t w1 = 11;
    until_version(2):
    std::string w2 = "w2";
    as_of_version(2):
    std::uint8_t again2 = 22;
    Low low2;
};
} // namespace v4

