// Types only used to show known findings.
#pragma once
#include "p_base.h"

namespace probes {
using ReflectiveRapidJSON::BinarySerializable;
using ReflectiveRapidJSON::JsonSerializable;

// a base class of another header
struct Derived : public IncludedBase, public JsonSerializable<Derived>, public BinarySerializable<Derived> {
    int own = 2;
};

// versions and containers
struct Plain : public BinarySerializable<Plain> {
    std::uint32_t foo = 1;
    as_of_version(2):
    std::uint64_t p2 = 12;
};
struct Holder : public BinarySerializable<Holder, 3> {
    std::uint32_t foo = 1;
    Plain direct;
    std::vector<Plain> list;
};

// a versioned record with a base which is not versioned
struct PlainBase : public BinarySerializable<PlainBase> {
    std::uint32_t base = 1;
    as_of_version(2):
    std::uint32_t base2 = 12;
};
struct Heir : public PlainBase, public BinarySerializable<Heir, 3> {
    std::uint32_t heir = 1;
};

// pointers of different types to the same address
struct Member : public BinarySerializable<Member> {
    std::uint32_t value = 5;
};
struct Owner : public BinarySerializable<Owner> {
    Member member;
    std::uint32_t more = 6;
};
struct Aliased : public BinarySerializable<Aliased> {
    std::shared_ptr<Owner> owner;
    std::shared_ptr<Member> member;
};

// the context of errors
struct Inner : public JsonSerializable<Inner> {
    int number = 0;
};
struct Outer : public JsonSerializable<Outer> {
    Inner inner;
    int number = 0;
};
} // namespace probes
