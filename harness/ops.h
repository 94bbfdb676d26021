// Type-erased access to the library for every root type of the universe.
#pragma once
#include "bind.h"
#include "core.h"

#include <iosfwd>

namespace ops {
using model::Schema;
using model::Val;
struct Errors; // JsonDeserializationErrors of the library
struct Doc;    // rapidjson document of the library
struct Writer; // BinarySerializer
struct Reader; // BinaryDeserializer

struct ParseFailure {}; // the library threw rapidjson's parse result
struct JsonFatal {      // the library threw a deserialisation error
    model::Err err;
};
struct VersionRefused {
    std::uint64_t present, max;
    std::string record;
};

constexpr std::uint64_t explicitZero = ~std::uint64_t(0);
struct TypeOps {
    const char *name;
    const Schema *schema;
    bool bin, json, record, fakeable;
    bool scalar;    // a number or boolean
    bool lossy;     // has text views, which are not restored
    void *(*create)();
    void (*destroy)(void *);
    void (*assign)(void *, const Val &, bind::AssignCtx &);
    Val (*extract)(const void *, bind::ExtractCtx &);
    // binary; all throw what the library throws
    // version: 0: called without any, explicitZero: 0
    void (*toBinary)(const void *, std::ostream &, std::uint64_t version);
    std::uint64_t (*restore)(void *, std::istream &);
    void *(*fromBinary)(std::istream &);
    void (*write)(Writer &, const void *, std::uint64_t version);
    std::uint64_t (*read)(Reader &, void *);
    std::uint64_t (*readAt)(Reader &, void *, std::uint64_t version);
    // JSON
    void (*toJson)(const void *, std::string &out); // out is filled outside the arena
    Doc *(*toDoc)(const void *);
    void *(*fromJson)(const std::string &, Errors *);
    void (*pull)(void *, const std::string &, Errors *); // parse and pull over an existing object
    void (*pullDoc)(void *, const Doc &, Errors *);
    void (*pushInto)(Doc &array, const void *);        // append to a document that is an array
};
std::vector<TypeOps> &types();
const TypeOps *find(const std::string &name);

Writer *newWriter(std::ostream &);
void freeWriter(Writer *);
Reader *newReader(std::istream &);
void freeReader(Reader *);
Errors *newErrors(std::uint32_t throwOn);
void freeErrors(Errors *);
void clearErrors(Errors *);
void setThrowOn(Errors *, std::uint32_t throwOn);
// reports an error as reflection written by hand does (nothing without errors); returns the error to expect
model::Err reportOwn(Errors *, unsigned what, unsigned present);
std::vector<model::Err> listErrors(const Errors *);
std::vector<std::string> formatErrors(const Errors *);
Doc *newArrayDoc();
Doc *parseDoc(const std::string &);
void freeDoc(Doc *);
// push a text held in memory that is freed afterwards: 0 const char *, 1 std::string_view, 2 std::string, 3 string_view as member "text",
// 4 list without size, 5 fixed array, 6 null pointers
void pushText(Doc &array, unsigned kind, const std::string &text);
Doc *textDoc(unsigned kind, const std::string &text); // a document of such a text alone: 0 const char *, 1 std::string_view, 2 std::string
std::string docText(const Doc &);
// the document as a tree, read through RapidJSON's own accessors
model::J docTree(const Doc &);
// what RapidJSON alone makes of a text
bool parseTree(const std::string &, model::J &, std::string *error = nullptr);

enum Caught { None, StdExc, BadAlloc, Length, IoFailure, Conversion, Version, Parse, Fatal, Other };
const char *caughtName(Caught);
struct Outcome {
    Caught kind = None;
    std::string what;
    VersionRefused version{};
    model::Err fatal{};
    bool ok() const { return kind == None; }
    bool stdDerived() const { return kind == StdExc || kind == BadAlloc || kind == Length || kind == IoFailure || kind == Conversion; }
};
// run a call into the library in the domain of the code under test and classify how it ends
Outcome guarded(const std::function<void()> &);
} // namespace ops
