// Reference model: schemas, values, value generation, an independent implementation of the binary
// format, of the JSON mapping and of its error reporting. Knows nothing about the library's code.
#pragma once
#include "core.h"

#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

namespace model {

enum class K : std::uint8_t {
    Unit,   // std::monostate
    Bool,
    Int,    // fixed width integer, size/isSigned
    F32,
    F64,
    Str,
    Enum,   // size/isSigned describe the underlying type
    Seq,    // vector, list, deque
    Set,    // set-like (unordered / multi flags)
    Map,    // map-like (unordered / multi flags)
    Pair,
    Tuple,
    Opt,    // std::optional, std::unique_ptr
    Shared, // std::shared_ptr
    Var,    // std::variant
    Date,
    Span,
    Struct,
};

struct Val {
    std::uint64_t u = 0; // scalar bits, "engaged" flag of Opt, identity of Shared (0: null), index of Var
    std::string s;       // Str
    std::vector<Val> k;  // children
};

struct Schema;
struct Field {
    const char *name;
    const Schema *type;
    std::uint64_t asOf = 0, until = 0; // version condition, 0: none
    bool binary = true;                // covered by the binary (de)serialiser
    bool push = true, pull = true;     // covered by JSON push / pull
    bool binaryRead = true;            // const members are written? no: neither; kept for clarity
};
struct Schema {
    K kind = K::Unit;
    unsigned size = 0;
    unsigned mem = 0;                    // bytes an object takes
    bool isSigned = false;
    bool unordered = false, multi = false;
    bool owning = false;                 // Opt: unique_ptr
    bool view = false;                   // Opt: text somebody else owns (null or text), checked but not stored when restored
    const char *name = "";               // Struct: qualified name as reported
    std::vector<const Schema *> elems;   // element types / alternatives / pair, map: key+value
    std::vector<const Schema *> bases;   // Struct
    std::vector<Field> fields;           // Struct
    std::uint64_t version = 0;           // Struct: own version, 0: not versioned
    bool versionedBase = false;          // Struct: carries a version prefix
    bool hanaRecord = false;             // Struct: record name not tracked in errors (no generated code)
    Val def;                             // value of a default-constructed object
    bool binary = true, json = true;     // usable with that format
    bool hasShared = false, hasUnordered = false, hasFloat = false, recursive = false;
    std::string desc;
};

// --- generation ---------------------------------------------------------------------------------
struct GenOpts {
    unsigned budget = 40;     // rough number of nodes
    bool json = false;        // only values JSON can express (finite numbers)
    bool longSizes = false;   // lengths around the borders of the variable length encoding
    unsigned sharedPool = 0;  // reuse probability (percent) for shared objects
    bool cycles = false;
    bool anyEnum = false;
    bool bulk = false;        // one very large text or container
    unsigned deep = 0;        // links of one long chain of nested records
};
struct Graph { // a value with the contents of shared objects kept apart
    Val root;
    std::vector<Val> pool;                // content of shared object id-1
    std::vector<const Schema *> poolType;
};
Graph generate(const Schema &s, const GenOpts &o);
// Generate one more root sharing the given pool (several objects of one session)
Val generateInto(Graph &g, const Schema &s, const GenOpts &o);
Val defaultOf(const Schema &s);

// Renumber the shared objects a value refers to
void shiftIds(const Schema &s, Val &v, std::uint64_t by);
struct Joint { // several values seen as one, so that identity is compared across them
    Schema schema;
    Graph g;
    Joint();
    void add(const Schema &s, Val v);              // v refers to the pool of g
    std::uint64_t addPool(const Graph &other);     // returns what ids of other are shifted by
};

// --- canonical form: shared content inline at its first occurrence, sets sorted, ids renumbered ---
struct Canon {
    std::vector<std::uint64_t> ids; // original id by canonical id - 1
};
Val canonical(const Schema &s, const Graph &g, Canon *c = nullptr);
// like canonical() but without identity: every shared object inline at every occurrence
Val unshared(const Schema &s, const Graph &g);
std::string show(const Schema &s, const Val &v, std::size_t max = 400);
std::string showGraph(const Schema &s, const Graph &g, std::size_t max = 400);
bool equal(const Schema &s, const Val &a, const Val &b);
// where two canonical values differ (for messages)
std::string diff(const Schema &s, const Val &a, const Val &b, const std::string &path = "");
std::uint64_t hashVal(const Val &v, std::uint64_t h = 1469598103934665603ull);

// --- binary format ------------------------------------------------------------------------------
void putVar(std::string &out, std::uint64_t v);
struct EncodeOpts {
    std::uint64_t version = 0;          // version asked for by the caller (0: default)
    std::vector<std::uint64_t> *ids = nullptr; // wire id of each pool object (default: 0x1000 + 16*n)
    std::vector<bool> *written = nullptr;      // session state over several writes, by pool index
};
// independent encoder
std::string encode(const Schema &s, const Graph &g, const Val &v, const EncodeOpts &o = {});
struct DecodeResult {
    enum Status { Ok, Short, Error, TooBig } status = Ok;
    std::string error;         // description of the refusal
    bool undefined = false;    // the format does not say what these bytes mean
    std::size_t consumed = 0;
    std::uint64_t presentVersion = 0, maxVersion = 0; // of a refused version
    std::string record;
    std::uint64_t usedVersion = 0;
    bool versionRefused = false;
    bool cycle = false;         // an object refers to one it is part of
    Val value;                 // what a reader holds (also partially, on failure)
    Graph graph;
    std::uint64_t elements = 0; // elements decoded
    std::uint64_t memory = 0;   // bytes a reader may need to hold what is announced (estimated from above)
};
struct DecodeSession {
    std::vector<std::uint64_t> ids;  // wire id per pool entry
    std::unordered_map<std::uint64_t, std::size_t> live; // the entry an id refers to
};
struct DecodeOpts {
    bool strict = false;          // refuse encodings a correct writer does not produce
    std::uint64_t version = 0;
    std::uint64_t maxElements = 1u << 20;
    const Val *initial = nullptr; // value of the target before (canonical w/o shared); default-constructed otherwise
};
// independent decoder; session state in g (pool) and sess
DecodeResult decode(const Schema &s, const std::string &bytes, std::size_t offset, Graph &g, DecodeSession &sess, const DecodeOpts &o = {});

// --- JSON ---------------------------------------------------------------------------------------
struct J {
    enum T { Null, False, True, Num, Str, Arr, Obj } t = Null;
    // numbers: exactly one of these describes it
    enum N { I, U, D } n = I;
    std::int64_t i = 0;
    std::uint64_t u = 0;
    double d = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
    bool operator==(const J &) const;
    bool operator!=(const J &r) const { return !(*this == r); }
};
std::string jtext(const J &);
bool jparse(const std::string &text, J &out); // strict RFC 8259 parser
J toJ(const Schema &s, const Graph &g, const Val &v);
// compare a JSON document with the expected one, order of members/sets irrelevant where not defined
bool jmatch(const Schema &s, const J &expected, const J &actual);

struct Err {
    unsigned kind, expected, actual; // as JsonDeserializationErrorKind / JsonType
    std::string record, member;
    bool hasRecord = false, hasMember = false;
    std::uint64_t index = ~0ull;
    bool operator==(const Err &o) const
    {
        return kind == o.kind && expected == o.expected && actual == o.actual && hasRecord == o.hasRecord && record == o.record
            && hasMember == o.hasMember && member == o.member && index == o.index;
    }
};
std::string showErr(const Err &);
enum ErrKind : unsigned { TypeMismatch, ArraySizeMismatch, ConversionError, UnexpectedDuplicate, InvalidVariantObject, InvalidVariantIndex };
enum JType : unsigned { JNull, JNumber, JBool, JString, JArray, JObject };
JType jtype(const J &);

struct PullCtx {
    std::string record = "[document]", member;
    bool hasRecord = true, hasMember = false;
    std::uint64_t index = ~0ull;
    std::vector<Err> errors;
    std::uint32_t throwOn = 0; // bit per ErrKind
    bool haveErrors = true;
};
struct Fatal {
    Err err;
};
// reference restore of a JSON value into target (throws Fatal when a fatal error is recorded)
void pull(const Schema &s, const J &j, Val &target, PullCtx &c);
std::string formatErr(const Err &); // as the library words it

// text forms of the date types (trusted: the C++ utilities library)
std::string dateToText(std::int64_t ticks);
std::string spanToText(std::int64_t ticks);
bool dateFromText(const std::string &, std::int64_t &ticks);
bool spanFromText(const std::string &, std::int64_t &ticks);

} // namespace model
