// What the scenarios share.
#pragma once
#include "alloc.h"
#include "io.h"
#include "ops.h"

namespace scn {
using namespace sim;
using model::Graph;
using model::Schema;
using model::Val;
using ops::TypeOps;

struct Obj { // an object of the code under test
    const TypeOps *t = nullptr;
    void *p = nullptr;
    Obj() = default;
    Obj(const TypeOps &t, void *p)
        : t(&t)
        , p(p)
    {
    }
    Obj(Obj &&o) noexcept
        : t(o.t)
        , p(o.p)
    {
        o.p = nullptr;
    }
    Obj &operator=(Obj &&o) noexcept
    {
        std::swap(t, o.t);
        std::swap(p, o.p);
        return *this;
    }
    ~Obj() { reset(); }
    void reset()
    {
        if (p) {
            Sut s;
            t->destroy(p);
            p = nullptr;
        }
    }
};
Obj create(const TypeOps &t);
Obj build(const TypeOps &t, const Graph &g, const std::vector<std::uint64_t> *fakeIds = nullptr);
void assign(Obj &o, const Graph &g);
// let go of the shared objects, breaking cycles
void release(bind::AssignCtx &);
void release(bind::ExtractCtx &);
// the object's value, with identity of shared objects
Graph snapshot(const Obj &o, bind::ExtractCtx *ctx = nullptr);
Val canon(const Obj &o);      // canonical with identity
Val flat(const Obj &o);       // shared objects inline

const TypeOps &pick(const std::function<bool(const TypeOps &)> &filter);
bool isBin(const TypeOps &);
bool isJson(const TypeOps &);
bool isJsonAny(const TypeOps &); // types whose text views are not restored as well
void drawPolicy(alloc::Policy &p, bool extreme = true);
void restart(bool extreme = true); // the process starts again under another memory layout
model::GenOpts drawOpts(bool json);
// the value a reader of the written record holds afterwards (conditional members of versioned records)
Val expectedRead(const TypeOps &t, const Graph &g);
bool versioned(const Schema &s);
const char *describe(std::string &buf, const TypeOps &t, const Graph &g);
void setSample(const std::string &s);
void checkMemory(const char *where); // nothing of the code under test is left
} // namespace scn
