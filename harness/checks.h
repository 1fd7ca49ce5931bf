// Helpers shared by the checks.
#pragma once
#include "vp.h"
#include <algorithm>
#include <unistd.h>
extern int stray1, stray2;
#define LIVE() (A.live.size())
// frees a hierarchy and checks that nothing is left behind is the business of C07; here it is only cleanup
inline void drop(IFF_Chunk *c, const RegModel &reg) { if (c) IFF_free(c, reg.lib()); }
NodeP loosen(Ctx &c, const NodeP &t, const RegModel &reg);    // a consistent but possibly non-conforming variation
NodeP gen_any(Ctx &c, const RegModel &reg, const GenOpt &o);  // conforming or loosened
IFF_Chunk *obtain(Ctx &c, Node &t, const RegModel &reg, bool *was_read = nullptr);   // built or read
std::vector<Node *> all_nodes(Node &n);
u32 scope_of(const Node &n);                                   // type of the containing group, 0 for the top
bool has_surplus(Node &n);                                     // extension chunks whose surplus is not all zero, or non-zero pads
void inflate(Ctx &c, Node &t, const RegModel &reg, u32 size = 0, bool last = false);   // makes one chunk very large, or as large as given; the last one of the stream if asked for
void stretch(Ctx &c, NodeP &t, const RegModel &reg, int n, int kind = 0);   // gives one group n more members (shared properties if kind is H_PROP)
bool differ(Rng &r, const RegModel &reg, NodeP &t, std::string &what);   // makes exactly one difference; false if it could not
bool poke(Rng &r, const RegModel &reg, Node &t, std::string &what, std::function<void()> &undo, bool sizes = false);   // changes model and library hierarchy in place (no allocation, no resize)
void widen(Rng &r, Node &t, const RegModel &reg);                // gives one group many sub chunks of one kind
void set_ids(Node &n, const RegModel &reg, u32 formType);      // re-resolves handlers after changes (leaves are reinterpreted)
struct Snap { std::vector<u64> w; bool operator==(const Snap &o) const { return w == o.w; } };
Snap snapshot(const IFF_Chunk *c, u32 formType, const RegModel &reg);   // everything incl. addresses
