// Damage to JSON: of the tree (still JSON) and of the text (maybe not JSON any more).
#pragma once
#include "scn.h"

namespace jmut {
using model::J;
unsigned damageTree(J &root, unsigned n);         // returns the number of changes made
unsigned damageText(std::string &text, unsigned n);
// n(one), some or many
unsigned drawCount();
std::string render(const J &);                    // text with random white space and escapes
} // namespace jmut
