// Theory solver for identities of rational functions over algebraic / transcendental atoms.
#pragma once
#include "expr.hpp"
enum Ident { I_EQUAL, I_DIFFERENT, I_GAVEUP };
// a == b as rational functions of the inputs (where both are defined)?
Ident polyIdentical(E a, E b);
extern std::function<bool(E)> gPositive; // is the term provably > 0 on the current path
extern u64 gPolyTerms;
