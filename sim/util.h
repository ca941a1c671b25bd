// The helpers of libcwd and what they must answer.
#pragma once
#include "case.h"
#include "rt.h"
#include "world.h"

namespace util {
constexpr int NTYPE = 22;
app::Op generate(Rng& r);
bool mine(app::Op const& op);
// Damages a name; the result is not longer than it (and padded with zeroes to that length if fixed).
std::string garble(std::string s, bool fixed, Rng& r);
void check(app::Op const& op, std::string const& text);
}
