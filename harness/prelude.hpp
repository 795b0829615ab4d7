// Bounds-checked standard containers for the code under test.  One precondition is left out: embedding_problem_base
// default-constructs its distribution with the bounds (0, int(0xffffffff)), which is never used without parameters.
#pragma once
#include <bits/c++config.h>
#pragma push_macro("__glibcxx_assert")
#undef __glibcxx_assert
#define __glibcxx_assert(x) do {} while (0)
#include <bits/uniform_int_dist.h>
#pragma pop_macro("__glibcxx_assert")
