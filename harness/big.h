// Given with -include: the library takes this machine for one of the other byte order.
// What the library does in constant evaluation works on values, not on bytes of the memory, so it means the same under
// any byte order; it is what is run here, at run time as well.
#pragma once
#include "big_std.h"
namespace std { constexpr bool milo_verif_as_constant() noexcept { return true; } }
#define native big
#define is_constant_evaluated milo_verif_as_constant
#include <milo/internal.h>
static_assert(milo::internal::endian_big && !milo::internal::endian_little, "the byte order is not what was asked for");
#undef is_constant_evaluated
