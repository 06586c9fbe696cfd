// Entry points through which the analysis looks at the library.  Nothing here is ever run: the functions give the
// analysis a typed way to name each public operation, and (for templates) the instantiations to analyse.
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>
#define VF extern "C" __attribute__((used))
