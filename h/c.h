// common helpers for harnesses
#pragma once
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/dense.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/domain.hpp>
#include <vsip/math.hpp>
#include "vsx.h"
using namespace vsip;
#define ENTRY(n) extern "C" void n()
#define CHECK(c, m) vsx_assert((c) ? 1 : 0, m)
// symbolic length, one path per value
inline length_type len(char const *n, int lo, int hi) { return (length_type)vsx_pick(vsx_int(n, lo, hi)); }
inline long pick(char const *n, long lo, long hi) { return vsx_pick(vsx_int(n, lo, hi)); }
