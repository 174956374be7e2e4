// What the half precision CPU kernels of the library use of CUDA's header.
#pragma once
#include <cstdint>
struct __half { _Float16 v; };
static inline float __half2float(__half h) { return float(h.v); }
static inline __half __float2half(float f) { return __half{_Float16(f)}; }
static inline __half __float2half_rn(float f) { return __half{_Float16(f)}; }
