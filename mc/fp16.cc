// The library's own half precision CPU kernels, which its build leaves out for
// want of CUDA's header, compiled against a stand-in for that header.
#include "kernel/fp32_to_fp16/cpu.cc"
#include "kernel/fp16_to_fp32/cpu.cc"
void mc_to_half(long n, const float *s, void *d)
{ nntile::kernel::fp32_to_fp16::cpu(n, s, reinterpret_cast<nntile::fp16_t *>(d)); }
void mc_from_half(long n, const void *s, float *d)
{ nntile::kernel::fp16_to_fp32::cpu(n, reinterpret_cast<const nntile::fp16_t *>(s), d); }
