// Stand-ins for the task bodies that exist for CUDA only (TF32 products and
// half precision), so that everything above them (which tiles are multiplied
// by which, with which flags, scalars and access modes, and the branches of
// the layers that use them) can be explored without a CUDA device.  The
// bodies here are plain loops written from the meaning of the task arguments.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <nntile.hh>
#include <nntile/starpu/gemm_ex.hh>
#include <nntile/tile/gemm_ex.hh>
#include <vector>
#include <cmath>

// defined, but not declared by the header
namespace nntile { namespace starpu { namespace flash_maxsumexp { extern Codelet codelet_fp32_fast_tf32; }}}

namespace py = pybind11;
using namespace nntile;

static inline float rd(const float &x) { return x; }
static inline float rd(const _Float16 &x) { return x; }

template<typename A, typename T>
static void gemm_body(void *buffers[], void *cl_args)
{
    auto a = reinterpret_cast<A *>(cl_args);
    auto i = reinterpret_cast<starpu::VariableInterface **>(buffers);
    const T *pa = i[0]->get_ptr<T>(), *pb = i[1]->get_ptr<T>();
    T *pc = i[2]->get_ptr<T>();
    bool ta = a->transA.value == TransOp::Trans, tb = a->transB.value == TransOp::Trans;
    Index M = a->m, N = a->n, K = a->k;
    for(Index b = 0; b < a->batch; ++b, pa += M*K, pb += K*N, pc += M*N)
        for(Index n = 0; n < N; ++n)
            for(Index m = 0; m < M; ++m)
            {
                double s = 0;
                for(Index k = 0; k < K; ++k)
                    s += double(rd(ta ? pa[m*K+k] : pa[k*M+m])) * double(rd(tb ? pb[k*N+n] : pb[n*K+k]));
                s *= a->alpha;
                if(a->beta != 0) s += double(a->beta) * double(rd(pc[n*M+m]));
                pc[n*M+m] = T(float(s));
            }
}

template<typename S, typename D>
static void convert_body(void *buffers[], void *cl_args)
{
    auto i = reinterpret_cast<starpu::VariableInterface **>(buffers);
    const S *s = i[0]->get_ptr<S>(); D *d = i[1]->get_ptr<D>();
    Index n = *reinterpret_cast<Index *>(cl_args);
    for(Index k = 0; k < n; ++k) d[k] = D(float(s[k]));
}

// The library's own kernels of the conversions (fp16.cc), when they compile
__attribute__((weak)) void mc_to_half(long n, const float *s, void *d);
__attribute__((weak)) void mc_from_half(long n, const void *s, float *d);
static void to_half(void *buffers[], void *cl_args)
{
    if(!mc_to_half) return convert_body<float, _Float16>(buffers, cl_args);
    auto i = reinterpret_cast<starpu::VariableInterface **>(buffers);
    mc_to_half(*reinterpret_cast<Index *>(cl_args), i[0]->get_ptr<float>(), i[1]->get_ptr<_Float16>());
}
static void from_half(void *buffers[], void *cl_args)
{
    if(!mc_from_half) return convert_body<_Float16, float>(buffers, cl_args);
    auto i = reinterpret_cast<starpu::VariableInterface **>(buffers);
    mc_from_half(*reinterpret_cast<Index *>(cl_args), i[0]->get_ptr<_Float16>(), i[1]->get_ptr<float>());
}

struct Saved { starpu_codelet *c; starpu_cpu_func_t f; uint32_t w; };
static std::vector<Saved> saved;
static void put(starpu_codelet *c, starpu_cpu_func_t f)
{
    if(c->cpu_funcs[0] != nullptr) return; // the library has a body of its own
    saved.push_back({c, c->cpu_funcs[0], c->where});
    c->cpu_funcs[0] = f; c->where = STARPU_CPU;
}

PYBIND11_MODULE(mcstandin, m)
{
    m.def("on", []() {
            TransOp nt(TransOp::NoTrans), t(TransOp::Trans);
            for(auto a: {nt, t}) for(auto b: {nt, t})
            {
                put(starpu::gemm_ex::codelet<fp32_t>(a, b), &gemm_body<starpu::gemm_ex::args_t<fp32_t>, float>);
                put(starpu::gemm::codelet<fp16_t>(a, b), &gemm_body<starpu::gemm::args_t<fp32_t>, _Float16>);
            }
            put(&starpu::fp32_to_fp16::codelet, &to_half);
            put(&starpu::fp16_to_fp32::codelet, &from_half);
#define FL(x) put(&starpu::x::codelet_fp32_fast_tf32, starpu::x::codelet_fp32.cpu_funcs[0]);
            FL(flash_maxsumexp) FL(flash_softmax_gemm)
            FL(flash_softmax_gemm_backward_dq_dk) FL(flash_softmax_gemm_backward_sumprod_slice)
        });
    m.def("off", []() {
            for(auto &s: saved) { s.c->cpu_funcs[0] = s.f; s.c->where = s.w; }
            saved.clear(); });
    m.attr("kernels") = mc_to_half && mc_from_half;
    m.def("gemm_ex_async_fp32", &tile::gemm_ex_async<fp32_t>);
    m.def("gemm_ex_fp32", &tile::gemm_ex<fp32_t>);
}
