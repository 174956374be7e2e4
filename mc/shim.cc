// Python bindings of the C++ tile-level operations (nntile::tile::*), which
// the repository's own Python extension does not export, plus C++-only tensor
// level facilities.  Used by the checks to drive that layer directly.
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include <nntile.hh>
#include <cstring>
#include <memory>
#include <iostream>
#include <sstream>

namespace py = pybind11;
using namespace nntile;

template<typename T>
void bind(py::module_ &m, const std::string &s)
{
    using namespace nntile::tile;
    using TL = const Tile<T> &;
#define BOTH(op) \
    m.def((#op "_async_" + s).c_str(), &op##_async<T>); \
    m.def((#op "_" + s).c_str(), &op<T>);
    BOTH(adam_step) BOTH(adamw_step) BOTH(add) BOTH(add_fiber) BOTH(add_scalar)
    BOTH(add_slice) BOTH(add_slice3) BOTH(addcdiv) BOTH(clear) BOTH(copy)
    BOTH(copy_intersection) BOTH(dgelu) BOTH(dgelutanh) BOTH(drelu) BOTH(fill)
    BOTH(gelu) BOTH(gelu_backward) BOTH(gelutanh) BOTH(gelutanh_backward)
    BOTH(gelutanh_inplace) BOTH(hypot) BOTH(logsumexp) BOTH(mask_scalar)
    BOTH(maximum) BOTH(maxsumexp) BOTH(norm_slice) BOTH(normalize) BOTH(nrm2)
    BOTH(pow) BOTH(prod) BOTH(prod_fiber) BOTH(prod_fiber3) BOTH(prod_slice)
    BOTH(randn) BOTH(relu) BOTH(relu_backward) BOTH(relu_forward) BOTH(scal)
    BOTH(scal_inplace) BOTH(softmax) BOTH(softmax_inplace) BOTH(sqrt)
    BOTH(sqrt_inplace) BOTH(subtract_indexed_outputs) BOTH(sum_fiber)
    BOTH(sum_slice) BOTH(sumnorm) BOTH(sumprod_fiber) BOTH(sumprod_slice)
    BOTH(total_sum_accum)
#undef BOTH
    m.def(("axpy_async_" + s).c_str(), [](T a, TL x, TL y) { axpy_async<T>(a, x, y); });
    m.def(("axpy_" + s).c_str(), [](T a, TL x, TL y) { axpy<T>(a, x, y); });
    m.def(("axpy_tensor_async_" + s).c_str(), [](TL a, TL x, TL y) { axpy_async<T>(a, x, y); });
    m.def(("axpy_tensor_" + s).c_str(), [](TL a, TL x, TL y) { axpy<T>(a, x, y); });
    m.def(("gemm_async_" + s).c_str(), &gemm_async<T, T>);
    m.def(("gemm_" + s).c_str(), &gemm<T, T>);
}

template<typename T>
void bind_tile(py::module_ &m, const char *name)
{
    using namespace nntile::tile;
    py::class_<Tile<T>, TileTraits>(m, name, py::multiple_inheritance()).
        def(py::init<const TileTraits &>()).
        def("unregister", [](const Tile<T> &t) { const_cast<Tile<T> &>(t).unregister(); }).
        def("from_array", [](const Tile<T> &t, const py::array_t<T, py::array::f_style | py::array::forcecast> &a) {
                auto l = t.acquire(STARPU_W);
                std::memcpy((void *)l.get_ptr(), a.data(), t.nelems*sizeof(T));
                l.release(); }).
        def("to_array", [](const Tile<T> &t, py::array_t<T, py::array::f_style> &a) {
                auto l = t.acquire(STARPU_R);
                std::memcpy((void *)a.mutable_data(), l.get_ptr(), t.nelems*sizeof(T));
                l.release(); });
}

// Data held by the application between acquire and release
template<typename T>
struct Hold
{
    std::unique_ptr<tile::TileLocalData<T>> l;
    Index n;
    Hold(const tile::Tile<T> &t, const std::string &mode):
        l(new tile::TileLocalData<T>(t, mode == "R" ? STARPU_R : mode == "W" ? STARPU_W : STARPU_RW)), n(t.nelems) {}
    const T *data() const { return l->get_ptr(); }
};

template<typename T>
void bind_hold(py::module_ &m, const char *name)
{
    py::class_<Hold<T>>(m, name).
        def(py::init<const tile::Tile<T> &, const std::string &>()).
        def("get", [](const Hold<T> &h) { auto p = h.l->get_ptr(); std::vector<double> v; for(Index i = 0; i < h.n; ++i) v.push_back(p[i]); return v; }).
        def("put", [](const Hold<T> &h, const std::vector<double> &v) {
                T *p = const_cast<T *>((const T *)h.l->get_ptr()); for(Index i = 0; i < h.n; ++i) p[i] = v[i]; }).
        def("release", [](Hold<T> &h) { h.l->release(); }).
        def("acquire", [](Hold<T> &h, const std::string &mode) { h.l->acquire(mode == "R" ? STARPU_R : mode == "W" ? STARPU_W : STARPU_RW); }).
        def("drop", [](Hold<T> &h) { h.l.reset(); });
    // a tile over memory of the caller
    m.def((std::string("user_") + name).c_str(), [](const tile::TileTraits &t, std::uintptr_t p, Index n)
            { return tile::Tile<T>(t, reinterpret_cast<T *>(p), n); });
}

template<typename T>
void bind_basic(py::module_ &m, const std::string &s)
{
    using namespace nntile::tile;
    m.def(("copy_async_" + s).c_str(), &copy_async<T>);
    m.def(("copy_" + s).c_str(), &copy<T>);
    m.def(("copy_intersection_async_" + s).c_str(), &copy_intersection_async<T>);
    m.def(("copy_intersection_" + s).c_str(), &copy_intersection<T>);
}

// Index arithmetic that the repository's extension does not export
template<typename T>
void bind_get_tile(py::module_ &m, const char *name)
{
    using tensor::Tensor;
    m.def(name, [](const Tensor<T> &t, const std::vector<Index> &i)
            { return t.get_tile(i).shape; });
    m.def(name, [](const Tensor<T> &t, Index i)
            { return t.get_tile(i).shape; });
    m.def("tile_addr", [](const Tensor<T> &t, const std::vector<Index> &i)
            { return reinterpret_cast<std::uintptr_t>(t.get_tile(i).handle.get()); });
    m.def("tile_addr", [](const Tensor<T> &t, Index i)
            { return reinterpret_cast<std::uintptr_t>(t.get_tile(i).handle.get()); });
    m.def("tile_traits", [](const Tensor<T> &t, Index i)
            { return tile::TileTraits(t.get_tile_traits(i)); });
    m.def("tile_traits", [](const Tensor<T> &t, const std::vector<Index> &i)
            { return tile::TileTraits(t.get_tile_traits(i)); });
}

void bind_index(py::module_ &m)
{
    m.def("matrix_shape", [](const tile::TileTraits &t) { return t.matrix_shape; });
    m.def("contains_index", [](const tile::TileTraits &t, const std::vector<Index> &i)
            { return t.contains_index(i); });
    m.def("leftover_shape", [](const tensor::TensorTraits &t) { return t.leftover_shape; });
    bind_get_tile<fp32_t>(m, "get_tile_shape");
    bind_get_tile<fp64_t>(m, "get_tile_shape");
    bind_get_tile<Index>(m, "get_tile_shape");
    bind_get_tile<bool_t>(m, "get_tile_shape");
}

PYBIND11_MODULE(mcshim, m)
{
    auto ix = m.def_submodule("index");
    bind_index(ix);
    auto t = m.def_submodule("tile");
    bind_tile<Index>(t, "Tile_int64");
    bind_tile<bool_t>(t, "Tile_bool");
    bind<fp32_t>(t, "fp32");
    bind<fp64_t>(t, "fp64");
    bind_basic<Index>(t, "int64");
    bind_hold<fp32_t>(t, "Hold_fp32");
    bind_hold<fp64_t>(t, "Hold_fp64");
    t.def("print_scalar", [](const tensor::Tensor<fp32_t> &x) { x.print_scalar_async(); });
    t.def("print_scalar", [](const tensor::Tensor<fp64_t> &x) { x.print_scalar_async(); });
    t.def("invalidate", [](const tensor::Tensor<fp32_t> &x) { x.invalidate_submit(); });
    t.def("invalidate", [](const tensor::Tensor<fp64_t> &x) { x.invalidate_submit(); });
    // output of the library while the capture is on
    static std::ostringstream cap; static std::streambuf *oc = nullptr, *oe = nullptr;
    t.def("capture", [](bool on) {
            if(on && !oc) { cap.str(""); oc = std::cout.rdbuf(cap.rdbuf()); oe = std::cerr.rdbuf(nullptr); }
            if(!on && oc) { std::cout.rdbuf(oc); std::cerr.rdbuf(oe); std::cerr.clear(); oc = nullptr; }
            return cap.str(); });
}
