// Access to the codelets of the real library for the placement check (C21):
// reads where each codelet may run, gives codelets implementations for a second
// kind of worker (the CPU function stands in for it) through the library's own
// Codelet::init, and calls the library's global restrict and restore.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <nntile/starpu.hh>
#include <cstring>
#include <memory>

namespace py = pybind11;
using nntile::starpu::Codelet;

static std::vector<Codelet *> cls;
static std::vector<std::vector<char>> saved;

static void fake(void **, void *) noexcept {}

static void init_kind(Codelet *c, const char *name, uint32_t (*fp)(starpu_task *), starpu_cpu_func_t f, int kind)
{
    starpu_cuda_func_t g = f;
    if(kind == 0) c->init(name, fp, {f}, {});
    else if(kind == 1) c->init(name, fp, {f}, {g});
    else c->init(name, fp, {}, {g});
}

PYBIND11_MODULE(mcwhere, m)
{
    m.attr("CPU") = (uint32_t)STARPU_CPU;
    m.attr("CUDA") = (uint32_t)STARPU_CUDA;
    m.def("set", [](const std::vector<std::uintptr_t> &a) {
        cls.clear(); saved.clear();
        for(auto x: a) {
            auto c = reinterpret_cast<Codelet *>(x);
            cls.push_back(c);
            saved.emplace_back((char *)c, (char *)c + sizeof(Codelet));
        }
    });
    m.def("snap", []() {
        std::vector<uint32_t> w(cls.size());
        for(size_t i = 0; i < w.size(); ++i) w[i] = cls[i]->where;
        return py::bytes((const char *)w.data(), 4 * w.size());
    });
    m.def("initialized", [](int i) { return (bool)((Codelet *)saved[i].data())->cpu_funcs[0]; });
    // 0 CPU only, 1 both kinds, 2 the other kind only
    m.def("kind", [](int i, int kind) {
        Codelet *c = cls[i], *o = (Codelet *)saved[i].data();
        starpu_cpu_func_t f = o->cpu_funcs[0] ? o->cpu_funcs[0] : fake;
        new(c) Codelet();
        init_kind(c, o->starpu_codelet::name, o->footprint, f, kind);
    });
    m.def("original", []() {
        for(size_t i = 0; i < cls.size(); ++i) std::memcpy((void *)cls[i], saved[i].data(), sizeof(Codelet));
    });
    m.def("restrict_where", [](uint32_t w) { nntile::starpu::restrict_where(w); });
    m.def("restore_where", []() { nntile::starpu::restore_where(); });
    m.def("call", [](std::uintptr_t f) { reinterpret_cast<void (*)()>(f)(); });
    m.def("call_u32", [](std::uintptr_t f, uint32_t w) { reinterpret_cast<void (*)(uint32_t)>(f)(w); });
    py::class_<Codelet, std::unique_ptr<Codelet>>(m, "Codelet").
        def(py::init([]() { auto c = std::make_unique<Codelet>(); return c; })).
        // implementations: 1 present, 0 absent
        def("init", [](Codelet &c, const std::vector<int> &a, const std::vector<int> &b) {
            auto F = [](const std::vector<int> &v, size_t i) { return v[i] ? fake : nullptr; };
            // initializer lists have fixed lengths
            #define CU(...) do { switch(b.size()) { \
                case 0: c.init("x", nullptr, {__VA_ARGS__}, {}); break; \
                case 1: c.init("x", nullptr, {__VA_ARGS__}, {F(b, 0)}); break; \
                case 2: c.init("x", nullptr, {__VA_ARGS__}, {F(b, 0), F(b, 1)}); break; } } while(0)
            switch(a.size()) {
                case 0: CU(); break;
                case 1: CU(F(a, 0)); break;
                case 2: CU(F(a, 0), F(a, 1)); break;
            }
        }).
        def("restrict_where", [](Codelet &c, uint32_t w) { c.restrict_where(w); }).
        def("restore_where", [](Codelet &c) { c.restore_where(); }).
        def_property_readonly("where", [](const Codelet &c) { return (uint32_t)c.where; }).
        def_property_readonly("funcs", [](const Codelet &c) {
            std::vector<int> r; for(int i = 0; i < STARPU_MAXIMPLEMENTATIONS; ++i) {
                r.push_back(c.cpu_funcs[i] != nullptr); r.push_back(c.cuda_funcs[i] != nullptr); } return r; });
}
