// Access monitor: a replacement for the ThreadSanitizer runtime. Kernels and
// codelets of /repo are compiled with -fsanitize=thread, so every load and
// store of theirs arrives here; each is judged against the buffers the running
// task declared (mc_set_monitor in mcstarpu.cc calls mon_begin/mon_end around
// every codelet execution).
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <vector>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <algorithm>
#include <dlfcn.h>
#include <link.h>
#include <starpu.h>

#define API extern "C" __attribute__((visibility("default")))
typedef uintptr_t A;
extern "C" void *__real_memset(void *, int, size_t);

namespace {
struct Op { A lo, hi; int mode; std::vector<uint8_t> wr; bool all; };
struct Seg { A lo, hi; bool w; };
std::vector<Seg> g_segs;
std::unordered_set<A> *g_subw;          // granules written by submission code since enabling
std::set<std::string> *g_names;
std::map<A, size_t> *g_heap;            // memory allocated by the running task
std::vector<Op> g_op;
int g_nop = 0;
A g_arg = 0, g_arg_hi = 0, g_x[2], g_xhi[2], g_top = 0;
bool g_on = false, g_enabled = false, g_busy = false;
int g_guard = 0;
char g_msg[400];
unsigned long g_naccess = 0, g_ntask = 0;

void bad(const char *what, A a, size_t n, int op)
{
    if(g_msg[0]) return;
    long off = op >= 0 ? (long)(a - g_op[op].lo) : 0;
    if(op >= 0) snprintf(g_msg, sizeof g_msg, "%s (operand %d of %zu bytes, offset %ld, %zu bytes)", what, op, (size_t)(g_op[op].hi - g_op[op].lo), off, n);
    else {
        // nearest operand, if the access is close to one
        for(int i = 0; i < g_nop; ++i) {
            if(a + n > g_op[i].lo - 4096 && a < g_op[i].hi + 4096) {
                snprintf(g_msg, sizeof g_msg, "%s (%ld bytes from the start of operand %d of %zu bytes, %zu bytes)", what, (long)(a - g_op[i].lo), i, (size_t)(g_op[i].hi - g_op[i].lo), n);
                return;
            }
        }
        snprintf(g_msg, sizeof g_msg, "%s (%zu bytes)", what, n);
    }
}

inline const Seg *seg(A a) { for(auto &s: g_segs) if(a >= s.lo && a < s.hi) return &s; return nullptr; }

void access(A a, size_t n, bool write)
{
    if(!g_enabled || g_busy || n == 0) return;
    if(!g_on) {
        if(write && !g_guard) {
            const Seg *s = seg(a);
            if(s) { g_busy = true; for(A x = a >> 3; x <= (a + n - 1) >> 3; ++x) g_subw->insert(x); g_busy = false; }
        }
        return;
    }
    g_naccess++;
    for(int i = 0; i < g_nop; ++i) {
        Op &o = g_op[i];
        if(a < o.lo || a >= o.hi) continue;
        if(a + n > o.hi) { bad(write ? "writes past the end of a buffer" : "reads past the end of a buffer", a, n, i); return; }
        bool sc = o.mode & STARPU_SCRATCH;
        if(write) {
            if(!sc && !(o.mode & (STARPU_W | STARPU_REDUX))) bad("writes a buffer declared for reading only", a, n, i);
            if(!o.wr.empty()) __real_memset(&o.wr[a - o.lo], 1, n);
        } else if(!o.wr.empty()) {
            for(size_t k = 0; k < n; ++k) if(!o.wr[a - o.lo + k]) {
                bad(sc ? "reads a scratch buffer before writing it" : "reads a write-only buffer before writing it", a, n, i); break; }
        }
        return;
    }
    A here = (A)__builtin_frame_address(0);
    if(a >= here - 65536 && a < g_top) return;   // own stack
    if(a >= g_arg && a + n <= g_arg_hi) { if(write) bad("writes its own argument block", a, n, -1); return; }
    for(int i = 0; i < 2; ++i) if(a >= g_x[i] && a + n <= g_xhi[i]) { if(write) bad("writes its interface descriptors", a, n, -1); return; }
    if(!g_heap->empty()) {
        auto it = g_heap->upper_bound(a);
        if(it != g_heap->begin()) { --it; if(a >= it->first && a + n <= it->first + it->second) return; }
    }
    if(const Seg *s = seg(a)) {
        if(write) { if(!g_guard) bad("writes a global or static variable", a, n, -1); return; }
        if(s->w) for(A x = a >> 3; x <= (a + n - 1) >> 3; ++x) if(g_subw->count(x)) { bad("reads a variable that submission code changes", a, n, -1); return; }
        return;
    }
    bad(write ? "writes memory that is not its own" : "reads memory that is not its own", a, n, -1);
}

int phdr(struct dl_phdr_info *i, size_t, void *)
{
    if(!strstr(i->dlpi_name, "libnntile")) return 0;
    for(int k = 0; k < i->dlpi_phnum; ++k) if(i->dlpi_phdr[k].p_type == PT_LOAD) {
        A lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
        g_segs.push_back({lo, lo + i->dlpi_phdr[k].p_memsz, (i->dlpi_phdr[k].p_flags & PF_W) != 0});
    }
    return 0;
}
}

API void mon_begin(int n, void **p, size_t *s, int *m, void *arg, size_t argsz, const char *name,
        void *x0, size_t n0, void *x1, size_t n1)
{
    g_busy = true;
    g_nop = 0;
    if((int)g_op.size() < n) g_op.resize(n);
    for(int i = 0; i < n; ++i) {
        Op &o = g_op[g_nop];
        A lo = (A)p[i];
        bool dup = false;
        for(int j = 0; j < g_nop; ++j) if(g_op[j].lo == lo) { g_op[j].mode |= m[i]; dup = true; if(m[i] & STARPU_R) g_op[j].wr.clear(); }
        if(dup) continue;
        o.lo = lo; o.hi = lo + s[i]; o.mode = m[i];
        bool undef = (m[i] & STARPU_SCRATCH) || !(m[i] & (STARPU_R | STARPU_REDUX));
        o.wr.assign(undef ? s[i] : 0, 0);
        ++g_nop;
    }
    g_arg = (A)arg; g_arg_hi = g_arg + (arg ? argsz : 0);
    g_x[0] = (A)x0; g_xhi[0] = g_x[0] + n0; g_x[1] = (A)x1; g_xhi[1] = g_x[1] + n1;
    g_heap->clear(); g_msg[0] = 0; g_guard = 0;
    g_top = (A)__builtin_frame_address(0) + 512;
    if(name && g_names->insert(name).second) {}
    g_ntask++; g_on = true; g_busy = false;
}

API int mon_end(char *buf, int len)
{
    g_on = false;
    if(!g_msg[0] && !g_heap->empty()) snprintf(g_msg, sizeof g_msg, "keeps %zu memory block(s) it allocated", g_heap->size());
    snprintf(buf, len, "%s", g_msg);
    return g_msg[0] != 0;
}

API void mon_enable(int on)
{
    if(!g_subw) {
        g_subw = new std::unordered_set<A>; g_names = new std::set<std::string>; g_heap = new std::map<A, size_t>;
        dl_iterate_phdr(phdr, nullptr);
    }
    typedef void (*set_t)(void *, void *);
    set_t f = (set_t)dlsym(RTLD_DEFAULT, "mc_set_monitor");
    f(on ? (void *)mon_begin : nullptr, on ? (void *)mon_end : nullptr);
    g_enabled = on;
}
API void mon_counts(unsigned long *a) { a[0] = g_naccess; a[1] = g_ntask; a[2] = g_names->size(); a[3] = g_segs.size(); }
API const char *mon_name(int i)
{
    auto it = g_names->begin(); std::advance(it, i); return it->c_str();
}

// ---- entry points the compiler emits -------------------------------------
API void __tsan_init() {}
API void __tsan_func_entry(void *) {}
API void __tsan_func_exit() {}
#define RW(n) \
    API void __tsan_read##n(void *p) { access((A)p, n, false); } \
    API void __tsan_write##n(void *p) { access((A)p, n, true); } \
    API void __tsan_unaligned_read##n(void *p) { access((A)p, n, false); } \
    API void __tsan_unaligned_write##n(void *p) { access((A)p, n, true); } \
    API void __tsan_volatile_read##n(void *p) { access((A)p, n, false); } \
    API void __tsan_volatile_write##n(void *p) { access((A)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_read_range(void *p, size_t n) { access((A)p, n, false); }
API void __tsan_write_range(void *p, size_t n) { access((A)p, n, true); }
API void __tsan_vptr_update(void **p, void *) { access((A)p, 8, true); }
API void __tsan_vptr_read(void **p) { access((A)p, 8, false); }
#define AT(b, T) \
    API T __tsan_atomic##b##_load(const volatile T *p, int) { access((A)p, sizeof(T), false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    API void __tsan_atomic##b##_store(volatile T *p, T v, int) { access((A)p, sizeof(T), true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { access((A)p, sizeof(T), true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { access((A)p, sizeof(T), true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { access((A)p, sizeof(T), true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { access((A)p, sizeof(T), true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { access((A)p, sizeof(T), true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { access((A)p, sizeof(T), true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    API int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { access((A)p, sizeof(T), true); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    API int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { access((A)p, sizeof(T), true); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
API void __tsan_atomic_thread_fence(int) {}
API void __tsan_atomic_signal_fence(int) {}

// ---- calls that leave instrumented code ----------------------------------
#define W(f) __wrap_##f
#define R(f) __real_##f
extern "C" {
void *R(memset)(void *, int, size_t); void *R(memcpy)(void *, const void *, size_t); void *R(memmove)(void *, const void *, size_t);
void *R(malloc)(size_t); void R(free)(void *); void *R(calloc)(size_t, size_t); void *R(realloc)(void *, size_t);
void *R(_Znwm)(size_t); void *R(_Znam)(size_t); void R(_ZdlPv)(void *); void R(_ZdaPv)(void *); void R(_ZdlPvm)(void *, size_t);
int R(__cxa_guard_acquire)(void *); void R(__cxa_guard_release)(void *);
void *W(memset)(void *p, int c, size_t n) { access((A)p, n, true); return R(memset)(p, c, n); }
void *W(memcpy)(void *d, const void *s, size_t n) { access((A)s, n, false); access((A)d, n, true); return R(memcpy)(d, s, n); }
void *W(memmove)(void *d, const void *s, size_t n) { access((A)s, n, false); access((A)d, n, true); return R(memmove)(d, s, n); }
static void *got(void *p, size_t n) { if(g_on && p) { bool b = g_busy; g_busy = true; (*g_heap)[(A)p] = n; g_busy = b; } return p; }
static void lost(void *p) { if(g_on && p) g_heap->erase((A)p); }
void *W(malloc)(size_t n) { return got(R(malloc)(n), n); }
void *W(calloc)(size_t a, size_t b) { return got(R(calloc)(a, b), a * b); }
void *W(realloc)(void *p, size_t n) { lost(p); return got(R(realloc)(p, n), n); }
void W(free)(void *p) { lost(p); R(free)(p); }
void *W(_Znwm)(size_t n) { return got(R(_Znwm)(n), n); }
void *W(_Znam)(size_t n) { return got(R(_Znam)(n), n); }
void W(_ZdlPv)(void *p) { lost(p); R(_ZdlPv)(p); }
void W(_ZdaPv)(void *p) { lost(p); R(_ZdaPv)(p); }
void W(_ZdlPvm)(void *p, size_t n) { lost(p); R(_ZdlPvm)(p, n); }
int W(__cxa_guard_acquire)(void *g) { int r = R(__cxa_guard_acquire)(g); if(r) g_guard++; return r; }
void W(__cxa_guard_release)(void *g) { R(__cxa_guard_release)(g); if(g_guard) g_guard--; }

enum { ColMajor = 102, NoTrans = 111, Trans = 112 };
static void vec(const void *p, long n, long inc, size_t sz, bool w)
{
    if(n <= 0) return;
    if(inc == 1) { access((A)p, n * sz, w); return; }
    A b = (A)p; if(inc < 0) b += (1 - n) * inc * sz;
    for(long i = 0; i < n; ++i) access(b + i * inc * sz, sz, w);
}
static void mat(int order, const void *p, long m, long n, long ld, size_t sz, bool w)
{
    if(order != ColMajor) std::swap(m, n);
    for(long j = 0; j < n; ++j) vec((char *)p + j * ld * sz, m, 1, sz, w);
}
#define GEMM(f, T) \
void R(f)(int, int, int, int, int, int, T, const T *, int, const T *, int, T, T *, int); \
void W(f)(int o, int ta, int tb, int m, int n, int k, T al, const T *a, int lda, const T *b, int ldb, T be, T *c, int ldc) { \
    if(al != 0) { mat(o, a, ta == NoTrans ? m : k, ta == NoTrans ? k : m, lda, sizeof(T), false); \
                  mat(o, b, tb == NoTrans ? k : n, tb == NoTrans ? n : k, ldb, sizeof(T), false); } \
    if(be != 0) mat(o, c, m, n, ldc, sizeof(T), false); \
    mat(o, c, m, n, ldc, sizeof(T), true); \
    R(f)(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
GEMM(cblas_sgemm, float) GEMM(cblas_dgemm, double)
#define VEC1(s, T) \
T R(cblas_##s##nrm2)(int, const T *, int); \
T W(cblas_##s##nrm2)(int n, const T *x, int i) { vec(x, n, i, sizeof(T), false); return R(cblas_##s##nrm2)(n, x, i); } \
T R(cblas_##s##asum)(int, const T *, int); \
T W(cblas_##s##asum)(int n, const T *x, int i) { vec(x, n, i, sizeof(T), false); return R(cblas_##s##asum)(n, x, i); } \
T R(cblas_##s##dot)(int, const T *, int, const T *, int); \
T W(cblas_##s##dot)(int n, const T *x, int i, const T *y, int j) { vec(x, n, i, sizeof(T), false); vec(y, n, j, sizeof(T), false); return R(cblas_##s##dot)(n, x, i, y, j); } \
void R(cblas_##s##scal)(int, T, T *, int); \
void W(cblas_##s##scal)(int n, T a, T *x, int i) { vec(x, n, i, sizeof(T), false); vec(x, n, i, sizeof(T), true); R(cblas_##s##scal)(n, a, x, i); } \
void R(cblas_##s##axpy)(int, T, const T *, int, T *, int); \
void W(cblas_##s##axpy)(int n, T a, const T *x, int i, T *y, int j) { \
    vec(x, n, i, sizeof(T), false); vec(y, n, j, sizeof(T), false); vec(y, n, j, sizeof(T), true); R(cblas_##s##axpy)(n, a, x, i, y, j); } \
void R(cblas_##s##copy)(int, const T *, int, T *, int); \
void W(cblas_##s##copy)(int n, const T *x, int i, T *y, int j) { \
    vec(x, n, i, sizeof(T), false); vec(y, n, j, sizeof(T), true); R(cblas_##s##copy)(n, x, i, y, j); }
VEC1(s, float) VEC1(d, double)
}
