// mcstarpu: an explicit-state model of the StarPU runtime contract that NNTile
// programs are written against.  It implements the subset of the StarPU C API
// used by NNTile (same soname as the real library, so libnntile.so and the
// Python extension built from /repo run unmodified on either of them) and
// executes the REAL task bodies (codelet->cpu_funcs) of /repo.
//
// Semantics implemented (StarPU handbook, sequential data consistency):
//  * every handle orders its accesses by submission: R accesses share, W/RW are
//    exclusive, RW|COMMUTE accesses of one batch may run in any order, REDUX
//    accesses of one batch run on per-worker replicates which are initialised
//    by init_cl and merged by redux_cl in an arbitrary tree order before the
//    next non-REDUX access;
//  * W and SCRATCH accesses get a buffer of unspecified (poisoned) content;
//  * anything else may run in any order: all those orders are enumerated.
//
// Modes: EAGER (run at submission), LAZY (run as little as possible, as late
// as possible, by a policy), EXPLORE (at every synchronisation point enumerate
// every state (executed set, memory content) reachable by any legal order,
// worker placement and reduction tree).
#include <starpu.h>
#undef starpu_task_submit
#undef starpu_task_build
#undef starpu_task_insert
#undef starpu_task_set
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>

#define API extern "C" __attribute__((visibility("default")))

namespace {

typedef uint64_t u64;
constexpr size_t RZ = 64; // redzone bytes at each side of each buffer
unsigned char g_poison = 0xFF;
unsigned char g_rz = 0xFF;

enum { M_EAGER = 0, M_LAZY = 1, M_EXPLORE = 2 };
enum { P_FIFO = 0, P_LIFO = 1, P_ALT = 2 };
int g_mode = M_EAGER;
int g_policy = P_FIFO;
int g_workers = 2;
int g_lazy_worker_rr = 0;
u64 g_max_states = 200000;
int g_full = 1;     // 1: all linear extensions; 0: reduced by independence
int g_maxdev = -1;  // bound on deviations from FIFO in EXPLORE (-1: none)
int g_merge_style = 0; // LAZY/EAGER: 0 linear into handle, 1 reversed, 2 tree
size_t g_choose = 0;   // EXPLORE: continue from the k-th distinct outcome
size_t g_last_terms = 0;
int g_tol = 0;      // EXPLORE: 1 = do not demand bitwise equal terminals
int g_drain_all = 0;// LAZY: at acquire run everything pending

struct Stats {
    u64 submitted, executed, states, transitions, terminals, explored_points,
        nontrivial_points, capped, max_pending, max_ready, violations, handles,
        live_handles, redux_merges, commute_groups, replicas, max_distinct,
        cpy_tasks, acquires;
} g;
std::vector<std::string> g_viol;
std::vector<std::string> g_log; // names of executed tasks when logging on
int g_logging = 0;
std::vector<int> g_last_sched;

// hook for the access monitor (mon.cc), see mc_set_monitor
typedef void (*mon_begin_t)(int n, void **ptrs, size_t *sizes, int *modes,
        void *args, size_t args_size, const char *name, void *x0, size_t n0, void *x1, size_t n1);
typedef int (*mon_end_t)(char *buf, int buflen);
mon_begin_t g_mon_begin = nullptr;
mon_end_t g_mon_end = nullptr;

void violation(const std::string &s)
{
    g.violations++;
    if(g_viol.size() < 50) g_viol.push_back(s);
}

struct Task;
static int g_sessions = 0;
struct Handle;

struct Buf {
    char *raw = nullptr; size_t size = 0;
    char *p() const { return raw ? raw + RZ : nullptr; }
    void alloc(size_t n) {
        size = n; void *q = nullptr;
        if(posix_memalign(&q, 64, n + 2*RZ)) abort();
        raw = (char *)q;
        memset(raw, g_rz, RZ); memset(raw+RZ+n, g_rz, RZ); memset(raw+RZ, g_poison, n);
    }
    void dealloc() { free(raw); raw = nullptr; }
    bool rz_ok() const {
        for(size_t i = 0; i < RZ; ++i)
            if((unsigned char)raw[i] != g_rz || (unsigned char)raw[RZ+size+i] != g_rz) return false;
        return true;
    }
    void rz_fix() { memset(raw, g_rz, RZ); memset(raw+RZ+size, g_rz, RZ); }
};

struct Handle {
    u64 magic = 0x48414e444c45ULL;
    int id = 0;
    size_t size = 0;
    void *home = nullptr;
    Buf b;
    char *ptr = nullptr;  // current content (home or b.p())
    bool init = false;
    bool dead = false;    // unregistered
    int sess = g_sessions; // session of the runtime that it belongs to
    bool user = false;
    starpu_codelet *redux_cl = nullptr, *init_cl = nullptr;
    // submission-order dependency tracking
    int cur_kind = 0; // 0 none, 1 exclusive, 2 readers, 3 commute, 4 redux
    std::vector<int> cur, prev; // members of current group, previous group
    // replicates
    std::vector<Buf> repl; std::vector<char> rvalid;
    int acquired = 0; int acq_mode = 0;
    u64 hash = 0; bool hdirty = true;
};

struct Task {
    int id = 0; int kind = 0; // 0 codelet 1 cpy 2 merge 3 unregister_submit 4 acquire_cb
    starpu_codelet *cl = nullptr;
    void *arg = nullptr; size_t argsz = 0; bool argfree = false;
    std::vector<Handle *> h; std::vector<int> m;
    std::vector<int> preds;
    void (*cb)(void *) = nullptr; void *cbarg = nullptr;
    bool done = false;
    int where = STARPU_CPU; // kinds of workers the task may run on, fixed at submission
    const char *name() const {
        switch(kind) { case 1: return "data_cpy"; case 2: return "redux_merge";
            case 3: return "unregister_submit"; case 4: return "acquire_cb";
            case 5: return "invalidate_submit"; }
        return cl && cl->name ? cl->name : "?";
    }
};

int g_next_handle = 0, g_next_task = 0;
std::deque<Handle *> g_handles;
std::map<int, Task *> g_pending;       // id -> not yet executed task
std::unordered_map<starpu_task *, Task *> g_built;

Handle *H(starpu_data_handle_t h) { return reinterpret_cast<Handle *>(h); }
Task *pend(int id) { auto it = g_pending.find(id); return it == g_pending.end() ? nullptr : it->second; }

const char *mode_name(int m)
{
    static char buf[64]; buf[0] = 0;
    if((m & STARPU_RW) == STARPU_RW) strcat(buf, "RW");
    else if(m & STARPU_R) strcat(buf, "R");
    else if(m & STARPU_W) strcat(buf, "W");
    if(m & STARPU_SCRATCH) strcat(buf, "SCRATCH");
    if(m & STARPU_REDUX) strcat(buf, "REDUX");
    if(m & STARPU_COMMUTE) strcat(buf, "|C");
    return buf;
}

std::string desc(const Task *t)
{
    std::string s = std::string(t->name()) + "#" + std::to_string(t->id) + "(";
    for(size_t i = 0; i < t->h.size(); ++i) {
        if(i) s += ",";
        s += "h" + std::to_string(t->h[i]->id) + ":" + mode_name(t->m[i]);
    }
    return s + ")";
}

void die(const std::string &s)
{
    violation(s);
    fprintf(stderr, "MC-FATAL %s\n", s.c_str());
    fflush(stderr);
    _exit(77);
}

// ---- dependency tracking at submission --------------------------------
void dep_add(Task *t, const std::vector<int> &v)
{
    for(int i: v) if(i != t->id && pend(i)) t->preds.push_back(i);
}

void prune(Handle *h)
{
    auto f = [](std::vector<int> &v) {
        v.erase(std::remove_if(v.begin(), v.end(), [](int i) { return !pend(i); }), v.end()); };
    f(h->prev);
    if(h->cur.size() > 32) f(h->cur);
}

void submit_merge(Handle *h);

void track(Task *t, Handle *h, int m)
{
    int kind;
    if(m & STARPU_SCRATCH) return; // no consistency for scratch
    if(m & STARPU_REDUX) kind = 4;
    else if((m & STARPU_W) && (m & STARPU_COMMUTE)) kind = 3;
    else if(m & STARPU_W) kind = 1;
    else kind = 2;
    if(h->cur_kind == 4 && kind != 4 && t->kind != 2) submit_merge(h);
    prune(h);
    if(kind == 1 || kind != h->cur_kind) {
        h->prev = h->cur; h->cur.clear(); h->cur_kind = kind;
        if(kind == 3) g.commute_groups++;
    }
    dep_add(t, h->prev);
    h->cur.push_back(t->id);
}

void on_submit(Task *t);

Task *new_task(int kind)
{
    Task *t = new Task; t->id = g_next_task++; t->kind = kind; return t;
}

void enqueue(Task *t)
{
    // combine duplicate handles: OR of the modes decides the ordering
    std::map<Handle *, int> mm;
    for(size_t i = 0; i < t->h.size(); ++i) mm[t->h[i]] |= t->m[i];
    for(size_t i = 0; i < t->h.size(); ++i) {
        Handle *h = t->h[i];
        if(h->magic != 0x48414e444c45ULL) die("task " + std::string(t->name()) + " submitted with an invalid handle");
        if(h->dead) die("task " + desc(t) + " submitted on an unregistered handle");
        if(h->sess != g_sessions) die("task " + desc(t) + " submitted on data of a session of the runtime that has ended");
        auto it = mm.find(h);
        if(it != mm.end()) { int m = it->second; mm.erase(it); track(t, h, m); }
    }
    std::sort(t->preds.begin(), t->preds.end());
    t->preds.erase(std::unique(t->preds.begin(), t->preds.end()), t->preds.end());
    g_pending[t->id] = t;
    g.submitted++;
    if(g_pending.size() > g.max_pending) g.max_pending = g_pending.size();
    on_submit(t);
}

void submit_merge(Handle *h)
{
    Task *t = new_task(2);
    t->h = {h}; t->m = {STARPU_RW};
    enqueue(t);
}

// ---- execution ---------------------------------------------------------
struct VarIface : starpu_variable_interface {};

int codelet_where(starpu_codelet *cl)
{
    if(cl->where) return (int)cl->where;
    return (cl->cpu_funcs[0] ? STARPU_CPU : 0) | (cl->cuda_funcs[0] ? STARPU_CUDA : 0);
}
// submissions seen while the log is on: codelet and where it may run
bool g_where_on = false;
std::vector<std::pair<starpu_codelet *, int>> g_where;
void log_where(starpu_codelet *cl, int where) { if(g_where_on) g_where.emplace_back(cl, where); }
bool runnable(starpu_codelet *cl, int where)
{ return ((where & STARPU_CPU) && cl->cpu_funcs[0]) || ((where & STARPU_CUDA) && cl->cuda_funcs[0]); }

void call_cl(starpu_codelet *cl, const std::vector<char *> &ptr, const std::vector<size_t> &sz,
        const std::vector<int> &modes, void *arg, size_t argsz, int where = -1)
{
    size_t n = ptr.size();
    if(where < 0) { where = codelet_where(cl); log_where(cl, where); }
    std::vector<VarIface> ifs(n);
    std::vector<void *> bufs(n);
    for(size_t i = 0; i < n; ++i) {
        memset(&ifs[i], 0, sizeof ifs[i]);
        ifs[i].id = STARPU_VARIABLE_INTERFACE_ID;
        ifs[i].ptr = (uintptr_t)ptr[i]; ifs[i].dev_handle = (uintptr_t)ptr[i];
        ifs[i].elemsize = sz[i];
        bufs[i] = &ifs[i];
    }
    if(g_mon_begin) {
        std::vector<void *> pp(n); std::vector<size_t> ss(sz); std::vector<int> mm(modes);
        for(size_t i = 0; i < n; ++i) pp[i] = ptr[i];
        g_mon_begin((int)n, pp.data(), ss.data(), mm.data(), arg, argsz, cl->name,
                ifs.data(), n * sizeof(VarIface), bufs.data(), n * sizeof(void *));
    }
    // a task for either kind runs on alternating kinds of workers
    bool cpu = (where & STARPU_CPU) && cl->cpu_funcs[0], cuda = (where & STARPU_CUDA) && cl->cuda_funcs[0];
    static bool alt; if(cpu && cuda) { alt = !alt; cpu = alt; cuda = !alt; }
    if(cpu) cl->cpu_funcs[0](bufs.data(), arg);
    else if(cuda) cl->cuda_funcs[0](bufs.data(), arg);
    else die("codelet without an implementation for where it may run");
    if(g_mon_end) {
        char msg[512]; msg[0] = 0;
        if(g_mon_end(msg, sizeof msg)) violation(std::string("codelet ") + (cl->name ? cl->name : "?") + ": " + msg);
    }
}

// Save everything a task may change so that the search can backtrack.
struct Undo {
    struct E { Handle *h; std::vector<char> data; bool init; std::vector<std::vector<char>> repl; std::vector<char> rvalid; };
    std::vector<E> e;
    void save(Handle *h) {
        for(auto &x: e) if(x.h == h) return;
        E x; x.h = h; x.init = h->init; x.data.assign(h->ptr, h->ptr + h->size);
        for(size_t i = 0; i < h->repl.size(); ++i)
            x.repl.push_back(h->repl[i].raw ? std::vector<char>(h->repl[i].p(), h->repl[i].p()+h->size) : std::vector<char>());
        x.rvalid = h->rvalid;
        e.push_back(std::move(x));
    }
    void restore() {
        for(auto &x: e) {
            memcpy(x.h->ptr, x.data.data(), x.h->size); x.h->init = x.init;
            for(size_t i = 0; i < x.repl.size(); ++i)
                if(!x.repl[i].empty()) memcpy(x.h->repl[i].p(), x.repl[i].data(), x.h->size);
            x.h->rvalid = x.rvalid; x.h->rvalid.resize(x.h->repl.size(), 0); x.h->hdirty = true;
        }
    }
};

void ensure_repl(Handle *h, int w)
{
    if((int)h->repl.size() <= w) { h->repl.resize(w+1); h->rvalid.resize(w+1, 0); }
    if(!h->repl[w].raw) { h->repl[w].alloc(h->size); g.replicas++; }
}

bool g_exploring = false;

// choice: for REDUX accesses the worker; for merges an index of the pair sequence
void exec(Task *t, int worker, const std::vector<std::pair<int,int>> *merge_plan)
{
    g.executed++;
    if(g_logging && g_log.size() < 4000) g_log.push_back(desc(t));
    for(Handle *h: t->h) {
        if(h->dead) die("task " + desc(t) + " runs on an unregistered handle");
        if(h->acquired && !(h->acq_mode == STARPU_R && t->kind == 0)) {
            // the application still holds the data
            bool conflict = false;
            for(size_t i = 0; i < t->h.size(); ++i)
                if(t->h[i] == h && (h->acq_mode != STARPU_R || (t->m[i] & STARPU_W))) conflict = true;
            if(conflict) die("deadlock: task " + desc(t) + " must run while the application holds the data");
        }
    }
    if(t->kind == 1) {
        g.cpy_tasks++;
        Handle *s = t->h[0], *d = t->h[1];
        if(!s->init) violation("copy from uninitialized handle: " + desc(t));
        if(s->size != d->size) violation("starpu_data_cpy of different sizes: " + desc(t));
        memcpy(d->ptr, s->ptr, std::min(s->size, d->size)); d->init = true; d->hdirty = true;
        return;
    }
    if(t->kind == 3 || t->kind == 5) { // unregister_submit, invalidate_submit: content is gone
        Handle *h = t->h[0];
        if(h->b.raw) memset(h->ptr, g_poison, h->size);
        h->init = false; h->hdirty = true;
        return;
    }
    if(t->kind == 4) {
        Handle *h = t->h[0];
        if(!h->init) violation("acquire_cb of uninitialized handle");
        if(!g_exploring) { h->acquired = 1; h->acq_mode = t->m[0]; t->cb(t->cbarg); }
        return;
    }
    if(t->kind == 2) {
        Handle *h = t->h[0];
        std::vector<int> items; // -1 is the handle itself
        if(!h->redux_cl || !h->init_cl) { violation("REDUX access without reduction methods: " + desc(t)); return; }
        if(!h->init) {
            call_cl(h->init_cl, {h->ptr}, {h->size}, {STARPU_W}, nullptr, 0); h->init = true;
        }
        g.redux_merges++;
        auto p = [&](int i) { return i < 0 ? h->ptr : h->repl[i].p(); };
        for(auto &pr: *merge_plan)
            call_cl(h->redux_cl, {p(pr.first), p(pr.second)}, {h->size, h->size},
                    {STARPU_RW, STARPU_R}, nullptr, 0);
        for(size_t i = 0; i < h->repl.size(); ++i) {
            if(h->repl[i].raw) {
                if(!h->repl[i].rz_ok()) { violation("out-of-bounds write next to a reduction replicate"); h->repl[i].rz_fix(); }
                memset(h->repl[i].p(), g_poison, h->size);
            }
            h->rvalid[i] = 0;
        }
        h->hdirty = true;
        return;
    }
    // real codelet
    size_t n = t->h.size();
    std::vector<char *> ptr(n); std::vector<size_t> sz(n);
    std::vector<Buf> scratch; scratch.reserve(n);
    std::vector<std::vector<char>> rcopy(n);
    std::map<Handle *, int> mm;
    for(size_t i = 0; i < n; ++i) mm[t->h[i]] |= t->m[i];
    for(size_t i = 0; i < n; ++i) {
        Handle *h = t->h[i]; int m = mm[h];
        sz[i] = h->size;
        if(m & STARPU_SCRATCH) {
            scratch.emplace_back(); scratch.back().alloc(h->size); ptr[i] = scratch.back().p();
        } else if(m & STARPU_REDUX) {
            if(!h->redux_cl || !h->init_cl) { violation("REDUX access without reduction methods: " + desc(t)); }
            ensure_repl(h, worker);
            if(!h->rvalid[worker]) {
                memset(h->repl[worker].p(), g_poison, h->size);
                if(h->init_cl) call_cl(h->init_cl, {h->repl[worker].p()}, {h->size}, {STARPU_W}, nullptr, 0);
                h->rvalid[worker] = 1;
            }
            ptr[i] = h->repl[worker].p(); h->hdirty = true;
        } else if((m & STARPU_R)) {
            if(!h->init) violation("task reads data that was never written: " + desc(t) + " operand " + std::to_string(i));
            ptr[i] = h->ptr;
            if(m & STARPU_W) h->hdirty = true;
            else rcopy[i].assign(h->ptr, h->ptr + h->size);
        } else { // W
            memset(h->ptr, g_poison, h->size);
            ptr[i] = h->ptr; h->init = true; h->hdirty = true;
        }
    }
    std::vector<int> modes(t->m);
    for(size_t i = 0; i < n; ++i) modes[i] = mm[t->h[i]];
    call_cl(t->cl, ptr, sz, modes, t->arg, t->argsz, t->where);
    for(size_t i = 0; i < n; ++i) {
        Handle *h = t->h[i];
        if(!rcopy[i].empty() && memcmp(rcopy[i].data(), h->ptr, h->size)) {
            violation("task modifies data it declared read-only: " + desc(t) + " operand " + std::to_string(i));
            h->hdirty = true;
        }
        if(h->b.raw && !h->b.rz_ok()) { violation("out-of-bounds write next to operand " + std::to_string(i) + " of " + desc(t)); h->b.rz_fix(); }
    }
    for(auto &r: scratch) { if(!r.rz_ok()) violation("out-of-bounds write next to scratch of " + desc(t)); r.dealloc(); }
    for(Handle *h: t->h) for(auto &r: h->repl) if(r.raw && !r.rz_ok()) { violation("out-of-bounds write next to a replicate by " + desc(t)); r.rz_fix(); }
}

void finalize(Task *t)
{
    t->done = true;
    g_pending.erase(t->id);
    if(t->kind == 3) {
        Handle *h = t->h[0];
        if(!h->dead) { h->dead = true; g.live_handles--; h->b.dealloc(); for(auto &r: h->repl) r.dealloc(); h->repl.clear(); h->rvalid.clear(); h->ptr = nullptr; }
    }
    if(t->argfree) free(t->arg);
    if(t->cb && t->kind == 0) t->cb(t->cbarg);
    delete t;
}

// canonical merge plan for non-exploring modes
std::vector<std::pair<int,int>> default_plan(Handle *h)
{
    std::vector<int> it{-1};
    for(size_t i = 0; i < h->repl.size(); ++i) if(h->rvalid[i]) it.push_back((int)i);
    std::vector<std::pair<int,int>> plan;
    if(g_merge_style == 0) { for(size_t i = 1; i < it.size(); ++i) plan.push_back({it[0], it[i]}); }
    else if(g_merge_style == 1) { for(size_t i = it.size(); i-- > 1;) plan.push_back({it[0], it[i]}); }
    else { for(size_t s = 1; s < it.size(); s *= 2) for(size_t i = 0; i + s < it.size(); i += 2*s) plan.push_back({it[i], it[i+s]}); }
    return plan;
}

void run_one(Task *t)
{
    int w = 0;
    bool redux = false;
    for(int m: t->m) if(m & STARPU_REDUX) redux = true;
    if(redux) w = (g_lazy_worker_rr++) % g_workers;
    std::vector<std::pair<int,int>> plan;
    if(t->kind == 2) plan = default_plan(t->h[0]);
    g.transitions++; g.states++;
    exec(t, w, &plan);
    finalize(t);
}

bool ready(Task *t) { for(int p: t->preds) if(pend(p)) return false; return true; }

// run (by policy) the ancestors-closed set `need` (or everything if null)
void run_set(std::set<int> *need)
{
    int alt = 0;
    while(true) {
        std::vector<Task *> r;
        size_t left = 0;
        for(auto &kv: g_pending) {
            if(need && !need->count(kv.first)) continue;
            left++;
            if(ready(kv.second)) r.push_back(kv.second);
        }
        if(left == 0) break;
        if(r.empty()) die("deadlock: pending tasks but none is ready");
        if(r.size() > g.max_ready) g.max_ready = r.size();
        Task *t = r.front();
        if(g_policy == P_LIFO) t = r.back();
        else if(g_policy == P_ALT) { t = (alt & 1) ? r.back() : r[r.size()/2]; alt++; }
        run_one(t);
    }
}

std::set<int> closure(const std::vector<int> &roots)
{
    std::set<int> s; std::vector<int> st(roots);
    while(!st.empty()) {
        int i = st.back(); st.pop_back();
        Task *t = pend(i);
        if(!t || s.count(i)) continue;
        s.insert(i);
        for(int p: t->preds) st.push_back(p);
    }
    return s;
}

// ---- explicit-state exploration ---------------------------------------
struct Explorer {
    std::vector<Task *> T; std::unordered_map<int,int> idx;
    std::vector<u64> pred; size_t n;
    std::vector<Handle *> hs;
    std::unordered_set<u64> seen; // hash of (mask, contents, deviations)
    std::map<u64, size_t> term; // terminal content hash -> schedule
    struct Step { int i, w; std::vector<std::pair<int,int>> plan; };
    std::vector<Step> path;
    std::vector<std::vector<Step>> order; // terminals in order of discovery
    bool cap = false;
    u64 pts = 0;

    static u64 hash_bytes(const char *p, size_t n, u64 h) {
        for(size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 1099511628211ULL; }
        return h ^ (h >> 29);
    }
    u64 hhash(Handle *h) {
        if(h->hdirty) {
            u64 x = 1469598103934665603ULL + h->id * 7919ULL + h->init;
            if(h->init) x = hash_bytes(h->ptr, h->size, x);
            for(size_t i = 0; i < h->repl.size(); ++i)
                if(h->rvalid[i]) x = hash_bytes(h->repl[i].p(), h->size, x + 31*(i+1));
            h->hash = x; h->hdirty = false;
        }
        return h->hash;
    }
    u64 content() {
        u64 x = 88172645463325252ULL;
        for(Handle *h: hs) { x ^= hhash(h); x *= 0x9E3779B97F4A7C15ULL; x ^= x >> 31; }
        return x;
    }
    // all ways to merge the replicates of a handle
    void plans(std::vector<int> items, std::vector<std::pair<int,int>> &cur,
            std::vector<std::vector<std::pair<int,int>>> &out) {
        if(items.size() == 1) { out.push_back(cur); return; }
        for(size_t i = 0; i < items.size(); ++i)
            for(size_t j = i+1; j < items.size(); ++j) {
                auto r = items; r.erase(r.begin() + j);
                cur.push_back({items[i], items[j]});
                plans(r, cur, out);
                cur.pop_back();
            }
    }
    void step(u64 mask, size_t i, int w, const std::vector<std::pair<int,int>> *plan, int dev) {
        Undo u;
        for(size_t k = 0; k < T[i]->h.size(); ++k) {
            // read-only operands are saved too: a buggy task may write them
            if(T[i]->m[k] & STARPU_REDUX) ensure_repl(T[i]->h[k], w);
            if(!(T[i]->m[k] & STARPU_SCRATCH)) u.save(T[i]->h[k]);
        }
        path.push_back({(int)i, w, plan ? *plan : std::vector<std::pair<int,int>>()});
        g.transitions++;
        exec(T[i], w, plan);
        dfs(mask | (1ULL << i), dev);
        path.pop_back();
        u.restore();
    }
    void choices(u64 mask, size_t i, int dev) {
        Task *t = T[i];
        if(t->kind == 2) {
            Handle *h = t->h[0];
            std::vector<int> items{-1};
            for(size_t k = 0; k < h->repl.size(); ++k) if(h->rvalid[k]) items.push_back((int)k);
            std::vector<std::vector<std::pair<int,int>>> out; std::vector<std::pair<int,int>> cur;
            if(items.size() <= 4) plans(items, cur, out); else out.push_back(default_plan(h));
            for(auto &p: out) step(mask, i, 0, &p, dev);
            return;
        }
        Handle *rh = nullptr;
        for(size_t k = 0; k < t->h.size(); ++k) if(t->m[k] & STARPU_REDUX) rh = t->h[k];
        if(rh) {
            int used = 0;
            for(size_t k = 0; k < rh->rvalid.size(); ++k) if(rh->rvalid[k]) used = (int)k + 1;
            for(int w = 0; w < std::min(g_workers, used + 1); ++w) step(mask, i, w, nullptr, dev);
            return;
        }
        step(mask, i, 0, nullptr, dev);
    }
    void dfs(u64 mask, int dev) {
        if(cap) return;
        u64 c = content();
        u64 key = (c ^ (mask * 0xD6E8FEB86659FD93ULL)) + (u64)(dev + 1) * 0x100000001b3ULL;
        if(!seen.insert(key).second) return;
        g.states++;
        if(seen.size() > g_max_states) { cap = true; g.capped++; return; }
        if(mask == (n == 64 ? ~0ULL : (1ULL << n) - 1)) {
            g.terminals++;
            if(!term.count(c)) { term[c] = order.size(); order.push_back(path); }
            return;
        }
        std::vector<size_t> r;
        for(size_t i = 0; i < n; ++i)
            if(!(mask >> i & 1) && (pred[i] & ~mask) == 0) r.push_back(i);
        if(r.empty()) die("deadlock: pending tasks but none is ready");
        if(r.size() > g.max_ready) g.max_ready = r.size();
        if(!g_full) {
            // Reduction: without COMMUTE, ready tasks are independent (they
            // share no conflicting handle), so one order represents all.
            size_t i = r[0];
            std::vector<size_t> branch{i};
            for(size_t k = 0; k < T[i]->h.size(); ++k)
                if((T[i]->m[k] & STARPU_COMMUTE) && (T[i]->m[k] & STARPU_W))
                    for(size_t j: r) if(j != i)
                        for(size_t q = 0; q < T[j]->h.size(); ++q)
                            if(T[j]->h[q] == T[i]->h[k] && std::find(branch.begin(), branch.end(), j) == branch.end())
                                branch.push_back(j);
            for(size_t b: branch) choices(mask, b, dev);
            return;
        }
        for(size_t k = 0; k < r.size(); ++k) {
            int d2 = dev;
            if(dev >= 0 && k > 0) { if(dev == 0) break; d2 = dev - 1; }
            choices(mask, r[k], d2);
        }
    }
    std::string sched(const std::vector<Step> &p) {
        std::string s;
        for(size_t i = 0; i < p.size() && i < 40; ++i) { if(i) s += " ; "; s += desc(T[p[i].i]); }
        return s;
    }
    void run() {
        // open reductions are closed so that terminal contents are comparable
        std::vector<Handle *> open;
        for(auto &kv: g_pending) for(Handle *h: kv.second->h)
            if(h->cur_kind == 4 && !h->dead && std::find(open.begin(), open.end(), h) == open.end()) open.push_back(h);
        for(Handle *h: open) { submit_merge(h); }
        n = g_pending.size();
        if(n == 0) return;
        g.explored_points++;
        if(n > 60) { // run a prefix by FIFO: reported as capped
            g.capped++;
            while(g_pending.size() > 60) {
                // a merge has a larger number than the task that caused it, so the first one need not be ready
                Task *f = nullptr;
                for(auto &kv: g_pending) if(ready(kv.second)) { f = kv.second; break; }
                if(!f) die("deadlock: pending tasks but none is ready");
                run_one(f);
            }
            n = g_pending.size();
        }
        for(auto &kv: g_pending) { idx[kv.first] = (int)T.size(); T.push_back(kv.second); }
        pred.assign(n, 0);
        std::set<Handle *> hset;
        for(size_t i = 0; i < n; ++i) {
            for(int p: T[i]->preds) if(idx.count(p)) pred[i] |= 1ULL << idx[p];
            for(Handle *h: T[i]->h) hset.insert(h);
        }
        hs.assign(hset.begin(), hset.end());
        std::sort(hs.begin(), hs.end(), [](Handle *a, Handle *b) { return a->id < b->id; });
        for(Handle *h: hs) h->hdirty = true;
        size_t before = seen.size(); (void)before;
        g_exploring = true;
        dfs(0, g_full ? g_maxdev : -1);
        g_exploring = false;
        if(seen.size() > n + 1) g.nontrivial_points++;
        if(term.size() > g.max_distinct) g.max_distinct = term.size();
        if(term.size() > 1 && !g_tol) {
            auto a = term.begin(); auto b = std::next(a);
            violation("results depend on the schedule: [" + sched(order[a->second]) + "] and [" + sched(order[b->second]) + "] end in different memory contents");
        }
        // finish on the canonical order and check that it is one of the explored outcomes
        g_last_sched.clear();
        if(!cap && order.size() > g_last_terms) g_last_terms = order.size();
        if(g_choose > 0 && !cap && order.size() > 1) {
            // continue the program from the chosen outcome instead
            auto &p = order[g_choose % order.size()];
            for(auto &st: p) {
                Task *x = T[st.i];
                exec(x, st.w, &st.plan);
                finalize_later.push_back(x);
                x->done = true; g_pending.erase(x->id);
            }
            for(Task *x: finalize_later) finalize(x);
            finalize_later.clear();
            return;
        }
        std::vector<Task *> todo(T);
        for(size_t k = 0; k < n; ++k) {
            for(auto &t: todo) if(t && ready(t)) {
                Task *x = t; t = nullptr;
                g_last_sched.push_back(x->id);
                int w = 0; std::vector<std::pair<int,int>> plan;
                if(x->kind == 2) plan = default_plan(x->h[0]);
                exec(x, w, &plan);
                if(k + 1 == n) {
                    u64 c = content();
                    if(!cap && term.size() && !term.count(c))
                        violation("replaying a schedule gives a new result (hidden state): " + desc(x));
                }
                finalize_later.push_back(x);
                x->done = true; g_pending.erase(x->id);
                break;
            }
        }
        for(Task *x: finalize_later) finalize(x);
        finalize_later.clear();
    }
    std::vector<Task *> finalize_later;
};

// While the application has paused execution no task runs; a call that would
// have to wait for one never returns in the real runtime.
int g_pause = 0;
void must_run(const char *what)
{
    if(g_pause > 0) violation(std::string(what) + " waits for unfinished tasks while their execution is paused");
}

void drain()
{
    if(g_pending.empty()) return;
    must_run("a call");
    if(g_mode == M_EXPLORE) { Explorer e; e.run(); if(!g_pending.empty()) run_set(nullptr); }
    else run_set(nullptr);
}

void drain_for(Handle *h, bool write)
{
    if(h->cur_kind == 4) submit_merge(h);
    if(g_pending.empty()) return;
    if(g_pause > 0) {
        std::vector<int> r = (write || h->cur_kind != 2) ? h->cur : h->prev;
        auto s = closure(r);
        if(!s.empty()) { must_run("access to data"); run_set(&s); }
        return;
    }
    if(g_mode == M_EXPLORE || (g_mode == M_LAZY && g_drain_all)) { drain(); return; }
    std::vector<int> roots;
    if(write || h->cur_kind != 2) roots = h->cur;
    else roots = h->prev;
    auto s = closure(roots);
    run_set(&s);
}

void on_submit(Task *t)
{
    if(g_mode == M_EAGER && g_pause <= 0) {
        if(!ready(t)) run_set(nullptr); else run_one(t);
    }
}

void free_handle(Handle *h)
{
    h->dead = true; g.live_handles--;
    if(h->b.raw) { if(!h->b.rz_ok()) violation("out-of-bounds write next to a handle"); h->b.dealloc(); }
    for(auto &r: h->repl) r.dealloc();
    h->repl.clear(); h->rvalid.clear(); h->ptr = nullptr;
}

struct starpu_task *build(starpu_codelet *cl, va_list ap)
{
    Task *t = new_task(0); t->cl = cl;
    std::vector<char> vals; int nvals = 0;
    while(true) {
        int a = va_arg(ap, int);
        if(a == 0) break;
        if(a < (1 << STARPU_MODE_SHIFT)) {
            starpu_data_handle_t h = va_arg(ap, starpu_data_handle_t);
            if(!h) die(std::string("null handle given to task ") + (cl->name ? cl->name : "?"));
            t->h.push_back(H(h)); t->m.push_back(a);
            continue;
        }
        switch((unsigned)a) {
        case STARPU_VALUE: { void *p = va_arg(ap, void *); size_t s = va_arg(ap, size_t);
            size_t o = vals.size(); vals.resize(o + sizeof(size_t) + s);
            memcpy(&vals[o], &s, sizeof s); memcpy(&vals[o + sizeof s], p, s); nvals++; break; }
        case STARPU_CL_ARGS: t->arg = va_arg(ap, void *); t->argsz = va_arg(ap, size_t); t->argfree = true; break;
        case STARPU_CL_ARGS_NFREE: t->arg = va_arg(ap, void *); t->argsz = va_arg(ap, size_t); break;
        case STARPU_FLOPS: va_arg(ap, double); break;
        case STARPU_PRIORITY: va_arg(ap, int); break;
        case STARPU_CALLBACK: t->cb = va_arg(ap, void (*)(void *)); break;
        case STARPU_CALLBACK_ARG: t->cbarg = va_arg(ap, void *); break;
        case STARPU_CALLBACK_WITH_ARG: t->cb = va_arg(ap, void (*)(void *)); t->cbarg = va_arg(ap, void *); break;
        case STARPU_NAME: va_arg(ap, const char *); break;
        case STARPU_EXECUTE_ON_WORKER: va_arg(ap, int); break;
        case STARPU_TASK_FILE: va_arg(ap, const char *); break;
        case STARPU_TASK_LINE: va_arg(ap, int); break;
        case STARPU_TASK_COLOR: va_arg(ap, int); break;
        case STARPU_TASK_SYNCHRONOUS: va_arg(ap, int); break;
        case STARPU_POSSIBLY_PARALLEL: va_arg(ap, unsigned); break;
        case STARPU_EXECUTE_WHERE: va_arg(ap, unsigned long long); break;
        case STARPU_TAG_ONLY: case STARPU_TAG: va_arg(ap, starpu_tag_t); break;
        default: die("mcstarpu: unsupported task argument kind " + std::to_string(a >> STARPU_MODE_SHIFT));
        }
    }
    if(nvals) {
        size_t s = sizeof(int) + vals.size();
        char *p = (char *)malloc(s); memcpy(p, &nvals, sizeof nvals); memcpy(p + sizeof(int), vals.data(), vals.size());
        t->arg = p; t->argsz = s; t->argfree = true;
    }
    starpu_task *st = (starpu_task *)calloc(1, sizeof(starpu_task));
    st->cl = cl; st->cl_arg = t->arg; st->cl_arg_size = t->argsz; st->cl_arg_free = t->argfree;
    g_built[st] = t;
    return st;
}

} // namespace

// ---------------------------------------------------------------- StarPU API
static int g_init = 0, g_inits = 0, g_shutdowns = 0;
static struct starpu_conf g_conf;
// Faults: refuse the g_fat-th call (sticky: and every later one) of the kinds in the
// mask: 1 task, 2 copy, 4 access to data, 8 start of the runtime, 16 its configuration
static int g_fmask = 0, g_ferr = 0, g_fsticky = 0; static long g_fat = 0, g_fcount = 0, g_ffired = 0, g_refused = 0;
static int fault(int kind)
{
    if(!(g_fmask & kind)) return 0;
    ++g_fcount;
    if(g_fcount == g_fat || (g_fsticky && g_fcount > g_fat)) { g_ffired++; return g_ferr; }
    return 0;
}
static int submit_task(struct starpu_task *st, bool own)
{
    auto it = g_built.find(st);
    if(it == g_built.end()) die("starpu_task_submit of an unknown task");
    if(g_init <= 0) die("task submitted to a runtime that is not running");
    Task *t = it->second; g_built.erase(it);
    t->arg = st->cl_arg; t->argsz = st->cl_arg_size; t->argfree = st->cl_arg_free;
    if(st->callback_func) { t->cb = st->callback_func; t->cbarg = st->callback_arg; }
    int where = t->where = st->where > 0 ? st->where : codelet_where(t->cl);
    int ret = fault(1);
    if(!ret) {
        log_where(t->cl, where);
        if(!runnable(t->cl, where)) { ret = -19; /* ENODEV */ g_refused++; }
    }
    if(ret) { // a refused task stays with the caller of starpu_task_submit
        if(own) { if(t->argfree) free(t->arg); free(st); delete t; }
        else g_built[st] = t;
        return ret;
    }
    free(st);
    enqueue(t);
    return 0;
}
API int starpu_task_submit(struct starpu_task *st) { return submit_task(st, false); }
API void starpu_task_destroy(struct starpu_task *st)
{
    auto it = g_built.find(st);
    if(it == g_built.end()) die("starpu_task_destroy of an unknown task");
    if(st->cl_arg_free) free(st->cl_arg);
    delete it->second; g_built.erase(it); free(st);
}
API struct starpu_task *starpu_task_build(struct starpu_codelet *cl, ...)
{
    va_list ap; va_start(ap, cl); auto *t = build(cl, ap); va_end(ap); return t;
}
API int starpu_task_insert(struct starpu_codelet *cl, ...)
{
    va_list ap; va_start(ap, cl); auto *t = build(cl, ap); va_end(ap);
    return submit_task(t, true);
}
API int starpu_task_wait_for_all(void) { drain(); return 0; }
// the count is read before the tasks of the moment end; with g_nsub_steps they end one at a time
static int g_nsub_steps = 0;
API int starpu_task_nsubmitted(void)
{
    if(!g_nsub_steps || g_mode == M_EXPLORE) { drain(); return (int)g_pending.size(); }
    int n = (int)g_pending.size();
    if(n) {
        must_run("waiting");
        for(auto &kv: g_pending) if(ready(kv.second)) { run_one(kv.second); return n; }
        die("deadlock: pending tasks but none is ready");
    }
    return n;
}
API int starpu_task_nready(void) { return 0; }
API void starpu_do_schedule(void) {}
API void starpu_variable_data_register(starpu_data_handle_t *h, int node, uintptr_t ptr, size_t size)
{
    Handle *x = new Handle; x->id = g_next_handle++; x->size = size;
    // tasks work on a copy: memory of the user is up to date only while acquired or after unregistering
    x->b.alloc(size); x->ptr = x->b.p();
    if(node >= 0) { x->home = (void *)ptr; memcpy(x->ptr, x->home, size); x->init = true; x->user = true; }
    g.handles++; g.live_handles++;
    g_handles.push_back(x);
    *h = reinterpret_cast<starpu_data_handle_t>(x);
}
static void unregister_common(starpu_data_handle_t hh, bool coherent = false)
{
    Handle *h = H(hh);
    if(h->dead) die("handle unregistered twice");
    if(h->acquired) die("handle unregistered while it is acquired");
    drain_for(h, true);
    // the real runtime also waits for tasks using the handle as scratch
    std::vector<int> users;
    for(auto &kv: g_pending) for(Handle *x: kv.second->h) if(x == h) { users.push_back(kv.first); break; }
    if(!users.empty()) { auto s = closure(users); if(!s.empty()) must_run("release of data"); run_set(&s); }
    if(coherent && h->user && h->init) memcpy(h->home, h->ptr, h->size);
    free_handle(h);
}
API void starpu_data_unregister(starpu_data_handle_t h) { unregister_common(h, true); }
API void starpu_data_unregister_no_coherency(starpu_data_handle_t h) { unregister_common(h); }
API void starpu_data_unregister_submit(starpu_data_handle_t hh)
{
    Handle *h = H(hh);
    if(h->dead) die("handle unregistered twice");
    Task *t = new_task(3); t->h = {h}; t->m = {STARPU_RW};
    // a scratch handle has no tracked accesses: depend on all pending users
    for(auto &kv: g_pending) for(Handle *x: kv.second->h) if(x == h) t->preds.push_back(kv.first);
    enqueue(t);
}
API void starpu_data_wont_use(starpu_data_handle_t h) { if(H(h)->dead) die("wont_use of an unregistered handle"); }
API void starpu_data_invalidate_submit(starpu_data_handle_t hh)
{
    if(H(hh)->dead) die("invalidation of an unregistered handle");
    Task *t = new_task(5); t->h = {H(hh)}; t->m = {STARPU_W};
    enqueue(t);
}
API void starpu_data_invalidate(starpu_data_handle_t hh)
{
    Handle *h = H(hh);
    if(h->dead) die("invalidation of an unregistered handle");
    if(h->acquired) die("invalidation of data that is held");
    drain_for(h, true);
    memset(h->ptr, g_poison, h->size); h->init = false; h->hdirty = true;
}
// hints without influence on the results
API int starpu_data_prefetch_on_node(starpu_data_handle_t, unsigned, unsigned) { return 0; }
API int starpu_data_idle_prefetch_on_node(starpu_data_handle_t, unsigned, unsigned) { return 0; }
API int starpu_data_fetch_on_node(starpu_data_handle_t, unsigned, unsigned) { return 0; }
API int starpu_data_evict_from_node(starpu_data_handle_t, unsigned) { return 0; }
API void starpu_data_advise_as_important(starpu_data_handle_t, unsigned) {}
API int starpu_data_cpy(starpu_data_handle_t dst, starpu_data_handle_t src, int async, void (*cb)(void *), void *arg)
{
    if(int ret = fault(2)) return ret;
    Task *t = new_task(1); t->h = {H(src), H(dst)}; t->m = {STARPU_R, STARPU_W}; (void)cb; (void)arg;
    if(H(src)->size != H(dst)->size) violation("starpu_data_cpy between handles of different size");
    enqueue(t);
    if(!async && g_mode != M_EAGER) drain();
    return 0;
}
API int starpu_data_acquire(starpu_data_handle_t hh, enum starpu_data_access_mode m)
{
    Handle *h = H(hh);
    if(h->dead) die("acquire of an unregistered handle");
    if(h->sess != g_sessions) die("acquire of data of a session of the runtime that has ended");
    if(int ret = fault(4)) return ret;
    if(h->acquired && !(h->acq_mode == STARPU_R && m == STARPU_R)) die("deadlock: acquire of data already held");
    drain_for(h, m != STARPU_R);
    g.acquires++;
    if((m & STARPU_R) && !h->init) violation("acquire for reading of data that was never written");
    if(m == STARPU_W) memset(h->ptr, g_poison, h->size);
    if(m & STARPU_W) h->init = true;
    if(h->user) memcpy(h->home, h->ptr, h->size);
    h->acquired++; h->acq_mode = m; h->hdirty = true;
    return 0;
}
API int starpu_data_acquire_cb(starpu_data_handle_t hh, enum starpu_data_access_mode m, void (*cb)(void *), void *arg)
{
    Task *t = new_task(4); t->h = {H(hh)}; t->m = {(int)m}; t->cb = cb; t->cbarg = arg;
    enqueue(t); return 0;
}
API void *starpu_data_get_local_ptr(starpu_data_handle_t hh)
{ Handle *h = H(hh); if(!h->acquired) violation("local pointer of data that is not held"); return h->user ? h->home : h->ptr; }
API void starpu_data_release(starpu_data_handle_t hh)
{
    Handle *h = H(hh);
    if(!h->acquired) die("release of data that is not held");
    if(h->user && (h->acq_mode & STARPU_W)) memcpy(h->ptr, h->home, h->size);
    h->acquired--; h->hdirty = true;
    if(h->b.raw && !h->b.rz_ok()) { violation("out-of-bounds write by the application next to an acquired buffer"); h->b.rz_fix(); }
}
API void starpu_data_set_reduction_methods(starpu_data_handle_t h, struct starpu_codelet *r, struct starpu_codelet *i)
{ H(h)->redux_cl = r; H(h)->init_cl = i; }
API uint32_t starpu_hash_crc32c_be_n(const void *p, size_t n, uint32_t c)
{ const unsigned char *q = (const unsigned char *)p; for(size_t i = 0; i < n; ++i) c = c * 16777619u ^ q[i]; return c; }
API int starpu_conf_init(struct starpu_conf *c)
{ if(int ret = fault(16)) return ret; memset(c, 0, sizeof *c); return 0; }
// runtime sessions: initialisations are counted, the first starts the runtime with the
// workers it asks for and the last shutdown stops it
API int starpu_init(struct starpu_conf *c)
{
    if(int ret = fault(8)) return ret;
    g_inits++;
    if(g_init++ == 0) {
        g_sessions++; g_pause = 0;
        if(c) g_conf = *c; else memset(&g_conf, 0, sizeof g_conf);
    }
    return 0;
}
API int starpu_is_initialized(void) { return g_init > 0; }
API void starpu_shutdown(void)
{
    g_shutdowns++;
    if(g_init <= 0) { violation("shutdown of a runtime that is not running"); return; }
    if(g_init == 1) drain();
    g_init--;
}
API void starpu_pause(void) { g_pause++; }
API void starpu_resume(void)
{
    g_pause--;
    if(g_pause == 0 && g_mode == M_EAGER) drain();
}
API void starpu_fxt_autostart_profiling(int) {}
API void starpu_fxt_start_profiling(void) {}
API void starpu_fxt_stop_profiling(void) {}
API int starpu_worker_get_count_by_type(enum starpu_worker_archtype t) { return t == STARPU_CPU_WORKER ? g_workers : 0; }
API unsigned starpu_worker_get_count(void) { return g_workers; }

// ---------------------------------------------------------------- control API
API void mc_config(int mode, int policy, int workers, int full, int maxdev, u64 max_states, int poison, int merge_style, int tol, int drain_all)
{
    if(mode != g_mode && !g_pending.empty()) drain();
    g_mode = mode; g_policy = policy; g_workers = workers; g_full = full; g_maxdev = maxdev;
    g_max_states = max_states; g_poison = (unsigned char)poison; g_merge_style = merge_style; g_tol = tol; g_drain_all = drain_all;
    g_lazy_worker_rr = 0;
}
API void mc_stats(u64 *out, int n) { u64 *p = (u64 *)&g; for(int i = 0; i < n && i < (int)(sizeof(g)/8); ++i) out[i] = p[i]; }
// state of the runtime: initialisations not shut down, sessions, calls of init and shutdown,
// pause depth, CPU and CUDA workers asked by the current session
API int mc_runtime(int what)
{
    int v[] = {g_init, g_sessions, g_inits, g_shutdowns, g_pause, g_conf.ncpus, g_conf.ncuda};
    return what >= 0 && what < 7 ? v[what] : -1;
}
API void mc_fault(int mask, long at, int sticky, int err)
{ g_fmask = mask; g_fat = at; g_fsticky = sticky; g_ferr = err; g_fcount = g_ffired = 0; }
API long mc_fault_info(int what) { return what == 2 ? g_refused : what ? g_fcount : g_ffired; }
// contents of all data, and going back to them
struct Snap { int id; bool init; std::vector<char> c; };
static std::vector<std::vector<Snap>> g_snaps;
static void settle() { for(size_t i = 0; i < g_handles.size(); ++i) if(!g_handles[i]->dead) drain_for(g_handles[i], true); drain(); }
API void mc_snapshot(void)
{
    settle();
    std::vector<Snap> v;
    for(Handle *h: g_handles) if(!h->dead) v.push_back({h->id, h->init, std::vector<char>(h->ptr, h->ptr + h->size)});
    g_snaps.push_back(std::move(v));
}
API void mc_restore(void)
{
    settle();
    std::unordered_map<int, Handle *> m;
    for(Handle *h: g_handles) if(!h->dead) m[h->id] = h;
    for(auto &s: g_snaps.back()) {
        auto it = m.find(s.id);
        if(it == m.end()) continue;
        memcpy(it->second->ptr, s.c.data(), s.c.size()); it->second->init = s.init; it->second->hdirty = true;
    }
}
API void mc_snapshot_drop(void) { g_snaps.pop_back(); }
API int mc_built(void) { return (int)g_built.size(); }
API void mc_nsub_steps(int on) { g_nsub_steps = on; }
API int mc_violations(void) { return (int)g_viol.size(); }
API const char *mc_violation(int i) { return g_viol[i].c_str(); }
API void mc_clear_violations(void) { g_viol.clear(); }
API void mc_log(int on) { g_logging = on; g_log.clear(); }
API int mc_log_size(void) { return (int)g_log.size(); }
API const char *mc_log_line(int i) { return g_log[i].c_str(); }
API int mc_pending(void) { return (int)g_pending.size(); }
API int mc_pending_line(int i, char *buf, int n)
{ for(auto &kv: g_pending) if(i-- == 0) { snprintf(buf, n, "%s", desc(kv.second).c_str()); return 1; } return 0; }
API long mc_live(void) { return (long)g.live_handles; }
API int mc_next_handle(void) { return g_next_handle; }
API void mc_drain(void) { drain(); }
// forget handle records that are dead (bounded memory over long runs)
API void mc_gc(void)
{
    if(!g_pending.empty()) return;
    std::deque<Handle *> k;
    for(Handle *h: g_handles) if(h->dead) { h->magic = 0; delete h; } else k.push_back(h);
    g_handles.swap(k);
}
API void mc_set_monitor(mon_begin_t b, mon_end_t e) { g_mon_begin = b; g_mon_end = e; }
// EXPLORE: which of the distinct outcomes to continue from; returns the largest
// number of distinct outcomes met since the last call
API long mc_choose(long k) { long r = (long)g_last_terms; g_last_terms = 0; g_choose = (size_t)k; return r; }
// where tasks may run, for each submission since the log was switched on
API void mc_where_log(int on) { g_where_on = on; g_where.clear(); }
API int mc_where_size(void) { return (int)g_where.size(); }
API void mc_where_get(u64 *cl, int *where)
{ for(size_t i = 0; i < g_where.size(); ++i) { cl[i] = (u64)g_where[i].first; where[i] = g_where[i].second; } }
API int mc_is_model(void) { return 1; }
// force the content state of a handle by registration index (used by schedule drivers)
API long mc_handle_info(int id, int what)
{
    for(Handle *h: g_handles) if(h->id == id) switch(what) { case 0: return h->size; case 1: return h->init; case 2: return h->dead; }
    return -1;
}
