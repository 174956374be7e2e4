// Reference values of the activation functions in extended precision for the
// accuracy check (C20).  Q is long double for single precision arguments and
// __float128 for double precision ones.
#include <quadmath.h>
#include <cmath>
#include <cstdint>
#include <limits>
#include <cstring>

namespace {
typedef long double L;
typedef __float128 Q;
inline L Exp(L x) { return expl(x); } inline Q Exp(Q x) { return expq(x); }
inline L Erfc(L x) { return erfcl(x); } inline Q Erfc(Q x) { return erfcq(x); }
inline L Sqrt(L x) { return sqrtl(x); } inline Q Sqrt(Q x) { return sqrtq(x); }
inline L Pow(L x, L y) { return powl(x, y); } inline Q Pow(Q x, Q y) { return powq(x, y); }
inline L Hypot(L x, L y) { return hypotl(x, y); } inline Q Hypot(Q x, Q y) { return hypotq(x, y); }
inline L Fabs(L x) { return fabsl(x); } inline Q Fabs(Q x) { return fabsq(x); }
inline bool Fin(L x) { return std::isfinite(x); } inline bool Fin(Q x) { return finiteq(x); }
inline bool Nan(L x) { return x != x; } inline bool Nan(Q x) { return x != x; }

enum Fn { RELU, DRELU, GELU, DGELU, GELUTANH, DGELUTANH, SQRT, HYPINV, POW };

template<typename R> R f(int fn, R x, R a, R b)
{
    const R r2 = 0.707106781186547524400844362104849039Q, // 1/sqrt(2)
            f2 = 0.398942280401432677939946059934381868Q, // 1/sqrt(2 pi)
            k = 0.797884560802865355879892119868763737Q,  // sqrt(2/pi)
            c3 = 0.044715Q;
    switch(fn) {
    case RELU: return x > 0 ? x : R(0);
    case DRELU: return x > 0 ? R(1) : R(0);
    case GELU: return x * Erfc(-x * r2) / 2;
    case DGELU: return x * f2 * Exp(-x * x / 2) + Erfc(-x * r2) / 2;
    case GELUTANH: { R e = Exp(-2 * k * x * (1 + c3 * x * x)); return x / (1 + e); }
    case DGELUTANH: {
        R u = -2 * k * x * (1 + c3 * x * x), du = -2 * k * x * (1 + 3 * c3 * x * x);
        R e = Exp(-Fabs(u)); // logistic s(-u) and its derivative without overflow
        R s = u > 0 ? e / (1 + e) : 1 / (1 + e), ds = e / ((1 + e) * (1 + e));
        return s - (ds == 0 ? R(0) : du * ds); }
    case SQRT: return Sqrt(x);
    case HYPINV: return 1 / Hypot(a * x, b);
    case POW: return a * Pow(x, b);
    }
    return 0;
}

// |x f'(x)|, the first order change of f by a relative change of its argument
template<typename R> R cond(int fn, R x, R a, R b, R fx, R h)
{
    switch(fn) {
    case RELU: case DRELU: return 0;
    case SQRT: case HYPINV: return Fabs(fx);
    case POW: return Fabs(fx);
    }
    if(x == 0) return 0;
    R d = (f<R>(fn, x * (1 + h), a, b) - f<R>(fn, x * (1 - h), a, b)) / (2 * h);
    return Fin(d) ? Fabs(d) : R(0);
}

// got must be dx0 + f(x) * dy; returns the index of the worst element and its
// error in units of eps*(|f|+|x f'|)*|dy| + eps*|dx0 + f dy| + floor.  Elements
// outside the domain (NaN reference) are skipped.
template<typename T, typename R> long check(int fn, long n, const T *x, const T *got, double a_, double b_,
        double dx0_, double dy_, double floor_, double *worst, double *want, long *counted)
{
    R a = a_, b = b_, dx0 = dx0_, dy = dy_;
    const R eps = std::numeric_limits<T>::epsilon(), big = std::numeric_limits<T>::max();
    const R h = sizeof(T) == 4 ? R(1e-6L) : R(1e-10L);
    long w = -1; *worst = -1; *counted = 0;
    for(long i = 0; i < n; ++i) {
        R X = x[i], F = f<R>(fn, X, a, b);
        if(Nan(F)) continue;
        ++*counted;
        R v = dx0 + F * dy;
        double e;
        if(std::isnan(got[i])) e = INFINITY;
        else if(std::isinf(got[i])) e = (v > 0) == (got[i] > 0) && Fabs(v) >= big * (1 - 8 * eps) ? 0 : INFINITY;
        else if(!Fin(v)) e = INFINITY;
        else {
            R d = Fabs(R(got[i]) - v);
            if(d == 0) e = 0;
            else {
                R s = eps * ((Fabs(F) + cond<R>(fn, X, a, b, F, h)) * Fabs(dy) + Fabs(v)) + R(floor_);
                e = (double)(d / s);
            }
        }
        if(e > *worst) { *worst = e; *want = (double)v; w = i; }
    }
    return w;
}
}

extern "C" long acc32(int fn, long n, const float *x, const float *got, double a, double b, double dx0, double dy,
        double floor_, double *worst, double *want, long *counted)
{ return check<float, L>(fn, n, x, got, a, b, dx0, dy, floor_, worst, want, counted); }
extern "C" long acc64(int fn, long n, const double *x, const double *got, double a, double b, double dx0, double dy,
        double floor_, double *worst, double *want, long *counted)
{ return check<double, Q>(fn, n, x, got, a, b, dx0, dy, floor_, worst, want, counted); }
