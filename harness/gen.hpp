// Input generators and reference models shared by the harnesses. Nothing in
// here calls the library.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP
#include "common.hpp"

namespace vh
{

// value regimes: 0 small integers (all sums exact), 1 dyadic, 2 general doubles, 3 wide magnitude
inline double gen_val(Rng& r, int mode)
{
    switch (mode)
    {
        case 0: return (double)r.range(-5, 5);
        case 1: return r.range(-64, 64) / 16.0;
        case 2: return r.uniform(-2.0, 2.0);
        default:
        {
            double m = r.uniform(-1.0, 1.0);
            return m * std::pow(10.0, r.range(-6, 6));
        }
    }
}
inline double gen_nz(Rng& r, int mode)
{
    double v = 0.0;
    while (v == 0.0) v = gen_val(r, mode);
    return v;
}

template <typename T> struct ModeOf { static int pick(Rng& r) { return r.range(0, 3); } };
template <> struct ModeOf<int> { static int pick(Rng&) { return 0; } };

template <typename T>
std::vector<T> gen_vec(Rng& r, int n, int mode)
{
    std::vector<T> v(n);
    for (int i = 0; i < n; ++i) v[i] = (T)gen_val(r, mode);
    return v;
}

// dense row-major reference matrix
struct Ref
{
    int m, n;
    std::vector<double> a;
    Ref(int m_ = 0, int n_ = 0) : m(m_), n(n_), a((size_t)m_ * n_, 0.0) {}
    double& operator()(int i, int j) { return a[(size_t)i * n + j]; }
    double operator()(int i, int j) const { return a[(size_t)i * n + j]; }
    double maxabs() const { double x = 0; for (double v : a) x = std::max(x, std::fabs(v)); return x; }
};
inline Ref transpose(const Ref& A)
{
    Ref B(A.n, A.m);
    for (int i = 0; i < A.m; ++i) for (int j = 0; j < A.n; ++j) B(j, i) = A(i, j);
    return B;
}
// product and a per-entry bound sum |a||b| used for the rounding tolerance
inline Ref multiply(const Ref& A, const Ref& B, Ref* bound = nullptr)
{
    Ref C(A.m, B.n);
    if (bound) *bound = Ref(A.m, B.n);
    for (int i = 0; i < A.m; ++i)
        for (int j = 0; j < B.n; ++j)
        {
            long double s = 0, t = 0;
            for (int k = 0; k < A.n; ++k) { long double p = (long double)A(i, k) * B(k, j); s += p; t += std::fabs((double)p); }
            C(i, j) = (double)s;
            if (bound) (*bound)(i, j) = (double)t;
        }
    return C;
}
inline std::vector<double> matvec(const Ref& A, const std::vector<double>& x, std::vector<double>* bound = nullptr)
{
    std::vector<double> y(A.m, 0.0);
    if (bound) bound->assign(A.m, 0.0);
    for (int i = 0; i < A.m; ++i)
    {
        long double s = 0, t = 0;
        for (int j = 0; j < A.n; ++j) { long double p = (long double)A(i, j) * x[j]; s += p; t += std::fabs((double)p); }
        y[i] = (double)s;
        if (bound) (*bound)[i] = (double)t;
    }
    return y;
}

// |got - want| within rounding of a length-k accumulation whose absolute terms sum to `mag`
inline bool near(double got, double want, double mag, double k = 64)
{
    if (got == want) return true;
    if (!(got == got) || !(want == want)) return false;
    return std::fabs(got - want) <= (k + 16) * 4 * DBL_EPSILON * (mag + std::fabs(want)) + DBL_MIN;
}

template <typename A, typename B>
void expect_vec(const A& got, const B& want, const char* key, const char* what)
{
    CHECK((long)got.size() == (long)want.size(), key, "%s: size %ld, expected %ld", what, (long)got.size(), (long)want.size());
    for (int i = 0; i < (int)want.size(); ++i)
        CHECK(near((double)got[i], (double)want[i], std::fabs((double)want[i]), 4), key, "%s: entry %d is %.17g, expected %.17g", what, i, (double)got[i], (double)want[i]);
}

} // namespace vh
#endif
