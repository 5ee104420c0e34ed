// Vectors, views and block vectors: arithmetic (C03), aliasing (C04), seeded randomisation (C22)
#include "gen.hpp"
#include "linalgcpp.hpp"
#include "timer.hpp"
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
using namespace linalgcpp;
using vh::Ctx; using vh::Rng;

namespace
{

// A vector living inside a larger guarded buffer, or in an owning Vector: the operations take views.
template <typename T>
struct Guarded
{
    int n, pad;
    std::vector<T> buf;
    Guarded(const std::vector<T>& v, int pad_ = 5) : n(v.size()), pad(pad_), buf(v.size() + 2 * pad_)
    {
        for (int i = 0; i < (int)buf.size(); ++i) buf[i] = (T)(1000 + i);
        for (int i = 0; i < n; ++i) buf[pad + i] = v[i];
    }
    VectorView<T> view() { return VectorView<T>(buf.data() + pad, n); }
    std::vector<T> get() const { return std::vector<T>(buf.begin() + pad, buf.begin() + pad + n); }
    void guards(const char* key) const
    {
        for (int i = 0; i < (int)buf.size(); ++i)
            if (i < pad || i >= pad + n)
                CHECK(buf[i] == (T)(1000 + i), key, "write outside the view at offset %d", i - pad);
    }
};

template <typename T>
void check_eq(const std::vector<T>& got, const std::vector<double>& want, const std::vector<double>& mag, const char* key)
{
    CHECK(got.size() == want.size(), key, "size %zu expected %zu", got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i)
        CHECK(vh::near((double)got[i], want[i], mag[i], 4), key, "entry %zu of %zu is %.17g, expected %.17g", i, want.size(), (double)got[i], want[i]);
}

// int specialisations: keep quotients exact
template <typename T> T divisor(Rng& r, int mode);
template <> double divisor<double>(Rng& r, int mode) { return vh::gen_nz(r, mode); }
template <> int divisor<int>(Rng& r, int) { return r.chance(1, 2) ? 1 : -1; }

inline void free_add(const std::vector<double>&, const std::vector<double>&) {}

template <typename T>
void arith(Ctx& c)
{
    Rng& r = c.r;
    const int n = c.size();
    const int mode = vh::ModeOf<T>::pick(r);
    std::vector<T> xv = vh::gen_vec<T>(r, n, mode), yv = vh::gen_vec<T>(r, n, mode);
    const T a = (T)vh::gen_val(r, mode);
    c.nontrivial = n > 0;
    c.describe("n=%d mode=%d int=%d", n, mode, (int)std::is_same<T, int>::value);
    c.mix(n); c.mix(mode);
    for (T v : xv) c.mixd((double)v);

    const int op = r.range(0, 17);
    c.mix(op);
    c.describe(" op=%d", op);
    Guarded<T> X(xv), Y(yv);
    VectorView<T> x = X.view(), y = Y.view();
    std::vector<double> want(n), mag(n);
    for (int i = 0; i < n; ++i) { want[i] = xv[i]; mag[i] = std::fabs((double)xv[i]); }
    const char* key = "vec-arith";
    bool y_same = true;
    switch (op)
    {
        case 0: STEP("x+=y"); x += y; for (int i = 0; i < n; ++i) { want[i] += yv[i]; mag[i] += std::fabs((double)yv[i]); } break;
        case 1: STEP("x-=y"); x -= y; for (int i = 0; i < n; ++i) { want[i] -= yv[i]; mag[i] += std::fabs((double)yv[i]); } break;
        case 2: STEP("x*=y"); x *= y; for (int i = 0; i < n; ++i) { want[i] *= yv[i]; mag[i] = std::fabs(want[i]); } break;
        case 3:
        {
            std::vector<T> dv(n);
            for (T& d : dv) d = divisor<T>(r, mode);
            Guarded<T> D(dv);
            STEP("x/=y"); x /= D.view();
            for (int i = 0; i < n; ++i) { want[i] /= dv[i]; mag[i] = std::fabs(want[i]); }
            D.guards(key);
            break;
        }
        case 4: STEP("x*=a"); x *= a; for (int i = 0; i < n; ++i) { want[i] *= a; mag[i] = std::fabs(want[i]); } break;
        case 5: { T d = divisor<T>(r, mode); STEP("x/=a"); x /= d; for (int i = 0; i < n; ++i) { want[i] /= d; mag[i] = std::fabs(want[i]); } break; }
        case 6: STEP("x+=a"); x += a; for (int i = 0; i < n; ++i) { want[i] += a; mag[i] += std::fabs((double)a); } break;
        case 7: STEP("x-=a"); x -= a; for (int i = 0; i < n; ++i) { want[i] -= a; mag[i] += std::fabs((double)a); } break;
        case 8: STEP("x=a"); x = a; for (int i = 0; i < n; ++i) want[i] = a; break;
        case 9:
        {
            double al = std::is_same<T, int>::value ? r.range(-3, 3) : vh::gen_val(r, mode);
            STEP("x.Add(a,y)"); x.Add(al, y);
            for (int i = 0; i < n; ++i) { want[i] += al * yv[i]; mag[i] += std::fabs(al * yv[i]); }
            break;
        }
        case 10:
        {
            double al = std::is_same<T, int>::value ? r.range(-3, 3) : vh::gen_val(r, mode);
            STEP("x.Sub(a,y)"); x.Sub(al, y);
            for (int i = 0; i < n; ++i) { want[i] -= al * yv[i]; mag[i] += std::fabs(al * yv[i]); }
            break;
        }
        case 11:
        {
            double al = std::is_same<T, int>::value ? r.range(-3, 3) : vh::gen_val(r, mode);
            STEP("x.Set(a,y)"); x.Set(al, y);
            for (int i = 0; i < n; ++i) { want[i] = al * yv[i]; mag[i] = std::fabs(want[i]); }
            break;
        }
        case 12: STEP("x.Add(y)"); x.Add(y); for (int i = 0; i < n; ++i) { want[i] += yv[i]; mag[i] += std::fabs((double)yv[i]); } break;
        case 13: STEP("x.Sub(y)"); x.Sub(y); for (int i = 0; i < n; ++i) { want[i] -= yv[i]; mag[i] += std::fabs((double)yv[i]); } break;
        case 14: STEP("x.Set(y)"); x.Set(y); for (int i = 0; i < n; ++i) want[i] = yv[i]; break;
        case 15: STEP("x=view"); { const VectorView<T> cy = Y.view(); if (r.chance(1, 2)) x = cy; else x = y; } for (int i = 0; i < n; ++i) want[i] = yv[i]; break;
        case 16:
        {   // both operands are the same vector
            int w = r.range(0, 3);
            if (w == 0) { STEP("x+=x"); x += x; for (int i = 0; i < n; ++i) want[i] *= 2; }
            if (w == 1) { STEP("x-=x"); x -= x; for (int i = 0; i < n; ++i) want[i] = 0; }
            if (w == 2) { STEP("x*=x"); x *= x; for (int i = 0; i < n; ++i) { want[i] *= (double)xv[i]; mag[i] = std::fabs(want[i]); } }
            if (w == 3) { STEP("x.Add(3,x)"); x.Add(3.0, x); for (int i = 0; i < n; ++i) { want[i] *= 4; mag[i] *= 4; } }
            break;
        }
        default:
        {   // three-term update
            T b = (T)vh::gen_val(r, mode), g = (T)vh::gen_val(r, mode);
            if (r.chance(1, 3)) g = 0;
            std::vector<T> zv = vh::gen_vec<T>(r, n, mode);
            Guarded<T> Z(zv);
            STEP("Add(a,x,b,y,g,z)"); linalgcpp::Add(a, x, b, y, g, Z.view());
            std::vector<double> w2(n), m2(n);
            for (int i = 0; i < n; ++i)
            {
                double p = (double)a * xv[i], q = (double)b * yv[i], s = (double)g * zv[i];
                w2[i] = p + q + s; m2[i] = std::fabs(p) + std::fabs(q) + std::fabs(s);
            }
            check_eq(Z.get(), w2, m2, key);
            Z.guards(key);
        }
    }
    check_eq(X.get(), want, mag, key);
    X.guards(key);
    Y.guards(key);
    if (y_same) for (int i = 0; i < n; ++i) CHECK(Y.get()[i] == yv[i], "vec-operand-changed", "right operand changed at %d", i);
}
FAMILY(arith_d, "vec.arith.double") { arith<double>(c); }
FAMILY(arith_i, "vec.arith.int") { arith<int>(c); }

// owning-vector operators that build new vectors
template <typename T>
void fresh(Ctx& c)
{
    Rng& r = c.r;
    const int n = c.size();
    const int mode = vh::ModeOf<T>::pick(r);
    std::vector<T> xv = vh::gen_vec<T>(r, n, mode), yv = vh::gen_vec<T>(r, n, mode);
    const Vector<T> x(xv.data(), n), y(yv);
    const T a = divisor<T>(r, mode);
    const int op = r.range(0, 6);
    c.nontrivial = n > 0;
    c.mix(op); c.mix(n); for (T v : xv) c.mixd((double)v);
    c.describe("n=%d mode=%d op=%d", n, mode, op);
    std::vector<double> want(n), mag(n);
    Vector<T> z;
    const char* key = "vec-fresh";
    if (op == 0) { STEP("x*a"); z = x * a; for (int i = 0; i < n; ++i) want[i] = (double)xv[i] * a; }
    if (op == 1) { STEP("a*x"); z = a * x; for (int i = 0; i < n; ++i) want[i] = (double)xv[i] * a; }
    if (op == 2) { STEP("x/a"); z = x / a; for (int i = 0; i < n; ++i) want[i] = (double)xv[i] / a; }
    if (op == 3)
    {
        std::vector<T> dv(n); for (T& d : dv) d = divisor<T>(r, mode);
        STEP("a/x"); z = a / Vector<T>(dv); for (int i = 0; i < n; ++i) want[i] = (double)a / dv[i];
    }
    if (op == 4) { STEP("x+y"); z = x + y; for (int i = 0; i < n; ++i) want[i] = (double)xv[i] + yv[i]; }
    if (op == 5) { STEP("x-y"); z = x - y; for (int i = 0; i < n; ++i) want[i] = (double)xv[i] - yv[i]; }
    if (op == 6)
    {
        // chained expression
        STEP("(x+y)*a-x"); z = (x + y) * a - x;
        for (int i = 0; i < n; ++i) { want[i] = ((double)xv[i] + yv[i]) * a - xv[i]; mag[i] = (std::fabs((double)xv[i]) + std::fabs((double)yv[i])) * std::fabs((double)a) + std::fabs((double)xv[i]); }
    }
    for (int i = 0; i < n; ++i) mag[i] += std::fabs((double)xv[i]) + std::fabs((double)yv[i]) + std::fabs(want[i]);
    check_eq(std::vector<T>(z.begin(), z.end()), want, mag, key);
    for (int i = 0; i < n; ++i) CHECK(x[i] == xv[i] && y[i] == yv[i], "vec-operand-changed", "an operand changed at %d", i);
}
FAMILY(fresh_d, "vec.fresh.double") { fresh<double>(c); }
FAMILY(fresh_i, "vec.fresh.int") { fresh<int>(c); }

template <typename T>
void reduce(Ctx& c)
{
    Rng& r = c.r;
    const int n = c.size(1);
    const int mode = vh::ModeOf<T>::pick(r);
    std::vector<T> xv = vh::gen_vec<T>(r, n, mode), yv = vh::gen_vec<T>(r, n, mode);
    // make sign/extreme positions vary: all negative, all positive, extreme at either end
    int shape = r.range(0, 4);
    if (shape == 1) for (T& v : xv) v = (T)(-std::fabs((double)v) - 1);
    if (shape == 2) for (T& v : xv) v = (T)(std::fabs((double)v) + 1);
    if (shape == 3) xv[0] = (T)(r.chance(1, 2) ? 50 : -50);
    if (shape == 4) xv[n - 1] = (T)(r.chance(1, 2) ? 50 : -50);
    Guarded<T> X(xv), Y(yv);
    const VectorView<T> x = X.view();
    const VectorView<T> y = Y.view();
    c.nontrivial = n > 1;
    c.mix(n); c.mix(shape); for (T v : xv) c.mixd((double)v);
    c.describe("n=%d mode=%d shape=%d", n, mode, shape);

    long double s = 0, sa = 0, ip = 0, ipa = 0, sq = 0;
    double mx = xv[0], mn = xv[0], amx = std::fabs((double)xv[0]), amn = amx;
    for (int i = 0; i < n; ++i)
    {
        double v = xv[i];
        s += v; sa += std::fabs(v);
        ip += (long double)v * yv[i]; ipa += std::fabs(v * (double)yv[i]);
        sq += (long double)v * v;
        mx = std::max(mx, v); mn = std::min(mn, v);
        amx = std::max(amx, std::fabs(v)); amn = std::min(amn, std::fabs(v));
    }
    const char* key = "vec-reduce";
    STEP("Sum"); CHECK(vh::near((double)Sum(x), (double)s, (double)sa, n), key, "Sum %.17g expected %.17g", (double)Sum(x), (double)s);
    CHECK(vh::near((double)x.Sum(), (double)s, (double)sa, n), key, "member Sum");
    STEP("Mean"); CHECK(vh::near(Mean(x), (double)(s / n), (double)sa, n), key, "Mean %.17g expected %.17g", Mean(x), (double)(s / n));
    STEP("InnerProduct"); CHECK(vh::near((double)x.Mult(y), (double)ip, (double)ipa, n), key, "Mult %.17g expected %.17g", (double)x.Mult(y), (double)ip);
    CHECK(vh::near(InnerProduct(x, y), (double)ip, (double)ipa, n), key, "InnerProduct");
    CHECK(vh::near(x * y, (double)ip, (double)ipa, n), key, "x*y %.17g expected %.17g", x * y, (double)ip);
    STEP("L2Norm"); CHECK(vh::near(L2Norm(x), (double)std::sqrt(sq), (double)std::sqrt(sq), n), key, "L2Norm %.17g expected %.17g", L2Norm(x), (double)std::sqrt(sq));
    CHECK(vh::near(x.L2Norm(), (double)std::sqrt(sq), (double)std::sqrt(sq), n), key, "member L2Norm");
    STEP("Max"); CHECK((double)Max(x) == mx, key, "Max %g expected %g", (double)Max(x), mx);
    STEP("Min"); CHECK((double)Min(x) == mn, key, "Min %g expected %g", (double)Min(x), mn);
    STEP("AbsMax"); CHECK((double)AbsMax(x) == amx, key, "AbsMax %g expected %g", (double)AbsMax(x), amx);
    STEP("AbsMin"); CHECK((double)AbsMin(x) == amn, key, "AbsMin %g expected %g", (double)AbsMin(x), amn);

    STEP("GetSubVector");
    int k = r.range(0, 2 * n);
    std::vector<int> idx(k);
    for (int& i : idx) i = r.range(0, n - 1);
    Vector<T> sub = x.GetSubVector(idx);
    Vector<T> sub2(r.range(0, 5), (T)7);
    x.GetSubVector(idx, sub2);
    CHECK(sub.size() == k && sub2.size() == k, key, "GetSubVector size");
    for (int i = 0; i < k; ++i) CHECK(sub[i] == xv[idx[i]] && sub2[i] == xv[idx[i]], key, "GetSubVector entry %d", i);

    STEP("operator==");
    {
        Vector<T> e(x);
        CHECK(x == e, key, "a copy does not compare equal");
        int p = r.range(0, n - 1);
        e[p] += (T)1;
        CHECK(!(x == e), key, "vectors that differ by 1 at %d of %d compare equal", p, n);
        e[p] -= (T)2;
        CHECK(!(x == e), key, "vectors that differ by -1 at %d of %d compare equal", p, n);
        Vector<T> longer(n + 1, (T)0);
        std::copy(xv.begin(), xv.end(), longer.begin());
        CHECK(!(x == longer) && !(longer == x), key, "vectors of different length compare equal");
    }
    STEP("Print");
    {
        std::ostringstream os;
        x.Print("label", os);
        std::istringstream is(os.str());
        std::string lab; is >> lab;
        CHECK(lab == "label", key, "Print label '%s'", lab.c_str());
        for (int i = 0; i < n; ++i)
        {
            double v; is >> v;
            CHECK((bool)is && std::fabs(v - (double)xv[i]) <= 1e-4 * std::fabs((double)xv[i]), key, "Print entry %d", i);
        }
        double extra; is >> extra;
        CHECK(!is, key, "Print writes more entries than the vector has");
    }
    for (int i = 0; i < n; ++i) CHECK(X.get()[i] == xv[i] && Y.get()[i] == yv[i], "vec-operand-changed", "a reduction changed its operand at %d", i);
}
FAMILY(reduce_d, "vec.reduce.double") { reduce<double>(c); }
FAMILY(reduce_i, "vec.reduce.int") { reduce<int>(c); }

// mixed element types, double-only helpers
FAMILY(mixed, "vec.mixed")
{
    Rng& r = c.r;
    const int n = c.size(1);
    std::vector<int> iv = vh::gen_vec<int>(r, n, 0);
    std::vector<double> dv = vh::gen_vec<double>(r, n, r.range(0, 2));
    c.nontrivial = n > 1;
    c.mix(n); for (double v : dv) c.mixd(v);
    c.describe("n=%d", n);
    const char* key = "vec-mixed";
    {
        Vector<double> d(dv); Vector<int> i(iv);
        STEP("double+=int"); d += i;
        for (int k = 0; k < n; ++k) CHECK(vh::near(d[k], dv[k] + iv[k], std::fabs(dv[k]) + 5, 4), key, "double += int entry %d", k);
    }
    {
        Vector<double> d(n, 0.0); Vector<int> i(iv);
        for (int k = 0; k < n; ++k) d[k] = iv[k];
        STEP("double==int");
        CHECK(d == i && i == d, key, "equal int and double vectors compare different");
        int p = r.range(0, n - 1);
        d[p] += 0.5;
        CHECK(!(d == i) && !(i == d), key, "int and double vectors that differ by 0.5 compare equal");
    }
    {
        std::vector<double> nz = dv;
        nz[r.range(0, n - 1)] = 3.0;
        long double sq = 0; for (double v : nz) sq += (long double)v * v;
        double nrm = (double)std::sqrt(sq);
        Guarded<double> A(nz), B(nz);
        STEP("Normalize"); Normalize(A.view());
        STEP("member Normalize"); { VectorView<double> v = B.view(); v.Normalize(); }
        for (int k = 0; k < n; ++k)
        {
            CHECK(vh::near(A.get()[k], nz[k] / nrm, std::fabs(nz[k] / nrm), n), key, "Normalize entry %d", k);
            CHECK(vh::near(B.get()[k], nz[k] / nrm, std::fabs(nz[k] / nrm), n), key, "member Normalize entry %d", k);
        }
        A.guards(key); B.guards(key);
        {
            // integers cannot be normalised: an error, not another answer
            Vector<int> whole(iv); bool threw = false;
            try { whole.Normalize(); } catch (const std::exception&) { threw = true; }
            CHECK(threw, key, "normalising an integer vector returned normally");
            for (int k = 0; k < n; ++k) CHECK(whole[k] == iv[k], key, "normalising an integer vector changed entry %d", k);
        }
        Vector<double> own(nz);
        own.Normalize();
        CHECK(std::fabs(L2Norm(own) - 1.0) < 1e-12, key, "norm after Normalize %.17g", L2Norm(own));
    }
    {
        Guarded<double> A(dv);
        long double s = 0, sa = 0; for (double v : dv) { s += v; sa += std::fabs(v); }
        STEP("SubAvg"); SubAvg(A.view());
        for (int k = 0; k < n; ++k) CHECK(vh::near(A.get()[k], dv[k] - (double)(s / n), (double)sa + std::fabs(dv[k]), n), key, "SubAvg entry %d", k);
        A.guards(key);
    }
    {
        std::vector<double> yv = vh::gen_vec<double>(r, n, 2);
        Guarded<double> X(dv), Y(yv), Z(vh::gen_vec<double>(r, n, 2)), W(vh::gen_vec<double>(r, n, 2));
        STEP("Add(x,y,z)"); linalgcpp::Add(X.view(), Y.view(), Z.view());
        STEP("Sub(x,y,z)"); linalgcpp::Sub(X.view(), Y.view(), W.view());
        for (int k = 0; k < n; ++k)
        {
            CHECK(vh::near(Z.get()[k], dv[k] + yv[k], std::fabs(dv[k]) + std::fabs(yv[k]), 4), key, "Add(x,y,z) entry %d", k);
            CHECK(vh::near(W.get()[k], dv[k] - yv[k], std::fabs(dv[k]) + std::fabs(yv[k]), 4), key, "Sub(x,y,z) entry %d", k);
        }
        // output aliasing an input elementwise
        linalgcpp::Add(X.view(), Y.view(), X.view());
        for (int k = 0; k < n; ++k) CHECK(vh::near(X.get()[k], dv[k] + yv[k], std::fabs(dv[k]) + std::fabs(yv[k]), 4), key, "Add(x,y,x) entry %d", k);
        X.guards(key); Y.guards(key); Z.guards(key); W.guards(key);
    }
}

// ---------------------------------------------------------------- C04 views
template <typename T>
void views(Ctx& c)
{
    Rng& r = c.r;
    const int n = c.size(1);
    const int mode = 0;
    std::vector<T> model = vh::gen_vec<T>(r, n, mode);
    Vector<T> owner(model);
    c.nontrivial = n > 2;
    c.mix(n);
    c.describe("n=%d ops:", n);
    const char* key = "view-alias";
    const int nops = r.range(3, 14);
    for (int o = 0; o < nops; ++o)
    {
        int lo = r.range(0, n), len = r.range(0, n - lo);
        int op = r.range(0, 9);
        c.mix(op); c.mix(lo); c.mix(len);
        if (o < 8) c.describe(" %d[%d,%d)", op, lo, lo + len);
        T* base = owner.begin() + lo;
        VectorView<T> v(base, len);
        CHECK(v.size() == len && v.begin() == base && v.end() == base + len, key, "view does not cover its range");
        if (op == 0) { STEP("view=scalar"); T a = (T)r.range(-9, 9); v = a; for (int i = 0; i < len; ++i) model[lo + i] = a; }
        else if (op == 1 && len) { STEP("view[i]="); int k = r.range(0, len - 1); v[k] = (T)77; model[lo + k] = (T)77; }
        else if (op == 2) { STEP("view*=a"); v *= (T)2; for (int i = 0; i < len; ++i) { model[lo + i] = model[lo + i] * 2; } }
        else if (op == 3)
        {
            STEP("view copy aliases"); VectorView<T> w(v); CHECK(w.begin() == v.begin() && w.size() == v.size(), key, "copied view does not alias");
            w += (T)1; for (int i = 0; i < len; ++i) model[lo + i] += (T)1;
        }
        else if (op == 4)
        {
            STEP("view swap"); VectorView<T> all(owner.begin(), n), w(base, len);
            swap(all, w);
            CHECK(all.begin() == base && all.size() == len && w.begin() == owner.begin() && w.size() == n, key, "swap of views");
            // swapping views moves no data
        }
        else if (op == 5)
        {
            // disjoint halves: assignment copies values
            int h = len / 2;
            STEP("view=view"); VectorView<T> a(base, h), b(base + h, h);
            a = b; for (int i = 0; i < h; ++i) model[lo + i] = model[lo + h + i];
            CHECK(a.begin() == base && b.begin() == base + h, key, "assignment re-seated a view");
        }
        else if (op == 6)
        {
            STEP("std::vector view"); std::vector<T> sv = vh::gen_vec<T>(r, len, mode); std::vector<T> s0 = sv;
            VectorView<T> w(sv); CHECK(w.begin() == sv.data() && w.size() == len, key, "view of std::vector does not alias");
            w += v; for (int i = 0; i < len; ++i) CHECK(sv[i] == (T)(s0[i] + model[lo + i]), key, "std::vector view write not visible");
        }
        else if (op == 7)
        {
            STEP("view move"); VectorView<T> w(std::move(v)); w -= (T)1; for (int i = 0; i < len; ++i) model[lo + i] -= (T)1;
        }
        else if (op == 8)
        {
            STEP("Vector(view) is deep"); Vector<T> d(v); d *= (T)3;
            if (len) d[0] = (T)-55;
        }
        else if (op == 9)
        {
            STEP("range for"); for (T& e : v) e -= (T)2; for (int i = 0; i < len; ++i) model[lo + i] -= (T)2;
        }
        CHECK(owner.size() == n, key, "owner size changed");
        for (int i = 0; i < n; ++i)
            CHECK(owner[i] == model[i], key, "after op %d on [%d,%d): owner entry %d is %g, expected %g", op, lo, lo + len, i, (double)owner[i], (double)model[i]);
        if (std::fabs((double)*std::max_element(model.begin(), model.end(), [](T a, T b) { return std::fabs((double)a) < std::fabs((double)b); })) > 1e6)
        { for (T& m : model) m = (T)1; owner = (T)1; }
    }
}
FAMILY(views_d, "vec.views.double") { views<double>(c); }
FAMILY(views_i, "vec.views.int") { views<int>(c); }

template <typename T>
void blockvec(Ctx& c)
{
    Rng& r = c.r;
    const int nb = r.range(0, 5);
    std::vector<int> off(1, 0);
    for (int b = 0; b < nb; ++b) off.push_back(off.back() + (r.chance(1, 4) ? 0 : c.size()));
    const int n = off.back();
    c.nontrivial = nb > 1 && n > 1;
    c.mix(nb); for (int o : off) c.mix(o);
    c.describe("blocks=%d n=%d", nb, n);
    const char* key = "blockvec";
    std::vector<T> model(n);
    int how = r.range(0, 2);
    STEP("BlockVector ctor");
    BlockVector<T> bv;
    CHECK(bv.size() == 0, key, "default size");
    if (how == 0) { bv = BlockVector<T>(off); for (T& m : model) m = (T)0; }
    if (how == 1) { bv = BlockVector<T>(off, (T)4); for (T& m : model) m = (T)4; }
    if (how == 2) { model = vh::gen_vec<T>(r, n, 0); Vector<T> t(model); bv = BlockVector<T>(t, off); if (n) t[0] = (T)99; }
    CHECK(bv.size() == n, key, "size %d expected %d", bv.size(), n);
    CHECK(bv.GetOffsets() == off, key, "offsets not kept");
    auto same = [&](const BlockVector<T>& v, const std::vector<T>& m, const char* what)
    {
        CHECK(v.size() == (int)m.size(), key, "%s: size", what);
        for (int i = 0; i < (int)m.size(); ++i) CHECK(v[i] == m[i], key, "%s: entry %d is %g, expected %g", what, i, (double)v[i], (double)m[i]);
        CHECK(v.GetOffsets() == off, key, "%s: offsets", what);
        for (int b = 0; b < nb; ++b)
        {
            const VectorView<T>& blk = v.GetBlock(b);
            CHECK(blk.size() == off[b + 1] - off[b], key, "%s: block %d size", what, b);
            CHECK(blk.begin() == v.begin() + off[b], key, "%s: block %d does not alias the vector", what, b);
        }
    };
    same(bv, model, "constructed");
    for (int o = 0; o < 6 && nb; ++o)
    {
        int b = r.range(0, nb - 1);
        int lo = off[b], hi = off[b + 1];
        STEP("GetBlock write");
        VectorView<T> blk = bv.GetBlock(b);
        int k = r.range(0, 3);
        if (k == 0) { blk = (T)(o + 1); for (int i = lo; i < hi; ++i) model[i] = (T)(o + 1); }
        if (k == 1) { blk += (T)2; for (int i = lo; i < hi; ++i) model[i] += (T)2; }
        if (k == 2) { std::vector<T> s = vh::gen_vec<T>(r, hi - lo, 0); Vector<T> sv(s); blk = sv; for (int i = lo; i < hi; ++i) model[i] = s[i - lo]; }
        if (k == 3) { bv.GetBlock(b) *= (T)-1; for (int i = lo; i < hi; ++i) model[i] = -model[i]; }
        same(bv, model, "after block write");
    }
    STEP("BlockVector copy/move/swap");
    BlockVector<T> cp(bv);
    same(cp, model, "copy");
    if (n) { cp[0] += (T)5; CHECK(bv[0] == model[0], key, "a copy shares storage"); cp[0] -= (T)5; }
    BlockVector<T> mv(std::move(cp));
    same(mv, model, "moved");
    BlockVector<T> as; as = mv; same(as, model, "assigned"); same(mv, model, "assign source");
    as = (T)3; std::vector<T> th(n, (T)3); same(as, th, "scalar assign");
    swap(as, mv); same(as, model, "swap a"); same(mv, th, "swap b");
    BlockVector<T> ma; ma = std::move(as); same(ma, model, "move assigned");
}
FAMILY(blockvec_d, "vec.block.double") { blockvec<double>(c); }
FAMILY(blockvec_i, "vec.block.int") { blockvec<int>(c); }

// ------------------------------------------------------- C22 randomisation
FAMILY(rand_d, "vec.random.double")
{
    Rng& r = c.r;
    int n = r.chance(1, 10) ? r.range(0, 3) : r.range(4, 400);
    int seed = r.chance(1, 20) ? INT_MAX : (r.chance(1, 2) ? r.range(1, 50) : r.range(1, 1 << 30));
    double lo = r.uniform(-50, 50), hi = lo + r.uniform(0.5, 90);
    c.nontrivial = n > 3; c.mix(n); c.mix(seed); c.mixd(lo);
    c.describe("n=%d seed=%d range=[%g,%g]", n, seed, lo, hi);
    const char* key = "randomize";
    Guarded<double> A(std::vector<double>(n, 1e9)), B(std::vector<double>(n, -1e9)), D(std::vector<double>(n, 0.0));
    STEP("Randomize(double)");
    Randomize(A.view(), lo, hi, seed);
    // unrelated use in between must not disturb the sequence
    if (r.chance(1, 2)) { Vector<double> t(7); Randomize(t, 0.0, 1.0, 5); }
    if (r.chance(1, 2)) { Vector<int> t(7); Randomize(t, 0, 9); }
    Randomize(B.view(), lo, hi, seed);
    std::vector<double> a = A.get(), b = B.get();
    for (int i = 0; i < n; ++i)
    {
        CHECK(a[i] >= lo && a[i] <= hi, key, "value %.17g outside [%g,%g]", a[i], lo, hi);
        CHECK(a[i] == b[i], key, "the same seed %d gave %.17g then %.17g at %d", seed, a[i], b[i], i);
    }
    A.guards(key); B.guards(key);
    if (n >= 8)
    {
        STEP("Randomize other seed");
        Randomize(D.view(), lo, hi, seed == 1 ? 2 : seed - 1);
        CHECK(D.get() != a, key, "seeds %d and its neighbour give the same sequence", seed);
        STEP("Randomize unseeded");
        Vector<double> u1(n), u2(n);
        Randomize(u1, lo, hi); Randomize(u2, lo, hi);
        bool same = true; for (int i = 0; i < n; ++i) { if (u1[i] != u2[i]) same = false; CHECK(u1[i] >= lo && u1[i] <= hi, key, "unseeded value out of range"); }
        CHECK(!same, key, "two unseeded draws of %d values are identical", n);
        std::set<double> dist(a.begin(), a.end());
        CHECK((int)dist.size() > n / 2, key, "only %d distinct values among %d draws", (int)dist.size(), n);
        double mn = *std::min_element(a.begin(), a.end()), mx = *std::max_element(a.begin(), a.end());
        if (n >= 200) CHECK(mn < lo + 0.25 * (hi - lo) && mx > hi - 0.25 * (hi - lo), key, "the draws leave part of the range empty: [%g,%g] in [%g,%g]", mn, mx, lo, hi);
    }
    STEP("member Randomize(double)");
    Vector<double> m1(n), m2(n);
    int il = r.range(-9, 9), ih = il + r.range(1, 30);
    m1.Randomize(il, ih, seed); m2.Randomize(il, ih, seed);
    for (int i = 0; i < n; ++i) CHECK(m1[i] == m2[i] && m1[i] >= il && m1[i] <= ih, key, "member Randomize entry %d", i);
}
FAMILY(rand_i, "vec.random.int")
{
    Rng& r = c.r;
    int n = r.chance(1, 10) ? r.range(0, 3) : r.range(4, 500);
    int seed = r.range(1, 1 << 30);
    int lo = r.range(-40, 40), hi = lo + (r.chance(1, 5) ? 0 : r.range(1, 12));
    c.nontrivial = n > 3; c.mix(n); c.mix(seed); c.mix(lo); c.mix(hi);
    c.describe("n=%d seed=%d range=[%d,%d]", n, seed, lo, hi);
    const char* key = "randomize";
    Guarded<int> A(std::vector<int>(n, 999)), B(std::vector<int>(n, -999));
    STEP("Randomize(int)");
    Randomize(A.view(), lo, hi, seed);
    Randomize(B.view(), lo, hi, seed);
    std::vector<int> a = A.get(), b = B.get();
    for (int i = 0; i < n; ++i)
    {
        CHECK(a[i] >= lo && a[i] <= hi, key, "value %d outside [%d,%d]", a[i], lo, hi);
        CHECK(a[i] == b[i], key, "the same seed gave different values at %d", i);
    }
    A.guards(key); B.guards(key);
    if (n >= 300)
    {
        std::set<int> dist(a.begin(), a.end());
        CHECK((int)dist.size() == hi - lo + 1, key, "%d draws from [%d,%d] reach only %d values", n, lo, hi, (int)dist.size());
    }
    STEP("member Randomize(int)");
    Vector<int> m(n); m.Randomize(lo, hi, seed);
    for (int i = 0; i < n; ++i) CHECK(m[i] == a[i], key, "member and free Randomize disagree at %d", i);
}

// ------------------------------------------------------------- C25 timer --
// Fault injection: the wall clock of the machine is set back or forth between clicks (an administrator, NTP, a
// suspended virtual machine). The real clock is not touched: this program sees CLOCK_REALTIME plus an offset.
} // namespace
static long long wall_clock_offset = 0; // seconds
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    int rc = (int)syscall(SYS_clock_gettime, id, ts);
    if (rc == 0 && id == CLOCK_REALTIME) ts->tv_sec += wall_clock_offset;
    return rc;
}
namespace
{
struct ClockStep { ~ClockStep() { wall_clock_offset = 0; } };

FAMILY(timer, "timer")
{
    Rng& r = c.r;
    bool st = r.chance(1, 2);
    int k = r.range(0, 12);
    c.nontrivial = k > 1; c.mix(st); c.mix(k); c.mix(r.next() % 64);
    c.describe("started=%d clicks=%d", (int)st, k);
    const char* key = "timer";
    STEP("Timer");
    auto w0 = std::chrono::steady_clock::now();
    Timer t(st ? Timer::Start::True : Timer::Start::False);
    int clicks = st ? 1 : 0;
    std::vector<double> lower; // true lower bounds of each lap, from busy waits
    double prev_total = 0;
    bool stepping = r.chance(1, 2);
    ClockStep restore;
    bool slow = r.chance(1, 16);
    if (slow) vh::count("laps of a millisecond and more");
    for (int i = 0; i < k; ++i)
    {
        double want = slow ? r.range(1, 40) * 1e-4 : r.range(0, 40) * 1e-6;
        auto a = std::chrono::steady_clock::now();
        while (std::chrono::duration<double>(std::chrono::steady_clock::now() - a).count() < want) {}
        double low = std::chrono::duration<double>(std::chrono::steady_clock::now() - a).count();
        if (stepping && r.chance(1, 3))
        {
            auto before = std::chrono::system_clock::now();
            long long d = (r.chance(1, 2) ? 1 : -1) * (long long)r.range(1, 100000);
            wall_clock_offset += d;
            long long seen = std::chrono::duration_cast<std::chrono::seconds>(std::chrono::system_clock::now() - before).count();
            if (std::llabs(seen - d) <= 1) vh::count("monitor: wall clock set between clicks");
            c.describe(" clock%+lld", d);
        }
        t.Click();
        if (clicks > 0) lower.push_back(low);
        ++clicks;
        double tot = t.TotalTime();
        CHECK(tot >= prev_total - 1e-6, key, "total time went backwards: %.9g then %.9g", prev_total, tot);
        prev_total = tot;
    }
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - w0).count();
    double total = t.TotalTime();
    if (clicks < 2) { CHECK(total == 0.0, key, "total %.9g with %d clicks", total, clicks); return; }
    double sum = 0;
    for (int i = 0; i < clicks - 1; ++i)
    {
        double lap = t[i];
        CHECK(lap >= 0.99 * lower[i] - 1e-6, key, "lap %d is %.9g s but at least %.9g s passed", i, lap, lower[i]);
        CHECK(lap <= wall * 1.01 + 1e-6, key, "lap %d is %.9g s, longer than the whole run %.9g s", i, lap, wall);
        sum += lap;
    }
    // both are differences of the same clock readings in double precision: only rounding may separate them
    CHECK(std::fabs(sum - total) <= 1e-12 + 1e-13 * sum, key, "laps sum to %.9g but the total is %.9g", sum, total);
    CHECK(t.TotalTime() == total, key, "reading the total changes it");
    Timer u(t);
    u.Click();
    CHECK(t.TotalTime() == total, key, "clicking a copy changed the original");
}

} // namespace
