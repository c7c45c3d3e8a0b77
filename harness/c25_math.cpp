// Vectors, matrices, quaternions, boxes and axis rotations against the same formulas in double precision.
#include "plyvf.h"
#include <ply-math/Base.h>
#include <ply-math/Vector.h>
#include <ply-math/Matrix.h>
#include <ply-math/Quaternion.h>
#include <ply-math/QuatPos.h>
#include <ply-math/AxisVector.h>
#include <ply-math/Approx.h>
#include <ply-math/Interpolate.h>
#include <ply-math/Half.h>
#include <ply-math/IntVector.h>
#include <ply-math/Complex.h>
#include <ply-math/Color.h>
#include <ply-math/Extra.h>
#include <ply-math-serial/TypePrinter.h>
#include <ply-math-serial/Hash.h>
#include <ply-runtime/string/String.h>
#include <cmath>
using namespace ply;

static float num(vf::Rng& r) {
    switch (r.below(8)) {
        case 0: return 0;
        case 1: return (float) r.range(-4, 4);
        case 2: return -0.f;
        case 3: return (float) std::ldexp(r.unit() - 0.5, (int) r.range(-20, 20));
        default: return (float) (r.unit() * 20 - 10);
    }
}
static float nonzero(vf::Rng& r) {
    float f = num(r);
    return std::abs(f) < 0.01f ? 1 + (float) r.unit() : f;
}
template <class V, u32 N>
struct VV {
    V v;
    float* p() {
        return (float*) &v;
    }
    const float* p() const {
        return (const float*) &v;
    }
};
template <class V>
static V vec(vf::Rng& r, bool nz = false) {
    V v;
    PLY_COMPILER_BARRIER();
    float* p = (float*) &v;
    for (u32 i = 0; i < sizeof(V) / 4; i++)
        p[i] = nz ? nonzero(r) : num(r);
    PLY_COMPILER_BARRIER();
    return v;
}
template <class V>
static void get(const V& v, float* out) {
    memcpy(out, &v, sizeof(V));
}
template <class V>
static vf::Str show(const V& v) {
    float f[16];
    get(v, f);
    vf::Str s = "(";
    for (u32 i = 0; i < sizeof(V) / 4; i++)
        s += vf::fmt(i ? " %.9g" : "%.9g", f[i]);
    return s + ")";
}
static bool near(double a, double b, double scale, double tol = 3e-6) {
    return std::abs(a - b) <= tol * (scale + std::abs(b)) + 1e-30 || a == b || (std::isnan(a) && std::isnan(b));
}

#define CK(cond, key, ...) VF_CHECKR(cond, false, key, __VA_ARGS__)

template <class V>
static bool vectors(vf::Rng& r) {
    const u32 N = sizeof(V) / 4;
    for (u32 rep = 0; rep < 60; rep++) {
        V a = vec<V>(r), b = vec<V>(r), d = vec<V>(r, true);
        if (r.chance(1, 6))
            b = a;
        if (r.chance(1, 6)) {
            // differing in one component
            b = a;
            float t[4];
            get(b, t);
            t[r.below(N)] += 1;
            memcpy(&b, t, sizeof(V));
        }
        float s = nonzero(r);
        float A[4], B[4], D[4], R[4];
        get(a, A);
        get(b, B);
        get(d, D);
        vf::ctx(show(a) + show(b) + show(d));
        auto each = [&](const char* name, const V& got, auto&& f, double tol) {
            get(got, R);
            for (u32 i = 0; i < N; i++) {
                double want = f(i);
                CK(near(R[i], want, 1e-30, tol), "vector-component", "%s: component %u of %s, %s, %s, %g is %.9g, expected %.9g", name, i,
                   show(a).c_str(), show(b).c_str(), show(d).c_str(), s, R[i], want);
            }
            return true;
        };
        bool ok = each("neg", -a, [&](u32 i) { return -A[i]; }, 0) && each("add", a + b, [&](u32 i) { return A[i] + B[i]; }, 0) &&
                  each("sub", a - b, [&](u32 i) { return A[i] - B[i]; }, 0) && each("mul", a * b, [&](u32 i) { return A[i] * B[i]; }, 0) &&
                  each("div", a / d, [&](u32 i) { return A[i] / D[i]; }, 1e-6) && each("scale", a * s, [&](u32 i) { return A[i] * s; }, 0) &&
                  each("rscale", s * a, [&](u32 i) { return A[i] * s; }, 0) && each("sdiv", a / s, [&](u32 i) { return A[i] / s; }, 1e-6) &&
                  each("rdiv", s / d, [&](u32 i) { return s / D[i]; }, 1e-6) && each("sadd", a + s, [&](u32 i) { return A[i] + s; }, 0) &&
                  each("ssub", s - a, [&](u32 i) { return s - A[i]; }, 0) &&
                  each("min", min(a, b), [&](u32 i) { return std::min(A[i], B[i]); }, 0) &&
                  each("max", max(a, b), [&](u32 i) { return std::max(A[i], B[i]); }, 0) &&
                  each("abs", abs(a), [&](u32 i) { return std::abs(A[i]); }, 0) &&
                  each("clamp", clamp(d, min(a, b), max(a, b)),
                       [&](u32 i) { return std::min(std::max(D[i], std::min(A[i], B[i])), std::max(A[i], B[i])); }, 0) &&
                  each("pow", pow(abs(d), V{2}), [&](u32 i) { return (double) D[i] * D[i]; }, 1e-5) &&
                  each("mix", mix(a, b, 0.25f), [&](u32 i) { return A[i] * 0.75f + B[i] * 0.25f; }, 0) &&
                  each("fill", V{s}, [&](u32) { return s; }, 0) &&
                  each("roundUp", roundUp(a, 0.5f), [&](u32 i) { return std::ceil(A[i] * 2) / 2; }, 0) &&
                  each("roundDown", roundDown(a, 0.5f), [&](u32 i) { return std::floor(A[i] * 2) / 2; }, 0);
        if (!ok)
            return false;
        bool small = true;
        for (u32 i = 0; i < N; i++)
            small &= std::abs(A[i]) < 1e6;
        if (small) {
            if (!each("roundNearest", roundNearest(a, 0.25f), [&](u32 i) { return std::trunc((A[i] * 4) + (A[i] < 0 ? -0.5f : 0.5f)) / 4; }, 0))
                return false;
            V q = roundNearest(a, 0.25f);
            CK(isRounded(q, 0.25f), "vector-rounded", "%s", show(q).c_str());
        }
        V c = a;
        c += b;
        ok = each("+=", c, [&](u32 i) { return A[i] + B[i]; }, 0);
        c = a;
        c -= b;
        ok = ok && each("-=", c, [&](u32 i) { return A[i] - B[i]; }, 0);
        c = a;
        c *= b;
        ok = ok && each("*=", c, [&](u32 i) { return A[i] * B[i]; }, 0);
        c = a;
        c /= d;
        ok = ok && each("/=", c, [&](u32 i) { return A[i] / D[i]; }, 1e-6);
        c = a;
        c /= s;
        ok = ok && each("/= scalar", c, [&](u32 i) { return A[i] / s; }, 1e-6);
        c = a;
        c *= s;
        ok = ok && each("*= scalar", c, [&](u32 i) { return A[i] * s; }, 0);
        if (!ok)
            return false;
        double dt = 0, l2 = 0, mag = 0, d2 = 0;
        bool eq = true, lt = true, le = true, anyLt = false, anyLe = false, gt = true, ge = true, anyGt = false, anyGe = false;
        for (u32 i = 0; i < N; i++) {
            dt += (double) A[i] * B[i];
            mag += std::abs((double) A[i] * B[i]);
            l2 += (double) A[i] * A[i];
            d2 += ((double) A[i] - B[i]) * ((double) A[i] - B[i]);
            eq &= A[i] == B[i];
            lt &= A[i] < B[i];
            le &= A[i] <= B[i];
            gt &= A[i] > B[i];
            ge &= A[i] >= B[i];
            anyLt |= A[i] < B[i];
            anyLe |= A[i] <= B[i];
            anyGt |= A[i] > B[i];
            anyGe |= A[i] >= B[i];
        }
        CK(near(dot(a, b), dt, mag), "vector-dot", "dot of %s and %s is %.9g, expected %.9g", show(a).c_str(), show(b).c_str(), dot(a, b), dt);
        CK(near(a.length2(), l2, l2) && near(a.length(), std::sqrt(l2), std::sqrt(l2)), "vector-length", "%s: %.9g, %.9g", show(a).c_str(),
           a.length2(), a.length());
        CK((a == b) == eq && (a != b) == !eq, "vector-equal", "%s and %s", show(a).c_str(), show(b).c_str());
        CK(all(a < b) == lt && all(a <= b) == le && any(a < b) == anyLt && any(a <= b) == anyLe && all(a > b) == gt && all(a >= b) == ge &&
               any(a > b) == anyGt && any(a >= b) == anyGe,
           "vector-compare", "%s and %s", show(a).c_str(), show(b).c_str());
        float eps = (float) std::abs(num(r));
        if (std::abs(d2 - (double) eps * eps) > 1e-4 * (d2 + eps * eps))
            CK(isNear(a, b, eps) == (d2 <= (double) eps * eps), "vector-near", "%s and %s within %g", show(a).c_str(), show(b).c_str(), eps);
        V n = d.normalized(), sn = d.safeNormalized();
        CK(std::abs(n.length() - 1) < 1e-5 && n.isUnit() && near(dot(n, d), d.length(), d.length(), 1e-5), "vector-normalized", "%s -> %s",
           show(d).c_str(), show(n).c_str());
        CK(isNear(n, sn, 1e-5f), "vector-normalized", "safe: %s", show(sn).c_str());
        CK((d * 0.f).safeNormalized(a) == a, "vector-normalized", "fallback");
        CK(!(n * 1.5f).isUnit() && !(n * 0.9f).isUnit(), "vector-unit", "%s", show(n).c_str());
        // Swizzles
        u32 i0 = r.below(N), i1 = r.below(N), i2 = r.below(N), i3 = r.below(N);
        float W[4];
        get(a.swizzle(i0, i1), W);
        CK(W[0] == A[i0] && W[1] == A[i1], "vector-swizzle", "2");
        get(a.swizzle(i0, i1, i2), W);
        CK(W[0] == A[i0] && W[1] == A[i1] && W[2] == A[i2], "vector-swizzle", "3");
        get(a.swizzle(i0, i1, i2, i3), W);
        CK(W[0] == A[i0] && W[1] == A[i1] && W[2] == A[i2] && W[3] == A[i3], "vector-swizzle", "4");
        vf::Str text = vf::str(String::from(a));
        vf::Str want = "{";
        for (u32 i = 0; i < N; i++)
            want += (i ? ", " : "") + vf::str(String::from(A[i]));
        CK(text == want + "}", "vector-print", "%s, expected %s}", text.c_str(), want.c_str());
        V z = a;
        float Z[4];
        get(z, Z);
        for (u32 i = 0; i < N; i++)
            if (Z[i] == 0)
                Z[i] = -Z[i];
        memcpy(&z, Z, sizeof(V));
        CK(z == a && Hasher::hash(z) == Hasher::hash(a), "vector-hash", "equal vectors hash differently: %s", show(a).c_str());
        vf::evals(40);
        vf::distinct(vf::fnv(A, sizeof(V)));
    }
    return true;
}

VF_WORKLOAD(float2, 20, 200) {
    if (!vectors<Float2>(r))
        return;
    Float2 a = vec<Float2>(r), b = vec<Float2>(r);
    double x = (double) a.x * b.y, y = (double) a.y * b.x;
    VF_CHECK(near(cross(a, b), x - y, std::abs(x) + std::abs(y)), "vector-cross", "%s x %s", show(a).c_str(), show(b).c_str());
    auto iv = Float2{3.7f, -2.2f}.to<IntVec2>();
    VF_CHECK(iv.x == 3 && iv.y == -2, "vector-to", "%d %d", iv.x, iv.y);
    Float2 m = Complex::mul(a, b);
    VF_CHECK(near(m.x, (double) a.x * b.x - (double) a.y * b.y, a.length() * b.length()) && near(m.y, x + y, a.length() * b.length()),
             "complex-mul", "%s * %s", show(a).c_str(), show(b).c_str());
    float ang = (float) (r.unit() * 6 - 3);
    VF_CHECK(std::abs(Complex::getAngle(Complex::fromAngle(ang)) - ang) < 1e-5, "complex-angle", "%g", ang);
    VF_CHECK(a.r() == a.x && a.g() == a.y, "vector-color", "%s", show(a).c_str());
}
VF_WORKLOAD(float3, 20, 200) {
    if (!vectors<Float3>(r))
        return;
    for (u32 i = 0; i < 100; i++) {
        Float3 a = vec<Float3>(r), b = vec<Float3>(r), c = cross(a, b);
        double w[3] = {(double) a.y * b.z - (double) a.z * b.y, (double) a.z * b.x - (double) a.x * b.z,
                       (double) a.x * b.y - (double) a.y * b.x};
        double s = a.length() * b.length();
        VF_CHECK(near(c.x, w[0], s) && near(c.y, w[1], s) && near(c.z, w[2], s), "vector-cross", "%s x %s = %s", show(a).c_str(),
                 show(b).c_str(), show(c).c_str());
        VF_CHECK(a.asFloat2() == (Float2{a.x, a.y}) && a.b() == a.z, "vector-as", "%s", show(a).c_str());
    }
}
VF_WORKLOAD(float4, 20, 200) {
    if (!vectors<Float4>(r))
        return;
    Float4 a = vec<Float4>(r);
    VF_CHECK(a.asFloat3() == (Float3{a.x, a.y, a.z}) && a.asFloat2() == (Float2{a.x, a.y}) && a.a() == a.w && a.asQuaternion().w == a.w,
             "vector-as", "%s", show(a).c_str());
    VF_CHECK((Float4{a.asFloat3(), 5}) == (Float4{a.x, a.y, a.z, 5}) && (Float4{a.asFloat2(), 5, 6}) == (Float4{a.x, a.y, 5, 6}), "vector-make",
             "%s", show(a).c_str());
}

//--------------------------------------------------------------------
// Matrices in double precision, as 4x4
struct M {
    double m[4][4]; // [column][row]
};
static M ident() {
    M r = {};
    for (u32 i = 0; i < 4; i++)
        r.m[i][i] = 1;
    return r;
}
template <class Mat>
static M toM(const Mat& a, u32 cols, u32 rows) {
    M r = ident();
    float f[16];
    get(a, f);
    for (u32 c = 0; c < cols; c++)
        for (u32 w = 0; w < rows; w++)
            r.m[c][w] = f[c * rows + w];
    return r;
}
static M toM(const Float2x2& a) {
    return toM(a, 2, 2);
}
static M toM(const Float3x3& a) {
    return toM(a, 3, 3);
}
static M toM(const Float3x4& a) {
    return toM(a, 4, 3);
}
static M toM(const Float4x4& a) {
    return toM(a, 4, 4);
}
static M mul(const M& a, const M& b) {
    M r = {};
    for (u32 c = 0; c < 4; c++)
        for (u32 w = 0; w < 4; w++)
            for (u32 k = 0; k < 4; k++)
                r.m[c][w] += a.m[k][w] * b.m[c][k];
    return r;
}
static M transpose(const M& a) {
    M r;
    for (u32 c = 0; c < 4; c++)
        for (u32 w = 0; w < 4; w++)
            r.m[c][w] = a.m[w][c];
    return r;
}
static double size(const M& a) {
    double s = 0;
    for (auto& c : a.m)
        for (double x : c)
            s = std::max(s, std::abs(x));
    return s;
}
static vf::Str show(const M& a) {
    vf::Str s;
    for (auto& c : a.m)
        s += vf::fmt("(%.7g %.7g %.7g %.7g)", c[0], c[1], c[2], c[3]);
    return s;
}
static bool same(const char* name, const M& got, const M& want, double tol = 1e-5) {
    double s = std::max(1e-20, size(want));
    for (u32 c = 0; c < 4; c++)
        for (u32 w = 0; w < 4; w++)
            CK(std::abs(got.m[c][w] - want.m[c][w]) <= tol * s, "matrix", "%s is %s, expected %s", name, show(got).c_str(), show(want).c_str());
    vf::evals(1);
    return true;
}
// Rodrigues' formula
static M rotation(const double* axis, double t) {
    double x = axis[0], y = axis[1], z = axis[2], c = std::cos(t), s = std::sin(t), k = 1 - c;
    M r = ident();
    double v[3][3] = {{c + x * x * k, y * x * k + z * s, z * x * k - y * s},
                      {x * y * k - z * s, c + y * y * k, z * y * k + x * s},
                      {x * z * k + y * s, y * z * k - x * s, c + z * z * k}};
    for (u32 i = 0; i < 3; i++)
        for (u32 j = 0; j < 3; j++)
            r.m[i][j] = v[i][j];
    return r;
}
static M translation(const Float3& p) {
    M r = ident();
    r.m[3][0] = p.x;
    r.m[3][1] = p.y;
    r.m[3][2] = p.z;
    return r;
}
static M scaling(double x, double y, double z) {
    M r = ident();
    r.m[0][0] = x;
    r.m[1][1] = y;
    r.m[2][2] = z;
    return r;
}
template <class Mat>
static Mat randMat(vf::Rng& r) {
    Mat m;
    float f[16];
    for (u32 i = 0; i < sizeof(Mat) / 4; i++)
        f[i] = r.chance(1, 5) ? num(r) : (float) (r.unit() * 4 - 2);
    memcpy(&m, f, sizeof(Mat));
    return m;
}
template <class Mat>
static bool equality(vf::Rng& r, const Mat& a) {
    Mat b = a;
    CK(a == b && !(a != b), "matrix-equal", "%s isn't equal to itself", show(a).c_str());
    float f[16];
    get(a, f);
    u32 i = r.below(sizeof(Mat) / 4);
    f[i] = f[i] + 1 + std::abs(f[i]);
    memcpy(&b, f, sizeof(Mat));
    CK(!(a == b) && a != b, "matrix-equal", "element %u makes no difference", i);
    get(a, f);
    for (u32 k = 0; k < sizeof(Mat) / 4; k++)
        if (f[k] == 0)
            f[k] = -f[k];
    memcpy(&b, f, sizeof(Mat));
    CK(a == b, "matrix-equal", "0 and -0");
    return true;
}
static Float3 unit(vf::Rng& r, double* d) {
    double l;
    do {
        l = 0;
        for (u32 i = 0; i < 3; i++) {
            d[i] = r.chance(1, 6) ? 0 : r.unit() * 2 - 1;
            l += d[i] * d[i];
        }
    } while (l < 0.01);
    l = std::sqrt(l);
    for (u32 i = 0; i < 3; i++)
        d[i] /= l;
    return {(float) d[0], (float) d[1], (float) d[2]};
}

VF_WORKLOAD(matrices, 60, 600) {
    for (u32 rep = 0; rep < 20; rep++) {
        Float2x2 a2 = randMat<Float2x2>(r), b2 = randMat<Float2x2>(r);
        Float3x3 a3 = randMat<Float3x3>(r), b3 = randMat<Float3x3>(r);
        Float3x4 a34 = randMat<Float3x4>(r), b34 = randMat<Float3x4>(r);
        Float4x4 a4 = randMat<Float4x4>(r), b4 = randMat<Float4x4>(r);
        bool ok = same("2x2 * 2x2", toM(a2 * b2), mul(toM(a2), toM(b2))) && same("3x3 * 3x3", toM(a3 * b3), mul(toM(a3), toM(b3))) &&
                  same("3x4 * 3x4", toM(a34 * b34), mul(toM(a34), toM(b34))) && same("4x4 * 4x4", toM(a4 * b4), mul(toM(a4), toM(b4))) &&
                  same("3x4 * 4x4", toM(a34 * b4), mul(toM(a34), toM(b4))) && same("4x4 * 3x4", toM(a4 * b34), mul(toM(a4), toM(b34))) &&
                  same("2x2 transposed", toM(a2.transposed()), transpose(toM(a2)), 0) &&
                  same("3x3 transposed", toM(a3.transposed()), transpose(toM(a3)), 0) &&
                  same("4x4 transposed", toM(a4.transposed()), transpose(toM(a4)), 0) && equality(r, a2) && equality(r, a3) && equality(r, a34) &&
                  equality(r, a4) && same("to 4x4", toM(a34.toFloat4x4()), toM(a34), 0) && same("as 3x3", toM(a34.asFloat3x3()), [&] {
                      M m = toM(a34);
                      m.m[3][0] = m.m[3][1] = m.m[3][2] = 0;
                      return m;
                  }(), 0) && same("4x4 to 3x4", toM(a4.toFloat3x4()), [&] {
                      M m = toM(a4);
                      for (u32 c = 0; c < 4; c++)
                          m.m[c][3] = c == 3;
                      return m;
                  }(), 0) && same("4x4 to 3x3", toM(a4.toFloat3x3()), [&] {
                      M m = ident(), f = toM(a4);
                      for (u32 c = 0; c < 3; c++)
                          for (u32 w = 0; w < 3; w++)
                              m.m[c][w] = f.m[c][w];
                      return m;
                  }(), 0);
        Float3 p = vec<Float3>(r);
        ok = ok && same("3x4 of 3x3", toM(Float3x4{a3, p}), mul(translation(p), toM(a3)), 1e-6) &&
             same("4x4 of 3x3", toM(Float4x4{a3, p}), mul(translation(p), toM(a3)), 1e-6);
        if (!ok)
            return;
        // Matrix times vector: a matrix whose first column is the vector
        auto col = [](double x, double y, double z, double w) {
            M m = {};
            m.m[0][0] = x;
            m.m[0][1] = y;
            m.m[0][2] = z;
            m.m[0][3] = w;
            return m;
        };
        Float4 v = vec<Float4>(r);
        Float4 r4 = a4 * v, r34 = a34 * v;
        Float3 v3 = v.asFloat3(), r3 = a3 * v3, rp = a34 * v3;
        Float2 v2 = v.asFloat2(), r2 = a2 * v2;
        double tol = 1e-5;
        auto sc = [&](const M& m) { return mul(m, ident()); };
        (void) sc;
        M w4 = mul(toM(a4), col(v.x, v.y, v.z, v.w)), w34 = mul(toM(a34), col(v.x, v.y, v.z, v.w)), w3 = mul(toM(a3), col(v.x, v.y, v.z, 0)),
          wp = mul(toM(a34), col(v.x, v.y, v.z, 1)), w2 = mul(toM(a2), col(v.x, v.y, 0, 0));
        double mag = 1e-6 + (size(toM(a4)) + size(toM(a34)) + size(toM(a3)) + size(toM(a2))) * (1 + std::abs(v.x) + std::abs(v.y) + std::abs(v.z) + std::abs(v.w));
        auto cmp = [&](const char* name, const float* got, u32 n, const M& want) {
            for (u32 i = 0; i < n; i++)
                CK(std::abs(got[i] - want.m[0][i]) <= tol * mag, "matrix-vector", "%s: component %u is %.9g, expected %.9g", name, i, got[i],
                   want.m[0][i]);
            return true;
        };
        ok = cmp("4x4", &r4.x, 4, w4) && cmp("3x4", &r34.x, 4, w34) && cmp("3x3", &r3.x, 3, w3) && cmp("3x4 point", &rp.x, 3, wp) &&
             cmp("2x2", &r2.x, 2, w2);
        if (!ok)
            return;
        vf::distinct(vf::fnv(&a4, sizeof(a4)));
    }
}

VF_WORKLOAD(transforms, 60, 600) {
    for (u32 rep = 0; rep < 20; rep++) {
        double ax[3], bx[3];
        Float3 axis = unit(r, ax), axis2 = unit(r, bx);
        double t = r.chance(1, 4) ? r.range(-4, 4) * 1.5707963267948966 : r.unit() * 14 - 7, t2 = r.unit() * 14 - 7;
        if (r.chance(1, 8))
            t = 3.14159265358979 + (r.unit() - 0.5) * 1e-3;
        M R = rotation(ax, t), R2 = rotation(bx, t2);
        Float3 p = vec<Float3>(r), p2 = vec<Float3>(r), s = vec<Float3>(r);
        vf::ctx(vf::fmt("axis %s angle %.9g", show(axis).c_str(), t));
        Quaternion q = Quaternion::fromAxisAngle(axis, (float) t), q2 = Quaternion::fromAxisAngle(axis2, (float) t2);
        double cs = std::cos(t), sn = std::sin(t);
        M flat = ident();
        flat.m[0][0] = flat.m[1][1] = cs;
        flat.m[0][1] = sn;
        flat.m[1][0] = -sn;
        bool ok =
            same("2x2 rotation", toM(Float2x2::makeRotation((float) t)), flat) && same("3x3 rotation", toM(Float3x3::makeRotation(axis, (float) t)), R) &&
            same("3x4 rotation", toM(Float3x4::makeRotation(axis, (float) t)), R) &&
            same("4x4 rotation", toM(Float4x4::makeRotation(axis, (float) t)), R) && same("3x3 of quaternion", toM(Float3x3::fromQuaternion(q)), R) &&
            same("3x4 of quaternion", toM(Float3x4::fromQuaternion(q, p)), mul(translation(p), R)) &&
            same("4x4 of quaternion", toM(Float4x4::fromQuaternion(q, p)), mul(translation(p), R)) &&
            same("3x4 of QuatPos", toM(Float3x4::fromQuatPos(QuatPos{q, p})), mul(translation(p), R)) &&
            same("4x4 of QuatPos", toM(Float4x4::fromQuatPos(QuatPos{q, p})), mul(translation(p), R)) &&
            same("product", toM(Float3x3::fromQuaternion(q * q2)), mul(R, R2)) &&
            same("inverse", toM(Float3x3::fromQuaternion(q.inverted())), transpose(R)) &&
            same("negated", toM(Float3x3::fromQuaternion(-q)), R) && same("normalized", toM(Float3x3::fromQuaternion(q.normalized())), R) &&
            same("from 3x3", toM(Float3x3::fromQuaternion(Quaternion::fromOrtho(Float3x3::fromQuaternion(q)))), R, 2e-5) &&
            same("from 4x4", toM(Float3x3::fromQuaternion(Quaternion::fromOrtho(Float4x4::fromQuaternion(q, p)))), R, 2e-5) &&
            same("2x2 identity", toM(Float2x2::identity()), ident(), 0) && same("3x3 identity", toM(Float3x3::identity()), ident(), 0) &&
            same("3x4 identity", toM(Float3x4::identity()), ident(), 0) && same("4x4 identity", toM(Float4x4::identity()), ident(), 0) &&
            same("3x4 translation", toM(Float3x4::makeTranslation(p)), translation(p), 0) &&
            same("4x4 translation", toM(Float4x4::makeTranslation(p)), translation(p), 0) &&
            same("2x2 scale", toM(Float2x2::makeScale({s.x, s.y})), scaling(s.x, s.y, 1), 0) &&
            same("3x3 scale", toM(Float3x3::makeScale(s)), scaling(s.x, s.y, s.z), 0) &&
            same("3x4 scale", toM(Float3x4::makeScale(s)), scaling(s.x, s.y, s.z), 0) &&
            same("4x4 scale", toM(Float4x4::makeScale(s)), scaling(s.x, s.y, s.z), 0);
        if (!ok)
            return;
        // Rigid transforms
        QuatPos a{q, p}, b{q2, p2};
        M A = mul(translation(p), R), B = mul(translation(p2), R2), AI = mul(transpose(R), translation(-p));
        Float3x4 a34 = Float3x4::fromQuatPos(a);
        Float4x4 a44 = Float4x4::fromQuatPos(a);
        auto qp = [](const QuatPos& x) { return toM(Float4x4::fromQuatPos(x)); };
        QuatPosScale qs{q, p, s}, composed = QuatPos{q2, p2} * qs;
        ok = same("QuatPos product", qp(a * b), mul(A, B)) && same("QuatPos inverse", qp(a.inverted()), AI) &&
             same("QuatPos * quaternion", qp(a * q2), mul(A, R2)) && same("quaternion * QuatPos", qp(q2 * a), mul(R2, A)) &&
             same("3x4 inverted", toM(a34.invertedOrtho()), AI) && same("4x4 inverted", toM(a44.invertedOrtho()), AI) &&
             same("QuatPos from 3x4", qp(QuatPos::fromOrtho(a34)), A, 2e-5) && same("QuatPos from 4x4", qp(QuatPos::fromOrtho(a44)), A, 2e-5) &&
             same("QuatPos identity", qp(QuatPos::identity()), ident(), 0) &&
             same("QuatPos translation", qp(QuatPos::makeTranslation(p)), translation(p), 0) &&
             same("QuatPos rotation", qp(QuatPos::makeRotation(axis, (float) t)), R) &&
             same("QuatPosScale 4x4", toM(qs.toFloat4x4()), mul(A, scaling(s.x, s.y, s.z))) &&
             same("QuatPosScale 3x4", toM(qs.toFloat3x4()), mul(A, scaling(s.x, s.y, s.z))) &&
             same("QuatPosScale product", toM(composed.toFloat4x4()), mul(B, mul(A, scaling(s.x, s.y, s.z)))) &&
             same("QuatPosScale identity", toM(QuatPosScale::identity().toFloat4x4()), ident()) &&
             same("QuatPosScale translation", toM(QuatPosScale::makeTranslation(p).toFloat4x4()), translation(p)) &&
             same("QuatPosScale scale", toM(QuatPosScale::makeScale(s).toFloat4x4()), scaling(s.x, s.y, s.z));
        if (!ok)
            return;
        VF_CHECK(!a34.hasScale() && !Float3x3::fromQuaternion(q).hasScale() &&
                     (Float3x3::fromQuaternion(q) * Float3x3::makeScale({1, 1.2f, 1})).hasScale() &&
                     (Float3x3::fromQuaternion(q) * Float3x3::makeScale({1, 1, 0.8f})).hasScale() &&
                     (Float3x3::fromQuaternion(q) * Float3x3::makeScale({0.8f, 1, 1})).hasScale(),
                 "matrix-scale", "hasScale");
        // Rotated vectors
        Float3 v = vec<Float3>(r);
        auto pt = [&](const char* name, const Float3& got, const M& m, const Float3& x, double w) {
            double mag = size(m) * (w + std::abs(x.x) + std::abs(x.y) + std::abs(x.z)) + 1e-20;
            const float* f = &got.x;
            for (u32 i = 0; i < 3; i++) {
                double want = m.m[0][i] * x.x + m.m[1][i] * x.y + m.m[2][i] * x.z + m.m[3][i] * w;
                CK(std::abs(f[i] - want) < 1e-5 * mag, "rotated", "%s: component %u of %s is %.9g, expected %.9g", name, i, show(x).c_str(), f[i],
                   want);
            }
            return true;
        };
        ok = pt("quaternion * vector", q * v, R, v, 0) && pt("unit x", q.rotateUnitX(), R, {1, 0, 0}, 0) &&
             pt("unit y", q.rotateUnitY(), R, {0, 1, 0}, 0) && pt("unit z", q.rotateUnitZ(), R, {0, 0, 1}, 0) &&
             pt("QuatPos * vector", a * v, A, v, 1) && pt("QuatPosScale * vector", qs * v, mul(A, scaling(s.x, s.y, s.z)), v, 1);
        if (!ok)
            return;
        // From one unit vector to another
        Float3 to = r.chance(1, 5) ? -axis : r.chance(1, 5) ? axis : axis2;
        Quaternion turn = Quaternion::fromUnitVectors(axis, to);
        Float3 got = turn * axis;
        VF_CHECK(isNear(got, to, 4e-3f) && std::abs(turn.asFloat4().length() - 1) < 1e-5, "from-unit-vectors", "%s to %s: %s gives %s",
                 show(axis).c_str(), show(to).c_str(), show(turn).c_str(), show(got).c_str());
        if (dot(axis, to) > -0.9f) {
            VF_CHECK(isNear(got, to, 1e-5f), "from-unit-vectors", "%s to %s: %s", show(axis).c_str(), show(to).c_str(), show(got).c_str());
            Float3 perp = cross(axis, to);
            if (perp.length() > 0.1f) {
                perp = perp.normalized();
                VF_CHECK(isNear(turn * perp, perp, 1e-5f), "from-unit-vectors", "it isn't the shortest turn");
            }
        }
        // Interpolation
        Quaternion near1 = q.negatedIfCloserTo(q2);
        float da = (near1.asFloat4() - q2.asFloat4()).length2(), db = (-near1.asFloat4() - q2.asFloat4()).length2();
        VF_CHECK(da <= db + 1e-5f && (near1.asFloat4() == q.asFloat4() || near1.asFloat4() == (-q).asFloat4()), "negatedIfCloserTo", "%s, %s",
                 show(q).c_str(), show(q2).c_str());
        if (da > 1e-3f && db - da > 1e-2f) {
            float f = (float) r.unit();
            Quaternion mid = mix(q, q2, f);
            Float4 want = (near1.asFloat4() * (1 - f) + q2.asFloat4() * f).normalized();
            VF_CHECK(isNear(mid.asFloat4(), want, 1e-4f), "quaternion-mix", "%g: %s, expected %s", f, show(mid).c_str(), show(want).c_str());
            QuatPos mp = mix(a, b, f);
            VF_CHECK(isNear(mp.quat.asFloat4(), want, 1e-4f) && isNear(mp.pos, p * (1 - f) + p2 * f, 1e-3f + 1e-5f * (p.length() + p2.length())),
                     "quatpos-mix", "%g", f);
        }
        vf::evals(30);
        vf::distinct(vf::mix((u64) (t * 1e9)) ^ vf::fnv(&axis, 12));
    }
}

// Projections send the corners of the volume to the corners of clip space.
VF_WORKLOAD(projections, 40, 400) {
    for (u32 rep = 0; rep < 20; rep++) {
        auto span = [&](float& lo, float& hi) {
            lo = (float) (r.unit() * 4 - 3);
            hi = lo + 0.1f + (float) r.unit() * 4;
        };
        Rect f;
        span(f.mins.x, f.maxs.x);
        span(f.mins.y, f.maxs.y);
        float zn = 0.1f + (float) r.unit() * 3, zf = zn + 0.5f + (float) r.unit() * 50;
        if (r.chance(1, 4))
            f = rectFromFov(0.5f + (float) r.unit(), 0.5f + (float) r.unit());
        vf::ctx(vf::fmt("frustum %s %s near %g far %g", show(f.mins).c_str(), show(f.maxs).c_str(), zn, zf));
        Float4x4 P = Float4x4::makeProjection(f, zn, zf), O = Float4x4::makeOrtho(f, zn, zf);
        for (u32 c = 0; c < 8; c++) {
            float z = c & 4 ? zf : zn;
            Float2 xy = {c & 1 ? f.maxs.x : f.mins.x, c & 2 ? f.maxs.y : f.mins.y};
            Float3 want = {c & 1 ? 1.f : -1.f, c & 2 ? 1.f : -1.f, c & 4 ? 1.f : -1.f};
            Float4 p = P * Float4{xy.x * z, xy.y * z, -z, 1}, o = O * Float4{xy.x, xy.y, -z, 1};
            Float3 pp = p.asFloat3() / p.w;
            VF_CHECK(p.w > 0 && isNear(pp, want, 2e-3f), "projection", "corner %u goes to %s", c, show(pp).c_str());
            VF_CHECK(isNear(o, Float4{want, 1}, 2e-3f), "ortho", "corner %u goes to %s", c, show(o).c_str());
        }
        float fov = 0.2f + (float) r.unit() * 2, asp = 0.3f + (float) r.unit() * 2;
        Rect q = rectFromFov(fov, asp);
        double ty = std::tan(fov / 2.0);
        VF_CHECK(near(q.maxs.y, ty, 1e-3) && near(q.mins.y, -ty, 1e-3) && near(q.maxs.x, ty * asp, 1e-3) && near(q.mins.x, -ty * asp, 1e-3),
                 "fov", "%g %g: %s %s", fov, asp, show(q.mins).c_str(), show(q.maxs).c_str());
        double d[3];
        Float3 dir = unit(r, d);
        if (std::abs(dir.z) < 0.95f) {
            Float4x4 look = lookAt(dir * (0.5f + (float) r.unit()));
            Float4 fwd = look * Float4{dir, 0}, up = look * Float4{0, 0, 1, 0};
            VF_CHECK(isNear(fwd, Float4{0, 0, -1, 0}, 1e-4f) && std::abs(up.x) < 1e-4f && up.y > 0, "look-at", "%s: forward is %s, up is %s",
                     show(dir).c_str(), show(fwd).c_str(), show(up).c_str());
        }
        vf::evals(18);
        vf::distinct(vf::fnv(&f, sizeof(f)));
    }
}

// The 48 axis rotations behave as the matrices they stand for.
VF_WORKLOAD(axes, 8, 40) {
    std::vector<AxisRot> rots;
    AxisRot::forEach([&](AxisRot a) { rots.push_back(a); });
    VF_CHECK(rots.size() == 48, "axis-count", "%zu", rots.size());
    auto mat = [](AxisRot a) { return toM(a.toFloat3x3()); };
    for (u32 i = 0; i < 6; i++) {
        Axis3 a = Axis3(i);
        Float3 v = toFloat3(a);
        VF_CHECK(toFloat3(negate(a)) == -v && sgn(a) == (i & 1 ? -1 : 1) && toFloat3(abs(a)) == abs(v) && toFloat3(mulSign(a, -1)) == -v &&
                     mulSign(a, 1) == a,
                 "axis", "%u", i);
        Float3 any = vec<Float3>(r);
        VF_CHECK(dot(a, any) == dot(v, any), "axis-dot", "%u . %s", i, show(any).c_str());
        for (u32 j = 0; j < 6; j++) {
            Axis3 b = Axis3(j);
            VF_CHECK(dot(a, b) == (s32) dot(v, toFloat3(b)) && isPerp(a, b) == (dot(v, toFloat3(b)) == 0), "axis-dot", "%u . %u", i, j);
            if (isPerp(a, b))
                VF_CHECK(toFloat3(cross(a, b)) == cross(v, toFloat3(b)), "axis-cross", "%u x %u is %u", i, j, (u32) cross(a, b));
        }
    }
    for (u32 i = 0; i < 4; i++) {
        Axis2 a = Axis2(i);
        Float2 v = vec<Float2>(r), c = toFloat2(a);
        VF_CHECK(a * v == (Float2{c.x * v.x - c.y * v.y, c.y * v.x + c.x * v.y}), "axis2", "%u turns %s to %s", i, show(v).c_str(),
                 show(a * v).c_str());
        VF_CHECK(toAxis2(toAxis3(a)) == a && toFloat3(toAxis3(a)) == toFloat3(a), "axis2", "%u", i);
        Float3 v3 = Float3{v.x, v.y, 3}, got3 = AxisRot::fromRot2D(a) * v3, want3 = Float3{(a * v).x, (a * v).y, 3};
        VF_CHECK(got3 == want3, "axis2", "rotation %u", i);
    }
    for (u32 i = 0; i < 8; i++) {
        Float2 x = ReflectXform[i] * Float2{1, 0}, y = ReflectXform[i] * Float2{0, 1};
        static const s8 img[8][4] = {{1, 0, 0, 1}, {0, 1, -1, 0}, {-1, 0, 0, -1}, {0, -1, 1, 0}, {-1, 0, 0, 1}, {0, 1, 1, 0}, {1, 0, 0, -1}, {0, -1, -1, 0}};
        VF_CHECK(x == (Float2{(float) img[i][0], (float) img[i][1]}) && y == (Float2{(float) img[i][2], (float) img[i][3]}), "reflection", "%u", i);
    }
    for (u32 i = 0; i < 48; i++) {
        AxisRot a = rots[i];
        Float3 v = vec<Float3>(r), p = vec<Float3>(r), p2 = vec<Float3>(r);
        Float3 want = a.toFloat3x3() * v;
        VF_CHECK(a.isValid() && a.isOrtho() && a * v == want, "axisrot-vector", "%u", i);
        double det = dot(cross(toFloat3(a[0]), toFloat3(a[1])), toFloat3(a[2]));
        VF_CHECK(a.isRightHanded() == (det > 0), "axisrot-hand", "%u", i);
        if (!same("axisrot inverse", mat(a.inverted()), transpose(mat(a)), 0) || !same("axisrot 4x4", toM(a.toFloat4x4()), mat(a), 0))
            return;
        for (u32 k = 0; k < 6; k++)
            VF_CHECK(toFloat3(a * Axis3(k)) == a.toFloat3x3() * toFloat3(Axis3(k)), "axisrot-axis", "%u * %u", i, k);
        for (u32 j = 0; j < 48; j++) {
            AxisRot b = rots[j];
            if (!same("axisrot product", mat(a * b), mul(mat(a), mat(b)), 0))
                return;
            VF_CHECK((a == b) == (i == j) && (a != b) == (i != j) && ((a < b) + (b < a)) == (i != j), "axisrot-equal", "%u %u", i, j);
        }
        VF_CHECK(Hasher::hash(a) == Hasher::hash(AxisRot{a[0], a[1], a[2]}), "axisrot-hash", "%u", i);
        AxisRotPos ap{a, p}, bp{rots[r.below(48)], p2};
        M A = mul(translation(p), mat(a)), B = mul(translation(p2), mat(bp.rot));
        auto pm = [](const AxisRotPos& x) { return toM(x.toFloat4x4()); };
        if (!same("axisrotpos 4x4", pm(ap), A, 0) || !same("axisrotpos product", pm(ap * bp), mul(A, B)) ||
            !same("axisrotpos inverse", pm(ap.inverted()), mul(transpose(mat(a)), translation(-p))) ||
            !same("axisrot * axisrotpos", pm(bp.rot * ap), mul(mat(bp.rot), A)) || !same("axisrotpos * axisrot", pm(ap * bp.rot), mul(A, mat(bp.rot))) ||
            !same("axisrotpos translation", pm(AxisRotPos::makeTranslation(p)), translation(p), 0))
            return;
        VF_CHECK(isNear(ap * v, want + p, 1e-4f * (1 + p.length() + v.length())) && ap == (AxisRotPos{a, p}), "axisrotpos", "%u", i);
        u32 k = r.below(3);
        for (u32 m = 0; m < 6; m++) {
            AxisRot basis = AxisRot::makeBasis(Axis3(m), k);
            VF_CHECK(basis[k] == Axis3(m) && basis.isOrtho() && basis.isRightHanded(), "axisrot-basis", "%u at %u", m, k);
        }
    }
    for (u32 i = 0; i < 60; i++) {
        double d[3], e[3];
        Float3 fwd = unit(r, d), up = r.chance(1, 6) ? fwd : unit(r, e);
        Axis3 ff = Axis3(r.below(6)), uf;
        do {
            uf = Axis3(r.below(6));
        } while (!isPerp(ff, uf));
        Float3x3 m = makeBasis(fwd, up, ff, uf);
        Float3 gf = m * toFloat3(ff), gu = m * toFloat3(uf), gr = m * toFloat3(cross(ff, uf));
        VF_CHECK(isNear(gf, fwd, 1e-3f) && std::abs(dot(gu, fwd)) < 1e-3f && isNear(gr, cross(gf, gu), 1e-3f), "make-basis",
                 "forward %s up %s axes %u %u: %s %s %s", show(fwd).c_str(), show(up).c_str(), (u32) ff, (u32) uf, show(gf).c_str(), show(gu).c_str(),
                 show(gr).c_str());
        if (cross(fwd, up).length() > 0.05f)
            VF_CHECK(dot(gu, up) > 0 && std::abs(dot(gr, up)) < 1e-3f, "make-basis", "up %s becomes %s", show(up).c_str(), show(gu).c_str());
        Float3 perp = anyPerp(fwd);
        VF_CHECK(perp.length() > 0.1f && std::abs(dot(perp, fwd)) < 1e-4f, "any-perp", "%s", show(fwd).c_str());
        Float3x3 one = makeBasis(fwd, ff);
        VF_CHECK(isNear(one * toFloat3(ff), fwd, 1e-3f) && !one.hasScale(), "make-basis", "from one axis");
    }
    vf::distinct(vf::mix(r.u64()));
}

static bool corners(const Box<Float3>&) {
    return true;
}

template <class V>
static bool corners(const Box<V>& a) {
    V tl = a.topLeft(), br = a.bottomRight();
    CK(tl.x == a.mins.x && tl.y == a.maxs.y && br.x == a.maxs.x && br.y == a.mins.y, "box-corner", "corners");
    return true;
}

template <class V>
static bool boxes(vf::Rng& r, bool integer) {
    using T = decltype(V::x);
    const u32 N = sizeof(V) / sizeof(T);
    auto pick = [&]() -> V {
        V v;
        T t[4];
        for (u32 i = 0; i < N; i++)
            t[i] = (T) (r.range(-40, 40));
        memcpy(&v, t, sizeof(V));
        return v;
    };
    for (u32 rep = 0; rep < 60; rep++) {
        V p = pick(), q = pick(), s = pick(), t = pick(), x = pick();
        Box<V> a{p, q}, b{s, t};
        if (r.chance(2, 3)) {
            a = makeSolid(a);
            b = makeSolid(b);
        }
        T A[2][4], B[2][4], X[4], R[2][4];
        auto load = [&](const Box<V>& bx, T(*o)[4]) {
            memcpy(o[0], &bx.mins, sizeof(V));
            memcpy(o[1], &bx.maxs, sizeof(V));
        };
        load(a, A);
        load(b, B);
        memcpy(X, &x, sizeof(V));
        bool in = true, boxIn = true, empty = false, meet = true;
        for (u32 i = 0; i < N; i++) {
            in &= A[0][i] <= X[i] && X[i] < A[1][i];
            boxIn &= A[0][i] <= B[0][i] && B[1][i] <= A[1][i];
            empty |= A[1][i] <= A[0][i];
            meet &= std::max(A[0][i], B[0][i]) < std::min(A[1][i], B[1][i]);
        }
        CK(a.contains(x) == in && a.contains(b) == boxIn && a.isEmpty() == empty && a.intersects(b) == meet, "box", "contains %d box %d empty %d meets %d",
           in, boxIn, empty, meet);
        auto each = [&](const char* name, const Box<V>& got, auto&& lo, auto&& hi) {
            load(got, R);
            for (u32 i = 0; i < N; i++)
                CK(R[0][i] == (T) lo(i) && R[1][i] == (T) hi(i), "box-op", "%s: axis %u is [%g, %g], expected [%g, %g]", name, i, (double) R[0][i],
                   (double) R[1][i], (double) lo(i), (double) hi(i));
            return true;
        };
#define OP(f) [&](u32 i) { return f; }
        bool ok =
            each("union", makeUnion(a, b), OP(std::min(A[0][i], B[0][i])), OP(std::max(A[1][i], B[1][i]))) &&
            each("union with a point", makeUnion(a, x), OP(std::min(A[0][i], X[i])), OP(std::max(A[1][i], X[i]))) &&
            each("union of points", makeUnion(a.maxs, x), OP(std::min(A[1][i], X[i])), OP(std::max(A[1][i], X[i]))) &&
            each("intersection", intersect(a, b), OP(std::max(A[0][i], B[0][i])), OP(std::min(A[1][i], B[1][i]))) &&
            each("solid", makeSolid(a), OP(std::min(A[0][i], A[1][i])), OP(std::max(A[0][i], A[1][i]))) &&
            each("sum", a + b, OP(A[0][i] + B[0][i]), OP(A[1][i] + B[1][i])) && each("difference", a - b, OP(A[0][i] - B[0][i]), OP(A[1][i] - B[1][i])) &&
            each("offset", a + x, OP(A[0][i] + X[i]), OP(A[1][i] + X[i])) && each("product", a * x, OP(A[0][i] * X[i]), OP(A[1][i] * X[i])) &&
            each("expand", expand(a, x), OP(A[0][i] - X[i]), OP(A[1][i] + X[i])) && each("shrink", shrink(a, x), OP(A[0][i] + X[i]), OP(A[1][i] - X[i])) &&
            each("from size", Box<V>::fromSize(p, x), OP(((T*) &p)[i]), OP(((T*) &p)[i] + X[i])) && each("point", Box<V>{x}, OP(X[i]), OP(X[i])) &&
            each("zero", Box<V>::zero(), OP(0), OP(0));
        if (!ok)
            return false;
        Box<V> c = a;
        c += b;
        CK(c == a + b, "box-op", "+=");
        c = a;
        c -= b;
        CK(c == a - b, "box-op", "-=");
        c = a;
        c *= x;
        CK(c == a * x, "box-op", "*=");
        CK(a.size() == a.maxs - a.mins && a.width() == A[1][0] - A[0][0] && a.height() == A[1][1] - A[0][1], "box-size", "size");
        CK(a == a && !(a == a + Box<V>{V{1}}), "box-equal", "equality");
        if (!corners(a))
            return false;
        vf::evals(20);
        vf::distinct(vf::fnv(&a, sizeof(a)));
    }
    return true;
}

template <class I, class T>
static bool ints(vf::Rng& r) {
    const u32 N = sizeof(I) / sizeof(T);
    for (u32 rep = 0; rep < 100; rep++) {
        T A[4], B[4], D[4], R[4];
        for (u32 i = 0; i < 4; i++) {
            A[i] = (T) r.range(-100, 100);
            B[i] = r.chance(1, 3) ? A[i] : (T) r.range(-100, 100);
            D[i] = (T) r.range(1, 9) * (r.chance(1, 2) ? -1 : 1);
        }
        I a, b, d;
        memcpy(&a, A, sizeof(I));
        memcpy(&b, B, sizeof(I));
        memcpy(&d, D, sizeof(I));
        s64 dt = 0, l2 = 0;
        bool eq = true, lt = true, le = true, anyGt = false;
        for (u32 i = 0; i < N; i++) {
            dt += (s64) A[i] * B[i];
            l2 += (s64) A[i] * A[i];
            eq &= A[i] == B[i];
            lt &= A[i] < B[i];
            le &= A[i] <= B[i];
            anyGt |= A[i] > B[i];
            CK(a[i] == A[i], "int-index", "%u", i);
        }
        CK(dot(a, b) == dt && (s64) a.length2() == l2 && (a == b) == eq && (a != b) == !eq && all(a < b) == lt && all(a <= b) == le &&
               any(a > b) == anyGt && all(a >= b) == !any(a < b),
           "int-vector", "dot %lld expected %lld", (long long) dot(a, b), (long long) dt);
        auto each = [&](const char* name, const I& got, auto&& f) {
            memcpy(R, &got, sizeof(I));
            for (u32 i = 0; i < N; i++)
                CK(R[i] == (T) f(i), "int-component", "%s: component %u is %d, expected %d", name, i, (s32) R[i], (s32) (T) f(i));
            return true;
        };
        bool ok = each("neg", -a, OP(-A[i])) && each("add", a + b, OP(A[i] + B[i])) && each("sub", a - b, OP(A[i] - B[i])) &&
                  each("mul", a * b, OP(A[i] * B[i])) && each("div", a / d, OP(A[i] / D[i])) && each("scale", a * D[0], OP(A[i] * D[0])) &&
                  each("sdiv", a / D[1], OP(A[i] / D[1])) && each("min", min(a, b), OP(std::min(A[i], B[i]))) &&
                  each("max", max(a, b), OP(std::max(A[i], B[i]))) && each("reverse", a.reverse(), OP(A[N - 1 - i])) &&
                  each("splat", I::splat(A[0]), OP(A[0]));
        I c = a;
        c += b;
        ok = ok && each("+=", c, OP(A[i] + B[i]));
        c = a;
        c -= b;
        ok = ok && each("-=", c, OP(A[i] - B[i]));
        c = a;
        c *= b;
        ok = ok && each("*=", c, OP(A[i] * B[i]));
        c = a;
        c /= d;
        ok = ok && each("/=", c, OP(A[i] / D[i]));
        c = a;
        c *= D[0];
        ok = ok && each("*= scalar", c, OP(A[i] * D[0]));
        c = a;
        c /= D[0];
        ok = ok && each("/= scalar", c, OP(A[i] / D[0]));
        if (!ok)
            return false;
        vf::evals(18);
    }
    return true;
}

VF_WORKLOAD(boxesAndInts, 40, 400) {
    if (!boxes<Float2>(r, false) || !boxes<Float3>(r, false) || !boxes<IntVec2>(r, true))
        return;
    if (!ints<IntVec2, s32>(r) || !ints<IntVec3, s32>(r) || !ints<IntVec4, s32>(r))
        return;
    IntRect full = IntRect::full(), none = IntRect::empty();
    IntVec2 p{(s32) r.range(-1000000, 1000000), (s32) r.range(-1000000, 1000000)};
    VF_CHECK(full.contains(p) && !none.contains(p) && none.isEmpty() && makeUnion(none, p) == IntRect{p}, "box-full", "%d %d", p.x, p.y);
    VF_CHECK((IntRect::fromSize(p.x, p.y, 3, 4) == IntRect{p, {p.x + 3, p.y + 4}}), "box-from-size", "%d %d", p.x, p.y);
    for (u32 i = 0; i < 100; i++) {
        Rect a = makeSolid(Rect{vec<Float2>(r), vec<Float2>(r)});
        a.maxs += Float2{1.f};
        Float2 f = {(float) r.unit(), (float) r.unit()};
        Float2 m = a.mix(f), u = a.unmix(m);
        double s = 1 + a.mins.length() + a.maxs.length();
        VF_CHECK(near(m.x, a.mins.x * (1.0 - f.x) + (double) a.maxs.x * f.x, s) && near(m.y, a.mins.y * (1.0 - f.y) + (double) a.maxs.y * f.y, s) &&
                     near(u.x, f.x, s / a.width(), 1e-5) && near(u.y, f.y, s / a.height(), 1e-5),
                 "box-mix", "%s at %s: %s, back %s", show(a).c_str(), show(f).c_str(), show(m).c_str(), show(u).c_str());
        Float2 mid = a.mid();
        VF_CHECK(near(mid.x, (a.mins.x + (double) a.maxs.x) / 2, s) && near(mid.y, (a.mins.y + (double) a.maxs.y) / 2, s), "box-mid", "%s",
                 show(a).c_str());
        // Scale and position
        ScalePos2 sp{vec<Float2>(r, true), vec<Float2>(r)}, sq{vec<Float2>(r, true), vec<Float2>(r)};
        Float2 v = vec<Float2>(r);
        double mag = (1 + std::abs(sp.scale.x) + std::abs(sp.scale.y)) * (1 + std::abs(sq.scale.x) + std::abs(sq.scale.y)) * (1 + v.length()) +
                     sp.pos.length() + (sp.scale.length() + 1) * sq.pos.length();
        Float2 got = (sp * sq) * v, want = sp * (sq * v);
        VF_CHECK(near(got.x, want.x, mag, 1e-5) && near(got.y, want.y, mag, 1e-5), "scalepos-product", "%s %s", show(got).c_str(), show(want).c_str());
        VF_CHECK(near((sp * v).x, (double) sp.scale.x * v.x + sp.pos.x, mag) && near((sp * v).y, (double) sp.scale.y * v.y + sp.pos.y, mag),
                 "scalepos", "%s", show(v).c_str());
        Float2 back = sp.inverted() * (sp * v);
        double im = (1 + 1 / std::min(std::abs(sp.scale.x), std::abs(sp.scale.y))) * (1 + sp.pos.length() + sp.scale.length() * (1 + v.length()));
        VF_CHECK(near(back.x, v.x, im, 1e-5) && near(back.y, v.y, im, 1e-5), "scalepos-inverse", "%s becomes %s", show(v).c_str(), show(back).c_str());
        VF_CHECK(ScalePos2::identity() * v == v && ScalePos2::makeTranslation(a.mins) * v == v + a.mins &&
                     ScalePos2::makeScale(a.mins) * v == a.mins * v,
                 "scalepos-make", "%s", show(v).c_str());
        Rect mapped = ScalePos2::mapToRect(a) * Rect{{0, 0}, {1, 1}};
        VF_CHECK(isNear(mapped.mins, a.mins, 1e-5f * (float) s) && isNear(mapped.maxs, a.maxs, 1e-5f * (float) s), "scalepos-rect", "%s to %s",
                 show(a).c_str(), show(mapped).c_str());
        Rect rn = roundNearest(a, 2), re = roundExpand(a, 2);
        if (a.mins.length() + a.maxs.length() < 1e6)
            VF_CHECK(re.contains(a) && all(re.mins >= a.mins - 2.f) && all(re.maxs <= a.maxs + 2.f) && rn.mins == roundNearest(a.mins, 2.f) && rn.maxs == roundNearest(a.maxs, 2.f), "box-round", "%s",
                     show(a).c_str());
        vf::evals(8);
    }
}

VF_WORKLOAD(scalars, 20, 200) {
    for (u32 i = 0; i < 2000; i++) {
        float x = r.chance(1, 8) ? (float) r.range(-10, 10) + 0.5f : r.chance(1, 8) ? (float) r.range(-100, 100) : (float) (r.unit() * 2000 - 1000);
        double want = x < 0 ? -std::floor(-(double) x + 0.5) : std::floor((double) x + 0.5);
        if (std::abs(std::abs(x - std::trunc(x)) - 0.5) > 1e-6 || std::abs(x) < 1000)
            VF_CHECK(std::abs(fastRound(x) - want) == 0 && fastRoundInt(x) == (s32) want, "round", "%.9g: %g %d", x, fastRound(x), fastRoundInt(x));
        float range = 0.5f + (float) r.unit() * 10, w = wrap(x, range);
        VF_CHECK(w >= -1e-3f && w <= range + 1e-3f && std::abs(std::remainder((double) w - x, range)) < 2e-3, "wrap", "%.9g by %g is %g", x, range, w);
        float w1 = wrapOne(x);
        VF_CHECK(w1 >= 0 && w1 < 1 && near(w1, x - std::floor((double) x), 1, 1e-6), "wrap", "%.9g: %g", x, w1);
        float to = (float) (r.unit() * 2000 - 1000), step = (float) r.unit() * 300, ap = approach(x, to, step);
        double wantA = x <= to ? std::min(x + step, to) : std::max(x - step, to);
        VF_CHECK(ap == (float) wantA, "approach", "%g to %g by %g is %g", x, to, step, ap);
        Float3 f3 = vec<Float3>(r), t3 = vec<Float3>(r), a3 = approach(f3, t3, step);
        float dist = (t3 - f3).length();
        VF_CHECK(dist < step ? a3 == t3 : std::abs((a3 - f3).length() - step) < 1e-3f + 1e-4f * (f3.length() + dist) &&
                                              (t3 - a3).length() <= dist + 1e-3f + 1e-4f * (f3.length() + dist),
                 "approach", "%s to %s by %g is %s", show(f3).c_str(), show(t3).c_str(), step, show(a3).c_str());
        float ang = (float) (r.unit() * 60 - 30);
        VF_CHECK(std::abs(fastSin(ang) - std::sin(ang)) < 2e-3 && std::abs(fastCos(ang) - std::cos(ang)) < 2e-3 &&
                     fastCosSin(ang) == (Float2{fastCos(ang), fastSin(ang)}),
                 "fast-sin", "%.9g: %g %g", ang, fastSin(ang), fastCos(ang));
        float t = (float) r.unit();
        double o = 1 - (double) t;
        float p[4];
        for (float& q : p)
            q = (float) (r.unit() * 20 - 10);
        double cub = p[0] * o * o * o + 3 * p[1] * o * o * t + 3 * p[2] * o * t * t + p[3] * (double) t * t * t;
        VF_CHECK(near(interpolateCubic(p[0], p[1], p[2], p[3], t), cub, 40, 1e-6), "cubic", "%g", t);
        VF_CHECK(near(applySimpleCubic(t), (3 - 2.0 * t) * t * t, 1, 1e-6), "simple-cubic", "%g", t);
        double dz = (p[1] - p[0]) * o * o + 2 * (p[2] - p[1]) * o * t + (p[3] - p[2]) * (double) t * t; // a third of the derivative
        float der = derivativeCubic(p[0], p[1], p[2], p[3], t);
        VF_CHECK(near(der, dz, 80, 1e-6) || near(der, 3 * dz, 80, 1e-6), "derivative", "%g", t);
        float lin = (float) r.unit(), back = sRGBToLinear(linearToSRGB(lin));
        VF_CHECK(std::abs(back - lin) < 1e-5 && linearToSRGB(lin) >= lin - 1e-6f && std::abs(linearToSRGB(1) - 1) < 1e-6 && linearToSRGB(0) == 0,
                 "srgb", "%g becomes %g", lin, back);
        double ref = lin < 0.0031308 ? lin * 12.92 : 1.055 * std::pow(lin, 1 / 2.4) - 0.055;
        VF_CHECK(std::abs(linearToSRGB(lin) - ref) < 1e-5, "srgb", "%g is %g, expected %g", lin, linearToSRGB(lin), ref);
        Float4 col = {lin, t, 1, 0.25f};
        VF_CHECK(isNear(fromSRGB(toSRGB(col)), col, 1e-5f) && toSRGB(col).w == 0.25f, "srgb", "%s", show(col).c_str());
        // Half precision: the nearest not further from zero; tiny numbers become zero
        float h = (float) std::ldexp(r.unit() * 2 - 1, (int) r.range(-18, 15));
        u16 half = floatToHalf(h);
        double hv = (half & 0x7c00) == 0 ? 0 : std::ldexp(1 + (half & 0x3ff) / 1024.0, (int) ((half >> 10) & 31) - 15) * (half & 0x8000 ? -1 : 1);
        double limit = std::ldexp(1.0, -14);
        VF_CHECK(std::abs(h) < limit ? (half & 0x7fff) == 0 : std::abs(hv) <= std::abs((double) h) && std::abs(hv - h) < std::abs((double) h) / 1024 && (hv < 0) == (h < 0),
                 "half", "%.9g is %04x, %.9g", h, half, hv);
        u32 u = r.u32();
        VF_CHECK(reverse(u) == __builtin_bswap32(u), "reverse", "%08x", u);
        u8 c8[4];
        for (u8& c : c8)
            c = (u8) r.u32();
        vf::Str hex = vf::fmt(i & 1 ? "%02x%02x%02x%02x" : "%02X%02X%02X%02X", c8[0], c8[1], c8[2], c8[3]);
        Float4 fc = fromHex<Float4>(hex.c_str());
        VF_CHECK(std::abs(fc.x * 255 - c8[0]) < 1e-3 && std::abs(fc.y * 255 - c8[1]) < 1e-3 && std::abs(fc.z * 255 - c8[2]) < 1e-3 && std::abs(fc.w * 255 - c8[3]) < 1e-3, "hex", "%s is %s", hex.c_str(),
                 show(fc).c_str());
        Int4<u8> b8 = to8888(fc);
        VF_CHECK(b8.x == c8[0] && b8.y == c8[1] && b8.z == c8[2] && b8.w == c8[3], "to8888", "%s", hex.c_str());
        vf::evals(20);
        vf::distinct(vf::mix(u));
    }
}

VF_MAIN()
