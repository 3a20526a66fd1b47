#include "vc.h"
#include "Simu/math/Matrix.hpp"
using namespace simu;
typedef Matrix<float, 2, 2> M2;

static float num() { return vc_num(-8.f, 8.f); }
// every symmetric positive definite 2x2 matrix
static M2 anyPD()
{
    M2 A;
    A(0, 0) = num();
    A(1, 1) = num();
    A(0, 1) = A(1, 0) = num();
    float det = A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0);
    vc_assume(vc_proof() ? A(0, 0) > 0.f && det > 0.f : A(0, 0) > 0.1f && A(1, 1) > 0.1f && det > 0.1f);
    return A;
}
static Vector<float, 2> anyB()
{
    Vector<float, 2> b;
    b[0] = num();
    b[1] = num();
    if (!vc_proof() && vc_bool()) b = std::round(b);
    return b;
}
static void lcp(const M2& A, const Vector<float, 2>& b, const Vector<float, 2>& x)
{
    vc_assert(x[0] >= 0.f && x[1] >= 0.f, "the solution is not negative");
    float w0 = A(0, 0) * x[0] + A(0, 1) * x[1] - b[0], w1 = A(1, 0) * x[0] + A(1, 1) * x[1] - b[1];
    vc_les(0.f, w0, 20000, "the first inequality holds");
    vc_les(0.f, w1, 20000, "the second inequality holds");
    vc_eqs(x[0] * w0, 0.f, 200000, "complementarity of the first pair");
    vc_eqs(x[1] * w1, 0.f, 200000, "complementarity of the second pair");
}
VC_CONTRACT(C08_lcp)
{
    M2 A = anyPD();
    Vector<float, 2> b = anyB();
    LcpSolver<float> s{A};
    vc_assert(s.isValid(), "a positive definite system is valid");
    lcp(A, b, s.solve(b));
}
VC_CONTRACT(C08_lcp_function)
{
    M2 A = anyPD();
    Vector<float, 2> b = anyB();
    lcp(A, b, solveLcp(A, b));
}
VC_CONTRACT(C08_lcp_original)
{
    M2 A = anyPD(), B = LcpSolver<float>{A}.original();
    for (Uint32 i = 0; i < 2; ++i)
        for (Uint32 j = 0; j < 2; ++j) vc_eqs(B(i, j), A(i, j), 100, "the solver remembers its matrix");
}
VC_CONTRACT(C08_lcp_singular)
{
    M2 A;
    A(0, 0) = num(); A(0, 1) = num(); A(1, 0) = num(); A(1, 1) = num();
    if (!vc_proof()) { A = std::round(A / 4.f); }
    LcpSolver<float> s{A};
    float det = A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0);
    vc_assert(s.isValid() == (det != 0.f && A(0, 0) != 0.f && A(1, 1) != 0.f), "validity: invertible with a non-zero diagonal");
}

// projected Gauss-Seidel: what is returned is a projected fixed point to within epsilon
template <Uint32 n> static void pgs(bool twoSided = true)
{
    Matrix<float, n, n> A;
    Vector<float, n> b, x0, lo, hi;
    for (Uint32 i = 0; i < n; ++i)
    {
        for (Uint32 j = 0; j < n; ++j) A(i, j) = vc_num(-1.f, 1.f);
        A(i, i) = vc_num(3.f, 6.f);
        vc_assume(A(i, i) > 0.f);
        b[i] = num();
        x0[i] = num();
        lo[i] = num();
        hi[i] = num();
        vc_assume(lo[i] <= hi[i]);
    }
    float eps = vc_num(0.001f, 0.1f);
    vc_assume(eps > 0.f);
    auto clampTo = [&](float v, Uint32 i) { return v < lo[i] ? lo[i] : twoSided && v > hi[i] ? hi[i] : v; };
    Vector<float, n> x = solveInequalities(A, b, [&](const Vector<float, n>& v, Uint32 i) { return clampTo(v[i], i); }, x0, eps);
    for (Uint32 i = 0; i < n; ++i)
    {
        vc_assert(lo[i] <= x[i] && (!twoSided || x[i] <= hi[i]), "only values that the projection allows are returned");
        // the exact row solution for the other components, projected, is within tolerance of what is returned
        float s = b[i], tol = 0.f;
        for (Uint32 j = 0; j < n; ++j)
            if (j != i) { s -= A(i, j) * x[j]; if (j > i) tol += eps * std::abs(A(i, j)); }
        float y = clampTo(s / A(i, i), i);
        vc_les(A(i, i) * std::abs(x[i] - y), tol, 100, "projected fixed point within the tolerance");
    }
}
VC_CONTRACT(C08_pgs_1) { pgs<1>(); }
VC_CONTRACT(C08_pgs_2) { pgs<2>(); }
VC_BOUNDED(C08_pgs_3_one_sided) { pgs<3>(false); }
