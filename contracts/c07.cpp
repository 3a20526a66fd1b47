#include "vc.h"
#include "Simu/math/Matrix.hpp"
// Linear solvers, in exact (real) arithmetic; natively the same equations up to rounding on well-conditioned inputs.
using namespace simu;

template <Uint32 n> static Matrix<float, n, n> anyMat()
{
    Matrix<float, n, n> a{};
    for (Uint32 i = 0; i < n * n; ++i) a.data[i] = vc_num(-8.f, 8.f);
    return a;
}
template <Uint32 n> static Vector<float, n> anyVec()
{
    Vector<float, n> a{};
    for (Uint32 i = 0; i < n; ++i) a.data[i] = vc_num(-8.f, 8.f);
    return a;
}
static float det(const Mat2& a) { return a.data[0] * a.data[3] - a.data[1] * a.data[2]; }
static float det(const Mat3& a)
{
    const float* d = a.data;
    return d[0] * (d[4] * d[8] - d[5] * d[7]) - d[1] * (d[3] * d[8] - d[5] * d[6]) + d[2] * (d[3] * d[7] - d[4] * d[6]);
}
static float det(const Matrix<float, 1, 1>& a) { return a.data[0]; }
// natively only well-conditioned matrices are compared numerically
static bool conditioned(float d) { return vc_proof() || std::abs(d) > 1.f; }

template <Uint32 n> static void solves(float scale)
{
    auto A = anyMat<n>();
    const auto A0 = A;
    auto b = anyVec<n>();
    const auto b0 = b;
    float d = det(A);
    vc_assume(d != 0.f && conditioned(d));
    Solver<float, n> s{A};
    vc_assert(s.isValid(), "non-singular matrix: the solver is valid");
    auto x = s.solve(b);
    for (Uint32 r = 0; r < n; ++r)
    {
        float ax = 0;
        for (Uint32 c = 0; c < n; ++c) ax += A0.data[r * n + c] * x.data[c];
        vc_eqs(ax, b0.data[r], scale, "A x = b");
    }
    for (Uint32 i = 0; i < n * n; ++i) vc_eqs(A.data[i], A0.data[i], 0, "the matrix is not modified");
    for (Uint32 i = 0; i < n; ++i) vc_eqs(b.data[i], b0.data[i], 0, "the right-hand side is not modified");
}
template <Uint32 n> static void freeSolve(float scale)
{
    auto A = anyMat<n>();
    auto b = anyVec<n>();
    float d = det(A);
    vc_assume(d != 0.f && conditioned(d));
    auto x = solve(A, b);
    for (Uint32 r = 0; r < n; ++r)
    {
        float ax = 0;
        for (Uint32 c = 0; c < n; ++c) ax += A.data[r * n + c] * x.data[c];
        vc_eqs(ax, b.data[r], scale, "solve: A x = b");
    }
}
template <Uint32 n> static void original(float scale)
{
    auto A = anyMat<n>();
    float d = det(A);
    vc_assume(d != 0.f && conditioned(d));
    Solver<float, n> s{A};
    auto o = s.original();
    for (Uint32 i = 0; i < n * n; ++i) vc_eqs(o.data[i], A.data[i], scale, "the original matrix can be recovered");
}
template <Uint32 n> static void inverse(float scale)
{
    auto A = anyMat<n>();
    float d = det(A);
    vc_assume(d != 0.f && conditioned(d));
    auto B = invert(A);
    for (Uint32 r = 0; r < n; ++r)
        for (Uint32 c = 0; c < n; ++c)
        {
            float e = 0;
            for (Uint32 k = 0; k < n; ++k) e += A.data[r * n + k] * B.data[k * n + c];
            vc_eqs(e, r == c ? 1.f : 0.f, scale, "the matrix times its inverse is the identity");
        }
}
template <Uint32 n> static void singular()
{
    auto A = anyMat<n>();
    auto b = anyVec<n>();
    if (vc_proof()) vc_assume(det(A) == 0.f);
    else
        for (Uint32 r = 0; r < n; ++r) A.data[r * n + n - 1] = 0.f; // exactly singular whatever the rounding
    Solver<float, n> s{A};
    vc_assert(!s.isValid(), "singular matrix: the solver is invalid");
    vc_assert(vc_throws_any([&] { s.solve(b); }), "solving with a singular matrix throws");
    vc_assert(vc_throws_any([&] { invert(A); }), "inverting a singular matrix throws");
}

VC_CONTRACT(C07_solves_1x1) { solves<1>(1000.f); }
VC_CONTRACT(C07_solves_2x2) { solves<2>(10000.f); }
VC_CONTRACT(C07_solves_3x3, limit=60) { solves<3>(300000.f); }
VC_CONTRACT(C07_solve_function_2x2) { freeSolve<2>(10000.f); }
VC_CONTRACT(C07_solve_function_3x3, limit=60) { freeSolve<3>(300000.f); }
VC_CONTRACT(C07_original_1x1) { original<1>(100.f); }
VC_CONTRACT(C07_original_2x2) { original<2>(100.f); }
VC_CONTRACT(C07_original_3x3, limit=60) { original<3>(1000.f); }
VC_CONTRACT(C07_inverse_1x1) { inverse<1>(1000.f); }
VC_CONTRACT(C07_inverse_2x2) { inverse<2>(10000.f); }
VC_CONTRACT(C07_inverse_3x3, limit=60) { inverse<3>(300000.f); }
VC_CONTRACT(C07_singular_1x1) { singular<1>(); }
VC_CONTRACT(C07_singular_2x2) { singular<2>(); }
VC_CONTRACT(C07_singular_3x3, limit=60) { singular<3>(); }

// In binary32 a rank-deficient 3x3 matrix leaves a rounding residue in the QR decomposition.
VC_BOUNDED(C07_singular_in_binary32)
{
    Mat3 A{1, 2, 3, 4, 5, 6, 7, 8, 9};
    bool valid = Solver<float, 3>{A}.isValid();
    vc_assert(!valid, "the rank-deficient matrix 1..9 is reported singular");
}
