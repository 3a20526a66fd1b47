#include "vc.h"
#include "Simu/math/Matrix.hpp"
// Matrix and vector algebra against the textbook definition, element by element; every listed template
// instantiation is proved for all operand values (the element-wise expression on the right is the specification).
using namespace simu;

template <Uint32 m, Uint32 n> static Matrix<float, m, n> anyMat()
{
    Matrix<float, m, n> a{};
    for (Uint32 i = 0; i < m * n; ++i) a.data[i] = vc_real();
    return a;
}
template <Uint32 m, Uint32 n> static Matrix<Int32, m, n> anyMatI()
{
    Matrix<Int32, m, n> a{};
    for (Uint32 i = 0; i < m * n; ++i) a.data[i] = vc_int(-1000, 1000);
    return a;
}
template <class M, class F> static void each(const M& a, F f, float scale, const char* name)
{
    vc_assert_at(a.size() == M::mRows * M::nCols, "size is rows * columns");
    for (Uint32 r = 0; r < M::mRows; ++r)
        for (Uint32 c = 0; c < M::nCols; ++c) vc_eq_at(a.data[r * M::nCols + c], f(r, c), scale, name);
}
template <class M> static void same(const M& a, const M& old)
{
    for (Uint32 i = 0; i < a.size(); ++i) vc_eq_at(a.data[i], old.data[i], 0.f, "operands passed by constant reference are unchanged");
}

template <Uint32 m, Uint32 n> static void linear()
{
    auto a = anyMat<m, n>(), b = anyMat<m, n>();
    const auto a0 = a, b0 = b;
    float k = vc_real();
    auto A = [&](Uint32 r, Uint32 c) { return a0.data[r * n + c]; };
    auto B = [&](Uint32 r, Uint32 c) { return b0.data[r * n + c]; };
    each(a + b, [&](Uint32 r, Uint32 c) { return A(r, c) + B(r, c); }, 200, "sum");
    each(a - b, [&](Uint32 r, Uint32 c) { return A(r, c) - B(r, c); }, 200, "difference");
    each(-a, [&](Uint32 r, Uint32 c) { return -A(r, c); }, 100, "negation");
    each(+a, [&](Uint32 r, Uint32 c) { return A(r, c); }, 0, "unary plus");
    each(k * a, [&](Uint32 r, Uint32 c) { return k * A(r, c); }, 10000, "scalar product (left)");
    each(a * k, [&](Uint32 r, Uint32 c) { return k * A(r, c); }, 10000, "scalar product (right)");
    if (k != 0.f) each(a / k, [&](Uint32 r, Uint32 c) { return A(r, c) / k; }, 100 / std::abs(k), "scalar quotient");
    each(transpose(a), [&](Uint32 r, Uint32 c) { return A(c, r); }, 0, "transpose");
    each(Matrix<float, m, n>::filled(k), [&](Uint32, Uint32) { return k; }, 0, "filled");
    for (Uint32 r = 0; r < m; ++r)
        for (Uint32 c = 0; c < n; ++c)
        {
            vc_eqs(a(r, c), A(r, c), 0, "element access is row major");
            vc_eqs(a[r * n + c], A(r, c), 0, "linear access is row major");
        }
    vc_assert(a.end() - a.begin() == std::ptrdiff_t(m * n) && a.begin() == a.data, "iteration covers the elements in order");
    same(a, a0);
    same(b, b0);
    auto d = a;
    d += b;
    each(d, [&](Uint32 r, Uint32 c) { return A(r, c) + B(r, c); }, 200, "in-place sum");
    d = a;
    d -= b;
    each(d, [&](Uint32 r, Uint32 c) { return A(r, c) - B(r, c); }, 200, "in-place difference");
    d = a;
    d *= k;
    each(d, [&](Uint32 r, Uint32 c) { return A(r, c) * k; }, 10000, "in-place product");
    if (k != 0.f)
    {
        d = a;
        d /= k;
        each(d, [&](Uint32 r, Uint32 c) { return A(r, c) / k; }, 100 / std::abs(k), "in-place quotient");
    }
}
VC_CONTRACT(C06_linear_2x2) { linear<2, 2>(); }
VC_CONTRACT(C06_linear_2x3) { linear<2, 3>(); }
VC_CONTRACT(C06_linear_3x3) { linear<3, 3>(); }
VC_CONTRACT(C06_linear_2x1) { linear<2, 1>(); }
VC_CONTRACT(C06_linear_3x1) { linear<3, 1>(); }
VC_CONTRACT(C06_linear_4x4) { linear<4, 4>(); }
VC_CONTRACT(C06_linear_6x1) { linear<6, 1>(); }

template <Uint32 m, Uint32 k, Uint32 n> static void product()
{
    auto a = anyMat<m, k>();
    auto b = anyMat<k, n>();
    const auto a0 = a;
    const auto b0 = b;
    each(a * b, [&](Uint32 r, Uint32 c) {
        float s = 0;
        for (Uint32 i = 0; i < k; ++i) s += a0.data[r * k + i] * b0.data[i * n + c];
        return s;
    }, 10000 * k, "matrix product");
    same(a, a0);
    same(b, b0);
}
VC_CONTRACT(C06_product_2x2) { product<2, 2, 2>(); product<2, 2, 1>(); product<1, 2, 1>(); product<2, 1, 2>(); }
VC_CONTRACT(C06_product_2x3) { product<2, 3, 2>(); product<3, 2, 3>(); product<2, 3, 4>(); product<1, 3, 2>(); }
VC_CONTRACT(C06_product_3x3) { product<3, 3, 3>(); product<3, 3, 1>(); product<4, 4, 1>(); }
VC_CONTRACT(C06_product_jacobians) { product<1, 6, 6>(); product<6, 6, 1>(); product<2, 6, 1>(); product<6, 2, 2>(); product<6, 1, 1>(); product<3, 6, 3>(); }

template <Uint32 m, Uint32 n> static void rowsCols()
{
    auto a = anyMat<m, n>();
    const auto a0 = a;
    auto A = [&](Uint32 r, Uint32 c) { return a0.data[r * n + c]; };
    auto rows = a.asRows();
    auto cols = a.asCols();
    for (Uint32 r = 0; r < m; ++r)
        for (Uint32 c = 0; c < n; ++c)
        {
            vc_eqs(rows[r][c], A(r, c), 0, "asRows yields the rows");
            vc_eqs(cols[c][r], A(r, c), 0, "asCols yields the columns");
        }
    each(Matrix<float, m, n>::fromRows(rows), A, 0, "fromRows rebuilds the matrix");
    each(Matrix<float, m, n>::fromCols(cols), A, 0, "fromCols rebuilds the matrix");
    same(a, a0);
}
VC_CONTRACT(C06_rows_cols_2x2) { rowsCols<2, 2>(); }
VC_CONTRACT(C06_rows_cols_2x3) { rowsCols<2, 3>(); rowsCols<3, 2>(); }
VC_CONTRACT(C06_rows_cols_3x3) { rowsCols<3, 3>(); }
VC_CONTRACT(C06_rows_cols_lists)
{
    float x[6];
    for (float& e : x) e = vc_real();
    Vec3 r0{x[0], x[1], x[2]}, r1{x[3], x[4], x[5]};
    each(Matrix<float, 2, 3>::fromRows({r0, r1}), [&](Uint32 r, Uint32 c) { return x[r * 3 + c]; }, 0, "fromRows(list)");
    each(Matrix<float, 3, 2>::fromCols({r0, r1}), [&](Uint32 r, Uint32 c) { return x[c * 3 + r]; }, 0, "fromCols(list)");
    Matrix<float, 2, 3> l{x[0], x[1], x[2], x[3], x[4], x[5]};
    each(l, [&](Uint32 r, Uint32 c) { return x[r * 3 + c]; }, 0, "initializer list is row major");
}

template <Uint32 n> static void special()
{
    each(Matrix<float, n, n>::identity(), [&](Uint32 r, Uint32 c) { return r == c ? 1.f : 0.f; }, 0, "identity");
    auto d = anyMat<n, 1>();
    each(Matrix<float, n, n>::diagonal(d), [&](Uint32 r, Uint32 c) { return r == c ? d.data[r] : 0.f; }, 0, "diagonal");
    auto unit = [](const Vector<float, n>& v, Uint32 k) { each(v, [&](Uint32 r, Uint32) { return r == k ? 1.f : 0.f; }, 0, "axis vectors"); };
    unit(Vector<float, n>::i(), 0);
    unit(Vector<float, n>::j(), 1);
    unit(Vector<float, n>::k(), 2);
    unit(Vector<float, n>::w(), 3);
}
VC_CONTRACT(C06_special) { special<2>(); special<3>(); special<4>(); special<6>(); }

template <Uint32 n> static void vectors()
{
    auto a = anyMat<n, 1>(), b = anyMat<n, 1>();
    const auto a0 = a, b0 = b;
    float d = 0, aa = 0, bb = 0;
    for (Uint32 i = 0; i < n; ++i) d += a0.data[i] * b0.data[i], aa += a0.data[i] * a0.data[i], bb += b0.data[i] * b0.data[i];
    vc_eqs(dot(a, b), d, 10000 * n, "dot product");
    vc_eqs(normSquared(a), aa, 10000 * n, "squared norm");
    float l = norm(a);
    vc_assert(l >= 0.f, "the norm is not negative");
    vc_eqs(l * l, aa, 10000 * n, "the norm squared is the squared norm");
    each(elementWiseMul(a, b), [&](Uint32 r, Uint32) { return a0.data[r] * b0.data[r]; }, 10000, "element-wise product");
    if (aa > 0.f)
    {
        auto u = normalized(a);
        for (Uint32 i = 0; i < n; ++i) vc_eqs(u.data[i] * l, a0.data[i], 100, "normalized keeps the direction");
        float uu = 0;
        for (Uint32 i = 0; i < n; ++i) uu += u.data[i] * u.data[i];
        if (aa > 1e-6f) vc_eqs(uu, 1.f, 10, "normalized has length one");
    }
    if (bb > 1e-3f)
    {
        auto p = projection(a, b);
        for (Uint32 i = 0; i < n; ++i) vc_eqs(p.data[i] * bb, b0.data[i] * d, 3000000.f, "projection is onto * (this . onto) / |onto|^2");
    }
    same(a, a0);
    same(b, b0);
}
VC_CONTRACT(C06_vectors_2) { vectors<2>(); }
VC_CONTRACT(C06_vectors_3) { vectors<3>(); }
VC_CONTRACT(C06_vectors_6) { vectors<6>(); }

VC_CONTRACT(C06_cross_and_perp)
{
    auto a = anyMat<2, 1>(), b = anyMat<2, 1>();
    vc_eqs(cross(a, b), a.data[0] * b.data[1] - a.data[1] * b.data[0], 20000, "2d cross product");
    auto p = perp(a), q = perp(a, true);
    vc_eqs(p.data[0], -a.data[1], 0, "perp turns counter-clockwise");
    vc_eqs(p.data[1], a.data[0], 0, "perp turns counter-clockwise (y)");
    vc_eqs(q.data[0], a.data[1], 0, "perp clockwise");
    vc_eqs(q.data[1], -a.data[0], 0, "perp clockwise (y)");
    auto u = anyMat<3, 1>(), v = anyMat<3, 1>();
    auto w = cross(u, v);
    vc_eqs(w.data[0], u.data[1] * v.data[2] - u.data[2] * v.data[1], 20000, "3d cross product x");
    vc_eqs(w.data[1], u.data[2] * v.data[0] - u.data[0] * v.data[2], 20000, "3d cross product y");
    vc_eqs(w.data[2], u.data[0] * v.data[1] - u.data[1] * v.data[0], 20000, "3d cross product z");
}

template <Uint32 m, Uint32 n> static void compare()
{
    auto a = anyMat<m, n>(), b = anyMat<m, n>();
    Uint32 k = vc_int(0, m * n - 1);
    if (vc_bool()) b.data[k] = a.data[k];
    float x = a.data[k], y = b.data[k];
    vc_assert((a == b)[k] == (x == y), "element-wise ==");
    vc_assert((a != b)[k] == (x != y), "element-wise !=");
    vc_assert((a < b)[k] == (x < y), "element-wise <");
    vc_assert((a <= b)[k] == (x <= y), "element-wise <=");
    vc_assert((a > b)[k] == (x > y), "element-wise >");
    vc_assert((a >= b)[k] == (x >= y), "element-wise >=");
    vc_eqs(std::min(a, b)[k], (x < y ? x : y), 0, "element-wise min");
    vc_eqs(std::max(a, b)[k], (x < y ? y : x), 0, "element-wise max");
    vc_eqs(std::abs(a)[k], (x < 0 ? -x : x), 0, "element-wise abs");
}
VC_CONTRACT(C06_compare_2x1) { compare<2, 1>(); }
VC_CONTRACT(C06_compare_2x2) { compare<2, 2>(); }
VC_CONTRACT(C06_compare_3x1) { compare<3, 1>(); }

template <Uint32 m, Uint32 n> static void logic()
{
    ComparisonMatrix<m, n> p, q;
    bool all_ = true, any_ = false;
    for (Uint32 i = 0; i < m * n; ++i)
    {
        p.data[i] = vc_bool(), q.data[i] = vc_bool();
        all_ = all_ & p.data[i], any_ = any_ | p.data[i];
    }
    vc_assert(all(p) == all_, "all");
    vc_assert(any(p) == any_, "any");
    for (Uint32 i = 0; i < m * n; ++i)
    {
        vc_assert((p && q)[i] == (p.data[i] & q.data[i]), "element-wise and");
        vc_assert((p || q)[i] == (p.data[i] | q.data[i]), "element-wise or");
        vc_assert((!p)[i] != p.data[i], "element-wise not");
    }
}
VC_CONTRACT(C06_logic_2x1) { logic<2, 1>(); }
VC_CONTRACT(C06_logic_2x2) { logic<2, 2>(); }
VC_CONTRACT(C06_logic_3x1) { logic<3, 1>(); }

VC_CONTRACT(C06_integers_and_promotion)
{
    auto a = anyMatI<2, 2>();
    auto b = anyMatI<2, 2>();
    auto s = a + b;
    auto p = a * b;
    for (Uint32 i = 0; i < 4; ++i) vc_assert(s.data[i] == a.data[i] + b.data[i], "integer sum");
    for (Uint32 r = 0; r < 2; ++r)
        for (Uint32 c = 0; c < 2; ++c)
            vc_assert(p.data[r * 2 + c] == a.data[r * 2] * b.data[c] + a.data[r * 2 + 1] * b.data[2 + c], "integer product");
    auto f = anyMat<2, 2>();
    auto t = a + f;
    static_assert(std::is_same_v<decltype(t), Mat2>);
    for (Uint32 i = 0; i < 4; ++i) vc_eqs(t.data[i], (float)a.data[i] + f.data[i], 2000, "mixed sum is promoted");
    Mat2 g{a};
    for (Uint32 i = 0; i < 4; ++i) vc_eqs(g.data[i], (float)a.data[i], 0, "conversion keeps the values");
}
