#include "vc.h"
#include "phys.h"
#include "Simu/app/MouseConstraint.hpp"
// vc:sources src/Simu/physics/Body.cpp src/Simu/physics/World.cpp src/Simu/physics/BoundingBox.cpp src/Simu/math/Geometry.cpp
// vc:replace C18_\w+_3 "^simu::Solver<float, 3u>::Solver\(" with stub_solver3
// vc:replace C18_\w+_3 "simu::Solver<float, 3u>::solve<float>\(" with stub_solve3
// vc:assumes C18_\w+_3 the 3x3 linear solver is used through its contract (valid exactly for non-singular matrices, A x = b), which is property C07
using namespace simu;

// contract of the 3x3 linear solver (C07): the constructor remembers A, solve returns the x with A x = b
static float det(const Mat3& a)
{
    const float* d = a.data;
    return d[0] * (d[4] * d[8] - d[5] * d[7]) - d[1] * (d[3] * d[8] - d[5] * d[6]) + d[2] * (d[3] * d[7] - d[4] * d[6]);
}
VC_STUB void stub_solver3(Solver<float, 3>* s, const Mat3* A)
{
    s->QT_ = Mat3::identity();
    s->R_ = *A;
    s->isValid_ = vc_bool();
    if (det(*A) != 0.f) vc_assume(s->isValid_);
    else vc_assume(!s->isValid_);
}
VC_STUB Vec3 stub_solve3(const Solver<float, 3>* s, const Vec3* b)
{
    SIMU_ASSERT(s->isValid_, "singular");
    Vec3 x;
    for (Uint32 i = 0; i < 3; ++i) x[i] = vc_num(-1.f, 1.f);
    for (Uint32 i = 0; i < 3; ++i)
    {
        float e = 0.f;
        for (Uint32 j = 0; j < 3; ++j) e += s->R_(i, j) * x[j];
        vc_assume(e == (*b)[i]);
    }
    // the solution is unique, so it is 0 for b = 0
    if ((*b)[0] == 0.f && (*b)[1] == 0.f && (*b)[2] == 0.f) x = Vec3{};
    return x;
}

template <Uint32 n> static Vector<float, n> anyVec(float lo, float hi)
{
    Vector<float, n> v;
    for (Uint32 i = 0; i < n; ++i) v[i] = vc_num(lo, hi);
    return v;
}
template <class S> static void anySoftness(S& s)
{
    s.restitution() = anyVec<S::dimension>(0.f, 1.f);
    s.damping()     = anyVec<S::dimension>(0.f, 1.f);
    for (Uint32 i = 0; i < S::dimension; ++i) vc_assume(s.damping()[i] >= 0.f);
}

// one velocity iteration of an equality constraint, from any accumulated multiplier
template <class F, class S> static void velocity(Two& w, const F& f, S& s, bool singleBody, float scale)
{
    float dt = positive(0.25f, 1.f);
    auto proxies = singleBody ? Proxies{SolverProxy{&w.p[0], &w.v[0]}, SolverProxy{&w.p[0], &w.v[0]}, w.m} : w.proxies();
    s.initSolve(proxies, f);
    if (vc_bool()) { s.warmstart(proxies, f, dt); vc_cover("warm start"); }
    s.setLambdaHint(anyVec<F::dimension>(-4.f, 4.f)); // whatever earlier iterations accumulated
    auto J = f.jacobian(proxies);
    auto v0 = proxies.velocity();
    auto l0 = s.getAccumulatedLambda();
    auto C  = f.eval(proxies);
    s.solveVelocity(proxies, f, dt);
    auto v1 = proxies.velocity();
    auto l1 = s.getAccumulatedLambda();
    for (Uint32 i = 0; i < F::dimension; ++i)
    {
        float jv = 0.f;
        for (Uint32 k = 0; k < 6; ++k) jv += J(i, k) * v1[k];
        float b = f.bias(proxies)[i];
        vc_eqs(dt * (jv + b + s.damping()[i] * l1[i]) + s.restitution()[i] * C[i], 0.f, scale, "the constrained relative velocity equals its target");
    }
    float m[6] = {w.m.m0, w.m.m0, w.m.I0, w.m.m1, w.m.m1, w.m.I1};
    for (Uint32 k = 0; k < (singleBody ? 3 : 6); ++k)
    {
        float d = 0.f;
        for (Uint32 i = 0; i < F::dimension; ++i) d += m[k] * J(i, k) * (l1[i] - l0[i]);
        vc_eqs(v1[k] - v0[k], d, scale, "the change is the mass-weighted Jacobian times the change of the multiplier");
    }
}
// bodies that already satisfy the constraint are left alone
template <class F, class S> static void unchanged(Two& w, F& f, S& s, float scale)
{
    float dt = positive(0.25f, 1.f);
    auto proxies = w.proxies();
    s.initSolve(proxies, f);
    auto J = f.jacobian(proxies);
    auto v0 = proxies.velocity();
    // the target is met: J v + bias = 0 (with no bias: J v = 0)
    f.B = -(J * v0);
    s.solveVelocity(proxies, f, dt);
    auto v1 = proxies.velocity();
    for (Uint32 k = 0; k < 6; ++k) vc_eqs(v1[k], v0[k], scale, "a satisfied constraint changes nothing");
}
// position correction: to first order (J dq) the error is driven to zero, and the correction is mass-weighted
template <class F, class S> static void position(Two& w, const F& f, S& s, float scale, bool singleBody = false)
{
    auto proxies = w.proxies();
    auto J = f.jacobian(proxies);
    auto C = f.eval(proxies);
    Position q[2] = {w.p[0], w.p[1]};
    s.solvePosition(proxies, f);
    float d[6];
    for (Uint32 b = 0; b < 2; ++b)
    {
        d[3 * b]     = w.p[b].position()[0] - q[b].position()[0];
        d[3 * b + 1] = w.p[b].position()[1] - q[b].position()[1];
        d[3 * b + 2] = w.p[b].orientation() - q[b].orientation();
        vc_eqs_at2(w.p[b].localCentroid()[0], q[b].localCentroid()[0], w.p[b].localCentroid()[1], q[b].localCentroid()[1], 0, "the local centroid stays");
    }
    for (Uint32 i = 0; i < F::dimension; ++i)
    {
        float jd = 0.f;
        for (Uint32 k = 0; k < (singleBody ? 3 : 6); ++k) jd += J(i, k) * d[k];
        vc_eqs(jd, -C[i], scale, "the correction cancels the error to first order");
    }
    // mass weighting: M d is a combination of the rows of J (every minor of J with the extra row M d vanishes)
    float m[6] = {w.m.m0, w.m.m0, w.m.I0, w.m.m1, w.m.m1, w.m.I1};
    auto row = [&](Uint32 i, Uint32 k) { return i < F::dimension ? J(i, k) : d[k] / m[k]; };
    if constexpr (F::dimension == 1)
    {
        for (Uint32 i = 0; i < 6; ++i)
            for (Uint32 j = i + 1; j < 6; ++j)
                vc_eqs(row(0, i) * row(1, j), row(0, j) * row(1, i), scale, "the correction is the mass-weighted Jacobian times a multiplier");
    }
    else if constexpr (F::dimension == 2)
    {
        for (Uint32 i = 0; i < 6; ++i)
            for (Uint32 j = i + 1; j < 6; ++j)
                for (Uint32 k = j + 1; k < 6; ++k)
                    vc_eqs(row(0, i) * (row(1, j) * row(2, k) - row(1, k) * row(2, j)) + row(0, k) * (row(1, i) * row(2, j) - row(1, j) * row(2, i)),
                           row(0, j) * (row(1, i) * row(2, k) - row(1, k) * row(2, i)), scale, "the correction is the mass-weighted Jacobian times a multiplier");
    }
}

// Any constraint function: the solver is checked against the contract of its constraint function, not against one of them.  It
// may return any error, any Jacobian and any bias; an equality constraint does not clamp its multipliers.
template <Uint32 n> struct AnyFunction : EqualityConstraintFunctionBase<2, n>
{
    typedef EqualityConstraintFunctionBase<2, n> Base;
    typename Base::Value C, B;
    typename Base::Jacobian J;
    explicit AnyFunction(bool single = false)
    {
        C = anyVec<n>(-2.f, 2.f);
        B = anyVec<n>(-2.f, 2.f);
        for (Uint32 i = 0; i < n; ++i)
            for (Uint32 k = 0; k < 6; ++k) J(i, k) = single && k > 2 ? 0.f : vc_num(-2.f, 2.f);
    }
    typename Base::Value eval(const Proxies&) const { return C; }
    typename Base::Value bias(const Proxies&) const { return B; }
    typename Base::Jacobian jacobian(const Proxies&) const { return J; }
};
// the constraint is well posed: J M^-1 J^T is not singular (natively: not nearly singular)
template <Uint32 n> static void wellPosed(const Two& w, const AnyFunction<n>& f, const Vector<float, n>& damping = Vector<float, n>{})
{
    float m[6] = {w.m.m0, w.m.m0, w.m.I0, w.m.m1, w.m.m1, w.m.I1};
    float K[n][n];
    for (Uint32 i = 0; i < n; ++i)
        for (Uint32 j = 0; j < n; ++j)
        {
            K[i][j] = i == j ? damping[i] : 0.f;
            for (Uint32 k = 0; k < 6; ++k) K[i][j] += f.J(i, k) * m[k] * f.J(j, k);
        }
    float d = n == 1 ? K[0][0] : K[0][0] * K[n - 1][n - 1] - K[0][n - 1] * K[n - 1][0];
    if constexpr (n == 3)
        d = K[0][0] * (K[1][1] * K[2][2] - K[1][2] * K[2][1]) - K[0][1] * (K[1][0] * K[2][2] - K[1][2] * K[2][0]) + K[0][2] * (K[1][0] * K[2][1] - K[1][1] * K[2][0]);
    if (vc_proof()) vc_assume(d != 0.f);
    else vc_assume(d > 0.2f * K[0][0] && K[0][0] > 0.2f);
}
template <Uint32 n> static void anyVelocity(bool single, float scale)
{
    Two w;
    AnyFunction<n> f{single};
    EqualitySolver<AnyFunction<n>> s{w.bodies(), f};
    anySoftness(s);
    wellPosed(w, f, s.damping());
    velocity(w, f, s, single, scale);
}
template <Uint32 n> static void anyUnchanged(float scale)
{
    Two w;
    AnyFunction<n> f;
    EqualitySolver<AnyFunction<n>> s{w.bodies(), f};
    if (vc_bool()) s.damping() = anyVec<n>(0.f, 1.f);
    wellPosed(w, f, s.damping());
    unchanged(w, f, s, scale);
}
template <Uint32 n> static void anyCorrection(float scale)
{
    Two w;
    AnyFunction<n> f;
    wellPosed(w, f);
    EqualitySolver<AnyFunction<n>> s{w.bodies(), f};
    position(w, f, s, scale);
}
VC_CONTRACT(C18_velocity_1) { anyVelocity<1>(false, 4000); }
VC_CONTRACT(C18_velocity_2) { anyVelocity<2>(false, 40000); }
VC_CONTRACT(C18_velocity_single_body) { anyVelocity<2>(true, 40000); }
VC_CONTRACT(C18_velocity_3) { anyVelocity<3>(false, 400000); }
VC_CONTRACT(C18_unchanged_1) { anyUnchanged<1>(400); }
VC_CONTRACT(C18_unchanged_2) { anyUnchanged<2>(400); }
VC_CONTRACT(C18_unchanged_3) { anyUnchanged<3>(400); }
VC_CONTRACT(C18_position_1) { anyCorrection<1>(4000); }
VC_CONTRACT(C18_position_2) { anyCorrection<2>(40000); }
VC_CONTRACT(C18_position_3) { anyCorrection<3>(400000); }

// The Jacobian of a hinge (mouse) always has this shape, so the constraint is always solvable, whatever the bodies and softness.
VC_CONTRACT(C18_hinge_shape)
{
    Two w;
    HingeConstraintFunction f{w.bodies(), anyV()};
    auto J = f.jacobian(w.proxies());
    for (Uint32 i = 0; i < 2; ++i)
        for (Uint32 j = 0; j < 2; ++j)
        {
            vc_assert(J(i, j) == (i == j ? -1.f : 0.f), "first body's translation columns");
            vc_assert(J(i, 3 + j) == (i == j ? 1.f : 0.f), "second body's translation columns");
        }
}
VC_CONTRACT(C18_mouse_shape)
{
    Two w;
    MouseConstraintFunction f{&w.A, anyV()};
    auto J = f.jacobian(w.proxies());
    for (Uint32 i = 0; i < 2; ++i)
        for (Uint32 j = 0; j < 2; ++j)
        {
            vc_assert(J(i, j) == (i == j ? 1.f : 0.f), "the body's translation columns");
            vc_assert(J(i, 3 + j) == 0.f && J(i, 5) == 0.f, "there is no second body");
        }
}
template <class S> static void solvable(bool two)
{
    Two w;
    AnyFunction<2> f;
    for (Uint32 i = 0; i < 2; ++i)
        for (Uint32 j = 0; j < 3; ++j)
        {
            if (j < 2) f.J(i, j) = i == j ? (two ? -1.f : 1.f) : 0.f;
            if (j < 2 || !two) f.J(i, 3 + j) = i == j && two ? 1.f : 0.f;
        }
    S s{w.bodies(), f};
    anySoftness(s);
    if (vc_bool()) w.m.m0 = w.m.I0 = 0.f; // one body may be immovable
    vc_assume(two || w.m.m0 > 0.f);
    auto p = w.proxies();
    s.initSolve(p, f); // must not throw
    vc_assert(s.solver_.isValid(), "the constraint can be solved");
}
VC_CONTRACT(C18_hinge_solvable) { solvable<EqualitySolver<AnyFunction<2>>>(true); }
VC_CONTRACT(C18_mouse_solvable) { solvable<EqualitySolver<AnyFunction<2>>>(false); }
VC_CONTRACT(C18_rotation_solvable)
{
    Two w;
    RotationConstraintFunction f{w.bodies()};
    EqualitySolver<RotationConstraintFunction> s{w.bodies(), f};
    anySoftness(s);
    if (vc_bool()) w.m.m0 = w.m.I0 = 0.f;
    auto p = w.proxies();
    s.initSolve(p, f);
    vc_assert(s.solver_.isValid(), "the constraint can be solved");
}

// the smallest change: among all velocity changes with the same effect on the constraint, M^-1 J^T l has the least kinetic energy
VC_CONTRACT(C18_lemma_least_energy)
{
    float m[6], l[2], d[6];
    AnyFunction<2> f;
    for (int k = 0; k < 6; ++k) m[k] = positive(0.5f, 4.f), d[k] = vc_num(-1.f, 1.f);
    l[0] = vc_num(-1.f, 1.f);
    l[1] = vc_num(-1.f, 1.f);
    // d: any other change with J d = 0 added on top of it
    float e0 = 0.f, e1 = 0.f, jd[2] = {0.f, 0.f};
    for (int k = 0; k < 6; ++k)
    {
        float c = (f.J(0, k) * l[0] + f.J(1, k) * l[1]) / m[k];
        e0 += m[k] * c * c;
        e1 += m[k] * (c + d[k]) * (c + d[k]);
        for (int i = 0; i < 2; ++i) jd[i] += f.J(i, k) * d[k];
    }
    float excess = 0.f;
    for (int k = 0; k < 6; ++k) excess += m[k] * d[k] * d[k];
    vc_eqs(e1 - e0, excess + 2.f * (l[0] * jd[0] + l[1] * jd[1]), 400, "energy of the two changes");
    vc_les(0.f, excess, 10, "so with J d = 0 the other change costs at least as much");
}

// every stage of a constraint object goes to its solver with its own function
VC_CONTRACT(C18_constraint_object)
{
    Two w;
    w.sameShape();
    RotationConstraint c{w.bodies()};
    Constraint& k = c;
    anySoftness(c.solver);
    c.solver.damping() = Vector<float, 1>{};
    float dt = positive(0.25f, 1.f);
    auto p = w.proxies();
    float e0 = (w.p[1].orientation() - w.p[0].orientation()) - (w.B.orientation() - w.A.orientation());
    vc_assert(k.isActive(p), "an equality constraint is always active");
    vc_assert(k.disablesContacts(), "jointed bodies do not collide by default");
    k.initSolve(p);
    if (vc_bool()) k.warmstart(p, dt);
    k.solveVelocities(p, dt);
    vc_eqs(dt * (w.v[1].angular() - w.v[0].angular()) + c.solver.restitution()[0] * e0, 0.f, 400, "relative angular velocity after the solve");
    k.solvePositions(p);
    float e1 = (w.p[1].orientation() - w.p[0].orientation()) - (w.B.orientation() - w.A.orientation());
    vc_eqs(e1, 0.f, 100, "relative angle after the position solve");
}
