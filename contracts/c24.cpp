#include "vc.h"
#include "phys.h"
// vc:sources src/Simu/physics/Body.cpp src/Simu/physics/World.cpp src/Simu/physics/BoundingBox.cpp src/Simu/math/Geometry.cpp
using namespace simu;

// Any constraint function of one dimension (the solver is checked against the contract of its function)
struct AnyFunction : EqualityConstraintFunctionBase<2, 1>
{
    typedef EqualityConstraintFunctionBase<2, 1> Base;
    Value C, B;
    Jacobian J;
    AnyFunction()
    {
        C[0] = vc_num(-2.f, 2.f);
        B[0] = vc_num(-2.f, 2.f);
        for (Uint32 k = 0; k < 6; ++k) J(0, k) = vc_num(-2.f, 2.f);
    }
    Value eval(const Proxies&) const { return C; }
    Value bias(const Proxies&) const { return B; }
    Jacobian jacobian(const Proxies&) const { return J; }
};
typedef LimitsSolver<AnyFunction> Limits;
typedef ConstraintImplementation<AnyFunction, Limits> Object;
typedef Vector<float, 1> V1;

static float effective(const Two& w, const AnyFunction& f)
{
    float m[6] = {w.m.m0, w.m.m0, w.m.I0, w.m.m1, w.m.m1, w.m.I1}, K = 0.f;
    for (Uint32 k = 0; k < 6; ++k) K += f.J(0, k) * m[k] * f.J(0, k);
    return K;
}
static float along(const AnyFunction& f, const Two& w)
{
    float v[6] = {w.v[0].linear()[0], w.v[0].linear()[1], w.v[0].angular(), w.v[1].linear()[0], w.v[1].linear()[1], w.v[1].angular()}, r = 0.f;
    for (Uint32 k = 0; k < 6; ++k) r += f.J(0, k) * v[k];
    return r;
}
enum Limit { none, lower, upper, both, pinned };
// any limits of the given kind
static void anyLimits(Limits& s, Limit kind, float& L, float& U)
{
    L = vc_num(-2.f, 2.f), U = vc_num(-2.f, 2.f);
    if (kind == both) vc_assume(L < U);
    if (kind == pinned) U = L;
    if (kind == lower || kind == both || kind == pinned) s.setLowerLimit(V1{L});
    if (kind == upper || kind == both || kind == pinned) s.setUpperLimit(V1{U});
}

// active exactly when not strictly inside the limits
template <Limit kind> static void activity()
{
    Two w;
    AnyFunction f;
    Limits s{w.bodies(), f};
    float L, U;
    anyLimits(s, kind, L, U);
    auto p = w.proxies();
    bool a = s.isActive(p, f);
    if (kind == none || kind == pinned) { vc_assert(a, "equal limits, or none, are always enforced"); return; }
    bool low = kind != upper, high = kind != lower;
    bool inside = (!low | (f.C[0] > L)) & (!high | (f.C[0] < U));
    bool beyond = (low & (f.C[0] < L)) | (high & (f.C[0] > U));
    vc_assert(!inside | !a, "inactive strictly within the limits");
    vc_assert(!beyond | a, "active beyond a limit");
}
VC_CONTRACT(C24_active_none) { activity<none>(); }
VC_CONTRACT(C24_active_lower) { activity<lower>(); }
VC_CONTRACT(C24_active_upper) { activity<upper>(); }
VC_CONTRACT(C24_active_both) { activity<both>(); }
VC_CONTRACT(C24_active_pinned) { activity<pinned>(); }

VC_CONTRACT(C24_limits_accepted)
{
    Two w;
    AnyFunction f;
    Limits s{w.bodies(), f};
    float L = vc_num(-2.f, 2.f), U = vc_num(-2.f, 2.f);
    bool first = vc_bool();
    if (first) s.setLowerLimit(V1{L});
    else s.setUpperLimit(V1{U});
    bool refused = vc_throws_any([&] { if (first) s.setUpperLimit(V1{U}); else s.setLowerLimit(V1{L}); });
    vc_assert(refused == (L > U), "exactly the crossed limits are refused");
}

// one velocity iteration
template <Limit kind> static void velocity()
{
    Two w;
    AnyFunction f;
    Object o{w.bodies(), f, false};
    Limits& s = o.solver;
    float L, U, K = effective(w, f), dt = positive(0.25f, 1.f), r = vc_num(0.f, 1.f), d = vc_num(0.f, 1.f);
    anyLimits(s, kind, L, U);
    s.restitution() = V1{r};
    s.damping() = V1{d};
    vc_assume(vc_proof() ? K > 0.f && d >= 0.f : K > 0.3f);
    auto p = w.proxies();
    o.initSolve(p);
    float jv0 = along(f, w), l0 = vc_num(0.f, 4.f);
    bool low = kind != upper && kind != none, high = kind != lower && kind != none;
    bool eq = kind == none || kind == pinned;
    if (!eq) vc_assume(l0 >= 0.f);
    s.setLambdaHint(V1{l0}); // whatever earlier iterations accumulated
    float u0[6], u1[6];
    for (int k = 0; k < 6; ++k) u0[k] = p.velocity()[k];
    o.solveVelocities(p, dt);
    for (int k = 0; k < 6; ++k) u1[k] = p.velocity()[k];
    float jv1 = along(f, w), l1 = s.getAccumulatedLambda()[0], eps = vc_proof() ? 0.f : 0.02f;
    float m[6] = {w.m.m0, w.m.m0, w.m.I0, w.m.m1, w.m.m1, w.m.I1};
    if (eq)
    {
        float C = kind == none ? f.C[0] : f.C[0] - L;
        vc_eqs(dt * (jv1 + f.B[0] + d * l1) + r * C, 0.f, 2000, "coinciding limits hold the value");
        for (int k = 0; k < 6; ++k) vc_eqs(u1[k] - u0[k], m[k] * f.J(0, k) * (l1 - l0), 2000, "the impulse acts along the constraint");
    }
    else if (low & (f.C[0] <= L))
    {
        vc_cover("too small");
        float e = dt * (jv1 + f.B[0] + d * l1) + r * (f.C[0] - L);
        vc_assert(l1 >= 0.f, "a lower limit only pushes");
        vc_les(0.f, e, 2000, "a lower limit does not let the value decrease");
        vc_eqs(l1 * e, 0.f, 8000, "a lower limit pushes no more than needed");
        for (int k = 0; k < 6; ++k) vc_eqs(u1[k] - u0[k], m[k] * f.J(0, k) * (l1 - l0), 2000, "the impulse acts along the constraint");
    }
    else if (high & (f.C[0] >= U))
    {
        vc_cover("too large");
        float e = dt * (-jv1 - f.B[0] + d * l1) - r * (f.C[0] - U);
        vc_assert(l1 >= 0.f, "an upper limit only pulls");
        vc_les(0.f, e, 2000, "an upper limit does not let the value increase");
        vc_eqs(l1 * e, 0.f, 8000, "an upper limit pulls no more than needed");
        for (int k = 0; k < 6; ++k) vc_eqs(u1[k] - u0[k], -m[k] * f.J(0, k) * (l1 - l0), 2000, "the impulse acts along the constraint");
    }
    else
    {
        vc_cover("within limits");
        for (int k = 0; k < 6; ++k) vc_eqs(u1[k], u0[k], 0, "nothing happens within the limits");
    }
    (void)jv0;
    (void)eps;
}
VC_CONTRACT(C24_velocity_none) { velocity<none>(); }
VC_CONTRACT(C24_velocity_lower) { velocity<lower>(); }
VC_CONTRACT(C24_velocity_upper) { velocity<upper>(); }
VC_CONTRACT(C24_velocity_both) { velocity<both>(); }
VC_CONTRACT(C24_velocity_pinned) { velocity<pinned>(); }

// warm starting never reverses a limit: the impulse of the last step is applied again in the same sense, or not at all
template <Limit kind> static void warm()
{
    Two w;
    AnyFunction f;
    Object o{w.bodies(), f, false};
    Limits& s = o.solver;
    float L, U, K = effective(w, f), dt = positive(0.25f, 1.f), l = vc_num(0.f, 4.f);
    anyLimits(s, kind, L, U);
    vc_assume(vc_proof() ? K > 0.f : K > 0.3f);
    vc_assume(l >= 0.f);
    auto p = w.proxies();
    o.initSolve(p);
    s.setLambdaHint(V1{l}); // what the last step accumulated
    bool lowBefore = f.C[0] <= L;
    if (vc_bool()) f.C[0] = o.f.C[0] = vc_num(-2.f, 2.f); // the bodies may have moved since
    bool lowNow = f.C[0] <= L;
    o.initSolve(p);
    float u0[6], u1[6];
    for (int k = 0; k < 6; ++k) u0[k] = p.velocity()[k];
    o.warmstart(p, dt);
    for (int k = 0; k < 6; ++k) u1[k] = p.velocity()[k];
    float m[6] = {w.m.m0, w.m.m0, w.m.I0, w.m.m1, w.m.m1, w.m.I1};
    float l1 = s.getAccumulatedLambda()[0];
    vc_assert(l1 >= 0.f && l1 <= l, "the accumulated impulse is the last one or none");
    bool low = kind != upper && lowNow, high = !low && kind != lower && f.C[0] >= U;
    for (int k = 0; k < 6; ++k)
        vc_eqs(u1[k] - u0[k], (low ? 1.f : -1.f) * m[k] * f.J(0, k) * l1, 2000, "the impulse given is the one accumulated, in the sense of the limit");
    if (!low && !high) vc_assert(l1 == 0.f, "nothing is applied within the limits");
    if (kind == both && lowBefore != lowNow) vc_assert(l1 == 0.f, "nothing is carried over between opposite limits");
}
VC_CONTRACT(C24_warm_lower) { warm<lower>(); }
VC_CONTRACT(C24_warm_upper) { warm<upper>(); }
VC_CONTRACT(C24_warm_both) { warm<both>(); }

// position correction
template <Limit kind> static void position()
{
    Two w;
    AnyFunction f;
    Object o{w.bodies(), f, false};
    Limits& s = o.solver;
    float L, U, K = effective(w, f);
    anyLimits(s, kind, L, U);
    vc_assume(vc_proof() ? K > 0.f : K > 0.3f);
    auto p = w.proxies();
    o.initSolve(p);
    Position q[2] = {w.p[0], w.p[1]};
    o.solvePositions(p);
    float d[6], jd = 0.f;
    for (Uint32 b = 0; b < 2; ++b)
    {
        d[3 * b]     = w.p[b].position()[0] - q[b].position()[0];
        d[3 * b + 1] = w.p[b].position()[1] - q[b].position()[1];
        d[3 * b + 2] = w.p[b].orientation() - q[b].orientation();
    }
    for (int k = 0; k < 6; ++k) jd += f.J(0, k) * d[k];
    bool low = kind != upper && kind != none, high = kind != lower && kind != none;
    if (kind == none) vc_eqs(jd, -f.C[0], 400, "no limits: the value is driven to zero");
    else if (kind == pinned) vc_eqs(jd, L - f.C[0], 400, "coinciding limits: the value is driven to them");
    else if (low & (f.C[0] <= L)) vc_eqs(jd, L - f.C[0], 400, "too small: the value is driven to the lower limit");
    else if (high & (f.C[0] >= U)) vc_eqs(jd, U - f.C[0], 400, "too large: the value is driven to the upper limit");
    else
        for (int k = 0; k < 6; ++k) vc_eqs(d[k], 0.f, 0, "nothing moves within the limits");
    float m[6] = {w.m.m0, w.m.m0, w.m.I0, w.m.m1, w.m.m1, w.m.I1};
    for (int i = 0; i < 6; ++i)
        for (int j = i + 1; j < 6; ++j) vc_eqs(d[i] * m[j] * f.J(0, j), d[j] * m[i] * f.J(0, i), 400, "the correction is mass-weighted along the constraint");
}
VC_CONTRACT(C24_position_none) { position<none>(); }
VC_CONTRACT(C24_position_lower) { position<lower>(); }
VC_CONTRACT(C24_position_upper) { position<upper>(); }
VC_CONTRACT(C24_position_both) { position<both>(); }
VC_CONTRACT(C24_position_pinned) { position<pinned>(); }

// the distance constraint: which combinations of limits it accepts
VC_CONTRACT(C24_accepts)
{
    Two w;
    std::array<Vec2, 2> at{anyV(), anyV()};
    float lo = vc_num(-2.f, 4.f), hi = vc_num(-2.f, 4.f);
    bool hasLo = vc_bool(), hasHi = vc_bool();
    std::optional<float> a, b;
    if (hasLo) a = lo;
    if (hasHi) b = hi;
    bool refused = vc_throws_any([&] { DistanceConstraint c{w.bodies(), at, a, b}; });
    if (vc_proof() || std::abs(lo - hi) > 1e-3f || lo == hi)
        vc_assert(refused == ((!hasLo & !hasHi) | (hasLo & (lo <= 0.f)) | (hasHi & (hi <= 0.f)) | (hasLo & hasHi & (lo > hi))), "exactly the invalid combinations are refused");
}
// it is active exactly when the anchors are not strictly within the limits, and its impulse pushes the anchors apart / pulls them together
template <bool hasLo, bool hasHi> static void distance()
{
    Two w;
    std::array<Vec2, 2> at{anyV(), anyV()};
    float lo = positive(0.5f, 6.f), hi = positive(0.5f, 9.f);
    if (hasLo && hasHi) vc_assume(lo < hi);
    std::optional<float> a, b;
    if (hasLo) a = lo;
    if (hasHi) b = hi;
    DistanceConstraint c{w.bodies(), at, a, b};
    Proxies p = w.proxies();
    Vec2 A = w.p[0].toWorldSpace() * (w.A.toLocalSpace() * at[0]), B = w.p[1].toWorldSpace() * (w.B.toLocalSpace() * at[1]), d = A - B;
    float n2 = normSquared(d);
    bool act = c.isActive(p);
    bool inside = (!hasLo | (n2 > lo * lo)) & (!hasHi | (n2 < hi * hi)), near = hasLo & (n2 < lo * lo), far = hasHi & (n2 > hi * hi);
    if (vc_proof() || (std::abs(n2 - lo * lo) > 0.1f && std::abs(n2 - hi * hi) > 0.1f))
    {
        vc_assert(!inside | !act, "inactive while the distance lies strictly within the limits");
        vc_assert(!(near | far) | act, "active when too close or too far");
    }
    // a positive multiplier pushes the anchors apart, a negative one pulls them together: the impulse J^T lambda acts along d
    auto J = c.f.jacobian(p);
    Vec2 rA = A - w.p[0].centroid(), rB = B - w.p[1].centroid();
    for (Uint32 i = 0; i < 2; ++i)
    {
        vc_eqs(J(0, i), 2.f * d[i], 100, "the impulse on the first body acts away from the other anchor");
        vc_eqs(J(0, 3 + i), -2.f * d[i], 100, "the impulse on the second body acts away from the other anchor");
    }
    vc_eqs(J(0, 2), 2.f * cross(rA, d), 1000, "at the first anchor");
    vc_eqs(J(0, 5), -2.f * cross(rB, d), 1000, "at the second anchor");
    vc_eqs(c.f.eval(p)[0], n2, 1000, "the constrained value is the squared distance of the anchors");
}
VC_CONTRACT(C24_distance_minimum) { distance<true, false>(); }
VC_CONTRACT(C24_distance_maximum) { distance<false, true>(); }
VC_CONTRACT(C24_distance_both) { distance<true, true>(); }
// equal limits: held whatever the distance
VC_CONTRACT(C24_distance_fixed)
{
    Two w;
    std::array<Vec2, 2> at{anyV(), anyV()};
    float l = positive(0.5f, 6.f);
    DistanceConstraint c{w.bodies(), at, l};
    Proxies p = w.proxies();
    vc_assert(c.isActive(p), "a fixed distance is always enforced");
    vc_assert(!vc_throws_any([&] { std::optional<float> o = l; DistanceConstraint e{w.bodies(), at, o, o}; }), "coinciding limits are accepted");
    vc_assert(c.solver.L_.has_value() && c.solver.U_.has_value(), "both limits are set");
    vc_eqs(c.solver.L_.value()[0], l * l, 1, "the limit is the squared distance");
    vc_eqs(c.solver.U_.value()[0], l * l, 1, "the limit is the squared distance");
}
// the current distance is kept by default
VC_CONTRACT(C24_distance_current)
{
    Two w;
    w.here();
    w.sameShape();
    std::array<Vec2, 2> at{anyV(), anyV()};
    vc_assume(vc_proof() ? normSquared(at[1] - at[0]) > 0.f : normSquared(at[1] - at[0]) > 0.1f);
    DistanceConstraint c{w.bodies(), at};
    Proxies p = w.proxies();
    vc_assert(c.isActive(p), "the current distance is enforced");
    vc_eqs(c.f.eval(p)[0], c.solver.L_.value()[0], 400, "the error is zero where the constraint was made");
}
