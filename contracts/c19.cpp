#include "vc.h"
#include "phys.h"
// vc:sources src/Simu/physics/Body.cpp src/Simu/physics/World.cpp src/Simu/physics/BoundingBox.cpp src/Simu/math/Geometry.cpp
using namespace simu;

struct Total
{
    Vec2 linear{};
    float angular = 0.f;
};
// momentum of the two bodies about a world point, with their own masses
static Total momentum(Two& w, Vec2 about)
{
    Total t;
    Body* b[2] = {&w.A, &w.B};
    for (int i = 0; i < 2; ++i)
    {
        float m = b[i]->mass(), I = b[i]->inertia();
        Vec2 v = w.v[i].linear(), r = w.p[i].centroid() - about;
        t.linear += m * v;
        t.angular += m * cross(r, v) + I * w.v[i].angular();
    }
    return t;
}
// whatever multiplier a constraint applies (here: as its warm start), momenta before and after
template <class F> struct Kick
{
    Total t0, t1;
    Vector<float, F::dimension> l;
    Kick(Two& w, const F& f, Vec2 about)
    {
        w.A.proxyIndex = 0;
        w.B.proxyIndex = 1;
        Bodies bs = w.bodies();
        bs.startSolve(w.p, w.v); // inverse masses are those of the bodies
        EqualitySolver<F> s{bs, f};
        for (Uint32 i = 0; i < F::dimension; ++i) l[i] = vc_num(-2.f, 2.f);
        s.J_ = f.jacobian(bs.getProxies());
        t0 = momentum(w, about);
        s.updateLambda(bs.getProxies(), f, 1.f, l);
        t1 = momentum(w, about);
        bs.endSolve();
    }
    void linear(float scale)
    {
        vc_eqs(t1.linear[0], t0.linear[0], scale, "total linear momentum is unchanged (x)");
        vc_eqs(t1.linear[1], t0.linear[1], scale, "total linear momentum is unchanged (y)");
    }
};
// Equal and opposite impulses act on the two anchors of a hinge: with the anchors together the total angular momentum is kept
VC_CONTRACT(C19_hinge)
{
    Two w;
    w.sameShape();
    Vec2 x = anyV(), about = anyV();
    HingeConstraintFunction f{w.bodies(), x};
    Kick<HingeConstraintFunction> k{w, f, about};
    k.linear(4000);
    Vec2 a = w.p[0].toWorldSpace() * (w.A.toLocalSpace() * x), b = w.p[1].toWorldSpace() * (w.B.toLocalSpace() * x);
    vc_eqs(k.t1.angular - k.t0.angular, cross(b - a, k.l), 40000, "the angular momentum changes only by the gap between the anchors");
}
VC_CONTRACT(C19_hinge_closed)
{
    Two w;
    Vec2 x = anyV(), about = anyV();
    HingeConstraintFunction f{w.bodies(), x};
    w.here();
    Kick<HingeConstraintFunction> k{w, f, about};
    k.linear(4000);
    vc_eqs(k.t1.angular, k.t0.angular, 40000, "total angular momentum is unchanged");
}
VC_CONTRACT(C19_distance)
{
    Two w;
    w.sameShape();
    std::array<Vec2, 2> x{anyV(), anyV()};
    Vec2 about = anyV();
    DistanceConstraintFunction f{w.bodies(), x};
    Kick<DistanceConstraintFunction> k{w, f, about};
    k.linear(40000);
    vc_eqs(k.t1.angular, k.t0.angular, 4000000, "total angular momentum is unchanged");
}
VC_CONTRACT(C19_rotation)
{
    Two w;
    w.sameShape();
    Vec2 about = anyV();
    RotationConstraintFunction f{w.bodies()};
    Vec2 v0 = w.v[0].linear(), v1 = w.v[1].linear();
    Kick<RotationConstraintFunction> k{w, f, about};
    k.linear(400);
    vc_eqs(k.t1.angular, k.t0.angular, 4000, "total angular momentum is unchanged");
    vc_eqs_at2(w.v[0].linear()[0], v0[0], w.v[0].linear()[1], v0[1], 0, "a pure couple does not push the first body");
    vc_eqs_at2(w.v[1].linear()[0], v1[0], w.v[1].linear()[1], v1[1], 0, "a pure couple does not push the second body");
}
VC_CONTRACT(C19_weld_closed)
{
    Two w;
    Vec2 about = anyV();
    WeldConstraintFunction f{HingeConstraintFunction{w.bodies(), anyV()}, RotationConstraintFunction{w.bodies()}};
    w.here();
    Kick<WeldConstraintFunction> k{w, f, about};
    k.linear(4000);
    vc_eqs(k.t1.angular, k.t0.angular, 40000, "total angular momentum is unchanged");
}
// any impulse is applied to each body through its own inverse masses, once
VC_CONTRACT(C19_apply_impulse)
{
    Two w;
    auto p = w.proxies();
    Proxies::Impulse P;
    for (Uint32 i = 0; i < 6; ++i) P[i] = vc_num(-4.f, 4.f);
    auto v0 = p.velocity();
    Position q[2] = {w.p[0], w.p[1]};
    p.applyImpulse(P);
    auto v1 = p.velocity();
    float m[6] = {w.m.m0, w.m.m0, w.m.I0, w.m.m1, w.m.m1, w.m.I1};
    for (Uint32 k = 0; k < 6; ++k) vc_eqs(v1[k] - v0[k], m[k] * P[k], 40, "each component changes by its inverse mass times the impulse");
    for (int i = 0; i < 2; ++i)
    {
        vc_eqs_at2(v1[3 * i], w.v[i].linear()[0], v1[3 * i + 1], w.v[i].linear()[1], 0, "velocity() reads the linear velocities in order");
        vc_eqs(v1[3 * i + 2], w.v[i].angular(), 0, "velocity() reads the angular velocities in order");
        samePos(w.p[i], q[i], 0, "impulses do not move the bodies");
    }
}
VC_CONTRACT(C19_apply_position)
{
    Two w;
    auto p = w.proxies();
    Proxies::State S;
    for (Uint32 i = 0; i < 6; ++i) S[i] = vc_num(-4.f, 4.f);
    auto v0 = p.velocity();
    Position q[2] = {w.p[0], w.p[1]};
    p.applyPositionCorrection(S);
    auto v1 = p.velocity();
    float m[6] = {w.m.m0, w.m.m0, w.m.I0, w.m.m1, w.m.m1, w.m.I1};
    for (int i = 0; i < 2; ++i)
    {
        vc_eqs(w.p[i].position()[0] - q[i].position()[0], m[3 * i] * S[3 * i], 40, "the correction moves each body by its inverse mass times the correction (x)");
        vc_eqs(w.p[i].position()[1] - q[i].position()[1], m[3 * i] * S[3 * i + 1], 40, "the correction moves each body by its inverse mass times the correction (y)");
        vc_eqs(w.p[i].orientation() - q[i].orientation(), m[3 * i + 2] * S[3 * i + 2], 40, "the correction turns each body by its inverse inertia times the correction");
    }
    for (Uint32 k = 0; k < 6; ++k) vc_eqs(v1[k], v0[k], 0, "position corrections do not change velocities");
}
