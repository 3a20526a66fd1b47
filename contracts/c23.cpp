#include "vc.h"
#include "phys.h"
#include "Simu/physics/Motors.hpp"
// vc:sources src/Simu/physics/Body.cpp src/Simu/physics/World.cpp src/Simu/physics/BoundingBox.cpp src/Simu/math/Geometry.cpp
using namespace simu;

static float lim(float x) { return x < 0.f ? -x : x; }
template <class M> static void anyControls(M& m)
{
    if (vc_bool()) m.throttle(vc_num(-1.f, 2.f));
    typename M::Value d;
    for (Uint32 i = 0; i < M::F::dimension; ++i) d[i] = vc_num(-2.f, 2.f);
    if (vc_bool()) m.direction(d);
}

// the controls
template <class M, class S> static void controls(S specs)
{
    Body b{BodyDescriptor{}};
    anyBody(b);
    M m{Bodies::singleBody(&b), specs};
    b.sleep();
    float t = vc_num(-1.f, 2.f);
    m.throttle(t);
    vc_assert(0.f <= m.throttle() && m.throttle() <= 1.f, "the throttle lies between zero and one");
    vc_assert(m.throttle() == (t < 0.f ? 0.f : t > 1.f ? 1.f : t), "the throttle is the nearest allowed value");
    vc_assert(!b.isAsleep(), "changing the throttle wakes the body");
    b.sleep();
    typename M::Value d;
    for (Uint32 i = 0; i < M::F::dimension; ++i) d[i] = vc_num(-2.f, 2.f);
    if (vc_bool()) d = typename M::Value{};
    float n2 = 0.f;
    for (Uint32 i = 0; i < M::F::dimension; ++i) n2 += d[i] * d[i];
    if (!vc_proof()) vc_assume(n2 == 0.f || n2 > 0.001f);
    m.direction(d);
    auto u = m.direction();
    float un = 0.f, du = 0.f, par = 0.f;
    for (Uint32 i = 0; i < M::F::dimension; ++i)
    {
        un += u[i] * u[i];
        du += d[i] * u[i];
        par += d[i] * u[M::F::dimension - 1 - i] * (i == 0 ? 1.f : -1.f);
    }
    if (n2 == 0.f) vc_assert(un == 0.f, "no direction turns the motor off");
    else
    {
        vc_eqs(un, 1.f, 4, "the direction is a unit vector");
        vc_assert(du > 0.f, "it points the way that was asked for");
        if (M::F::dimension == 2) vc_eqs(par, 0.f, 10, "it is parallel to the one asked for");
    }
    vc_assert(!b.isAsleep(), "changing the direction wakes the body");
}
VC_CONTRACT(C23_rotation_controls) { float v = vc_num(-4.f, 4.f), F = vc_num(-4.f, 4.f); controls<RotationMotor>(RotationMotor::Specs::fromTorque(v, F)); }
VC_CONTRACT(C23_translation_controls) { float v = vc_num(-4.f, 4.f), F = vc_num(-4.f, 4.f); controls<TranslationMotor>(TranslationMotor::Specs::fromForce(v, F)); }

// speed and force limits are taken by magnitude
VC_CONTRACT(C23_magnitudes)
{
    float v = vc_num(-4.f, 4.f), F = vc_num(-4.f, 4.f), dt = positive(0.1f, 1.f);
    RotationMotorFunction a{v, F}, b{lim(v), lim(F)};
    float d = vc_num(-2.f, 2.f);
    vc_assume(d != 0.f);
    if (vc_bool()) a.direction(Vector<float, 1>{d}), b.direction(Vector<float, 1>{d});
    Vector<float, 1> l{vc_num(-8.f, 8.f)};
    vc_eqs(a.clampLambda(l, dt)[0], b.clampLambda(l, dt)[0], 40, "force limit by magnitude");
    vc_eqs(a.bias(Proxies{})[0], b.bias(Proxies{})[0], 40, "speed limit by magnitude");
    vc_eqs(a.eval(Proxies{})[0], 0.f, 0, "motors have no position error");
}
// the limit itself, for any requested impulse
template <class M, class S> static void limits(S specs, float maxForce)
{
    Body b{BodyDescriptor{}};
    anyBody(b);
    M m{Bodies::singleBody(&b), specs};
    anyControls(m);
    typename M::Value l;
    for (Uint32 i = 0; i < M::F::dimension; ++i) l[i] = vc_num(-10.f, 10.f);
    float dt = positive(0.01f, 1.f), bound = m.throttle() * lim(maxForce) * dt, n = 0.f, along = 0.f;
    auto c = m.f.clampLambda(l, dt);
    for (Uint32 i = 0; i < M::F::dimension; ++i)
    {
        n += c[i] * c[i];
        vc_assert(c[i] * m.direction()[i] >= 0.f, "the impulse never opposes the direction");
        vc_assert(c[i] == 0.f || lim(c[i]) <= lim(l[i]), "the limit never enlarges an impulse");
    }
    vc_les(n, bound * bound, 200, "the impulse never exceeds throttle times maximum force times dt");
    auto pl = m.f.clampPositionLambda(l);
    for (Uint32 i = 0; i < M::F::dimension; ++i) vc_assert(pl[i] == 0.f, "motors do not correct positions");
    auto again = m.f.clampLambda(c, dt);
    for (Uint32 i = 0; i < M::F::dimension; ++i) vc_assert(again[i] == c[i], "an allowed impulse is left alone");
    (void)along;
}
VC_CONTRACT(C23_rotation_limit) { float v = vc_num(-4.f, 4.f), F = vc_num(-4.f, 4.f); limits<RotationMotor>(RotationMotor::Specs::fromTorque(v, F), F); }
VC_CONTRACT(C23_translation_limit) { float v = vc_num(-4.f, 4.f), F = vc_num(-4.f, 4.f); limits<TranslationMotor>(TranslationMotor::Specs::fromForce(v, F), F); }

// one velocity iteration, from any admissible accumulated impulse
template <class M, class S> static void drive(S specs, float maxSpeed, float maxForce)
{
    constexpr Uint32 n = M::F::dimension;
    Body b{BodyDescriptor{}};
    anyBody(b);
    M m{Bodies::singleBody(&b), specs};
    // any throttle and direction that the controls can leave behind
    float t = vc_range(0.f, 1.f);
    m.throttle(t);
    typename M::Value d0;
    float n2 = 0.f;
    for (Uint32 i = 0; i < n; ++i) d0[i] = vc_num(-2.f, 2.f), n2 += d0[i] * d0[i];
    vc_assume(vc_proof() ? n2 != 0.f : n2 > 0.01f);
    if (vc_bool()) m.direction(d0);
    float dt = positive(0.1f, 1.f), bound = t * maxForce * dt;
    Position q = b.position_;
    Velocity v = b.velocity_;
    b.proxyIndex = 0;
    m.bodies().startSolve(&q, &v);
    Proxies& p = m.bodies().getProxies();
    m.initSolve(p);
    typename M::Value l0;
    for (Uint32 i = 0; i < n; ++i) l0[i] = vc_range(0.f, 1.f) * (m.direction()[i] * bound); // whatever earlier iterations accumulated
    m.solver.setLambdaHint(l0);
    float k = n == 1 ? b.invInertia() : b.invMass();
    float u0[3] = {v.linear()[0], v.linear()[1], v.angular()};
    m.solveVelocities(p, dt);
    float u1[3] = {v.linear()[0], v.linear()[1], v.angular()};
    auto l1 = m.solver.getAccumulatedLambda();
    auto d = m.direction(); // a unit vector or zero: the controls' contract
    for (Uint32 i = 0; i < n; ++i)
    {
        float before = u0[n == 1 ? 2 : i] - k * l0[i], after = u1[n == 1 ? 2 : i]; // without the motor / with it
        float target = maxSpeed * d[i], full = bound * d[i], eps = vc_proof() ? 0.f : 0.01f;
        vc_les(l1[i] * l1[i], full * full, 400, "the accumulated impulse never exceeds throttle times maximum force times dt");
        vc_eqs(after - before, k * l1[i], 100, "the body feels exactly the accumulated impulse");
        vc_assert((d[i] >= 0.f) & (l1[i] >= 0.f) | (d[i] <= 0.f) & (l1[i] <= 0.f), "the motor only drives in its direction");
        bool beyond = (d[i] >= 0.f) & (before + eps >= target) | (d[i] <= 0.f) & (before - eps <= target);
        bool below = (d[i] >= 0.f) & (after - eps <= target) | (d[i] <= 0.f) & (after + eps >= target);
        bool reached = (after - eps <= target) & (target <= after + eps), saturated = (l1[i] - eps <= full) & (full <= l1[i] + eps), idle = (-eps <= l1[i]) & (l1[i] <= eps);
        vc_assert(beyond | below, "the motor does not drive past its target speed");
        vc_assert(!beyond | idle | (vc_proof() ? false : below), "a body already past the target speed is not driven further");
        vc_assert(saturated | reached | beyond, "it gives all it may or reaches its target speed");
    }
    for (Uint32 i = 0; i < 3; ++i)
        if ((i == 2) != (n == 1)) vc_eqs(u1[i], u0[i], 0, "nothing else of the velocity changes");
    Position q1 = q;
    m.solvePositions(p);
    samePos(q, q1, 0, "motors do not correct positions");
    m.bodies().endSolve();
}
VC_CONTRACT(C23_rotation_drive, cost=5) { float v = vc_num(0.f, 4.f), F = vc_num(0.f, 4.f); vc_assume(v >= 0.f && F >= 0.f); drive<RotationMotor>(RotationMotor::Specs::fromTorque(v, F), v, F); }
VC_CONTRACT(C23_translation_drive, cost=5) { float v = vc_num(0.f, 4.f), F = vc_num(0.f, 4.f); vc_assume(v >= 0.f && F >= 0.f); drive<TranslationMotor>(TranslationMotor::Specs::fromForce(v, F), v, F); }

VC_CONTRACT(C23_specs)
{
    Body b{BodyDescriptor{}};
    anyBody(b);
    Bodies bs = Bodies::singleBody(&b);
    float v = vc_num(-4.f, 4.f), a = vc_num(-4.f, 4.f), t = vc_num(0.f, 4.f);
    vc_eqs(TranslationMotor::Specs::fromForce(v, a).maxForce(bs), a, 10, "force as given");
    vc_eqs(TranslationMotor::Specs::fromAccel(v, a).maxForce(bs), a * b.mass(), 100, "force for the acceleration of the body's mass");
    vc_eqs(TranslationMotor::Specs::fromAccel(v, a, t).maxForce(bs), a * t, 100, "force for the acceleration of the target mass");
    vc_eqs(RotationMotor::Specs::fromTorque(v, a).maxTorque(bs), a, 10, "torque as given");
    vc_eqs(RotationMotor::Specs::fromAccel(v, a).maxTorque(bs), a * b.inertia(), 100, "torque for the acceleration of the body's inertia");
    vc_eqs(RotationMotor::Specs::fromAccel(v, a, t).maxTorque(bs), a * t, 100, "torque for the acceleration of the target inertia");
    vc_eqs(RotationMotor::Specs::fromTargetForce(v, t, a).maxTorque(bs), a * t, 100, "torque for a force at a radius");
    vc_assert(TranslationMotor::Specs::fromForce(v, a).maxVelocity() == v && TranslationMotor::Specs::fromAccel(v, a, t).maxVelocity() == v && TranslationMotor::Specs::fromAccel(v, a).maxVelocity() == v, "speed as given");
    vc_assert(RotationMotor::Specs::fromTorque(v, a).maxAngularVelocity() == v && RotationMotor::Specs::fromAccel(v, a, t).maxAngularVelocity() == v && RotationMotor::Specs::fromAccel(v, a).maxAngularVelocity() == v && RotationMotor::Specs::fromTargetForce(v, t, a).maxAngularVelocity() == v, "angular speed as given");
}
