#include "vc.h"
#include "phys.h"
// vc:sources src/Simu/physics/Body.cpp src/Simu/physics/World.cpp src/Simu/physics/BoundingBox.cpp src/Simu/math/Geometry.cpp
using namespace simu;

static void impulse(bool force)
{
    Body b{BodyDescriptor{}};
    anyBody(b);
    Vec2 v = b.velocity(), P = anyV(), r = anyV();
    float w = b.angularVelocity(), m = b.mass(), I = b.inertia(), dt = force ? vc_num(0.f, 2.f) : 1.f;
    Position p0 = b.position_;
    b.sleep();
    if (force) b.applyForce(P, dt, r);
    else b.applyImpulse(P, r);
    vc_eqs(m * (b.velocity()[0] - v[0]), P[0] * dt, 500, "linear velocity changes by impulse over mass (x)");
    vc_eqs(m * (b.velocity()[1] - v[1]), P[1] * dt, 500, "linear velocity changes by impulse over mass (y)");
    vc_eqs(I * (b.angularVelocity() - w), cross(r, P) * dt, 5000, "angular velocity changes by the moment over inertia");
    vc_assert(!b.isAsleep(), "an impulse wakes the body");
    samePos(b.position_, p0, 0, "an impulse does not move the body");
    vc_assert(b.mass() == m && b.inertia() == I && b.timeImmobile_ == 0.f && b.dominance() == 1.f, "nothing else changes");
}
VC_CONTRACT(C15_impulse) { impulse(false); }
VC_CONTRACT(C15_force) { impulse(true); }

VC_CONTRACT(C15_central_impulse)
{
    Body b{BodyDescriptor{}};
    anyBody(b);
    Vec2 v = b.velocity(), P = anyV();
    float w = b.angularVelocity(), m = b.mass();
    b.applyImpulse(P);
    vc_eqs(m * (b.velocity()[0] - v[0]), P[0], 500, "a central impulse changes the linear velocity (x)");
    vc_eqs(m * (b.velocity()[1] - v[1]), P[1], 500, "a central impulse changes the linear velocity (y)");
    vc_eqs(b.angularVelocity(), w, 100, "a central impulse does not turn the body");
}

VC_CONTRACT(C15_set_velocity)
{
    Body b{BodyDescriptor{}};
    anyBody(b);
    Vec2 v = anyV(), v0 = b.velocity();
    float w = pos(), w0 = b.angularVelocity();
    b.sleep();
    b.setVelocity(v);
    vc_eqs_at2(b.velocity()[0], v[0], b.velocity()[1], v[1], 0, "the velocity is the one set");
    vc_eqs(b.angularVelocity(), w0, 0, "the angular velocity is unchanged");
    vc_assert(!b.isAsleep(), "setting the velocity wakes the body");
    b.sleep();
    b.setAngularVelocity(w);
    vc_eqs_at2(b.velocity()[0], v[0], b.velocity()[1], v[1], 0, "the linear velocity is unchanged");
    vc_eqs(b.angularVelocity(), w, 0, "the angular velocity is the one set");
    vc_assert(!b.isAsleep(), "setting the angular velocity wakes the body");
    (void)v0;
}

VC_CONTRACT(C15_construction)
{
    BodyDescriptor d;
    d.position = anyV();
    d.orientation = ang();
    d.dominance = vc_num(0.f, 4.f);
    Body b{d};
    vc_eqs_at2(b.position()[0], d.position[0], b.position()[1], d.position[1], 0, "the body starts at its position");
    vc_eqs(b.orientation(), d.orientation, 0, "the body starts with its orientation");
    vc_assert(b.dominance() == d.dominance && b.isStructural() == (d.dominance == 0.f), "structural exactly when the dominance is zero");
    vc_assert(b.velocity()[0] == 0.f && b.velocity()[1] == 0.f && b.angularVelocity() == 0.f && !b.isAsleep(), "the body starts at rest and awake");
}

// integration of one body by its velocity
VC_CONTRACT(C15_advance)
{
    Position p = anyPosition(), q = p;
    Vec2 v = anyV();
    float w = ang(), dt = vc_num(0.f, 1.f);
    q.advance(v * dt, w * dt);
    vc_eqs(q.centroid()[0] - p.centroid()[0], v[0] * dt, 100, "the centroid moves by velocity times dt (x)");
    vc_eqs(q.centroid()[1] - p.centroid()[1], v[1] * dt, 100, "the centroid moves by velocity times dt (y)");
    vc_eqs(q.orientation() - p.orientation(), w * dt, 20, "the orientation turns by angular velocity times dt");
    vc_eqs_at2(q.localCentroid()[0], p.localCentroid()[0], q.localCentroid()[1], p.localCentroid()[1], 0, "the local centroid stays");
    // material points turn rigidly about the centroid
    Vec2 l = anyV();
    Vec2 a = p.toWorldSpace() * l - p.centroid(), b = q.toWorldSpace() * l - q.centroid();
    float c = std::cos(w * dt), s = std::sin(w * dt);
    vc_eqs(b[0], c * a[0] - s * a[1], 200, "every point of the body turns about the centroid (x)");
    vc_eqs(b[1], s * a[0] + c * a[1], 200, "every point of the body turns about the centroid (y)");
}

VC_CONTRACT(C15_frames)
{
    Body b{BodyDescriptor{}};
    anyBody(b);
    Vec2 l = anyV();
    Vec2 c = b.centroid(), lc = b.localCentroid(), x = b.position();
    vc_eqs(c[0], x[0] + lc[0], 100, "the centroid is the position plus the local centroid (x)");
    vc_eqs(c[1], x[1] + lc[1], 100, "the centroid is the position plus the local centroid (y)");
    Vec2 u = b.toWorldSpace() * l;
    float co = std::cos(b.orientation()), si = std::sin(b.orientation());
    vc_eqs(u[0], c[0] + co * (l[0] - lc[0]) - si * (l[1] - lc[1]), 200, "world space turns the local geometry about the centroid (x)");
    vc_eqs(u[1], c[1] + si * (l[0] - lc[0]) + co * (l[1] - lc[1]), 200, "world space turns the local geometry about the centroid (y)");
    Vec2 k = b.toLocalSpace() * u, g = b.toWorldSpace() * (b.toLocalSpace() * l);
    vc_eqs_at2(k[0], l[0], k[1], l[1], 400, "local space undoes world space");
    vc_eqs_at2(g[0], l[0], g[1], l[1], 400, "world space undoes local space");
}

VC_CONTRACT(C15_velocity_struct)
{
    Velocity v{anyV(), pos()};
    Vec2 l = v.linear(), d = anyV(), s = anyV();
    float w = v.angular(), dw = pos(), sw = pos();
    v.increment(d, dw);
    vc_eqs_at2(v.linear()[0], l[0] + d[0], v.linear()[1], l[1] + d[1], 50, "increment adds the linear part");
    vc_eqs(v.angular(), w + dw, 50, "increment adds the angular part");
    v.set(s, sw);
    vc_assert(v.linear()[0] == s[0] && v.linear()[1] == s[1] && v.angular() == sw, "set replaces both parts");
}
VC_CONTRACT(C15_mass_struct)
{
    float m = positive(0.5f, 10.f), I = positive(0.5f, 10.f);
    Mass k{m, I};
    vc_eqs(k.invMass() * m, 1, 20, "inverse mass");
    vc_eqs(k.invInertia() * I, 1, 20, "inverse inertia");
    vc_eqs(k.mass(), m, 20, "mass");
    vc_eqs(k.inertia(), I, 20, "inertia");
    float m2 = vc_num(-2.f, 2.f), I2 = vc_num(-2.f, 2.f);
    if (vc_bool()) m2 = 0.f;
    vc_assume(m2 == 0.f || m2 > 0.01f || m2 < -0.01f);
    vc_assume(I2 > 0.01f || I2 < -0.01f);
    bool thrown = vc_throws_any([&] { Mass bad{m2, I2}; });
    vc_assert(thrown == !(m2 > 0.f && I2 > 0.f), "mass and inertia must be strictly positive");
}
