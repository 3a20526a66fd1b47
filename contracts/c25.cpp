#include "vc.h"
#include "phys.h"
#include "Simu/physics/ForceField.hpp"
#include "Simu/physics/Island.hpp"
// vc:sources src/Simu/physics/Body.cpp src/Simu/physics/World.cpp src/Simu/physics/BoundingBox.cpp src/Simu/math/Geometry.cpp
// vc:replace C25_(gravity|linear)\w* "^simu::Collider::properties\(\) const" with stub_properties
// vc:replace C25_world_\w+ "^simu::World::updateBodies\(" with stub_update_bodies
// vc:assumes C25_world_\w+ World::updateBodies (broad phase and contact bookkeeping, properties C04 and C29) moves no body
// vc:replace C25_world_\w+ "^simu::Collider::update\(" with stub_update_box
// vc:assumes C25_world_\w+ Collider::update only changes the collider's own vertices and box (before the step: a box around the body's place)
// vc:assumes C25_(gravity|linear)\w* a collider may have any mass properties (properties C11, C14 say which)
using namespace simu;

VC_STUB void stub_update_bodies(World*, float) {}
static bool placed = false;
VC_STUB void stub_update_box(Collider* c, const Transform*)
{
    if (placed) return;
    Vec2 x = c->body()->position();
    c->boundingBox_ = BoundingBox{x, x + Vec2{1.f, 1.f}};
}
static ColliderDescriptor triangle(Vec2 at = Vec2{})
{
    ColliderDescriptor d{Polygon{Vec2{0.f, 0.f} + at, Vec2{1.f, 0.f} + at, Vec2{0.f, 1.f} + at}};
    return d;
}
static ColliderDescriptor shape()
{
    if (vc_proof()) return triangle();
    ColliderDescriptor d = triangle(anyV());
    d.material.density = positive(0.5f, 4.f);
    return d;
}
static const Collider* known[3] = {};
static MassProperties properties[3];
VC_STUB MassProperties stub_properties(const Collider* c)
{
    for (int i = 0; i < 2; ++i)
        if (known[i] == c) return properties[i];
    return properties[2];
}
static MassProperties anyMass()
{
    MassProperties p;
    p.m = positive(0.5f, 8.f);
    p.I = positive(0.5f, 8.f);
    p.centroid = anyV();
    return p;
}
// the mass properties of a collider: proof: any; native: those of its shape
static MassProperties massOf(const Collider& c, int i)
{
    if (!vc_proof()) return c.properties();
    known[i] = &c;
    return properties[i] = anyMass();
}
struct Fields
{
    Body b{BodyDescriptor{}};
    Vec2 g;
    float dt;
    Vec2 v0;
    float w0;
    Fields()
    {
        anyBody(b);
        g = anyV();
        dt = positive(0.01f, 1.f);
        v0 = b.velocity();
        w0 = b.angularVelocity();
    }
};

// one collider: its share of the weight, at its own centroid
template <class Field> static void share(float weightOf)
{
    Fields f;
    Collider c{shape(), &f.b, Collider::Alloc{}};
    MassProperties p = massOf(c, 0);
    Field field{f.g};
    float m = f.b.mass(), I = f.b.inertia();
    Position q = f.b.position_;
    field.apply(c, f.dt);
    Vec2 arm = f.b.toWorldSpace().rotation() * (p.centroid - f.b.localCentroid());
    float w = weightOf == 1.f ? p.m : p.m / m; // the force on the collider is g * w
    for (int i = 0; i < 2; ++i) vc_eqs(m * (f.b.velocity()[i] - f.v0[i]), f.g[i] * w * f.dt, 2000, "the momentum given by a field to a collider is its share of the force times dt");
    vc_eqs(I * (f.b.angularVelocity() - f.w0), cross(arm, f.g) * w * f.dt, 40000, "the force acts at the collider's centroid");
    samePos(f.b.position_, q, 0, "a field moves nothing");
    vc_eqs(f.b.mass(), m, 0, "a field changes no mass");
}
VC_CONTRACT(C25_gravity_share) { share<Gravity>(1.f); }
VC_CONTRACT(C25_linear_share) { share<LinearField>(0.f); }

// any colliders that make up a body: two at a time (and, by induction, any number: the pair acts like one collider with
// the pair's properties), and a lone collider has the body's own properties
template <class Field> static void pairActsAsOne()
{
    Fields f;
    Body b2{BodyDescriptor{}};
    b2.position_ = f.b.position_;
    b2.velocity_ = f.b.velocity_;
    b2.colliders_.properties_ = f.b.colliders_.properties_;
    Collider c1{shape(), &f.b, Collider::Alloc{}}, c2{shape(), &f.b, Collider::Alloc{}}, c{shape(), &b2, Collider::Alloc{}};
    MassProperties p1 = massOf(c1, 0), p2 = massOf(c2, 1);
    properties[2] = p1 + p2;
    Field field{f.g};
    field.apply(c1, f.dt);
    field.apply(c2, f.dt);
    if (vc_proof()) field.apply(c, f.dt);
    else
    {
        // a body that consists of the two colliders
        float w = std::is_same_v<Field, Gravity> ? properties[2].m : properties[2].m / b2.mass();
        b2.applyForce(f.g * w, f.dt, b2.toWorldSpace().rotation() * (properties[2].centroid - b2.localCentroid()));
    }
    for (int i = 0; i < 2; ++i) vc_eqs(f.b.velocity()[i], b2.velocity()[i], 10000, "a field acts on two colliders as on their union");
    vc_eqs(f.b.angularVelocity(), b2.angularVelocity(), 100000, "a field turns two colliders as their union");
}
VC_CONTRACT(C25_gravity_pair) { pairActsAsOne<Gravity>(); }
VC_CONTRACT(C25_linear_pair) { pairActsAsOne<LinearField>(); }

template <class Field> static void whole(bool acceleration)
{
    Fields f;
    Collider c{shape(), &f.b, Collider::Alloc{}};
    MassProperties p = massOf(c, 0);
    f.b.colliders_.properties_ = p;
    f.b.position_.setLocalCentroid(p.centroid);
    Field field{f.g};
    field.apply(c, f.dt);
    float k = acceleration ? 1.f : 1.f / f.b.mass();
    for (int i = 0; i < 2; ++i) vc_eqs(f.b.velocity()[i] - f.v0[i], f.g[i] * k * f.dt, 200, "the whole body gains exactly g dt (the force times dt over its mass)");
    vc_eqs(f.b.angularVelocity(), f.w0, 200, "a uniform field does not turn a body");
}
VC_CONTRACT(C25_gravity_whole) { whole<Gravity>(true); }
VC_CONTRACT(C25_linear_whole) { whole<LinearField>(false); }

VC_CONTRACT(C25_domains)
{
    Vec2 a = anyV(), b = anyV(), g = anyV();
    vc_assert(Gravity{g}.domain().type == ForceField::DomainType::global, "gravity acts everywhere");
    vc_assert(LinearField{g}.domain().type == ForceField::DomainType::global, "a field acts everywhere unless restricted");
    LinearField r{g, ForceField::region(a, b)};
    vc_assert(r.domain().type == ForceField::DomainType::region, "a field keeps its region");
    BoundingBox x = r.domain().region;
    vc_assert(x.min_[0] == a[0] && x.min_[1] == a[1] && x.max_[0] == b[0] && x.max_[1] == b[1], "a field keeps its region");
}

// the world: what a step does to free, structural and out-of-region bodies (a fixed arrangement of three bodies that are far apart,
// moving in any way under any gravity)
struct Scene
{
    World w;
    Body* b[3];
    Vec2 v[3], x[3];
    float om[3], a[3];
    explicit Scene(bool moving = false)
    {
        placed = false;
        const Vec2 at[3] = {Vec2{-100.f, 0.f}, Vec2{0.f, 0.f}, Vec2{100.f, 0.f}};
        for (int i = 0; i < 3; ++i)
        {
            BodyDescriptor d;
            d.position = at[i];
            if (i == 2) d.dominance = 0.f;
            b[i] = w.makeBody(d);
            b[i]->addCollider(triangle());
            v[i] = i == 2 ? Vec2{} : moving ? Vec2{positive(1.f, 2.f), pos()} : anyV();
            om[i] = i == 2 ? 0.f : pos();
            b[i]->setVelocity(v[i]);
            b[i]->setAngularVelocity(om[i]);
            placed = i == 2;
            x[i] = b[i]->position();
            a[i] = b[i]->orientation();
        }
    }
    void moved(int i, Vec2 dv, float dt)
    {
        for (int k = 0; k < 2; ++k)
        {
            vc_eqs(b[i]->velocity()[k], v[i][k] + dv[k], 100, "a free body gains exactly the field's acceleration times dt");
            vc_eqs(b[i]->position()[k], x[i][k] + dt * (v[i][k] + dv[k]), 1000, "a free body moves by its updated velocity");
        }
        vc_eqs(b[i]->angularVelocity(), om[i], 100, "its rotation goes on unchanged");
        vc_eqs(b[i]->orientation(), a[i] + dt * om[i], 1000, "a free body turns by its angular velocity");
    }
    void still(int i)
    {
        vc_assert(all(b[i]->velocity() == v[i]) && all(b[i]->position() == x[i]) && b[i]->orientation() == a[i], "a structural body does not move");
    }
};
VC_CONTRACT(C25_world_gravity)
{
    Scene s;
    Vec2 g = anyV();
    float dt = positive(0.01f, 0.1f);
    s.w.makeForceField<Gravity>(g);
    s.w.step(dt);
    s.moved(0, g * dt, dt);
    s.moved(1, g * dt, dt);
    s.still(2);
}

VC_CONTRACT(C25_world_two_fields)
{
    Scene s;
    Vec2 g = anyV(), f = anyV();
    float dt = positive(0.01f, 0.1f), m = s.b[0]->mass();
    s.w.makeForceField<Gravity>(g);
    s.w.makeForceField<LinearField>(f);
    s.w.step(dt);
    s.moved(0, g * dt + f * (dt / m), dt);
    s.moved(1, g * dt + f * (dt / m), dt);
    s.still(2);
}
VC_CONTRACT(C25_world_region)
{
    Scene s{true};
    Vec2 f = anyV(), lo = anyV() * 15.f, hi = lo + Vec2{positive(0.f, 300.f), positive(0.f, 300.f)};
    float dt = positive(0.01f, 0.1f), m = s.b[0]->mass();
    s.w.makeForceField<LinearField>(f, ForceField::region(lo, hi));
    bool in[2];
    for (int i = 0; i < 2; ++i) in[i] = s.b[i]->colliders().begin()->boundingBox().overlaps(BoundingBox{lo, hi});
    s.w.step(dt);
    for (int i = 0; i < 2; ++i) s.moved(i, in[i] ? f * (dt / m) : Vec2{}, dt);
    s.still(2);
}
VC_CONTRACT(C25_world_paused)
{
    Scene s;
    s.w.makeForceField<Gravity>(anyV());
    s.w.step(0.f);
    for (int i = 0; i < 3; ++i)
    {
        vc_assert(all(s.b[i]->velocity() == s.v[i]) && all(s.b[i]->position() == s.x[i]), "a step of no duration changes nothing");
        vc_assert(s.b[i]->angularVelocity() == s.om[i] && s.b[i]->orientation() == s.a[i], "a step of no duration changes nothing");
    }
}
