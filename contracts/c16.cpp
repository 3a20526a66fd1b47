#include "vc.h"
#include "phys.h"
// vc:sources src/Simu/physics/Body.cpp src/Simu/physics/World.cpp src/Simu/physics/BoundingBox.cpp src/Simu/math/Geometry.cpp
// vc:replace C16_.* "^simu::MassProperties::MassProperties<simu::Polygon>" with c16_massOfPolygon
// vc:replace C16_.* "^simu::MassProperties::MassProperties<std::vector" with c16_massOfVertices
// vc:replace C16_.* "^simu::BoundingBox::BoundingBox<std::vector" with c16_box
// vc:replace C16_.* "^simu::RTree<simu::Collider\*.*>::insert\(simu::RTree" with c16_insert
// vc:replace C16_.* "^simu::RTree<simu::Collider\*.*>::refit\(" with c16_refit
// vc:assumes C16_.* the spatial index puts a new entry at some valid place and keeps its entries (contract proved under C05)
// vc:assumes C16_.* mass properties of one shape are arbitrary positive numbers (properties C11 and C14 say which), the same for the same shape
// vc:assumes C16_.* the bounding box of a vertex sequence is an arbitrary box that contains them (contract proved under C02)
using namespace simu;

// shape k has k + 3 vertices; its mass properties are arbitrary
static MassProperties massOf[4];
static bool           refused[4];
static void lookup(MassProperties* p, long n)
{
    if (refused[n - 3]) throw Exception{"degenerate"};
    *p = massOf[n - 3];
}
VC_STUB void c16_massOfPolygon(MassProperties* p, const Polygon* g, float) { lookup(p, g->end() - g->begin()); }
VC_STUB void c16_massOfVertices(MassProperties* p, const std::vector<Vec2, Collider::Alloc>* g, float) { lookup(p, g->end() - g->begin()); }
VC_STUB void c16_box(BoundingBox* b, const std::vector<Vec2, Collider::Alloc>* g)
{
    Vec2 lo = anyV(), hi = anyV();
    for (Vec2 v : *g)
        for (int i = 0; i < 2; ++i) vc_assume(bool((lo[i] <= v[i]) & (v[i] <= hi[i])));
    *b = BoundingBox{lo, hi};
}
VC_STUB ColliderTree::iterator c16_insert(ColliderTree* t, ColliderTree::Node* n)
{
    t->addLeafTo(t->root_, n);
    return ColliderTree::iterator{n};
}
VC_STUB void c16_refit(ColliderTree*, ColliderTree::Node*) {}
static ColliderDescriptor shape(int k, bool bad = false)
{
    refused[k] = bad;
    massOf[k].m = positive(0.5f, 8.f);
    massOf[k].I = positive(0.5f, 8.f);
    massOf[k].centroid = anyV();
    // any triangle, with further vertices: only the number of vertices is used by the contracts
    Vec2 v[6] = {Vec2{0, 0}, Vec2{4, 0}, Vec2{4, 3}, Vec2{3, 4}, Vec2{1, 4}, Vec2{0, 3}};
    if (vc_proof()) return ColliderDescriptor{Polygon{v, v + 3 + k}};
    Vec2 at = anyV();
    float s = positive(0.2f, 2.f);
    for (Vec2& x : v) x = s * x + at;
    if (bad)
        for (Vec2& x : v) x = Vec2{x[0], 2.f * x[0]};
    ColliderDescriptor d{Polygon{v, v + 3}};
    d.polygon = Polygon{v, v + 3 + k};
    d.material.density = positive(0.5f, 4.f);
    if (!bad) massOf[k] = MassProperties{d.polygon, d.material.density};
    return d;
}

struct Edited
{
    World w;
    Body* b;
    Collider* c[4];
    bool present[4] = {};
    Vec2 centroid, velocity, place;
    float spin, angle;

    Edited()
    {
        BodyDescriptor d;
        d.position    = anyV();
        d.orientation = ang();
        b             = w.makeBody(d);
    }
    void add(int k)
    {
        ColliderDescriptor d = shape(k);
        remember();
        c[k]       = b->addCollider(d);
        present[k] = true;
    }
    void remove(int k)
    {
        remember();
        b->removeCollider(c[k]);
        present[k] = false;
    }
    // the body moved since its colliders were last edited
    void moved()
    {
        Vec2 lc      = b->localCentroid();
        b->position_ = anyPosition();
        b->position_.setLocalCentroid(lc);
        b->velocity_ = Velocity{anyV(), pos()};
    }
    void remember()
    {
        centroid = b->centroid();
        velocity = b->velocity();
        spin     = b->angularVelocity();
        place    = b->position();
        angle    = b->orientation();
    }
    void shapes()
    {
        float m = 0.f, I = 0.f;
        Vec2 mc{};
        int n = 0;
        for (int k = 0; k < 4; ++k)
            if (present[k])
            {
                ++n;
                m += massOf[k].m;
                mc = mc + massOf[k].m * massOf[k].centroid;
            }
        int seen = 0, strangers = 0, outside = 0, owners = 0;
        for (const Collider& x : b->colliders_)
        {
            ++seen;
            owners += x.body() != b;
            bool mine = false;
            for (int k = 0; k < 4; ++k) mine = mine || (present[k] && c[k] == &x);
            strangers += !mine;
        }
        vc_assert((seen == n) & (strangers == 0) & (owners == 0), "the body holds exactly the colliders added and not removed");
        if (n > 0)
        {
            const MassProperties& p = b->colliders_.properties();
            vc_eqs(p.m, m, 40, "the mass is that of the present colliders");
            for (int i = 0; i < 2; ++i) vc_eqs(p.centroid[i] * m, mc[i], 800, "the centroid is that of the present colliders");
            // second moment about the common centroid: each collider's own plus mass times squared distance
            for (int k = 0; k < 4; ++k)
                if (present[k])
                {
                    Vec2 r{massOf[k].centroid[0] - p.centroid[0], massOf[k].centroid[1] - p.centroid[1]};
                    I += massOf[k].I + massOf[k].m * (r[0] * r[0] + r[1] * r[1]);
                }
            vc_eqs(p.I, I, 20000, "the inertia is that of the present colliders");
            vc_assert((b->localCentroid()[0] == p.centroid[0]) & (b->localCentroid()[1] == p.centroid[1]), "the body turns about the centroid of the present colliders");
            vc_assert((b->mass() == p.m) & (b->inertia() == p.I), "mass and inertia are read from the present colliders");
            Transform toWorld = b->toWorldSpace();
            for (const Collider& x : b->colliders_)
            {
                auto t = x.begin();
                for (Vec2 v : x.local_)
                {
                    Vec2 at = toWorld * v;
                    vc_eqs((*t)[0], at[0], 200, "every collider stands where the body is");
                    vc_eqs((*t)[1], at[1], 200, "every collider stands where the body is");
                    for (int i = 0; i < 2; ++i) outside += !((x.boundingBox().min()[i] <= (*t)[i]) & ((*t)[i] <= x.boundingBox().max()[i]));
                    ++t;
                }
                outside += t != x.end();
            }
            vc_assert(outside == 0, "the bounds of every collider enclose it");
        }
        std::size_t inTree = 0;
        int foreign = 0;
        for (auto it = w.colliderTree_.begin(); it != w.colliderTree_.end(); ++it)
        {
            ++inTree;
            bool mine = false;
            for (int k = 0; k < 4; ++k) mine = mine || (present[k] && c[k] == *it);
            foreign += !mine;
        }
        vc_assert((inTree == std::size_t(n)) & (foreign == 0), "the world's index holds exactly the colliders added and not removed");
    }
    void motion()
    {
        Vec2 d{b->centroid()[0] - centroid[0], b->centroid()[1] - centroid[1]};
        vc_eqs(b->velocity()[0], velocity[0] - spin * d[1], 400, "the velocity at the new centroid is the one the body had there");
        vc_eqs(b->velocity()[1], velocity[1] + spin * d[0], 400, "the velocity at the new centroid is the one the body had there");
        vc_assert(b->angularVelocity() == spin, "the angular velocity is kept");
        vc_assert((b->position()[0] == place[0]) & (b->position()[1] == place[1]), "the position is kept");
        vc_assert(b->orientation() == angle, "the orientation is kept");
    }
};
static void addTo(int n)
{
    Edited e;
    for (int k = 0; k < n; ++k) e.add(k);
    if (n == 0) e.b->velocity_ = Velocity{anyV(), pos()};
    else e.moved();
    e.add(n);
    e.shapes();
    e.motion();
}
static void removeFrom(int n, int k)
{
    Edited e;
    for (int i = 0; i < n; ++i) e.add(i);
    e.moved();
    e.remove(k);
    e.shapes();
    e.motion();
}
static void refill()
{
    Edited e;
    e.add(0);
    e.moved();
    e.remove(0);
    e.shapes();
    e.motion();
    e.moved();
    e.add(1);
    e.shapes();
    e.motion();
}
static void refuse(int n)
{
    Edited e;
    for (int i = 0; i < n; ++i) e.add(i);
    ColliderDescriptor bad = shape(n, true);
    if (n > 0) e.moved();
    e.remember();
    MassProperties was = e.b->colliders_.properties();
    bool threw = vc_throws_any([&] { e.b->addCollider(bad); });
    vc_assert(threw, "a shape without surface is refused");
    const MassProperties& p = e.b->colliders_.properties();
    vc_assert((p.m == was.m) & (p.I == was.I) & (p.centroid[0] == was.centroid[0]) & (p.centroid[1] == was.centroid[1]), "a refused collider leaves the body's mass alone");
    vc_assert((e.b->velocity()[0] == e.velocity[0]) & (e.b->velocity()[1] == e.velocity[1]) & (e.b->angularVelocity() == e.spin), "a refused collider leaves the body's motion alone");
    vc_assert((e.b->centroid()[0] == e.centroid[0]) & (e.b->centroid()[1] == e.centroid[1]), "a refused collider leaves the body's place alone");
    e.add(n); // still usable
    e.shapes();
}
static void destroy(int n)
{
    Edited e;
    for (int i = 0; i < n; ++i) e.add(i);
    e.w.bodies_.clear();
    vc_assert(e.w.colliderTree_.isEmpty(), "no collider of a destroyed body stays in the world's index");
}
VC_CONTRACT(C16_add_first) { addTo(0); }
VC_CONTRACT(C16_add_second) { addTo(1); }
VC_CONTRACT(C16_add_third) { addTo(2); }
VC_CONTRACT(C16_remove_only) { removeFrom(1, 0); }
VC_CONTRACT(C16_remove_first_of_two) { removeFrom(2, 0); }
VC_CONTRACT(C16_remove_second_of_two) { removeFrom(2, 1); }
VC_CONTRACT(C16_remove_middle_of_three) { removeFrom(3, 1); }
VC_CONTRACT(C16_refill) { refill(); }
VC_CONTRACT(C16_refuse_first) { refuse(0); }
VC_CONTRACT(C16_refuse_second) { refuse(1); }
VC_CONTRACT(C16_destroy_0) { destroy(0); }
VC_CONTRACT(C16_destroy_1) { destroy(1); }
VC_CONTRACT(C16_destroy_2) { destroy(2); }
VC_CONTRACT(C16_destroy_3) { destroy(3); }
