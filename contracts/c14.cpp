#include "vc.h"
#include "Simu/physics.hpp"
using namespace simu;

static float pos() { return vc_num(-20.f, 20.f); }
// any part: positive mass and inertia
static MassProperties anyPart()
{
    MassProperties p;
    p.m = vc_num(0.5f, 20.f);
    p.I = vc_num(0.5f, 20.f);
    p.centroid = Vec2{pos(), pos()};
    vc_assume(p.m > 0.f && p.I >= 0.f);
    return p;
}
static void same(const MassProperties& a, const MassProperties& b, float scale, const char* name)
{
    vc_eqs_at2(a.m, b.m, a.I, b.I, scale, name);
    vc_eqs_at2(a.centroid.data[0], b.centroid.data[0], a.centroid.data[1], b.centroid.data[1], scale, name);
}
// inertia about an arbitrary point: the moment that the union must have from first principles
static float about(const MassProperties& p, Vec2 x) { return p.I + p.m * normSquared(p.centroid - x); }

VC_CONTRACT(C14_union)
{
    MassProperties a = anyPart(), b = anyPart(), c = a + b;
    Vec2 x{pos(), pos()};
    vc_eqs(c.m, a.m + b.m, 100, "masses add");
    vc_eqs(c.m * c.centroid.data[0], a.m * a.centroid.data[0] + b.m * b.centroid.data[0], 5000, "the centroid is the mass-weighted mean (x)");
    vc_eqs(c.m * c.centroid.data[1], a.m * a.centroid.data[1] + b.m * b.centroid.data[1], 5000, "the centroid is the mass-weighted mean (y)");
    vc_eqs(about(c, x), about(a, x) + about(b, x), 100000, "inertias about any common point add (parallel axes)");
}
VC_CONTRACT(C14_inertia_stays_positive)
{
    MassProperties a = anyPart(), b = anyPart(), c = a + b;
    vc_assert(c.m > 0.f, "the mass stays positive");
    float d2 = normSquared(a.centroid - b.centroid);
    vc_eqs((a.m + b.m) * (c.I - a.I - b.I), a.m * b.m * d2, 1000000, "the parallel-axis excess is m1 m2 d^2 / (m1 + m2)");
    vc_les(0.f, a.m * b.m * d2, 1, "so the inertia is at least the sum of the parts'");
}
VC_CONTRACT(C14_commutative)
{
    MassProperties a = anyPart(), b = anyPart();
    same(a + b, b + a, 20000, "the order does not matter");
}
VC_CONTRACT(C14_associative)
{
    MassProperties a = anyPart(), b = anyPart(), c = anyPart();
    same((a + b) + c, a + (b + c), 100000, "the grouping does not matter");
}
VC_CONTRACT(C14_identity)
{
    MassProperties a = anyPart(), z;
    same(a + z, a, 20000, "nothing added changes nothing");
    same(z + a, a, 20000, "adding to nothing gives the part");
    same(z + z, z, 1, "nothing plus nothing is nothing");
}
VC_CONTRACT(C14_split_part)
{
    // a part cut in two pieces and put together again is the part: choose the pieces freely
    MassProperties a = anyPart(), b = anyPart(), w = a + b;
    Vec2 t{pos(), pos()};
    MassProperties a2 = a, b2 = b;
    a2.centroid += t;
    b2.centroid += t;
    MassProperties v = a2 + b2;
    vc_eqs(v.m, w.m, 100, "mass does not depend on the place");
    vc_eqs(v.I, w.I, 300000, "inertia does not depend on the place");
    vc_eqs(v.centroid.data[0], w.centroid.data[0] + t[0], 5000, "the centroid moves along (x)");
    vc_eqs(v.centroid.data[1], w.centroid.data[1] + t[1], 5000, "the centroid moves along (y)");
}

static void density(Uint32 n)
{
    // any triangle or quadrilateral
    std::size_t k = n;
    Vec2* p = reinterpret_cast<Vec2*>(vc_floats(k, 2));
    for (std::size_t i = 0; i < k; ++i) { p[i][0] = pos(); p[i][1] = pos(); }
    float d = vc_num(-1.f, 4.f);
    struct G { Vec2 *b, *e; Vec2* begin() const { return b; } Vec2* end() const { return e; } } g{p, p + k};
    GeometricProperties gp{g};
    bool threw = true;
    MassProperties m;
    try { m = MassProperties{g, d}; threw = false; } catch (const simu::Exception&) {}
    vc_assert(threw == (d <= 0.f || gp.isDegenerate), "a part without area or density is rejected");
    if (threw) return;
    vc_eqs(m.m, d * gp.area, 2000, "mass is density times area");
    vc_eqs(m.I, d * gp.momentOfArea, 500000, "inertia is density times the second moment");
    vc_eqs(m.centroid.data[0], gp.centroid.data[0], 0, "the centroid is the shape's (x)");
    vc_eqs(m.centroid.data[1], gp.centroid.data[1], 0, "the centroid is the shape's (y)");
}
VC_CONTRACT(C14_density_triangle) { density(3); }
VC_CONTRACT(C14_density_quad) { density(4); }
