#include "vc.h"
#include "Simu/physics/BoundingBox.hpp"
// vc:sources src/Simu/physics/BoundingBox.cpp
using namespace simu;

struct B4 { float x0, y0, x1, y1; };
static B4 any4() { B4 b; b.x0 = vc_any(); b.y0 = vc_any(); b.x1 = vc_any(); b.y1 = vc_any(); return b; }
static BoundingBox box(const B4& b) { return BoundingBox{Vec2{b.x0, b.y0}, Vec2{b.x1, b.y1}}; }
static bool valid(const B4& b) { return b.x0 <= b.x1 && b.y0 <= b.y1; }
static bool is(const BoundingBox& x, const B4& b) { return x.min_[0] == b.x0 && x.min_[1] == b.y0 && x.max_[0] == b.x1 && x.max_[1] == b.y1; }
static bool inside(const B4& a, const B4& b) { return a.x0 >= b.x0 && a.y0 >= b.y0 && a.x1 <= b.x1 && a.y1 <= b.y1; }
static B4 raw(const BoundingBox& x) { return B4{x.min_[0], x.min_[1], x.max_[0], x.max_[1]}; }

VC_CONTRACT(C02_combined_is_least_upper_bound, fp)
{
    B4 a = any4(), b = any4(), c = any4();
    BoundingBox x = box(a), y = box(b);
    BoundingBox z = x.combined(y);
    vc_assert(is(x, a) && is(y, b), "combined leaves its operands unchanged");
    B4 r = raw(z);
    if (!valid(a))
    {
        vc_assert(is(z, b), "an invalid left operand is ignored");
        return;
    }
    if (!valid(b))
    {
        vc_assert(is(z, a), "an invalid right operand is ignored");
        return;
    }
    vc_cover("both valid");
    vc_assert(z.isValid(), "combination of valid boxes is valid");
    vc_assert(inside(a, r), "combination encloses the left operand");
    vc_assert(inside(b, r), "combination encloses the right operand");
    if (valid(c) && inside(a, c) && inside(b, c))
        vc_assert(inside(r, c), "combination is the least enclosing box");
}

VC_CONTRACT(C02_combined_commutes, fp)
{
    B4 a = any4(), b = any4();
    BoundingBox x = box(a), y = box(b);
    vc_assert(x.combined(y) == y.combined(x), "combination is commutative");
    vc_assert(x.combined(x) == x, "combination is idempotent");
}

VC_CONTRACT(C02_combined_associates, fp)
{
    B4 a = any4(), b = any4(), c = any4();
    BoundingBox x = box(a), y = box(b), z = box(c);
    vc_assert(x.combined(y).combined(z) == x.combined(y.combined(z)), "combination is associative");
}

VC_CONTRACT(C02_contains, fp)
{
    B4 a = any4(), b = any4();
    BoundingBox x = box(a), y = box(b);
    vc_assert(x.contains(y) == (valid(a) && valid(b) && inside(b, a)), "contains <=> both valid and inside");
}

VC_CONTRACT(C02_equality, fp)
{
    B4 a = any4(), b = any4();
    BoundingBox x = box(a), y = box(b);
    bool e = (!valid(a) && !valid(b)) || (a.x0 == b.x0 && a.y0 == b.y0 && a.x1 == b.x1 && a.y1 == b.y1);
    vc_assert((x == y) == e, "equality: same corners, or both invalid");
    vc_assert((x != y) == !e, "inequality is the negation");
    vc_assert(!BoundingBox{}.isValid(), "the default box is invalid");
}

VC_CONTRACT(C02_scaled)
{
    B4 a; a.x0 = vc_real(); a.y0 = vc_real(); a.x1 = vc_real(); a.y1 = vc_real();
    float k = vc_real();
    BoundingBox s = BoundingBox::scaled(box(a), k);
    vc_eqs((s.min_[0] + s.max_[0]), (a.x0 + a.x1), 10 * (1 + std::abs(k)), "scaling keeps the centre (x)");
    vc_eqs((s.min_[1] + s.max_[1]), (a.y0 + a.y1), 10 * (1 + std::abs(k)), "scaling keeps the centre (y)");
    vc_eqs(s.max_[0] - s.min_[0], k * (a.x1 - a.x0), 10 * (1 + std::abs(k)), "width scales by the ratio");
    vc_eqs(s.max_[1] - s.min_[1], k * (a.y1 - a.y0), 10 * (1 + std::abs(k)), "height scales by the ratio");
}

VC_CONTRACT(C02_box_of_vertices)
{
    std::size_t n = vc_size(1, 12), k = vc_size(0, 11);
    vc_assume(k < n);
    Vec2* v = reinterpret_cast<Vec2*>(vc_floats(n, 2));
    BoundingBox b{v, v + n};
    vc_assert(v[k][0] >= b.min_[0] && v[k][1] >= b.min_[1] && v[k][0] <= b.max_[0] && v[k][1] <= b.max_[1], "every vertex lies in the box");
    vc_assert(b.isValid(), "the box of a non-empty sequence is valid");
}

VC_CONTRACT(C02_box_of_empty_sequence, fp)
{
    Vec2* v = reinterpret_cast<Vec2*>(vc_floats(1, 2));
    BoundingBox b{v, v};
    vc_assert(!b.isValid(), "the box of an empty sequence is invalid");
}

// tight: every side of the box touches a vertex (so no smaller box contains them all)
template <int axis> static bool attained(const Vec2* v, std::size_t n, float side)
{
    bool found = false;
    for (std::size_t i = 0; i < n; ++i)
        if (v[i][axis] == side) found = true;
    return found;
}
VC_CONTRACT(C02_box_of_vertices_is_tight_below)
{
    std::size_t n = vc_size(1, 12);
    Vec2* v = reinterpret_cast<Vec2*>(vc_floats(n, 2));
    BoundingBox b{v, v + n};
    vc_assert(attained<0>(v, n, b.min_[0]), "left side touches a vertex");
    vc_assert(attained<1>(v, n, b.min_[1]), "bottom side touches a vertex");
}
VC_CONTRACT(C02_box_of_vertices_is_tight_above)
{
    std::size_t n = vc_size(1, 12);
    Vec2* v = reinterpret_cast<Vec2*>(vc_floats(n, 2));
    BoundingBox b{v, v + n};
    vc_assert(attained<0>(v, n, b.max_[0]), "right side touches a vertex");
    vc_assert(attained<1>(v, n, b.max_[1]), "top side touches a vertex");
}
