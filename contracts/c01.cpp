#include "vc.h"
#include "Simu/math/Interval.hpp"
#include "Simu/physics/BoundingBox.hpp"
// vc:sources src/Simu/physics/BoundingBox.cpp
using namespace simu;

static bool overlapSpec(float a, float b, float c, float d) { return (a > c ? a : c) <= (b < d ? b : d); }

VC_CONTRACT(C01_interval_overlaps, fp)
{
    float a = vc_any(), b = vc_any(), c = vc_any(), d = vc_any();
    vc_assume(a <= b && c <= d);
    Interval<float> x{a, b}, y{c, d};
    bool o = x.overlaps(y);
    vc_assert(o == overlapSpec(a, b, c, d), "interval overlap <=> common point");
    vc_assert(o == y.overlaps(x), "interval overlap is symmetric");
}

VC_CONTRACT(C01_box_overlaps, fp)
{
    Vec2 p{vc_any(), vc_any()}, q{vc_any(), vc_any()}, r{vc_any(), vc_any()}, s{vc_any(), vc_any()};
    BoundingBox x{p, q}, y{r, s};
    bool vx = p[0] <= q[0] && p[1] <= q[1];
    bool vy = r[0] <= s[0] && r[1] <= s[1];
    vc_assert(x.isValid() == vx, "valid <=> min <= max");
    bool o = x.overlaps(y);
    bool e = vx && vy && overlapSpec(p[0], q[0], r[0], s[0]) && overlapSpec(p[1], q[1], r[1], s[1]);
    vc_assert(o == e, "box overlap <=> common point");
    vc_assert(o == y.overlaps(x), "box overlap is symmetric");
}
