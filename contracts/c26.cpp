#include "vc.h"
#include "Simu/physics/CombinableProperty.hpp"
#include "Simu/physics/Material.hpp"
using namespace simu;
typedef CombinableProperty CP;

static CP anyP() { int m = vc_int(0, 3); float v = vc_any(); return CP{v, static_cast<CP::Mode>(m)}; }

VC_CONTRACT(C26_symmetric, fp)
{
    CP a = anyP(), b = anyP();
    CP x{a, b}, y{b, a};
    vc_assert(x.mode == y.mode, "the combined rule does not depend on the order");
    vc_assert(x.value == y.value || (std::isinf(x.value) && std::isinf(y.value)), "the combined value does not depend on the order");
}
VC_CONTRACT(C26_priority, fp)
{
    CP a = anyP(), b = anyP();
    CP x{a, b};
    vc_assert(x.mode == a.mode || x.mode == b.mode, "the combined rule is one of the two");
    vc_assert(x.mode >= a.mode && x.mode >= b.mode, "the combined rule is the one of higher priority");
    vc_assert((int)CP::average < (int)CP::minimum && (int)CP::minimum < (int)CP::multiply && (int)CP::multiply < (int)CP::maximum, "priority order of the rules");
}
VC_CONTRACT(C26_rules, fp)
{
    CP a = anyP(), b = anyP();
    float p = a.value, q = b.value;
    CP x{a, b};
    int top = (int)a.mode > (int)b.mode ? (int)a.mode : (int)b.mode;
    if (top == (int)CP::average) { vc_assert(x.value == (p + q) / 2, "average"); vc_cover("average"); }
    if (top == (int)CP::minimum) { vc_assert(x.value <= p && x.value <= q && (x.value == p || x.value == q), "minimum"); vc_cover("minimum"); }
    if (top == (int)CP::multiply) { vc_assert(x.value == p * q, "product"); vc_cover("multiply"); }
    if (top == (int)CP::maximum) { vc_assert(x.value >= p && x.value >= q && (x.value == p || x.value == q), "maximum"); vc_cover("maximum"); }
    vc_assert(CP::combine(x.mode, p, q) == x.value, "combine is the rule itself");
}
VC_CONTRACT(C26_single, fp)
{
    float v = vc_any();
    CP d{v};
    vc_assert(d.value == v && d.mode == CP::average, "the default rule is the average");
    CP a = anyP();
    CP x{a, CP{a.value, CP::average}};
    if (a.mode == CP::minimum || a.mode == CP::maximum) vc_assert(x.value == a.value, "combining equal values by minimum or maximum returns the value");
}
