#include "vc.h"
#include "phys.h"
#include "Simu/app/MouseConstraint.hpp"
// vc:sources src/Simu/physics/Body.cpp src/Simu/physics/World.cpp src/Simu/physics/BoundingBox.cpp src/Simu/math/Geometry.cpp
using namespace simu;

// The Jacobian J(q) is the gradient of eval along each of the six coordinates of the two bodies, stated without limits as an
// exact central difference: translating body b by +-h along an axis changes the error by 2 h J; turning it by +-d about its
// centroid changes it by 2 s(d) J, with s(d) = sin d for errors that depend on the rotation matrix and s(d) = d for angles.
// Both sides are smooth in h (d), so dividing by 2 h (2 d) and letting it go to 0 gives the derivative.
template <class F> static void gradient(Two& w, const F& f, bool angular, float scale)
{
    auto J = f.jacobian(w.proxies());
    float h = vc_num(-1.f, 1.f);
    Position keep[2] = {w.p[0], w.p[1]};
    for (Uint32 b = 0; b < 2; ++b)
        for (Uint32 k = 0; k < 3; ++k)
        {
            Vec2 d = k == 0 ? Vec2{h, 0.f} : k == 1 ? Vec2{0.f, h} : Vec2{0.f, 0.f};
            float t = k == 2 ? h : 0.f;
            w.p[b].advance(d, t);
            auto plus = f.eval(w.proxies());
            w.p[b] = keep[b];
            w.p[b].advance(-d, -t);
            auto minus = f.eval(w.proxies());
            w.p[b] = keep[b];
            for (Uint32 i = 0; i < F::dimension; ++i)
            {
                float s = k == 2 && !(angular && i == F::dimension - 1) ? std::sin(h) : h;
                vc_eqs(plus[i] - minus[i], 2.f * s * J(i, 3 * b + k), scale, k == 2 ? "Jacobian column of a rotation is the derivative of the error" : "Jacobian column of a translation is the derivative of the error");
            }
        }
}
template <class F> static void satisfied(Two& w, const F& f, float scale)
{
    w.here();
    auto e = f.eval(w.proxies());
    for (Uint32 i = 0; i < F::dimension; ++i) vc_eqs(e[i], 0.f, scale, "the error is zero where the constraint was made");
    auto bias = f.bias(w.proxies());
    for (Uint32 i = 0; i < F::dimension; ++i) vc_eqs(bias[i], 0.f, 0, "no velocity bias");
}

VC_CONTRACT(C17_hinge)
{
    Two w;
    HingeConstraintFunction f{w.bodies(), anyV()};
    gradient(w, f, false, 400);
}
VC_CONTRACT(C17_hinge_zero)
{
    Two w;
    HingeConstraintFunction f{w.bodies(), anyV()};
    satisfied(w, f, 400);
}
// the error of a hinge is the offset of the material points that coincided when it was made
VC_CONTRACT(C17_hinge_meaning)
{
    Two w;
    Vec2 x = anyV();
    HingeConstraintFunction f{w.bodies(), x};
    Vec2 a = w.p[0].toWorldSpace() * (w.A.toLocalSpace() * x), b = w.p[1].toWorldSpace() * (w.B.toLocalSpace() * x);
    auto e = f.eval(w.proxies());
    vc_eqs_at2(e[0], b[0] - a[0], e[1], b[1] - a[1], 400, "offset of the two anchors");
}
VC_CONTRACT(C17_rotation)
{
    Two w;
    RotationConstraintFunction f{w.bodies()};
    gradient(w, f, true, 40);
    auto e = f.eval(w.proxies());
    vc_eqs(e[0], (w.p[1].orientation() - w.p[0].orientation()) - (w.B.orientation() - w.A.orientation()), 40, "change of the relative angle");
    satisfied(w, f, 40);
}
VC_CONTRACT(C17_weld)
{
    Two w;
    WeldConstraintFunction f{HingeConstraintFunction{w.bodies(), anyV()}, RotationConstraintFunction{w.bodies()}};
    gradient(w, f, true, 400);
}
VC_CONTRACT(C17_weld_zero)
{
    Two w;
    WeldConstraint c{w.bodies()};
    satisfied(w, c.f, 400);
}
VC_CONTRACT(C17_distance)
{
    Two w;
    std::array<Vec2, 2> x{anyV(), anyV()};
    DistanceConstraintFunction f{w.bodies(), x};
    gradient(w, f, false, 8000);
}
VC_CONTRACT(C17_distance_meaning)
{
    Two w;
    std::array<Vec2, 2> x{anyV(), anyV()};
    DistanceConstraintFunction f{w.bodies(), x};
    Vec2 a = w.p[0].toWorldSpace() * (w.A.toLocalSpace() * x[0]), b = w.p[1].toWorldSpace() * (w.B.toLocalSpace() * x[1]);
    vc_eqs(f.eval(w.proxies())[0], normSquared(b - a), 8000, "squared distance of the two anchors");
}
VC_CONTRACT(C17_mouse)
{
    Two w;
    MouseConstraintFunction f{&w.A, anyV()};
    if (vc_bool()) f.updateMousePos(anyV());
    gradient(w, f, false, 400);
}
VC_CONTRACT(C17_mouse_meaning)
{
    Two w;
    Vec2 x = anyV(), y = anyV();
    MouseConstraintFunction f{&w.A, x};
    satisfied(w, f, 400);
    f.updateMousePos(y);
    w.p[0] = anyPosition();
    Vec2 a = w.p[0].toWorldSpace() * (w.A.toLocalSpace() * x);
    auto e = f.eval(w.proxies());
    vc_eqs_at2(e[0], a[0] - y[0], e[1], a[1] - y[1], 400, "offset of the held point from the mouse");
}
