#include "vc.h"
#include "Simu/physics/Transform.hpp"
using namespace simu;

static float pos() { return vc_num(-50.f, 50.f); }
static float ang() { return vc_num(-7.f, 7.f); }
static Vec2 anyV() { float x = pos(), y = pos(); return Vec2{x, y}; }
static Transform anyT() { float a = ang(); Vec2 t = anyV(); return Transform{Rotation{a}, Translation{t}}; }
static void eqv(const Vec2& a, const Vec2& b, const char* name) { vc_eqs_at2(a.data[0], b.data[0], a.data[1], b.data[1], 1000.f, name); }
static void eqr(const Rotation& a, const Rotation& b, const char* name)
{
    vc_eqs(a.theta_, b.theta_, 30, name);
    vc_eqs(a.cosine, b.cosine, 30, name);
    vc_eqs(a.sine, b.sine, 30, name);
}
static void eqt(const Transform& a, const Transform& b, const char* name)
{
    eqr(a.rotation(), b.rotation(), name);
    eqv(a.translation().offset(), b.translation().offset(), name);
}
// class invariant of Rotation: the cached cosine and sine belong to the angle
static void inv(const Rotation& r)
{
    vc_eqs(r.cosine, std::cos(r.theta_), 30, "a rotation caches the cosine of its angle");
    vc_eqs(r.sine, std::sin(r.theta_), 30, "a rotation caches the sine of its angle");
}
static void rigid(const Transform& T)
{
    Vec2 p = anyV(), q = anyV(), s = anyV();
    Vec2 a = T * p, b = T * q, c = T * s;
    vc_eqs(normSquared(a - b), normSquared(p - q), 100000, "transforms preserve distances");
    vc_eqs(cross(b - a, c - a), cross(q - p, s - p), 100000, "transforms preserve orientation and area");
    inv(T.rotation());
}

VC_CONTRACT(C09_rotation_matrix)
{
    float a = ang();
    Vec2 p = anyV();
    Rotation r{a};
    inv(r);
    vc_eqs(r.theta(), a, 0, "the angle can be read back");
    Vec2 q = r * p;
    vc_eqs(q.data[0], std::cos(a) * p.data[0] - std::sin(a) * p.data[1], 500, "rotation turns counter-clockwise (x)");
    vc_eqs(q.data[1], std::sin(a) * p.data[0] + std::cos(a) * p.data[1], 500, "rotation turns counter-clockwise (y)");
    eqv(Mat3{r} * p, q, "rotation as a matrix");
    r.set(ang());
    inv(r);
}
VC_CONTRACT(C09_translation)
{
    Vec2 t = anyV(), u = anyV(), p = anyV();
    Translation a{t}, b{u};
    eqv(a.offset(), t, "the offset can be read back");
    eqv(a * p, p + t, "translation adds its offset");
    eqv((a * b) * p, a * (b * p), "translations compose");
    eqv(a.inverse() * (a * p), p, "the inverse translation undoes it");
    eqv(Mat3{a} * p, a * p, "translation as a matrix");
    Translation c{t};
    c *= b;
    eqv(c.offset(), t + u, "in-place composition of translations");
    c.set(p);
    eqv(c.offset(), p, "set replaces the offset");
}
VC_CONTRACT(C09_rigid_any) { rigid(anyT()); }
VC_CONTRACT(C09_rigid_products)
{
    Transform T = anyT(), U = anyT();
    rigid(T * U);
    rigid(T.inverse());
}
VC_CONTRACT(C09_rigid_mixed)
{
    float a = ang();
    Vec2 t = anyV();
    Rotation r{a};
    Translation x{t};
    Transform T = anyT();
    rigid(r * x);
    rigid(x * r);
    rigid(T * x);
    rigid(T * r);
    rigid(x * T);
    rigid(r * T);
}
VC_CONTRACT(C09_composition)
{
    Transform T = anyT(), U = anyT();
    float a = ang();
    Vec2 t = anyV(), p = anyV();
    Rotation r{a}, s{ang()};
    Translation x{t};
    eqv((T * U) * p, T * (U * p), "T1 * T2 applies T2 then T1");
    eqv((r * s) * p, r * (s * p), "rotations compose");
    eqv((r * x) * p, r * (x * p), "rotation * translation");
    eqv((x * r) * p, x * (r * p), "translation * rotation");
    eqv((T * x) * p, T * (x * p), "transform * translation");
    eqv((T * r) * p, T * (r * p), "transform * rotation");
    eqv((x * T) * p, x * (T * p), "translation * transform");
    eqv((r * T) * p, r * (T * p), "rotation * transform");
    Rotation q{a};
    q *= s;
    eqr(q, r * s, "in-place composition of rotations");
    vc_eqs(q.theta(), a + s.theta(), 30, "angles add");
}
VC_CONTRACT(C09_group)
{
    Transform T = anyT(), U = anyT(), V = anyT();
    Vec2 p = anyV();
    eqt((T * U) * V, T * (U * V), "composition is associative");
    eqt(T * Transform::identity(), T, "the identity is neutral on the right");
    eqt(Transform::identity() * T, T, "the identity is neutral on the left");
    eqt(T.inverse() * T, Transform::identity(), "the inverse is a left inverse");
    eqt(T * T.inverse(), Transform::identity(), "the inverse is a right inverse");
    eqt(T.inverse().inverse(), T, "inverting twice gives the transform back");
    eqv(T.inverse() * (T * p), p, "the inverse undoes the transform");
    eqv(Transform::identity() * p, p, "the identity changes nothing");
}
VC_CONTRACT(C09_rotation_group)
{
    Rotation r{ang()}, s{ang()}, t{ang()};
    Vec2 p = anyV();
    eqr((r * s) * t, r * (s * t), "rotations associate");
    eqv(r.inverse() * (r * p), p, "the inverse rotation undoes the rotation");
    eqr(r.inverse() * r, Rotation{0.f}, "inverse rotation");
    inv(r.inverse());
    inv(r * s);
}
VC_CONTRACT(C09_around_a_point)
{
    float a = ang();
    Vec2 o = anyV(), d = anyV(), p = anyV();
    Transform T = Transform::transformAround(a, d, o);
    eqv(T * o, o + d, "transforming around a point moves that point by the offset only");
    eqv(Transform::transformAround(a, Vec2{}, o) * o, o, "rotating about a point leaves it fixed");
    eqv(T * p, o + d + Rotation{a} * (p - o), "other points turn about it");
    vc_eqs(T.rotation().theta(), a, 30, "the angle can be read back from the transform");
    rigid(T);
}
VC_CONTRACT(C09_read_back)
{
    float a = ang();
    Vec2 t = anyV(), p = anyV();
    Transform T{Rotation{a}, Translation{t}};
    vc_eqs(T.rotation().theta(), a, 0, "the angle of a transform");
    eqv(T.translation().offset(), t, "the offset of a transform");
    eqt(Transform{Transform::rotation(T.rotation().theta()), Transform::translation(T.translation().offset())}, T, "angle and offset reproduce the transform");
    eqv(Mat3{T} * p, T * p, "the matrix of a transform acts like the transform");
    eqv(Transform{} * p, p, "the default transform is the identity");
}
