#include "vc.h"
#include "Simu/math/BarycentricCoordinates.hpp"
#include "Simu/math/Geometry.hpp"
// vc:sources src/Simu/math/BarycentricCoordinates.cpp src/Simu/math/Geometry.cpp
using namespace simu;

static float pos() { return vc_num(-20.f, 20.f); }
static Vec2 anyV() { float x = pos(), y = pos(); return Vec2{x, y}; }
// native runs: snap to a grid now and then so that ties and degenerate cases are reached
static Vec2 gridV()
{
    Vec2 p = anyV();
    if (!vc_proof() && vc_bool()) p = std::round(p / 8.f) * 4.f;
    return p;
}
// native runs: any unit of length; tolerances scale with it
static float unit() { return vc_proof() ? 1.f : std::ldexp(1.f, vc_int(-20, 3)); }
static bool sensible(Vec2 a, Vec2 b) { return vc_proof() || normSquared(b - a) > 0.01f || normSquared(b - a) == 0.f; }

VC_CONTRACT(C10_line_weights)
{
    Vec2 A = gridV(), B = gridV(), Q = gridV();
    vc_assume(sensible(A, B));
    const float k = unit(), k2 = k * k;
    if (!vc_proof()) A *= k, B *= k, Q *= k;
    LineBarycentric l{A, B, Q};
    Vec2 AB = B - A;
    vc_eqs(l.u + l.v, 1.f, 100 * (1 + std::abs(l.v)), "the weights sum to one");
    if (normSquared(AB) == 0.f)
    {
        vc_cover("degenerate segment");
        vc_eqs(l.closestPoint[0], A[0], 100 * k, "a degenerate segment yields its end point (x)");
        vc_eqs(l.closestPoint[1], A[1], 100 * k, "a degenerate segment yields its end point (y)");
        return;
    }
    Vec2 P = l.u * A + l.v * B;
    vc_eqs(dot(Q - P, AB), 0.f, 200000 * k2, "u A + v B is the projection on the line");
    vc_eqs(cross(P - A, AB), 0.f, 200000 * k2, "u A + v B lies on the line");
    bool in = l.u >= 0.f && l.v >= 0.f;
    if (in)
    {
        vc_eqs(l.closestPoint[0], P[0], 200 * k, "weights in range: the closest point is the weighted combination (x)");
        vc_eqs(l.closestPoint[1], P[1], 200 * k, "weights in range: the closest point is the weighted combination (y)");
    }
    else
        vc_assert(l.closestPoint[0] != P[0] || l.closestPoint[1] != P[1] || !vc_proof(), "otherwise it is not");
}

VC_CONTRACT(C10_line_closest)
{
    Vec2 A = gridV(), B = gridV(), Q = gridV();
    vc_assume(sensible(A, B));
    const float k = unit(), k2 = k * k;
    if (!vc_proof()) A *= k, B *= k, Q *= k;
    LineBarycentric l{A, B, Q};
    Vec2 c = l.closestPoint;
    Vec2 AB = B - A;
    vc_eqs(cross(c - A, AB), 0.f, 2000 * k2, "the closest point lies on the segment's line");
    vc_les(dot(c - A, c - B), 0.f, 2000 * k2, "the closest point lies between the ends");
    // optimality: for a convex set, c is closest iff (Q - c).(X - c) <= 0 for every X of it (here: both ends)
    vc_les(dot(Q - c, A - c), 0.f, 20000 * k2, "no other point of the segment is nearer (A)");
    vc_les(dot(Q - c, B - c), 0.f, 20000 * k2, "no other point of the segment is nearer (B)");
}

// lemma: the optimality criterion at the vertices means that no point of the segment / triangle is nearer
VC_CONTRACT(C10_lemma_optimality)
{
    Vec2 A = anyV(), B = anyV(), C = anyV(), Q = anyV(), c = anyV();
    float s = vc_range(0.f, 1.f), t = vc_range(0.f, 1.f);
    vc_assume(s + t <= 1.f);
    vc_assume(dot(Q - c, A - c) <= 0.f && dot(Q - c, B - c) <= 0.f && dot(Q - c, C - c) <= 0.f);
    Vec2 X = A + s * (B - A) + t * (C - A);
    float a = (1.f - s - t) * dot(Q - c, A - c), b = s * dot(Q - c, B - c), d = t * dot(Q - c, C - c);
    vc_les(a, 0.f, 1000, "weighted criterion A");
    vc_les(b, 0.f, 1000, "weighted criterion B");
    vc_les(d, 0.f, 1000, "weighted criterion C");
    vc_eqs(dot(Q - c, X - c), a + b + d, 100000, "criterion is affine");
    vc_eqs(normSquared(Q - X) - normSquared(Q - c) - normSquared(X - c), -2.f * (a + b + d), 100000, "distance identity");
}

// a triangle and a point, placed relative to the vertex A (any A): every triangle of the given winding, every point
struct Tri { Vec2 A, B, C, Q; };
static Tri anyTri(float sign)
{
    Vec2 A = gridV(), b = gridV(), c = gridV(), q = gridV();
    Tri t{A, A + b, A + c, A + q};
    float area = cross(b, c);
    // native runs: clearly non-degenerate triangles
    vc_assume(vc_proof() ? area * sign > 0.f : area * sign > 1.f);
    return t;
}
static void weights(float s)
{
    Tri t = anyTri(s);
    TriangleBarycentric b{t.A, t.B, t.C, t.Q};
    vc_eqs(b.u, s * 0.5f * cross(t.B - t.Q, t.C - t.Q), 5000, "u is the area opposite A");
    vc_eqs(b.v, s * 0.5f * cross(t.C - t.Q, t.A - t.Q), 5000, "v is the area opposite B");
    vc_eqs(b.w, s * 0.5f * cross(t.A - t.Q, t.B - t.Q), 5000, "w is the area opposite C");
    Vec2 P = b.u * t.A + b.v * t.B + b.w * t.C;
    vc_eqs(P[0], (b.u + b.v + b.w) * t.Q[0], 100000, "the weights combine the vertices into the point (x)");
    vc_eqs(P[1], (b.u + b.v + b.w) * t.Q[1], 100000, "the weights combine the vertices into the point (y)");
    vc_eqs(b.u + b.v + b.w, s * 0.5f * cross(t.B - t.A, t.C - t.A), 5000, "the weights sum to the area (so they are all non-negative exactly inside)");
}
static void closest(float s)
{
    Tri t = anyTri(s);
    TriangleBarycentric b{t.A, t.B, t.C, t.Q};
    Vec2 c = b.closestPoint, Q = t.Q;
    vc_les(0.f, s * cross(t.B - t.A, c - t.A), 20000, "the closest point belongs to the triangle (AB)");
    vc_les(0.f, s * cross(t.C - t.B, c - t.B), 20000, "the closest point belongs to the triangle (BC)");
    vc_les(0.f, s * cross(t.A - t.C, c - t.C), 20000, "the closest point belongs to the triangle (CA)");
    // (in the proof each criterion is multiplied by the squared length, > 0, of the opposite edge)
    float na = vc_proof() ? normSquared(t.C - t.B) : 1.f, nb = vc_proof() ? normSquared(t.A - t.C) : 1.f, nc = vc_proof() ? normSquared(t.B - t.A) : 1.f;
    vc_assert(na > 0.f && nb > 0.f && nc > 0.f, "the edges have a length");
    vc_les(na * dot(Q - c, t.A - c), 0.f, 50000, "no other point is nearer (A)");
    vc_les(nb * dot(Q - c, t.B - c), 0.f, 50000, "no other point is nearer (B)");
    vc_les(nc * dot(Q - c, t.C - c), 0.f, 50000, "no other point is nearer (C)");
}
VC_CONTRACT(C10_triangle_weights_ccw) { weights(1.f); }
VC_CONTRACT(C10_triangle_weights_cw) { weights(-1.f); }
VC_CONTRACT(C10_triangle_closest_ccw, timeout=60000) { closest(1.f); }
VC_CONTRACT(C10_triangle_closest_cw, timeout=60000) { closest(-1.f); }
