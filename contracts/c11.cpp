#include "vc.h"
#include "Simu/math.hpp"
// vc:sources src/Simu/math/Geometry.cpp
using namespace simu;

struct Span
{
    const Vec2 *b, *e;
    const Vec2* begin() const { return b; }
    const Vec2* end() const { return e; }
};
// Green's theorem over the closed chain v[0..n)
struct Green
{
    float a = 0.f, cx = 0.f, cy = 0.f, m = 0.f;
    void edge(Vec2 p, Vec2 q)
    {
        float x = p[0] * q[1] - p[1] * q[0];
        a += x;
        cx += (p[0] + q[0]) * x;
        cy += (p[1] + q[1]) * x;
        m += x * (p[0] * p[0] + p[1] * p[1] + p[0] * q[0] + p[1] * q[1] + q[0] * q[0] + q[1] * q[1]);
    }
};
static Green green(const Vec2* v, std::size_t n)
{
    Green g;
    for (std::size_t i = 0; i + 1 < n; ++i) g.edge(v[i], v[i + 1]);
    g.edge(v[n - 1], v[0]);
    return g;
}
static void checkGreen(const GeometricProperties& p, const Green& g, float scale, const char* name)
{
    float A = g.a / 2.f;
    vc_eqs(p.area, A, scale, name);
    vc_eqs(p.centroid[0] * A * 6.f, g.cx, scale, name);
    vc_eqs(p.centroid[1] * A * 6.f, g.cy, scale, name);
    float I = g.m / 12.f - A * (p.centroid[0] * p.centroid[0] + p.centroid[1] * p.centroid[1]);
    vc_eqs(p.momentOfArea, I < 0.f ? -I : I, scale, name);
}
VC_CONTRACT(C11_green_any_number_of_vertices)
{
    std::size_t n = vc_size(3, 12);
    Vec2* v = reinterpret_cast<Vec2*>(vc_floats(n, 2));
    GeometricProperties p{Span{v, v + n}};
    Green g = green(v, n);
    vc_assert(p.isDegenerate == (g.a == 0.f) || !vc_proof(), "degenerate exactly when the area is zero");
    if (p.isDegenerate || (!vc_proof() && std::abs(g.a) < 1.f)) return;
    checkGreen(p, g, 1e6f, "Green's theorem");
}

// the same chain seen from another vertex, backwards, or moved
static void sameProperties(const GeometricProperties& p, const GeometricProperties& q, float sign, Vec2 move, const char* name)
{
    vc_assert(vc_proof() ? p.isDegenerate == q.isDegenerate : true, name);
    if (p.isDegenerate || q.isDegenerate || (!vc_proof() && std::abs(p.area) < 10.f)) return;
    vc_eqs(q.area, sign * p.area, 4000, name);
    for (int i = 0; i < 2; ++i) vc_eqs(q.centroid[i], p.centroid[i] + move[i], 10000, name);
    vc_eqs(q.momentOfArea, p.momentOfArea, 4000000, name);
}
template <std::size_t n> struct Chain
{
    Vec2 v[n], w[n];
    Chain() { for (Vec2& x : v) x = Vec2{vc_num(-8.f, 8.f), vc_num(-8.f, 8.f)}; }
    void same(float sign, Vec2 move, const char* name)
    {
        sameProperties(GeometricProperties{Span{v, v + n}}, GeometricProperties{Span{w, w + n}}, sign, move, name);
    }
    void start()
    {
        for (std::size_t i = 0; i < n; ++i) w[i] = v[(i + 1) % n];
        same(1.f, Vec2{}, "the starting vertex does not matter");
    }
    void winding()
    {
        for (std::size_t i = 0; i < n; ++i) w[i] = v[n - 1 - i];
        same(-1.f, Vec2{}, "the winding only changes the sign of the area");
    }
    void moved()
    {
        Vec2 t{vc_num(-8.f, 8.f), vc_num(-8.f, 8.f)};
        for (std::size_t i = 0; i < n; ++i) w[i] = v[i] + t;
        same(1.f, t, "a translation moves the centroid along and changes nothing else");
    }
};
VC_CONTRACT(C11_start_3) { Chain<3>{}.start(); }
VC_CONTRACT(C11_start_4) { Chain<4>{}.start(); }
VC_CONTRACT(C11_start_6) { Chain<6>{}.start(); }
VC_CONTRACT(C11_winding_3) { Chain<3>{}.winding(); }
VC_CONTRACT(C11_winding_4) { Chain<4>{}.winding(); }
VC_CONTRACT(C11_winding_6) { Chain<6>{}.winding(); }
VC_CONTRACT(C11_moved_3) { Chain<3>{}.moved(); }

// the polygon keeps the vertices, in positive orientation
template <std::size_t n> static void polygon()
{
    Vec2 v[n];
    for (Vec2& x : v) x = Vec2{vc_num(-8.f, 8.f), vc_num(-8.f, 8.f)};
    Green g = green(v, n);
    Polygon p{v, v + n};
    vc_assert((std::size_t)(p.end() - p.begin()) == n, "no vertex is lost");
    bool flip = g.a < 0.f;
    vc_assert(p.properties().isDegenerate == (g.a == 0.f) || !vc_proof(), "degenerate exactly when the area is zero");
    if (!vc_proof() && std::abs(g.a) < 0.05f) return;
    for (std::size_t i = 0; i < n; ++i)
    {
        Vec2 w = p.begin()[i];
        vc_assert(flip ? (w[0] == v[n - 1 - i][0]) & (w[1] == v[n - 1 - i][1]) : (w[0] == v[i][0]) & (w[1] == v[i][1]), "exactly the given vertices, in the given or the reverse order");
    }
    Green s = green(&*p.begin(), n);
    vc_assert(s.a >= 0.f, "stored in positive orientation");
    vc_les(0.f, p.properties().area, 0, "the area is not negative");
    if (g.a == 0.f) return;
    vc_eqs(p.properties().area, s.a / 2.f, 1000, "the area");
    vc_eqs(p.properties().centroid[0] * s.a * 3.f, s.cx, 100000, "the centroid");
    vc_eqs(p.properties().centroid[1] * s.a * 3.f, s.cy, 100000, "the centroid");
    Vec2 c = p.properties().centroid;
    if (vc_proof() || std::abs(g.a) > 10.f) vc_eqs(p.properties().momentOfArea, std::abs(s.m / 12.f - s.a / 2.f * (c[0] * c[0] + c[1] * c[1])), 1000000, "the second moment about the centroid");
}
VC_CONTRACT(C11_polygon_3) { polygon<3>(); }
VC_CONTRACT(C11_polygon_4) { polygon<4>(); }
VC_CONTRACT(C11_polygon_5) { polygon<5>(); }
VC_CONTRACT(C11_polygon_6) { polygon<6>(); }
VC_CONTRACT(C11_polygon_8) { polygon<8>(); }
VC_CONTRACT(C11_too_few)
{
    Vec2 v[3];
    for (Vec2& x : v) x = Vec2{vc_num(-8.f, 8.f), vc_num(-8.f, 8.f)};
    int n = vc_int(0, 3);
    bool refused = vc_throws_any([&] { Polygon p{v, v + n}; });
    vc_assert(refused == (n < 3), "exactly the chains of fewer than three vertices are refused");
}
VC_CONTRACT(C11_box)
{
    float w = vc_num(0.f, 8.f), h = vc_num(0.f, 8.f);
    vc_assume(w > 0.f);
    vc_assume(h > 0.f);
    Vec2 c{vc_num(-8.f, 8.f), vc_num(-8.f, 8.f)};
    Polygon p = Polygon::box(Vec2{w, h}, c);
    vc_assert(p.end() - p.begin() == 4, "four corners");
    float x0 = 1e30f, x1 = -1e30f;
    for (Vec2 v : p)
    {
        vc_eqs((v[0] - c[0]) * (v[0] - c[0]), w * w / 4.f, 100, "corners at half the width");
        vc_eqs((v[1] - c[1]) * (v[1] - c[1]), h * h / 4.f, 100, "corners at half the height");
    }
    (void)x0, (void)x1;
    if (!vc_proof() && w * h < 1.f) return;
    vc_eqs(p.properties().area, w * h, 100, "the area of a box");
    for (int i = 0; i < 2; ++i) vc_eqs(p.properties().centroid[i], c[i], 2000, "the centroid of a box");
    vc_eqs(p.properties().momentOfArea, w * h * (w * w + h * h) / 12.f, 100000, "the second moment of a box");
}
