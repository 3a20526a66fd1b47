#include "vc.h"
#include "Simu/math.hpp"
#include "Simu/math/Edges.hpp"
// vc:sources src/Simu/math/Geometry.cpp
using namespace simu;

// a chain of any number of vertices
struct Span
{
    const Vec2 *b, *e;
    const Vec2* begin() const { return b; }
    const Vec2* end() const { return e; }
};
static Vec2* vertices(std::size_t n)
{
    Vec2* v = reinterpret_cast<Vec2*>(vc_floats(n, 2));
    return v;
}
static Vec2 direction()
{
    Vec2 d{vc_num(-8.f, 8.f), vc_num(-8.f, 8.f)};
    if (!vc_proof() && vc_bool()) d = std::round(d / 4.f);
    vc_assume((d[0] != 0.f) | (d[1] != 0.f));
    return d;
}

// ---- support queries
VC_CONTRACT(C12_no_vertex_lies_further)
{
    std::size_t n = vc_size(1, 12), k = vc_size(0, 11);
    vc_assume(k < n);
    Vec2* v = vertices(n);
    Vec2 d = direction();
    Vec2 f = furthestVertexInDirection(Span{v, v + n}, d);
    vc_les(dot(v[k], d), dot(f, d), 100, "no vertex lies further along the direction");
}
VC_CONTRACT(C12_furthest_is_a_vertex)
{
    std::size_t n = vc_size(1, 12);
    Vec2* v = vertices(n);
    Vec2 d = direction();
    Vec2 f = furthestVertexInDirection(Span{v, v + n}, d);
    bool found = false;
    for (std::size_t i = 0; i < n; ++i)
        if ((v[i][0] == f[0]) & (v[i][1] == f[1])) found = true;
    vc_assert(found, "the furthest vertex is one of the vertices");
}

// ---- orientation of three points
VC_CONTRACT(C12_orientation)
{
    Vec2 a{vc_num(-8.f, 8.f), vc_num(-8.f, 8.f)}, b{vc_num(-8.f, 8.f), vc_num(-8.f, 8.f)}, c{vc_num(-8.f, 8.f), vc_num(-8.f, 8.f)};
    float e = vc_num(0.f, 1.f);
    vc_assume(e >= 0.f);
    float x = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
    vc_assume(vc_proof() || std::abs(std::abs(x) - e) > 1e-4f);
    Orientation o = orientation(a, b, c, e);
    vc_assert((o == Orientation::collinear) == (std::abs(x) <= e), "collinear exactly within the tolerance");
    vc_assert((o == Orientation::positive) == (x > e), "positive exactly when the cross product is, outside the tolerance");
    vc_assert((o == Orientation::negative) == (x < -e), "negative exactly when the cross product is, outside the tolerance");
}

// ---- edges
typedef Edges<Span>::Iterator It;
typedef Edges<Span>::Edge Edge;
static std::size_t before(std::size_t i, std::size_t n) { return i == 0 ? n - 1 : i - 1; }
// edge number i joins vertex i - 1 (cyclically) to vertex i
static bool isEdge(const It& e, const Vec2* v, std::size_t i, std::size_t n)
{
    return (e->fromIt() == v + before(i, n)) & (e->toIt() == v + i);
}
static It edge(const Vec2* v, std::size_t i, std::size_t n) { return It{Edge{v + before(i, n), v + i}}; }

VC_CONTRACT(C12_walk_visits_every_pair_once)
{
    std::size_t n = vc_size(1, 12);
    Vec2* v = vertices(n);
    Span s{v, v + n};
    auto edges = edgesOf(s);
    std::size_t i = 0;
    for (It e = edges.begin(); e != edges.end(); ++e)
    {
        vc_assert(i < n, "no edge beyond the last");
        vc_assert(isEdge(e, v, i, n), "the i-th step of the walk visits the i-th edge");
        ++i;
    }
    vc_assert(i == n, "one edge for every vertex");
}
VC_CONTRACT(C12_step)
{
    std::size_t n = vc_size(1, 12), i = vc_size(0, 11);
    vc_assume(i < n);
    Vec2* v = vertices(n);
    Span s{v, v + n};
    auto edges = edgesOf(s);
    It e = edge(v, i, n);
    vc_assert((e == edges.begin()) == (i == 0), "the walk begins at the edge that closes the chain");
    vc_assert(e != edges.end(), "an edge is not the end");
    It f = e;
    It old = f++;
    vc_assert(old == e, "stepping returns the edge it left");
    vc_assert((f == edges.end()) == (i + 1 == n), "the walk ends after the last edge");
    vc_assert((i + 1 == n) | isEdge(f, v, i + 1 == n ? 0 : i + 1, n), "stepping reaches the following edge");
}
VC_CONTRACT(C12_next_and_previous_are_cyclic)
{
    std::size_t n = vc_size(1, 12), i = vc_size(0, 11);
    vc_assume(i < n);
    Vec2* v = vertices(n);
    Span s{v, v + n};
    auto edges = edgesOf(s);
    It e = edge(v, i, n);
    vc_assert(isEdge(edges.next(e), v, i + 1 == n ? 0 : i + 1, n), "next is the following edge, cyclically");
    vc_assert(isEdge(edges.previous(e), v, before(i, n), n), "previous is the preceding edge, cyclically");
    vc_assert(edges.previous(edges.next(e)) == e, "previous undoes next");
    vc_assert(edges.next(edges.previous(e)) == e, "next undoes previous");
}
VC_CONTRACT(C12_edge_geometry)
{
    std::size_t n = vc_size(2, 12), i = vc_size(0, 11);
    vc_assume(i < n);
    Vec2* v = vertices(n);
    It e = edge(v, i, n);
    Vec2 a = v[before(i, n)], b = v[i];
    vc_assert((e->from()[0] == a[0]) & (e->from()[1] == a[1]) & (e->to()[0] == b[0]) & (e->to()[1] == b[1]), "an edge joins its vertices");
    Vec2 d = e->direction(), m = e->normal();
    vc_eqs(d[0], b[0] - a[0], 10, "its direction");
    vc_eqs(d[1], b[1] - a[1], 10, "its direction");
    vc_eqs(m[0], d[1], 10, "the normal is to the right of the direction: outwards for a positive chain");
    vc_eqs(m[1], -d[0], 10, "the normal is to the right of the direction: outwards for a positive chain");
    Vec2 p{vc_num(-8.f, 8.f), vc_num(-8.f, 8.f)};
    float x = d[0] * (p[1] - a[1]) - d[1] * (p[0] - a[0]);
    if (!vc_proof() && std::abs(x) < 0.01f) return;
    vc_assert(e->isOutside(p) == (x < 0.f), "outside is to the right of the edge's line");
    vc_assert(e->isInside(p) == (x > 0.f), "inside is to the left of the edge's line");
}
// every edge of a polygon in place of a span
template <std::size_t n> static void polygonEdges()
{
    Vec2 v[n];
    // the proof covers every size; the native run also tries tiny shapes (powers of two: exact)
    float unit = vc_proof() ? 1.f : std::ldexp(1.f, -vc_int(0, 24));
    for (Vec2& x : v) x = Vec2{unit * vc_num(-8.f, 8.f), unit * vc_num(-8.f, 8.f)};
    Polygon p{v, v + n};
    std::size_t i = 0;
    for (auto e : edgesOf(p))
    {
        vc_assert(i < n, "no edge beyond the last");
        auto from = p.begin() + before(i, n), to = p.begin() + i;
        vc_assert((e.fromIt() == from) & (e.toIt() == to), "the i-th edge joins vertices i - 1 and i");
        ++i;
    }
    vc_assert(i == n, "one edge for every vertex");
    Vec2 d = direction();
    Vec2 f = furthestVertexInDirection(p, d);
    bool one = false;
    for (Vec2 x : p)
    {
        vc_les(dot(x, d) / unit, dot(f, d) / unit, 100, "no vertex lies further along the direction");
        one |= (x[0] == f[0]) & (x[1] == f[1]);
    }
    vc_assert(one, "the furthest vertex is one of the vertices");
}
VC_CONTRACT(C12_polygon_3) { polygonEdges<3>(); }
VC_CONTRACT(C12_polygon_4) { polygonEdges<4>(); }
VC_CONTRACT(C12_zero_direction_is_refused)
{
    std::size_t n = vc_size(1, 12);
    Vec2* v = vertices(n);
    bool refused = vc_throws_any([&] { furthestVertexInDirection(Span{v, v + n}, Vec2{0.f, 0.f}); });
    vc_assert(refused, "without a direction the query is refused");
}
