#include "vc.h"
#include "phys.h"
#include "Simu/math/Edges.hpp"
// vc:sources src/Simu/physics/Body.cpp src/Simu/physics/World.cpp src/Simu/physics/BoundingBox.cpp src/Simu/math/Geometry.cpp
// vc:replace C22_update\w* "^simu::Gjk<simu::Collider>::Gjk\(" with stub_gjk
// vc:replace C22_update\w* "^simu::Gjk<simu::Collider>::penetration\(" with stub_penetration
// vc:assumes C22_update\w* the penetration vector is arbitrary (its contract is property C13)
// vc:replace C22_update\w* "^simu::ContactManifold::computeContactEdges\(" with stub_edges
// vc:assumes C22_update\w* computeContactEdges returns some edge of each shape (its contract is C22_contact_edge)
// vc:replace C22_update\w* "^simu::ContactManifold::computeContacts\(" with stub_contacts
// vc:assumes C22_update\w* computeContacts leaves up to two pairs of points (its contract is C22_contacts)
// vc:replace C22_contacts\w* "^simu::Edges<simu::Collider>::Edge::clipInside\(" with stub_clip
// vc:assumes C22_contacts\w* clipInside returns some point of its edge (its contract is C22_clip)
// vc:replace C22_contacts\w* "^simu::LineBarycentric::LineBarycentric\(" with stub_line
// vc:assumes C22_contacts\w* LineBarycentric finds the closest point of its segment (its contract is property C10)
// vc:replace C22_contact_edge_faces\w* "^lemmaFaces\(" with stub_lemma_faces
// vc:replace C22_contact_edge_faces\w* "^lemmaNormalized\(" with stub_lemma_normalized
using namespace simu;
typedef Edges<Collider>::Edge Edge;

static ColliderDescriptor shape(int n)
{
    Vec2 v[5] = {Vec2{0.f, 0.f}, Vec2{2.f, 0.f}, Vec2{3.f, 1.f}, Vec2{1.f, 3.f}, Vec2{-1.f, 2.f}};
    ColliderDescriptor d{Polygon{v, v + n}};
    return d;
}
static Vec2 unit()
{
    if (vc_proof())
    {
        float x = vc_num(-1.f, 1.f), y = vc_num(-1.f, 1.f);
        vc_assume(x * x + y * y == 1.f);
        return Vec2{x, y};
    }
    float a = vc_num(-4.f, 4.f);
    return Vec2{std::cos(a), std::sin(a)};
}
static bool same(Vec2 a, Vec2 b) { return (a[0] == b[0]) & (a[1] == b[1]); }
static float side(Vec2 a, Vec2 b, Vec2 p) { return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]); }
// a collider whose world vertices are arbitrary
template <int n> struct Shape
{
    Body b{BodyDescriptor{}};
    Collider c{shape(n), &b, Collider::Alloc{}};
    Vec2 v[n];
    Shape()
    {
        for (int i = 0; i < n; ++i) c.transformed_[i] = v[i] = anyV();
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < i; ++j) vc_assume(vc_proof() ? !same(v[i], v[j]) : normSquared(v[i] - v[j]) > 0.1f);
    }
    Shape(const Shape&) = delete;
    Edge edge(int i) const { return Edge{c.begin() + (i == 0 ? n - 1 : i - 1), c.begin() + i}; }
};

// ---- the frame is the manifold carried along by the bodies
template <Uint32 n> static void frame()
{
    Two w;
    Collider a{shape(3), &w.A, Collider::Alloc{}}, b{shape(3), &w.B, Collider::Alloc{}};
    ContactManifold m{a, b};
    m.nContacts_ = n;
    m.referenceIndex_ = vc_int(0, 1);
    m.contactNormal_ = unit();
    for (int i = 0; i < 2; ++i)
        for (int k = 0; k < 2; ++k) m.contacts_[i][k] = anyV();
    Proxies p = w.proxies();
    ContactManifold::FrameManifold f = m.frameManifold(p);
    vc_assert(f.nContacts == n, "as many contacts as the manifold has");
    for (int i = 0; i < 2; ++i)
        for (Uint32 k = 0; k < n; ++k)
        {
            Vec2 q = w.p[i].toWorldSpace() * m.contacts_[i][k];
            vc_eqs_at2(f.contacts[i][k][0], q[0], f.contacts[i][k][1], q[1], 100, "contact points move rigidly with their bodies");
        }
    float c = w.p[m.referenceIndex_].orientation_.cosine, s = w.p[m.referenceIndex_].orientation_.sine;
    float sign = m.referenceIndex_ == 1 ? 1.f : -1.f;
    vc_eqs(f.normal[0], sign * (c * m.contactNormal_[0] - s * m.contactNormal_[1]), 10, "the normal turns with the reference body and points out of the second body");
    vc_eqs(f.normal[1], sign * (s * m.contactNormal_[0] + c * m.contactNormal_[1]), 10, "the normal turns with the reference body and points out of the second body");
    vc_eqs(normSquared(f.normal), 1.f, 10, "the normal is a unit vector");
    vc_eqs(dot(f.normal, f.tangent), 0.f, 10, "the tangent is perpendicular to it");
    vc_eqs(normSquared(f.tangent), 1.f, 10, "the tangent is a unit vector");
    // from the bodies themselves
    Bodies bodies = w.bodies();
    ContactManifold::FrameManifold g = m.frameManifold(bodies);
    for (int i = 0; i < 2; ++i)
        for (Uint32 k = 0; k < n; ++k)
        {
            Vec2 q = (i ? w.B : w.A).toWorldSpace() * m.contacts_[i][k];
            vc_eqs_at2(g.contacts[i][k][0], q[0], g.contacts[i][k][1], q[1], 100, "contact points of the bodies' present positions");
        }
    vc_assert((m.incidentIndex() == 1 - m.referenceIndex()), "the incident body is the other one");
}
VC_CONTRACT(C22_frame_1) { frame<1>(); }
VC_CONTRACT(C22_frame_2) { frame<2>(); }

// ---- the edge of a shape that faces a direction
// lemma: at a convex corner that is furthest along d, one of the two edges has an outward normal with a component along d
static bool facing(Vec2 e, Vec2 d) { return e[1] * d[0] - e[0] * d[1] > 0.f; }
static bool corner(Vec2 e, Vec2 f, Vec2 d) { return (dot(e, d) >= 0.f) & (dot(f, d) <= 0.f) & (e[0] * f[1] - e[1] * f[0] > 0.f) & ((d[0] != 0.f) | (d[1] != 0.f)); }
static bool lemmaUsed;
static __attribute__((noinline)) void lemmaNormalized(Vec2 e, Vec2 d) { lemmaUsed = true; }
static __attribute__((noinline)) void lemmaFaces(Vec2 e, Vec2 f, Vec2 d) { lemmaUsed = true; }
VC_STUB void stub_lemma_faces(Vec2 e, Vec2 f, Vec2 d)
{
    vc_assert(corner(e, f, d), "precondition of the lemma: a convex corner furthest along the direction");
    if (facing(e, d)) { lemmaNormalized(e, d); return; }
    vc_assume(facing(f, d));
    lemmaNormalized(f, d);
}
static float normalizedAlong(Vec2 e, Vec2 d) { return dot(normalized(perp(e, true)), d); }
VC_STUB void stub_lemma_normalized(Vec2 e, Vec2 d)
{
    vc_assert(facing(e, d), "precondition of the lemma: the edge faces the direction");
    vc_assume(normalizedAlong(e, d) > 0.f);
}
VC_CONTRACT(C22_lemma_normalized)
{
    Vec2 e = anyV(), d = anyV();
    vc_assume(facing(e, d));
    vc_assert(normalizedAlong(e, d) > 0.f, "its unit normal faces the direction as well");
}
VC_CONTRACT(C22_lemma_faces)
{
    Vec2 e = anyV(), f = anyV(), d = anyV();
    vc_assume(dot(e, d) >= 0.f);
    vc_assume(dot(f, d) <= 0.f);
    vc_assume(vc_proof() ? e[0] * f[1] - e[1] * f[0] > 0.f : e[0] * f[1] - e[1] * f[0] > 0.5f);
    vc_assume(vc_proof() ? (d[0] != 0.f) | (d[1] != 0.f) : normSquared(d) > 0.5f);
    vc_assert(facing(e, d) | facing(f, d), "one of the two edges faces the direction");
}
template <int n> static void contactEdge(bool convex)
{
    Shape<n> s;
    Vec2 d = anyV();
    vc_assume(vc_proof() ? (d[0] != 0.f) | (d[1] != 0.f) : normSquared(d) > 0.1f);
    Edge e = ContactManifold::computeContactEdge(s.c, d);
    Vec2 v = furthestVertexInDirection(s.c, d);
    bool found = false;
    for (int i = 0; i < n; ++i)
    {
        if (!same(s.v[i], v)) continue;
        found = true;
        Edge before = s.edge(i), after = s.edge((i + 1) % n);
        bool isBefore = (e.fromIt() == before.fromIt()) & (e.toIt() == before.toIt()), isAfter = (e.fromIt() == after.fromIt()) & (e.toIt() == after.toIt());
        vc_assert(isBefore | isAfter, "one of the two edges at the furthest vertex");
        vc_les(dot((isAfter ? before : after).normalizedNormal(), d), dot(e.normalizedNormal(), d), 100, "the one whose normal is closer to the direction");
        vc_eqs(normSquared(e.normalizedNormal()), 1.f, 10, "its normal is a unit vector");
        if (convex)
        {
            vc_assume(side(before.from(), before.to(), after.to()) > (vc_proof() ? 0.f : 0.05f)); // a convex corner
            lemmaFaces(before.direction(), after.direction(), d);
            vc_assert(dot(e.normalizedNormal(), d) > 0.f, "its normal has a component along the direction");
        }
    }
    vc_assert(found, "the furthest vertex is a vertex");
}
VC_CONTRACT(C22_contact_edge_3) { contactEdge<3>(false); }
VC_CONTRACT(C22_contact_edge_4, cost=2) { contactEdge<4>(false); }
VC_CONTRACT(C22_contact_edge_faces_the_direction_3) { contactEdge<3>(true); }
VC_CONTRACT(C22_contact_edge_faces_the_direction_4, cost=4) { contactEdge<4>(true); }

// ---- clipping an edge by the line of another one
VC_CONTRACT(C22_clip)
{
    Vec2 a[2] = {anyV(), anyV()}, b[2] = {anyV(), anyV()};
    Shape<3> A, B;
    A.c.transformed_[0] = a[0];
    A.c.transformed_[1] = a[1];
    B.c.transformed_[0] = b[0];
    B.c.transformed_[1] = b[1];
    vc_assume(vc_proof() ? !same(b[0], b[1]) : std::abs(cross(a[1] - a[0], b[1] - b[0])) > 0.5f);
    Edge e = A.edge(1), f = B.edge(1);
    Vec2 p = e.clipInside(f);
    float from = side(b[0], b[1], a[0]), to = side(b[0], b[1], a[1]);
    float t = from / (from - to); // where the edge meets the line, if it does
    bool crosses = vc_proof() ? (from >= 0.f) & (to < 0.f) | (from <= 0.f) & (to > 0.f) : from * to < -1e-3f;
    if (from - to == 0.f)
    {
        vc_assert(same(p, a[0]), "an edge parallel to the line keeps its first end");
        return;
    }
    if (crosses)
    {
        vc_eqs(p[0], a[0][0] + t * (a[1][0] - a[0][0]), 2000, "an edge that meets the line is cut where it does");
        vc_eqs(p[1], a[0][1] + t * (a[1][1] - a[0][1]), 2000, "an edge that meets the line is cut where it does");
    }
    else if (vc_proof() || std::abs(from) > 0.1f && std::abs(to) > 0.1f)
    {
        vc_assert(same(p, a[0]) | same(p, a[1]) | !vc_proof() & (norm(p - a[1]) < 1e-3f), "otherwise one of its ends remains");
        bool nearer = vc_proof() ? from * from < to * to : from * from < 0.9f * to * to, farther = vc_proof() ? from * from > to * to : 0.9f * from * from > to * to;
        vc_assert((same(p, a[0]) | !nearer) & (!same(p, a[0]) | !farther), "the end nearer to the line");
    }
}

// ---- the contact points
VC_STUB Vec2 stub_clip(const Edge* e, const Edge*)
{
    float t = vc_num(0.f, 1.f);
    vc_assume(t >= 0.f);
    vc_assume(t <= 1.f);
    return e->from() + t * (e->to() - e->from());
}
VC_STUB void stub_line(LineBarycentric* l, Vec2 A, Vec2 B, Vec2 Q)
{
    float s = vc_num(0.f, 1.f);
    vc_assume(s >= 0.f);
    vc_assume(s <= 1.f);
    l->u = 1.f - s;
    l->v = s;
    l->closestPoint = A + s * (B - A);
    vc_assume(dot(Q - l->closestPoint, A - l->closestPoint) <= 0.f);
    vc_assume(dot(Q - l->closestPoint, B - l->closestPoint) <= 0.f);
}
template <int ref> static void contacts()
{
    Shape<3> a, b;
    Shape<3>&R = ref ? b : a, &I = ref ? a : b;
    ContactManifold m{a.c, b.c};
    int i = vc_int(0, 2), j = vc_int(0, 2);
    Edge r = R.edge(i), e = I.edge(j);
    m.referenceIndex_ = ref;
    m.nContacts_ = 0;
    Vec2 n = vc_proof() ? unit() : r.normalizedNormal();
    m.contactNormal_ = n;
    std::array<Edge, 2> edges = ref ? std::array<Edge, 2>{e, r} : std::array<Edge, 2>{r, e};
    m.computeContacts(edges);
    Uint32 k = m.nContacts_;
    vc_assert(k <= 2, "at most two contacts");
    float dFrom = dot(e.from() - r.from(), n), dTo = dot(e.to() - r.from(), n);
    vc_assert((k > 0) | (dFrom > 0.f) & (dTo > 0.f), "an incident edge that reaches behind the reference edge has a contact");
    for (Uint32 c = 0; c < k; ++c)
    {
        Vec2 p = m.contacts_[1 - ref][c], q = m.contacts_[ref][c];
        vc_eqs(side(e.from(), e.to(), p), 0.f, 1000, "the incident point lies on the incident edge");
        vc_les(dot(p - e.from(), p - e.to()), 0.f, 1000, "the incident point lies between its ends");
        vc_les(dot(p - r.from(), n), 0.f, 100, "the incident point lies at or behind the reference edge");
        vc_eqs(side(r.from(), r.to(), q), 0.f, 1000, "the reference point lies on the reference edge");
        vc_les(dot(q - r.from(), q - r.to()), 0.f, 1000, "the reference point lies between its ends");
        vc_les(dot(p - q, r.from() - q), 0.f, 1000, "no point of the reference edge is closer to the incident point");
        vc_les(dot(p - q, r.to() - q), 0.f, 1000, "no point of the reference edge is closer to the incident point");
    }
    if (k == 2) vc_assert(!same(m.contacts_[1 - ref][0], m.contacts_[1 - ref][1]), "two contacts are different points");
}
VC_CONTRACT(C22_contacts_first, cost=3) { contacts<0>(); }
VC_CONTRACT(C22_contacts_second, cost=3) { contacts<1>(); }

// ---- putting it together
static Vec2 theMtv;
static int edgeOf[2];
static Uint32 contactsFound;
static Vec2 worldContacts[2][2];
static bool asked, computed;
VC_STUB void stub_gjk(Gjk<Collider>*, const Collider*, const Collider*, Vec2) {}
VC_STUB Vec2 stub_penetration(const Gjk<Collider>*)
{
    asked = true;
    return theMtv;
}
VC_STUB std::array<Edge, 2> stub_edges(ContactManifold* m, Vec2 mtv)
{
    vc_assert(same(mtv, theMtv), "the edges are chosen for the penetration vector");
    Edge e[2] = {Edge{m->colliders_[0]->begin() + (edgeOf[0] ? edgeOf[0] - 1 : 2), m->colliders_[0]->begin() + edgeOf[0]},
        Edge{m->colliders_[1]->begin() + (edgeOf[1] ? edgeOf[1] - 1 : 2), m->colliders_[1]->begin() + edgeOf[1]}};
    return std::array<Edge, 2>{e[0], e[1]};
}
VC_STUB void stub_contacts(ContactManifold* m, std::array<Edge, 2>*)
{
    computed = true;
    m->nContacts_ = contactsFound;
    for (int i = 0; i < 2; ++i)
        for (Uint32 k = 0; k < contactsFound; ++k) m->contacts_[i][k] = worldContacts[i][k];
}
template <Uint32 n> static void update(bool first)
{
    Shape<3> a, b;
    anyBody(a.b);
    anyBody(b.b);
    ContactManifold m{a.c, b.c}; // boxes are still empty: nothing
    m.minPen_ = vc_num(0.f, 1.f);
    vc_assume(m.minPen_ >= 0.f);
    if (!first)
    {
        m.nContacts_ = 2;
        m.referenceIndex_ = vc_int(0, 1);
        m.contactNormal_ = unit();
    }
    Vec2 lo[2], hi[2];
    for (int i = 0; i < 2; ++i)
    {
        lo[i] = anyV();
        hi[i] = lo[i] + Vec2{positive(0.1f, 8.f), positive(0.1f, 8.f)};
        (i ? b : a).c.boundingBox_ = BoundingBox{lo[i], hi[i]};
        edgeOf[i] = i + 1;
    }
    bool overlap = (lo[0][0] <= hi[1][0]) & (lo[1][0] <= hi[0][0]) & (lo[0][1] <= hi[1][1]) & (lo[1][1] <= hi[0][1]);
    theMtv = anyV();
    contactsFound = n;
    for (int i = 0; i < 2; ++i)
        for (int k = 0; k < 2; ++k) worldContacts[i][k] = anyV();
    asked = computed = false;
    if (!vc_proof()) return; // the parts are replaced by their contracts
    m.update();
    vc_assert(asked == overlap, "shapes whose boxes are apart are not examined further");
    vc_assert(computed == (overlap & (normSquared(theMtv) >= m.minPen_ * m.minPen_)), "penetrations below the minimum are no contact");
    vc_assert(m.nContacts_ == (computed ? n : 0), "contacts exactly for shapes that penetrate");
    if (!computed) return;
    Edge e[2] = {a.edge(1), b.edge(2)};
    float along[2] = {dot(e[0].normalizedNormal(), theMtv), dot(e[1].normalizedNormal(), -theMtv)};
    Uint32 ref = m.referenceIndex_;
    vc_les(along[1 - ref], along[ref], 0, "the reference edge is the one that faces the penetration");
    const Body& R = ref ? b.b : a.b;
    Vec2 N = R.toWorldSpace().rotation() * m.contactNormal_, N0 = e[ref].normalizedNormal();
    vc_eqs_at2(N[0], N0[0], N[1], N0[1], 100, "the normal is the outward normal of the reference edge");
    vc_eqs(normSquared(m.contactNormal_), 1.f, 10, "the stored normal is a unit vector");
    for (int i = 0; i < 2; ++i)
        for (Uint32 k = 0; k < n; ++k)
        {
            Vec2 q = (i ? b.b : a.b).toWorldSpace() * m.contacts_[i][k];
            vc_eqs_at2(q[0], worldContacts[i][k][0], q[1], worldContacts[i][k][1], 100, "the contacts are stored in the frames of their bodies");
        }
}
VC_CONTRACT(C22_update_first) { update<2>(true); }
VC_CONTRACT(C22_update_again) { update<2>(false); }
VC_CONTRACT(C22_update_one_contact) { update<1>(true); }
VC_CONTRACT(C22_update_no_contact) { update<0>(true); }

// ---- all of it, executed on random convex shapes against the separating axes
static float depth(const Collider& A, const Collider& B, Vec2& axis, float& second)
{
    float best = 1e9f;
    second = 1e9f;
    for (int s = 0; s < 2; ++s)
    {
        const Collider &P = s ? B : A, &Q = s ? A : B;
        for (auto e : edgesOf(P))
        {
            Vec2 n = e.normalizedNormal();
            float m = 1e9f;
            for (Vec2 w : Q) m = std::min(m, dot(w - e.from(), n));
            if (-m < best) second = best, best = -m, axis = s ? -n : n;
            else if (-m < second) second = -m;
        }
    }
    return best;
}
static std::vector<Vec2> convexPolygon()
{
    int n = vc_int(3, 8);
    float phase = ang(), r = vc_num(0.5f, 3.f), flat = vc_num(0.3f, 1.f);
    Vec2 c{vc_num(-1.f, 1.f), vc_num(-1.f, 1.f)};
    std::vector<Vec2> v;
    for (int i = 0; i < n; ++i)
    {
        float a = (i + vc_num(0.1f, 0.9f)) * 6.2831853f / n + phase;
        v.push_back(c + Vec2{r * std::cos(a), flat * r * std::sin(a)});
    }
    return v;
}
VC_BOUNDED(C22_random_convex_pairs, cases=3)
{
    auto pa = convexPolygon(), pb = convexPolygon();
    ColliderDescriptor da{Polygon{pa.begin(), pa.end()}}, db{Polygon{pb.begin(), pb.end()}};
    Body A{BodyDescriptor{}}, B{BodyDescriptor{}};
    anyBody(A);
    anyBody(B);
    Collider a{da, &A, Collider::Alloc{}}, b{db, &B, Collider::Alloc{}};
    A.position_ = Position{Vec2{vc_num(-2.f, 2.f), vc_num(-2.f, 2.f)}, ang(), da.polygon.properties().centroid};
    B.position_ = Position{Vec2{vc_num(-2.f, 2.f), vc_num(-2.f, 2.f)}, ang(), db.polygon.properties().centroid};
    a.update(A.toWorldSpace());
    b.update(B.toWorldSpace());
    Vec2 axis;
    float next, d = depth(a, b, axis, next);
    vc_assume(std::abs(d) > 0.1f);
    ContactManifold m{a, b};
    vc_assert((m.nContacts() > 0) == (d > 0.f), "a manifold has contacts exactly when the shapes overlap");
    if (d < 0.f) return;
    vc_assert(m.nContacts() <= 2, "at most two contacts");
    auto f = m.frameManifold(ContactManifold::Transforms{A.toWorldSpace(), B.toWorldSpace()});
    vc_assert(std::abs(normSquared(f.normal) - 1.f) < 1e-3f, "the normal is a unit vector");
    if (next > d + 0.02f) vc_assert(dot(f.normal, axis) < -0.99f, "the normal is the axis of least penetration, out of the second body");
    const Collider &R = m.referenceIndex() ? b : a, &I = m.referenceIndex() ? a : b;
    Vec2 out = m.referenceIndex() ? f.normal : -f.normal;
    for (Uint32 k = 0; k < m.nContacts(); ++k)
    {
        Vec2 q = f.contacts[m.referenceIndex()][k], p = f.contacts[m.incidentIndex()][k];
        float onR = 1e9f, onI = 1e9f;
        for (auto e : edgesOf(R))
            if (dot(e.normalizedNormal(), out) > 0.999f) onR = std::min(onR, e.distanceSquaredToPoint(q));
        for (auto e : edgesOf(I)) onI = std::min(onI, e.distanceSquaredToPoint(p));
        vc_assert(onR < 1e-3f, "the reference point lies on the edge the normal belongs to");
        vc_assert(onI < 1e-3f, "the incident point lies on the boundary of its shape");
        vc_assert(dot(p - q, out) < 1e-2f, "the incident point penetrates");
    }
}
