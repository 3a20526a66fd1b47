#include "vc.h"
#include "phys.h"
// vc:sources src/Simu/physics/Body.cpp src/Simu/physics/World.cpp src/Simu/physics/BoundingBox.cpp src/Simu/math/Geometry.cpp
// vc:replace C21_(velocity_two|position_two)\w* "^simu::LcpSolver<float>::LcpSolver\(" with stub_lcp
// vc:replace C21_(velocity_two|position_two)\w* "simu::LcpSolver<float>::solve<float>\(" with stub_lcp_solve
// vc:replace C21_(velocity_two|position_two)\w* "simu::LcpSolver<float>::original\(" with stub_lcp_original
// vc:assumes C21_(velocity_two|position_two)\w* the two-variable complementarity solver is used through its contract (its precondition, a positive definite matrix, is an obligation here), which is property C08
// vc:replace C21_manifold_change_\w+ "^simu::ContactManifold::update\(" with stub_update
// vc:replace C21_manifold_change_\w+ "simu::furthestVertexInDirection<" with stub_furthest
// vc:assumes C21_manifold_change_\w+ furthestVertexInDirection may return any vertex (its contract is property C12)
// vc:replace C21_position\w* "^simu::ContactManifold::frameManifold\(simu::Proxies const&\)" with stub_frame
// vc:assumes C21_position\w* frameManifold gives some contact points, a unit normal and the tangent perpendicular to it (its contract is property C22)
// vc:assumes C21_manifold_change_\w+ ContactManifold::update may leave any manifold (0, 1 or 2 contacts)
// vc:replace C21_(velocity|friction|warm|position)\w* "^simu::ContactConstraint::computeJacobians\(" with stub_jacobians
// vc:assumes C21_(velocity|friction|warm|position)\w* computeJacobians is used through its contract, which is C21_jacobians (rows +-normal, +-tangent with any lever arms)
using namespace simu;

// the lever arms: a function of the frame and positions, which do not change between the calls
static bool leversChosen = false;
static float levers[2][4];
VC_STUB void stub_jacobians(ContactConstraint* c, const Proxies*, bool friction)
{
    if (!leversChosen)
        for (int k = 0; k < 2; ++k)
            for (int i = 0; i < 4; ++i) levers[k][i] = pos();
    leversChosen = true;
    c->Jn = ContactConstraint::Jacobian{};
    c->Jf = ContactConstraint::JacobianRows{};
    for (Uint32 k = 0; k < c->frame_.nContacts; ++k)
        for (int i = 0; i < 6; ++i)
        {
            bool lever = i % 3 == 2;
            float s = i < 3 ? 1.f : -1.f;
            c->Jn(k, i) = lever ? levers[k][i / 3] : s * c->frame_.normal[i % 3];
            if (friction) c->Jf[k](0, i) = lever ? levers[k][2 + i / 3] : s * c->frame_.tangent[i % 3];
        }
}
VC_STUB void stub_lcp(LcpSolver<float>* s, const Mat2* A)
{
    vc_assert((*A)(0, 0) > 0.f, "the contact matrix is positive definite (diagonal)");
    vc_assert((*A)(0, 0) * (*A)(1, 1) - (*A)(0, 1) * (*A)(1, 0) > 0.f, "the contact matrix is positive definite (determinant)");
    s->solver.A_ = *A;
    s->solver.isValid_ = true;
}
VC_STUB Vec2 stub_lcp_solve(const LcpSolver<float>* s, const Vec2* b)
{
    Vec2 x;
    x[0] = vc_num(0.f, 8.f);
    x[1] = vc_num(0.f, 8.f);
    const Mat2& A = s->solver.A_;
    float w0 = A(0, 0) * x[0] + A(0, 1) * x[1] - (*b)[0], w1 = A(1, 0) * x[0] + A(1, 1) * x[1] - (*b)[1];
    vc_assume(x[0] >= 0.f);
    vc_assume(x[1] >= 0.f);
    vc_assume(w0 >= 0.f);
    vc_assume(w1 >= 0.f);
    vc_assume(x[0] * w0 == 0.f);
    vc_assume(x[1] * w1 == 0.f);
    return x;
}
VC_STUB Mat2 stub_lcp_original(const LcpSolver<float>* s) { return s->solver.A_; }
VC_STUB Vec2 stub_furthest(const Collider*, const Vec2*) { return anyV(); }
static int contactsAfter = -1; // -1: any number
VC_STUB void stub_update(ContactManifold* m)
{
    m->nContacts_ = contactsAfter < 0 ? vc_int(0, 2) : contactsAfter;
    m->referenceIndex_ = vc_int(0, 1);
    m->contactNormal_ = anyV();
    for (int b = 0; b < 2; ++b)
        for (int c = 0; c < 2; ++c) m->contacts_[b][c] = anyV();
}

static ColliderDescriptor triangle()
{
    ColliderDescriptor d{Polygon{Vec2{0.f, 0.f}, Vec2{1.f, 0.f}, Vec2{0.f, 1.f}}};
    return d;
}
static Vec2 unit()
{
    if (vc_proof())
    {
        float x = vc_num(-1.f, 1.f), y = vc_num(-1.f, 1.f);
        vc_assume(x * x + y * y == 1.f);
        return Vec2{x, y};
    }
    float a = vc_num(-4.f, 4.f);
    return Vec2{std::cos(a), std::sin(a)};
}
// two bodies, a contact between them with n contact points in any frame
struct Contact
{
    Two w;
    Collider a, b;
    ContactConstraint c;
    Contact(Uint32 n, int structural)
        : a{triangle(), &w.A, Collider::Alloc{}}, b{triangle(), &w.B, Collider::Alloc{}}, c{a, b} // not overlapping yet
    {
        if (structural == 1) w.m.m0 = w.m.I0 = 0.f;
        if (structural == 2) w.m.m1 = w.m.I1 = 0.f;
        c.manifold_.nContacts_ = n;
        c.frame_.nContacts = n;
        c.frame_.normal = unit();
        c.frame_.tangent = perp(c.frame_.normal);
        for (int i = 0; i < 2; ++i)
            for (int k = 0; k < 2; ++k) c.frame_.contacts[i][k] = anyV();
        c.frictionCoeff_ = vc_num(0.f, 1.f);
        c.restitutionCoeff_ = vc_num(0.f, 1.f);
        vc_assume(c.frictionCoeff_ >= 0.f);
    }
    Proxies p() { return w.proxies(); }
    void mass(float* m) const { m[0] = m[1] = w.m.m0; m[2] = w.m.I0; m[3] = m[4] = w.m.m1; m[5] = w.m.I1; }
    Vec2 pointVelocity(int body, int k) const
    {
        Vec2 r = c.frame_.contacts[body][k] - w.p[body].centroid();
        return w.v[body].linear() + Vec2{-w.v[body].angular() * r[1], w.v[body].angular() * r[0]};
    }
    // relative velocity of the incident point with respect to the reference point
    Vec2 relative(int k) const { return pointVelocity(0, k) - pointVelocity(1, k); }
};
// accumulated impulses that earlier iterations may have left
static void anyAccumulated(ContactConstraint& c, Uint32 n)
{
    for (Uint32 k = 0; k < n; ++k)
    {
        c.normalLambda_[k] = vc_num(0.f, 4.f);
        vc_assume(c.normalLambda_[k] >= 0.f);
        c.tangentLambda_[k] = vc_num(-2.f, 2.f);
    }
}

template <Uint32 n> static void jacobians()
{
    Contact t{n, 0};
    Proxies p = t.p();
    t.c.computeJacobians(p, true);
    auto v = p.velocity();
    for (Uint32 k = 0; k < n; ++k)
    {
        float jn = 0.f, jf = 0.f;
        for (int i = 0; i < 6; ++i) jn += t.c.Jn(k, i) * v[i], jf += t.c.Jf[k](0, i) * v[i];
        vc_eqs(jn, dot(t.c.frame_.normal, t.relative(k)), 10000, "Jn v is the relative velocity of the contact points along the normal");
        for (int i = 0; i < 6; ++i)
            if (i % 3 < 2)
            {
                vc_assert(t.c.Jn(k, i) == (i < 3 ? t.c.frame_.normal[i % 3] : -t.c.frame_.normal[i % 3]), "Jn acts along the normal, oppositely on the two bodies");
                vc_assert(t.c.Jf[k](0, i) == (i < 3 ? t.c.frame_.tangent[i % 3] : -t.c.frame_.tangent[i % 3]), "Jf acts along the tangent, oppositely on the two bodies");
            }
        vc_eqs(jf, dot(t.c.frame_.tangent, t.relative(k)), 10000, "Jf v is the relative velocity of the contact points along the tangent");
    }
}
VC_CONTRACT(C21_jacobians_1) { jacobians<1>(); }
VC_CONTRACT(C21_jacobians_2) { jacobians<2>(); }

// restitution: a bounce only for fast approach, and only outwards
template <Uint32 n> static void bounce()
{
    Contact t{n, 0};
    Proxies p = t.p();
    vc_assume(t.c.restitutionCoeff_ >= 0.f);
    t.c.computeJacobians(p, true);
    t.c.computeBounce(p);
    for (Uint32 k = 0; k < n; ++k)
    {
        float a = dot(t.c.frame_.normal, t.relative(k));
        if (!vc_proof() && std::abs(a + 1.f) < 0.01f) continue;
        vc_eqs(t.c.bounce_[k], a > -1.f ? 0.f : t.c.restitutionCoeff_ * a, 1000, "the bounce is the approach speed times the restitution, none for slow approach");
        vc_les(t.c.bounce_[k], 0.f, 10, "a bounce never pulls");
    }
}
VC_CONTRACT(C21_bounce_1) { bounce<1>(); }
VC_CONTRACT(C21_bounce_2) { bounce<2>(); }

// one velocity iteration
template <Uint32 n> static void velocity(int structural)
{
    Contact t{n, structural};
    Proxies p = t.p();
    t.c.computeJacobians(p, true);
    if constexpr (n == 2)
    {
        float a = t.w.m.m0 + t.w.m.m1, p0 = t.c.Jn(0, 2), p1 = t.c.Jn(1, 2), q0 = t.c.Jn(0, 5), q1 = t.c.Jn(1, 5);
        float d = a * t.w.m.I0 * (p0 - p1) * (p0 - p1) + a * t.w.m.I1 * (q0 - q1) * (q0 - q1) + t.w.m.I0 * t.w.m.I1 * (p0 * q1 - p1 * q0) * (p0 * q1 - p1 * q0);
        vc_assume(vc_proof() ? d > 0.f : d > 0.02f * (a + t.w.m.I0 * p0 * p0 + t.w.m.I1 * q0 * q0) * (a + t.w.m.I0 * p1 * p1 + t.w.m.I1 * q1 * q1)); // two distinct contact points (d is the determinant of the contact matrix)
    }
    t.c.initSolve(p);
    anyAccumulated(t.c, n);
    float e[2] = {t.c.bounce_[0], t.c.bounce_[1]};
    Vec2 N0 = t.c.normalLambda_, T0 = t.c.tangentLambda_;
    float m[6], u0[6], u1[6];
    t.mass(m);
    for (int i = 0; i < 6; ++i) u0[i] = p.velocity()[i];
    t.c.solveVelocities(p, 0.1f);
    for (int i = 0; i < 6; ++i) u1[i] = p.velocity()[i];
    Vec2 N1 = t.c.normalLambda_, T1 = t.c.tangentLambda_;
    for (Uint32 k = 0; k < n; ++k)
    {
        vc_assert(N1[k] >= 0.f, "a contact only pushes");
        float bound = t.c.frictionCoeff_ * N0[k];
        vc_les(T1[k], bound, 0, "friction stays within the cone");
        vc_les(-bound, T1[k], 0, "friction stays within the cone");
        float s = 0.f;
        for (int i = 0; i < 6; ++i) s += t.c.Jn(k, i) * u1[i]; // = normal . relative velocity of the contact points (C21_jacobians)
        vc_les(0.f, s + e[k], 40000, "the contact points do not keep approaching");
        vc_eqs(N1[k] * (s + e[k]), 0.f, 40000 * (1 + N1[k]), "no more push than needed");
    }
    for (int i = 0; i < 6; ++i)
    {
        float d = 0.f;
        for (Uint32 k = 0; k < n; ++k) d += m[i] * (t.c.Jn(k, i) * (N1[k] - N0[k]) + t.c.Jf[k](0, i) * (T1[k] - T0[k]));
        vc_eqs(u1[i] - u0[i], d, 4000, "the bodies receive exactly the accumulated impulses");
    }
    if (structural)
        for (int i = 0; i < 3; ++i) vc_assert(u1[i + 3 * (structural - 1)] == u0[i + 3 * (structural - 1)], "a structural body keeps its velocity");
}
VC_CONTRACT(C21_velocity_one) { velocity<1>(0); }
VC_CONTRACT(C21_velocity_one_first_structural) { velocity<1>(1); }
VC_CONTRACT(C21_velocity_one_second_structural) { velocity<1>(2); }
VC_CONTRACT(C21_velocity_two) { velocity<2>(0); }
VC_CONTRACT(C21_velocity_two_first_structural) { velocity<2>(1); }
VC_CONTRACT(C21_velocity_two_second_structural) { velocity<2>(2); }

// friction opposes sliding: an unclamped friction impulse stops the sliding at its contact (one contact)
VC_CONTRACT(C21_friction_one)
{
    Contact t{1, 0};
    Proxies p = t.p();
    t.c.initSolve(p);
    anyAccumulated(t.c, 1);
    // no normal motion to correct: the normal solve has nothing to do
    float T0 = t.c.tangentLambda_[0], N0 = t.c.normalLambda_[0], bound = t.c.frictionCoeff_ * N0, K = 0.f, s0 = 0.f, m[6];
    t.mass(m);
    for (int i = 0; i < 6; ++i) K += t.c.Jf[0](0, i) * m[i] * t.c.Jf[0](0, i), s0 += t.c.Jf[0](0, i) * p.velocity()[i];
    t.c.solveVelocities(p, 0.1f);
    float T1 = t.c.tangentLambda_[0], s = s0 + K * (T1 - T0); // sliding velocity right after the friction impulse
    if (!vc_proof() && std::abs(std::abs(T1) - bound) < 0.01f) return;
    vc_assert(T1 == bound || T1 == -bound || (T1 < bound && T1 > -bound), "within the cone");
    if (T1 < bound && T1 > -bound) vc_eqs(s, 0.f, 10000, "inside the cone friction stops the sliding");
    if (T1 == bound && bound > 0.f) vc_les(s, 0.f, 10000, "at the bound friction does not reverse the sliding");
    if (T1 == -bound && bound > 0.f) vc_les(0.f, s, 10000, "at the bound friction does not reverse the sliding");
}

// starting a step keeps what the last one accumulated, and warm starting applies it once
template <Uint32 n> static void warm()
{
    Contact t{n, 0};
    Proxies p = t.p();
    if (n == 2) t.c.manifold_.nContacts_ = 2;
    anyAccumulated(t.c, n);
    for (Uint32 k = n; k < 2; ++k) t.c.normalLambda_[k] = t.c.tangentLambda_[k] = 0.f;
    Vec2 N0 = t.c.normalLambda_, T0 = t.c.tangentLambda_;
    t.c.computeJacobians(p, true);
    // initSolve apart from the solver's matrix
    t.c.manifold_.nContacts_ = 0;
    t.c.initSolve(p);
    t.c.manifold_.nContacts_ = n;
    vc_assert(all(t.c.normalLambda_ == Vec2{}) && all(t.c.tangentLambda_ == Vec2{}), "a step starts with no impulse");
    float m[6], u0[6], u1[6];
    t.mass(m);
    for (int i = 0; i < 6; ++i) u0[i] = p.velocity()[i];
    t.c.warmstart(p, 0.1f);
    for (int i = 0; i < 6; ++i) u1[i] = p.velocity()[i];
    for (Uint32 k = 0; k < 2; ++k)
    {
        vc_assert(t.c.normalLambda_[k] == N0[k] && t.c.tangentLambda_[k] == T0[k], "warm starting restores the last step's impulses");
    }
    for (int i = 0; i < 6; ++i)
    {
        float d = 0.f;
        for (Uint32 k = 0; k < n; ++k) d += m[i] * (t.c.Jn(k, i) * N0[k] + t.c.Jf[k](0, i) * T0[k]);
        vc_eqs(u1[i] - u0[i], d, 4000, "warm starting applies exactly the last step's impulses");
    }
}
VC_CONTRACT(C21_warm_1) { warm<1>(); }
VC_CONTRACT(C21_warm_2) { warm<2>(); }

// some frame, the same as long as nothing moves
static bool frameChosen = false;
static ContactManifold::FrameManifold someFrame;
VC_STUB ContactManifold::FrameManifold stub_frame(const ContactManifold* m, const Proxies*)
{
    if (!frameChosen)
    {
        someFrame.nContacts = m->nContacts_;
        someFrame.normal = unit();
        someFrame.tangent = perp(someFrame.normal);
        for (int b = 0; b < 2; ++b)
            for (int k = 0; k < 2; ++k) someFrame.contacts[b][k] = anyV();
    }
    frameChosen = true;
    return someFrame;
}

// a new manifold never makes the accumulated normal impulses negative, nor adds to them
template <Uint32 n> static void manifoldChange(int newContacts = -1)
{
    contactsAfter = -1;
    Contact t{vc_proof() ? n : 0u, 0};
    ContactConstraint& c = t.c;
    for (int b = 0; b < 2; ++b)
        for (int k = 0; k < 2; ++k) c.manifold_.contacts_[b][k] = anyV();
    c.manifold_.contactNormal_ = anyV();
    c.manifold_.referenceIndex_ = vc_int(0, 1);
    Uint32 before = c.manifold_.nContacts_;
    c.normalLambda_ = Vec2{};
    anyAccumulated(c, before);
    Vec2 N0 = c.normalLambda_;
    contactsAfter = newContacts;
    c.preStep();
    Uint32 after = c.manifold_.nContacts_;
    vc_assert(c.normalLambda_[0] >= 0.f && c.normalLambda_[1] >= 0.f, "accumulated normal impulses stay non-negative");
    vc_assert(c.frame_.nContacts == after, "the frame follows the manifold");
    if (after != 0)
    {
        if (before == 0) vc_assert(c.normalLambda_[0] == 0.f && c.normalLambda_[1] == 0.f, "a new contact starts with no impulse");
        else vc_eqs(c.normalLambda_[0] + c.normalLambda_[1], N0[0] + N0[1], 10, "the total normal impulse is carried over");
        if (after == 1) vc_assert(c.normalLambda_[1] == 0.f, "a missing contact carries no impulse");
    }
}
VC_CONTRACT(C21_manifold_change_0) { manifoldChange<0>(); }
VC_CONTRACT(C21_manifold_change_1) { manifoldChange<1>(); }
// 2 contacts before, 0, 1 or 2 after
VC_CONTRACT(C21_manifold_change_2_0) { manifoldChange<2>(0); }
VC_CONTRACT(C21_manifold_change_2_1) { manifoldChange<2>(1); }
VC_CONTRACT(C21_manifold_change_2_2, cost=5) { manifoldChange<2>(2); }

// position correction only pushes apart
template <Uint32 n> static void position(int structural)
{
    Contact t{n, structural};
    ContactConstraint& c = t.c;
    Proxies p = t.p();
    c.manifold_.contactNormal_ = unit();
    c.manifold_.referenceIndex_ = vc_int(0, 1);
    c.manifold_.minPen_ = positive(0.01f, 0.2f);
    for (Uint32 b = 0; b < 2; ++b)
        for (Uint32 k = 0; k < n; ++k) c.manifold_.contacts_[b][k] = anyV();
    c.frame_ = c.manifold_.frameManifold(p);
    Vec2 N = c.frame_.normal;
    c.computeJacobians(p, true);
    float g[2] = {}, J[2][6];
    for (Uint32 k = 0; k < n; ++k)
    {
        g[k] = dot(N, c.frame_.contacts[0][k] - c.frame_.contacts[1][k]); // negative: penetration
        for (int i = 0; i < 6; ++i) J[k][i] = c.Jn(k, i);
    }
    if constexpr (n == 2)
    {
        float a = t.w.m.m0 + t.w.m.m1, p0 = J[0][2], p1 = J[1][2], q0 = J[0][5], q1 = J[1][5];
        float d = a * t.w.m.I0 * (p0 - p1) * (p0 - p1) + a * t.w.m.I1 * (q0 - q1) * (q0 - q1) + t.w.m.I0 * t.w.m.I1 * (p0 * q1 - p1 * q0) * (p0 * q1 - p1 * q0);
        vc_assume(vc_proof() ? d > 0.f : d > 0.02f * (a + t.w.m.I0 * p0 * p0 + t.w.m.I1 * q0 * q0) * (a + t.w.m.I0 * p1 * p1 + t.w.m.I1 * q1 * q1));
    }
    Position q[2] = {t.w.p[0], t.w.p[1]};
    c.solvePositions(p);
    float d[6], m[6];
    t.mass(m);
    for (Uint32 b = 0; b < 2; ++b)
    {
        d[3 * b]     = t.w.p[b].position()[0] - q[b].position()[0];
        d[3 * b + 1] = t.w.p[b].position()[1] - q[b].position()[1];
        d[3 * b + 2] = t.w.p[b].orientation() - q[b].orientation();
    }
    for (Uint32 k = 0; k < n; ++k)
    {
        float jd = 0.f;
        for (int i = 0; i < 6; ++i) jd += J[k][i] * d[i];
        vc_les(0.f, jd, 4000, "the correction never moves a contact deeper");
        if (n == 1) vc_les(g[k] + jd, g[k] > 0.f ? g[k] : 0.f, 4000, "the correction never separates the bodies");
    }
    bool fine = true;
    for (Uint32 k = 0; k < n; ++k) fine &= g[k] > -3.f * c.manifold_.minPen_;
    if (fine && vc_proof())
        for (int i = 0; i < 6; ++i) vc_assert(d[i] == 0.f, "tolerated penetration is left alone");
    if (structural)
        for (int i = 0; i < 3; ++i) vc_assert(d[i + 3 * (structural - 1)] == 0.f, "a structural body does not move");
}
VC_CONTRACT(C21_position_one) { position<1>(0); }
VC_CONTRACT(C21_position_one_structural) { position<1>(2); }
VC_CONTRACT(C21_position_two) { position<2>(0); }
VC_CONTRACT(C21_position_two_structural) { position<2>(1); }
