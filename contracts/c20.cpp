#include "vc.h"
#include "phys.h"
// vc:sources src/Simu/physics/Body.cpp src/Simu/physics/World.cpp src/Simu/physics/BoundingBox.cpp src/Simu/math/Geometry.cpp
using namespace simu;

// inverse masses seen by a constraint: dominance times inverse mass, from the bodies or overridden by the constraint
VC_CONTRACT(C20_inverse_masses)
{
    Two w;
    w.A.dominance_ = vc_num(0.f, 4.f);
    w.B.dominance_ = vc_num(0.f, 4.f);
    bool over = vc_bool();
    std::optional<Bodies::Dominance> d;
    if (over)
    {
        float a = vc_num(0.f, 4.f), b = vc_num(0.f, 4.f);
        d = Bodies::Dominance{a, b};
    }
    Bodies bs{{&w.A, &w.B}, d};
    w.A.proxyIndex = 0;
    w.B.proxyIndex = 1;
    bs.startSolve(w.p, w.v);
    const InvMasses& m = bs.getProxies().invMasses();
    float d0 = over ? (*d)[0] : w.A.dominance_, d1 = over ? (*d)[1] : w.B.dominance_;
    vc_eqs(m.m0 * w.A.mass(), d0, 40, "first body: dominance over mass");
    vc_eqs(m.I0 * w.A.inertia(), d0, 40, "first body: dominance over inertia");
    vc_eqs(m.m1 * w.B.mass(), d1, 40, "second body: dominance over mass");
    vc_eqs(m.I1 * w.B.inertia(), d1, 40, "second body: dominance over inertia");
    vc_assert(bs.isBodyStructural(&w.A) == (d0 == 0.f) && bs.isBodyStructural(&w.B) == (d1 == 0.f), "structural exactly when the dominance is zero");
    auto v = bs.getProxies().invMassVec();
    vc_assert(v[0] == m.m0 && v[1] == m.m0 && v[2] == m.I0 && v[3] == m.m1 && v[4] == m.m1 && v[5] == m.I1, "inverse masses in order");
    bs.endSolve();
    vc_assert(!bs.hasProxies(), "no proxies are left after the solve");
}

// a body of zero dominance takes no impulse and no correction at all, exactly; the other one takes its own share
static void structural(int s, bool fpMode)
{
    Two w;
    if (s == 0) w.m.m0 = w.m.I0 = 0.f;
    else w.m.m1 = w.m.I1 = 0.f;
    auto p = w.proxies();
    Proxies::Impulse P;
    for (Uint32 i = 0; i < 6; ++i) P[i] = vc_num(-100.f, 100.f);
    Velocity v0 = w.v[s], o0 = w.v[1 - s];
    Position q0 = w.p[s];
    p.applyImpulse(P);
    vc_assert(w.v[s].linear()[0] == v0.linear()[0] && w.v[s].linear()[1] == v0.linear()[1] && w.v[s].angular() == v0.angular(), "an impulse does not change the structural body's velocity at all");
    p.applyPositionCorrection(P);
    vc_assert(w.p[s].position()[0] == q0.position()[0] && w.p[s].position()[1] == q0.position()[1], "a correction does not move the structural body at all");
    vc_assert(w.p[s].orientation() == q0.orientation(), "a correction does not turn the structural body at all");
    float m = s == 0 ? w.m.m1 : w.m.m0;
    if (!fpMode) vc_eqs(w.v[1 - s].linear()[0] - o0.linear()[0], m * P[s == 0 ? 3 : 0], 4000, "the other body takes its impulse");
}
VC_CONTRACT(C20_structural_first) { structural(0, false); }
VC_CONTRACT(C20_structural_second) { structural(1, false); }

// a whole velocity and position solve with a structural body, for any constraint function
template <Uint32 n> struct AnyFunction : EqualityConstraintFunctionBase<2, n>
{
    typedef EqualityConstraintFunctionBase<2, n> Base;
    typename Base::Value C, B;
    typename Base::Jacobian J;
    AnyFunction()
    {
        for (Uint32 i = 0; i < n; ++i)
        {
            C[i] = vc_num(-1.f, 1.f);
            B[i] = vc_num(-1.f, 1.f);
            for (Uint32 k = 0; k < 6; ++k) J(i, k) = vc_num(-2.f, 2.f);
        }
    }
    typename Base::Value eval(const Proxies&) const { return C; }
    typename Base::Value bias(const Proxies&) const { return B; }
    typename Base::Jacobian jacobian(const Proxies&) const { return J; }
};
static void solve(int st)
{
    Two w;
    AnyFunction<1> f;
    if (st == 0) w.m.m0 = w.m.I0 = 0.f;
    else w.m.m1 = w.m.I1 = 0.f;
    auto p = w.proxies();
    float m[6] = {w.m.m0, w.m.m0, w.m.I0, w.m.m1, w.m.m1, w.m.I1}, K = 0.f;
    for (Uint32 k = 0; k < 6; ++k) K += f.J(0, k) * m[k] * f.J(0, k);
    vc_assume(vc_proof() ? K > 0.f : K > 0.1f);
    EqualitySolver<AnyFunction<1>> s{w.bodies(), f};
    Velocity v0 = w.v[st];
    Position q0 = w.p[st];
    s.initSolve(p, f);
    s.warmstart(p, f, 1.f);
    s.solveVelocity(p, f, 1.f);
    vc_assert(w.v[st].linear()[0] == v0.linear()[0] && w.v[st].linear()[1] == v0.linear()[1] && w.v[st].angular() == v0.angular(), "the structural body keeps its velocity exactly");
    auto v1 = p.velocity();
    float jv = f.B[0];
    for (Uint32 k = 0; k < 6; ++k) jv += f.J(0, k) * v1[k];
    vc_eqs(jv, 0.f, 40000, "the other body absorbs the whole correction");
    s.solvePosition(p, f);
    vc_assert(w.p[st].position()[0] == q0.position()[0] && w.p[st].position()[1] == q0.position()[1] && w.p[st].orientation() == q0.orientation(), "the structural body keeps its position exactly");
}
VC_CONTRACT(C20_solve_first) { solve(0); }
VC_CONTRACT(C20_solve_second) { solve(1); }

// a constraint between two structural bodies is refused
VC_CONTRACT(C20_two_structural)
{
    Two w;
    bool a = vc_bool(), b = vc_bool(), same = vc_bool();
    if (a) w.A.dominance_ = 0.f;
    if (b) w.B.dominance_ = 0.f;
    bool thrown = vc_throws_any([&] { RotationConstraint c{Bodies{{&w.A, same ? &w.A : &w.B}}}; });
    vc_assert(thrown == (a && (b || same)), "refused exactly when no body can move");
}

// sharing: along any single direction each body's part is proportional to dominance times inverse mass
VC_CONTRACT(C20_sharing)
{
    Two w;
    w.A.dominance_ = vc_num(0.f, 4.f);
    w.B.dominance_ = vc_num(0.f, 4.f);
    vc_assume(w.A.dominance_ >= 0.f && w.B.dominance_ >= 0.f && (vc_proof() ? w.A.dominance_ + w.B.dominance_ > 0.f : w.A.dominance_ + w.B.dominance_ > 0.2f));
    w.A.proxyIndex = 0;
    w.B.proxyIndex = 1;
    RotationConstraint c{w.bodies()};
    c.bodies().startSolve(w.p, w.v);
    Proxies& p = c.bodies().getProxies();
    float w0 = w.v[0].angular(), w1 = w.v[1].angular();
    c.initSolve(p);
    c.solveVelocities(p, 1.f);
    float d0 = w.v[0].angular() - w0, d1 = w.v[1].angular() - w1;
    vc_eqs(d0 * w.A.inertia() * w.B.dominance_, -d1 * w.B.inertia() * w.A.dominance_, 4000, "each body's share is proportional to its dominance over its inertia");
    c.bodies().endSolve();
}
// the same in IEEE arithmetic: adding zero times any finite impulse changes nothing
VC_CONTRACT(C20_structural_binary32, fp)
{
    Position p[2] = {Position{Vec2{}, 0.f, Vec2{}}, Position{Vec2{}, 0.f, Vec2{}}};
    float a = vc_any(), b = vc_any(), c = vc_any();
    Velocity v[2] = {Velocity{Vec2{a, b}, c}, Velocity{Vec2{0.f, 0.f}, 0.f}};
    Proxies x{SolverProxy{&p[0], &v[0]}, SolverProxy{&p[1], &v[1]}, InvMasses{0.f, 0.f, 1.f, 1.f}};
    Proxies::Impulse P;
    for (Uint32 i = 0; i < 6; ++i) P[i] = vc_any();
    x.applyImpulse(P);
    vc_assert(v[0].linear()[0] == a && v[0].linear()[1] == b && v[0].angular() == c, "the structural body's velocity is bit for bit unaffected");
}
