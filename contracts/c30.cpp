#include "vc.h"
#include "phys.h"
#include "Simu/physics/Island.hpp"
// vc:sources src/Simu/physics/Body.cpp src/Simu/physics/World.cpp src/Simu/physics/BoundingBox.cpp src/Simu/math/Geometry.cpp
// vc:assumes C30_.* a constraint answers isActive the same way when asked again in the same step, and its solver only acts through the proxies it is given
// vc:replace C30_.*_contacts "^simu::ContactConstraint::isActive\(" with c30_isActive
// vc:replace C30_.*_contacts "^simu::ContactConstraint::initSolve\(" with c30_initSolve
// vc:replace C30_.*_contacts "^simu::ContactConstraint::warmstart\(" with c30_warmstart
// vc:replace C30_.*_contacts "^simu::ContactConstraint::solveVelocities\(" with c30_solveVelocities
// vc:replace C30_.*_contacts "^simu::ContactConstraint::solvePositions\(" with c30_solvePositions
using namespace simu;

// a constraint of which everything is arbitrary: active or not, any impulse and correction; it counts how it is used
struct Count
{
    int asked = 0, inits = 0, warms = 0, velocities = 0, positions = 0, disorder = 0;
};
struct Use
{
    bool active;
    float push, turn, shift;
    Count n;
    Position *p0 = nullptr, *p1 = nullptr;

    Use() : active{vc_bool()}, push{pos()}, turn{pos()}, shift{pos()} {}
    void init(const Proxies& p)
    {
        ++n.inits;
        n.disorder += n.warms + n.velocities + n.positions;
        p0 = p[0].position_;
        p1 = p[1].position_;
    }
    void warm() { ++n.warms; n.disorder += n.inits != 1 || n.velocities + n.positions != 0; }
    void velocity(Proxies& p)
    {
        ++n.velocities;
        n.disorder += n.inits != 1 || n.positions != 0;
        p.applyImpulse(Proxies::Impulse{push, 0.f, turn, -push, 0.f, turn});
    }
    void position(Proxies& p)
    {
        ++n.positions;
        n.disorder += n.inits != 1;
        p.applyPositionCorrection(Proxies::State{shift, 0.f, 0.f, 0.f, shift, 0.f});
    }
};
struct Probe : Constraint
{
    Use& u;
    Probe(const Bodies& b, Use& use) : Constraint{b, false}, u{use} {}
    bool isActive(const Proxies&) override { ++u.n.asked; return u.active; }
    void initSolve(const Proxies& p) override { u.init(p); }
    void warmstart(Proxies&, float) override { u.warm(); }
    void solveVelocities(Proxies& p, float) override { u.velocity(p); }
    void solvePositions(Proxies& p) override { u.position(p); }
};
// contacts are used through the same contract (proof only: their own functions are replaced)
static ContactConstraint* contacts[4];
static Use*               contactUse[4];
static Use& useOf(ContactConstraint* c)
{
    for (int i = 0; i < 3; ++i)
        if (contacts[i] == c) return *contactUse[i];
    return *contactUse[3];
}
VC_STUB bool c30_isActive(ContactConstraint* c, const Proxies*)
{
    Use& u = useOf(c);
    ++u.n.asked;
    return u.active;
}
VC_STUB void c30_initSolve(ContactConstraint* c, const Proxies* p) { useOf(c).init(*p); }
VC_STUB void c30_warmstart(ContactConstraint* c, Proxies*, float) { useOf(c).warm(); }
VC_STUB void c30_solveVelocities(ContactConstraint* c, Proxies* p, float) { useOf(c).velocity(*p); }
VC_STUB void c30_solvePositions(ContactConstraint* c, Proxies* p) { useOf(c).position(*p); }

constexpr int MAXB = 8, MAXC = 12;
struct Graph
{
    int nb, nc;
    Body* body[MAXB];
    int from[MAXC], to[MAXC];
    Use* use[MAXC];
    Constraint* constraint[MAXC];
    bool contact[MAXC];
    Vec2 v[MAXB], p[MAXB];
    float w[MAXB], a[MAXB];
    bool asleep[MAXB];

    Graph(int bodies, int constraints, const int (*ends)[2], bool contacts = false, bool sleepy = true, bool anyMotion = true) : nb{bodies}, nc{constraints}
    {
        for (int i = 0; i < nb; ++i)
        {
            BodyDescriptor d;
            d.position  = p[i] = anyV();
            d.dominance = vc_bool() ? 1.f : 0.f;
            Body* b = body[i] = new Body{d};
            b->colliders_.properties_.m = 1.f;
            b->colliders_.properties_.I = 1.f;
            // structural bodies at rest, or moving; free bodies at rest or moving
            bool still = vc_bool();
            v[i]       = still ? Vec2{} : anyV();
            if (!still && vc_proof() && !anyMotion) vc_assume(v[i][0] > 0.f); // fewer cases: at rest, or moving
            w[i] = still || !anyMotion ? 0.f : pos();
            b->velocity_ = Velocity{v[i], w[i]};
            b->isAsleep_ = asleep[i] = sleepy && vc_bool();
        }
        for (int c = 0; c < nc; ++c)
        {
            int i = from[c] = ends[c][0], j = to[c] = ends[c][1];
            vc_assume(!(body[i]->isStructural() && body[j]->isStructural()));
            use[c]     = new Use{};
            contact[c] = contacts;
            if (contacts)
            {
                ColliderDescriptor d{Polygon{Vec2{0, 0}, Vec2{1, 0}, Vec2{0, 1}}};
                Collider* x = new Collider{d, body[i], Collider::Alloc{}};
                Collider* y = new Collider{d, body[j], Collider::Alloc{}};
                ContactConstraint* made = new ContactConstraint{*x, *y};
                constraint[c] = ::contacts[c] = made;
                contactUse[c] = use[c];
                body[i]->contacts_.push_back(made);
                if (i != j) body[j]->contacts_.push_back(made);
            }
            else
            {
                constraint[c] = new Probe{i == j ? Bodies::singleBody(body[i]) : Bodies{{body[i], body[j]}}, *use[c]};
                body[i]->constraints_.push_back(constraint[c]);
                if (i != j) body[j]->constraints_.push_back(constraint[c]);
            }
        }
    }
    // at rest and structural in everything it takes part in
    bool apart(int i) const
    {
        bool rest = v[i][0] == 0.f && v[i][1] == 0.f && w[i] == 0.f;
        for (int c = 0; c < nc; ++c)
            if ((from[c] == i || to[c] == i) && (from[c] == to[c] || !body[i]->isStructural())) rest = false;
        return rest;
    }
    // the bodies of the island of `root`: reached over active constraints from bodies that are not apart
    void reach(int root, bool (&in)[MAXB]) const
    {
        for (bool& x : in) x = false;
        in[root] = true;
        for (int round = 0; round < nb; ++round)
            for (int c = 0; c < nc; ++c)
                if (use[c]->active)
                {
                    int i = from[c], j = to[c];
                    if (in[i] && !apart(i)) in[j] = true;
                    if (in[j] && !apart(j)) in[i] = true;
                }
    }
};

// one island
static void island(Graph& g, int root)
{
    bool in[MAXB];
    g.reach(root, in);
    Island s{PhysicsObject::PhysicsAlloc{}};
    s.init(g.body[root]);
    s.refreshProxies();
    int wrong = 0, foreign = 0, count = 0;
    for (Body* b : s.bodies())
    {
        ++count;
        bool known = false;
        for (int i = 0; i < g.nb; ++i) known = known || (in[i] && g.body[i] == b);
        foreign += !known;
    }
    int want = 0;
    bool awake = false;
    for (int i = 0; i < g.nb; ++i)
    {
        want += in[i];
        awake = awake || (in[i] && !g.asleep[i]);
        int times = 0;
        for (Body* b : s.bodies()) times += b == g.body[i];
        wrong += times != (in[i] ? 1 : 0);
        wrong += (g.body[i]->proxyIndex != Body::NO_INDEX) != in[i];
    }
    vc_assert((wrong == 0) & (foreign == 0) & (count == want), "an island holds each body reached over active constraints once, and no other; structural bodies do not lead further");
    vc_assert(s.isAwake() || !awake, "an island sleeps only when every body in it sleeps");
    int lost = 0, twice = 0, stray = 0, pointers = 0;
    for (int c = 0; c < g.nc; ++c)
    {
        int times = 0;
        for (Constraint* x : s.constraints()) times += x == g.constraint[c];
        for (ContactConstraint* x : s.contacts()) times += x == g.constraint[c];
        bool here = g.use[c]->active && ((in[g.from[c]] && !g.apart(g.from[c])) || (in[g.to[c]] && !g.apart(g.to[c])));
        lost += here && times == 0;
        twice += times > 1;
        stray += !here && times != 0;
        stray += g.constraint[c]->bodies().hasProxies() != here;
        if (here && times)
        {
            Proxies& p = g.constraint[c]->bodies().getProxies();
            pointers += p[0].position_ != &s.positions_[g.body[g.from[c]]->proxyIndex];
            pointers += p[1].position_ != &s.positions_[g.body[g.to[c]]->proxyIndex];
            pointers += p[0].velocity_ != &s.velocities_[g.body[g.from[c]]->proxyIndex];
            pointers += p[1].velocity_ != &s.velocities_[g.body[g.to[c]]->proxyIndex];
        }
    }
    vc_assert(lost == 0, "every active constraint of a free body in the island belongs to the island");
    vc_assert(twice == 0, "no constraint is in the island twice");
    vc_assert(stray == 0, "no inactive constraint and none from elsewhere is in the island");
    vc_assert(pointers == 0, "every constraint of the island acts on the island's copies of its own bodies");
    s.endSolve();
    s.clear();
    int left = 0;
    for (int i = 0; i < g.nb; ++i) left += g.body[i]->proxyIndex != Body::NO_INDEX;
    for (int c = 0; c < g.nc; ++c) left += g.constraint[c]->bodies().hasProxies();
    vc_assert((left == 0) & !s.isAwake() & !s.hasConstraints(), "nothing of an island is left when it is done");
}
// a whole step
static void solve(Graph& g, bool native = false)
{
    std::vector<Body*> all;
    for (int i = 0; i < g.nb; ++i) all.push_back(g.body[i]);
    World::Settings s;
    s.nVelocityIterations = native ? vc_int(0, 4) : 2;
    s.nPositionIterations = native ? vc_int(0, 3) : 1;
    s.enableWarmstarting  = vc_bool();
    float dt = positive(0.01f, 1.f);
    bool in[MAXB][MAXB];
    for (int i = 0; i < g.nb; ++i) g.reach(i, in[i]);
    Profiler profiler;
    solveIslands(makeView(all, DoubleDereference{}), PhysicsObject::PhysicsAlloc{}, s, dt, profiler);
    int unsolved = 0, disorder = 0, inactive = 0;
    float nv = float(s.nVelocityIterations), np = float(s.nPositionIterations);
    for (int c = 0; c < g.nc; ++c)
    {
        Count& n = g.use[c]->n;
        disorder += n.disorder;
        if (g.use[c]->active)
            unsolved += n.inits != 1 || n.warms != (s.enableWarmstarting ? 1 : 0) || n.velocities != int(s.nVelocityIterations) || n.positions != int(s.nPositionIterations);
        else
            inactive += n.inits + n.warms + n.velocities + n.positions;
    }
    vc_assert(unsolved == 0, "every active constraint is solved in exactly one island, once per iteration");
    vc_assert(inactive == 0, "an inactive constraint is not solved");
    vc_assert(disorder == 0, "constraints are initialised first and positions corrected last");
    int left = 0, dozing = 0;
    for (int i = 0; i < g.nb; ++i)
    {
        left += g.body[i]->proxyIndex != Body::NO_INDEX;
        bool awake = false;
        for (int j = 0; j < g.nb; ++j) awake = awake || (in[i][j] && !g.asleep[j]);
        // a structural body does not carry wakefulness between islands, it may be woken by any of its own
        dozing += awake && g.body[i]->isAsleep();
        Vec2 v = g.v[i];
        Vec2 x = g.p[i];
        float w = g.w[i];
        for (int c = 0; c < g.nc; ++c)
            if (g.use[c]->active)
            {
                if (g.from[c] == i && (g.from[c] == g.to[c] || !g.body[i]->isStructural()))
                {
                    v[0] += nv * g.use[c]->push;
                    w += nv * g.use[c]->turn;
                    x[0] += np * g.use[c]->shift;
                }
                if (g.to[c] == i && (g.from[c] == g.to[c] || !g.body[i]->isStructural()))
                {
                    v[0] -= nv * g.use[c]->push;
                    w += nv * g.use[c]->turn;
                    x[1] += np * g.use[c]->shift;
                }
            }
        for (int k = 0; k < 2; ++k)
        {
            vc_eqs(g.body[i]->velocity()[k], v[k], 200, "a body's velocity carries the impulse of each of its active constraints once per iteration");
            vc_eqs(g.body[i]->position()[k], x[k] + v[k] * dt, 400, "a body moves with its final velocity exactly once, then is corrected once per iteration by each of its constraints");
        }
        vc_eqs(g.body[i]->orientation(), w * dt, 400, "a body turns with its final velocity exactly once");
        vc_eqs(g.body[i]->angularVelocity(), w, 200, "a body's velocity carries the impulse of each of its active constraints once per iteration");
    }
    for (int c = 0; c < g.nc; ++c) left += g.constraint[c]->bodies().hasProxies();
    vc_assert(left == 0, "nothing of an island is left when it is done");
    vc_assert(dozing == 0, "no body sleeps while one of its island is awake");
}
// when a body keeps islands apart
VC_CONTRACT(C30_acts_structural)
{
    BodyDescriptor d;
    Body a{d}, b{d}, c{d};
    for (Body* x : {&a, &b, &c}) x->colliders_.properties_.m = x->colliders_.properties_.I = 1.f;
    Vec2 v = vc_bool() ? Vec2{} : anyV();
    float w = vc_bool() ? 0.f : pos();
    a.velocity_ = Velocity{v, w};
    float d0 = vc_bool() ? 0.f : positive(0.1f, 1.f), d1 = vc_bool() ? 0.f : positive(0.1f, 1.f);
    Use u0, u1;
    Probe p0{Bodies{{&a, &b}, Vec2{d0, 1.f}}, u0}, p1{Bodies{{&c, &a}, Vec2{1.f, d1}}, u1};
    int n = vc_int(0, 2);
    if (n > 0) a.constraints_.push_back(&p0);
    if (n > 1) a.constraints_.push_back(&p1);
    bool expected = (v[0] == 0.f) & (v[1] == 0.f) & (w == 0.f) & bool((n < 1) | (d0 == 0.f)) & bool((n < 2) | (d1 == 0.f));
    vc_assert(a.interactsAsStructural() == expected, "a body acts as structural exactly when it is at rest and structural in everything it takes part in");
}
static const int NONE[1][2] = {{0, 0}}, SELF[1][2] = {{0, 0}}, PAIR[2][2] = {{0, 1}, {1, 0}}, CHAIN[2][2] = {{0, 1}, {2, 1}}, RING[3][2] = {{0, 1}, {1, 2}, {2, 0}},
                 APART[2][2] = {{0, 1}, {3, 2}};
VC_CONTRACT(C30_island_alone) { Graph g{1, 0, NONE}; island(g, 0); }
VC_CONTRACT(C30_island_self) { Graph g{1, 1, SELF}; island(g, 0); }
VC_CONTRACT(C30_island_pair) { Graph g{2, 1, PAIR}; island(g, 0); }
VC_CONTRACT(C30_island_pair_twice) { Graph g{2, 2, PAIR}; island(g, 1); }
VC_CONTRACT(C30_island_contacts) { if (!vc_proof()) return; Graph g{2, 2, PAIR, true}; island(g, 1); }
VC_CONTRACT(C30_island_chain_end, cost=50, fork_limit=100000) { Graph g{3, 2, CHAIN}; island(g, 0); }
VC_CONTRACT(C30_island_chain_middle, cost=50, fork_limit=100000) { Graph g{3, 2, CHAIN, false, true, false}; island(g, 1); }
VC_CONTRACT(C30_island_ring, cost=90, fork_limit=100000) { Graph g{3, 3, RING, false, false, false}; island(g, 0); }
VC_CONTRACT(C30_step_alone) { Graph g{1, 0, NONE}; solve(g); }
VC_CONTRACT(C30_step_self) { Graph g{1, 1, SELF}; solve(g); }
VC_CONTRACT(C30_step_pair_sleeping, cost=90, fork_limit=100000) { Graph g{2, 1, PAIR, false, true, false}; solve(g); }
VC_CONTRACT(C30_step_pair, cost=20) { Graph g{2, 1, PAIR, false, false, false}; solve(g); }
VC_CONTRACT(C30_step_pair_twice, cost=60, fork_limit=100000) { Graph g{2, 2, PAIR, false, false, false}; solve(g); }
VC_CONTRACT(C30_step_contacts, cost=20) { if (!vc_proof()) return; Graph g{2, 1, PAIR, true, false, false}; solve(g); }
VC_CONTRACT(C30_step_chain, cost=99, fork_limit=100000) { Graph g{3, 2, CHAIN, false, false, false}; solve(g); }
VC_BOUNDED(C30_random_graphs)
{
    int nb = vc_int(1, MAXB), nc = vc_int(0, MAXC), ends[MAXC][2];
    for (int c = 0; c < nc; ++c)
        for (int& e : ends[c]) e = vc_int(0, nb - 1);
    Graph g{nb, nc, ends};
    if (vc_bool()) island(g, vc_int(0, nb - 1));
    else solve(g, true);
}
