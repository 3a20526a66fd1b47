#include "vc.h"
#include "phys.h"
// vc:sources src/Simu/physics/Body.cpp src/Simu/physics/World.cpp src/Simu/physics/BoundingBox.cpp src/Simu/math/Geometry.cpp
// vc:replace C29_.* "^simu::RTree<simu::Collider\*.*>::insert\(simu::RTree" with c29_insert
// vc:replace C29_.* "^simu::RTree<simu::Collider\*.*>::refit\(" with c29_refit
// vc:replace C29_.* "details::hash_val<simu::Collider\*, simu::Collider\*>\(simu" with c29_hash
// vc:replace C29_.* "_Prime_rehash_policy::_M_need_rehash\(" with c29_keepBuckets
// vc:replace C29_.* "^void simu::solveIslands<" with c29_islands
// vc:assumes C29_.* the spatial index puts a new entry at some valid place and keeps its entries (contract proved under C05)
// vc:assumes C29_.* std::unordered_map behaves the same whatever the hash values and the number of buckets (in the proof: one bucket)
// vc:assumes C29_.* solving the islands moves the bodies, hence the colliders' boxes, arbitrarily and touches no list of objects (C30)
// vc:replace C29_.* "std::max<std::chrono::duration<double" with c29_longest
// vc:assumes C29_.* the time measured by the profiler has no effect on the world (C32)
using namespace simu;

VC_STUB const void* c29_longest(const void* a, const void*) { return a; }
VC_STUB ColliderTree::iterator c29_insert(ColliderTree* t, ColliderTree::Node* n)
{
    t->addLeafTo(t->root_, n);
    return ColliderTree::iterator{n};
}
VC_STUB void c29_refit(ColliderTree*, ColliderTree::Node*) {}
VC_STUB std::size_t c29_hash(const void*, const void*) { return 0; }
VC_STUB std::pair<bool, std::size_t> c29_keepBuckets(const void*, std::size_t, std::size_t, std::size_t) { return {false, 0}; }

static Collider* everywhere[4];
static int nEverywhere;
static bool shuffle, flat; // flat: the boxes differ along one axis only
VC_STUB void c29_islands(const void*, const void*, World::Settings, float, void*)
{
    if (!shuffle) return;
    for (int i = 0; i < nEverywhere; ++i)
    {
        Vec2 lo = anyV(), hi = anyV();
        if (flat) lo[1] = 0.f, hi[1] = 1.f;
        vc_assume(bool((lo[0] <= hi[0]) & (lo[1] <= hi[1])));
        everywhere[i]->boundingBox_ = BoundingBox{lo, hi};
    }
}

// what happens to one object of the world: hooks called, released
static int released; // bodies, constraints and fields released so far
struct Tale
{
    bool wish = false;
    int left = 0, gone = 0, late = 0, pre = 0, post = 0;
    void leaves() { ++left; late += released != 0 || gone != 0; }
};
struct Man : Body
{
    Tale* t;
    Man(const BodyDescriptor& d, Tale* tale) : Body{d}, t{tale} {}
    ~Man() override { ++t->gone; ++released; }
    bool shouldDie() const override { return t->wish || Body::shouldDie(); }
    void onDestruction(World& w) override { t->leaves(); Body::onDestruction(w); }
    void preStep() override { ++t->pre; Body::preStep(); }
    void postStep() override { ++t->post; Body::postStep(); }
};
struct Tie : Constraint
{
    Tale* t;
    Tie(const Bodies& b, bool disables, Tale* tale) : Constraint{b, disables}, t{tale} {}
    ~Tie() override { ++t->gone; ++released; }
    bool shouldDie() const override { return t->wish || Constraint::shouldDie(); }
    void onDestruction(World& w) override { t->leaves(); Constraint::onDestruction(w); }
    void preStep() override { ++t->pre; Constraint::preStep(); }
    void postStep() override { ++t->post; Constraint::postStep(); }
    bool isActive(const Proxies&) override { return false; }
    void initSolve(const Proxies&) override {}
    void warmstart(Proxies&, float) override {}
    void solveVelocities(Proxies&, float) override {}
    void solvePositions(Proxies&) override {}
};
struct Wind : ForceField
{
    Tale* t;
    Wind(Tale* tale) : ForceField{global()}, t{tale} {}
    ~Wind() override { ++t->gone; ++released; }
    bool shouldDie() const override { return t->wish || ForceField::shouldDie(); }
    void onDestruction(World& w) override { t->leaves(); ForceField::onDestruction(w); }
    void preStep() override { ++t->pre; ForceField::preStep(); }
    void postStep() override { ++t->post; ForceField::postStep(); }
    void apply(Collider&, float) const override {}
};
// a contact that never finds contact points: it does not move the bodies
static Tale touchTale[16];
static ContactConstraint* touchOf[16];
static int nTouch;
struct Touch : ContactConstraint
{
    Tale* t;
    Touch(Collider& a, Collider& b, Tale* tale) : ContactConstraint{a, b}, t{tale} {}
    ~Touch() override { ++t->gone; }
    bool shouldDie() const override { return t->wish || ContactConstraint::shouldDie(); }
    void onDestruction(World& w) override { t->leaves(); ContactConstraint::onDestruction(w); }
    void preStep() override { ++t->pre; }
    void postStep() override { ++t->post; }
};
static UniquePtr<ContactConstraint> makeTouch(Collider& a, Collider& b, const World::ContactAlloc& alloc)
{
    auto made = makeUnique<Touch>(alloc, a, b, &touchTale[nTouch]);
    touchOf[nTouch] = made.get();
    ++nTouch;
    return made;
}
static ColliderDescriptor triangle() { return ColliderDescriptor{Polygon{Vec2{0.f, 0.f}, Vec2{2.f, 0.f}, Vec2{0.f, 2.f}}}; }
static BodyDescriptor at(Vec2 p)
{
    BodyDescriptor d;
    d.position = p;
    return d;
}
static Tie* tie(World& w, Man* a, Man* b, bool disables, Tale* t) { return w.makeConstraint<Tie>(Bodies{{a, b}}, disables, t); }
static bool overlapping(const Collider* a, const Collider* b)
{
    BoundingBox x = a->boundingBox(), y = b->boundingBox();
    bool in = true;
    for (int i = 0; i < 2; ++i) in = in & (x.min()[i] <= y.max()[i]) & (y.min()[i] <= x.max()[i]);
    return in;
}
template <class T>
static int timesIn(T& list, const void* x)
{
    int n = 0;
    for (auto& y : list) n += static_cast<const void*>(&*y) == x;
    return n;
}

// ---- what leaves the world, and how
struct Scene
{
    static constexpr int most = 3;
    World w{makeTouch};
    int nb;
    Man* man[most];
    Tie* rope[most];
    Wind* wind = nullptr;
    Tale mans[most], ropes[most], winds;
    bool manDies[most] = {}, ropeDies[most] = {}, touchDies[most] = {}, windDies = false;
    int made; // contact i joins bodies i and i + 1 in some order

    explicit Scene(int n) : nb{n}
    {
        nTouch = nEverywhere = released = 0;
        shuffle = false;
        for (Tale& t : touchTale) t = Tale{};
        for (int i = 0; i < nb; ++i)
        {
            man[i] = w.makeBody<Man>(at(Vec2{1.5f * float(i), 0.f}), &mans[i]);
            man[i]->addCollider(triangle());
        }
        for (int i = 0; i + 1 < nb; ++i) rope[i] = tie(w, man[i], man[i + 1], false, &ropes[i]);
        wind = w.makeForceField<Wind>(&winds);
        w.step(0.0001f);
        made = nTouch;
        vc_assert(made == nb - 1, "every pair of touching bodies gets one contact");
        whole();
    }
    // contact between bodies i and i + 1
    int touch(int i)
    {
        for (int k = 0; k < made; ++k)
        {
            const Bodies& b = touchOf[k]->bodies();
            if ((b[0] == man[i] && b[1] == man[i + 1]) || (b[1] == man[i] && b[0] == man[i + 1])) return k;
        }
        return 15;
    }
    void whole()
    {
        for (int i = 0; i + 1 < nb; ++i)
            for (int j : {i, i + 1})
            {
                vc_assert(timesIn(man[j]->constraints_, rope[i]) == 1, "a new constraint is known to both bodies");
                vc_assert(timesIn(man[j]->contacts_, touchOf[touch(i)]) == 1, "a new contact is known to both bodies");
            }
    }
    template <class T>
    static void end(T* x, Tale& t, bool kill)
    {
        if (kill) x->kill();
        else t.wish = true;
    }
    // some objects die
    void fate(bool kill)
    {
        for (int i = 0; i < nb; ++i)
            if ((manDies[i] = vc_bool())) end(man[i], mans[i], kill);
        for (int i = 0; i + 1 < nb; ++i)
        {
            if ((ropeDies[i] = vc_bool())) end(rope[i], ropes[i], kill);
            if (int k = touch(i); (touchDies[i] = vc_bool())) end(touchOf[k], touchTale[k], kill);
        }
        if ((windDies = vc_bool())) end(wind, winds, kill);
        for (int i = 0; i + 1 < nb; ++i)
        {
            ropeDies[i]  = ropeDies[i] || manDies[i] || manDies[i + 1];
            touchDies[i] = touchDies[i] || manDies[i] || manDies[i + 1];
        }
    }
    void forget()
    {
        for (int i = 0; i < most; ++i) mans[i].pre = mans[i].post = ropes[i].pre = ropes[i].post = 0;
        for (Tale& t : touchTale) t.pre = t.post = 0;
        winds.pre = winds.post = 0;
    }
    static void told(const Tale& t, bool dies)
    {
        vc_assert(t.left == int(dies), "the removal hook is called once for what leaves and never for what stays");
        vc_assert(t.gone == int(dies), "what leaves is released once and what stays is not");
        vc_assert(t.late == 0, "no removal hook is called after an object was released");
        vc_assert(t.pre == int(!dies), "only what stays takes part in the step");
        vc_assert(t.post == int(!dies), "only what stays takes part in the step");
    }
    void after()
    {
        int men = 0, ties = 0, touches = 0, n = 0;
        for (int i = 0; i < nb; ++i)
        {
            told(mans[i], manDies[i]);
            men += !manDies[i];
        }
        told(winds, windDies);
        for (int i = 0; i + 1 < nb; ++i)
        {
            told(ropes[i], ropeDies[i]);
            told(touchTale[touchIndex[i]], touchDies[i]);
            ties += !ropeDies[i];
            touches += !touchDies[i];
        }
        for (Body& b : w.bodies()) { ++n; vc_assert(!b.isDead(), "no dead object stays in the world"); }
        vc_assert(n == men, "the world lists exactly the bodies that stay");
        n = 0;
        for (Constraint& c : w.constraints()) { ++n; vc_assert(!c.isDead(), "no dead object stays in the world"); }
        vc_assert(n == ties, "the world lists exactly the constraints that stay");
        n = 0;
        for (ContactConstraint& c : w.contacts()) { ++n; vc_assert(!c.isDead(), "no dead object stays in the world"); }
        vc_assert(n == touches, "the world lists exactly the contacts that stay");
        n = 0;
        for (ForceField& f : w.forceFields()) { ++n; vc_assert(!f.isDead(), "no dead object stays in the world"); }
        vc_assert(n == int(!windDies), "the world lists exactly the force fields that stay");
        for (int i = 0; i < nb; ++i)
            if (!manDies[i])
            {
                unsigned r = 0, t = 0;
                for (int j = i - 1; j <= i; ++j)
                    if (j >= 0 && j + 1 < nb)
                    {
                        if (!ropeDies[j]) { ++r; vc_assert(timesIn(man[i]->constraints_, rope[j]) == 1, "a body keeps its constraints that stay"); }
                        if (!touchDies[j]) { ++t; vc_assert(timesIn(man[i]->contacts_, touchOf[touchIndex[j]]) == 1, "a body keeps its contacts that stay"); }
                    }
                vc_assert(man[i]->constraints_.size() == r, "a body keeps no constraint that left");
                vc_assert(man[i]->contacts_.size() == t, "a body keeps no contact that left");
            }
        std::size_t inTree = 0;
        for (auto it = w.colliderTree_.begin(); it != w.colliderTree_.end(); ++it) ++inTree;
        vc_assert(inTree == std::size_t(men), "the index keeps no collider of a body that left");
    }
    int touchIndex[most];
    void run(bool kill, float dt)
    {
        for (int i = 0; i + 1 < nb; ++i) touchIndex[i] = touch(i);
        fate(kill);
        forget();
        released = 0;
        w.step(dt);
        after();
        forget();
        w.step(dt); // and nothing more happens
        for (int i = 0; i < nb; ++i) if (manDies[i]) ++mans[i].pre, ++mans[i].post;
        for (int i = 0; i + 1 < nb; ++i)
        {
            vc_assert(ropes[i].left == int(ropeDies[i]) && ropes[i].gone == int(ropeDies[i]), "an object leaves once");
            vc_assert(touchTale[touchIndex[i]].left == int(touchDies[i]) && touchTale[touchIndex[i]].gone == int(touchDies[i]), "an object leaves once");
        }
        for (int i = 0; i < nb; ++i) vc_assert(mans[i].left == int(manDies[i]) && mans[i].gone == int(manDies[i]), "an object leaves once");
        vc_assert(winds.left == int(windDies) && winds.gone == int(windDies), "an object leaves once");
    }
};
VC_CONTRACT(C29_leave_killed, fork_limit=100000) { Scene s{2}; s.run(true, 0.f); }
VC_CONTRACT(C29_leave_wishing, fork_limit=100000) { Scene s{2}; s.run(false, 0.f); }
VC_CONTRACT(C29_leave_three, cost=50, fork_limit=100000) { Scene s{3}; s.run(true, 0.f); }
VC_CONTRACT(C29_end_of_world)
{
    Tale mans[2], ropes, winds;
    int touches;
    {
        Scene s{2};
        s.w.clear();
        for (int i = 0; i < 2; ++i) mans[i] = s.mans[i];
        ropes = s.ropes[0];
        winds = s.winds;
        touches = touchTale[0].gone;
        vc_assert((mans[0].gone == 1) & (mans[1].gone == 1) & (ropes.gone == 1) & (winds.gone == 1) & (touches == 1), "clearing the world releases everything once");
        vc_assert(s.w.colliderTree_.isEmpty(), "a cleared world has an empty index");
        Man* m = s.w.makeBody<Man>(at(Vec2{}), &s.mans[2]);
        m->addCollider(triangle());
        s.w.step(0.0001f);
        vc_assert(s.mans[2].gone == 0 && s.mans[2].pre == 1, "a cleared world can be used again");
    }
}

// ---- which contacts exist
enum Rope { none, plain, disabling, disablingOther };
struct Meeting
{
    World w{makeTouch};
    Man *a, *b, *o;
    Tale ta, tb, to, tr;
    Collider *x, *y, *z = nullptr; // x, z of body a, y of body b
    Rope rope;

    Meeting(Rope r, bool meet, bool two) : rope{r}
    {
        nTouch = nEverywhere = released = 0;
        shuffle = false;
        for (Tale& t : touchTale) t = Tale{};
        a = w.makeBody<Man>(at(Vec2{}), &ta);
        b = w.makeBody<Man>(at(meet ? Vec2{1.f, 1.f} : Vec2{5.f, 5.f}), &tb);
        o = w.makeBody<Man>(at(Vec2{-50.f, 0.f}), &to);
        bool swapped = !vc_proof() && vc_bool();
        if (swapped) y = b->addCollider(triangle());
        x = a->addCollider(triangle());
        if (two) z = a->addCollider(triangle());
        if (!swapped) y = b->addCollider(triangle());
        w.step(0.0001f);
        vc_assert(nTouch == (meet ? two ? 2 : 1 : 0), "touching bodies get contacts, others do not");
        // the constraint comes when the contact exists already
        if (rope == plain) tie(w, a, b, false, &tr);
        if (rope == disabling) vc_bool() ? tie(w, a, b, true, &tr) : tie(w, b, a, true, &tr);
        if (rope == disablingOther) tie(w, a, o, true, &tr);
    }
    // in the step the bodies move anywhere
    void move()
    {
        everywhere[nEverywhere++] = x;
        everywhere[nEverywhere++] = y;
        if (z) everywhere[nEverywhere++] = z;
        shuffle = true;
        flat    = z != nullptr;
        if (!vc_proof())
        {
            // same thing for the native run: move the bodies by hand, the contacts have no effect
            for (Man* m : {a, b})
            {
                m->position_ = Position{0.4f * anyV(), ang(), m->localCentroid()};
                m->update();
            }
        }
        w.step(0.0001f);
        shuffle = false;
    }
    static int between(Man* m, Collider* c, Collider* d, const ContactConstraint** which)
    {
        int n = 0;
        for (ContactConstraint* k : m->contacts_)
            if (((k->colliders()[0] == c) & (k->colliders()[1] == d)) | ((k->colliders()[0] == d) & (k->colliders()[1] == c)))
                if (!k->isDead())
                {
                    ++n;
                    *which = k;
                }
        return n;
    }
    const ContactConstraint* pair(Collider* c, const ContactConstraint* before)
    {
        bool expected = rope != disabling && overlapping(c, y);
        const ContactConstraint *ka = nullptr, *kb = nullptr;
        int na = between(a, c, y, &ka), nb = between(b, c, y, &kb);
        vc_assert(na == int(expected), "there is one contact between two colliders exactly when their boxes overlap and no constraint forbids it");
        vc_assert(nb == int(expected), "both bodies know the contact");
        vc_assert(ka == kb, "both bodies know the same contact");
        int listed = 0;
        for (ContactConstraint& k : w.contacts()) listed += &k == ka;
        vc_assert(listed == int(expected), "the world lists the contact");
        if (before && expected) vc_assert(ka == before, "a contact lasts while the colliders touch");
        return ka;
    }
    void check()
    {
        move();
        const ContactConstraint* k1 = pair(x, firstOf(x));
        const ContactConstraint* k2 = z ? pair(z, firstOf(z)) : nullptr;
        for (ContactConstraint& k : w.contacts()) vc_assert(k.bodies()[0] != k.bodies()[1], "a body has no contact with itself");
        int live = int(k1 != nullptr) + int(k2 != nullptr), n = 0;
        int made = nTouch;
        w.step(0.f);
        for (ContactConstraint& k : w.contacts()) { ++n; vc_assert(!k.isDead(), "a contact that ended is gone after the next step"); }
        vc_assert(n == live, "exactly the contacts that lasted stay");
        vc_assert(int(a->contacts_.size()) == live && int(b->contacts_.size()) == live, "bodies keep no contact that ended");
        for (int i = 0; i < made; ++i)
        {
            bool stays = touchOf[i] == k1 || touchOf[i] == k2;
            vc_assert(touchTale[i].gone == int(!stays) && touchTale[i].left == int(!stays), "a contact that ended leaves once");
        }
    }
    const ContactConstraint* firstOf(Collider* c)
    {
        for (int i = 0; i < nFirst; ++i)
            if (firstTouch[i]->colliders()[0] == c || firstTouch[i]->colliders()[1] == c) return firstTouch[i];
        return nullptr;
    }
    const ContactConstraint* firstTouch[2];
    int nFirst = 0;
    void met()
    {
        for (; nFirst < nTouch; ++nFirst) firstTouch[nFirst] = touchOf[nFirst];
    }
};
static void meeting(Rope r, bool meet, bool two = false)
{
    Meeting m{r, meet, two};
    m.met();
    m.check();
}
VC_CONTRACT(C29_contact_new) { meeting(none, false); }
VC_CONTRACT(C29_contact_known) { meeting(none, true); }
VC_CONTRACT(C29_contact_new_plain) { meeting(plain, false); }
VC_CONTRACT(C29_contact_known_plain) { meeting(plain, true); }
VC_CONTRACT(C29_contact_new_disabled) { meeting(disabling, false); }
VC_CONTRACT(C29_contact_known_disabled) { meeting(disabling, true); }
VC_CONTRACT(C29_contact_known_disabled_other) { meeting(disablingOther, true); }
VC_CONTRACT(C29_contact_new_two, cost=40, fork_limit=100000) { meeting(none, false, true); }
VC_CONTRACT(C29_contact_known_two, cost=40, fork_limit=100000) { meeting(none, true, true); }

VC_CONTRACT(C29_collider_removed)
{
    Meeting m{none, true, true};
    bool first = vc_bool();
    Collider *out = first ? m.x : m.z, *in = first ? m.z : m.x;
    m.a->removeCollider(out);
    int dead = 0;
    for (int i = 0; i < 2; ++i)
    {
        bool hit = touchOf[i]->colliders()[0] == out || touchOf[i]->colliders()[1] == out;
        dead += touchOf[i]->isDead();
        vc_assert(touchOf[i]->isDead() == hit, "removing a collider ends its contacts and no other");
    }
    vc_assert(dead == 1, "removing a collider ends its contacts and no other");
    m.w.step(0.f);
    const ContactConstraint* k = nullptr;
    vc_assert((m.a->contacts_.size() == 1) & (m.b->contacts_.size() == 1), "the contact of a removed collider is gone after the step");
    vc_assert(Meeting::between(m.a, in, m.y, &k) == 1, "the contact of the other collider stays");
    vc_assert(touchTale[0].gone + touchTale[1].gone == 1, "the contact of a removed collider leaves once");
    if (vc_bool()) m.b->removeCollider(m.y);
    else m.a->removeCollider(in);
    m.w.step(0.0001f);
    vc_assert((m.a->contacts_.size() == 0) & (m.b->contacts_.size() == 0), "no contact remains without collider");
    vc_assert((touchTale[0].gone == 1) & (touchTale[1].gone == 1) & (nTouch == 2), "no contact remains without collider");
}
static int otherMade;
static UniquePtr<ContactConstraint> makeOther(Collider& a, Collider& b, const World::ContactAlloc& alloc)
{
    ++otherMade;
    return makeTouch(a, b, alloc);
}
VC_CONTRACT(C29_other_factory)
{
    otherMade = 0;
    Meeting m{none, true, false};
    m.w.setContactFactory(makeOther);
    vc_assert(touchTale[0].gone == 1, "changing the contact factory removes the contacts");
    vc_assert((m.a->contacts_.size() == 0) & (m.b->contacts_.size() == 0), "no body keeps a removed contact");
    m.w.step(0.0001f);
    vc_assert((nTouch == 2) & (otherMade == 1), "new contacts come from the new factory");
    vc_assert((m.a->contacts_.size() == 1) & (m.b->contacts_.size() == 1), "bodies know the new contacts");
}
