#include "rtree.h"
// vc:sources src/Simu/physics/BoundingBox.cpp
// vc:replace C04_.* "^simu::BoundingBox::overlaps\(" with c04_overlaps
// vc:replace C04_.* "^simu::BoundingBox::combined\(" with c04_combined
// vc:replace-recursive C04_step.* "::updateAndCollide<.*OverlapList" with c04_step
// vc:assumes C04_step.* the recursion of the collision pass ends (each call works on fewer entries); centres are computed in real arithmetic
// vc:assumes C04_.* BoundingBox::overlaps and combined satisfy the contracts proved under C01 and C02
using namespace simu;

VC_STUB bool        c04_overlaps(const BoundingBox* a, const BoundingBox* b) { return overlap(*a, *b); }
VC_STUB BoundingBox c04_combined(const BoundingBox* a, const BoundingBox* b) { return both(*a, *b); }

static int   reported[8][8];
static int   reports;
static Node* leafOf[8];
static int   nLeaves;
static int   idOf(const Node* n)
{
    for (int i = 0; i < nLeaves; ++i)
        if (leafOf[i] == n) return i;
    return 7;
}
struct Record
{
    void operator()(Tree::iterator a, Tree::iterator b) const
    {
        int i = idOf(a.node), j = idOf(b.node);
        ++reported[i][j];
        ++reports;
    }
};
static void start()
{
    nLeaves = reports = 0;
    for (int i = 0; i < 8; ++i)
        for (int j = 0; j < 8; ++j) reported[i][j] = 0;
}
static Node* leaf(Tree& t)
{
    Node* n = t.makeLeaf(anyBox(), nLeaves);
    leafOf[nLeaves++] = n;
    return n;
}
static int times(int i, int j) { return reported[i][j] + reported[j][i]; }

// contract of the recursive pass over `nodes` with the list `collisions` of entries outside it (that overlap the entry
// when there is only one; entries behind the middle of the list are not listed):
// reports every overlapping pair inside nodes and between nodes and collisions once, and returns a subtree over nodes
static Node*       stubNode[4];
static BoundingBox stubBounds[4];
static int         stubs;
typedef Tree::OverlapList OverlapList;
VC_STUB Node* c04_step(Tree*, Node** begin, Node** end, OverlapList* collisions, const Record*, Tree::RecycleBin*)
{
    long n = end - begin;
    BoundingBox all{};
    for (long i = 0; i < n; ++i) all = both(all, begin[i]->bounds);
    int bad = 0;
    for (Node* c : collisions->overlapping())
    {
        if (n == 1) bad += !overlap(c->bounds, all);
        for (long i = 0; i < n; ++i) bad += begin[i] == c;
    }
    vc_assert(bad == 0, "the list handed down holds only entries outside the part, and for a single entry only those that overlap it");
    for (long i = 0; i < n; ++i)
    {
        for (long j = i + 1; j < n; ++j) reported[idOf(begin[i])][idOf(begin[j])] += overlap(begin[i]->bounds, begin[j]->bounds) ? 1 : 0;
        for (Node* c : collisions->overlapping()) reported[idOf(begin[i])][idOf(c)] += overlap(begin[i]->bounds, c->bounds) ? 1 : 0;
    }
    vc_assert(n >= 1, "no part is empty");
    if (n == 1) return begin[0];
    Node* r   = rawNode();
    r->bounds = all;
    stubNode[stubs]     = r;
    stubBounds[stubs++] = all;
    return r;
}
static int errors, met[8];
static BoundingBox checkShape(Node* n, Node* parent, bool root)
{
    if (n == nullptr) { errors += !root; return BoundingBox{}; }
    if (parent) errors += n->parent != parent;
    for (int i = 0; i < stubs; ++i)
        if (stubNode[i] == n) { ++met[6]; return stubBounds[i]; }
    for (int i = 0; i < nLeaves; ++i)
        if (leafOf[i] == n) { ++met[i]; errors += *n->data != i; return n->bounds; }
    BoundingBox l = checkShape(n->left, n, root), r = checkShape(n->right, n, root);
    BoundingBox b = both(l, r);
    errors += !sameBox(b, n->bounds);
    return b;
}
static void pairs(int inside, int all, int behind)
{
    int missed = 0, wrong = 0, self = 0;
    for (int i = 0; i < all; ++i)
        for (int j = i + 1; j < all; ++j)
        {
            int want = (i < inside && overlap(leafOf[i]->bounds, leafOf[j]->bounds)) ? 1 : 0;
            wrong += times(i, j) != want;
        }
    for (int i = 0; i < all + behind; ++i)
        for (int j = all; j < all + behind; ++j) wrong += times(i, j) != 0;
    for (int i = 0; i < 8; ++i) self += reported[i][i];
    vc_assert(wrong == 0, "every overlapping pair is reported exactly once, and no other pair");
    vc_assert(self == 0, "no entry is paired with itself");
}

static void step(int inside, int outside, int spare, int behind = 0)
{
    if (!vc_proof()) return;
    start();
    stubs = 0;
    Tree t;
    Node* nodes[4];
    BoundingBox all{};
    for (int i = 0; i < inside; ++i) { nodes[i] = leaf(t); all = both(all, nodes[i]->bounds); }
    OverlapList list{};
    for (int i = 0; i < outside; ++i)
    {
        Node* c = leaf(t);
        if (inside == 1) vc_assume(overlap(c->bounds, all));
        list.addOverlapping(c);
    }
    for (int i = 0; i < behind; ++i) list.nodes_.push_back(leaf(t)); // left behind by an earlier filter: not listed
    std::allocator<int> alloc{};
    Node* made = nullptr;
    {
        Tree::RecycleBin bin{t, alloc};
        for (int i = 0; i < spare; ++i) bin.recycle(t.makeNode(BoundingBox{}));
        made = t.updateAndCollide(makeView(nodes, nodes + inside), std::move(list), Record{}, bin);
    }
    pairs(inside, inside + outside, behind);
    errors = 0;
    for (int i = 0; i < 8; ++i) met[i] = 0;
    BoundingBox b = checkShape(made, nullptr, false);
    vc_assert((errors == 0) & sameBox(b, all), "the rebuilt subtree is well formed and its bounds enclose its entries");
    if (inside > 1) vc_assert((made->left != made->right), "the parts are different");
}
VC_CONTRACT(C04_step_1_0) { step(1, 0, 0); }
VC_CONTRACT(C04_step_1_2) { step(1, 2, 1); }
VC_CONTRACT(C04_step_1_2_behind) { step(1, 2, 1, 1); }
VC_CONTRACT(C04_step_2_1_behind, cost=20, fork_limit=100000) { step(2, 1, 1, 1); }
VC_CONTRACT(C04_step_2_0) { step(2, 0, 0); }
VC_CONTRACT(C04_step_2_1, fork_limit=100000) { step(2, 1, 1); }
VC_CONTRACT(C04_step_2_2, fork_limit=100000) { step(2, 2, 1); }
VC_CONTRACT(C04_step_3_0, fork_limit=100000) { step(3, 0, 2); }
VC_CONTRACT(C04_step_3_1, cost=30, fork_limit=100000) { step(3, 1, 0); }

// the whole pass on small indices: update brings the boxes up to date, then the pairs are reported, then the index still holds
// exactly its entries
static void whole(int n)
{
    start();
    Tree t;
    BoundingBox fresh[4];
    Tree::iterator its[4];
    for (int i = 0; i < n; ++i) { its[i] = t.insert(BoundingBox{Vec2{float(3 * i), 0.f}, Vec2{float(3 * i + 1), 1.f}}, i); leafOf[nLeaves++] = its[i].node; }
    for (int i = 0; i < n; ++i) fresh[i] = anyBox();
    int updates[4] = {0, 0, 0, 0};
    int early = 0;
    t.updateAndCollide(
        [&](Tree::iterator it) { early += reports; ++updates[*it]; return fresh[*it]; },
        Record{}
    );
    int once = 0;
    for (int i = 0; i < n; ++i) once += (updates[i] != 1) | !sameBox(its[i].bounds(), fresh[i]) | (*its[i] != i);
    vc_assert(once == 0, "every entry is updated once, keeps its value and takes the new box");
    vc_assert(early == 0, "all entries are up to date before any pair is reported");
    pairs(n, n, 0);
    stubs = 0;
    errors = 0;
    for (int i = 0; i < 8; ++i) met[i] = 0;
    errors += t.root_->parent != nullptr;
    BoundingBox b = checkShape(t.root_, nullptr, true);
    for (int i = 0; i < n; ++i) errors += met[i] != 1;
    vc_assert((errors == 0) & sameBox(b, t.bounds()), "the index is well formed afterwards and holds its entries");
}
VC_CONTRACT(C04_pass_0) { whole(0); }
VC_CONTRACT(C04_pass_1) { whole(1); }
VC_CONTRACT(C04_pass_2, fork_limit=100000) { whole(2); }
VC_CONTRACT(C04_pass_3, cost=90, fork_limit=100000) { whole(3); }

VC_BOUNDED(C04_random_passes)
{
    Tree t;
    std::vector<Tree::iterator> live;
    int next = 0;
    for (int round = 0; round < 3; ++round)
    {
        int n = vc_int(0, 3) == 0 ? vc_int(0, 40) : vc_int(0, 8);
        for (int i = 0; i < n; ++i) live.push_back(t.insert(anyBox(), next++));
        while (!live.empty() && vc_int(0, 3) == 0)
        {
            int k = vc_int(0, int(live.size()) - 1);
            t.erase(live[k]);
            live.erase(live.begin() + k);
        }
        std::vector<BoundingBox> fresh(next);
        for (auto& b : fresh) b = anyBox();
        std::map<std::pair<int, int>, int> got;
        t.updateAndCollide(
            [&](Tree::iterator it) { return fresh[*it]; },
            [&](Tree::iterator a, Tree::iterator b) { ++got[{std::min(*a, *b), std::max(*a, *b)}]; }
        );
        long expected = 0;
        for (auto a : live)
            for (auto b : live)
                if (*a < *b && overlap(fresh[*a], fresh[*b])) { ++expected; vc_assert((got[{*a, *b}] == 1), "every overlapping pair is reported exactly once"); }
        vc_assert(long(got.size()) == expected, "no other pair is reported");
        std::set<int> met;
        for (auto it = t.begin(); it != t.end(); ++it) vc_assert(met.insert(*it).second && sameBox(it.bounds(), fresh[*it]), "every entry is kept once with its new box");
        vc_assert(met.size() == live.size() && t.size() == live.size(), "no entry is lost");
        errors = 0;
        nLeaves = stubs = 0;
        struct R { static void go(Node* n, bool root) { if (!n) { errors += !root; return; } if (n->data) return; for (Node* c : {n->left, n->right}) if (c) { errors += c->parent != n; } go(n->left, root); go(n->right, root); errors += !sameBox(n->bounds, both(n->left ? n->left->bounds : BoundingBox{}, n->right ? n->right->bounds : BoundingBox{})); } };
        R::go(t.root_, true);
        vc_assert(errors == 0, "the index is well formed afterwards");
    }
}
