#include "rtree.h"
// vc:sources src/Simu/physics/BoundingBox.cpp
// vc:replace C03_.* "^simu::BoundingBox::overlaps\(" with c03_overlaps
// vc:replace C03_.* "^simu::BoundingBox::combined\(" with c03_combined
// vc:replace-recursive C03_query.* "::forEachIn<.*BoundingBox const&.*Node\*\)" with c03_forEachIn
// vc:replace C03_overlapping_entry.* "::forEachIn<.*BoundingBox const&.*Node\*\)" with c03_forEachIn
// vc:replace C03_several_(root_.*|left|right|empty) "::forEachOverlapping<.*OverlapList&" with c03_several
// vc:replace-recursive C03_several_(inner.*|leaf) "::forEachOverlapping<.*OverlapList&" with c03_several
// vc:assumes C03_query.* the tree is finite, so that structural induction over subtrees applies; the callback does not edit the tree
// vc:assumes C03_.* BoundingBox::overlaps and combined satisfy the contracts proved under C01 and C02
using namespace simu;

VC_STUB bool c03_overlaps(const BoundingBox* a, const BoundingBox* b) { return overlap(*a, *b); }
VC_STUB BoundingBox c03_combined(const BoundingBox* a, const BoundingBox* b) { return both(*a, *b); }

static Node*       ghost;
static int         ghostVisits, otherVisits, foreign;
static BoundingBox query;
static Sub         subs[8];
static int         nSubs;

struct Count
{
    void operator()(Tree::iterator it) const
    {
        if (it.node == ghost) ++ghostVisits;
        else
        {
            ++otherVisits;
            foreign += !overlap(query, it.node->bounds) | !it.node->isLeaf();
        }
    }
};
static void start() { ghost = nullptr; ghostVisits = otherVisits = foreign = nSubs = 0; }
static Sub sub(bool g, Node* parent)
{
    Sub s = anySub(g, parent);
    if (g) ghost = s.ghost;
    subs[nSubs++] = s;
    return s;
}
// contract of forEachIn on a subtree: the followed leaf is visited once if it overlaps the box, otherwise not at all;
// every other visited node is a leaf that overlaps the box
VC_STUB void c03_forEachIn(Tree*, const BoundingBox* box, const Count*, Node* node)
{
    if (node == nullptr) return;
    int k = -1;
    for (int i = 0; i < nSubs; ++i)
        if (subs[i].node == node) k = i;
    vc_assert(k >= 0, "the query descends into subtrees of this node");
    if (k < 0) return;
    BoundingBox b = *box;
    if (subs[k].ghost != nullptr) ghostVisits += overlap(b, ghost->bounds) ? 1 : 0;
    // another leaf of that subtree which overlaps the box that was passed must overlap the query
    BoundingBox other = anyBox();
    if (subs[k].leaf) other = node->bounds;
    vc_assume((!validBox(other)) | bool(validBox(node->bounds) & inBox(other, node->bounds)));
    foreign += (overlap(b, other) & !overlap(query, other)) ? 1 : 0;
}
static void verify(const char*)
{
    int expected = (ghost != nullptr && overlap(query, ghost->bounds)) ? 1 : 0;
    vc_assert(ghostVisits == expected, "an entry is visited exactly once if it overlaps the region, otherwise never");
    vc_assert(foreign == 0, "only leaves that overlap the region are visited");
}
static void link(Node* n, int left, int right, int where)
{
    n->left = n->right = nullptr;
    BoundingBox b{};
    if (left) { Sub s = sub(where == 1, n); n->left = s.node; b = both(b, s.node->bounds); }
    if (right) { Sub s = sub(where == 2, n); n->right = s.node; b = both(b, s.node->bounds); }
    n->bounds = b;
}

static void whole(int left, int right, int where)
{
    Tree tree;
    start();
    link(tree.root_, left, right, where);
    query = anyBox();
    Count f;
    tree.forEachIn(query, f);
    verify("");
    if (vc_proof()) tree.root_->left = tree.root_->right = nullptr;
}
VC_CONTRACT(C03_query_empty) { whole(0, 0, 0); }
VC_CONTRACT(C03_query_left_only) { whole(1, 0, 1); }
VC_CONTRACT(C03_query_right_only) { whole(0, 1, 2); }
VC_CONTRACT(C03_query_root_left) { whole(1, 1, 1); }
VC_CONTRACT(C03_query_root_right) { whole(1, 1, 2); }
VC_CONTRACT(C03_query_root_elsewhere) { whole(1, 1, 0); }

// the inductive step for a node below the root
static void inner(int where)
{
    Tree tree;
    start();
    Node* n   = tree.makeNode(BoundingBox{});
    n->parent = tree.root_;
    link(n, 1, 1, where);
    query = anyBox();
    Count f;
    tree.forEachIn(query, f, n);
    verify("");
    if (!vc_proof()) tree.deleteNode(n);
}
VC_CONTRACT(C03_query_inner_left) { inner(1); }
VC_CONTRACT(C03_query_inner_right) { inner(2); }
VC_CONTRACT(C03_query_inner_elsewhere) { inner(0); }

// the base cases
VC_CONTRACT(C03_query_leaf)
{
    Tree tree;
    start();
    int   v = 0;
    Node* n = tree.makeNode(anyBox());
    n->data = &v;
    query   = anyBox();
    ghost   = n;
    Count f;
    tree.forEachIn(query, f, n);
    verify("");
    vc_assert(otherVisits == 0, "only the leaf itself is visited");
    n->data = nullptr;
    tree.deleteNode(n);
}
VC_CONTRACT(C03_query_no_subtree)
{
    Tree tree;
    start();
    query = anyBox();
    Count f;
    tree.forEachIn(query, f, nullptr);
    vc_assert((ghostVisits == 0) & (otherVisits == 0), "nothing is visited in a missing subtree");
}

// a point query is the query of the box that holds the point alone
static void point(int where)
{
    Tree tree;
    start();
    link(tree.root_, 1, 1, where);
    float x = coord(), y = coord();
    if (!vc_proof()) { x = std::floor(x); y = std::floor(y); }
    query = BoundingBox{Vec2{x, y}, Vec2{x, y}};
    Count f;
    tree.forEachAt(Vec2{x, y}, f);
    verify("");
    if (ghost)
    {
        BoundingBox g = ghost->bounds;
        bool inside = bool((g.min_[0] <= x) & (x <= g.max_[0]) & (g.min_[1] <= y) & (y <= g.max_[1]));
        vc_assert((ghostVisits == 1) == inside, "a point query visits the entries whose box contains the point");
    }
    if (vc_proof()) tree.root_->left = tree.root_->right = nullptr;
}
VC_CONTRACT(C03_query_point_left) { point(1); }
VC_CONTRACT(C03_query_point_elsewhere) { point(0); }

// everything that overlaps a stored entry, except itself: walks up from the entry.  Bounded: entries at depth 1 to 4 (the
// subtrees hanging off the path are arbitrary)
static void overlapping(int depth, int pattern, int where)
{
    Tree tree;
    start();
    Node* at = tree.root_;
    Node* path[8];
    // build from the top: at each level the path goes left or right and the other side is an arbitrary subtree
    int   k  = 0;
    Node* up = tree.root_;
    Sub   side[8];
    for (int d = 0; d < depth; ++d)
    {
        bool left = (pattern >> d) & 1;
        bool none = d == 0 && ((pattern >> depth) & 1); // the root may have a single child
        Node* next = vc_proof() ? rawNode() : new Node{BoundingBox{}};
        next->left = next->right = nullptr;
        next->data   = nullptr;
        next->parent = up;
        up->left = up->right = nullptr;
        if (left) up->left = next;
        else up->right = next;
        if (!none)
        {
            Sub s = sub(where == d, up);
            if (left) up->right = s.node;
            else up->left = s.node;
        }
        path[k++] = up;
        up        = next;
    }
    int v      = 0;
    up->data   = &v;
    up->bounds = anyBox();
    for (int d = depth - 1; d >= 0; --d)
    {
        BoundingBox b{};
        if (path[d]->left) b = both(b, path[d]->left->bounds);
        if (path[d]->right) b = both(b, path[d]->right->bounds);
        path[d]->bounds = b;
    }
    query = up->bounds;
    Node* self = up;
    Count f;
    tree.forEachOverlapping(Tree::iterator{self}, f);
    verify("");
    up->data = nullptr;
    if (vc_proof()) tree.root_->left = tree.root_->right = nullptr;
}
VC_CONTRACT(C03_overlapping_entry_depth1_0_0) { overlapping(1, 0, 0); }
VC_CONTRACT(C03_overlapping_entry_depth1_1_0) { overlapping(1, 1, 0); }
VC_CONTRACT(C03_overlapping_entry_depth1_2_7) { overlapping(1, 2, 7); }
VC_CONTRACT(C03_overlapping_entry_depth1_3_7) { overlapping(1, 3, 7); }
VC_CONTRACT(C03_overlapping_entry_depth2_1_0) { overlapping(2, 1, 0); }
VC_CONTRACT(C03_overlapping_entry_depth2_2_1) { overlapping(2, 2, 1); }
VC_CONTRACT(C03_overlapping_entry_depth2_5_1) { overlapping(2, 5, 1); }
VC_CONTRACT(C03_overlapping_entry_depth3_5_0) { overlapping(3, 5, 0); }
VC_CONTRACT(C03_overlapping_entry_depth3_2_1) { overlapping(3, 2, 1); }
VC_CONTRACT(C03_overlapping_entry_depth3_6_2) { overlapping(3, 6, 2); }
VC_CONTRACT(C03_overlapping_entry_depth4_9_0) { overlapping(4, 9, 0); }
VC_CONTRACT(C03_overlapping_entry_depth4_6_3) { overlapping(4, 6, 3); }

// several entries at once: every pair of a stored entry and one of the given entries that overlap, once.  The given entries
// are passed as a list (bounded: two of them)
static Node*  given[2];
static Node*  current;
static int    hits[2], strayHits;
typedef Tree::OverlapList OverlapList;
struct Pair
{
    void operator()(Tree::iterator leaf, Tree::iterator it) const
    {
        for (int i = 0; i < 2; ++i)
            if (it.node == given[i])
            {
                if (leaf.node == ghost) ++hits[i];
                else strayHits += !overlap(leaf.node->bounds, it.node->bounds);
            }
        strayHits += (it.node != given[0]) & (it.node != given[1]);
    }
};
// contract: the part of the list before its middle are the entries that overlap the bounds of the subtree's root; the list may be
// reordered within that part and its middle may change
VC_STUB void c03_several(Tree*, Node* node, OverlapList* list, const Pair*)
{
    int k = -1;
    for (int i = 0; i < nSubs; ++i)
        if (subs[i].node == node) k = i;
    vc_assert(k >= 0, "recursion goes to the children");
    if (k < 0) return;
    int bad = 0;
    for (Node* n : list->overlapping())
    {
        bad += !overlap(n->bounds, node->bounds);
        if (subs[k].ghost != nullptr)
            for (int i = 0; i < 2; ++i)
                if (given[i] == n) hits[i] += overlap(n->bounds, ghost->bounds) ? 1 : 0;
    }
    vc_assert(bad == 0, "a subtree is only asked for entries that overlap its bounds");
    // the callee sorts the part it was given
    if (list->middle() == 2)
    {
        if (vc_bool()) { Node* x = list->nodes_[0]; list->nodes_[0] = list->nodes_[1]; list->nodes_[1] = x; }
        list->setMiddle(vc_bool() ? 0 : vc_bool() ? 1 : 2);
    }
    else if (list->middle() == 1) list->setMiddle(vc_bool() ? 0 : 1);
}
static void several(bool root, int left, int right, int where)
{
    Tree tree;
    start();
    strayHits = 0;
    Node  a{anyBox()}, b{anyBox()};
    int   v = 0;
    a.data = b.data = &v;
    given[0] = &a;
    given[1] = &b;
    hits[0] = hits[1] = 0;
    Node* n = tree.root_;
    if (!root) { n = tree.makeNode(BoundingBox{}); n->parent = tree.root_; }
    link(n, left, right, where);
    Pair f;
    Tree::iterator its[2] = {Tree::iterator{&a}, Tree::iterator{&b}};
    if (root) tree.forEachOverlapping(makeView(its, its + 2), f);
    else
    {
        OverlapList list{makeView(its, its + 2)};
        list.sortOverlapping(n->bounds);
        tree.forEachOverlapping(n, list, f);
    }
    for (int i = 0; i < 2; ++i)
    {
        int want = (ghost != nullptr && overlap(ghost->bounds, given[i]->bounds)) ? 1 : 0;
        vc_assert(hits[i] == want, "a stored entry is reported once with each given entry it overlaps, otherwise never");
    }
    vc_assert(strayHits == 0, "only overlapping pairs are reported");
    if (vc_proof()) tree.root_->left = tree.root_->right = nullptr;
    else if (!root) tree.deleteNode(n);
}
VC_CONTRACT(C03_several_empty) { several(true, 0, 0, 0); }
VC_CONTRACT(C03_several_left) { several(true, 1, 0, 1); }
VC_CONTRACT(C03_several_right) { several(true, 0, 1, 2); }
VC_CONTRACT(C03_several_root_left, fork_limit=100000) { several(true, 1, 1, 1); }
VC_CONTRACT(C03_several_root_right, fork_limit=100000) { several(true, 1, 1, 2); }
VC_CONTRACT(C03_several_inner_left, fork_limit=100000) { several(false, 1, 1, 1); }
VC_CONTRACT(C03_several_inner_right, fork_limit=100000) { several(false, 1, 1, 2); }
VC_CONTRACT(C03_several_leaf)
{
    Tree tree;
    start();
    strayHits = 0;
    hits[0] = hits[1] = 0;
    Node  a{anyBox()}, b{anyBox()};
    int   v = 0;
    a.data = b.data = &v;
    given[0] = &a;
    given[1] = &b;
    ghost = tree.makeNode(anyBox());
    ghost->data = &v;
    Tree::iterator its[2] = {Tree::iterator{&a}, Tree::iterator{&b}};
    OverlapList list{makeView(its, its + 2)};
    list.sortOverlapping(ghost->bounds);
    Pair f;
    tree.forEachOverlapping(ghost, list, f);
    for (int i = 0; i < 2; ++i)
    {
        int want = overlap(ghost->bounds, given[i]->bounds) ? 1 : 0;
        vc_assert(hits[i] == want, "a stored entry is reported once with each given entry it overlaps, otherwise never");
    }
    ghost->data = nullptr;
    tree.deleteNode(ghost);
}

VC_BOUNDED(C03_random_indices)
{
    Tree t;
    std::vector<Tree::iterator> live;
    int n = vc_int(0, 30);
    for (int i = 0; i < n; ++i) live.push_back(t.insert(anyBox(), i));
    for (int i = vc_int(0, 6); i > 0 && !live.empty(); --i)
    {
        int k = vc_int(0, int(live.size()) - 1);
        if (vc_bool()) { t.erase(live[k]); live.erase(live.begin() + k); }
        else t.update(live[k], anyBox());
    }
    if (vc_bool()) t.updateAndCollide([](Tree::iterator it) { return it.bounds(); }, [](Tree::iterator, Tree::iterator) {});
    BoundingBox q = anyBox();
    std::map<int, int> got;
    t.forEachIn(q, [&](Tree::iterator it) { ++got[*it]; });
    for (auto it : live) vc_assert(got[*it] == (overlap(q, it.bounds()) ? 1 : 0), "an entry is visited exactly once if it overlaps the region, otherwise never");
    if (live.empty()) return;
    auto me = live[vc_int(0, int(live.size()) - 1)];
    got.clear();
    t.forEachOverlapping(me, [&](Tree::iterator it) { ++got[*it]; });
    for (auto it : live) vc_assert(got[*it] == (it != me && overlap(me.bounds(), it.bounds()) ? 1 : 0), "the entries that overlap an entry are visited once, without itself");
}
