#include "rtree.h"
// vc:sources src/Simu/physics/BoundingBox.cpp
// vc:replace C05_.* "^simu::BoundingBox::overlaps\(" with c05_overlaps
// vc:replace C05_.* "^simu::BoundingBox::combined\(" with c05_combined
// vc:replace C05_.* "^simu::BoundingBox::operator==\(" with c05_equal
// vc:replace C05_.* "^simu::RTree<int, std::allocator<int> ?>::area\(" with c05_area
// vc:replace C05_(refit|add|extract).* "::checkRotations\(" with c05_checkRotations
// vc:replace C05_(add|extract).* "::refit\(" with c05_refit
// vc:replace-recursive C05_size.* "^simu::RTree<int, std::allocator<int> ?>::size\(.*Node\*\)" with c05_size
// vc:replace-recursive C05_height.* "^simu::RTree<int, std::allocator<int> ?>::height\(.*Node const\*\)" with c05_height
// vc:replace-recursive C05_delete.* "::deleteNode\(" with c05_delete
// vc:replace-recursive C05_next.* "::Iterator<(true|false)>::operator\+\+\(\)" with c05_next
// vc:replace C05_next.* "::Iterator<(true|false)>::goLeft\(\)" with c05_goLeft
// vc:replace C05_insert_position.* "::addLeafTo\(" with c05_addLeafTo
// vc:assumes C05_.* the tree is finite (structural induction); areas are arbitrary numbers, the structure does not depend on them
using namespace simu;

VC_STUB bool  c05_overlaps(const BoundingBox* a, const BoundingBox* b) { return overlap(*a, *b); }
VC_STUB BoundingBox c05_combined(const BoundingBox* a, const BoundingBox* b) { return both(*a, *b); }
VC_STUB bool c05_equal(const BoundingBox* a, const BoundingBox* b) { return sameBox(*a, *b); }
VC_STUB float c05_area(Tree*, BoundingBox) { return vc_real(); }
// contract of checkRotations: rearranges what lies below the node, its own bounds and parent stay (proved by C05_rotations_*)
VC_STUB void c05_checkRotations(Tree*, Node*) {}

static Node* refitAt;
static int   refits;
VC_STUB void c05_refit(Tree*, Node* n)
{
    refitAt = n;
    ++refits;
}

static Sub subs[8];
static int nSubs, seen[8];
static std::multiset<int>* wanted;
static std::multiset<int>* found;

static void start() { nSubs = refits = 0; refitAt = nullptr; for (int i = 0; i < 8; ++i) seen[i] = 0; }
static void leavesOf(Node* n, std::multiset<int>& out)
{
    if (!n) return;
    if (n->isLeaf()) out.insert(int(reinterpret_cast<std::size_t>(n->data) >> 3));
    leavesOf(n->left, out);
    leavesOf(n->right, out);
}
static Node* attach(Node* parent, bool left, const Sub& s)
{
    subs[nSubs++] = s;
    (left ? parent->left : parent->right) = s.node;
    s.node->parent = parent;
    return s.node;
}
static Node* hang(Node* parent, bool left) { return attach(parent, left, anySub(false, parent, 2)); }
// a subtree the function has no reason to look into
static Node* side(Node* parent, bool left) { return attach(parent, left, opaqueSub(parent)); }
static BoundingBox boxOf(Node* n) { return n ? n->bounds : BoundingBox{}; }
static void fit(Node* n) { n->bounds = both(boxOf(n->left), boxOf(n->right)); }
static Node* newNode(Tree& t, Node* parent, bool left)
{
    Node* n = t.makeNode(BoundingBox{});
    (left ? parent->left : parent->right) = n;
    n->parent = parent;
    return n;
}
static Node* newLeaf(Tree& t)
{
    return t.makeLeaf(anyBox(), 7);
}
// shape of everything reachable from n: parents and children agree, inner nodes have two children, bounds are the least
// enclosing boxes; in the proof the abstract subtrees are counted and not entered.  Nodes on the path up from `skip` may
// have outdated bounds.
static int shapeErrors, boundErrors, counted;
static bool isSkipped(Node* n, Node* skip)
{
    while (skip != nullptr)
    {
        if (skip == n) return true;
        skip = skip->parent;
    }
    return false;
}
static void walk(Node* n, Node* parent, bool root, Node* skip)
{
    if (n == nullptr) { shapeErrors += !root; return; }
    shapeErrors += n->parent != parent;
    if (vc_proof())
        for (int i = 0; i < nSubs; ++i)
            if (subs[i].node == n) { ++seen[i]; return; }
    if (n->data != nullptr)
    {
        shapeErrors += (n->left != nullptr) | (n->right != nullptr);
        ++counted;
        return;
    }
    bool mayLack = n->parent == nullptr;
    walk(n->left, n, mayLack, skip);
    walk(n->right, n, mayLack, skip);
    if (!isSkipped(n, skip)) boundErrors += !sameBox(n->bounds, both(boxOf(n->left), boxOf(n->right)));
}
static void verifyTree(Tree& t, Node* skip, int leaves)
{
    shapeErrors = boundErrors = counted = 0;
    walk(t.root_, nullptr, true, skip);
    vc_assert(shapeErrors == 0, "parents and children agree and every inner node has two children");
    vc_assert(boundErrors == 0, "every node's bounds are the least box enclosing its children");
    if (vc_proof())
    {
        vc_assert(counted == leaves, "the separate leaves are all there, once");
        int bad = 0;
        for (int i = 0; i < nSubs; ++i) bad += seen[i] != 1;
        vc_assert(bad == 0, "every subtree is still there, once");
    }
}
static void forget(Tree& t) { if (vc_proof()) t.root_->left = t.root_->right = nullptr; }
static void remember(Tree& t, std::multiset<int>& s) { if (!vc_proof()) { s.clear(); leavesOf(t.root_, s); } }
static void sameLeaves(Tree& t, std::multiset<int>& s)
{
    if (vc_proof()) return;
    std::multiset<int> now;
    leavesOf(t.root_, now);
    vc_assert(now == s, "the entries are the same");
}

// ---------------------------------------------------------------- rotations
// a leaf or an inner node: after a first rotation it may be the node whose children are tried next
static void leafOrOpen(Node* parent, bool left)
{
    Sub s = anySub(false, parent, 2);
    if (vc_proof()) vc_assume(s.leaf);
    attach(parent, left, s);
}
static void child(Tree& t, Node* parent, bool left)
{
    if (!vc_proof() || vc_bool()) { leafOrOpen(parent, left); return; }
    Node* m = newNode(t, parent, left);
    side(m, true);
    side(m, false);
    fit(m);
}
static void rotations(int kind, bool below)
{
    start();
    Tree  t;
    Node* g = below ? newNode(t, t.root_, true) : t.root_;
    if (below) side(t.root_, false);
    Node* l = nullptr;
    Node* r = nullptr;
    if (kind & 1) { l = newNode(t, g, true); side(l, true); side(l, false); fit(l); }
    else { l = newLeaf(t); g->setLeft(l); }
    if (kind & 2) { r = newNode(t, g, false); child(t, r, true); child(t, r, false); fit(r); }
    else { r = newLeaf(t); g->setRight(r); }
    fit(g);
    if (below) fit(t.root_);
    BoundingBox before = g->bounds;
    std::multiset<int> was;
    remember(t, was);
    t.checkRotations(g);
    verifyTree(t, nullptr, (kind & 1 ? 0 : 1) + (kind & 2 ? 0 : 1));
    vc_assert(sameBox(g->bounds, before), "a rotation leaves the bounds of the rotated node");
    sameLeaves(t, was);
    if (vc_proof())
        for (Node* n : {l, r})
            if (n->data != nullptr) n->data = nullptr;
    forget(t);
}
VC_CONTRACT(C05_rotations_two_leaves) { rotations(0, true); }
VC_CONTRACT(C05_rotations_left_inner) { rotations(1, true); }
VC_CONTRACT(C05_rotations_right_inner, cost=40) { rotations(2, true); }
VC_CONTRACT(C05_rotations_both_inner, cost=110, fork_limit=100000) { rotations(3, true); }
VC_CONTRACT(C05_rotations_at_root, cost=60, fork_limit=100000) { rotations(3, false); }

// ---------------------------------------------------------------- refit: one outdated node, everything else consistent.
// Bounded: the outdated node lies at depth 0 to 3
static void refit(int depth, int pattern)
{
    start();
    Tree  t;
    Node* n = t.root_;
    Node* chain[8];
    int   k = 0;
    chain[k++] = n;
    for (int d = 0; d < depth; ++d)
    {
        bool left = (pattern >> d) & 1;
        Node* m = newNode(t, n, left);
        side(n, !left);
        n = m;
        chain[k++] = n;
    }
    // the children of the outdated node: consistent bounds everywhere, then one child is replaced
    side(n, true);
    side(n, false);
    BoundingBox old = anyBox();
    n->bounds = old;
    for (int i = k - 2; i >= 0; --i) fit(chain[i]);
    std::multiset<int> was;
    remember(t, was);
    t.refit(n);
    verifyTree(t, nullptr, 0);
    sameLeaves(t, was);
    forget(t);
}
VC_CONTRACT(C05_refit_root) { refit(0, 0); }
VC_CONTRACT(C05_refit_depth_1) { refit(1, 0); }
VC_CONTRACT(C05_refit_depth_2) { refit(2, 1); }
VC_CONTRACT(C05_refit_depth_3) { refit(3, 5); }
VC_CONTRACT(C05_refit_nothing)
{
    start();
    Tree t;
    t.refit(nullptr);
    vc_assert(t.isEmpty(), "refitting from no node does nothing");
    // the root with one or no child
    if (vc_bool()) { side(t.root_, vc_bool()); }
    BoundingBox old = anyBox();
    t.root_->bounds = old;
    t.refit(t.root_);
    verifyTree(t, nullptr, 0);
    forget(t);
}

// ---------------------------------------------------------------- adding a leaf next to / below any node
static void add(int where)
{
    start();
    Tree  t;
    Node* leaf = newLeaf(t);
    Node* at   = t.root_;
    int   leaves = 1;
    Node* other = nullptr;
    switch (where)
    {
        case 0: break;                                                       // empty root
        case 1: side(at, true); break;                                       // root with a left child
        case 2: side(at, false); break;                                      // root with a right child
        case 3: side(at, true); side(at, false); break;                      // full root
        case 4: case 5: at = newNode(t, at, where == 4); side(t.root_, where != 4); side(at, true); side(at, false); break;   // inner
        case 6: case 7: other = newLeaf(t); where == 6 ? at->setLeft(other) : at->setRight(other); side(at, where != 6); at = other; ++leaves; break; // a leaf
        case 8: case 9: other = newLeaf(t); where == 8 ? at->setLeft(other) : at->setRight(other); at = other; ++leaves; break; // the only leaf
    }
    if (at != other) fit(at);
    if (at != t.root_) fit(t.root_);
    BoundingBox lb = leaf->bounds;
    std::multiset<int> was;
    remember(t, was);
    t.addLeafTo(at, leaf);
    if (vc_proof())
    {
        vc_assert(refits == 1, "ancestors are brought up to date once");
        verifyTree(t, refitAt, leaves);
    }
    else
    {
        was.insert(int(reinterpret_cast<std::size_t>(leaf->data) >> 3));
        verifyTree(t, nullptr, leaves);
        sameLeaves(t, was);
    }
    vc_assert((leaf->data != nullptr) & sameBox(leaf->bounds, lb), "the added leaf keeps its value and box");
    vc_assert((leaf->parent->left == leaf) | (leaf->parent->right == leaf), "the leaf is in the tree");
    if (vc_proof()) { leaf->data = nullptr; if (other) other->data = nullptr; }
    forget(t);
}
VC_CONTRACT(C05_add_to_empty) { add(0); }
VC_CONTRACT(C05_add_to_root_with_left) { add(1); }
VC_CONTRACT(C05_add_to_root_with_right) { add(2); }
VC_CONTRACT(C05_add_to_full_root) { add(3); }
VC_CONTRACT(C05_add_to_left_inner) { add(4); }
VC_CONTRACT(C05_add_to_right_inner) { add(5); }
VC_CONTRACT(C05_add_beside_left_leaf) { add(6); }
VC_CONTRACT(C05_add_beside_right_leaf) { add(7); }
VC_CONTRACT(C05_add_beside_only_left) { add(8); }
VC_CONTRACT(C05_add_beside_only_right) { add(9); }

// ---------------------------------------------------------------- taking a leaf out
static void extract(int where)
{
    start();
    Tree  t;
    Node* leaf = newLeaf(t);
    Node* up   = t.root_;
    bool  left = where & 1;
    int   leaves = 0;
    Node* other = nullptr;
    switch (where >> 1)
    {
        case 0: break;                                   // the only entry
        case 1: other = newLeaf(t); ++leaves; left ? up->setRight(other) : up->setLeft(other); break; // beside another leaf below the root
        case 2: other = newNode(t, up, !left); side(other, true); side(other, false); fit(other); other = nullptr; break; // beside an inner node below the root
        case 3: up = newNode(t, t.root_, true); side(t.root_, false); side(up, !left); break;          // deeper
        case 4: up = newNode(t, t.root_, false); side(t.root_, true); side(up, !left); break;
        case 5: { Node* m = newNode(t, t.root_, false); side(t.root_, true); up = newNode(t, m, true); side(m, false); side(up, !left); break; }
    }
    left ? up->setLeft(leaf) : up->setRight(leaf);
    fit(up);
    if (up->parent) fit(up->parent);
    if (up->parent && up->parent->parent) fit(up->parent->parent);
    BoundingBox lb = leaf->bounds;
    int* value = leaf->data;
    std::multiset<int> was;
    remember(t, was);
    Node* got = t.extract(leaf);
    vc_assert(got == leaf, "the leaf is returned");
    vc_assert((leaf->data == value) & sameBox(leaf->bounds, lb), "the leaf keeps its value and box");
    if (vc_proof())
    {
        vc_assert(refits == 1, "ancestors are brought up to date once");
        verifyTree(t, refitAt, leaves);
    }
    else
    {
        was.erase(int(reinterpret_cast<std::size_t>(leaf->data) >> 3));
        verifyTree(t, nullptr, leaves);
        sameLeaves(t, was);
    }
    t.deleteNode(leaf);
    if (vc_proof() && other) other->data = nullptr;
    forget(t);
}
VC_CONTRACT(C05_extract_only_left) { extract(1); }
VC_CONTRACT(C05_extract_only_right) { extract(0); }
VC_CONTRACT(C05_extract_beside_leaf_left) { extract(3); }
VC_CONTRACT(C05_extract_beside_leaf_right) { extract(2); }
VC_CONTRACT(C05_extract_beside_inner_left) { extract(5); }
VC_CONTRACT(C05_extract_beside_inner_right) { extract(4); }
VC_CONTRACT(C05_extract_below_left_1) { extract(7); }
VC_CONTRACT(C05_extract_below_left_2) { extract(6); }
VC_CONTRACT(C05_extract_below_right_1) { extract(9); }
VC_CONTRACT(C05_extract_below_right_2) { extract(8); }
VC_CONTRACT(C05_extract_deep_1) { extract(11); }
VC_CONTRACT(C05_extract_deep_2) { extract(10); }

// ---------------------------------------------------------------- size, height, deletion: structural induction
static Sub* subOf(const Node* n)
{
    for (int i = 0; i < nSubs; ++i)
        if (subs[i].node == n) return &subs[i];
    vc_assert(false, "recursion goes to the children");
    return nullptr;
}
VC_STUB std::size_t c05_size(const Tree*, Node* n) { if (!n) return 0; Sub* s = subOf(n); return s ? s->size : 0; }
VC_STUB Uint32 c05_height(const Tree*, const Node* n) { if (!n) return 0; Sub* s = subOf(n); return s ? Uint32(s->height) : 0; }
static int deleted[8];
VC_STUB void c05_delete(Tree*, Node* n)
{
    if (!n) return;
    for (int i = 0; i < nSubs; ++i)
        if (subs[i].node == n) ++deleted[i];
}
static void two(Tree& t, Node* n, int left, int right)
{
    if (left) hang(n, true);
    if (right) hang(n, false);
    fit(n);
}
static void sizes(int left, int right)
{
    start();
    Tree t;
    two(t, t.root_, left, right);
    std::size_t want = 0;
    for (int i = 0; i < nSubs; ++i) want += subs[i].size;
    vc_assert(t.size() == want, "the size is the number of entries");
    vc_assert(t.isEmpty() == (nSubs == 0), "empty exactly when there is no entry");
    vc_assert(sameBox(t.bounds(), nSubs == 0 ? BoundingBox{} : nSubs == 1 ? subs[0].node->bounds : both(subs[0].node->bounds, subs[1].node->bounds)), "the overall bounds enclose the contents tightly");
    forget(t);
}
VC_CONTRACT(C05_size_empty) { sizes(0, 0); }
VC_CONTRACT(C05_size_left) { sizes(1, 0); }
VC_CONTRACT(C05_size_right) { sizes(0, 1); }
VC_CONTRACT(C05_size_both) { sizes(1, 1); }
VC_CONTRACT(C05_size_inner)
{
    start();
    Tree  t;
    Node* n = newNode(t, t.root_, true);
    two(t, n, 1, 1);
    vc_assert(t.size(n) == subs[0].size + subs[1].size, "a subtree's size is the sum of its children's");
    Node* leaf = newLeaf(t);
    vc_assert(t.size(leaf) == 1, "a leaf counts once");
    leaf->data = nullptr;
    if (vc_proof()) n->left = n->right = nullptr;
}
static void heights(int left, int right)
{
    start();
    Tree t;
    two(t, t.root_, left, right);
    std::size_t want = 0;
    for (int i = 0; i < nSubs; ++i) { vc_assume(subs[i].height < 100000); want = subs[i].height > want ? subs[i].height : want; }
    vc_assert(t.height() == want, "the height is the longest path below the root");
    forget(t);
}
VC_CONTRACT(C05_height_empty) { heights(0, 0); }
VC_CONTRACT(C05_height_left) { heights(1, 0); }
VC_CONTRACT(C05_height_both) { heights(1, 1); }
VC_CONTRACT(C05_delete_inner)
{
    // deleting a node deletes each child subtree once, its value and itself (memory safety rules out using or freeing it again)
    start();
    Tree  t;
    Node* n = t.makeNode(BoundingBox{});
    two(t, n, vc_bool(), vc_bool());
    for (int i = 0; i < 8; ++i) deleted[i] = 0;
    t.deleteNode(n);
    if (vc_proof())
    {
        int bad = 0;
        for (int i = 0; i < nSubs; ++i) bad += deleted[i] != 1;
        vc_assert(bad == 0, "each child subtree is deleted exactly once");
    }
    t.deleteNode(nullptr);
    t.deleteNode(newLeaf(t));
}

// ---------------------------------------------------------------- iteration: the in-order successor
static Node nextMark{BoundingBox{}}, firstMark{BoundingBox{}};
static Node* nextOf;
static Node* firstOf;
VC_STUB Tree::iterator* c05_next(Tree::iterator* it)
{
    nextOf   = it->node;
    it->node = &nextMark;
    return it;
}
VC_STUB void c05_goLeft(Tree::iterator* it)
{
    firstOf  = it->node;
    it->node = &firstMark;
}
static Node* firstLeaf(Node* n)
{
    while (n->data == nullptr && (n->left || n->right)) n = n->left ? n->left : n->right;
    return n;
}
static void next(bool leaf, bool left, bool sibling, bool root)
{
    start();
    nextOf = firstOf = nullptr;
    Tree  t;
    Node* up = root ? t.root_ : newNode(t, t.root_, true);
    if (!root) hang(t.root_, false);
    Node* n = leaf ? newLeaf(t) : hang(up, left);
    left ? up->left = n : up->right = n;
    n->parent = up;
    Node* s = nullptr;
    if (sibling) s = hang(up, !left);
    Tree::iterator it{n};
    if (!vc_proof())
    {
        // the whole iteration visits every leaf once, in order
        std::vector<Node*> all;
        struct R { static void go(Node* x, std::vector<Node*>& o) { if (!x) return; if (x->data) o.push_back(x); go(x->left, o); go(x->right, o); } };
        R::go(t.root_, all);
        std::size_t i = 0;
        bool same = true;
        for (auto j = t.begin(); j != t.end() && i <= all.size(); ++j, ++i) same = same && i < all.size() && j.node == all[i];
        vc_assert(same && i == all.size(), "iteration visits every entry once");
        return;
    }
    auto& ret = ++it;
    vc_assert(&ret == &it, "pre-increment returns the iterator");
    if (left && sibling)
        vc_assert((it.node == &firstMark) & (firstOf == s), "after a left child comes the first entry of its sibling");
    else if (left)
        vc_assert(it.node == up, "after the only entry comes the end");
    else
        vc_assert((it.node == &nextMark) & (nextOf == up), "after a right child comes what follows its parent");
    if (leaf) n->data = nullptr;
    if (!root) up->left = up->right = nullptr;
    forget(t);
}
VC_CONTRACT(C05_next_left_leaf) { next(true, true, true, true); }
VC_CONTRACT(C05_next_left_subtree) { next(false, true, true, true); }
VC_CONTRACT(C05_next_right_leaf) { next(true, false, true, true); }
VC_CONTRACT(C05_next_right_subtree) { next(false, false, true, true); }
VC_CONTRACT(C05_next_inner_left) { next(true, true, true, false); }
VC_CONTRACT(C05_next_inner_right) { next(true, false, true, false); }
VC_CONTRACT(C05_next_only_left) { next(true, true, false, true); }
VC_CONTRACT(C05_next_only_right) { next(true, false, false, true); }
VC_CONTRACT(C05_next_of_end)
{
    Tree t;
    Tree::iterator it = t.end();
    ++it;
    vc_assert(it == t.end(), "incrementing past the last entry stays at the end");
    if (vc_proof()) vc_assert(t.end().node == t.root_, "the end is the root");
}
// descending to the first entry.  Bounded: at most four levels
VC_CONTRACT(C05_first_entry)
{
    start();
    Tree  t;
    Node* n = t.root_;
    int depth = vc_int(1, 4);
    bool  onlyRight = vc_bool();
    Node* leaf = newLeaf(t);
    for (int d = 1; d < depth; ++d)
    {
        Node* m = newNode(t, n, !(d == 1 && onlyRight));
        if (!(d == 1 && onlyRight)) hang(n, false);
        n = m;
    }
    if (depth == 1 && onlyRight) n->setRight(leaf);
    else { n->setLeft(leaf); hang(n, false); }
    vc_assert(t.begin().node == leaf, "iteration starts at the leftmost entry");
    leaf->data = nullptr;
    if (vc_proof()) { n->left = n->right = nullptr; forget(t); }
    else leaf->data = new int(1);
}
VC_CONTRACT(C05_empty_iteration)
{
    Tree t;
    vc_assert(t.begin() == t.end(), "an empty index has nothing to iterate");
    vc_assert(t.size() == 0 && t.isEmpty() && !t.bounds().isValid(), "an empty index has no size and no bounds");
}

// ---------------------------------------------------------------- insertion: the position that is searched is a node of the tree
static Node* position;
static Node* added;
static int   adds;
VC_STUB void c05_addLeafTo(Tree*, Node* node, Node* leaf)
{
    position = node;
    added    = leaf;
    ++adds;
}
static void insertInto(int shape)
{
    start();
    adds = 0;
    position = added = nullptr;
    Tree  t;
    Node* all[8];
    int   n = 0;
    all[n++] = t.root_;
    Node* m = nullptr;
    if (shape >= 1) { Node* l = newLeaf(t); t.root_->setLeft(l); all[n++] = l; }
    if (shape == 2) { Node* l = newLeaf(t); t.root_->setRight(l); all[n++] = l; }
    if (shape == 3)
    {
        m = newNode(t, t.root_, false);
        all[n++] = m;
        Node* a = newLeaf(t); m->setLeft(a); all[n++] = a;
        Node* b = newLeaf(t); m->setRight(b); all[n++] = b;
        fit(m);
    }
    fit(t.root_);
    std::multiset<int> was;
    remember(t, was);
    BoundingBox b = anyBox();
    auto it = t.insert(b, 5);
    vc_assert((*it == 5) & sameBox(it.bounds(), b), "the new entry has the given value and box");
    if (vc_proof())
    {
        int known = 0;
        for (int i = 0; i < n; ++i) known += all[i] == position;
        vc_assert((adds == 1) & (known == 1) & (added == it.node), "the new leaf is added once, at a node of the tree");
        it.node->data = nullptr;
        for (int i = 0; i < n; ++i) { all[i]->data = nullptr; }
        for (int i = 0; i < n; ++i) { all[i]->left = all[i]->right = nullptr; }
    }
    else
    {
        was.insert(int(reinterpret_cast<std::size_t>(it.node->data) >> 3));
        verifyTree(t, nullptr, 0);
        sameLeaves(t, was);
    }
}
VC_CONTRACT(C05_insert_position_empty) { insertInto(0); }
VC_CONTRACT(C05_insert_position_one) { insertInto(1); }
VC_CONTRACT(C05_insert_position_two) { insertInto(2); }
// Bounded: the search is run on trees of up to three entries
VC_CONTRACT(C05_insert_position_three, fork_limit=100000) { insertInto(3); }

// ---------------------------------------------------------------- the public operations on small indices, real code throughout
// Bounded: up to three entries with arbitrary boxes
static void contents(Tree& t, const int* vals, const BoundingBox* boxes, int n)
{
    int i = 0, bad = 0;
    int times[4] = {0, 0, 0, 0};
    for (auto it = t.begin(); it != t.end(); ++it, ++i)
        for (int k = 0; k < n; ++k)
            if (vals[k] == *it) { ++times[k]; bad += !sameBox(it.bounds(), boxes[k]); }
    for (int k = 0; k < n; ++k) bad += times[k] != 1;
    vc_assert((i == n) & (bad == 0), "the index holds exactly the entries, each with its value and box");
    vc_assert(t.size() == std::size_t(n), "the size is the number of entries");
    vc_assert(t.isEmpty() == (n == 0), "empty exactly when there is no entry");
    BoundingBox all{};
    for (int k = 0; k < n; ++k) all = both(all, boxes[k]);
    vc_assert(sameBox(t.bounds(), all), "the overall bounds enclose the contents tightly");
}
VC_CONTRACT(C05_public_one)
{
    Tree t;
    BoundingBox b[1] = {anyBox()};
    int v[1] = {11};
    auto it = t.insert(b[0], v[0]);
    contents(t, v, b, 1);
    b[0] = anyBox();
    auto again = t.update(it, b[0]);
    vc_assert(again == it, "updating keeps the iterator");
    contents(t, v, b, 1);
    auto after = t.erase(it);
    vc_assert(after == t.end(), "erasing returns the following entry");
    contents(t, v, b, 0);
}
VC_CONTRACT(C05_public_two, fork_limit=100000)
{
    Tree t;
    BoundingBox b[2] = {anyBox(), anyBox()};
    int v[2] = {11, 12};
    auto first = t.insert(b[0], v[0]);
    auto second = t.emplace(b[1], v[1]);
    contents(t, v, b, 2);
    b[0] = anyBox();
    t.update(first, b[0]);
    contents(t, v, b, 2);
    vc_assert((*second == 12) & (*first == 11), "other iterators stay valid");
    t.erase(first);
    contents(t, v + 1, b + 1, 1);
    vc_assert(*second == 12, "other iterators stay valid");
    t.clear();
    contents(t, v, b, 0);
}
VC_CONTRACT(C05_public_move_and_swap)
{
    Tree t, u;
    BoundingBox b[2] = {anyBox(), anyBox()};
    int v[2] = {11, 12};
    t.insert(b[0], v[0]);
    auto other = u.insert(b[1], v[1]);
    std::swap(t, u);
    contents(t, v + 1, b + 1, 1);
    contents(u, v, b, 1);
    vc_assert(*other == 12, "iterators survive the swap");
    Tree w{std::move(t)};
    contents(w, v + 1, b + 1, 1);
    u = std::move(w);
    contents(u, v + 1, b + 1, 1);
    vc_assert(*other == 12, "iterators survive the move");
    u.erase(other);
    contents(u, v, b, 0);
}

// ---------------------------------------------------------------- random histories, real code, against a plain list
#include <map>
VC_BOUNDED(C05_random_histories)
{
    Tree t;
    std::map<int, std::pair<Tree::iterator, BoundingBox>> model;
    int next = 0, steps = vc_int(1, 60);
    for (int s = 0; s < steps; ++s)
    {
        int op = vc_int(0, 9);
        if (op < 5 || model.empty())
        {
            BoundingBox b = anyBox();
            model[next] = {t.insert(b, next), b};
            ++next;
        }
        else
        {
            auto m = model.begin();
            std::advance(m, vc_int(0, int(model.size()) - 1));
            if (op < 7)
            {
                BoundingBox b = anyBox();
                t.update(m->second.first, b);
                m->second.second = b;
            }
            else if (op < 9)
            {
                auto next = m->second.first;
                ++next;
                auto got = t.erase(m->second.first);
                vc_assert(got == next, "erasing returns the following entry");
                model.erase(m);
            }
            else if (vc_int(0, 4) == 0) { t.clear(); model.clear(); }
            else { Tree u{std::move(t)}; std::swap(t, u); }
        }
        std::set<int> met;
        bool ok = true;
        for (auto it = t.begin(); it != t.end(); ++it)
        {
            ok = ok && met.insert(*it).second && model.count(*it) && sameBox(model[*it].second, it.bounds());
            if (met.size() > model.size()) break;
        }
        vc_assert(ok && met.size() == model.size(), "the index holds exactly the entries, each with its value and box");
        vc_assert(t.size() == model.size() && t.isEmpty() == model.empty(), "size and emptiness agree with the contents");
        BoundingBox all{};
        for (auto& m : model) { all = both(all, m.second.second); vc_assert(*m.second.first == m.first, "iterators stay valid"); }
        vc_assert(sameBox(t.bounds(), all), "the overall bounds enclose the contents tightly");
        verifyTree(t, nullptr, 0);
    }
}
