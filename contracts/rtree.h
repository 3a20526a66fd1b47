// Shared by the spatial index contracts: abstract subtrees, a followed (ghost) entry and the node invariants.
// In the proof a subtree that a function must not look into is one node whose children are never initialised (reading them
// makes the path undecided); natively it is a real random tree.
#pragma once
#include "vc.h"
#include "Simu/physics/RTree.hpp"
#include <map>
#include <set>
#include <vector>

typedef simu::RTree<int> Tree;
typedef Tree::Node Node;
using simu::BoundingBox;
using simu::Vec2;

static inline bool validBox(const BoundingBox& b) { return bool((b.min_[0] <= b.max_[0]) & (b.min_[1] <= b.max_[1])); }
static inline bool inBox(const BoundingBox& in, const BoundingBox& out)
{
    return bool((in.min_[0] >= out.min_[0]) & (in.min_[1] >= out.min_[1]) & (in.max_[0] <= out.max_[0]) & (in.max_[1] <= out.max_[1]));
}
static inline bool sameBox(const BoundingBox& a, const BoundingBox& b)
{
    return bool((a.min_[0] == b.min_[0]) & (a.min_[1] == b.min_[1]) & (a.max_[0] == b.max_[0]) & (a.max_[1] == b.max_[1]))
           | bool((!validBox(a)) & (!validBox(b)));
}
static inline bool overlap(const BoundingBox& a, const BoundingBox& b)
{
    return bool(validBox(a) & validBox(b) & (a.min_[0] <= b.max_[0]) & (a.min_[1] <= b.max_[1]) & (b.min_[0] <= a.max_[0]) & (b.min_[1] <= a.max_[1]));
}
static inline float lo(float a, float b) { return b < a ? b : a; }
static inline float hi(float a, float b) { return a < b ? b : a; }
// the least box enclosing both (C02), written without branches
static inline BoundingBox both(const BoundingBox& a, const BoundingBox& b)
{
    bool va = validBox(a), vb = validBox(b);
    float x0 = lo(a.min_[0], b.min_[0]), y0 = lo(a.min_[1], b.min_[1]), x1 = hi(a.max_[0], b.max_[0]), y1 = hi(a.max_[1], b.max_[1]);
    x0 = va ? (vb ? x0 : a.min_[0]) : b.min_[0];
    y0 = va ? (vb ? y0 : a.min_[1]) : b.min_[1];
    x1 = va ? (vb ? x1 : a.max_[0]) : b.max_[0];
    y1 = va ? (vb ? y1 : a.max_[1]) : b.max_[1];
    return BoundingBox{Vec2{x0, y0}, Vec2{x1, y1}};
}
static inline float coord() { return vc_num(-6.f, 6.f); }
// any box; small coordinates natively so that overlaps, touching and nesting are common
static inline BoundingBox anyBox()
{
    float x0 = coord(), y0 = coord(), x1 = coord(), y1 = coord();
    if (!vc_proof())
    {
        x0 = std::floor(x0); y0 = std::floor(y0); x1 = std::floor(x1); y1 = std::floor(y1);
        if (x1 < x0 && x1 > -5.f) { float t = x0; x0 = x1; x1 = t; }
        if (y1 < y0 && y1 > -5.f) { float t = y0; y0 = y1; y1 = t; }
    }
    return BoundingBox{Vec2{x0, y0}, Vec2{x1, y1}};
}

// raw storage for a node: only the fields that are set here exist
static inline Node* rawNode() { return static_cast<Node*>(::operator new(sizeof(Node))); }
static int rt_value[64];

struct Sub
{
    Node*       node  = nullptr;
    Node*       ghost = nullptr; // the followed leaf when it is in this subtree
    bool        leaf  = false;
    std::size_t size  = 0, height = 0;
};

// natively: a real subtree with real bounds; `ghost` asks for a random leaf to be followed
static inline Node* realSubtree(int depth, std::vector<Node*>& leaves)
{
    if (depth == 0 || vc_int(0, 3) == 0)
    {
        Node* n = new Node{anyBox(), new int(int(leaves.size()))};
        leaves.push_back(n);
        return n;
    }
    Node* l = realSubtree(depth - 1, leaves);
    Node* r = realSubtree(depth - 1, leaves);
    Node* n = new Node{l->bounds.combined(r->bounds)};
    n->setLeft(l);
    n->setRight(r);
    return n;
}
static inline std::size_t realHeight(Node* n) { return n ? 1 + std::max(realHeight(n->left), realHeight(n->right)) : 0; }

// an arbitrary well-formed subtree whose root has the given parent pointer; when asked it holds the followed leaf
static inline Sub anySub(bool ghost, Node* parent, int depth = 3)
{
    Sub s;
    if (!vc_proof())
    {
        std::vector<Node*> leaves;
        s.node = realSubtree(depth, leaves);
        s.leaf = s.node->isLeaf();
        if (ghost) s.ghost = leaves[vc_int(0, int(leaves.size()) - 1)];
        s.size   = leaves.size();
        s.height = realHeight(s.node);
    }
    else
    {
        s.node   = rawNode();
        s.leaf   = vc_bool();
        BoundingBox b = anyBox();
        s.node->bounds = b;
        if (s.leaf)
        {
            s.node->left = s.node->right = nullptr;
            s.node->data = &rt_value[0];
            s.size = s.height = 1;
            if (ghost) s.ghost = s.node;
        }
        else
        {
            s.node->data = nullptr;
            s.size   = vc_size(2, 1000);
            s.height = vc_size(2, 1000);
            if (ghost)
            {
                // somewhere below: the bounds of every node enclose those of the leaves below it
                s.ghost = rawNode();
                BoundingBox g = anyBox();
                s.ghost->bounds = g;
                s.ghost->data = &rt_value[0];
                vc_assume((!validBox(g)) | bool(validBox(b) & inBox(g, b)));
            }
        }
    }
    s.node->parent = parent;
    return s;
}

// a subtree of which only the root's bounds and parent exist: whether it is a leaf is not even known
static inline Sub opaqueSub(Node* parent, int depth = 2)
{
    if (!vc_proof()) return anySub(false, parent, depth);
    Sub s;
    s.node = rawNode();
    BoundingBox b = anyBox();
    s.node->bounds = b;
    s.node->parent = parent;
    return s;
}
