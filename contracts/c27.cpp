#include "vc.h"
#include "Simu/utility/Memory.hpp"
// vc:replace C27_.* "^std::align\(" with c27_align
// vc:assumes C27_.* std::align gives the first aligned address at which the size fits in the space, if any
// vc:assumes C27_.* the number of bytes asked for is representable (n * sizeof(T) <= SIZE_MAX, which containers ensure)
using namespace simu;

static unsigned char* base;
static long any(long lo, long hi) { return long(vc_size(std::size_t(lo), std::size_t(hi))); } // proof: any number >= lo
static long address(const void* p) { return long(reinterpret_cast<std::uintptr_t>(p)); }
// the first multiple of `a` from `x` on
static long firstMultiple(long x, long a)
{
    if (!vc_proof()) return (x + a - 1) / a * a;
    long k = any(0, 0);
    vc_assume(bool((x <= a * k) & (a * k < x + a)));
    return a * k;
}
VC_STUB void* c27_align(std::size_t al, std::size_t size, void** p, std::size_t* space)
{
    if (*space < size) return nullptr;
    std::size_t d = std::size_t(firstMultiple(address(*p), long(al)) - address(*p));
    if (d > *space - size) return nullptr;
    *space -= d;
    *p = static_cast<unsigned char*>(*p) + d;
    return *p;
}
// a free list in any state: k disjoint ranges in order, not adjacent
struct Store
{
    static constexpr int most = 4;
    long size;
    Block b;
    int k;
    long from[most], to[most];
    explicit Store(int ranges) : size{any(1, 200)}, b{std::size_t(size)}, k{ranges}
    {
        base = b.data_;
        b.freeList_.clear();
        long last = -1;
        for (int i = 0; i < k; ++i)
        {
            from[i] = any(vc_proof() ? 0 : last + 1, last + 1 + 40);
            to[i]   = any(vc_proof() ? 1 : from[i] + 1, from[i] + 60);
            vc_assume(bool((last < from[i]) & (from[i] < to[i]) & (to[i] <= size)));
            last = to[i];
            b.freeList_.emplace_back(base + from[i], base + to[i]);
        }
    }
    bool isFree(long x) const
    {
        bool in = false;
        for (int i = 0; i < k; ++i) in = in | ((from[i] <= x) & (x < to[i]));
        return in;
    }
    bool listed(long x)
    {
        bool in = false;
        for (auto& f : b.freeList_) in = in | ((f.start - base <= x) & (x < f.end - base));
        return in;
    }
    void ordered(bool merged)
    {
        long last = -1;
        bool good = true;
        for (auto& f : b.freeList_)
        {
            long s = f.start - base, e = f.end - base;
            good = good & (merged ? last < s : last <= s) & (s < e) & (e <= size);
            last = e;
        }
        vc_assert(good, "the free ranges stay in order, disjoint and inside the block");
    }
};
template <long bytes, long align>
struct alignas(align) Thing
{
    unsigned char x[bytes];
};
template <class T>
static void allocate(int ranges)
{
    Store s{ranges};
    long n = any(1, 40);
    T* p = s.b.allocate<T>(std::size_t(n));
    long x = any(0, 220), bytes = n * long(sizeof(T)); // x: any byte of the block
    if (p)
    {
        long at = reinterpret_cast<unsigned char*>(p) - base;
        vc_assert((0 <= at) & (at + bytes <= s.size), "what is allocated lies inside the block and is as large as asked for");
        vc_assert(address(p) % long(alignof(T)) == 0, "what is allocated is aligned");
        bool mine = bool((at <= x) & (x < at + bytes));
        vc_assert(!mine | s.isFree(x), "only free memory is allocated");
        vc_assert(s.listed(x) == (s.isFree(x) & !mine), "exactly the allocated bytes stop being free");
    }
    else
    {
        vc_assert(s.listed(x) == s.isFree(x), "a refusal changes nothing");
        // refused only if no free range can hold it
        for (int i = 0; i < s.k; ++i)
        {
            vc_assert(firstMultiple(address(base) + s.from[i], long(alignof(T))) + bytes > address(base) + s.to[i], "a block refuses only what does not fit");
        }
    }
    s.ordered(false);
}
template <class T>
static void release(int ranges)
{
    Store s{ranges};
    // a live allocation: a range that does not meet a free one
    long at = any(0, 150), n = any(1, 20), bytes = n * long(sizeof(T));
    vc_assume(bool(at + bytes <= s.size));
    for (int i = 0; i < s.k; ++i) vc_assume(bool((at + bytes <= s.from[i]) | (s.to[i] <= at)));
    bool owned = s.b.deallocate(reinterpret_cast<T*>(base + at), std::size_t(n));
    vc_assert(owned, "a block takes back its own memory");
    long x = any(0, 220);
    vc_assert(s.listed(x) == (s.isFree(x) | bool((at <= x) & (x < at + bytes))), "exactly the released bytes become free");
    s.ordered(true);
    bool whole = s.k == 0 ? at == 0 && bytes == s.size : true;
    if (s.k == 0) vc_assert(s.b.isEmpty() == whole, "a block is empty exactly when all of it is free");
}
VC_CONTRACT(C27_allocate_none) { allocate<double>(0); }
VC_CONTRACT(C27_allocate_byte_1) { allocate<Thing<1, 1>>(1); }
VC_CONTRACT(C27_allocate_byte_3) { allocate<Thing<3, 1>>(3); }
VC_CONTRACT(C27_allocate_half_2) { allocate<Thing<6, 2>>(2); }
VC_CONTRACT(C27_allocate_word_2) { allocate<Thing<12, 4>>(2); }
VC_CONTRACT(C27_allocate_double_1) { allocate<double>(1); }
VC_CONTRACT(C27_allocate_double_2) { allocate<double>(2); }
VC_CONTRACT(C27_allocate_double_3) { allocate<double>(3); }
VC_CONTRACT(C27_allocate_line_2) { allocate<Thing<64, 64>>(2); }
VC_CONTRACT(C27_release_0) { release<double>(0); }
VC_CONTRACT(C27_release_1) { release<double>(1); }
VC_CONTRACT(C27_release_2) { release<Thing<3, 1>>(2); }
VC_CONTRACT(C27_release_3) { release<Thing<12, 4>>(3); }
VC_CONTRACT(C27_other_block)
{
    Block b1{std::size_t(any(1, 200))}, b2{std::size_t(any(8, 200))};
    long at = any(0, 100), n = any(1, 20);
    vc_assume(bool(at + 8 * n <= long(b2.sz)));
    vc_assert(!b1.deallocate(reinterpret_cast<double*>(b2.data_ + at), std::size_t(n)), "a block refuses memory that is not its own");
    vc_assert(b1.isEmpty(), "a block refuses memory that is not its own");
}
// ---- several blocks
// an allocator with blocks in any state
template <class T>
struct Several
{
    FreeListAllocator<T, 64> a;
    int k;
    long from[3], to[3], size[3]; // one free range per block, none if from == to
    unsigned char* data[3];
    Block* at[3];
    explicit Several(int blocks) : k{blocks}
    {
        for (int i = 0; i < k; ++i)
        {
            size[i] = any(1, 200);
            Block& b = a.blocks_->emplace_back(std::size_t(size[i]));
            at[i]    = &b;
            data[i]  = b.data_;
            from[i]  = any(0, size[i] - 1);
            to[i]    = any(vc_proof() ? 0 : from[i], size[i]);
            vc_assume(bool((from[i] <= to[i]) & (to[i] <= size[i])));
            b.freeList_.clear();
            if (from[i] < to[i]) b.freeList_.emplace_back(data[i] + from[i], data[i] + to[i]);
        }
    }
    bool free(int i, long x) const { return (from[i] <= x) & (x < to[i]); }
    static bool listed(const Block& b, long x)
    {
        bool in = false;
        for (auto& f : b.freeList_) in = in | ((f.start - b.data_ <= x) & (x < f.end - b.data_));
        return in;
    }
    int blocks() const
    {
        int n = 0;
        for (auto& b : *a.blocks_) n += b.sz != 0;
        return n;
    }
};
template <class T>
static void obtain(int blocks)
{
    Several<T> s{blocks};
    long n = any(1, 30), x = any(0, 220), bytes = n * long(sizeof(T));
    T* p = s.a.allocate(std::size_t(n));
    vc_assert(p != nullptr, "memory is obtained");
    vc_assert(address(p) % long(alignof(T)) == 0, "what is allocated is aligned");
    int owners = 0, i = 0;
    for (Block& b : *s.a.blocks_)
    {
        unsigned char* q = reinterpret_cast<unsigned char*>(p);
        bool here = (b.data_ <= q) & (q < b.data_ + b.sz);
        long at = address(p) - address(b.data_);
        vc_assert(!here | bool(at + bytes <= long(b.sz)), "what is allocated lies inside one block and is as large as asked for");
        owners += here;
        bool was = i < s.k ? s.free(i, x) : bool((x >= 0) & (x < long(b.sz)));
        bool mine = here & bool((at <= x) & (x < at + bytes));
        vc_assert(!mine | was, "only free memory is allocated");
        vc_assert(Several<T>::listed(b, x) == (was & !mine), "exactly the allocated bytes stop being free, in their block only");
        ++i;
    }
    vc_assert(owners == 1, "what is allocated lies inside one block and is as large as asked for");
    vc_assert(bool(i == s.k) | bool(i == s.k + 1), "at most one block is added");
}
template <class T>
static void giveBack(int blocks, int which)
{
    Several<T> s{blocks};
    long at = any(0, 150), n = any(1, 20), bytes = n * long(sizeof(T)), x = any(0, 220);
    vc_assume(bool(at + bytes <= s.size[which]));
    vc_assume(bool((at + bytes <= s.from[which]) | (s.to[which] <= at) | (s.from[which] == s.to[which])));
    s.a.deallocate(reinterpret_cast<T*>(s.data[which] + at), std::size_t(n));
    bool all = s.from[which] == s.to[which] ? (at == 0) & (bytes == s.size[which])
                                            : ((at == 0) & (bytes == s.from[which]) & (s.to[which] == s.size[which])) | ((s.from[which] == 0) & (s.to[which] == at) & (at + bytes == s.size[which]));
    int left = 0;
    bool kept = false;
    for (Block& b : *s.a.blocks_)
    {
        ++left;
        for (int i = 0; i < s.k; ++i)
            if (&b == s.at[i])
            {
                bool mine = i == which && bool((at <= x) & (x < at + bytes));
                kept = kept || i == which;
                vc_assert(Several<T>::listed(b, x) == (s.free(i, x) | mine), "exactly the released bytes become free, in their block only");
            }
    }
    vc_assert(kept == !all, "a block is given back exactly when all of it is free");
    vc_assert(left == s.k - int(all), "other blocks stay");
}
VC_CONTRACT(C27_obtain_0) { obtain<double>(0); }
VC_CONTRACT(C27_obtain_1) { obtain<double>(1); }
VC_CONTRACT(C27_obtain_2) { obtain<double>(2); }
VC_CONTRACT(C27_obtain_line_0) { obtain<Thing<64, 64>>(0); }
VC_CONTRACT(C27_obtain_line_1) { obtain<Thing<64, 64>>(1); }
VC_CONTRACT(C27_obtain_word_1) { obtain<Thing<12, 4>>(1); }
VC_CONTRACT(C27_give_back_word) { giveBack<Thing<12, 4>>(2, 1); }
VC_CONTRACT(C27_give_back_1) { giveBack<double>(1, 0); }
VC_CONTRACT(C27_give_back_first) { giveBack<double>(2, 0); }
VC_CONTRACT(C27_give_back_second) { giveBack<double>(2, 1); }
VC_CONTRACT(C27_shared)
{
    typedef FreeListAllocator<double, 64> Alloc;
    Alloc a, b;
    FreeListAllocator<float, 64> c{a};
    Alloc d{a}, e;
    e = a;
    vc_assert(a == c && a == d && a == e && !(a != d), "copies and rebound copies share their memory");
    vc_assert(a != b && !(c == b), "separate allocators do not");
    vc_assert(a.allocate(0) == nullptr, "nothing is allocated for no elements");
    double* p = d.allocate(std::size_t(any(1, 30)));
    vc_assert(p != nullptr && a.blocks_->size() == 1 && b.blocks_->size() == 0, "copies and rebound copies share their memory");
}
// many allocations and releases: ghost list of live ranges
VC_BOUNDED(C27_random_histories)
{
    FreeListAllocator<std::uint64_t, 256> a;
    FreeListAllocator<Thing<3, 1>, 256> b{a};
    FreeListAllocator<Thing<32, 32>, 256> c{a};
    struct Live
    {
        int type;
        unsigned char* p;
        std::size_t n, bytes;
        unsigned char mark;
    };
    std::vector<Live> live;
    int steps = vc_int(1, 60);
    for (int s = 0; s < steps; ++s)
    {
        if (live.empty() || vc_int(0, 99) < 55)
        {
            Live l;
            l.type = vc_int(0, 2);
            l.n    = vc_size(1, 12);
            l.p    = reinterpret_cast<unsigned char*>(l.type == 0 ? (void*)a.allocate(l.n) : l.type == 1 ? (void*)b.allocate(l.n) : (void*)c.allocate(l.n));
            l.bytes = l.n * (l.type == 0 ? 8 : l.type == 1 ? 3 : 32);
            l.mark  = static_cast<unsigned char>(s + 1);
            vc_assert(l.p != nullptr, "memory is obtained");
            vc_assert(address(l.p) % (l.type == 0 ? 8 : l.type == 1 ? 1 : 32) == 0, "what is allocated is aligned");
            for (const Live& o : live) vc_assert(l.p + l.bytes <= o.p || o.p + o.bytes <= l.p, "live allocations do not overlap");
            live.push_back(l);
        }
        else
        {
            std::size_t i = vc_size(0, live.size() - 1);
            Live l        = live[i];
            live.erase(live.begin() + long(i));
            if (l.type == 0) a.deallocate(reinterpret_cast<std::uint64_t*>(l.p), l.n);
            else if (l.type == 1) b.deallocate(reinterpret_cast<Thing<3, 1>*>(l.p), l.n);
            else c.deallocate(reinterpret_cast<Thing<32, 32>*>(l.p), l.n);
        }
        std::size_t used = 0, freed = 0, total = 0;
        for (const Live& l : live)
        {
            used += l.bytes;
            bool inside = false;
            for (Block& x : *a.blocks_) inside = inside || (l.p >= x.data_ && l.p + l.bytes <= x.data_ + x.sz);
            vc_assert(inside, "a live allocation lies inside a block");
        }
        for (Block& x : *a.blocks_)
        {
            total += x.sz;
            for (auto& f : x.freeList_) freed += f.size();
            vc_assert(!x.isEmpty(), "a block that is all free is given back");
        }
        vc_assert(used + freed == total, "released memory is free again, live memory is not");
    }
}
