#include "vc.h"
#include "Simu/math.hpp"
#include "Simu/utility/Algo.hpp"
#include "Simu/utility/View.hpp"
#include <vector>
#include <list>
#include <string>
#include <stdexcept>
using namespace simu;

// ---- clamp
VC_CONTRACT(C28_clamp, fp)
{
    float x = vc_any(), lo = vc_any(), hi = vc_any(), y = vc_any();
    if (!vc_proof() && vc_bool()) x = vc_bool() ? lo : hi;
    vc_assume(lo <= hi);
    float c = clamp(x, lo, hi);
    vc_assert((lo <= c) & (c <= hi), "inside the range");
    vc_assert(!((lo <= x) & (x <= hi)) | (c == x), "a value in the range is kept");
    vc_assert(!(x < lo) | (c == lo), "below the range: the lower end");
    vc_assert(!(x > hi) | (c == hi), "above the range: the upper end");
}
VC_CONTRACT(C28_clamp_integers)
{
    int x = vc_int(-1000, 1000), lo = vc_int(-1000, 1000), hi = vc_int(-1000, 1000);
    vc_assume(lo <= hi);
    int c = clamp(x, lo, hi);
    vc_assert(c == (x < lo ? lo : x > hi ? hi : x), "the nearest value of the range");
}

// ---- boolean partition.
// A sequence of any length of which one arbitrary element is followed: the elements are moved around by std::swap only
// through their move operations, which keep track of where the followed one is.  The predicate is arbitrary on the others.
struct Followed
{
    std::size_t at = 0;
    bool        inTemporary = false;
    bool        left = false;
    std::size_t n = 0;
    static constexpr std::size_t nowhere = ~std::size_t(0);
};
static Followed* F;
struct Slot
{
    std::size_t i = 0;
    bool temporary = false;
    Slot() = default;
    explicit Slot(std::size_t k) : i{k} {}
    Slot(const Slot& o) : temporary{true} { F->inTemporary = o.i == F->at; }
    Slot& operator=(const Slot& o)
    {
        bool mine = o.temporary ? F->inTemporary : o.i == F->at;
        vc_assert(i < F->n, "writes stay inside the sequence");
        F->at = mine ? i : i == F->at ? Followed::nowhere : F->at;
        return *this;
    }
};
struct SlotIt
{
    typedef std::ptrdiff_t difference_type;
    typedef Slot value_type;
    typedef Slot* pointer;
    typedef Slot& reference;
    typedef std::bidirectional_iterator_tag iterator_category;
    mutable Slot s;
    SlotIt() = default;
    explicit SlotIt(std::size_t k) : s{k} {}
    SlotIt(const SlotIt& o) : s{o.s.i} {}
    SlotIt& operator=(const SlotIt& o) { s.i = o.s.i; return *this; }
    Slot& operator*() const { return s; }
    SlotIt& operator++() { ++s.i; return *this; }
    SlotIt operator++(int) { SlotIt c{*this}; ++s.i; return c; }
    SlotIt& operator--() { --s.i; return *this; }
    SlotIt operator--(int) { SlotIt c{*this}; --s.i; return c; }
    bool operator==(const SlotIt& o) const { return s.i == o.s.i; }
    bool operator!=(const SlotIt& o) const { return s.i != o.s.i; }
};
template <bool left> static void partitionAny()
{
    std::size_t n = vc_size(1, 12), k = vc_size(0, 11);
    vc_assume(k < n);
    Followed f;
    f.at = k;
    f.n = n;
    F = &f;
    SlotIt r = booleanSort(SlotIt{0}, SlotIt{n}, [&](const SlotIt& it) {
        vc_assert(it.s.i < n, "the predicate is asked about elements only");
        return it.s.i == f.at ? left : vc_bool();
    });
    vc_assert(f.at < n, "no element is lost");
    vc_assert(r.s.i <= n, "the boundary lies in the sequence");
    vc_assert((f.at < r.s.i) == left, "an element ends up left of the boundary exactly if it satisfies the predicate");
}
VC_CONTRACT(C28_partition_keeps_and_places_elements_that_go_left) { partitionAny<true>(); }
VC_CONTRACT(C28_partition_keeps_and_places_elements_that_go_right) { partitionAny<false>(); }
VC_CONTRACT(C28_partition_of_nothing)
{
    SlotIt r = booleanSort(SlotIt{5}, SlotIt{5}, [&](const SlotIt&) { vc_assert(false, "nothing to ask about"); return true; });
    vc_assert(r.s.i == 5, "the boundary of an empty range");
}
// ordinary arrays
template <int n> static void partitionArray()
{
    int a[n], b[n];
    for (int i = 0; i < n; ++i) a[i] = b[i] = vc_int(-3, 3);
    int pivot = vc_int(-3, 3), q = vc_int(-3, 3);
    int* r = booleanSort(a, a + n, [&](int* p) { return *p < pivot; });
    int before = 0, after = 0;
    for (int i = 0; i < n; ++i)
    {
        before += b[i] == q;
        after += a[i] == q;
        vc_assert((a + i < r) == (a[i] < pivot), "exactly the elements that satisfy the predicate lie left of the boundary");
    }
    vc_assert(before == after, "every value occurs as often as before");
}
VC_CONTRACT(C28_partition_array_1) { partitionArray<1>(); }
VC_CONTRACT(C28_partition_array_2) { partitionArray<2>(); }
VC_CONTRACT(C28_partition_array_3) { partitionArray<3>(); }
VC_CONTRACT(C28_partition_array_4) { partitionArray<4>(); }

// ---- views
VC_CONTRACT(C28_view_of_a_range)
{
    std::size_t n = vc_size(0, 12);
    Vec2* v = reinterpret_cast<Vec2*>(vc_floats(n, 2));
    auto w = makeView(v, v + n);
    vc_assert(w.begin() == v, "begins where the range begins");
    vc_assert(w.end() == v + n, "ends where the range ends");
    vc_assert(w.empty() == (n == 0), "empty exactly when the range is");
    vc_assert((std::size_t)w.size() == n, "as long as the range");
}
VC_CONTRACT(C28_view_iterates_the_range)
{
    std::size_t n = vc_size(0, 12);
    Vec2* v = reinterpret_cast<Vec2*>(vc_floats(n, 2));
    std::size_t i = 0;
    for (Vec2& x : makeView(v, v + n))
    {
        vc_assert(i < n, "no element beyond the last");
        vc_assert(&x == v + i, "the elements themselves, in order");
        ++i;
    }
    vc_assert(i == n, "every element");
}

// redirected views: element i is what deref makes of element i of the range
template <class V, class T> static void sameElements(V&& view, T* const* p, std::size_t n)
{
    std::size_t i = 0;
    for (const T& x : view)
    {
        vc_assert(i < n, "no element beyond the last");
        vc_assert(&x == p[i], "the i-th element is the one the i-th pointer leads to");
        ++i;
    }
    vc_assert(i == n, "every element");
    vc_assert(view.empty() == (n == 0), "empty exactly when the range is");
    vc_assert((std::size_t)view.size() == n, "as long as the range");
}
template <std::size_t n> static void redirected()
{
    int x[4] = {vc_int(-9, 9), vc_int(-9, 9), vc_int(-9, 9), vc_int(-9, 9)};
    int* p[n + 1];
    for (std::size_t i = 0; i < n; ++i) p[i] = vc_bool() ? x + i : x + 3 - i;
    sameElements(makeView(p, p + n, DoubleDereference{}), p, n);
    sameElements(makeView(p, p + n, [](int* q) -> int& { return *q; }), p, n);
    const std::vector<int*> w{p, p + n};
    sameElements(makeView(w, DoubleDereference{}), p, n);
    std::list<int*> l{p, p + n};
    std::size_t i = 0;
    for (int*& q : makeView(l))
    {
        vc_assert(q == p[i], "the elements of the container, in order");
        ++i;
    }
    vc_assert(i == n, "every element of the container");
}
VC_CONTRACT(C28_redirected_view_0) { redirected<0>(); }
VC_CONTRACT(C28_redirected_view_1) { redirected<1>(); }
VC_CONTRACT(C28_redirected_view_3) { redirected<3>(); }
VC_CONTRACT(C28_double_dereference)
{
    int x = vc_int(-9, 9);
    int* p = &x;
    int* const q = &x;
    DoubleDereference d;
    vc_assert(&d(p) == &x, "what the pointer leads to");
    vc_assert(&d(q) == &x, "what the pointer leads to");
}

// ---- callables: decided by the compiler; a wrong answer makes the contract unreachable code false
struct Add { int operator()(int, float) const { return 0; } };
struct Base {};
struct Derived : Base {};
VC_CONTRACT(C28_callable_concepts)
{
    constexpr bool ok = Callable<Add, int(int, float)> && Callable<Add, float(int, int)> && Callable<Add, void(int, float)> && !Callable<Add, int(int)> && !Callable<Add, int()>
        && !Callable<Add, int(int, float, int)> && !Callable<Add, std::string(int, float)> && !Callable<int, int()>
        && StrictCallable<Add, int(int, float)> && !StrictCallable<Add, long(int, float)> && !StrictCallable<Add, void(int, float)> && StrictCallable<Add, int(char, double)>
        && Callable<Derived* (*)(int), Base*(int)> && !StrictCallable<Derived* (*)(int), Base*(int)> && !Callable<Base* (*)(int), Derived*(int)>
        && Callable<int (*)(int&), int(int&)> && !Callable<int (*)(int&), int(int)>;
    vc_assert(ok, "Callable and StrictCallable accept exactly what can be called with the signature");
}
