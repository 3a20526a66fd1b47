// The views as built where the standard ones are missing (View.inl.hpp): the same contracts on the same sources with
// SIMU_HAS_STD_VIEW == 0, which the header derives from the compiler's version.
#include "vc.h"
#include <vector>
#include <list>
#include <ranges>
#include <iterator>
#include <functional>
#include <concepts>
#include <string>
#include <stdexcept>
#undef __clang_major__
#define __clang_major__ 15
#include "Simu/utility/View.hpp"
static_assert(SIMU_HAS_STD_VIEW == 0, "");
using namespace simu;
struct Vec2 { float x, y; };
// ---- views
VC_CONTRACT(C28_fallback_view_of_a_range)
{
    std::size_t n = vc_size(0, 12);
    Vec2* v = reinterpret_cast<Vec2*>(vc_floats(n, 2));
    auto w = makeView(v, v + n);
    vc_assert(w.begin() == v, "begins where the range begins");
    vc_assert(w.end() == v + n, "ends where the range ends");
    vc_assert(w.empty() == (n == 0), "empty exactly when the range is");
    vc_assert((std::size_t)w.size() == n, "as long as the range");
}
VC_CONTRACT(C28_fallback_view_iterates_the_range)
{
    std::size_t n = vc_size(0, 12);
    Vec2* v = reinterpret_cast<Vec2*>(vc_floats(n, 2));
    std::size_t i = 0;
    for (Vec2& x : makeView(v, v + n))
    {
        vc_assert(i < n, "no element beyond the last");
        vc_assert(&x == v + i, "the elements themselves, in order");
        ++i;
    }
    vc_assert(i == n, "every element");
}

// redirected views: element i is what deref makes of element i of the range
template <class V, class T> static void sameElements(V&& view, T* const* p, std::size_t n)
{
    std::size_t i = 0;
    for (const T& x : view)
    {
        vc_assert(i < n, "no element beyond the last");
        vc_assert(&x == p[i], "the i-th element is the one the i-th pointer leads to");
        ++i;
    }
    vc_assert(i == n, "every element");
    vc_assert(view.empty() == (n == 0), "empty exactly when the range is");
    vc_assert((std::size_t)view.size() == n, "as long as the range");
}
template <std::size_t n> static void redirected()
{
    int x[4] = {vc_int(-9, 9), vc_int(-9, 9), vc_int(-9, 9), vc_int(-9, 9)};
    int* p[n + 1];
    for (std::size_t i = 0; i < n; ++i) p[i] = vc_bool() ? x + i : x + 3 - i;
    sameElements(makeView(p, p + n, DoubleDereference{}), p, n);
    sameElements(makeView(p, p + n, [](int* q) -> int& { return *q; }), p, n);
    const std::vector<int*> w{p, p + n};
    sameElements(makeView(w, DoubleDereference{}), p, n);
    std::list<int*> l{p, p + n};
    std::size_t i = 0;
    for (int*& q : makeView(l))
    {
        vc_assert(q == p[i], "the elements of the container, in order");
        ++i;
    }
    vc_assert(i == n, "every element of the container");
}
VC_CONTRACT(C28_fallback_redirected_view_0) { redirected<0>(); }
VC_CONTRACT(C28_fallback_redirected_view_1) { redirected<1>(); }
VC_CONTRACT(C28_fallback_redirected_view_3) { redirected<3>(); }
VC_CONTRACT(C28_fallback_double_dereference)
{
    int x = vc_int(-9, 9);
    int* p = &x;
    int* const q = &x;
    DoubleDereference d;
    vc_assert(&d(p) == &x, "what the pointer leads to");
    vc_assert(&d(q) == &x, "what the pointer leads to");
}


VC_CONTRACT(C28_fallback_iterator)
{
    int x[2] = {vc_int(-9, 9), vc_int(-9, 9)};
    int* p[2] = {x, x + 1};
    auto v = makeView(p, p + 2, DoubleDereference{});
    auto i = v.begin();
    auto old = i++;
    vc_assert(old == v.begin(), "stepping returns the place it left");
    vc_assert((i != v.begin()) & (&*i == x + 1) & (i.operator->() == x + 1), "and reaches the following element");
    auto j = v.begin();
    vc_assert(++j == i, "both ways of stepping agree");
    vc_assert(++j == v.end(), "until the end");
}
