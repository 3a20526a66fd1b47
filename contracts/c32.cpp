#include "vc.h"
#include "Simu/config.hpp"
#include "Simu/physics/Profiler.hpp"
// vc:flags -DSIMU_PROFILE
using namespace simu;
typedef TimeEntry::Seconds Seconds;

// a history of n >= 0 durations with sum S, maximum M and last value L
struct Hist { Int64 n; double S, M, L; };
static TimeEntry anyEntry(Hist& h)
{
    TimeEntry e;
    Int64 n = (Int64)vc_size(0, 1000000);
    h.n = n;
    if (n == 0) { h.S = h.M = h.L = 0.; return e; }
    h.S = vc_num(0.f, 1000.f);
    h.M = vc_num(0.f, 10.f);
    h.L = vc_num(0.f, 10.f);
    vc_assume(h.M >= 0. && h.L >= 0. && h.L <= h.M);
    e.nMeasures_ = n;
    e.average_ = Seconds{h.S / (double)h.n};
    e.max_ = Seconds{h.M};
    e.last_ = Seconds{h.L};
    return e;
}
static void matches(const TimeEntry& e, const Hist& h, const char* name)
{
    vc_assert_at(e.nMeasures() == h.n, name);
    vc_eqs((float)(e.average() * (double)h.n), (float)h.S, 10000, name);
    vc_assert_at(e.max() == h.M && e.last() == h.L, name);
}
static void record(Hist& h, double x)
{
    h.n += 1;
    h.S += x;
    if (x > h.M) h.M = x;
    h.L = x;
}

VC_CONTRACT(C32_initial)
{
    TimeEntry e;
    matches(e, Hist{0, 0., 0., 0.}, "an entry starts empty");
    Profiler p;
    matches(p.solveVelocities, Hist{0, 0., 0., 0.}, "a profiler starts empty");
}
// every history: one step from any history (induction on the number of records)
VC_CONTRACT(C32_record)
{
    Hist h;
    TimeEntry e = anyEntry(h);
    double x = vc_num(0.f, 20.f);
    vc_assume(x >= 0.);
    e.addMeasure(Seconds{x});
    record(h, x);
    matches(e, h, "recording a duration");
}
VC_CONTRACT(C32_partial)
{
    Hist h;
    TimeEntry e = anyEntry(h);
    e.startPartial();
    double total = 0.;
    for (int i = 0; i < 3; ++i)
    {
        double x = vc_num(0.f, 20.f);
        vc_assume(x >= 0.);
        e.last_ += Seconds{x};
        total += x;
    }
    vc_assert(e.nMeasures() == h.n, "partial durations are not records yet");
    double last = e.last();
    e.commitPartial();
    record(h, last);
    matches(e, h, "committing the partial durations records their sum");
    vc_eqs((float)last, (float)total, 100, "partial durations add up");
}
VC_CONTRACT(C32_timer)
{
    Hist h;
    TimeEntry e = anyEntry(h), other;
    bool moved = vc_bool(), partial = vc_bool();
    double before = e.last();
    {
        TimeEntry::ScopedTimer t = partial ? e.timePartial() : e.time();
        vc_assert(e.nMeasures() == h.n, "a running timer has not recorded anything yet");
        if (moved)
        {
            TimeEntry::ScopedTimer u{std::move(t)};
            vc_assert(e.nMeasures() == h.n, "moving a timer records nothing");
        }
        else
            (void)other;
        if (moved && !partial)
            vc_assert(e.nMeasures() == h.n + 1, "the timer it was moved to records at the end of its life");
    }
    if (partial)
    {
        vc_assert(e.nMeasures() == h.n, "a partial timer adds no record");
        vc_assert(e.last() >= before, "a partial timer adds its lifetime");
        return;
    }
    double x = e.last();
    vc_assert(x >= 0., "a lifetime is not negative");
    record(h, x);
    matches(e, h, "a scope timer adds exactly one record");
}
VC_CONTRACT(C32_reset)
{
    Profiler p;
    Hist a, b;
    p.treeUpdateAndCollision = anyEntry(a);
    p.solvePositions = anyEntry(b);
    p.islandConstruction = anyEntry(a);
    p.solveVelocities = anyEntry(a);
    p.narrowPhaseCollision = anyEntry(a);
    p.treeHeight = 7;
    p.reset();
    const TimeEntry* es[] = {&p.treeUpdateAndCollision, &p.narrowPhaseCollision, &p.islandConstruction, &p.solveVelocities, &p.solvePositions};
    for (const TimeEntry* e : es) matches(*e, Hist{0, 0., 0., 0.}, "resetting forgets everything");
    vc_assert(p.treeHeight == 0, "resetting forgets the tree height");
}
