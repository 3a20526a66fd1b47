// Helpers shared by the contracts on bodies and constraints: arbitrary bodies, positions, velocities, proxies.
#pragma once
#include "vc.h"
#include "Simu/physics.hpp"

static inline float pos() { return vc_num(-10.f, 10.f); }
static inline float ang() { return vc_num(-4.f, 4.f); }
static inline float positive(float lo, float hi) { float x = vc_num(lo, hi); vc_assume(x > 0.f); return x; }
static inline simu::Vec2 anyV() { float x = pos(), y = pos(); return simu::Vec2{x, y}; }
static inline simu::Position anyPosition()
{
    simu::Vec2 p = anyV(), c = anyV();
    float a = ang();
    return simu::Position{p, a, c};
}
// a body in any state: any place, velocity and mass properties
static inline void anyBody(simu::Body& b)
{
    b.position_ = anyPosition();
    b.velocity_ = simu::Velocity{anyV(), pos()};
    b.colliders_.properties_.m = positive(0.5f, 8.f);
    b.colliders_.properties_.I = positive(0.5f, 8.f);
    b.colliders_.properties_.centroid = b.position_.localCentroid();
}
static inline void samePos(const simu::Position& a, const simu::Position& b, float scale, const char* name)
{
    vc_eqs_at2(a.pos_.offset().data[0], b.pos_.offset().data[0], a.pos_.offset().data[1], b.pos_.offset().data[1], scale, name);
    vc_eqs_at2(a.orientation_.theta(), b.orientation_.theta(), a.orientation_.cosine, b.orientation_.cosine, scale, name);
    vc_eqs_at2(a.localCentroid().data[0], b.localCentroid().data[0], a.localCentroid().data[1], b.localCentroid().data[1], scale, name);
}

// two bodies in any state together with solver proxies that stand for later positions and velocities of the same bodies
struct Two
{
    simu::Body A{simu::BodyDescriptor{}}, B{simu::BodyDescriptor{}};
    simu::Position p[2];
    simu::Velocity v[2];
    simu::InvMasses m{};

    Two() : p{anyPosition(), anyPosition()}
    {
        anyBody(A);
        anyBody(B);
        for (int i = 0; i < 2; ++i) v[i] = simu::Velocity{anyV(), pos()};
        m.m0 = positive(0.1f, 2.f);
        m.I0 = positive(0.1f, 2.f);
        m.m1 = positive(0.1f, 2.f);
        m.I1 = positive(0.1f, 2.f);
    }
    // the proxies start where the bodies are
    void here()
    {
        p[0] = A.position_;
        p[1] = B.position_;
    }
    simu::Bodies bodies() { return simu::Bodies{{&A, &B}}; }
    simu::Proxies proxies() { return simu::Proxies{simu::SolverProxy{&p[0], &v[0]}, simu::SolverProxy{&p[1], &v[1]}, m}; }
    // local centroids do not change while a constraint exists
    void sameShape()
    {
        p[0].setLocalCentroid(A.localCentroid());
        p[1].setLocalCentroid(B.localCentroid());
    }
};
