#include "vc.h"
#include "Simu/app/Camera.hpp"
#include "Simu/physics/Transform.hpp"
// vc:sources src/Simu/app/Camera.cpp
using namespace simu;

static float pos() { return vc_num(-20.f, 20.f); }
static float size() { float s = vc_num(0.25f, 20.f); vc_assume(s > 0.f); return s; }
static Vec2 anyV() { float x = pos(), y = pos(); return Vec2{x, y}; }

// any camera: class invariant zoom > 0, dimensions > 0
static Camera anyCamera()
{
    Camera c;
    c.center_ = anyV();
    c.viewDimensions_[0] = size();
    c.viewDimensions_[1] = size();
    c.zoom_ = size();
    c.pixelSize_ = size();
    return c;
}
static void inv(const Camera& c)
{
    vc_assert(c.zoom() > 0.f, "the zoom stays positive");
    vc_assert(c.viewDimensions()[0] > 0.f && c.viewDimensions()[1] > 0.f, "the view size stays positive");
}
static void same(const Camera& a, const Camera& b, const char* name)
{
    vc_assert_at(a.zoom() == b.zoom() && a.center()[0] == b.center()[0] && a.center()[1] == b.center()[1]
                 && a.viewDimensions()[0] == b.viewDimensions()[0] && a.viewDimensions()[1] == b.viewDimensions()[1], name);
}

VC_CONTRACT(C31_initial)
{
    Camera c;
    inv(c);
    vc_assert(c.center()[0] == 0.f && c.center()[1] == 0.f, "a new camera looks at the origin");
}
VC_CONTRACT(C31_maps_view)
{
    Camera c = anyCamera();
    float s = vc_num(-2.f, 2.f), t = vc_num(-2.f, 2.f);
    // s, t in [-1, 1] are the points of the viewed rectangle
    Vec2 half = c.viewDimensions() / c.zoom() / 2.f;
    Vec2 p{c.center()[0] + s * half[0], c.center()[1] + t * half[1]};
    Vec2 q = c.transform() * p;
    vc_eqs(q.data[0], s, 2000, "the viewed rectangle maps affinely to [-1, 1] (x)");
    vc_eqs(q.data[1], t, 2000, "the viewed rectangle maps affinely to [-1, 1] (y)");
    Vec2 r = c.invTransform() * Vec2{s, t};
    vc_eqs(r.data[0], p.data[0], 2000, "[-1, 1] maps back to the viewed rectangle (x)");
    vc_eqs(r.data[1], p.data[1], 2000, "[-1, 1] maps back to the viewed rectangle (y)");
}
VC_CONTRACT(C31_round_trip)
{
    Camera c = anyCamera();
    Vec2 p = anyV();
    Vec2 a = c.invTransform() * (c.transform() * p), b = c.transform() * (c.invTransform() * p);
    vc_eqs(a.data[0], p.data[0], 50000, "screen and back (x)");
    vc_eqs(a.data[1], p.data[1], 50000, "screen and back (y)");
    vc_eqs(b.data[0], p.data[0], 50000, "world and back (x)");
    vc_eqs(b.data[1], p.data[1], 50000, "world and back (y)");
    Mat3 I = c.transform() * c.invTransform();
    for (Uint32 i = 0; i < 3; ++i)
        for (Uint32 j = 0; j < 3; ++j) vc_eqs(I(i, j), i == j ? 1.f : 0.f, 50000, "the two transforms are inverse matrices");
}
VC_CONTRACT(C31_set_zoom)
{
    Camera c = anyCamera(), old = c;
    float z = vc_real();
    c.setZoom(z);
    inv(c);
    vc_assert(c.zoom() == (z > 0.f ? z : old.zoom()), "a positive zoom is set, any other is refused");
    c.zoom_ = old.zoom_;
    same(c, old, "zooming changes nothing else");
}
VC_CONTRACT(C31_zoom_steps)
{
    Camera c = anyCamera(), old = c;
    c.zoomIn();
    vc_assert(c.zoom() > old.zoom(), "zooming in zooms in");
    inv(c);
    c.zoomOut();
    vc_eqs(c.zoom(), old.zoom(), 100, "zooming out undoes zooming in");
    c = old;
    c.zoomOut();
    vc_assert(c.zoom() < old.zoom(), "zooming out zooms out");
    inv(c);
    // zooming keeps the centre of the view where it was
    Vec2 q = c.transform() * old.center();
    vc_eqs(q.data[0], 0.f, 100, "the centre stays in the middle of the screen (x)");
    vc_eqs(q.data[1], 0.f, 100, "the centre stays in the middle of the screen (y)");
}
VC_CONTRACT(C31_pan)
{
    Camera c = anyCamera(), old = c;
    Vec2 d = anyV();
    c.pan(d);
    vc_eqs(c.center()[0], old.center()[0] + d[0], 10, "panning moves the centre by the offset (x)");
    vc_eqs(c.center()[1], old.center()[1] + d[1], 10, "panning moves the centre by the offset (y)");
    c.panTo(d);
    vc_eqs(c.center()[0], d[0], 100, "panning to a point centres it (x)");
    vc_eqs(c.center()[1], d[1], 100, "panning to a point centres it (y)");
    c.center_ = old.center_;
    same(c, old, "panning changes nothing else");
}
VC_CONTRACT(C31_resize)
{
    Camera c = anyCamera(), old = c;
    float x = vc_real(), y = vc_real();
    bool px = vc_bool();
    if (px) c.setDimensionsFromScreenCoordinates(Vec2{x, y});
    else c.setViewDimensions(Vec2{x, y});
    inv(c);
    float f = px ? c.pixelSize() : 1.f;
    bool ok = x > 0.f && y > 0.f;
    if (ok)
    {
        vc_eqs(c.viewDimensions()[0], f * x, 10, "a positive size is set (x)");
        vc_eqs(c.viewDimensions()[1], f * y, 10, "a positive size is set (y)");
    }
    else
        same(c, old, "a non-positive size is refused");
    c.viewDimensions_ = old.viewDimensions_;
    same(c, old, "resizing changes nothing else");
}
