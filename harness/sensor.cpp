// C24: the ideal object sensor reports exactly the objects in its field of view, in its own frame
#include "scenario.h"
#include "IdealSensor.hpp"
#include <cmath>
using namespace osc;
using namespace scenarioengine;
static const double HX = 100, HY = -2, HH = 0.4;
struct P { double x, y, h; };
static Doc world(int n)
{
    Doc d;
    auto r = straight(1000, 1, 1);
    d.xodr = writeRoad(odr::doc({r}));
    for (int i = 0; i < n; i++)
    {
        Ent e;
        e.name = "e" + std::to_string(i);
        e.init = teleport(lanePos(0, -1, 100));
        d.ents.push_back(e);
    }
    return d;
}
// objects placed without mapping them to the road
static void place(Engine& e, std::function<P(int)> pos)
{
    e.step(0);
    for (size_t i = 0; i < e.se->entities_.object_.size(); i++)
    {
        P p = i == 0 ? P{HX, HY, HH} : pos(int(i));
        e.obj(i)->pos_.SetInertiaPos(p.x, p.y, 0, p.h, 0, 0, false);
    }
}
struct Sens
{
    double x = 2, y = 0.5, h = 0, nearD = 1, farD = 50, fov = 1;
    double gx() const { return HX + x * cos(HH) - y * sin(HH); }
    double gy() const { return HY + x * sin(HH) + y * cos(HH); }
};
// object on a ray from the sensor: direction phi relative to the sensor axis, distance symbolic
static void ray(Sens s, double phi, bool inside)
{
    double a = HH + s.h + phi, r = vf_double("r", 0.2, 80);
    VF_ASSUME(fabs(r - s.nearD) > 1e-4 && fabs(r - s.farD) > 1e-4);
    Engine e(xml(world(2)));
    place(e, [&](int) { return P{s.gx() + r * cos(a), s.gy() + r * sin(a), 1.2}; });
    ObjectSensor o(&e.se->entities_, e.obj(0), s.x, s.y, 0.5, s.h, s.nearD, s.farD, s.fov, 10);
    o.Update();
    bool want = inside && r > s.nearD && r < s.farD;
    VF_ASSERT("detected", o.nObj_ == (want ? 1 : 0));
    if (want)
    {
        VF_ASSERT("object", o.hitList_[0].obj_ == e.obj(1));
        VF_NEAR("local_x", o.hitList_[0].x_, r * cos(phi), 1e-4);
        VF_NEAR("local_y", o.hitList_[0].y_, r * sin(phi), 1e-4);
        VF_NEAR("yaw", sin(o.hitList_[0].yaw_ - (1.2 - HH - s.h)), 0, 1e-6);
    }
}
static Sens mk(double h, double fov) { Sens s; s.h = h; s.fov = fov; return s; }
VF_CASE(front_in_left) { ray(mk(0, 1), 0.48, true); }
VF_CASE(front_in_right) { ray(mk(0, 1), -0.48, true); }
VF_CASE(front_out_left) { ray(mk(0, 1), 0.52, false); }
VF_CASE(front_out_right) { ray(mk(0, 1), -0.52, false); }
VF_CASE(front_behind) { ray(mk(0, 3), 3.0, false); }
VF_CASE(wide_in) { ray(mk(0, 4), -1.9, true); }
VF_CASE(wide_out) { ray(mk(0, 4), 2.1, false); }
VF_CASE(left_in) { ray(mk(M_PI_2, 1), 0.3, true); }
VF_CASE(left_out) { ray(mk(M_PI_2, 1), -0.6, false); }
VF_CASE(left_opposite) { ray(mk(M_PI_2, 1), M_PI - 0.2, false); }  // to the right of the vehicle
VF_CASE(right_in) { ray(mk(-M_PI_2, 1), 0.3, true); }
VF_CASE(right_opposite) { ray(mk(-M_PI_2, 1), M_PI, false); }
VF_CASE(rear_in_left) { ray(mk(M_PI, 1), 0.3, true); }
VF_CASE(rear_in_right) { ray(mk(M_PI, 1), -0.3, true); }
VF_CASE(rear_out) { ray(mk(M_PI, 1), -0.7, false); }
VF_CASE(slanted_in) { ray(mk(0.6, 1), -0.45, true); }
VF_CASE(slanted_out_right) { ray(mk(0.6, 1), -1.2, false); }  // mirrored about the vehicle axis it would be inside
// object passing sideways: in view exactly while inside the cone
static void pass(Sens s, double ahead)
{
    double y = vf_double("y", -40, 40), c = cos(s.fov / 2), a = HH + s.h;
    double d2 = ahead * ahead + y * y;
    bool   cone = ahead * ahead > c * c * d2;
    VF_ASSUME(fabs(ahead * ahead - c * c * d2) > 1e-2 && fabs(d2 - s.farD * s.farD) > 1e-2);
    Engine e(xml(world(2)));
    place(e, [&](int) { return P{s.gx() + ahead * cos(a) - y * sin(a), s.gy() + ahead * sin(a) + y * cos(a), 2}; });
    ObjectSensor o(&e.se->entities_, e.obj(0), s.x, s.y, 0.5, s.h, s.nearD, s.farD, s.fov, 10);
    o.Update();
    VF_ASSERT("detected", o.nObj_ == (cone && d2 < s.farD * s.farD ? 1 : 0));
}
VF_CASE(pass_front) { pass(mk(0, 1.2), 20); }
VF_CASE(pass_left) { pass(mk(1.0, 1.2), 20); }
VF_CASE(pass_right) { pass(mk(-1.0, 1.2), 20); }
VF_CASE(pass_far) { Sens s = mk(0.3, 2.4); s.farD = 25; pass(s, 20); }
// motion relative to the host, in the frame of the sensor
VF_CASE(velocity)
{
    double v = vf_double("v", -20, 20), sh = 0.6, oh = 1.2;
    Engine e(xml(world(2)));
    place(e, [&](int) { return P{HX + 20, HY + 20, oh}; });
    ObjectSensor o(&e.se->entities_, e.obj(0), 2, 0.5, 0.5, sh, 1, 90, 3, 10);
    Object *    a = e.obj(0), *b = e.obj(1);
    a->pos_.SetVel(3, -1, 0);
    b->pos_.SetVel(v, 2, 0);
    a->pos_.SetAcc(0.5, 0.25, 0);
    b->pos_.SetAcc(1, v, 0);
    a->pos_.SetAngularVel(0.3, 0, 0);
    b->pos_.SetAngularVel(0.1 * v, 0, 0);
    a->pos_.SetAngularAcc(0.2, 0, 0);
    b->pos_.SetAngularAcc(-0.1 * v, 0, 0);
    o.Update();
    VF_ASSERT("n", o.nObj_ == 1);
    auto&  q = o.hitList_[0];
    double f = HH + sh;
    VF_NEAR("vx", q.velX_, (v - 3) * cos(f) + 3 * sin(f), 1e-5);
    VF_NEAR("vy", q.velY_, -(v - 3) * sin(f) + 3 * cos(f), 1e-5);
    VF_NEAR("ax", q.accX_, 0.5 * cos(f) + (v - 0.25) * sin(f), 1e-5);
    VF_NEAR("ay", q.accY_, -0.5 * sin(f) + (v - 0.25) * cos(f), 1e-5);
    VF_NEAR("yaw_rate", q.yawRate_, 0.1 * v - 0.3, 1e-6);
    VF_NEAR("yaw_acc", q.yawAcc_, -0.1 * v - 0.2, 1e-6);
}
// several objects: each one judged on its own, never more than the sensor can track, the host and invisible ones left out
static void several(int maxObj)
{
    double r = vf_double("r", 5, 60);
    VF_ASSUME(fabs(r - 50) > 1e-3);
    Sens   s = mk(0, 1);
    Engine e(xml(world(6)));
    place(e, [&](int i) { double k = i == 2 ? r : i == 3 ? 70 : 10 + i; return P{s.gx() + k * cos(HH), s.gy() + k * sin(HH), 0}; });
    e.obj(5)->visibilityMask_ &= ~Object::Visibility::SENSORS;
    ObjectSensor o(&e.se->entities_, e.obj(0), s.x, s.y, 0.5, s.h, s.nearD, s.farD, s.fov, maxObj);
    o.Update();
    std::vector<Object*> w = {e.obj(1)};
    if (r < 50) w.push_back(e.obj(2));
    w.push_back(e.obj(4));
    VF_LE("capacity", o.nObj_, maxObj, 0.5);
    VF_ASSERT("count", o.nObj_ == std::min(maxObj, int(w.size())));
    for (int i = 0; i < o.nObj_; i++) VF_ASSERT("object", o.hitList_[i].obj_ == w[i]);
    o.Update();
    VF_ASSERT("repeatable", o.nObj_ == std::min(maxObj, int(w.size())));
}
VF_CASE(several_room) { several(10); }
VF_CASE(several_exact) { several(3); }
VF_CASE(several_tight) { several(2); }
VF_CASE(several_one) { several(1); }
