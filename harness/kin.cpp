// C23: the reported motion of an entity agrees with how it actually moves
#include "scenario.h"
using namespace osc;
using namespace scenarioengine;
static const double WR = 0.35;  // nominal wheel radius of the rotation angle
struct St { double x, y, z, h, vx, vy, vz, ax, ay, az, hr, ha, odo, rot, v; };
static St st(Object* o)
{
    auto& p = o->pos_;
    return {p.GetX(), p.GetY(), p.GetZ(), p.GetH(), p.GetVelX(), p.GetVelY(), p.GetVelZ(), p.GetAccX(), p.GetAccY(), p.GetAccZ(), p.GetHRate(), p.GetHAcc(), o->odometer_, o->wheel_rot_, o->GetSpeed()};
}
struct Run : Engine
{
    explicit Run(const std::string& text) : Engine(text) { VF_ASSERT("init", se->GetInitStatus() == 0); }
};
static double wrap(double d) { return d > M_PI ? d - 2 * M_PI : d < -M_PI ? d + 2 * M_PI : d; }
// differential relations between two consecutive steps; tol in the unit of the positions
static void motion(const St& a, const St& b, double dt, double tol = 1e-6, bool acc = true)
{
    VF_NEAR("velocity", b.vx * dt, b.x - a.x, tol);
    VF_NEAR("velocity", b.vy * dt, b.y - a.y, tol);
    VF_NEAR("velocity", b.vz * dt, b.z - a.z, tol);
    VF_NEAR("heading_rate", b.hr * dt, wrap(b.h - a.h), tol);
    if (acc)
    {
        VF_NEAR("acceleration", b.ax * dt, b.vx - a.vx, tol * 10);
        VF_NEAR("acceleration", b.ay * dt, b.vy - a.vy, tol * 10);
        VF_NEAR("acceleration", b.az * dt, b.vz - a.vz, tol * 10);
        VF_NEAR("heading_acc", b.ha * dt, b.hr - a.hr, tol * 10);
    }
    VF_NEAR("odometer", (b.odo - a.odo) * (b.odo - a.odo), (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y), tol * 10);
    VF_LE("odometer", a.odo, b.odo, 0);
}
static odr::RoadDef line(double h)
{
    auto r = straight(500);
    r.geo  = {{0, 10, -20, h, 500, "<line/>"}};
    return r;
}
static Doc one(const odr::RoadDef& r, int lane, double s, double v, double off = 0, const std::string& orient = "")
{
    Doc d;
    d.xodr = writeRoad(odr::doc({r}));
    Ent e;
    e.name  = "Ego";
    e.perf_ = perf(300, 10000, 10000);
    e.init  = teleport(lanePos(0, lane, s, off, orient)) + absSpeed(v);
    d.ents  = {e};
    return d;
}
// on a straight road at any heading: velocity is speed along the driving direction, no acceleration, odometer counts metres
static void straightRun(double h, int lane, bool back)
{
    double v  = vf_double("v", 0.5, 60), dt = vf_thorough() ? vf_double("dt", 0.01, 0.2) : 0.1;
    Run    r(xml(one(line(h), lane, 250, back ? -v : v)));
    Object* o = r.obj(0);
    r.step(0);
    double dir = (lane < 0 ? 1 : -1) * (back ? -1 : 1), odo = o->odometer_;
    double ex = cos(h) * dir, ey = sin(h) * dir;
    St     a  = st(o);
    VF_NEAR("initial_velocity", a.vx, v * ex, 1e-5);
    VF_NEAR("initial_velocity", a.vy, v * ey, 1e-5);
    for (int k = 1; k <= 2; k++)
    {
        r.step(dt);
        St b = st(o);
        motion(a, b, dt);
        VF_NEAR("velocity_dir", b.vx, v * ex, 1e-4);
        VF_NEAR("velocity_dir", b.vy, v * ey, 1e-4);
        VF_NEAR("no_acceleration", b.ax, 0, 1e-3);
        VF_NEAR("no_acceleration", b.ay, 0, 1e-3);
        VF_NEAR("odometer_total", b.odo - odo, k * v * dt, 1e-5);
        VF_NEAR("speed", b.v, back ? -v : v, 1e-9);
        double vlat, vlong;
        o->pos_.GetVelLatLong(vlat, vlong);
        VF_NEAR("vel_lat", vlat, 0, 1e-4);
        VF_NEAR("vel_long", vlong, back ? -v : v, 1e-4);
        VF_NEAR("vel_lat", o->pos_.GetVelLat(), 0, 1e-4);
        VF_NEAR("vel_long", o->pos_.GetVelLong(), back ? -v : v, 1e-4);
        VF_NEAR("vel_s", o->pos_.GetVelS(), v * dir, 1e-4);
        VF_NEAR("vel_t", o->pos_.GetVelT(), 0, 1e-4);
        VF_NEAR("wheel_angle", o->GetWheelAngle(), 0, 1e-5);
        // wheels turn with the distance covered, backwards in reverse
        double dr = b.rot - a.rot - (back ? -1 : 1) * v * dt / WR, q = dr / (2 * M_PI);
        VF_ASSERT("wheel_rotation", fabs(q) < 1e-5 || fabs(q - 1) < 1e-5 || fabs(q + 1) < 1e-5 || fabs(q - 2) < 1e-5 || fabs(q + 2) < 1e-5 || fabs(q - 3) < 1e-5 || fabs(q + 3) < 1e-5 || fabs(q - 4) < 1e-5 || fabs(q + 4) < 1e-5);
        for (auto& w : static_cast<Vehicle*>(o)->GetWheelData()) VF_NEAR("wheel_rate", w.rotation_rate * w.wheel_radius, back ? -v : v, 1e-6);
        a = b;
    }
}
VF_CASE(straight_r) { straightRun(0.4, -1, false); }
VF_CASE(straight_l) { straightRun(2.5, 1, false); }
VF_CASE(straight_rev_r) { straightRun(-1.2, -1, true); }
VF_CASE(straight_rev_l) { straightRun(-2.8, 2, true); }
// on a curve: chord velocity, yaw rate of the lane's curvature, wheel angle of the bicycle model
static void arcRun(double k, double h0, int lane, bool back, bool both)
{
    double       v = vf_double("v", 2, 30), dt = 0.1;
    odr::RoadDef r0 = straight(60);
    r0.geo          = {{0, 5, 7, h0, 60, odr::arc(k)}};
    Run     r(xml(one(r0, lane, 30, back ? -v : v)));
    Object* o = r.obj(0);
    r.step(0);
    St     a    = st(o);
    double dir  = (lane < 0 ? 1 : -1) * (back ? -1 : 1);
    double lk   = k / (1 - k * (lane < 0 ? lane + 0.5 : lane - 0.5) * 3.5);  // curvature of the lane centre
    for (int i = 1; i <= (both ? 2 : 1); i++)
    {
        r.step(dt);
        St b = st(o);
        motion(a, b, dt, 3e-6, i > 1);
        VF_NEAR("yaw_rate", b.hr, dir * v * lk, 1e-4);
        if (i > 1) VF_NEAR("yaw_acc", b.ha, 0, 1e-3);
        VF_NEAR("wheel_angle", tan(o->GetWheelAngle()) * b.v, b.hr * 3.1, 1e-4);
        double c = 2 / fabs(lk) * sin(v * dt * fabs(lk) / 2);
        if (i == 1) VF_NEAR("odometer_arc", b.odo - a.odo, c, 1e-4);
        double al, at, m = cos(b.h), n = sin(b.h);
        o->pos_.GetAccLatLong(al, at);
        VF_NEAR("acc_long", at, b.ax * m + b.ay * n, 1e-5);
        VF_NEAR("acc_lat", al, -b.ax * n + b.ay * m, 1e-5);
        double vl, vo;
        o->pos_.GetVelLatLong(vl, vo);
        VF_NEAR("vel_long", vo, b.vx * m + b.vy * n, 1e-5);
        VF_NEAR("vel_lat", vl, -b.vx * n + b.vy * m, 1e-5);
        a = b;
    }
}
VF_CASE(arc_left) { arcRun(0.02, 0.3, -1, false, true); }
VF_CASE(arc_right_lane) { arcRun(-0.03, 1.0, -2, false, false); }
VF_CASE(arc_left_lane) { arcRun(0.025, 3.0, 1, false, false); }
VF_CASE(arc_reverse) { arcRun(0.02, -0.5, -1, true, false); }
// accelerations: an actual speed change shows up along the driving direction
VF_CASE(accelerate)
{
    double v = vf_double("v", 1, 20), q = vf_double("rate", 1, 9), dt = 0.1, h = 0.7;
    Doc    d = one(line(h), -1, 100, v);
    d.story  = act("a", mgroup("g", "Ego", event("e", action("x", absSpeed(v + 50, "linear", "rate", q)), trig(simTimeCond(0.05)))));
    Run     r(xml(d));
    Object* o = r.obj(0);
    r.step(0);
    St a = st(o);
    for (int k = 1; k <= 5; k++)
    {
        r.step(dt);
        St b = st(o);
        motion(a, b, dt);
        if (k >= 3)
        {
            VF_NEAR("acc", b.ax * cos(h) + b.ay * sin(h), q, 1e-3);
            VF_NEAR("acc", -b.ax * sin(h) + b.ay * cos(h), 0, 1e-3);
            double at, as;
            o->pos_.GetAccTS(at, as);
            VF_NEAR("acc_s", as, q, 1e-3);
            VF_NEAR("acc_t", at, 0, 1e-3);
            VF_NEAR("acc_lat", o->pos_.GetAccLat(), 0, 1e-3);
            VF_NEAR("acc_long", o->pos_.GetAccLong(), q, 1e-3);
            VF_NEAR("acc_s", o->pos_.GetAccS(), q, 1e-3);
            VF_NEAR("acc_t", o->pos_.GetAccT(), 0, 1e-3);
        }
        a = b;
    }
}
// on a slope the velocity has its vertical component
static void slope(double g, int lane)
{
    double v = vf_double("v", 1, 40), dt = 0.1;
    auto   r0 = line(0.2);
    r0.elev   = {{0, 3, g, 0, 0}};
    Run     r(xml(one(r0, lane, 200, v)));
    Object* o = r.obj(0);
    r.step(0);
    St a = st(o);
    for (int k = 1; k <= 2; k++)
    {
        r.step(dt);
        St b = st(o);
        motion(a, b, dt);
        VF_NEAR("slope", b.vz, (lane < 0 ? 1 : -1) * g * v, 0.02 * v);
        VF_ASSERT("slope_sign", g * (lane < 0 ? 1 : -1) > 0 ? b.vz > 0 : b.vz < 0);
        a = b;
    }
}
VF_CASE(slope_up) { slope(0.1, -1); }
VF_CASE(slope_left) { slope(0.08, 1); }
// a teleport is not travel: odometer unchanged, velocity is the speed along the new heading
static void tele(bool world)
{
    double v = vf_double("v", 1, 40), dt = 0.1, h = 0.7;
    double s2 = vf_double("s2", 30, 60), H = world ? vf_double("H", 0.1, 3) : 0;
    Doc    d = one(line(h), -1, 200, v);
    d.story  = act("a", mgroup("g", "Ego", event("e", action("x", teleport(world ? worldPos(s2, 5, H) : lanePos(0, 1, s2))), trig(simTimeCond(0.15)))));
    Run     r(xml(d));
    Object* o = r.obj(0);
    r.step(0);
    St     a     = st(o);
    bool   gone  = false;
    double moved = 0;
    for (int k = 1; k <= 5; k++)
    {
        r.step(dt);
        St     b  = st(o);
        double d2 = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y);
        if (d2 > 100)
        {
            VF_ASSERT("one_teleport", !gone);
            gone = true;
            VF_NEAR("odometer_teleport", b.odo, a.odo, 1e-9);
            VF_NEAR("velocity_teleport", b.vx, v * cos(b.h), 1e-5);
            VF_NEAR("velocity_teleport", b.vy, v * sin(b.h), 1e-5);
            double want = world ? H : h + M_PI;
            VF_NEAR("heading_teleport", cos(b.h - want), 1, 1e-6);
        }
        else
        {
            moved += 1;
            if (!gone) motion(a, b, dt);
            VF_NEAR("odometer_step", b.odo - a.odo, v * dt, 1e-4);
        }
        a = b;
    }
    VF_ASSERT("teleported", gone);
    VF_ASSERT("kept_moving", moved >= 3);
}
VF_CASE(teleport_lane) { tele(false); }
VF_CASE(teleport_world) { tele(true); }
// heading rate and its change are unrestricted in magnitude (tight turn at speed)
static void sharp(double sign)
{
    double       v = vf_double("v", 12, 18), dt = 0.02;
    odr::RoadDef r0 = straight(50);
    r0.geo          = {{0, 0, 0, 0.1, 20, "<line/>"}, {20, 20 * cos(0.1), 20 * sin(0.1), 0.1, 30, odr::arc(sign * 0.25)}};
    Run     r(xml(one(r0, -1, 20 - 12 * 0.02 - 0.05, v, 1.75)));  // on the reference line
    Object* o = r.obj(0);
    r.step(0);
    St   a    = st(o);
    bool seen = false;
    for (int k = 1; k <= 3; k++)
    {
        r.step(dt);
        St b = st(o);
        motion(a, b, dt, 3e-6, true);
        if (fabs(b.hr) > 2) seen = true;
        a = b;
    }
    VF_NEAR("tight_rate", a.hr, sign * 0.25 * v, 1e-3);
    VF_ASSERT("turned", seen);
}
VF_CASE(sharp_left) { sharp(1); }
VF_CASE(sharp_right) { sharp(-1); }
// the heading wraps at +-pi / 2*pi: the rate does not jump
VF_CASE(heading_wrap)
{
    double       v = vf_double("v", 5, 20), dt = 0.1;
    odr::RoadDef r0 = straight(120);
    r0.geo          = {{0, 0, 0, -0.02 * 40, 120, odr::arc(0.02)}};
    Run     r(xml(one(r0, -1, 40 - 0.7, v, 1.75)));
    Object* o = r.obj(0);
    r.step(0);
    St a = st(o);
    for (int k = 1; k <= 2; k++)
    {
        r.step(dt);
        St b = st(o);
        VF_NEAR("rate_at_wrap", b.hr, 0.02 * v, 1e-4);
        VF_NEAR("rate_at_wrap", wrap(b.h - a.h), 0.02 * v * dt, 1e-5);
        a = b;
    }
}
// time steps of zero length change nothing
VF_CASE(zero_step)
{
    double  v = vf_double("v", 1, 40), h = 0.7;
    Run     r(xml(one(line(h), -1, 100, v)));
    Object* o = r.obj(0);
    r.step(0);
    r.step(0.1);
    St a = st(o);
    r.step(0);
    St b = st(o);
    VF_NEAR("still_x", b.x, a.x, 1e-9);
    VF_NEAR("still_y", b.y, a.y, 1e-9);
    VF_NEAR("still_odo", b.odo, a.odo, 1e-9);
    VF_NEAR("still_vel", b.vx, v * cos(h), 1e-4);
    VF_NEAR("still_vel", b.vy, v * sin(h), 1e-4);
    r.step(0.1);
    St c = st(o);
    VF_NEAR("resumed", c.odo - b.odo, v * 0.1, 1e-5);
    VF_NEAR("resumed_vel", c.vx, v * cos(h), 1e-4);
}
// a lane change: velocity includes the lateral part; speed stays what was requested
VF_CASE(lane_change)
{
    double v = vf_double("v", 5, 40), dt = 0.1;
    Doc    d = one(line(0), -1, 100, v);
    d.story  = act("a", mgroup("g", "Ego", event("e", action("x", "<PrivateAction><LateralAction><LaneChangeAction>" + dyn("LaneChangeActionDynamics", "linear", "time", 1.0) +
                                                                 "<LaneChangeTarget><AbsoluteTargetLane value=\"-2\"/></LaneChangeTarget></LaneChangeAction></LateralAction></PrivateAction>"), trig(simTimeCond(0.05)))));
    Run     r(xml(d));
    Object* o = r.obj(0);
    r.step(0);
    St a = st(o);
    for (int k = 1; k <= 5; k++)
    {
        r.step(dt);
        St b = st(o);
        motion(a, b, dt, 3e-6);
        if (k >= 4)
        {
            VF_NEAR("lateral_speed", b.vy, -3.5, 1e-4);
            VF_NEAR("vel_t", o->pos_.GetVelT(), -3.5, 1e-4);
        }
        VF_NEAR("speed", b.v, v, 1e-9);
        a = b;
    }
}
// friction at the wheels: that of the lane below, scaled by the road condition
static void friction(double scale, double y1, double y2)
{
    double       f1 = vf_double("f1", 0.1, 0.9), v = 10;
    odr::RoadDef r0 = straight(200);
    r0.sec[0].lanes[2].extra = "<material sOffset=\"0\" friction=\"0.5\" roughness=\"0\" surface=\"\"/>";
    r0.sec[0].lanes[3].extra = "<material sOffset=\"0\" friction=\"" + N(f1) + "\" roughness=\"0\" surface=\"\"/>";
    VF_ASSUME(f1 < 0.45 || f1 > 0.55);
    Doc d = one(r0, -1, 50, v, -1.75);  // on the border between lanes -1 and -2
    if (scale > 0)
        d.globalInit = "<GlobalAction><EnvironmentAction><Environment name=\"e\"><TimeOfDay animation=\"false\" dateTime=\"2020-01-01T12:00:00\"/><Weather cloudState=\"free\"/><RoadCondition frictionScaleFactor=\"" + N(scale) +
                       "\"/></Environment></EnvironmentAction></GlobalAction>";
    Run r(xml(d));
    r.step(0);
    r.step(0.1);
    double k = scale > 0 ? scale : 1;
    for (auto& w : static_cast<Vehicle*>(r.obj(0))->GetWheelData())
    {
        VF_ASSERT("wheel_index", w.index == 0 || w.index == 1);
        VF_NEAR("friction", w.friction_coefficient, k * (w.index == 0 ? f1 : 0.5), 1e-6);  // index 0: right side
    }
}
VF_CASE(friction_lanes) { friction(0, 0, 0); }
VF_CASE(friction_scaled) { friction(0.6, 0, 0); }
