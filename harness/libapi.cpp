// C22: the simulator library (C API): what is reported in shows up, what is asked for is the state of the scenario
#include "scenario.h"
#include "esminiLib.hpp"
#include <cstring>
#include <cmath>
using namespace osc;
typedef SE_ScenarioObjectState St;
static std::string road2(double h = 0.3)
{
    auto r = straight(500, 2, 3);
    r.id   = 7;
    r.geo  = {{0, 5, -3, h, 500, "<line/>"}};
    return odr::doc({r});
}
static St state(int id)
{
    St s;
    memset(&s, 0, sizeof s);
    VF_ASSERT("state", SE_GetObjectState(id, &s) == 0);
    return s;
}
static void init(const Doc& d)
{
    VF_ASSERT("init", SE_InitWithString(xml(d).c_str(), 0, 0, 0, 0) == 0);
}
static Doc two(const std::string& i1, const std::string& i2)
{
    Doc d;
    d.xodr = writeRoad(road2());
    Ent a, b;
    a.name = "Ego";
    a.init = i1;
    b.name = "Other";
    b.init = i2;
    d.ents = {a, b};
    return d;
}
static const double H = 0.3;
static double lx(double s, double t) { return 5 + s * cos(H) - t * sin(H); }
static double ly(double s, double t) { return -3 + s * sin(H) + t * cos(H); }
VF_CASE(drive)
{
    double v = vf_double("v", 1, 40), s0 = vf_double("s0", 10, 100);
    init(two(teleport(lanePos(7, -2, s0, 0.2)) + absSpeed(v), teleport(lanePos(7, 1, 200)) + absSpeed(5)));
    SE_StepDT(0.1);
    SE_StepDT(0.2);
    VF_NEAR("time", SE_GetSimulationTime(), 0.3, 1e-9);
    auto a = state(0), b = state(1);
    double s = s0 + 0.3 * v, t = -5.25 + 0.2;
    VF_NEAR("x", a.x, lx(s, t), 1e-5);
    VF_NEAR("y", a.y, ly(s, t), 1e-5);
    VF_NEAR("s", a.s, s, 1e-6);
    VF_NEAR("t", a.t, t, 1e-6);
    VF_NEAR("h", a.h, H, 1e-6);
    VF_NEAR("speed", a.speed, v, 1e-6);
    VF_NEAR("offset", a.laneOffset, 0.2, 1e-6);
    VF_ASSERT("ids", a.id == 0 && b.id == 1 && a.roadId == 7 && a.laneId == -2 && b.laneId == 1);
    VF_NEAR("s", b.s, 200 - 1.5, 1e-6);
    VF_NEAR("odo", SE_GetObjectOdometer(0), 0.3 * v, 1e-6);
    VF_NEAR("box", a.width + 10 * a.length + 100 * a.height, 2 + 50 + 150, 1e-9);
    SE_Close();
}
// ---- states reported by an external simulator
static const std::string I1 = teleport(lanePos(7, -2, 50)) + absSpeed(5), I2 = teleport(lanePos(7, 1, 200)) + absSpeed(5);
static int external()
{
    init(two(I1, I2));
    SE_OSCBoundingBox bb = {{1.5, 0.1, 0.7}, {1.9, 4.5, 1.4}};
    int               id = SE_AddObjectWithBoundingBox("Ext", 1, 0, 0, 0, nullptr, bb, 0);
    VF_ASSERT("id", id == 2 && SE_GetNumberOfObjects() == 3 && SE_GetId(2) == 2 && SE_GetIdByName("Ext") == 2);
    VF_ASSERT("name", !strcmp(SE_GetObjectName(id), "Ext"));
    return id;
}
static void others(double t)
{
    auto a = state(0), b = state(1);
    VF_NEAR("others", a.s, 50 + 5 * t, 1e-6);
    VF_NEAR("others", b.s, 200 - 5 * t, 1e-6);
}
static void check(int id, double s, double t, double h, int lane, double off)
{
    auto a = state(id);
    VF_NEAR("x", a.x, lx(s, t), 1e-5);
    VF_NEAR("y", a.y, ly(s, t), 1e-5);
    VF_NEAR("s", a.s, s, 1e-5);
    VF_NEAR("t", a.t, t, 1e-5);
    VF_NEAR("h", cos(a.h - h), 1, 1e-6);
    VF_NEAR("h", sin(a.h - h), 0, 1e-6);
    VF_NEAR("offset", a.laneOffset, off, 1e-5);
    VF_ASSERT("lane", a.laneId == lane && a.roadId == 7);
}
VF_CASE(report_xyh)
{
    int    id = external();
    double s = vf_double("s", 10, 400), h = 1.1;
    VF_ASSERT("ok", SE_ReportObjectPosXYH(id, lx(s, -2), ly(s, -2), h) == 0);
    SE_StepDT(0.1);
    check(id, s, -2, h, -1, -0.25);
    auto a = state(id);
    VF_NEAR("box", a.centerOffsetX + 10 * a.centerOffsetY + 100 * a.centerOffsetZ + 1000 * a.width + 10000 * a.length + 100000 * a.height, 1.5 + 1 + 70 + 1900 + 45000 + 140000, 1e-6);
    others(0.1);
    SE_StepDT(0.1);
    check(id, s, -2, h, -1, -0.25);  // stays put
    VF_NEAR("speed", state(id).speed, 0, 1e-9);
    SE_Close();
}
VF_CASE(report_pos)
{
    int    id = external();
    double s = vf_double("s", 10, 400), z = vf_double("z", -3, 3), h = 5.9;
    SE_StepDT(0.1);
    VF_ASSERT("ok", SE_ReportObjectPosMode(id, lx(s, 4), ly(s, 4), z, h, 0, 0, SE_Z_ABS | SE_H_ABS | SE_P_ABS | SE_R_ABS) == 0);
    SE_StepDT(0.1);
    check(id, s, 4, h, 2, -1.25);
    VF_NEAR("z", state(id).z, z, 1e-6);
    VF_ASSERT("ok", SE_ReportObjectPosMode(id, lx(s, 4), ly(s, 4), z, 0.4, 0, 0, SE_Z_REL | SE_H_REL | SE_P_REL | SE_R_REL) == 0);
    VF_NEAR("rel_z", state(id).z, z, 1e-6);
    VF_NEAR("rel_h", sin(state(id).h - H - 0.4), 0, 1e-6);
    VF_ASSERT("ok", SE_ReportObjectPos(id, lx(s, 1), ly(s, 1), z, h, 0, 0) == 0);
    check(id, s, 1, h, 1, -0.75);
    others(0.2);
    SE_Close();
}
static void roadPos(int lane, double lt)
{
    int    id = external();
    double s = vf_double("s", 10, 400), off = vf_double("off", -1, 1);
    VF_ASSERT("ok", SE_ReportObjectRoadPos(id, 7, lane, off, s) == 0);
    auto a = state(id);
    VF_NEAR("s", a.s, s, 1e-6);
    VF_NEAR("t", a.t, lt + off, 1e-6);
    VF_ASSERT("lane", a.laneId == lane && a.roadId == 7);
    SE_StepDT(0.1);
    a = state(id);
    VF_NEAR("x", a.x, lx(s, lt + off), 1e-5);
    VF_NEAR("y", a.y, ly(s, lt + off), 1e-5);
    double t2 = vf_double("t2", -9.5, -7.5);
    VF_ASSERT("ok", SE_ReportObjectLateralPosition(id, t2) == 0);
    a = state(id);
    VF_NEAR("lateral_s", a.s, s, 1e-6);
    VF_NEAR("lateral_t", a.t, t2, 1e-6);
    VF_ASSERT("lateral_lane", a.laneId == -3);
    others(0.1);
    SE_Close();
}
VF_CASE(report_road) { roadPos(-2, -5.25); }
VF_CASE(report_road_left) { roadPos(2, 5.25); }
static void latLane(int lane, double lt)
{
    int    id = external();
    double s = vf_double("s", 10, 400), off = vf_double("off", -1, 1);
    SE_ReportObjectRoadPos(id, 7, -1, 0.3, s);
    SE_StepDT(0.1);
    VF_ASSERT("ok", SE_ReportObjectLateralLanePosition(id, lane, off) == 0);
    SE_StepDT(0.1);
    auto a = state(id);
    VF_NEAR("s", a.s, s, 1e-6);
    VF_NEAR("t", a.t, lt + off, 1e-6);
    VF_NEAR("offset", a.laneOffset, off, 1e-6);
    VF_ASSERT("lane", a.laneId == lane);
    SE_Close();
}
VF_CASE(report_lat_lane) { latLane(-3, -8.75); }
VF_CASE(report_lat_lane_same) { latLane(-1, -1.75); }
VF_CASE(report_lat_lane_left) { latLane(1, 1.75); }
VF_CASE(report_motion)
{
    int    id = external();
    double q = vf_double("q", -20, 20), x, y, z;
    SE_ReportObjectRoadPos(id, 7, -1, 0, 100);
    SE_StepDT(0.1);
    VF_ASSERT("ok", SE_ReportObjectSpeed(id, q) == 0 && SE_ReportObjectVel(id, q, 2, 3) == 0 && SE_ReportObjectAcc(id, 4, q, 6) == 0);
    VF_ASSERT("ok", SE_ReportObjectAngularVel(id, 0.1, 0.2, q) == 0 && SE_ReportObjectAngularAcc(id, q, 0.5, 0.6) == 0 && SE_ReportObjectWheelStatus(id, q, 0.2) == 0);
    SE_StepDT(0.1);
    auto a = state(id);
    VF_NEAR("speed", a.speed, q, 1e-9);
    VF_NEAR("wheel_rot", a.wheel_rot, q, 1e-9);
    VF_NEAR("wheel_angle", a.wheel_angle, 0.2, 1e-9);
    VF_ASSERT("get", SE_GetObjectVelocityGlobalXYZ(id, &x, &y, &z) == 0);
    VF_NEAR("vel", x, q, 1e-9);
    VF_NEAR("vel", y, 2, 1e-9);
    VF_NEAR("vel", z, 3, 1e-9);
    VF_ASSERT("get", SE_GetObjectAccelerationGlobalXYZ(id, &x, &y, &z) == 0);
    VF_NEAR("acc", x, 4, 1e-9);
    VF_NEAR("acc", y, q, 1e-9);
    VF_NEAR("acc", z, 6, 1e-9);
    VF_ASSERT("get", SE_GetObjectAngularVelocity(id, &x, &y, &z) == 0);
    VF_NEAR("rate", x, 0.1, 1e-9);
    VF_NEAR("rate", y, 0.2, 1e-9);
    VF_NEAR("rate", z, q, 1e-9);
    VF_ASSERT("get", SE_GetObjectAngularAcceleration(id, &x, &y, &z) == 0);
    VF_NEAR("angacc", x, q, 1e-9);
    VF_NEAR("angacc", y, 0.5, 1e-9);
    VF_NEAR("angacc", z, 0.6, 1e-9);
    others(0.2);
    SE_Close();
}
VF_CASE(report_velocity_derived)
{
    int    id = external();
    double d = vf_double("d", -3, 3), x, y, z, lat, lon;
    SE_ReportObjectRoadPos(id, 7, -1, 0, 100);
    SE_StepDT(0.1);
    SE_ReportObjectRoadPos(id, 7, -1, 0, 100 + d);
    SE_StepDT(0.1);
    VF_ASSERT("get", SE_GetObjectVelocityGlobalXYZ(id, &x, &y, &z) == 0);
    VF_NEAR("vel", x, d / 0.1 * cos(H), 1e-6);
    VF_NEAR("vel", y, d / 0.1 * sin(H), 1e-6);
    SE_ReportObjectRoadPos(id, 7, -1, 0, 100 + d + 1);
    SE_StepDT(0.1);
    VF_ASSERT("get", SE_GetObjectAccelerationGlobalXYZ(id, &x, nullptr, nullptr) == 0);
    VF_NEAR("acc", x, (1 - d) / 0.01 * cos(H), 1e-4);
    VF_ASSERT("get", SE_GetObjectAccelerationLocalLatLong(id, &lat, &lon) == 0);
    VF_NEAR("lat", lat, 0, 1e-4);
    VF_NEAR("long", lon, (1 - d) / 0.01, 1e-4);
    VF_NEAR("abs", fabs(SE_GetObjectAcceleration(id)), fabs(1 - d) / 0.01, 1e-4);
    SE_Close();
}
// every function refuses an id that does not exist and leaves all objects alone
VF_CASE(unknown)
{
    external();
    int             id = vf_int("id", -3, 4);
    SE_RoadInfo     ri;
    SE_PositionDiff pd;
    SE_RouteInfo    rt;
    SE_WheelData    wd;
    SE_LightState   ls;
    St              st;
    SE_OverrideActionList ol;
    double          x, y, z;
    bool            known = id >= 0 && id <= 2;
    auto            before0 = state(0);
    if (known)
    {
        VF_ASSERT("known", SE_GetObjectState(id, &st) == 0 && st.id == id && SE_GetObjectName(id) != nullptr && SE_GetObjectTypeName(id) != nullptr);
        VF_ASSERT("snap", SE_SetSnapLaneTypes(id, -1) == 0 && SE_SetLockOnLane(id, true) == 0);
    }
    else
    {
        VF_ASSERT("refused", SE_GetObjectState(id, &st) == -1 && SE_ReportObjectPos(id, 0, 0, 0, 0, 0, 0) == -1 && SE_ReportObjectPosMode(id, 0, 0, 0, 0, 0, 0, 0) == -1);
        VF_ASSERT("refused", SE_ReportObjectPosXYH(id, 0, 0, 0) == -1 && SE_ReportObjectRoadPos(id, 7, -1, 0, 10) == -1 && SE_ReportObjectSpeed(id, 3) == -1);
        VF_ASSERT("refused", SE_ReportObjectLateralPosition(id, 0) == -1 && SE_ReportObjectLateralLanePosition(id, 1, 0) == -1 && SE_ReportObjectVel(id, 1, 1, 1) == -1);
        VF_ASSERT("refused", SE_ReportObjectAcc(id, 1, 1, 1) == -1 && SE_ReportObjectAngularVel(id, 1, 1, 1) == -1 && SE_ReportObjectAngularAcc(id, 1, 1, 1) == -1 && SE_ReportObjectWheelStatus(id, 1, 1) == -1);
        VF_ASSERT("refused", SE_SetSnapLaneTypes(id, -1) == -1 && SE_SetLockOnLane(id, true) == -1 && SE_DeleteObject(id) == -1);
        VF_ASSERT("refused", SE_GetRoadInfoAtDistance(id, 10, &ri, 0, true) == -1 && SE_GetRoadInfoAlongRoute(id, 10, &ri, 0, true) == -1);
        VF_ASSERT("refused", SE_GetDistanceToObject(id, 0, false, &pd) == -1 && SE_GetDistanceToObject(0, id, true, &pd) == -1 && SE_GetTimeToCollision(0, id, 1, REL_DIST_EUCLIDIAN, false, &x) == -1);
        VF_ASSERT("refused", SE_GetTimeToCollision(id, 0, 1, REL_DIST_EUCLIDIAN, false, &x) == -1 && SE_SimpleGetDistanceToObject(id, 0, REL_DIST_LONGITUDINAL, 100, &x, &y) == -1 && SE_SimpleGetDistanceToObject(0, id, REL_DIST_LONGITUDINAL, 100, &x, &y) == -1);
        VF_ASSERT("refused", SE_GetNumberOfRoutePoints(id) == -1 && SE_GetRoutePoint(id, 0, &rt) == -1 && SE_GetRouteTotalLength(id) == -1 && SE_GetObjectRouteStatus(id) == -1);
        VF_ASSERT("refused", SE_GetObjectVelocityGlobalXYZ(id, &x, &y, &z) == -1 && SE_GetObjectAccelerationGlobalXYZ(id, &x, &y, &z) == -1 && SE_GetObjectAngularVelocity(id, &x, &y, &z) == -1 && SE_GetObjectAngularAcceleration(id, &x, &y, &z) == -1 && SE_GetObjectAccelerationLocalLatLong(id, &x, &y) == -1);
        VF_ASSERT("refused", SE_GetObjectNumberOfWheels(id) == -1 && SE_GetObjectWheelData(id, 0, &wd) == -1 && SE_GetObjectNumberOfCollisions(id) == -1 && SE_GetObjectCollision(id, 0) == -1 && SE_ObjectCanChangeLanes(id) == -1);
        VF_ASSERT("refused", SE_GetObjectLightState(id, LOW_BEAM, &ls) == -1 && SE_GetOverrideActionStatus(id, &ol) == -1 && SE_GetObjectName(id) == nullptr && SE_GetObjectTypeName(id) == nullptr && SE_AddObjectSensor(id, 0, 0, 0, 0, 1, 50, 1, 10) == -1);
        VF_ASSERT("refused", SE_GetObjectGhostId(id) == -1 && SE_ObjectHasGhost(id) < 1);
    }
    VF_ASSERT("index", (SE_GetId(id) == -1) == !known);
    VF_ASSERT("unaffected", SE_GetNumberOfObjects() == 3);
    auto after0 = state(0);
    VF_ASSERT("unaffected", id == 0 || !memcmp(&before0, &after0, sizeof after0));
    SE_StepDT(0.1);
    others(0.1);
    SE_Close();
}
// added and deleted objects: ids are never reused, the remaining objects keep id, name and state
static void del(int first)
{
    external();
    double v = vf_double("v", 1, 20);
    SE_OSCBoundingBox bb = {{0, 0, 1}, {1, 1, 2}};
    int               p  = SE_AddObjectWithBoundingBox("Ped", 2, 0, 0, 0, nullptr, bb, 0);
    VF_ASSERT("id", p == 3 && SE_GetNumberOfObjects() == 4);
    SE_ReportObjectRoadPos(p, 7, -3, 0.5, 60);
    SE_ReportObjectRoadPos(2, 7, -1, 0, 80);
    SE_ReportObjectSpeed(2, v);
    SE_StepDT(0.1);
    VF_ASSERT("delete", SE_DeleteObject(first) == 0);
    VF_ASSERT("gone", SE_GetNumberOfObjects() == 3 && SE_DeleteObject(first) == -1);
    St tmp;
    VF_ASSERT("gone", SE_GetObjectState(first, &tmp) == -1 && SE_GetIdByName(first == 2 ? "Ext" : "Other") == -1);
    int n = SE_AddObjectWithBoundingBox("New", 1, 0, 0, 0, nullptr, bb, 0);
    VF_ASSERT("fresh_id", n == 4 && SE_GetIdByName("New") == 4);
    VF_ASSERT("snap", SE_SetSnapLaneTypes(n, -1) == 0 && SE_SetLockOnLane(n, true) == 0);
    SE_ReportObjectRoadPos(n, 7, 1, 0, 90);
    SE_StepDT(0.1);
    auto a = state(0), b = state(3), c = state(4);
    VF_ASSERT("ids", a.id == 0 && b.id == 3 && c.id == 4 && b.objectType == 2 && c.objectType == 1);
    VF_NEAR("kept", a.s, 51, 1e-6);
    VF_NEAR("kept", b.s, 60, 1e-6);
    VF_NEAR("kept", b.t, -8.25, 1e-6);
    VF_NEAR("kept", c.s, 90, 1e-6);
    VF_ASSERT("names", !strcmp(SE_GetObjectName(3), "Ped") && !strcmp(SE_GetObjectName(4), "New"));
    SE_Close();
}
VF_CASE(delete_external) { del(2); }
VF_CASE(delete_scenario) { del(1); }
VF_CASE(unnamed_objects)
{
    external();
    int a = SE_AddObject(nullptr, 1, 0, 0, 0, nullptr), b = SE_AddObject(nullptr, 1, 0, 0, 0, nullptr);
    VF_ASSERT("id", a == 3 && b == 4);
    VF_ASSERT("names_differ", std::string(SE_GetObjectName(a)) != SE_GetObjectName(b));
    SE_Close();
}
// ---- distances
static void distances(double sb, int lb, double tb)
{
    external();
    double s = vf_double("s", 60, 160), t = -5.25;
    VF_ASSUME(fabs(s - sb) > 8);
    SE_ReportObjectPosXYH(2, lx(sb, tb), ly(sb, tb), lb < 0 ? H : H + M_PI);
    SE_ReportObjectRoadPos(0, 7, -2, 0, s);
    SE_PositionDiff d;
    VF_ASSERT("ok", SE_GetDistanceToObject(0, 2, false, &d) == 0);
    VF_NEAR("ds", d.ds, sb - s, 1e-5);
    VF_NEAR("dt", d.dt, tb - t, 1e-5);
    VF_ASSERT("lanes", d.dLaneId == (lb > 0 ? lb + 1 : lb + 2));
    VF_ASSERT("opposite", d.oppositeLanes == (lb > 0));
    VF_ASSERT("ok", SE_GetDistanceToObject(0, 2, true, &d) == 0);
    // bodies: own -1.1..3.9, other -0.75..3.75 (along its own heading)
    double front = 3.9, rear = -1.1, of = lb < 0 ? 3.75 : 0.75, orr = lb < 0 ? -0.75 : -3.75;
    VF_NEAR("free", d.ds, sb > s ? sb + orr - s - front : sb + of - s - rear, 1e-4);
    SE_Close();
}
VF_CASE(distance_lane) { distances(110, -2, -5.25); }
VF_CASE(distance_next) { distances(110, -1, -1.75); }
VF_CASE(distance_opposite) { distances(110, 1, 1.75); }
static void simple(double sb, double tb, SE_RelativeDistanceType ty)
{
    external();
    double s = vf_double("s", 60, 160), dist = -1, ts = -1, t = -5.25;
    SE_ReportObjectRoadPos(2, 7, -1, 0, sb);
    SE_ReportObjectRoadPos(0, 7, -2, 0, s);
    int r = SE_SimpleGetDistanceToObject(0, 2, ty, 200, &dist, &ts);
    VF_ASSERT("ok", r == 0);
    if (ty == REL_DIST_LONGITUDINAL) VF_NEAR("long", dist, sb - s, 1e-4);
    if (ty == REL_DIST_LATERAL) VF_NEAR("lat", dist, tb - t, 1e-4);
    if (ty == REL_DIST_EUCLIDIAN) VF_NEAR("euclid", dist * dist, (sb - s) * (sb - s) + (tb - t) * (tb - t), 2e-3);
    SE_Close();
}
VF_CASE(simple_long) { simple(110, -1.75, REL_DIST_LONGITUDINAL); }
VF_CASE(simple_lat) { simple(110, -1.75, REL_DIST_LATERAL); }
VF_CASE(simple_euclid) { simple(110, -1.75, REL_DIST_EUCLIDIAN); }
VF_CASE(ttc)
{
    double v = vf_double("v", 6, 30), ttc;
    init(two(teleport(lanePos(7, -2, 50)) + absSpeed(v), teleport(lanePos(7, -2, 120)) + absSpeed(5)));
    SE_StepDT(0.1);
    VF_ASSERT("ok", SE_GetTimeToCollision(0, 1, 2, REL_DIST_LONGITUDINAL, false, &ttc) == 0);
    VF_NEAR("ttc", ttc * (v - 5), 120.5 - 50 - 0.1 * v, 1e-3);
    VF_ASSERT("ok", SE_GetTimeToCollision(0, 1, 2, REL_DIST_LONGITUDINAL, true, &ttc) == 0);
    VF_NEAR("ttc_free", ttc * (v - 5), 120.5 - 50 - 0.1 * v - 5, 1e-3);
    VF_ASSERT("null", SE_GetTimeToCollision(0, 1, 2, REL_DIST_LONGITUDINAL, true, nullptr) == -1);
    SE_Close();
}
// ---- looking ahead
static void look(int mode, bool drive, double d, int lane, double lt, bool withH)
{
    init(two(teleport(lanePos(7, lane, 150, 0.4)) + absSpeed(5), I2));
    double dist = vf_double("dist", 5, 60);
    SE_StepDT(0.1);
    auto        a  = state(0);
    double      sg = lane < 0 ? 1 : -1, s = 150 + sg * 0.5, ds = s + sg * dist, t = mode == 1 ? 0 : lt + (mode == 2 ? 0.4 : 0);
    SE_RoadInfo r;
    memset(&r, 0, sizeof r);
    VF_ASSERT("ok", SE_GetRoadInfoAtDistance(0, dist, &r, mode, drive) >= 0);
    VF_NEAR("x", r.global_pos_x, lx(ds, t), 1e-5);
    VF_NEAR("y", r.global_pos_y, ly(ds, t), 1e-5);
    VF_NEAR("s", r.s, ds, 1e-5);
    VF_NEAR("t", r.t, t, 1e-5);
    VF_ASSERT("road", r.roadId == 7);
    // in the frame of the vehicle: ahead, and sideways by the difference in t
    VF_NEAR("local_x", r.local_pos_x, dist, 1e-4);
    VF_NEAR("local_y", r.local_pos_y, sg * (t - lt - 0.4), 1e-4);
    VF_NEAR("angle", r.local_pos_x * sin(r.angle) - r.local_pos_y * cos(r.angle), 0, 1e-4);
    auto b = state(0);
    VF_ASSERT("state_kept", !memcmp(&a, &b, sizeof a));
    SE_Close();
}
VF_CASE(look_lane) { look(0, true, 0, -2, -5.25, false); }
VF_CASE(look_road) { look(1, true, 0, -2, -5.25, false); }
VF_CASE(look_offset) { look(2, true, 0, -2, -5.25, false); }
VF_CASE(look_offset_left) { look(2, false, 0, 1, 1.75, false); }
// ---- lane change permission by road marks
static void canChange(int lane, const char* lc1, const char* lc2, int before, int after)
{
    Doc  d = two(teleport(lanePos(7, -2, 50)), I2);
    auto mark = [](double s, const char* lc) { return std::string("<roadMark sOffset=\"") + N(s) + "\" type=\"broken\" weight=\"standard\" color=\"white\" width=\"0.1\" laneChange=\"" + lc + "\"/>"; };
    auto r = straight(500, 2, 3);
    r.id   = 7;
    double b = vf_double("border", 120, 180), s = vf_double("s", 105, 195);
    VF_ASSUME(fabs(s - b) > 1e-3);
    for (auto& l : r.sec[0].lanes)
        if (l.id == -2 || l.id == 2) l.extra = mark(0, lc1) + mark(b - 100, lc2);
    odr::SecDef s2 = r.sec[0];
    s2.s           = 100;
    r.sec[0].lanes.clear();
    for (auto& l : s2.lanes) { auto k = l; k.extra = ""; r.sec[0].lanes.push_back(k); }
    r.sec.push_back(s2);
    for (auto& l : r.sec[0].lanes) l.succ = l.id;
    for (auto& l : r.sec[1].lanes) l.pred = l.id;
    d.xodr = writeRoad(odr::doc({r}));
    init(d);
    SE_ReportObjectRoadPos(0, 7, lane, 0, s);
    VF_ASSERT("allowed", SE_ObjectCanChangeLanes(0) == (s < b ? before : after));
    SE_Close();
}
// bit 1: to the left (higher lane id), bit 2: to the right. The mark of lane -2 separates it from lane -3, the one of lane 2 is the road edge
VF_CASE(can_change_none_both) { canChange(-2, "none", "both", 1, 3); }
VF_CASE(can_change_inc_dec) { canChange(-2, "increase", "decrease", 1, 3); }
VF_CASE(can_change_from_right) { canChange(-3, "increase", "decrease", 1, 0); }
VF_CASE(can_change_none_right) { canChange(-3, "none", "both", 0, 1); }
VF_CASE(can_change_left_road) { canChange(2, "none", "none", 2, 2); }
// ---- injected actions
VF_CASE(inject_speed)
{
    double v = vf_double("v", 6, 10), T = 0.55;
    init(two(I1, I2));
    SE_StepDT(0.1);
    SE_SpeedActionStruct a = {0, v, 1, 2, T};
    VF_ASSERT("none", !SE_InjectedActionOngoing(-1));
    SE_InjectSpeedAction(&a);
    VF_ASSERT("ongoing", SE_InjectedActionOngoing(-1));
    double prev = 5;
    for (int i = 1; i <= 9; i++)
    {
        SE_StepDT(0.1);
        auto s = state(0);
        VF_LE("rising", prev, s.speed, 1e-6);
        VF_LE("target", s.speed, v, 1e-6);
        if (i <= 5) VF_ASSERT("not_yet", s.speed < v - 1e-4);
        prev = s.speed;
        VF_NEAR("other", state(1).speed, 5, 1e-9);
    }
    VF_NEAR("reached", prev, v, 1e-6);
    VF_ASSERT("finished", !SE_InjectedActionOngoing(-1));
    SE_Close();
}
VF_CASE(inject_lane_change)
{
    double T = vf_double("T", 0.42, 0.48);
    for (double g : {0.45}) VF_ASSUME(fabs(T - g) > 2e-3);
    init(two(I1, I2));
    SE_StepDT(0.1);
    SE_LaneChangeActionStruct a = {0, 1, 1, 2, 2, T};
    SE_InjectLaneChangeAction(&a);
    for (int i = 1; i <= 10; i++) SE_StepDT(0.1);
    auto s = state(0);
    VF_ASSERT("lane", s.laneId == -1);
    VF_NEAR("centre", s.laneOffset, 0, 1e-5);
    VF_LE("s", s.s, 50 + 5 * 1.1, 1e-6);
    VF_LE("s", 52, s.s, 1e-6);
    VF_ASSERT("finished", !SE_InjectedActionOngoing(-1));
    SE_Close();
}
VF_CASE(inject_lane_offset)
{
    double o = vf_double("o", -1.5, 1.5);
    VF_ASSUME(fabs(o) > 0.05);
    init(two(I1, I2));
    SE_StepDT(0.1);
    SE_LaneOffsetActionStruct a = {0, o, 1000, 2};
    SE_InjectLaneOffsetAction(&a);
    for (int i = 1; i <= 8; i++) SE_StepDT(0.1);
    auto s = state(0);
    VF_ASSERT("lane", s.laneId == -2);
    VF_NEAR("offset", s.laneOffset, o, 1e-5);
    VF_ASSERT("finished", !SE_InjectedActionOngoing(-1));
    SE_Close();
}
VF_CASE(inject_two)
{
    double v = vf_double("v", 6, 7.4);
    init(two(I1, I2));
    SE_StepDT(0.1);
    SE_SpeedActionStruct a = {0, v, 1, 2, 0.35}, b = {1, v + 1, 1, 2, 0.35};
    SE_InjectSpeedAction(&a);
    SE_InjectSpeedAction(&b);
    for (int i = 1; i <= 5; i++) SE_StepDT(0.1);
    VF_NEAR("reached", state(0).speed, v, 1e-6);
    VF_NEAR("reached", state(1).speed, v + 1, 1e-6);
    VF_ASSERT("finished", !SE_InjectedActionOngoing(-1));
    SE_Close();
}
// ---- callbacks
static St     cbState[2];
static int    cbN;
static double cbSpeed;
static void   cb(St* s, void* data)
{
    cbState[s->id] = *s;
    cbN++;
    if (data) *static_cast<double*>(data) = s->speed;
}
VF_CASE(object_callback)
{
    double v = vf_double("v", 1, 40);
    init(two(teleport(lanePos(7, -2, 50)) + absSpeed(v), I2));
    cbN = 0;
    SE_RegisterObjectCallback(0, cb, &cbSpeed);
    SE_StepDT(0.1);
    VF_ASSERT("once_per_step", cbN == 1);
    VF_NEAR("state", cbState[0].s, 50 + 0.1 * v, 1e-6);
    VF_NEAR("data", cbSpeed, v, 1e-9);
    SE_StepDT(0.2);
    VF_ASSERT("once_per_step", cbN == 2);
    VF_NEAR("state", cbState[0].s, 50 + 0.3 * v, 1e-6);
    SE_Close();
}
VF_CASE(callback_override)
{
    // a callback may correct the object, the correction is what is reported after the step
    double x = vf_double("s", 60, 300);
    static double want;
    want = x;
    init(two(I1, I2));
    SE_RegisterObjectCallback(0, [](St* s, void*) { SE_ReportObjectRoadPos(s->id, 7, -1, 0, want); }, nullptr);
    SE_StepDT(0.1);
    auto a = state(0);
    VF_NEAR("s", a.s, x, 1e-6);
    VF_ASSERT("lane", a.laneId == -1);
    SE_Close();
}
// ---- wheels
VF_CASE(wheels)
{
    double v = vf_double("v", 1, 30);
    init(two(teleport(lanePos(7, -2, 50)) + absSpeed(v), I2));
    SE_StepDT(0.1);
    int n = SE_GetObjectNumberOfWheels(0);
    VF_ASSERT("n", n == 4);
    for (int i = 0; i < n; i++)
    {
        SE_WheelData w;
        memset(&w, 0, sizeof w);
        VF_ASSERT("ok", SE_GetObjectWheelData(0, i, &w) == 0);
        VF_NEAR("radius", w.wheel_radius, 0.3, 1e-6);
        VF_NEAR("axle", w.x, w.axle == 0 ? 3.1 : 0, 1e-6);
        VF_NEAR("track", fabs(w.y), 0.9, 1e-6);
        VF_NEAR("rot", sin(w.p - state(0).wheel_rot), 0, 1e-9);
    }
    SE_WheelData w;
    VF_ASSERT("index", SE_GetObjectWheelData(0, n, &w) == -1 && SE_GetObjectWheelData(0, -1, &w) == -1);
    SE_Close();
}
// ---- signs
VF_CASE(signs)
{
    double s = vf_double("s", 10, 400), t = -7;
    Doc    d = two(I1, I2);
    auto   r = straight(500, 2, 3);
    r.id     = 7;
    r.extra  = "<signals><signal s=\"" + N(s) + "\" t=\"-7\" id=\"11\" name=\"stop\" dynamic=\"no\" orientation=\"-\" zOffset=\"1.5\" country=\"se\" type=\"206\" subtype=\"-1\" value=\"-1\" height=\"0.6\" width=\"0.5\"><validity fromLane=\"-2\" toLane=\"-1\"/></signal></signals>";
    r.geo    = {{0, 5, -3, H, 500, "<line/>"}};
    d.xodr   = writeRoad(odr::doc({r}));
    init(d);
    VF_ASSERT("n", SE_GetNumberOfRoadSigns(7) == 1 && SE_GetNumberOfRoadSigns(8) == 0);
    SE_RoadSign q;
    memset(&q, 0, sizeof q);
    VF_ASSERT("ok", SE_GetRoadSign(7, 0, &q) == 0);
    VF_NEAR("x", q.x, lx(s, t), 1e-5);
    VF_NEAR("y", q.y, ly(s, t), 1e-5);
    VF_NEAR("s", q.s, s, 1e-6);
    VF_NEAR("t", q.t, t, 1e-6);
    VF_NEAR("size", q.z_offset + 10 * q.height + 100 * q.width, 1.5 + 6 + 50, 1e-6);
    VF_ASSERT("attributes", q.id == 11 && q.orientation == -1 && !strcmp(q.name, "stop") && q.roadId == 7);
    SE_RoadObjValidity va;
    VF_ASSERT("validity", SE_GetNumberOfRoadSignValidityRecords(7, 0) == 1 && SE_GetRoadSignValidityRecord(7, 0, 0, &va) == 0 && va.fromLane == -2 && va.toLane == -1);
    VF_ASSERT("unknown", SE_GetRoadSign(7, 1, &q) == -1 && SE_GetRoadSign(8, 0, &q) == -1 && SE_GetRoadSignValidityRecord(7, 0, 1, &va) == -1);
    VF_ASSERT("unknown_validity", SE_GetNumberOfRoadSignValidityRecords(7, 1) == 0 && SE_GetRoadSignValidityRecord(7, 1, 0, &va) == -1);
    SE_Close();
}
// ---- before initialisation and after closing everything is refused
VF_CASE(closed)
{
    int id = vf_int("id", -1, 2);
    if (id == 2) { init(two(I1, I2)); SE_Close(); }
    St              st;
    SE_PositionDiff pd;
    SE_WheelData    wd;
    SE_RoadSign     rs;
    double          x;
    VF_ASSERT("refused", SE_StepDT(0.1) == -1 && SE_GetNumberOfObjects() == -1 && SE_GetObjectState(id, &st) == -1 && SE_ReportObjectPosXYH(id, 0, 0, 0) == -1 && SE_GetIdByName("Ego") == -1);
    VF_ASSERT("refused", SE_GetDistanceToObject(id, 0, false, &pd) == -1 && SE_GetRoadSign(7, 0, &rs) == -1 && SE_GetNumberOfRoadSigns(7) == 0 && SE_AddObject("x", 1, 0, 0, 0, nullptr) == -1 && SE_GetId(id) == -1 && SE_DeleteObject(id) == -1);
    VF_ASSERT("refused", SE_GetTimeToCollision(id, 0, 1, REL_DIST_EUCLIDIAN, false, &x) == -1 && SE_GetSimulationTime() == 0.0 && !SE_InjectedActionOngoing(-1));
    VF_ASSERT("refused_wheels", SE_GetObjectNumberOfWheels(id) == -1 && SE_GetObjectWheelData(id, 0, &wd) == -1);
}
// a second scenario does not inherit anything from the first
VF_CASE(restart)
{
    double v = vf_double("v", 1, 20);
    init(two(I1, I2));
    SE_StepDT(0.5);
    int id = SE_AddObject("x", 1, 0, 0, 0, nullptr);
    VF_ASSERT("id", id == 2);
    SE_Close();
    init(two(teleport(lanePos(7, -1, 80)) + absSpeed(v), I2));
    VF_ASSERT("objects", SE_GetNumberOfObjects() == 2);
    VF_NEAR("time", SE_GetSimulationTime(), 0, 1e-9);
    SE_StepDT(0.1);
    VF_NEAR("time", SE_GetSimulationTime(), 0.1, 1e-9);
    auto a = state(0);
    VF_NEAR("s", a.s, 80 + 0.1 * v, 1e-6);
    VF_NEAR("odo", SE_GetObjectOdometer(0), 0.1 * v, 1e-6);
    VF_ASSERT("id", SE_AddObject("y", 1, 0, 0, 0, nullptr) == 2);
    SE_Close();
}
