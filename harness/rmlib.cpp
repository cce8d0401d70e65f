// C21: the road manager library (C API) reports what the road description says
#include "common.h"
#include "esminiRMLib.hpp"
#include <cstring>
static const double W0 = 3.5;
// two straight roads in line (road 10, then road 20) with several lane types, heading h
static std::string net(double h, const char* rule = "RHT", const std::string& extra = "", const std::string& type = "", double k = 0)
{
    odr::RoadDef a;
    a.id     = 10;
    a.length = 100;
    a.rule   = rule;
    a.type   = type;
    a.extra  = extra;
    a.geo    = {{0, 5, -3, h, 100, k == 0 ? std::string("<line/>") : odr::arc(k)}};
    odr::SecDef s1, s2;
    s1.s     = 0;
    s1.lanes = {{2, {odr::W(2)}, "sidewalk", 0, 2}, {1, {odr::W(W0)}, "driving", 0, 1}, {-1, {odr::W(W0)}, "driving", 0, -1}, {-2, {odr::W(1.5)}, "shoulder", 0, -2}};
    s2.s     = 60;
    s2.lanes = {{2, {odr::W(2)}, "sidewalk", 2, 2}, {1, {odr::W(W0)}, "driving", 1, 1}, {-1, {odr::W(W0, 0.02)}, "driving", -1, -1}, {-2, {odr::W(3)}, "driving", -2, -2}, {-3, {odr::W(1.2)}, "biking", 0, 0}};
    a.sec    = {s1, s2};
    a.succ   = {"road", 20, "start"};
    odr::RoadDef b = a;
    b.id           = 20;
    b.type         = "";
    b.extra        = "";
    b.succ         = {};
    b.pred         = {"road", 10, "end"};
    double ex = 5 + 100 * cos(h), ey = -3 + 100 * sin(h);
    b.geo     = {{0, ex, ey, h, 100, "<line/>"}};
    s1.lanes  = {{2, {odr::W(2)}, "sidewalk", 2, 0}, {1, {odr::W(W0)}, "driving", 1, 0}, {-1, {odr::W(W0 + 0.8)}, "driving", -1, 0}, {-2, {odr::W(3)}, "driving", -2, 0}};
    b.sec     = {s1};
    if (k != 0) { a.succ = {}; return odr::doc({a}); }
    return odr::doc({a, b});
}
static void init(const std::string& x)
{
    SE_Env::Inst().SetOSIMaxLongitudinalDistance(500.0);
    SE_Env::Inst().SetOSIMaxLateralDeviation(100.0);
    VF_ASSERT("init", RM_InitWithString(x.c_str()) == 0);
}
static double laneT(int lane, double s)  // lane centre
{
    double w1 = s < 60 ? W0 : W0 + 0.02 * (s - 60);
    switch (lane)
    {
        case 2: return W0 + 1;
        case 1: return W0 / 2;
        case -1: return -w1 / 2;
        case -2: return -w1 - (s < 60 ? 0.75 : 1.5);
        default: return -w1 - 3.6;
    }
}
static RM_PositionData get(int h)
{
    RM_PositionData d;
    VF_ASSERT("get", RM_GetPositionData(h, &d) == 0);
    return d;
}
// lane positions: coordinates, and heading aligned with the traffic of the lane
static void lanePos(double h, const char* rule, int lane, bool second)
{
    init(net(h, rule));
    bool   lht = rule[0] == 'L';
    double s = second ? vf_double("s", 61, 99) : vf_double("s", 1, 59), off = vf_double("off", -0.5, 0.5);
    int    p = RM_CreatePosition();
    VF_ASSERT("create", p == 0);
    VF_ASSERT("set", RM_SetLanePosition(p, 10, lane, off, s, true) >= 0);
    auto   d = get(p);
    double t = laneT(lane, s) + off;
    VF_NEAR("x", d.x, 5 + s * cos(h) - t * sin(h), 1e-5);
    VF_NEAR("y", d.y, -3 + s * sin(h) + t * cos(h), 1e-5);
    VF_ASSERT("ids", d.roadId == 10 && d.laneId == lane && d.junctionId == RM_ID_UNDEFINED);
    VF_NEAR("s", d.s, s, 1e-9);
    VF_NEAR("offset", d.laneOffset, off, 1e-6);
    bool along = (lane < 0) != lht;
    VF_NEAR("aligned", cos(d.h - h), along ? 1 : -1, 1e-3);  // the lane may run at a slight angle to the road
    VF_NEAR("h_relative", cos(d.hRelative), along ? 1 : -1, 1e-3);
    double w;
    VF_ASSERT("width", RM_GetLaneWidth(p, lane, &w) == 0);
    VF_NEAR("width", w, lane == 1 ? W0 : lane == 2 ? 2 : lane == -1 ? (s < 60 ? W0 : W0 + 0.02 * (s - 60)) : lane == -2 ? (s < 60 ? 1.5 : 3) : 1.2, 1e-6);
    double w2;
    VF_ASSERT("width", RM_GetLaneWidthByRoadId(10, lane, s, &w2) == 0);
    VF_NEAR("width", w2, w, 1e-9);
    int ty = RM_GetLaneType(p, lane), want = lane == 2 ? (1 << 5) : lane == -2 && !second ? (1 << 3) : lane == -3 ? (1 << 4) : (1 << 1);
    VF_ASSERT("type", ty == RM_GetLaneTypeByRoadId(10, lane, s) && ty == want);
    VF_ASSERT("in_type", RM_GetInLaneType(p) == want);
    // moving on keeps lane and offset, in the direction of traffic
    if (lane != -3 && !(lane == -1 && second))
    {
        double m = second == along ? -0.9 : 0.9;
        VF_ASSERT("move", RM_PositionMoveForward(p, m, 0.0) >= 0);
        auto e = get(p);
        VF_NEAR("moved", e.s - s, along ? m : -m, 1e-5);
        VF_ASSERT("moved_lane", e.laneId == lane && e.roadId == 10);
        VF_NEAR("moved_offset", e.laneOffset, off, 1e-5);
    }
    // same place through s only
    VF_ASSERT("set_s", RM_SetS(p, second ? 80 : 20) >= 0);
    auto g = get(p);
    VF_NEAR("set_s", g.s, second ? 80 : 20, 1e-9);
    VF_ASSERT("set_s_lane", g.laneId == lane);
    VF_NEAR("set_s_offset", g.laneOffset, off, 1e-6);
    RM_Close();
}
VF_CASE(lane_m1) { lanePos(0.4, "RHT", -1, false); }
VF_CASE(lane_p1) { lanePos(0.4, "RHT", 1, true); }
VF_CASE(lane_p2) { lanePos(2.6, "RHT", 2, false); }
VF_CASE(lane_m2) { lanePos(-0.9, "RHT", -2, false); }
VF_CASE(lane_m3) { lanePos(-0.9, "RHT", -3, true); }
VF_CASE(lane_m1_wide) { lanePos(1.0, "RHT", -1, true); }
VF_CASE(lane_m1_lht) { lanePos(0.4, "LHT", -1, false); }
VF_CASE(lane_p1_lht) { lanePos(-2.0, "LHT", 1, true); }
// road positions
static void roadPos(const char* rule, bool left)
{
    double h = 0.7;
    init(net(h, rule));
    bool   lht = rule[0] == 'L';
    double s = vf_double("s", 1, 59), t = left ? vf_double("t", 0.2, 5) : vf_double("t", -4.8, -0.2);
    VF_ASSUME(fabs(fabs(t) - 3.5) > 1e-3);
    int p = RM_CreatePosition();
    RM_SetSnapLaneTypes(p, -1);
    VF_ASSERT("set", RM_SetRoadPosition(p, 10, s, t, true) >= 0);
    auto d = get(p);
    VF_NEAR("x", d.x, 5 + s * cos(h) - t * sin(h), 1e-5);
    VF_NEAR("y", d.y, -3 + s * sin(h) + t * cos(h), 1e-5);
    VF_NEAR("aligned", cos(d.h - h), (t < 0) != lht ? 1 : -1, 1e-6);
    VF_ASSERT("lane", d.laneId == (t > W0 ? 2 : t > 0 ? 1 : t > -W0 ? -1 : -2));
    VF_NEAR("offset", d.laneOffset, t - laneT(d.laneId, s), 1e-5);
    RM_Close();
}
VF_CASE(road_right) { roadPos("RHT", false); }
VF_CASE(road_left) { roadPos("RHT", true); }
VF_CASE(road_left_lht) { roadPos("LHT", true); }
// world positions, heading relative and absolute
static void world(int mode)
{
    double h = 0.7;
    init(net(h));
    double s = vf_double("s", 5, 55), t = vf_double("t", -3.2, -0.3), a = vf_double("a", -0.6, 0.6);
    double x = 5 + s * cos(h) - t * sin(h), y = -3 + s * sin(h) + t * cos(h);
    int    p = RM_CreatePosition();
    if (mode == 0) RM_SetWorldPosition(p, x, y, 1.5, a, 0.1, -0.2);
    if (mode == 1) RM_SetWorldXYHPosition(p, x, y, a);
    if (mode == 2) RM_SetWorldXYZHPosition(p, x, y, 1.5, a);
    if (mode == 3) RM_SetWorldPositionMode(p, x, y, 0.5, a, 0, 0, RM_Z_REL | RM_H_REL | RM_P_REL | RM_R_REL);
    if (mode == 4) RM_SetWorldPositionMode(p, x, y, 0.5, a, 0.1, 0.2, 0);
    auto d = get(p);
    VF_NEAR("x", d.x, x, 1e-5);
    VF_NEAR("y", d.y, y, 1e-5);
    VF_NEAR("s", d.s, s, 1e-4);
    VF_ASSERT("lane", d.roadId == 10 && d.laneId == -1);
    VF_NEAR("offset", d.laneOffset, t + W0 / 2, 1e-4);
    double H = mode == 3 ? h + a : a;
    VF_NEAR("heading", cos(d.h - H), 1, 1e-6);
    VF_NEAR("heading", sin(d.h - H), 0, 1e-5);
    VF_NEAR("h_relative", sin(d.hRelative - (H - h)), 0, 1e-5);
    VF_NEAR("z", d.z, mode == 0 || mode == 2 ? 1.5 : mode == 1 ? 0 : 0.5, 1e-6);
    if (mode == 0) VF_NEAR("pitch", d.p, 0.1, 1e-5);
    // heading alone
    VF_ASSERT("set_h", RM_SetHMode(p, a, RM_H_REL) == 0);
    VF_NEAR("set_h_rel", sin(get(p).h - h - a), 0, 1e-5);
    VF_ASSERT("set_h", RM_SetHMode(p, a, RM_H_ABS) == 0);
    VF_NEAR("set_h_abs", sin(get(p).h - a), 0, 1e-5);
    RM_SetObjectPositionMode(p, 1, RM_H_REL);
    VF_ASSERT("set_h", RM_SetH(p, a) == 0);
    VF_NEAR("set_h_rel", sin(get(p).h - h - a), 0, 1e-5);
    RM_SetObjectPositionMode(p, 1, RM_H_ABS);
    VF_ASSERT("set_h", RM_SetH(p, a) == 0);
    VF_NEAR("set_h_abs", sin(get(p).h - a), 0, 1e-5);
    RM_Close();
}
VF_CASE(world_full) { world(0); }
VF_CASE(world_xyh) { world(1); }
VF_CASE(world_xyzh) { world(2); }
VF_CASE(world_rel) { world(3); }
VF_CASE(world_default) { world(4); }
// looking ahead: mode 0 = lane centre, 1 = road centre, 2 = current offset
static void look(int lane, double hrel, int mode, bool drive, bool probe, bool crossing)
{
    double h = 0.3;
    init(net(h));
    // along: does the object look along s?
    bool   along = drive ? lane < 0 : cos(hrel) > 0;
    double L = vf_double("L", 1, 28), off = 0.4, s0 = crossing ? 95 : lane > 0 || hrel < -1.6 ? 31 : 10;
    if (crossing) VF_ASSUME(L > 5.1);
    int p = RM_CreatePosition();
    RM_SetLanePosition(p, 10, lane, off, s0, false);
    RM_SetHMode(p, hrel, RM_H_REL);
    VF_NEAR("rel", sin(get(p).hRelative - hrel), 0, 1e-6);
    RM_RoadProbeInfo d;
    int              r = probe ? RM_GetProbeInfo(p, L, &d, mode, drive) : RM_GetLaneInfo(p, L, &d.road_lane_info, mode, drive);
    VF_ASSERT("ok", r >= 0);
    auto&  i  = d.road_lane_info;
    double s1 = crossing ? s0 + L - 100 : s0 + (along ? L : -L);
    VF_ASSERT("road", i.roadId == (crossing ? 20u : 10u));
    VF_NEAR("s", i.s, s1, 2e-4);
    double t = mode == 1 ? 0 : (crossing && lane < 0 ? -(W0 + 0.8) / 2 : laneT(lane, 20)) + (mode == 2 ? off : 0);
    VF_NEAR("t", i.t, t, 2e-3);
    double S = s1 + (crossing ? 100 : 0);
    VF_NEAR("x", i.pos.x, 5 + S * cos(h) - t * sin(h), 3e-3);
    VF_NEAR("y", i.pos.y, -3 + S * sin(h) + t * cos(h), 3e-3);
    VF_NEAR("heading", sin(i.heading - h), 0, 1e-5);
    VF_NEAR("curvature", i.curvature, 0, 1e-9);
    if (mode != 1) VF_ASSERT("lane", i.laneId == lane);
    if (probe)
    {
        auto   g  = get(p);
        double dx = i.pos.x - g.x, dy = i.pos.y - g.y;
        VF_NEAR("local_x", d.relative_pos.x, dx * cos(g.h) + dy * sin(g.h), 1e-4);
        VF_NEAR("local_y", d.relative_pos.y, -dx * sin(g.h) + dy * cos(g.h), 1e-4);
    }
    auto g = get(p);
    VF_NEAR("unmoved", g.s, s0, 1e-9);
    VF_NEAR("unmoved", g.laneOffset, off, 1e-6);
    RM_Close();
}
VF_CASE(look_lane) { look(-1, 0.2, 0, false, false, false); }
VF_CASE(look_road) { look(-1, -0.2, 1, false, false, false); }
VF_CASE(look_offset) { look(-1, 0.2, 2, false, false, false); }
VF_CASE(look_left_back) { look(1, 2.9, 0, false, false, false); }
VF_CASE(look_drive_wrong) { look(-1, 2.5, 2, true, false, false); }
VF_CASE(look_drive_wrong_neg) { look(-1, -2.5, 2, true, false, false); }
VF_CASE(look_drive_left) { look(1, 2.5, 2, true, false, false); }
VF_CASE(look_drive_left_wrong) { look(1, 0.3, 2, true, true, false); }
VF_CASE(look_drive_left_wrong_neg) { look(1, -0.3, 2, true, true, false); }
VF_CASE(probe_lane) { look(-1, 0.2, 0, false, true, false); }
VF_CASE(probe_road) { look(-1, 0.2, 1, false, true, false); }
VF_CASE(probe_offset) { look(-1, -0.2, 2, false, true, false); }
VF_CASE(probe_left) { look(1, 3.0, 1, false, true, false); }
VF_CASE(look_next_road) { look(-1, 0.1, 0, false, false, true); }
VF_CASE(probe_next_road) { look(-1, 0.1, 2, true, true, true); }
// curvature of the lane driven on
VF_CASE(look_curve)
{
    double k = 0.01, L = vf_double("L", 1, 30);
    init(net(0.3, "RHT", "", "", k));
    int p = RM_CreatePosition();
    RM_SetLanePosition(p, 10, -1, 0, 10, true);
    RM_RoadLaneInfo i;
    VF_ASSERT("ok", RM_GetLaneInfo(p, L, &i, 2, true) >= 0);
    VF_NEAR("curvature", i.curvature, k / (1 + k * 1.75), 1e-6);
    VF_NEAR("distance", i.s, 10 + L / (1 + k * 1.75), 2e-3);
    VF_NEAR("heading", sin(i.heading - 0.3 - k * i.s), 0, 1e-5);
    RM_Close();
}
// lanes at any s
VF_CASE(lane_lists)
{
    init(net(0.3));
    double s = vf_double("s", 0, 100);
    VF_ASSUME(s < 60 - 1e-3 || s > 60 + 1e-3);
    bool                         two = s > 60;
    std::vector<int>             all = two ? std::vector<int>{1, -1, -2} : std::vector<int>{1, -1};
    int                          drv = 1 << 1;
    VF_ASSERT("count", RM_GetRoadNumberOfLanes(10, s, drv) == int(all.size()));
    for (size_t i = 0; i < all.size(); i++)
    {
        int id = 99;
        VF_ASSERT("id", RM_GetLaneIdByIndex(10, int(i), s, drv, &id) == 0 && id == all[i]);
        id = 99;
        VF_ASSERT("drivable_id", RM_GetDrivableLaneIdByIndex(10, int(i), s, &id) == 0 && id == all[i]);
    }
    int id = 99;
    VF_ASSERT("past_end", RM_GetLaneIdByIndex(10, int(all.size()), s, drv, &id) == -1 && RM_GetLaneIdByIndex(10, -1, s, drv, &id) == -1);
    VF_ASSERT("drivable", RM_GetRoadNumberOfDrivableLanes(10, s) == int(all.size()));
    VF_ASSERT("sidewalks", RM_GetRoadNumberOfLanes(10, s, 1 << 5) == 1 && RM_GetRoadNumberOfLanes(10, s, 1 << 4) == (two ? 1 : 0));
    VF_ASSERT("no_road", RM_GetRoadNumberOfLanes(11, s, drv) == -1 && RM_GetLaneIdByIndex(11, 0, s, drv, &id) == -1);
    VF_ASSERT("roads", RM_GetNumberOfRoads() == 2 && RM_GetIdOfRoadFromIndex(0) == 10 && RM_GetIdOfRoadFromIndex(1) == 20 && RM_GetIdOfRoadFromIndex(2) == RM_ID_UNDEFINED);
    VF_NEAR("length", RM_GetRoadLength(20), 100, 1e-9);
    RM_Close();
}
// differences between two positions
VF_CASE(difference)
{
    init(net(0.3));
    double a = vf_double("a", 1, 99), b = vf_double("b", 1, 99), o = vf_double("o", -0.5, 0.5);
    int    p = RM_CreatePosition(), q = RM_CreatePosition();
    VF_ASSERT("handles", p == 0 && q == 1 && RM_GetNrOfPositions() == 2);
    RM_SetLanePosition(p, 10, -1, 0, a, true);
    RM_SetLanePosition(q, 20, -1, o, b, true);
    RM_PositionDiff d;
    VF_ASSERT("found", RM_SubtractAFromB(p, q, &d) == 0);
    VF_NEAR("ds", d.ds, 100 + b - a, 1e-5);
    VF_ASSERT("dlane", d.dLaneId == 0);
    RM_PositionDiff e;
    VF_ASSERT("found", RM_SubtractAFromB(q, p, &e) == 0);
    VF_NEAR("ds_back", e.ds, -(100 + b - a), 1e-5);
    RM_SetLanePosition(q, 10, 1, o, b, true);
    VF_ASSERT("found", RM_SubtractAFromB(p, q, &d) == 0);
    VF_NEAR("ds_same", d.ds, b - a, 1e-5);
    VF_ASSERT("dlane_left", d.dLaneId == 2 || d.dLaneId == 1);
    RM_Close();
}
// handles: every operation acts on its own position; unknown handles are refused and change nothing
VF_CASE(handles)
{
    init(net(0.3));
    double s = vf_double("s", 5, 90);
    int    p = RM_CreatePosition();
    RM_SetLanePosition(p, 10, -1, 0, s, true);
    int q = RM_CopyPosition(p);
    VF_ASSERT("copy", q == 1 && RM_GetNrOfPositions() == 2);
    VF_NEAR("copied", get(q).s, s, 1e-9);
    RM_SetLanePosition(q, 20, 1, 0, 33, true);
    VF_NEAR("independent", get(p).s, s, 1e-9);
    VF_ASSERT("independent", get(p).roadId == 10 && get(q).roadId == 20);
    int                k = vf_int("handle", 0, 3), bad = k == 0 ? -1 : k == 1 ? 2 : k == 2 ? -1000 : 1000000;
    RM_PositionData    d;
    RM_RoadLaneInfo    i;
    RM_RoadProbeInfo   pr;
    RM_PositionDiff    df;
    double             w;
    VF_ASSERT("refused", RM_SetLanePosition(bad, 10, -1, 0, 1, true) == -1);
    VF_ASSERT("refused", RM_SetRoadPosition(bad, 10, 1, 1, true) == -1);
    VF_ASSERT("refused", RM_SetWorldPosition(bad, 0, 0, 0, 0, 0, 0) == -1);
    VF_ASSERT("refused", RM_SetWorldXYHPosition(bad, 0, 0, 0) == -1);
    VF_ASSERT("refused", RM_SetWorldXYZHPosition(bad, 0, 0, 0, 0) == -1);
    VF_ASSERT("refused", RM_SetWorldPositionMode(bad, 0, 0, 0, 0, 0, 0, 0) == -1);
    VF_ASSERT("refused", RM_SetH(bad, 0) == -1 && RM_SetHMode(bad, 0, RM_H_ABS) == -1);
    VF_ASSERT("refused", RM_SetRoadId(bad, 10) == -1 && RM_SetS(bad, 1) == -1 && RM_SetSnapLaneTypes(bad, 1) == -1);
    VF_ASSERT("refused", RM_PositionMoveForward(bad, 1, 0) == -1);
    VF_ASSERT("refused", RM_GetPositionData(bad, &d) == -1 && RM_GetLaneInfo(bad, 1, &i, 0, true) == -1 && RM_GetProbeInfo(bad, 1, &pr, 0, true) == -1);
    VF_ASSERT("refused", RM_GetSpeedLimit(bad) == -1 && RM_GetLaneWidth(bad, -1, &w) == -1 && RM_GetLaneType(bad, -1) == -1);
    VF_ASSERT("refused", RM_SubtractAFromB(bad, p, &df) == -1 && RM_SubtractAFromB(p, bad, &df) == -1);
    VF_ASSERT("refused", RM_CopyPosition(bad) == -1 && RM_SetLockOnLane(bad, true) == -1);
    if (bad != -1) VF_ASSERT("refused", RM_DeletePosition(bad) == -1);
    RM_SetObjectPositionMode(bad, 1, RM_H_REL);
    RM_SetObjectPositionModeDefault(bad, 1);
    VF_ASSERT("untouched", RM_GetNrOfPositions() == 2 && get(p).roadId == 10 && get(q).roadId == 20);
    VF_NEAR("untouched", get(p).s, s, 1e-9);
    VF_ASSERT("delete", RM_DeletePosition(0) == 0 && RM_GetNrOfPositions() == 1 && get(0).roadId == 20);
    VF_ASSERT("delete_all", RM_DeletePosition(-1) == 0 && RM_GetNrOfPositions() == 0);
    RM_Close();
    VF_ASSERT("closed", RM_CreatePosition() == -1 && RM_GetNrOfPositions() == -1 && RM_GetNumberOfRoads() <= 0);
}
// signs: where they stand, which way they face, for which lanes
static void sign(bool neg)
{
    double h = 0.5, s = vf_double("s", 1, 99), t = vf_double("t", -8, 8), z = vf_double("z", 0, 4);
    std::string x = "<signals><signal s=\"" + odr::N(s) + "\" t=\"" + odr::N(t) + "\" id=\"7\" name=\"stop\" dynamic=\"no\" orientation=\"" + (neg ? "-" : "+") + "\" zOffset=\"" + odr::N(z) +
                    "\" country=\"se\" type=\"x\" subtype=\"1\" value=\"-1\" height=\"1.25\" width=\"0.75\"><validity fromLane=\"-2\" toLane=\"-1\"/><validity fromLane=\"1\" toLane=\"1\"/></signal>"
                    "<signal s=\"50\" t=\"4\" id=\"9\" name=\"give\" dynamic=\"no\" orientation=\"none\" zOffset=\"0\" country=\"se\" type=\"y\" subtype=\"1\" value=\"-1\"/></signals>";
    init(net(h, "RHT", x));
    VF_ASSERT("count", RM_GetNumberOfRoadSigns(10) == 2 && RM_GetNumberOfRoadSigns(20) == 0);
    int  idx = -1, other = -1;
    RM_RoadSign g;
    for (int i = 0; i < 2; i++)
    {
        memset(&g, 0, sizeof g);
        VF_ASSERT("get", RM_GetRoadSign(10, i, &g) == 0);
        if (!strcmp(g.name, "stop")) idx = i; else other = i;
    }
    VF_ASSERT("both", idx >= 0 && other >= 0);
    memset(&g, 0, sizeof g);
    RM_GetRoadSign(10, idx, &g);
    VF_NEAR("s", g.s, s, 1e-6);
    VF_NEAR("t", g.t, t, 1e-6);
    VF_NEAR("x", g.x, 5 + s * cos(h) - t * sin(h), 1e-5);
    VF_NEAR("y", g.y, -3 + s * sin(h) + t * cos(h), 1e-5);
    VF_NEAR("z_offset", g.z_offset, z, 1e-6);
    VF_NEAR("size", g.height, 1.25, 1e-9);
    VF_NEAR("size", g.width, 0.75, 1e-9);
    VF_ASSERT("road", g.roadId == 10);
    VF_ASSERT("orientation", g.orientation == (neg ? -1 : 1));
    VF_ASSERT("validity_count", RM_GetNumberOfRoadSignValidityRecords(10, idx) == 2 && RM_GetNumberOfRoadSignValidityRecords(10, other) == 0);
    RM_RoadObjValidity v;
    VF_ASSERT("validity", RM_GetRoadSignValidityRecord(10, idx, 0, &v) == 0 && v.fromLane == -2 && v.toLane == -1);
    VF_ASSERT("validity", RM_GetRoadSignValidityRecord(10, idx, 1, &v) == 0 && v.fromLane == 1 && v.toLane == 1);
    VF_ASSERT("no_validity", RM_GetRoadSignValidityRecord(10, idx, 2, &v) == -1 && RM_GetRoadSignValidityRecord(10, other, 0, &v) == -1);
    VF_ASSERT("no_sign", RM_GetRoadSign(10, 2, &g) == -1 && RM_GetRoadSign(11, 0, &g) == -1);
    VF_ASSERT("no_sign_validity", RM_GetNumberOfRoadSignValidityRecords(10, 2) <= 0 && RM_GetRoadSignValidityRecord(10, 2, 0, &v) == -1);
    RM_Close();
}
VF_CASE(sign_pos) { sign(false); }
VF_CASE(sign_neg) { sign(true); }
// speed limits: those of the road type record in force
VF_CASE(speed_limit)
{
    double s = vf_double("s", 1, 99), v1 = vf_double("v1", 5, 20), v2 = vf_double("v2", 20, 40);
    VF_ASSUME(fabs(s - 50) > 1e-3);
    init(net(0.2, "RHT", "", "<type s=\"0\" type=\"town\"><speed max=\"" + odr::N(v1) + "\" unit=\"m/s\"/></type><type s=\"50\" type=\"motorway\"><speed max=\"" + odr::N(v2) + "\" unit=\"km/h\"/></type>"));
    int p = RM_CreatePosition();
    RM_SetLanePosition(p, 10, -1, 0, s, true);
    VF_NEAR("limit", RM_GetSpeedLimit(p), s < 50 ? v1 : v2 / 3.6, 1e-5);
    RM_RoadLaneInfo i;
    VF_ASSERT("ok", RM_GetLaneInfo(p, 0, &i, 2, true) >= 0);
    VF_NEAR("info_limit", i.speed_limit, s < 50 ? v1 : v2 / 3.6, 1e-5);
    VF_ASSERT("type", i.road_type == (s < 50 ? 3 : 2));
    VF_ASSERT("rule", i.road_rule == 0);
    VF_ASSERT("lane_type", i.lane_type == (1 << 1));
    RM_Close();
}
