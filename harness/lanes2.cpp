// C05: lane, road and world coordinates of one position agree
#include "common.h"
using namespace roadmanager;
using namespace odr;
static const double T = 1e-6;
static const int    NL = 5;
static RoadDef road5(double len, const std::string& kind, double x0, double y0, double h0)
{
    RoadDef r;
    r.length = len;
    r.geo    = {{0, x0, y0, h0, len, kind}};
    r.sec    = {{0, {{2, {W(1.5)}, "shoulder"}, {1, {W(3.5)}}, {-1, {W(3.0)}}, {-2, {W(4.0)}}, {-3, {W(2.0)}, "sidewalk"}}}};
    return r;
}
static const int    ID[NL]  = {2, 1, -1, -2, -3};
static const double CEN[NL] = {4.25, 1.75, -1.5, -5.0, -8.0};
static const double HALF[NL] = {0.75, 1.75, 1.5, 2.0, 1.0};
VF_CASE(lane_to_track)
{
    double  lo = (const double[]){0, -1.5, 2}[vf_int("lo", 0, 2)], s = vf_double("s", 0.1, 199.9), off = vf_double("off", -5, 5);
    RoadDef r  = road5(200, "<line/>", 0, 0, 0);
    r.laneoffset = {{0, lo, 0.002, 0, 0}};
    VF_ASSERT("load", load(doc({r})));
    int      i = vf_int("lane", 0, NL - 1);
    Position p;
    VF_ASSERT("rc", p.SetLanePos(0, ID[i], s, off) == Position::ReturnCode::OK);
    double t = CEN[i] + lo + 0.002 * s + off;
    VF_NEAR("t", p.GetT(), t, T);
    VF_NEAR("s", p.GetS(), s, T);
    VF_NEAR("offset", p.GetOffset(), off, T);
    VF_ASSERT("lane", p.GetLaneId() == ID[i]);
    VF_NEAR("x", p.GetX(), s, T);
    VF_NEAR("y", p.GetY(), t, T);
}
VF_CASE(track_to_lane)
{
    double  lo = (const double[]){0, -1.5, 2}[vf_int("lo", 0, 2)], s = vf_double("s", 0.1, 199.9), t = vf_double("t", -14, 10);
    RoadDef r  = road5(200, "<line/>", 0, 0, 0);
    r.laneoffset = {{0, lo, 0.002, 0, 0}};
    VF_ASSERT("load", load(doc({r})));
    Position p;
    int      any = vf_int("any", 0, 1);
    p.SetSnapLaneTypes(any ? Lane::LaneType::LANE_TYPE_ANY : Lane::LaneType::LANE_TYPE_ANY_DRIVING);
    VF_ASSERT("rc", p.SetTrackPos(0, s, t) == Position::ReturnCode::OK);
    int i = 0;
    while (i < NL && ID[i] != p.GetLaneId()) i++;
    VF_ASSERT("a_lane", i < NL && (any || i == 1 || i == 2 || i == 3));
    double q = t - lo - 0.002 * s;
    VF_NEAR("offset", p.GetOffset(), q - CEN[i], T);
    // the lane containing the point, otherwise the closest centre among the allowed ones
    if (any && q < 4.999 && q > -8.999) VF_LE("inside", fabs(q - CEN[i]), HALF[i], T);
    if (!any && q < 3.499 && q > -6.999) VF_LE("inside_driving", fabs(q - CEN[i]), HALF[i], T);
    if (!any && q > 3.501) VF_ASSERT("leftmost", i == 1);
    if (!any && q < -7.001) VF_ASSERT("rightmost", i == 3);
}
static void roundtrip(const RoadDef& r, double s, double t, int w, double tol)
{
    VF_ASSERT("load", load(doc({r})));
    Position p, q;
    VF_ASSERT("rc", p.SetTrackPos(0, s, t) == Position::ReturnCode::OK);
    if (w) q.SetTrackPos(0, 150, -3);  // history must not matter
    q.SetInertiaPos(p.GetX(), p.GetY(), p.GetH());
    VF_NEAR("s", q.GetS(), s, tol);
    VF_NEAR("t", q.GetT(), t, tol);
    VF_NEAR("x", q.GetX(), p.GetX(), T);
    VF_NEAR("y", q.GetY(), p.GetY(), T);
    VF_NEAR("h", sin(q.GetH() - p.GetH()), 0, T);
    VF_ASSERT("lane", q.GetLaneId() == p.GetLaneId() || fabs(q.GetOffset() - p.GetOffset()) > 1e-3);
    VF_NEAR("hrel", sin(q.GetHRelative()), 0, 1e-4);
}
VF_CASE(world_line)
{
    double s = vf_double("s", 0.5, 199.5), t = vf_double("t", -9, 5);
    int    i = vf_int("pose", 0, 3);
    roundtrip(road5(200, "<line/>", (const double[]){0, 100, -50, 7}[i], (const double[]){0, 50, -20, 1}[i], (const double[]){0, 0.8, 3.5, 1.5707963267948966}[i]), s, t, vf_int("history", 0, 1), 1e-5);
}
VF_CASE(world_arc)
{
    int    i = vf_thorough() ? vf_int("pose", 0, 1) : 0;
    double s = vf_thorough() ? vf_double("s", 0.5, 59.5) : vf_double("s", 3, 17), t = vf_thorough() ? (const double[]){-8, -1.5, 0, 4}[vf_int("t", 0, 3)] : (const double[]){-1.5, 4}[vf_int("t", 0, 1)];
    roundtrip(road5(60, arc(i ? 0.01 : -0.02), (const double[]){0, 100}[i], (const double[]){0, 50}[i], (const double[]){0.3, 2.4}[i]), s, t, 0, 2e-3);
}
VF_CASE(arc_xy)
{
    // world position of any (s, t) on an arc is the offset point of the circle
    double s = vf_double("s", 0.5, 59.5), t = vf_double("t", -9, 5), k = 0.02, h0 = 0.4;
    VF_ASSERT("load", load(doc({road5(60, arc(k), 10, 20, h0)})));
    Position p;
    p.SetTrackPos(0, s, t);
    double h = h0 + k * s;
    VF_NEAR("x", p.GetX(), 10 + (sin(h) - sin(h0)) / k - t * sin(h), 1e-5);
    VF_NEAR("y", p.GetY(), 20 - (cos(h) - cos(h0)) / k + t * cos(h), 1e-5);
    VF_NEAR("h", sin(p.GetHRoad() - h), 0, 1e-6);
}
VF_CASE(chain)
{
    // geometry records joined: line, arc, line; s on any of them, reached from any history
    double  s = vf_double("s", 0.1, 149.9), k = 0.02, L = 50;
    RoadDef r = road5(150, "<line/>", 0, 0, 0);
    double  x1 = L, x2 = L + sin(k * L) / k, y2 = (1 - cos(k * L)) / k;
    r.geo = {{0, 0, 0, 0, L, "<line/>"}, {L, x1, 0, 0, L, arc(k)}, {2 * L, x2, y2, k * L, L, "<line/>"}};
    VF_ASSERT("load", load(doc({r})));
    Position p;
    p.SetTrackPos(0, (const double[]){10, 75, 140}[vf_int("before", 0, 2)], 1.0);
    p.SetTrackPos(0, s, 0);
    if (s < L) { VF_NEAR("x0", p.GetX(), s, 1e-5); VF_NEAR("y0", p.GetY(), 0, 1e-5); VF_NEAR("h0", sin(p.GetHRoad()), 0, 1e-6); }
    else if (s < 2 * L) { double a = k * (s - L); VF_NEAR("x1", p.GetX(), x1 + sin(a) / k, 1e-5); VF_NEAR("y1", p.GetY(), (1 - cos(a)) / k, 1e-5); VF_NEAR("h1", sin(p.GetHRoad() - a), 0, 1e-6); }
    else { VF_NEAR("x2", p.GetX(), x2 + (s - 2 * L) * cos(k * L), 1e-5); VF_NEAR("y2", p.GetY(), y2 + (s - 2 * L) * sin(k * L), 1e-5); VF_NEAR("h2", sin(p.GetHRoad() - k * L), 0, 1e-6); }
}
VF_CASE(elevated)
{
    // slope and bank: z follows the surface
    double  s = vf_double("s", 0.1, 99.9), t = vf_double("t", -5, 5);
    RoadDef r = road5(100, "<line/>", 0, 0, 0);
    int     c = vf_int("c", 0, 2);
    double  e1 = (const double[]){0.05, 0, -0.1}[c], se = (const double[]){0, 0.06, -0.03}[c];
    r.elev = {{0, 2, e1, 0, 0}};
    r.superelev = {{0, se, 0, 0, 0}};
    VF_ASSERT("load", load(doc({r})));
    Position p;
    p.SetTrackPos(0, s, t);
    VF_NEAR("z", p.GetZ(), 2 + e1 * s + t * sin(se) * cos(atan(e1)), 1e-6);
    VF_NEAR("y", p.GetY(), t * cos(se), 1e-6);
    VF_NEAR("pitch", sin(p.GetP() + atan(e1)), 0, 1e-6);
    VF_NEAR("roll", sin(p.GetR() - se), 0, 1e-6);
    // z relative to the road is preserved when given
    Position q;
    q.SetInertiaPosMode(p.GetX(), p.GetY(), 0.75, 0, 0, 0, Position::PosMode::Z_REL | Position::PosMode::H_REL | Position::PosMode::P_REL | Position::PosMode::R_REL);
    VF_NEAR("s_back", q.GetS(), s, 1e-3);
    VF_NEAR("t_back", q.GetT(), t, 1e-3);
    VF_NEAR("z_rel", q.GetZ(), p.GetZ() + 0.75, 1e-3);
}
VF_CASE(heading)
{
    double  h = vf_double("h", 0, 6.28);
    int     i = vf_int("s", 0, 2), lht = vf_int("lht", 0, 1);
    double  s = (const double[]){5, 25, 55}[i];
    RoadDef r = road5(60, arc(0.02), 10, 20, 0.4);
    r.rule    = lht ? "LHT" : "RHT";
    VF_ASSERT("load", load(doc({r})));
    int      lane = vf_int("lane", 0, 1) ? 1 : -1;
    Position p;
    p.SetLanePos(0, lane, s, 0);
    double hr = 0.4 + 0.02 * s, dd = hr + ((lane > 0) != (lht == 1) ? M_PI : 0);
    VF_NEAR("driving_dir", sin(p.GetDrivingDirection() - dd), 0, 1e-6);
    VF_LE("driving_dir_c", 0.9, cos(p.GetDrivingDirection() - dd), 0);
    p.SetHeadingRelative(h);
    VF_NEAR("abs_s", sin(p.GetH()), sin(hr + h), 1e-6);
    VF_NEAR("abs_c", cos(p.GetH()), cos(hr + h), 1e-6);
    VF_NEAR("rel_dd", cos(p.GetHRelativeDrivingDirection()), cos(hr + h - dd), 1e-6);
    p.SetHeading(h);
    VF_NEAR("rel_s", sin(p.GetHRelative()), sin(h - hr), 1e-6);
    VF_NEAR("rel_c", cos(p.GetHRelative()), cos(h - hr), 1e-6);
    VF_NEAR("kept", cos(p.GetH()), cos(h), 1e-6);
}
VF_CASE(taper)
{
    // lanes which widen and a drifting lane offset: the lane centre and its direction
    double  s = vf_double("s", 0.1, 99.9);
    RoadDef r = road5(100, "<line/>", 0, 0, 0);
    int     c = vf_int("c", 0, 2), i = vf_int("lane", 0, 3);
    double  b = (const double[]){0.03, -0.02, 0}[c], lb = (const double[]){0, 0.05, -0.04}[c];
    r.sec     = {{0, {{2, {W(3, b)}}, {1, {W(3.5)}}, {-1, {W(4, b)}}, {-2, {W(3, -b)}}}}};
    r.laneoffset = {{0, 0.5, lb, 0, 0}};
    VF_ASSERT("load", load(doc({r})));
    int      id = (const int[]){2, 1, -1, -2}[i];
    Position p;
    p.SetLanePos(0, id, s, 0);
    double slope[4] = {b / 2, 0, -b / 2, -b + b / 2}, cen[4] = {3.5 + 1.5 + b * s / 2, 1.75, -(4 + b * s) / 2, -(4 + b * s) - (3 - b * s) / 2};
    VF_NEAR("t", p.GetT(), cen[i] + 0.5 + lb * s, 1e-6);
    VF_NEAR("dir", tan(p.GetHOffset()), slope[i] + lb, 1e-6);
    VF_NEAR("heading", tan(p.GetH()), slope[i] + lb, 1e-6);
}
VF_CASE(two_sections)
{
    // lane position addressed in either lane section; the other coordinates follow
    double  s = vf_double("s", 0.1, 99.9), off = vf_double("off", -0.5, 0.5);
    RoadDef r = road5(100, "<line/>", 0, 0, 0);
    r.sec     = {{0, {{1, {W(3)}, "driving", 0, 2}, {-1, {W(4)}, "driving", 0, -1}}}, {40, {{2, {W(3.5)}, "driving", 1}, {1, {W(2)}}, {-1, {W(3, 0.01)}, "driving", -1}, {-2, {W(2)}}}}};
    VF_ASSUME(s < 39.999 || s > 40.001);
    VF_ASSERT("load", load(doc({r})));
    Position p;
    p.SetLanePos(0, -1, (const double[]){10, 70}[vf_int("before", 0, 1)], 0);
    bool   second = s > 40;
    int    id = vf_int("left", 0, 1) ? (second ? 2 : 1) : -1;
    p.SetLanePos(0, id, s, off);
    double w = second ? 3 + 0.01 * (s - 40) : 4;
    VF_NEAR("t", p.GetT(), off + (id == -1 ? -w / 2 : id == 2 ? 2 + 1.75 : 1.5), 1e-6);
    VF_ASSERT("lane", p.GetLaneId() == id);
    Position q;
    q.SetTrackPos(0, s, p.GetT());
    VF_ASSERT("back_lane", q.GetLaneId() == id);
    VF_NEAR("back_off", q.GetOffset(), off, 1e-6);
    // a position moved along the road by setting s on the same object keeps the lane links out of it: explicit lane wins
    Position b;
    b.SetLaneBoundaryPos(0, id, s);
    VF_NEAR("boundary", b.GetT(), id == -1 ? -w : id == 2 ? 5.5 : 3.0, 1e-6);
}
