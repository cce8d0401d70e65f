// C06: moving along the road network
#include "common.h"
using namespace roadmanager;
using namespace odr;
typedef Position::ReturnCode RC;
static RoadDef line(int id, double x, double y, double h, double len, std::vector<LaneDef> lanes)
{
    RoadDef r;
    r.id = id; r.length = len;
    r.geo = {{0, x, y, h, len, "<line/>"}};
    r.sec = {{0, lanes}};
    return r;
}
static std::vector<LaneDef> two(int sl = 0, int sr = 0, int pl = 0, int pr = 0)
{
    return {{1, {W(3.5)}, "driving", pl, sl}, {-1, {W(3.5)}, "driving", pr, sr}};
}
static RC mv(Position& p, double ds, Position::MoveDirectionMode m = Position::MoveDirectionMode::HEADING_DIRECTION, double ang = 0.0) { return p.MoveAlongS(ds, 0.0, ang, true, m, true); }
VF_CASE(within)
{
    VF_ASSERT("load", load(doc({line(0, 0, 0, 0, 200, two())})));
    int      lane = vf_int("left", 0, 1) ? 1 : -1, back = vf_int("reversed", 0, 1), m = vf_int("mode", 0, 2);
    double   s = vf_double("s", 60, 140), ds = vf_double("ds", -59, 59), off = vf_double("off", -1, 1);
    Position p;
    p.SetLanePos(0, lane, s, off);
    p.SetHeadingRelative(back ? M_PI : 0);
    RC     rc = mv(p, ds, m == 0 ? Position::MoveDirectionMode::HEADING_DIRECTION : m == 1 ? Position::MoveDirectionMode::LANE_DIRECTION : Position::MoveDirectionMode::ROAD_DIRECTION);
    double dir = m == 0 ? (back ? -1 : 1) : m == 1 ? (lane < 0 ? 1 : -1) : 1;
    VF_ASSERT("rc", rc >= RC::OK);
    VF_NEAR("s", p.GetS(), s + dir * ds, 1e-6);
    VF_NEAR("offset", p.GetOffset(), off, 1e-6);
    VF_ASSERT("lane", p.GetLaneId() == lane);
    VF_NEAR("x", p.GetX(), s + dir * ds, 1e-6);
    VF_NEAR("heading", cos(p.GetH()), back ? -1 : 1, 1e-6);
    VF_ASSERT("not_end", p.GetStatusBitMask() == 0);
}
VF_CASE(end_of_road)
{
    VF_ASSERT("load", load(doc({line(0, 0, 0, 0, 100, two())})));
    double   s = vf_double("s", 1, 99), ds = vf_double("ds", -150, 150);
    Position p;
    p.SetLanePos(0, -1, s, 0.3);
    RC     rc = mv(p, ds);
    double e  = s + ds;
    if (e > 100.001) { VF_ASSERT("rc_end", rc == RC::ERROR_END_OF_ROAD); VF_NEAR("stop", p.GetS(), 100, 1e-6); }
    else if (e < -0.001) { VF_ASSERT("rc_start", rc == RC::ERROR_END_OF_ROAD); VF_NEAR("stop0", p.GetS(), 0, 1e-6); }
    else if (e > 0.001 && e < 99.999) { VF_ASSERT("rc", rc >= RC::OK); VF_NEAR("s", p.GetS(), e, 1e-6); }
    if (e > 100.001 || e < -0.001) VF_ASSERT("flag", p.GetStatusBitMask() & static_cast<int>(Position::PositionStatusMode::POS_STATUS_END_OF_ROAD));
    VF_ASSERT("lane", p.GetLaneId() == -1);
    VF_NEAR("offset", p.GetOffset(), 0.3, 1e-6);
}
// a chain of three straight roads along the x axis, lengths 100, 20, 100; the middle and last one may be defined in reverse
static void chain(bool revB, bool revC)
{
    RoadDef a = line(0, 0, 0, 0, 100, two(revB ? -1 : 1, revB ? 1 : -1));
    RoadDef b = revB ? line(1, 120, 0, M_PI, 20, two(-1, 1, revC ? 1 : -1, revC ? -1 : 1)) : line(1, 100, 0, 0, 20, two(revC ? -1 : 1, revC ? 1 : -1, 1, -1));
    RoadDef c = revC ? line(2, 220, 0, M_PI, 100, two(revB ? 1 : -1, revB ? -1 : 1)) : line(2, 120, 0, 0, 100, two(0, 0, revB ? -1 : 1, revB ? 1 : -1));
    a.succ = {"road", 1, revB ? "end" : "start"};
    if (revB) { b.succ = {"road", 0, "end"}; b.pred = {"road", 2, revC ? "end" : "start"}; }
    else { b.pred = {"road", 0, "end"}; b.succ = {"road", 2, revC ? "end" : "start"}; }
    if (revC) c.succ = {"road", 1, revB ? "start" : "end"};
    else c.pred = {"road", 1, revB ? "start" : "end"};
    VF_ASSERT("load", load(doc({a, b, c})));
}
static void chainpos(const char* tag, Position& p, double x, double y, bool revB, bool revC, double dir)
{
    VF_NEAR("x", p.GetX(), x, 1e-6);
    VF_NEAR("y", p.GetY(), y, 1e-6);
    VF_NEAR("heading", cos(p.GetH()), dir, 1e-6);
    if (x > 0.001 && x < 99.999) { VF_ASSERT("road_a", p.GetTrackId() == 0); VF_NEAR("sa", p.GetS(), x, 1e-6); }
    else if (x > 100.001 && x < 119.999) { VF_ASSERT("road_b", p.GetTrackId() == 1); VF_NEAR("sb", p.GetS(), revB ? 120 - x : x - 100, 1e-6); }
    else if (x > 120.001 && x < 219.999) { VF_ASSERT("road_c", p.GetTrackId() == 2); VF_NEAR("sc", p.GetS(), revC ? 220 - x : x - 120, 1e-6); }
}
VF_CASE(links_forward)
{
    int    rb = vf_int("revB", 0, 1), rc = vf_int("revC", 0, 1), lane = vf_int("left", 0, 1) ? 1 : -1;
    double s = vf_double("s", 5, 95), ds = vf_double("ds", 0, 120), off = vf_double("off", -1, 1);
    chain(rb, rc);
    Position p;
    p.SetLanePos(0, lane, s, off);
    VF_ASSERT("rc", mv(p, ds) >= RC::OK);
    chainpos("f", p, s + ds, lane * 1.75 + off, rb, rc, 1);
}
VF_CASE(links_backward)
{
    int    rb = vf_int("revB", 0, 1), rc = vf_int("revC", 0, 1), lane = vf_int("left", 0, 1) ? 1 : -1;
    double x = vf_double("x", 125, 215), ds = vf_double("ds", 0, 120), off = vf_double("off", -1, 1);
    chain(rb, rc);
    Position p;
    // facing the negative x direction
    p.SetLanePos(2, rc ? -lane : lane, rc ? 220 - x : x - 120, rc ? -off : off);
    p.SetHeadingRelative(rc ? 0 : M_PI);
    VF_ASSERT("rc", mv(p, ds) >= RC::OK);
    chainpos("b", p, x - ds, lane * 1.75 + off, rb, rc, -1);
}
VF_CASE(split_steps)
{
    // one long step equals two shorter ones
    int    rb = vf_int("revB", 0, 1), rc = vf_int("revC", 0, 1);
    double s = vf_double("s", 40, 95), d1 = vf_double("d1", 0.1, 60), d2 = vf_double("d2", 0.1, 60);
    chain(rb, rc);
    Position p;
    p.SetLanePos(0, -1, s, 0.2);
    mv(p, d1);
    mv(p, d2);
    chainpos("s", p, s + d1 + d2, -1.75 + 0.2, rb, rc, 1);
}
VF_CASE(sections)
{
    // lanes renumbered between the lane sections and on the next road, any step length
    double  s = vf_double("s", 1, 99), ds = vf_double("ds", 0, 90);
    RoadDef a = line(0, 0, 0, 0, 100, {});
    a.sec = {{0, {{1, {W(3)}, "driving", 0, 2}, {-1, {W(3)}, "driving", 0, -2}, {-2, {W(3)}, "driving", 0, -3}}},
             {40, {{2, {W(3)}, "driving", 1, 2}, {1, {W(2)}, "driving", 0, 1}, {-1, {W(2)}, "driving", 0, -1}, {-2, {W(3)}, "driving", -1, -2}, {-3, {W(3)}, "driving", -2, -3}}},
             {70, {{2, {W(3)}, "driving", 2, 1}, {1, {W(2)}, "driving", 1, 0}, {-1, {W(2)}, "driving", -1, 0}, {-2, {W(3)}, "driving", -2, -1}, {-3, {W(3)}, "driving", -3, -2}}}};
    RoadDef b = line(1, 100, 0, 0, 100, {{1, {W(3)}, "driving", 2, 0}, {-1, {W(3)}, "driving", -2, 0}, {-2, {W(3)}, "driving", -3, 0}});
    a.succ = {"road", 1, "start"};
    b.pred = {"road", 0, "end"};
    VF_ASSERT("load", load(doc({a, b})));
    int    k = vf_int("lane", 0, 2), e0 = s < 40 ? 0 : s < 70 ? 1 : 2;
    VF_ASSUME(s < 39.999 || (s > 40.001 && s < 69.999) || s > 70.001);
    double e = s + ds;
    VF_ASSUME(e < 39.999 || (e > 40.001 && e < 69.999) || (e > 70.001 && e < 99.999) || e > 100.001);
    static const int L[3][4] = {{1, 2, 2, 1}, {-1, -2, -2, -1}, {-2, -3, -3, -2}};
    int              e1 = e < 40 ? 0 : e < 70 ? 1 : e < 100 ? 2 : 3;
    Position         p;
    p.SetLanePos(0, L[k][e0], s, 0.1);
    VF_ASSERT("rc", mv(p, ds) >= RC::OK);
    VF_ASSERT("road", (int)p.GetTrackId() == (e1 == 3 ? 1 : 0));
    VF_ASSERT("lane", p.GetLaneId() == L[k][e1]);
    VF_NEAR("s", p.GetS(), e1 == 3 ? e - 100 : e, 1e-6);
    VF_NEAR("offset", p.GetOffset(), 0.1, 1e-6);
}
VF_CASE(sections_back)
{
    double  s = vf_double("s", 1, 99), ds = vf_double("ds", 0, 150);
    RoadDef a = line(0, 0, 0, 0, 100, {{1, {W(3)}, "driving", 0, 1}, {-1, {W(3)}, "driving", 0, -1}});
    RoadDef b = line(1, 100, 0, 0, 100, {});
    b.sec = {{0, {{1, {W(3)}, "driving", 1, 1}, {-1, {W(3)}, "driving", -1, -2}}}, {30, {{1, {W(3)}, "driving", 1, 2}, {-1, {W(2)}, "driving", 0, -1}, {-2, {W(3)}, "driving", -1, -2}}}, {60, {{2, {W(3)}, "driving", 1, 0}, {1, {W(2)}, "driving"}, {-1, {W(2)}, "driving", -1}, {-2, {W(3)}, "driving", -2, 0}}}};
    a.succ = {"road", 1, "start"};
    b.pred = {"road", 0, "end"};
    VF_ASSERT("load", load(doc({a, b})));
    double e = s - ds;
    VF_ASSUME(e > -99);
    VF_ASSUME((s < 29.999 || s > 30.001) && (s < 59.999 || s > 60.001));
    VF_ASSUME((e < 29.999 || e > 30.001) && (e < 59.999 || e > 60.001) && (e < -0.001 || e > 0.001));
    static const int L[2][4] = {{1, 1, 1, 2}, {-1, -1, -2, -2}};
    auto             idx = [](double v) { return v < 0 ? 0 : v < 30 ? 1 : v < 60 ? 2 : 3; };
    int              k = vf_int("lane", 0, 1), e0 = idx(s), e1 = idx(e);
    Position         p;
    p.SetLanePos(1, L[k][e0], s, 0.1);
    p.SetHeadingRelative(M_PI);
    VF_ASSERT("rc", mv(p, ds) >= RC::OK);
    VF_ASSERT("road", (int)p.GetTrackId() == (e1 == 0 ? 0 : 1));
    VF_ASSERT("lane", p.GetLaneId() == L[k][e1]);
    VF_NEAR("s", p.GetS(), e1 == 0 ? e + 100 : e, 1e-6);
}
VF_CASE(curve)
{
    // on a bend the travelled distance counts, not the reference line
    double  s = vf_double("s", 10, 60), ds = vf_double("ds", -8, 30), k = vf_int("right", 0, 1) ? -0.02 : 0.025;
    int     i = vf_int("lane", 0, 1);
    RoadDef r = line(0, 0, 0, 0.3, 120, two());
    r.geo[0].kind = arc(k);
    VF_ASSERT("load", load(doc({r})));
    Position p;
    p.SetLanePos(0, i ? 1 : -1, s, 0.5);
    double t = (i ? 1.75 : -1.75) + 0.5;
    mv(p, ds);
    VF_NEAR("s", p.GetS(), s + ds / (1 - k * t), 1e-6);
    VF_NEAR("t", p.GetT(), t, 1e-6);
}
// a three way junction: road 0 along x ends in junction 9, connecting roads 10 (straight on), 11 (left), 12 (right)
static std::string conn(int id, int in, int via, const char* cp, int from, int to)
{
    return "<connection id=\"" + std::to_string(id) + "\" incomingRoad=\"" + std::to_string(in) + "\" connectingRoad=\"" + std::to_string(via) + "\" contactPoint=\"" + cp + "\"><laneLink from=\"" + std::to_string(from) + "\" to=\"" + std::to_string(to) + "\"/></connection>";
}
static void junction(bool rev)
{
    double  R = 20, q = R * M_PI / 2;
    auto    one = [](int pred, int succ) { return std::vector<LaneDef>{{-1, {W(3.5)}, "driving", pred, succ}}; };
    RoadDef a = line(0, 0, 0, 0, 100, two(0, 0)), s, l, r, o1, o2, o3;
    a.succ = {"junction", 9, nullptr};
    if (!rev) { s = line(10, 100, 0, 0, 40, one(-1, -1)); s.pred = {"road", 0, "end"}; s.succ = {"road", 1, "start"}; }
    else { s = line(10, 140, 0, M_PI, 40, {{1, {W(3.5)}, "driving", -1, -1}}); s.succ = {"road", 0, "end"}; s.pred = {"road", 1, "start"}; }
    s.junction = 9;
    l = line(11, 100, 0, 0, q, one(-1, -1)); l.geo[0].kind = arc(1 / R); l.junction = 9; l.pred = {"road", 0, "end"}; l.succ = {"road", 2, "start"};
    r = line(12, 100, 0, 0, q, one(-1, -1)); r.geo[0].kind = arc(-1 / R); r.junction = 9; r.pred = {"road", 0, "end"}; r.succ = {"road", 3, "start"};
    o1 = line(1, 140, 0, 0, 100, two()); o1.pred = {"junction", 9, nullptr};
    o2 = line(2, 120, 20, M_PI / 2, 100, two()); o2.pred = {"junction", 9, nullptr};
    o3 = line(3, 120, -20, -M_PI / 2, 100, two()); o3.pred = {"junction", 9, nullptr};
    std::string j = "<junction id=\"9\" name=\"j\">" + conn(0, 0, 10, rev ? "end" : "start", -1, rev ? 1 : -1) + conn(1, 0, 11, "start", -1, -1) + conn(2, 0, 12, "start", -1, -1) + "</junction>";
    VF_ASSERT("load", load(doc({a, o1, o2, o3, s, l, r}, j)));
}
VF_CASE(junction_choice)
{
    int rev = vf_int("rev", 0, 1);
    junction(rev);
    double   s = vf_double("s", 60, 99), ds = vf_double("ds", 41, 60), ang = vf_double("ang", 0, 6.28);
    Position p;
    p.SetLanePos(0, -1, s, 0);
    double e = s + ds - 100;
    VF_ASSUME(e > 0.01 && e < 31);
    VF_ASSUME(ang < M_PI_4 - 0.01 || (ang > M_PI_4 + 0.01 && ang < M_PI - 0.01) || (ang > M_PI + 0.01 && ang < M_PI * 1.75 - 0.01) || ang > M_PI * 1.75 + 0.01);
    RC     rc   = mv(p, ds, Position::MoveDirectionMode::HEADING_DIRECTION, ang);
    int    want = ang < M_PI_4 || ang > M_PI * 1.75 ? 10 : ang < M_PI ? 11 : 12;
    VF_ASSERT("rc", rc == RC::MADE_JUNCTION_CHOICE);
    VF_ASSERT("road", (int)p.GetTrackId() == want);
    VF_NEAR("s", p.GetS(), want == 10 && rev ? 40 - e : e, 1e-6);
    VF_ASSERT("lane", p.GetLaneId() == (want == 10 && rev ? 1 : -1));
}
VF_CASE(through_junction)
{
    int rev = vf_int("rev", 0, 1), w = vf_int("way", 0, 2);
    junction(rev);
    double   s = vf_double("s", 60, 99), ds = vf_double("ds", 81, 130), ang = (const double[]){0, M_PI_2, 3 * M_PI_2}[w], L = w ? 20 * M_PI / 2 : 40;
    Position p;
    p.SetLanePos(0, -1, s, 0);
    VF_ASSUME(s + ds > 100 + L + 0.01);
    mv(p, ds, Position::MoveDirectionMode::HEADING_DIRECTION, ang);
    VF_ASSERT("road", (int)p.GetTrackId() == w + 1);
    VF_NEAR("s", p.GetS(), s + ds - 100 - L, 1e-6);
    VF_ASSERT("lane", p.GetLaneId() == -1);
}
VF_CASE(lane_ends)
{
    // lane -2 narrows to nothing at s = 50: the position continues in the neighbour lane
    double  s = vf_double("s", 1, 40), ds = vf_double("ds", 1, 100);
    RoadDef r = line(0, 0, 0, 0, 200, {{1, {W(3)}}, {-1, {W(3)}}, {-2, {W(3), W(3, -0.3, 0, 0, 40), W(0, 0, 0, 0, 50)}}});
    VF_ASSERT("load", load(doc({r})));
    Position p;
    p.SetLanePos(0, -2, s, 0);
    VF_ASSUME(s + ds < 49.9 || s + ds > 50.1);
    VF_ASSERT("rc", mv(p, ds) >= RC::OK);
    VF_NEAR("s", p.GetS(), s + ds, 1e-6);
    VF_ASSERT("lane", p.GetLaneId() == (s + ds < 50 ? -2 : -1));
}
