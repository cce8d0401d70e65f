// C07: relative distances between positions
#include "common.h"
using namespace roadmanager;
using namespace odr;
static RoadDef line(int id, double x, double y, double h, double len, std::vector<LaneDef> lanes)
{
    RoadDef r;
    r.id = id; r.length = len;
    r.geo = {{0, x, y, h, len, "<line/>"}};
    r.sec = {{0, lanes}};
    return r;
}
// road network along the x axis: lengths 100, 20, 100; two lanes each side; the middle and last road may be defined in reverse
static std::vector<LaneDef> four(int p, int s)  // p, s: sign of the connected lanes at the start and the end of the road, 0: not connected
{
    std::vector<LaneDef> v;
    for (int i : {2, 1, -1, -2}) v.push_back({i, {W(3.5)}, "driving", p * i, s * i});
    return v;
}
static void chain(int revB, int revC)
{
    int     bc = revB == revC ? 1 : -1, ab = revB ? -1 : 1;
    RoadDef a = line(0, 0, 0, 0, 100, four(0, ab));
    RoadDef b = revB ? line(1, 120, 0, M_PI, 20, four(bc, ab)) : line(1, 100, 0, 0, 20, four(ab, bc));
    RoadDef c = revC ? line(2, 220, 0, M_PI, 100, four(0, bc)) : line(2, 120, 0, 0, 100, four(bc, 0));
    a.succ = {"road", 1, revB ? "end" : "start"};
    if (revB) { b.succ = {"road", 0, "end"}; b.pred = {"road", 2, revC ? "end" : "start"}; }
    else { b.pred = {"road", 0, "end"}; b.succ = {"road", 2, revC ? "end" : "start"}; }
    (revC ? c.succ : c.pred) = {"road", 1, revB ? "start" : "end"};
    VF_ASSERT("load", load(doc({a, b, c})));
}
// place p at world x in world lane `lane` (sign by y), facing +x (dir 1) or -x (dir -1)
static void place(Position& p, int road, int rev, double x0, double x1, double x, int lane, double off, int dir)
{
    p.SetLanePos(road, rev ? -lane : lane, rev ? x1 - x : x - x0, rev ? -off : off);
    p.SetHeadingRelative((dir > 0) == (rev == 0) ? 0 : M_PI);
}
static const int LANES[4] = {2, 1, -1, -2};
static double    laneY(int l) { return l > 0 ? (l - 0.5) * 3.5 : (l + 0.5) * 3.5; }
static int       laneDiff(int a, int b) { int d = b - a; return (a > 0) != (b > 0) ? (d > 0 ? d - 1 : d + 1) : d; }
static double dist(Position& a, Position& b, CoordinateSystem cs, RelativeDistanceType t, int& rc, double maxd = LARGE_NUMBER)
{
    double d = 1e9;
    rc = a.Distance(&b, cs, t, d, maxd);
    return d;
}
static void cartesian(Position& a, Position& b, double dx, double dy)
{
    int    rc;
    double len = sqrt(dx * dx + dy * dy);
    VF_NEAR("entity_long", dist(a, b, CoordinateSystem::CS_ENTITY, RelativeDistanceType::REL_DIST_LONGITUDINAL, rc), dx,  1e-4);
    VF_NEAR("entity_lat", dist(a, b, CoordinateSystem::CS_ENTITY, RelativeDistanceType::REL_DIST_LATERAL, rc), dy,  1e-4);
    if (dx > 1e-4) VF_NEAR("euclid", dist(a, b, CoordinateSystem::CS_ENTITY, RelativeDistanceType::REL_DIST_EUCLIDIAN, rc), len, 1e-4);
    else if (dx < -1e-4) VF_NEAR("euclid", dist(a, b, CoordinateSystem::CS_ENTITY, RelativeDistanceType::REL_DIST_EUCLIDIAN, rc), -len, 1e-4);
    VF_NEAR("euclid_abs", dist(a, b, CoordinateSystem::CS_ENTITY, RelativeDistanceType::REL_DIST_EUCLIDIAN_ABS, rc), len, 1e-4);
}
VF_CASE(same_road)
{
    VF_ASSERT("load", load(doc({line(0, 0, 0, 0, 200, four(0, 0))})));
    int      la = LANES[vf_int("laneA", 0, 3)], lb = LANES[vf_int("laneB", 0, 3)], da = vf_int("backA", 0, 1) ? -1 : 1, db = vf_int("backB", 0, 1) ? -1 : 1;
    double   xa = vf_double("xa", 0.5, 199.5), xb = vf_double("xb", 0.5, 199.5), oa = vf_double("oa", -1.5, 1.5), ob = vf_double("ob", -1.5, 1.5);
    Position a, b;
    place(a, 0, 0, 0, 200, xa, la, oa, da);
    place(b, 0, 0, 0, 200, xb, lb, ob, db);
    PositionDiff d;
    VF_ASSERT("found", a.Delta(&b, d));
    VF_NEAR("ds", d.ds, da * (xb - xa), 1e-6);
    VF_NEAR("dt", d.dt, laneY(lb) + ob - laneY(la) - oa, 1e-6);
    VF_ASSERT("dLane", d.dLaneId == laneDiff(la, lb));
    VF_ASSERT("opposite", d.dOppLane == ((la > 0) != (lb > 0)));
    VF_ASSERT("direction", (d.dDirection != 0) == (da == db));
    VF_NEAR("dx", d.dx, da * (xb - xa), 1e-6);
    VF_NEAR("dy", d.dy, da * (laneY(lb) + ob - laneY(la) - oa), 1e-6);
    int rc;
    VF_NEAR("road_long", dist(a, b, CoordinateSystem::CS_ROAD, RelativeDistanceType::REL_DIST_LONGITUDINAL, rc), d.ds, 1e-9);
    VF_NEAR("road_lat", dist(a, b, CoordinateSystem::CS_ROAD, RelativeDistanceType::REL_DIST_LATERAL, rc), d.dt, 1e-9);
    VF_NEAR("lane_long", dist(a, b, CoordinateSystem::CS_LANE, RelativeDistanceType::REL_DIST_LONGITUDINAL, rc), d.ds, 1e-9);
}
VF_CASE(entity_frame)
{
    // any two poses in the plane
    VF_ASSERT("load", load(doc({line(0, 0, 0, 0, 200, four(0, 0))})));
    double   h = vf_thorough() ? vf_double("h", -3.1, 3.1) : (const double[]){0, 0.7, 1.5, -2.1, 3.1}[vf_int("h", 0, 4)], x = vf_double("x", -50, 50), y = vf_double("y", -50, 50);
    Position a, b;
    a.SetInertiaPos(20, 5, h);
    b.SetInertiaPos(20 + x, 5 + y, 1.0);
    cartesian(a, b, x * cos(h) + y * sin(h), -x * sin(h) + y * cos(h));
}
static void chain_(int cd)
{
    int      rb = vf_int("revB", 0, 1), rc = vf_int("revC", 0, 1), la = LANES[vf_int("laneA", 0, 3)], lb = LANES[vf_int("laneB", 0, 3)];
    int      da = vf_int("backA", 0, 1) ? -1 : 1, swap = vf_int("swap", 0, 1);
    chain(rb, rc);
    double   xa = vf_double("xa", 1, 99), xb = cd ? vf_double("xb", 121, 219) : vf_double("xb", 101, 119), oa = vf_double("oa", -1.5, 1.5);
    Position p, q;
    place(p, 0, 0, 0, 100, xa, la, oa, swap ? 1 : da);
    if (cd) place(q, 2, rc, 120, 220, xb, lb, 0.3, swap ? da : 1);
    else place(q, 1, rb, 100, 120, xb, lb, 0.3, swap ? da : 1);
    Position &a = swap ? q : p, &b = swap ? p : q;
    PositionDiff d;
    VF_ASSERT("found", a.Delta(&b, d));
    double gap = (xb - xa) * (swap ? -1 : 1);
    VF_NEAR("ds", d.ds, da * gap, 1e-6);
    int    last = swap ? 0 : cd ? rc : rb, lf = swap ? lb : la, lt = swap ? la : lb;  // lanes, world sign
    double y0 = laneY(la) + oa, y1 = laneY(lb) + 0.3, dy = swap ? y0 - y1 : y1 - y0;
    VF_NEAR("dt", d.dt, last ? -dy : dy, 1e-6);
    VF_ASSERT("dLane", d.dLaneId == laneDiff(last ? -lf : lf, last ? -lt : lt));
    VF_ASSERT("opposite", d.dOppLane == ((lf > 0) != (lt > 0)));
    int    e;
    double r = dist(a, b, CoordinateSystem::CS_ROAD, RelativeDistanceType::REL_DIST_LONGITUDINAL, e);
    VF_ASSERT("rc", e == 0);
    VF_NEAR("road_long", r, da * gap, 1e-6);
    VF_ASSERT("direction", (d.dDirection != 0) == (da == 1));
}
VF_CASE(next_road) { chain_(0); }
VF_CASE(second_road) { chain_(1); }
VF_CASE(max_dist)
{
    chain(0, 1);
    double   xa = vf_double("xa", 1, 99), xb = vf_double("xb", 121, 219), m = vf_double("max", 10, 250);
    VF_ASSUME(xb - xa < m - 0.001 || xb - xa > m + 0.001);
    Position a, b;
    place(a, 0, 0, 0, 100, xa, -1, 0, 1);
    place(b, 2, 1, 120, 220, xb, -1, 0, 1);
    int e;
    dist(a, b, CoordinateSystem::CS_ROAD, RelativeDistanceType::REL_DIST_LONGITUDINAL, e, m);
    VF_ASSERT("rc", (e == 0) == (xb - xa < m));
}
VF_CASE(unreachable)
{
    VF_ASSERT("load", load(doc({line(0, 0, 0, 0, 200, four(0, 0)), line(1, 300, 20, 0.2, 100, four(0, 0))})));
    double   sa = vf_double("sa", 0, 200), sb = vf_double("sb", 0, 100);
    Position a, b;
    a.SetLanePos(0, -1, sa, 0);
    b.SetLanePos(1, -1, sb, 0);
    PositionDiff d;
    VF_ASSERT("not_found", !a.Delta(&b, d));
    int e;
    dist(a, b, CoordinateSystem::CS_ROAD, RelativeDistanceType::REL_DIST_LONGITUDINAL, e);
    VF_ASSERT("rc", e != 0);
}
VF_CASE(sections)
{
    // lanes renumbered from section to section, connected to another road at both ends
    RoadDef p = line(5, -50, 0, 0, 50, {{1, {W(3)}, "driving", 0, 1}, {-1, {W(3)}, "driving", 0, -1}, {-2, {W(3)}, "driving", 0, -2}});
    RoadDef a = line(0, 0, 0, 0, 100, {});
    a.sec = {{0, {{1, {W(3)}, "driving", 1, 2}, {-1, {W(3)}, "driving", -1, -2}, {-2, {W(3)}, "driving", -2, -3}}},
             {40, {{2, {W(3)}, "driving", 1, 3}, {1, {W(2)}, "driving", 0, 2}, {-1, {W(2)}, "driving", 0, -1}, {-2, {W(3)}, "driving", -1, -2}, {-3, {W(3)}, "driving", -2, -3}}},
             {70, {{3, {W(3)}, "driving", 2, 1}, {2, {W(2)}, "driving", 1, 0}, {1, {W(1)}, "driving"}, {-1, {W(2)}, "driving", -1, 0}, {-2, {W(3)}, "driving", -2, -1}, {-3, {W(3)}, "driving", -3, -2}}}};
    RoadDef b = line(1, 100, 0, 0, 100, {{1, {W(3)}, "driving", 3, 0}, {-1, {W(3)}, "driving", -2, 0}, {-2, {W(3)}, "driving", -3, 0}});
    a.pred = {"road", 5, "end"};
    p.succ = {"road", 0, "start"};
    a.succ = {"road", 1, "start"};
    b.pred = {"road", 0, "end"};
    VF_ASSERT("load", load(doc({a, b, p})));
    static const int L[3][5] = {{1, 1, 2, 3, 1}, {-1, -1, -2, -2, -1}, {-2, -2, -3, -3, -2}};
    int              ka = vf_int("kA", 0, 2), kb = vf_int("kB", 0, 2), back = vf_int("back", 0, 1);
    static const double E[6] = {-50, 0, 40, 70, 100, 200};
    int              ra = vf_int("ra", 0, 4), rb = vf_int("rb", 0, 4);
    double           xa = vf_double("xa", 0.01, 0.99), xb = vf_double("xb", 0.01, 0.99);
    xa = E[ra] + xa * (E[ra + 1] - E[ra]);
    xb = E[rb] + xb * (E[rb + 1] - E[rb]);
    auto set = [&](Position& q, int r, double x, int k) { q.SetLanePos(r == 0 ? 5 : r == 4 ? 1 : 0, L[k][r], r == 0 ? x + 50 : r == 4 ? x - 100 : x, 0); };
    Position A, B;
    set(A, ra, xa, ka);
    set(B, rb, xb, kb);
    A.SetHeadingRelative(back ? M_PI : 0);
    PositionDiff d;
    VF_ASSERT("found", A.Delta(&B, d));
    VF_NEAR("ds", d.ds, (back ? -1 : 1) * (xb - xa), 1e-6);
    VF_ASSERT("dLane", d.dLaneId == laneDiff(L[ka][rb], L[kb][rb]));
}
VF_CASE(junction)
{
    // road 0 ends in a junction; three connecting roads lead to roads 1 (straight on), 2 (left), 3 (right)
    double  R = 20, q = R * M_PI / 2;
    int     rev = vf_int("rev", 0, 1), w = vf_int("way", 0, 2), swap = vf_int("swap", 0, 1);
    auto    one = [](int pred, int succ) { return std::vector<LaneDef>{{-1, {W(3.5)}, "driving", pred, succ}}; };
    RoadDef a = line(0, 0, 0, 0, 100, {{-1, {W(3.5)}}}), s, l, r, o1, o2, o3;
    a.succ = {"junction", 9, nullptr};
    if (!rev) { s = line(10, 100, 0, 0, 40, one(-1, -1)); s.pred = {"road", 0, "end"}; s.succ = {"road", 1, "start"}; }
    else { s = line(10, 140, 0, M_PI, 40, {{1, {W(3.5)}, "driving", -1, -1}}); s.succ = {"road", 0, "end"}; s.pred = {"road", 1, "start"}; }
    s.junction = 9;
    l = line(11, 100, 0, 0, q, one(-1, -1)); l.geo[0].kind = arc(1 / R); l.junction = 9; l.pred = {"road", 0, "end"}; l.succ = {"road", 2, "start"};
    r = line(12, 100, 0, 0, q, one(-1, -1)); r.geo[0].kind = arc(-1 / R); r.junction = 9; r.pred = {"road", 0, "end"}; r.succ = {"road", 3, "start"};
    o1 = line(1, 140, 0, 0, 100, {{-1, {W(3.5)}}}); o1.pred = {"junction", 9, nullptr};
    o2 = line(2, 120, 20, M_PI / 2, 100, {{-1, {W(3.5)}}}); o2.pred = {"junction", 9, nullptr};
    o3 = line(3, 120, -20, -M_PI / 2, 100, {{-1, {W(3.5)}}}); o3.pred = {"junction", 9, nullptr};
    auto conn = [](int id, int in, int via, const char* cp, int from, int to) { return "<connection id=\"" + std::to_string(id) + "\" incomingRoad=\"" + std::to_string(in) + "\" connectingRoad=\"" + std::to_string(via) + "\" contactPoint=\"" + cp + "\"><laneLink from=\"" + std::to_string(from) + "\" to=\"" + std::to_string(to) + "\"/></connection>"; };
    std::string j = "<junction id=\"9\" name=\"j\">" + conn(0, 0, 10, rev ? "end" : "start", -1, rev ? 1 : -1) + conn(1, 0, 11, "start", -1, -1) + conn(2, 0, 12, "start", -1, -1) +
                    conn(3, 1, 10, rev ? "start" : "end", -1, rev ? 1 : -1) + conn(4, 2, 11, "end", -1, -1) + conn(5, 3, 12, "end", -1, -1) + "</junction>";
    VF_ASSERT("load", load(doc({a, o1, o2, o3, s, l, r}, j)));
    double   sa = vf_double("sa", 1, 99), sb = vf_double("sb", 1, 99), L = w ? q : 40;
    int      mid = vf_int("mid", 0, 1);
    Position A, B;
    A.SetLanePos(0, -1, sa, 0);
    if (mid)
    {
        VF_ASSUME(sb < L - 0.5);
        B.SetLanePos(10 + w, w == 0 && rev ? 1 : -1, w == 0 && rev ? L - sb : sb, 0);
        if (w == 0 && rev) B.SetHeadingRelative(M_PI);
    }
    else B.SetLanePos(1 + w, -1, sb, 0);
    PositionDiff d;
    VF_ASSERT("found", swap ? B.Delta(&A, d) : A.Delta(&B, d));
    double gap = 100 - sa + (mid ? 0 : L) + sb;
    VF_NEAR("ds", d.ds, swap ? -gap : gap, 1e-6);
    VF_ASSERT("dLane", d.dLaneId == 0);
}
