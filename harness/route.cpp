// C09: routes and path finding
#include "scenario.h"
#include "LaneIndependentRouter.hpp"
using namespace roadmanager;
using namespace odr;
typedef Position::ReturnCode RC;
static RoadDef line(int id, double x, double y, double h, double len, std::vector<LaneDef> lanes)
{
    RoadDef r;
    r.id = id; r.length = len;
    r.geo = {{0, x, y, h, len, "<line/>"}};
    r.sec = {{0, lanes}};
    return r;
}
// Three roads along the x axis (100, 40, 100 m); bit k of rev: road k is defined against the direction of travel
static const double LEN[3] = {100, 40, 100}, X0[3] = {0, 100, 140};
static int ln(int rev, int k) { return (rev >> k) & 1 ? 1 : -1; }          // lane in the direction of travel
static double atX(int rev, int k, double x) { return (rev >> k) & 1 ? X0[k] + LEN[k] - x : x - X0[k]; }
static void chain(int rev)
{
    std::vector<RoadDef> rs;
    for (int k = 0; k < 3; k++)
    {
        bool    r = (rev >> k) & 1;
        LinkDef prev, next;
        if (k > 0) prev = {"road", k - 1, (rev >> (k - 1)) & 1 ? "start" : "end"};
        if (k < 2) next = {"road", k + 1, (rev >> (k + 1)) & 1 ? "end" : "start"};
        int fp = k > 0 ? (r == bool((rev >> (k - 1)) & 1) ? 1 : -1) : 0, fn = k < 2 ? (r == bool((rev >> (k + 1)) & 1) ? 1 : -1) : 0;
        std::vector<LaneDef> ls;
        for (int id : {1, -1}) ls.push_back({id, {W(3.5)}, "driving", r ? fn * id : fp * id, r ? fp * id : fn * id});
        RoadDef d = line(k, r ? X0[k] + LEN[k] : X0[k], 0, r ? M_PI : 0, LEN[k], ls);
        d.pred = r ? next : prev;
        d.succ = r ? prev : next;
        rs.push_back(d);
    }
    VF_ASSERT("load", load(doc(rs)));
}
static void way(Route& route, int rev, double xa, double xb)
{
    Position a(0, ln(rev, 0), atX(rev, 0, xa), 0.0), b(2, ln(rev, 2), atX(rev, 2, xb), 0.0);
    a.SetHeadingRelative(rev & 1 ? M_PI : 0.0);
    route.AddWaypoint(a);
    route.AddWaypoint(b);
    route.CheckValid();
}
static void path_(int rev)
{
    chain(rev);
    double xa = vf_double("xa", 5, 60), xb = vf_double("xb", 150, 230), q = vf_double("q", 0, 220);
    Route  route;
    way(route, rev, xa, xb);
    VF_ASSERT("valid", route.IsValid() && route.minimal_waypoints_.size() == 3);
    VF_NEAR("length", route.GetLength(), xb - xa, 1e-6);
    VF_ASSUME(q < xb - xa - 1e-3 && q > 1e-3);
    double x = xa + q;
    VF_ASSUME((x < 99.999 || x > 100.001) && (x < 139.999 || x > 140.001));
    VF_ASSERT("rc", route.SetPathS(q) == RC::OK);
    int k = x < 100 ? 0 : x < 140 ? 1 : 2;
    VF_ASSERT("road", (int)route.GetTrackId() == k);
    VF_ASSERT("lane", route.GetLaneId() == ln(rev, k));
    VF_NEAR("x", route.GetCurrentPosition()->GetX(), x, 1e-5);
    VF_ASSERT("on", route.OnRoute());
    Route back;
    way(back, rev, xa, xb);
    VF_ASSERT("rc2", back.SetTrackS(k, atX(rev, k, x)) == RC::OK);
    VF_NEAR("path_s", back.GetPathS(), q, 1e-5);
    VF_NEAR("x2", back.GetCurrentPosition()->GetX(), x, 1e-5);
}
VF_CASE(path_fff) { path_(0); }
VF_CASE(path_rff) { path_(1); }
VF_CASE(path_frf) { path_(2); }
VF_CASE(path_ffr) { path_(4); }
VF_CASE(path_rrr) { path_(7); }
// further waypoints on the way do not change the distances, also when several lie on one road
static void via_(int rev)
{
    chain(rev);
    double xa = 20, xb = 210, m0 = vf_double("m0", 21, 99), m1 = vf_double("m1", 101, 139), m2 = vf_double("m2", 141, 209), q = vf_double("q", 1, 189);
    Route  route;
    for (auto& w : std::vector<std::pair<int, double>>{{0, xa}, {0, m0}, {1, m1}, {2, m2}, {2, xb}})
    {
        Position p(w.first, ln(rev, w.first), atX(rev, w.first, w.second), 0.0);
        p.SetHeadingRelative((rev >> w.first) & 1 ? M_PI : 0.0);
        route.AddWaypoint(p);
    }
    route.CheckValid();
    VF_ASSERT("valid", route.IsValid() && route.minimal_waypoints_.size() == 3);
    VF_NEAR("length", route.GetLength(), xb - xa, 1e-6);
    double x = xa + q;
    VF_ASSUME((x < 99.999 || x > 100.001) && (x < 139.999 || x > 140.001) && fabs(x - m1) > 1e-3);
    VF_ASSERT("rc", route.SetPathS(q) == RC::OK);
    VF_NEAR("x", route.GetCurrentPosition()->GetX(), x, 1e-5);
    VF_NEAR("path_s", route.GetPathS(), q, 1e-5);
    int k = x < 100 ? 0 : x < 140 ? 1 : 2;
    VF_ASSERT("rc2", route.SetTrackS(k, atX(rev, k, x)) == RC::OK);
    VF_NEAR("path_s2", route.GetPathS(), q, 1e-5);
    VF_ASSERT("rc3", route.MovePathDS((m1 - x) * ((rev >> k) & 1 ? -1 : 1)) == RC::OK);
    VF_NEAR("moved", route.GetCurrentPosition()->GetX(), m1, 1e-5);
}
VF_CASE(via_f) { via_(0); }
VF_CASE(via_r) { via_(7); }
VF_CASE(via_rfr) { via_(5); }
// a route that ends exactly at the end of its last road
static void full_(int rev)
{
    chain(rev);
    double xa = vf_double("xa", 5, 60), q = vf_double("q", 100, 240);
    Route  route;
    way(route, rev, xa, 240);
    VF_NEAR("length", route.GetLength(), 240 - xa, 1e-6);
    VF_ASSUME(q <= 240 - xa && (xa + q > 140.001 || xa + q < 139.999));
    VF_ASSERT("rc", route.SetPathS(q) == RC::OK);
    VF_NEAR("x", route.GetCurrentPosition()->GetX(), xa + q, 1e-5);
    VF_ASSERT("end", route.SetPathS(240 - xa) == RC::OK);
    VF_ASSERT("road", route.GetTrackId() == 2);
    VF_NEAR("xe", route.GetCurrentPosition()->GetX(), 240, 1e-5);
}
VF_CASE(full_f) { full_(0); }
VF_CASE(full_r) { full_(7); }
// outside the route: not on the route, the distance past the end is reported, the entity is flagged
VF_CASE(outside)
{
    int rev = vf_int("rev", 0, 1) ? 7 : 0;
    chain(rev);
    double xa = vf_double("xa", 5, 60), xb = vf_double("xb", 150, 220), q = vf_double("q", 0.01, 15);
    Route  route;
    way(route, rev, xa, xb);
    route.SetPathS(1.0);
    double rest = -1;
    bool   before = vf_int("before", 0, 1);
    VF_ASSERT("rc", route.SetPathS(before ? -q : xb - xa + q, &rest) == RC::ERROR_END_OF_ROUTE);
    VF_NEAR("rest", rest, q, 1e-6);
    VF_ASSERT("off", !route.OnRoute());
}
static void drive_(int rev)
{
    chain(rev);
    double   xa = vf_double("xa", 5, 60), ds1 = vf_double("ds1", 1, 120), ds2 = vf_double("ds2", 1, 120), off = vf_thorough() ? vf_double("off", -1, 1) : 0.5, xb = 200;
    Position p(0, ln(rev, 0), atX(rev, 0, xa), off);
    p.SetHeadingRelative(rev & 1 ? M_PI : 0.0);
    Route* route = new Route;
    way(*route, rev, xa, xb);
    p.SetRoute(route);
    VF_NEAR("s0", p.GetRouteS(), 0, 1e-6);
    double x = xa;
    for (double ds : {ds1, ds2})
    {
        x += ds;
        VF_ASSUME(fabs(x - 100) > 1e-3 && fabs(x - 140) > 1e-3 && fabs(x - 200) > 1e-3 && x < 239);
        RC rc = p.MoveAlongS(ds, 0.0, 0.0, true, Position::MoveDirectionMode::HEADING_DIRECTION, true);
        VF_ASSERT("rc", rc >= RC::OK);
        VF_NEAR("x", p.GetX(), x, 1e-5);
        VF_NEAR("offset", p.GetOffset() * ln(rev, x < 100 ? 0 : x < 140 ? 1 : 2), off * ln(rev, 0), 1e-5);
        bool end = p.GetStatusBitMask() & static_cast<int>(Position::PositionStatusMode::POS_STATUS_END_OF_ROUTE);
        p.CalcRoutePosition();
        if (x < 200)
        {
            VF_ASSERT("not_end", !end);
            VF_NEAR("route_s", p.GetRouteS(), x - xa, 1e-5);
            VF_ASSERT("on", p.GetRoute()->OnRoute());
        }
        else
        {
            VF_ASSERT("end", end);
            VF_ASSERT("off", !p.GetRoute()->OnRoute());
            return;
        }
    }
}
VF_CASE(drive_fff) { drive_(0); }
VF_CASE(drive_frf) { drive_(2); }
VF_CASE(drive_rrr) { drive_(7); }
VF_CASE(drive_rfr) { drive_(5); }

// A junction: road 0 along x ends in junction 9, connecting roads 10 (straight on), 11 (left), 12 (right) lead to roads 1, 2, 3; bit i of rev: road i+1 is defined towards the junction
static std::string conn(int id, int in, int via, const char* cp, std::vector<std::pair<int, int>> ll)
{
    std::string s = "<connection id=\"" + std::to_string(id) + "\" incomingRoad=\"" + std::to_string(in) + "\" connectingRoad=\"" + std::to_string(via) + "\" contactPoint=\"" + cp + "\">";
    for (auto& l : ll) s += "<laneLink from=\"" + std::to_string(l.first) + "\" to=\"" + std::to_string(l.second) + "\"/>";
    return s + "</connection>";
}
static const double R = 20, Q = 20 * M_PI / 2;
static std::string junction(int rev, bool conrev)
{
    auto lanes = [](int rev) { return std::vector<LaneDef>{{1, {W(3.5)}}, {-1, {W(3.5)}}}; };
    RoadDef a = line(0, 0, 0, 0, 100, lanes(0)), s, l, r, o[3];
    a.succ = {"junction", 9, nullptr};
    const double ox[3] = {140, 120, 120}, oy[3] = {0, 20, -20}, oh[3] = {0, M_PI / 2, -M_PI / 2};
    for (int i = 0; i < 3; i++)
    {
        if ((rev >> i) & 1) { o[i] = line(i + 1, ox[i] + 100 * cos(oh[i]), oy[i] + 100 * sin(oh[i]), oh[i] + M_PI, 100, lanes(1)); o[i].succ = {"junction", 9, nullptr}; }
        else { o[i] = line(i + 1, ox[i], oy[i], oh[i], 100, lanes(0)); o[i].pred = {"junction", 9, nullptr}; }
    }
    auto out = [&](int i) { return LinkDef{"road", i + 1, (rev >> i) & 1 ? "end" : "start"}; };
    auto ol  = [&](int i) { return (rev >> i) & 1 ? 1 : -1; };
    if (!conrev) { s = line(10, 100, 0, 0, 40, {{-1, {W(3.5)}, "driving", -1, ol(0)}}); s.pred = {"road", 0, "end"}; s.succ = out(0); }
    else { s = line(10, 140, 0, M_PI, 40, {{1, {W(3.5)}, "driving", ol(0), -1}}); s.succ = {"road", 0, "end"}; s.pred = out(0); }
    l = line(11, 100, 0, 0, Q, {{-1, {W(3.5)}, "driving", -1, ol(1)}}); l.geo[0].kind = arc(1 / R); l.pred = {"road", 0, "end"}; l.succ = out(1);
    r = line(12, 100, 0, 0, Q, {{-1, {W(3.5)}, "driving", -1, ol(2)}}); r.geo[0].kind = arc(-1 / R); r.pred = {"road", 0, "end"}; r.succ = out(2);
    s.junction = l.junction = r.junction = 9;
    std::string j = "<junction id=\"9\" name=\"j\">" + conn(0, 0, 10, conrev ? "end" : "start", {{-1, conrev ? 1 : -1}}) + conn(1, 0, 11, "start", {{-1, -1}}) + conn(2, 0, 12, "start", {{-1, -1}}) + "</junction>";
    return doc({a, o[0], o[1], o[2], s, l, r}, j);
}
static void junction_drive_(int w)
{
    int rev = vf_int("rev", 0, 1) ? 7 : 0, con = w == 0 ? vf_int("con", 0, 1) : 0;
    VF_ASSERT("load", load(junction(rev, con)));
    double   L = w ? Q : 40;
    double   s0 = w == 0 ? vf_double("s0", 20, 95) : 80, e = w == 0 ? vf_double("e", 20, 80) : 61, ds1 = vf_double("ds1", 1, 100), ds2 = w == 0 || vf_thorough() ? vf_double("ds2", 1, 60) : 27;
    Position p(0, -1, s0, 0.0);
    Route*   route = new Route;
    Position a(0, -1, s0 - 10, 0.0), b(w + 1, rev ? 1 : -1, rev ? 100 - e : e, 0.0);
    route->AddWaypoint(a);
    route->AddWaypoint(b);
    route->CheckValid();
    VF_ASSERT("valid", route->IsValid());
    VF_NEAR("length", route->GetLength(), 110 - s0 + L + e, 1e-5);
    p.SetRoute(route);
    VF_NEAR("rs0", p.GetRouteS(), 10, 1e-5);
    double d = s0;  // along the way from the start of road 0 (lane centre: reference line length)
    for (double ds : {ds1, ds2})
    {
        d += ds;
        VF_ASSUME(fabs(d - 100) > 1e-3 && fabs(d - 100 - L) > 1e-3 && d < 100 + L + e - 1e-3);
        RC rc = p.MoveAlongS(ds, 0.0, 0.0, false, Position::MoveDirectionMode::HEADING_DIRECTION, true);
        VF_ASSERT("rc", rc >= RC::OK);
        int road = d < 100 ? 0 : d < 100 + L ? 10 + w : w + 1;
        VF_ASSERT("road", (int)p.GetTrackId() == road);
        double s = d < 100 ? d : d < 100 + L ? (con ? L - (d - 100) : d - 100) : (rev ? 100 - (d - 100 - L) : d - 100 - L);
        VF_NEAR("s", p.GetS(), s, 1e-5);
        p.CalcRoutePosition();
        VF_NEAR("route_s", p.GetRouteS(), d - s0 + 10, 1e-5);
        VF_ASSERT("on", p.GetRoute()->OnRoute());
        VF_ASSERT("route_road", (int)p.GetRoute()->GetTrackId() == road);
    }
}
VF_CASE(junction_straight) { junction_drive_(0); }
VF_CASE(junction_left) { junction_drive_(1); }
VF_CASE(junction_right) { junction_drive_(2); }

// the whole engine: the entity takes the way of its route whatever its speed and the time step
static void engine_(int w)
{
    using namespace osc;
    double v = vf_double("v", 5, 30), dt = vf_double("dt", 0.2, 1.5);
    int    rev = vf_int("rev", 0, 1) ? 7 : 0;
    double L = w ? Q : 40;
    Ent    e;
    e.name = "Ego";
    e.init = teleport(lanePos(0, -1, 80)) + absSpeed(v) + "<PrivateAction><RoutingAction><AssignRouteAction><Route name=\"r\" closed=\"false\"><Waypoint routeStrategy=\"shortest\">" + lanePos(0, -1, 70) + "</Waypoint><Waypoint routeStrategy=\"shortest\">" +
             lanePos(w + 1, rev ? 1 : -1, rev ? 10 : 90) + "</Waypoint></Route></AssignRouteAction></RoutingAction></PrivateAction>";
    Doc    d;
    d.ents = {e};
    d.xodr = writeRoad(junction(rev, false));
    Engine en(xml(d));
    en.step(0);
    double t = 0;
    for (int i = 0; i < 3; i++)
    {
        en.step(dt);
        t += dt;
        auto*  o = en.obj(0);
        double q = 80 + v * t;
        // lane centre is 1.75 m from the reference line: the bend is longer or shorter for the entity
        double Le = w == 0 ? 40 : w == 1 ? (R + 1.75) * M_PI / 2 : (R - 1.75) * M_PI / 2;
        if (q < 99.99) { VF_ASSERT("r0", o->pos_.GetTrackId() == 0); VF_NEAR("s0", o->pos_.GetS(), q, 1e-5); }
        else if (q > 100.01 + 8 && q < 100 + Le - 8) VF_ASSERT("rj", (int)o->pos_.GetTrackId() == 10 + w);
        else if (q > 100 + Le + 8 && q < 100 + Le + 80) VF_ASSERT("r1", (int)o->pos_.GetTrackId() == w + 1);
        VF_ASSUME(q < 100 + Le + 70);
    }
}
VF_CASE(engine_straight) { engine_(0); }
VF_CASE(engine_left) { engine_(1); }
VF_CASE(engine_right) { engine_(2); }

// Path finding: 1 -> junction 50 -> 10 -> 2 -> junction 51 -> 20 -> 4, or 1 -> 50 -> 11 -> 3 -> junction 52 -> 30 -> 5 -> junction 51 -> 21 -> 4.
// Lengths and speed limits are free, each road may be defined in either direction; the geometry plays no part.
static std::string typ(double v) { return "<type s=\"0\" type=\"rural\"><speed max=\"" + N(v) + "\" unit=\"m/s\"/></type>"; }
struct Net
{
    double l2 = 100, l3 = 100, v2 = 20, v3 = 20, l10 = 20, l11 = 20, l5 = 30;
    int    rev = 0;  // bit i: road i is defined against the direction of travel
    bool   r(int id) const { return (rev >> id) & 1; }
    int    lane(int id) const { return r(id) ? 1 : -1; }
};
static void net(const Net& n)
{
    struct El { bool j; int id; };
    auto road = [&](int id, El from, El to, int jn, int fl, int tl) {
        bool    rv = n.r(id);
        LinkDef none, p = from.j ? LinkDef{"junction", from.id, nullptr} : from.id < 0 ? none : LinkDef{"road", from.id, n.r(from.id) ? "start" : "end"};
        LinkDef s = to.j ? LinkDef{"junction", to.id, nullptr} : to.id < 0 ? none : LinkDef{"road", to.id, n.r(to.id) ? "end" : "start"};
        RoadDef d = line(id, 1000.0 * id, 0, 0, 100, {{n.lane(id), {W(3.5)}, "driving", rv ? tl : fl, rv ? fl : tl}});
        d.junction = jn; d.pred = rv ? s : p; d.succ = rv ? p : s; d.type = typ(id == 2 ? n.v2 : id == 3 ? n.v3 : 20);
        return d;
    };
    El   end{false, -1};
    auto J = [](int id) { return El{true, id}; };
    auto C = [&](int id, int jn, int a, int b) { return road(id, {false, a}, {false, b}, jn, n.lane(a), n.lane(b)); };
    auto cn = [&](int id, int in, int via) { return conn(id, in, via, n.r(via) ? "end" : "start", {{n.lane(in), n.lane(via)}}); };
    std::string j = "<junction id=\"50\" name=\"a\">" + cn(0, 1, 10) + cn(1, 1, 11) + "</junction><junction id=\"51\" name=\"b\">" + cn(0, 2, 20) + cn(1, 5, 21) + "</junction><junction id=\"52\" name=\"c\">" + cn(0, 3, 30) + "</junction>";
    VF_ASSERT("load", load(doc({road(1, end, J(50), -1, 0, 0), road(2, J(50), J(51), -1, 0, 0), road(3, J(50), J(52), -1, 0, 0), road(5, J(52), J(51), -1, 0, 0), road(4, J(51), end, -1, 0, 0), C(10, 50, 1, 2), C(11, 50, 1, 3), C(20, 51, 2, 4), C(21, 51, 5, 4), C(30, 52, 3, 5)}, j)));
    // the lengths are put in place after loading: sampling the outline of a road of unknown length is not the subject here
    auto* o = Position::GetOpenDrive();
    o->GetRoadById(2)->SetLength(n.l2); o->GetRoadById(3)->SetLength(n.l3); o->GetRoadById(10)->SetLength(n.l10); o->GetRoadById(11)->SetLength(n.l11); o->GetRoadById(5)->SetLength(n.l5); 
}
static std::vector<Node> find(const Net& n, Position::RouteStrategy st, double s0, double s1, LaneIndependentRouter& router)
{
    // s0, s1 are counted in the direction of travel
    Position a(1, n.lane(1), n.r(1) ? 100 - s0 : s0, 0.0), b(4, n.lane(4), n.r(4) ? 100 - s1 : s1, 0.0);
    a.SetHeadingRelative(n.r(1) ? M_PI : 0);
    b.SetRouteStrategy(st);
    return router.CalculatePath(a, b);
}
static void path_is(const Net& n, const std::vector<Node>& p, bool first)
{
    std::vector<int> ids = first ? std::vector<int>{1, 10, 2, 20, 4} : std::vector<int>{1, 11, 3, 30, 5, 21, 4};
    VF_ASSERT("nodes", p.size() == ids.size());
    for (size_t i = 0; i < ids.size(); i++) VF_ASSERT("node", (int)p[i].road->GetId() == ids[i] && p[i].currentLaneId == n.lane(ids[i]));
}
static void shortest_(int rev)
{
    Net n;
    n.rev = rev;
    n.l2 = vf_double("l2", 10, 500); n.l3 = vf_double("l3", 10, 500); n.l10 = vf_double("l10", 5, 60); n.v2 = 5;
    double s0 = vf_double("s0", 1, 99), s1 = vf_double("s1", 1, 99);
    net(n);
    double a = n.l10 + n.l2, b = n.l11 + n.l3 + 100 + n.l5;
    VF_ASSUME(fabs(a - b) > 1e-3);
    LaneIndependentRouter router(Position::GetOpenDrive());
    auto p = find(n, Position::RouteStrategy::SHORTEST, s0, s1, router);
    path_is(n, p, a < b);
    VF_NEAR("cost", p.back().weight, 100 - s0 + (a < b ? a : b) + 100 + s1, 1e-6);
}
VF_CASE(shortest) { shortest_(0); }
VF_CASE(shortest_rev) { shortest_(-1); }
VF_CASE(shortest_mixed) { shortest_(1 << 2 | 1 << 11 | 1 << 5 | 1 << 4 | 1 << 21); }
VF_CASE(fastest)
{
    Net n;
    n.rev = vf_int("rev", 0, 1) ? 1 << 3 | 1 << 20 | 1 << 10 : 0;
    n.l2 = vf_double("l2", 50, 500); n.l3 = 200; n.v2 = vf_double("v2", 5, 40); n.v3 = vf_double("v3", 5, 40);
    net(n);
    double a = n.l2 / n.v2, b = n.l3 / n.v3 + (100 + n.l5) / 20;
    VF_ASSUME(fabs(a - b) > 1e-3);
    LaneIndependentRouter router(Position::GetOpenDrive());
    path_is(n, find(n, Position::RouteStrategy::FASTEST, 40, 30, router), a < b);
}
VF_CASE(least_intersections)
{
    Net n;
    n.rev = vf_int("rev", 0, 1) ? 1 << 3 | 1 << 30 | 1 << 5 : 0;
    n.l2 = vf_double("l2", 10, 900); n.l3 = vf_double("l3", 1, 500);
    net(n);
    LaneIndependentRouter router(Position::GetOpenDrive());
    path_is(n, find(n, Position::RouteStrategy::MIN_INTERSECTIONS, 40, 30, router), true);
}
// the waypoints of a path lie on its roads in order, on the path's lanes, the first where the entity is
static void waypoints_(int rev)
{
    Net n;
    n.rev = rev;
    n.l10 = n.l11 = n.l5 = 100;
    double s0 = vf_double("s0", 1, 99), s1 = vf_double("s1", 1, 99);
    net(n);
    LaneIndependentRouter r(Position::GetOpenDrive());
    auto                  p = find(n, Position::RouteStrategy::SHORTEST, s0, s1, r);
    path_is(n, p, true);
    Position a(1, n.lane(1), n.r(1) ? 100 - s0 : s0, 0.0), b(4, n.lane(4), n.r(4) ? 100 - s1 : s1, 0.0);
    auto     w = r.GetWaypoints(p, a, b);
    const int ids[] = {1, 10, 2, 20, 4};
    VF_ASSERT("waypoints", w.size() == 5);
    for (int i = 0; i < 5; i++)
    {
        VF_ASSERT("waypoint", (int)w[i].GetTrackId() == ids[i] && w[i].GetLaneId() == n.lane(ids[i]));
        VF_NEAR("s", w[i].GetS(), i == 0 ? (n.r(1) ? 100 - s0 : s0) : i == 4 ? (n.r(4) ? 100 - s1 : s1) : 50, 1e-6);
    }
    Route route;  // as a route it covers the whole way
    for (auto& x : w) route.AddWaypoint(x);
    VF_ASSERT("valid", route.IsValid());
    VF_NEAR("length", route.GetLength(), 100 - s0 + 300 + s1, 1e-5);
}
VF_CASE(waypoints) { waypoints_(0); }
VF_CASE(waypoints_rev) { waypoints_(-1); }
VF_CASE(waypoints_mixed) { waypoints_(1 << 2 | 1 << 20); }
VF_CASE(no_way)
{
    // against the direction of the connections there is no path
    Net n;
    n.l2 = vf_double("l2", 10, 900);
    net(n);
    double                s0 = vf_double("s0", 1, 99), s1 = vf_double("s1", 1, 99);
    LaneIndependentRouter router(Position::GetOpenDrive());
    Position              a(4, -1, s0, 0.0), b(1, -1, s1, 0.0);
    VF_ASSERT("none", router.CalculatePath(a, b).empty());
    Position c(2, -1, s0, 0.0), d(3, -1, s1, 0.0);
    VF_ASSERT("none2", router.CalculatePath(c, d).empty());
}
