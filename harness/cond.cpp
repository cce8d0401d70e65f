// C12: entity conditions report what the entities do
#include "scenario.h"
using namespace osc;
using namespace scenarioengine;
static const double LW = 3.5;
static double       yOf(int lane) { return lane < 0 ? (lane + 0.5) * LW : (lane - 0.5) * LW; }
static std::string  orient(double h) { return "<Orientation type=\"relative\" h=\"" + N(h) + "\"/>"; }
static Ent ent(const char* name, int lane, double s, double v, Box b = Box(), double off = 0, double relh = 0)
{
    Ent e;
    e.name  = name;
    e.perf_ = perf(200, 1000, 1000);
    e.box   = b;
    e.init  = teleport(lanePos(0, lane, s, off, relh == 0 ? "" : orient(relh))) + absSpeed(v);
    return e;
}
static Box box(double cx, double l, double w) { Box b; b.cx = cx; b.l = l; b.w = w; return b; }
static std::string byEntity(const std::string& inner, const char* rule, const std::vector<const char*>& who)
{
    std::string s = std::string("<Condition name=\"c\" delay=\"0\" conditionEdge=\"none\"><ByEntityCondition><TriggeringEntities triggeringEntitiesRule=\"") + rule + "\">";
    for (auto w : who) s += std::string("<EntityRef entityRef=\"") + w + "\"/>";
    return s + "</TriggeringEntities><EntityCondition>" + inner + "</EntityCondition></ByEntityCondition></Condition>";
}
struct Scene : Engine
{
    explicit Scene(const std::string& t) : Engine(t) { VF_ASSERT("init", se->GetInitStatus() == 0); }
    StoryBoardElement* ev(const char* n = "e") { return se->storyBoard.FindChildByTypeAndName(StoryBoardElement::EVENT, n)[0]; }
    OSCCondition* cond() { return ev()->start_trigger_->conditionGroup_[0]->condition_[0]; }
    bool          holds() { return cond()->CheckCondition(se->getSimulationTime()); }
    void          run(int n, double dt) { for (int i = 0; i < n; i++) step(i ? dt : 0); }
};
static Doc scene(const std::vector<Ent>& es, const std::string& cond)
{
    Doc d;
    d.xodr  = writeRoad(odr::doc({straight()}));
    d.ents  = es;
    d.minor = 3;
    // the first condition is examined by the harness, the second keeps the event from starting
    d.story = act("a", mgroup("g", es[0].name, event("e", action("x", absSpeed(1)), trig(cond + simTimeCond(1e6)))));
    return d;
}
static std::string dbl(const char* n, double v) { return std::string(" ") + n + "=\"" + N(v) + "\""; }
static std::string str(const char* n, const std::string& v) { return std::string(" ") + n + "=\"" + v + "\""; }
static const char* RULE[] = {"greaterThan", "lessThan"};
static bool cmp(int rule, double a, double b) { return rule == 0 ? a > b : a < b; }
static void apart(double a, double b) { VF_ASSUME(a > b + 1e-4 || a < b - 1e-4); }

VF_CASE(speed)
{
    double v = vf_double("v", -20, 30), lim = vf_double("lim", -20, 30);
    int    rule = vf_int("rule", 0, 1), dir = vf_int("dir", 0, 2);  // scalar, longitudinal, lateral
    apart(v, lim);
    apart(0, lim);
    VF_ASSUME(v > 0.01 || v < -0.01);
    Scene r(xml(scene({ent("A", -1, 100, v)}, byEntity("<SpeedCondition" + dbl("value", lim) + str("rule", RULE[rule]) + (dir == 1 ? " direction=\"longitudinal\"" : dir == 2 ? " direction=\"lateral\"" : "") + "/>", "any", {"A"}))));
    r.run(4, 0.1);
    VF_NEAR("speed_is", r.obj(0)->GetSpeed(), v, 1e-9);
    VF_ASSERT("speed", r.holds() == cmp(rule, dir == 2 ? 0 : v, lim));
}
VF_CASE(relative_speed)
{
    double v = vf_double("v", 1, 30), w = vf_double("w", 1, 30), lim = vf_double("lim", -70, 70);
    int    rule = vf_int("rule", 0, 1), dir = vf_int("dir", 0, 2), opp = vf_int("opposite", 0, 1);
    double rel  = dir == 0 ? v - w : dir == 1 ? (opp ? -v - w : v - w) : 0;
    apart(rel, lim);
    Scene r(xml(scene({ent("A", -1, 100, v), ent("T", opp ? 1 : -2, 300, w)},
                      byEntity("<RelativeSpeedCondition" + str("entityRef", "T") + dbl("value", lim) + str("rule", RULE[rule]) + (dir == 1 ? " direction=\"longitudinal\"" : dir == 2 ? " direction=\"lateral\"" : "") + "/>", "any", {"A"}))));
    r.run(4, 0.1);
    VF_ASSERT("relative_speed", r.holds() == cmp(rule, rel, lim));
}
VF_CASE(acceleration)
{
    double a = vf_double("a", 0.5, 5), lim = vf_double("lim", -6, 6);
    int    rule = vf_int("rule", 0, 1), dec = vf_int("dec", 0, 1), dir = vf_int("dir", 0, 2);
    double want = dir == 2 ? 0 : dec ? -a : a;  // without direction: magnitude, signed by the heading
    apart(want, lim);
    Doc d = scene({ent("A", -1, 100, 20)}, byEntity("<AccelerationCondition" + dbl("value", lim) + str("rule", RULE[rule]) + (dir == 1 ? " direction=\"longitudinal\"" : dir == 2 ? " direction=\"lateral\"" : "") + "/>", "any", {"A"}));
    d.ents[0].init = teleport(lanePos(0, -1, 100)) + absSpeed(20) ;
    d.story = act("a", mgroup("g", "A", event("e", action("x", absSpeed(1)), trig(byEntity("<AccelerationCondition" + dbl("value", lim) + str("rule", RULE[rule]) + (dir == 1 ? " direction=\"longitudinal\"" : dir == 2 ? " direction=\"lateral\"" : "") + "/>", "any", {"A"}) + simTimeCond(1e6)))) +
                       mgroup("h", "A", event("acc", action("y", absSpeed(dec ? 10 : 30, "linear", "rate", a)), trig(simTimeCond(-1)))));
    Scene r(xml(d));
    r.run(7, 0.1);
    VF_ASSERT("acceleration", r.holds() == cmp(rule, want, lim));
}
VF_CASE(traveled)
{
    double v = vf_double("v", -20, 20), lim = vf_double("lim", 0.1, 12);
    VF_ASSUME(v > 0.01 || v < -0.01);
    Scene  r(xml(scene({ent("A", -1, 100, v)}, byEntity("<TraveledDistanceCondition" + dbl("value", lim) + "/>", "any", {"A"}))));
    double gone = 0;
    for (int i = 0; i < 6; i++)
    {
        r.step(i ? 0.1 : 0);
        if (i) gone += 0.1 * (v < 0 ? -v : v);
        apart(gone, lim);
        VF_NEAR("odometer", r.obj(0)->odometer_, gone, 1e-6);
        VF_ASSERT("traveled", r.holds() == (gone > lim));
    }
}
VF_CASE(reach_position)
{
    double s = vf_double("s", 95, 115), tol = vf_double("tol", 0.5, 5);
    int    lane = -1 - vf_int("lane", 0, 1), o = vf_int("orientation", 0, 3);
    double dx = s - 105, dy = (lane + 1) * LW;
    double d2 = dx * dx + dy * dy;
    apart(d2, tol * tol);
    // 0: none given, 1: same heading, 2: turned by 0.3, 3: same heading written as 2 pi less
    double      oh  = o == 2 ? 0.3 : o == 3 ? -2 * M_PI : 0;
    std::string pos = lanePos(0, -1, 105, 0, o == 0 ? "" : o == 1 ? "<Orientation type=\"relative\" h=\"0\"/>" : orient(oh));
    Scene r(xml(scene({ent("A", lane, s, 0)}, byEntity("<ReachPositionCondition" + dbl("tolerance", tol) + ">" + pos + "</ReachPositionCondition>", "any", {"A"}))));
    r.run(2, 0.1);
    VF_ASSERT("reach", r.holds() == (d2 < tol * tol && o != 2));
}
// headings just either side of the 0 / 2 pi seam are close to each other
VF_CASE(reach_seam)
{
    double a = vf_double("a", -0.02, 0.02), b = vf_double("b", -0.02, 0.02);
    VF_ASSUME(a > 1e-3 || a < -1e-3);
    VF_ASSUME(b > 1e-3 || b < -1e-3);
    Scene r(xml(scene({ent("A", -1, 105, 0, Box(), 0, a)}, byEntity("<ReachPositionCondition tolerance=\"2\">" + lanePos(0, -1, 105, 0, orient(b)) + "</ReachPositionCondition>", "any", {"A"}))));
    r.run(2, 0.1);
    VF_ASSERT("seam", r.holds());
}
// leaving a position with orientation again
VF_CASE(reach_leave)
{
    double v = vf_double("v", 20, 60);
    Doc    d = scene({ent("A", -1, 100, v)}, "");
    d.story  = act("a", mgroup("g", "A", event("e", action("x", absSpeed(1)), trig(byEntity("<ReachPositionCondition tolerance=\"2\">" + lanePos(0, -1, 105, 0, "<Orientation type=\"relative\" h=\"0\"/>") + "</ReachPositionCondition>", "any", {"A"}) + simTimeCond(1e6)))));
    Scene r(xml(d));
    bool  was = false;
    for (int i = 0; i < 8; i++)
    {
        r.step(i ? 0.05 : 0);
        double x = 100 + 0.05 * i * v - 105;
        apart(x, 2);
        apart(x, -2);
        VF_ASSERT("leave", r.holds() == (x > -2 && x < 2));
        was = was || r.holds();
    }
    VF_ASSERT("leave_end", !r.holds());
}
static double gap1(double a0, double a1, double b0, double b1)  // signed gap from interval a to interval b, 0 when they overlap
{
    if (b0 > a1) return b0 - a1;
    if (a0 > b1) return b1 - a0;
    return 0;
}
static double absd(double v) { return v < 0 ? -v : v; }
static const char* CS[]  = {"entity", "road", "lane"};
static const char* RDT[] = {"longitudinal", "lateral", "euclidianDistance"};
// expected signed distances from A (driving along or against the road) to the target
struct Dist { double lon, lat, d2; };
static Dist expectDist(double dx, double dy, int dirA, int dirT, Box a, Box t, bool freespace, bool point)
{
    // in the frame of A
    double lx = dirA * dx, ly = dirA * dy;
    Dist   r;
    if (!freespace) { r.lon = lx; r.lat = ly; }
    else
    {
        double tc = point ? 0 : dirA * dirT * t.cx, th = point ? 0 : t.l / 2, tw = point ? 0 : t.w / 2;
        r.lon = gap1(a.cx - a.l / 2, a.cx + a.l / 2, lx + tc - th, lx + tc + th);
        r.lat = gap1(-a.w / 2, a.w / 2, ly - tw, ly + tw);
    }
    r.d2 = r.lon * r.lon + r.lat * r.lat;
    return r;
}
static void distanceCase(bool point, bool freespace, bool latRoad = false, int only = -1)
{
    int    cs = vf_int("cs", latRoad ? 1 : 0, 2), ty = latRoad ? 1 : only >= 0 ? only : vf_int("type", 0, 2), la = vf_int("laneA", 0, 1) ? 1 : -1, lt = vf_int("laneT", 0, 2), rule = vf_int("rule", 0, 1), boxes = freespace ? vf_int("boxes", 0, 1) : 0;
    int    laneT = lt == 0 ? -1 : lt == 1 ? -2 : 1;
    if (cs != 0 && ty == 2) VF_ASSUME(false);  // Euclidean distance has no coordinate system
    double s = vf_double("s", 80, 120), lim = vf_double("lim", 0.3, 30);
    Box    a = boxes ? box(4, 12, 2.5) : Box(), t = boxes ? box(0.2, 1, 0.6) : box(1.0, 4, 1.8);
    if (freespace && !point && !vf_thorough()) VF_ASSUME(cs == 0 ? (rule == 1 || ty != 2) && (la < 0 || lt == 2) : (cs == 1 && rule == 1 && (la < 0 ? lt == boxes : lt == 2 && boxes)));  // lane falls back to road
    if (point && freespace && !latRoad) VF_ASSUME(ty != 1 || cs == 0);
    double dirA = la < 0 ? 1 : -1, dirT = laneT < 0 ? 1 : -1;
    Dist   e    = expectDist(s - 100, yOf(laneT) - yOf(la), dirA, dirT, a, t, freespace, point);
    // stay away from contact and from passing the limit
    double m = ty == 0 ? absd(e.lon) : ty == 1 ? absd(e.lat) : e.d2;
    apart(m, ty == 2 ? lim * lim : lim);
    std::vector<Ent> es = {ent("A", la, 100, 0, a), ent("T", laneT, s, 0, t)};
    if (point) es.pop_back();
    std::string at = str("coordinateSystem", CS[cs]) + str("relativeDistanceType", RDT[ty]) + str("freespace", freespace ? "true" : "false") + dbl("value", lim) + str("rule", RULE[rule]);
    std::string c  = point ? "<DistanceCondition" + at + ">" + lanePos(0, laneT, s) + "</DistanceCondition>" : "<RelativeDistanceCondition" + str("entityRef", "T") + at + "/>";
    Scene r(xml(scene(es, byEntity(c, "any", {"A"}))));
    r.run(2, 0.1);
    if (latRoad) VF_ASSERT("point_lateral", r.holds() == cmp(rule, m, lim));
    else VF_ASSERT("distance", r.holds() == cmp(rule, m, ty == 2 ? lim * lim : lim));
}
VF_CASE(relative_distance) { distanceCase(false, false); }
VF_CASE(relative_freespace_long) { distanceCase(false, true, false, 0); }
VF_CASE(relative_freespace_lat) { distanceCase(false, true, false, 1); }
VF_CASE(relative_freespace_eucl) { distanceCase(false, true, false, 2); }
VF_CASE(position_distance) { distanceCase(true, false); }
VF_CASE(position_freespace) { distanceCase(true, true); }
VF_CASE(position_freespace_lat) { distanceCase(true, true, true); }

VF_CASE(time_headway)
{
    int    cs = vf_int("cs", 0, 2), fs = vf_int("freespace", 0, 1), rule = vf_int("rule", 0, 1), la = vf_int("laneA", 0, 1) ? 1 : -1;
    double s = vf_double("s", 60, 140), v = vf_double("v", 1, 30), lim = vf_double("lim", 0.1, 8);
    Box    a, t = box(1.0, 4, 1.8);
    Dist   e = expectDist(s - 100, 0, la < 0 ? 1 : -1, la < 0 ? 1 : -1, a, t, fs, false);
    VF_ASSUME(e.lon > 0.01 || e.lon < -0.01);
    apart(e.lon, lim * v);
    Scene r(xml(scene({ent("A", la, 100, v, a), ent("T", la, s, v, t)}, byEntity("<TimeHeadwayCondition" + str("entityRef", "T") + str("coordinateSystem", CS[cs]) + str("relativeDistanceType", "longitudinal") + str("freespace", fs ? "true" : "false") + dbl("value", lim) + str("rule", RULE[rule]) + "/>", "any", {"A"}))));
    r.run(3, 0.1);
    VF_ASSERT("headway", r.holds() == (e.lon > 0 && cmp(rule, e.lon, lim * v)));
}
VF_CASE(ttc)
{
    int    cs = vf_int("cs", 0, 2), fs = vf_int("freespace", 0, 1), rule = vf_int("rule", 0, 1), opp = vf_int("opposite", 0, 1);
    double s = vf_double("s", 150, 200), lim = vf_double("lim", 0.1, 8);
    double v = vf_double("v", 5, 30), w = vf_int("moving", 0, 1) ? vf_double("w", 5, 30) : 0;
    double rel = opp ? v + w : v - w;
    apart(rel, 0);
    Box    a, t = box(1.0, 4, 1.8);
    double ds = (s + (opp ? -0.2 : 0.2) * w) - (100 + 0.2 * v);
    Dist   e  = expectDist(ds, opp ? LW : 0, 1, opp ? -1 : 1, a, t, fs, false);
    apart(e.lon, lim * rel);
    Scene r(xml(scene({ent("A", -1, 100, v, a), ent("T", opp ? 1 : -1, s, w, t)}, byEntity("<TimeToCollisionCondition" + str("coordinateSystem", CS[cs]) + str("relativeDistanceType", "longitudinal") + str("freespace", fs ? "true" : "false") + dbl("value", lim) + str("rule", RULE[rule]) + "><TimeToCollisionConditionTarget><EntityRef entityRef=\"T\"/></TimeToCollisionConditionTarget></TimeToCollisionCondition>", "any", {"A"}))));
    r.run(3, 0.1);
    VF_ASSERT("ttc", r.holds() == (rel > 0 && cmp(rule, e.lon, lim * rel)));
}
VF_CASE(ttc_position)
{
    int    fs = vf_int("freespace", 0, 1), rule = vf_int("rule", 0, 1);
    double s = vf_double("s", 60, 200), lim = vf_double("lim", 0.1, 8), v = vf_double("v", 5, 30);
    Box    a;
    Dist   e = expectDist(s - (100 + 0.2 * v), 0, 1, 1, a, a, fs, true);
    VF_ASSUME(e.lon > 0.01 || e.lon < -0.01);
    apart(e.lon, lim * v);
    Scene r(xml(scene({ent("A", -1, 100, v, a)}, byEntity("<TimeToCollisionCondition" + str("coordinateSystem", "entity") + str("relativeDistanceType", "longitudinal") + str("freespace", fs ? "true" : "false") + dbl("value", lim) + str("rule", RULE[rule]) + "><TimeToCollisionConditionTarget>" + lanePos(0, -1, s) + "</TimeToCollisionConditionTarget></TimeToCollisionCondition>", "any", {"A"}))));
    r.run(3, 0.1);
    VF_ASSERT("ttc", r.holds() == (e.lon > 0 && cmp(rule, e.lon, lim * v)));
}
// how long a state has lasted; one step of slack
VF_CASE(stand_still)
{
    double dur = vf_double("duration", 0.05, 0.6), t0 = vf_double("stop_at", -0.05, 0.45);
    int    go = vf_int("go_again", 0, 1);
    Doc    d  = scene({ent("A", -1, 100, 10)}, "");
    d.story   = act("a", mgroup("g", "A", event("e", action("x", absSpeed(1)), trig(byEntity("<StandStillCondition" + dbl("duration", dur) + "/>", "any", {"A"}) + simTimeCond(1e6)))) +
                         mgroup("h", "A", event("stop", action("y", absSpeed(0)), trig(simTimeCond(t0))) + (go ? event("go", action("z", absSpeed(5)), trig(simTimeCond(0.75))) : "")));
    Scene r(xml(d));
    double since = -1;
    for (int i = 0; i < 13; i++)
    {
        r.step(i ? 0.1 : 0);
        double now = 0.1 * i, v = r.obj(0)->GetSpeed();
        if (v > 0.5) since = -1;
        else if (since < 0) since = now;
        bool got = r.holds();
        if (since < 0) VF_ASSERT("moving", !got);
        else
        {
            if (now - since < dur - 1e-6) VF_ASSERT("too_early", !got);
            if (now - since > dur + 0.1 + 1e-6) VF_ASSERT("too_late", got);
        }
    }
}
VF_CASE(end_of_road)
{
    double s = vf_double("s", 993, 999.9), dur = vf_double("duration", 0.05, 0.5);
    Scene  r(xml(scene({ent("A", -1, s, 10)}, byEntity("<EndOfRoadCondition" + dbl("duration", dur) + "/>", "any", {"A"}))));
    for (int i = 0; i < 15; i++)
    {
        r.step(i ? 0.1 : 0);
        double now = 0.1 * i, at = (1000 - s) / 10;
        bool   got = r.holds();
        if (now - at < dur - 1e-3) VF_ASSERT("too_early", !got);
        if (now - at > dur + 0.3 + 1e-3) VF_ASSERT("too_late", got);
    }
}
VF_CASE(off_road)
{
    double y = vf_double("y", -12, 12), dur = vf_double("duration", 0.05, 0.35);
    apart(y, 7);
    apart(y, -7);
    Ent e  = ent("A", -1, 100, 0);
    e.init = teleport(worldPos(100, y, 0)) + absSpeed(0);
    Scene  r(xml(scene({e}, byEntity("<OffroadCondition" + dbl("duration", dur) + "/>", "any", {"A"}))));
    bool off = y > 7 || y < -7;
    for (int i = 0; i < 8; i++)
    {
        r.step(i ? 0.1 : 0);
        double now = 0.1 * i;
        bool   got = r.holds();
        if (!off || now < dur - 1e-6) VF_ASSERT("too_early", !got);
        if (off && now > dur + 0.1 + 1e-6) VF_ASSERT("too_late", got);
    }
}
VF_CASE(angle)
{
    int    cs = vf_int("cs", 0, 2), lane = vf_int("lane", 0, 1) ? 1 : -1;
    static const double HS[] = {0.0, 0.2, 1.3, 2.9, -0.01, -1.7, -3.0};
    double h = HS[vf_int("h", 0, 6)], ang = vf_double("angle", -3.1, 3.1), tol = vf_double("tol", 0.01, 0.5);
    static const char* C[] = {"world", "road", "lane"};
    double base = cs == 2 ? 0 : lane > 0 ? M_PI : 0;  // driving direction of lane 1 is against the road
    double a = base + h, diff = a - ang;
    VF_ASSUME(a < M_PI - 1e-3 || a > M_PI + 1e-3);
    while (diff > M_PI) diff -= 2 * M_PI;
    while (diff < -M_PI) diff += 2 * M_PI;
    apart(absd(diff), tol);
    Scene r(xml(scene({ent("A", lane, 100, 0, Box(), 0, h)}, byEntity("<AngleCondition angleType=\"heading\"" + dbl("angle", ang) + dbl("angleTolerance", tol) + str("coordinateSystem", C[cs]) + "/>", "any", {"A"}))));
    r.run(2, 0.1);
    VF_ASSERT("angle", r.holds() == (absd(diff) < tol));
}
VF_CASE(collision)
{
    int    byType = vf_int("byType", 0, 1), laneT = -1 - vf_int("lane", 0, 1);
    double s = vf_double("s", 85, 115), off = vf_double("off", -1, 1);
    Box    a, t = box(1.0, 4, 1.8);
    Dist   e = expectDist(s - 100, yOf(laneT) + off - yOf(-1), 1, 1, a, t, true, false);
    double dx = s - 100, dy = yOf(laneT) + off - yOf(-1);
    // keep 1e-4 away from touching
    apart(dx, a.cx + a.l / 2 - t.cx + t.l / 2); apart(dx, a.cx - a.l / 2 - t.cx - t.l / 2);
    apart(dy, 1.9); apart(dy, -1.9);
    Scene r(xml(scene({ent("A", -1, 100, 0, a), ent("T", laneT, s, 0, t, off)}, byEntity(std::string("<CollisionCondition>") + (byType ? "<ByType type=\"vehicle\"/>" : "<EntityRef entityRef=\"T\"/>") + "</CollisionCondition>", "any", {"A"}))));
    r.run(2, 0.1);
    VF_ASSERT("collision", r.holds() == (e.lon == 0 && e.lat == 0));
}
VF_CASE(clearance)
{
    double s = vf_double("s", 60, 140), fwd = vf_double("fwd", 5, 30), bwd = vf_double("bwd", 5, 30);
    int    fs = vf_int("freespace", 0, 1), lt = vf_int("lane", 0, 2), opp = vf_int("oppositeLanes", 0, 1), range = vf_int("range", 0, 2);
    int    laneT = lt == 0 ? -1 : lt == 1 ? -2 : 1, from = range == 0 ? 0 : -1, to = range == 2 ? 1 : 0;
    Box    a, t = box(1.0, 4, 1.8);
    Dist   e = expectDist(s - 100, yOf(laneT) - yOf(-1), 1, laneT < 0 ? 1 : -1, a, t, fs, false);
    apart(e.lon, fwd); apart(e.lon, -bwd);
    int  dl  = laneT == -1 ? 0 : laneT == -2 ? -1 : 1;
    bool in  = e.lon < fwd && e.lon > -bwd && dl >= from && dl <= to && (opp || laneT < 0);
    if (fs) VF_ASSUME(laneT == -1);  // the lane of a body that reaches over several is not defined
    Scene r(xml(scene({ent("A", -1, 100, 0, a), ent("T", laneT, s, 0, t)},
                      byEntity("<RelativeClearanceCondition" + dbl("distanceForward", fwd) + dbl("distanceBackward", bwd) + str("freeSpace", fs ? "true" : "false") + str("oppositeLanes", opp ? "true" : "false") + "><RelativeLaneRange from=\"" + std::to_string(from) + "\" to=\"" + std::to_string(to) + "\"/><EntityRef entityRef=\"T\"/></RelativeClearanceCondition>", "any", {"A"}))));
    r.run(2, 0.1);
    VF_ASSERT("clearance", r.holds() == !in);
}
// any: one of the triggering entities is enough, all: every one of them; whatever their order
static void anyAll(const std::string& inner, const std::function<void(Scene&, int, bool)>& put, double extraTime = 0)
{
    int   mask = vf_int("mask", 0, 7), all = vf_int("all", 0, 1);
    Ent   T = ent("T", -2, 500, 10);
    Scene r(xml(scene({ent("A", -1, 100, 10), ent("B", -1, 200, 10), ent("C", -1, 300, 10), T}, byEntity(inner, all ? "all" : "any", {"A", "B", "C"}))));
    r.run(2, 0.1);
    for (int i = 0; i < 3; i++) put(r, i, (mask >> i) & 1);
    auto* c = static_cast<TrigByEntity*>(r.cond());
    bool  got = c->CheckCondition(r.se->getSimulationTime() + extraTime);
    VF_ASSERT("any_all", got == (all ? mask == 7 : mask != 0));
    if (got)
    {
        // those named as triggering do fulfil it
        for (auto o : c->triggered_by_entities_) VF_ASSERT("triggered_by", (mask >> (o->GetName() == "A" ? 0 : o->GetName() == "B" ? 1 : 2)) & 1);
    }
}
static void put(Object* o, double x, double y, double h = 0) { o->pos_.SetInertiaPos(x, y, h); }
VF_CASE(any_speed) { anyAll("<SpeedCondition value=\"20\" rule=\"greaterThan\"/>", [](Scene& r, int i, bool b) { r.obj(i)->SetSpeed(b ? 25 : 15); }); }
VF_CASE(any_relspeed) { anyAll("<RelativeSpeedCondition entityRef=\"T\" value=\"10\" rule=\"greaterThan\"/>", [](Scene& r, int i, bool b) { r.obj(i)->SetSpeed(b ? 25 : 15); }); }
VF_CASE(any_acc) { anyAll("<AccelerationCondition value=\"2\" rule=\"greaterThan\"/>", [](Scene& r, int i, bool b) { r.obj(i)->SetAcc(b ? 3 : 1, 0, 0); }); }
VF_CASE(any_traveled) { anyAll("<TraveledDistanceCondition value=\"20\"/>", [](Scene& r, int i, bool b) { r.obj(i)->odometer_ = b ? 21 : 19; }); }
VF_CASE(any_reach) { anyAll("<ReachPositionCondition tolerance=\"5\">" + lanePos(0, -1, 400) + "</ReachPositionCondition>", [](Scene& r, int i, bool b) { put(r.obj(i), b ? 401 + i : 300 + 10 * i, -1.75); }); }
VF_CASE(any_distance) { anyAll("<DistanceCondition value=\"20\" rule=\"lessThan\" freespace=\"false\" coordinateSystem=\"entity\" relativeDistanceType=\"euclidianDistance\">" + lanePos(0, -1, 400) + "</DistanceCondition>", [](Scene& r, int i, bool b) { put(r.obj(i), b ? 401 + i : 300 + 10 * i, -1.75); }); }
VF_CASE(any_reldistance) { anyAll("<RelativeDistanceCondition entityRef=\"T\" value=\"20\" rule=\"lessThan\" freespace=\"false\" coordinateSystem=\"entity\" relativeDistanceType=\"euclidianDistance\"/>", [](Scene& r, int i, bool b) { put(r.obj(i), r.obj(3)->pos_.GetX() + (b ? 1 + i : 300 + 10 * i), -1.75); }); }
VF_CASE(any_headway)
{
    int und = vf_int("undefined", 0, 1);  // standing still: no headway at all
    anyAll("<TimeHeadwayCondition entityRef=\"T\" value=\"5\" rule=\"lessThan\" freespace=\"false\" coordinateSystem=\"road\" relativeDistanceType=\"longitudinal\"/>", [und](Scene& r, int i, bool b) { put(r.obj(i), r.obj(3)->pos_.GetX() - 100, -1.75); r.obj(i)->SetSpeed(b ? 25 : und ? 0 : 15); });
}
VF_CASE(any_ttc)
{
    int und = vf_int("undefined", 0, 1);
    anyAll("<TimeToCollisionCondition value=\"5\" rule=\"lessThan\" freespace=\"false\" coordinateSystem=\"road\" relativeDistanceType=\"longitudinal\"><TimeToCollisionConditionTarget>" + lanePos(0, -1, 600) + "</TimeToCollisionConditionTarget></TimeToCollisionCondition>", [und](Scene& r, int i, bool b) { put(r.obj(i), 500, -1.75); r.obj(i)->SetSpeed(b ? 25 : und ? 0 : 15); });
}
VF_CASE(any_end) { anyAll("<EndOfRoadCondition duration=\"2\"/>", [](Scene& r, int i, bool b) { r.obj(i)->SetEndOfRoad(true, b ? 0.1 : 2 + 0.1 * i); }, 3); }
VF_CASE(any_end2) { anyAll("<EndOfRoadCondition duration=\"2\"/>", [](Scene& r, int i, bool b) { r.obj(i)->SetEndOfRoad(b, 0.1); }, 3); }
VF_CASE(any_still) { anyAll("<StandStillCondition duration=\"2\"/>", [](Scene& r, int i, bool b) { r.obj(i)->SetStandStill(b, 0.1); }, 3); }
VF_CASE(any_off) { anyAll("<OffroadCondition duration=\"2\"/>", [](Scene& r, int i, bool b) { r.obj(i)->SetOffRoad(b, 0.1); }, 3); }
VF_CASE(any_collision) { anyAll("<CollisionCondition><EntityRef entityRef=\"T\"/></CollisionCondition>", [](Scene& r, int i, bool b) { put(r.obj(i), r.obj(3)->pos_.GetX() + (b ? 1 : 100 + 10 * i), r.obj(3)->pos_.GetY()); }); }
VF_CASE(any_angle) { anyAll("<AngleCondition angleType=\"heading\" angle=\"0.5\" angleTolerance=\"0.1\" coordinateSystem=\"world\"/>", [](Scene& r, int i, bool b) { put(r.obj(i), 100 + 50 * i, -1.75, b ? 0.45 : 0.1); }); }
VF_CASE(any_clearance) { anyAll("<RelativeClearanceCondition distanceForward=\"20\" distanceBackward=\"20\" freeSpace=\"false\" oppositeLanes=\"false\"><RelativeLaneRange from=\"-1\" to=\"1\"/><EntityRef entityRef=\"T\"/></RelativeClearanceCondition>", [](Scene& r, int i, bool b) { r.obj(i)->pos_.SetLanePos(0, -1, r.obj(3)->pos_.GetS() + (b ? 100 + 10 * i : 1 + i), 0); }); }
