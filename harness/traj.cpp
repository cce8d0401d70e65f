// C08: trajectories and the follow-trajectory action
#include "scenario.h"
using namespace osc;
using namespace scenarioengine;
typedef StoryBoardElement SE;
struct Run : Engine
{
    explicit Run(const std::string& text) : Engine(text) { VF_ASSERT("init", se->GetInitStatus() == 0); }
    int ev(const std::string& n)
    {
        auto v = se->storyBoard.FindChildByTypeAndName(SE::EVENT, n);
        return v.size() ? v[0]->GetCurrentState() : -1;
    }
};
struct Pt { double x, y, t; };
static const double DT = 0.25;
// the polyline used: legs of length 10, 10, 5 with exact coordinates
static const double X0 = 100, Y0 = -1.5;
static const double LX[] = {0, 10, 16, 20}, LY[] = {0, 0, 8, 11}, LS[] = {0, 10, 20, 25};
static const double HX[] = {1, 0.6, 0.8}, HY[] = {0, 0.8, 0.6};
static void onLine(double s, double& x, double& y, int& leg)
{
    leg = s <= 10 ? 0 : s <= 20 ? 1 : 2;
    x   = X0 + LX[leg] + HX[leg] * (s - LS[leg]);
    y   = Y0 + LY[leg] + HY[leg] * (s - LS[leg]);
}
static std::string vtx(double x, double y, double t, const char* orient = "")
{
    return "<Vertex time=\"" + N(t) + "\"><Position><WorldPosition x=\"" + N(x) + "\" y=\"" + N(y) + "\"" + orient + "/></Position></Vertex>";
}
static std::string line(double t0, double t1, double t2, double t3)
{
    double T[] = {t0, t1, t2, t3};
    std::string s = "<Polyline>";
    for (int i = 0; i < 4; i++) s += vtx(X0 + LX[i], Y0 + LY[i], T[i]);
    return s + "</Polyline>";
}
static std::string follow(const std::string& shape, const std::string& timing, const char* mode, const std::string& ofs = "")
{
    return "<PrivateAction><RoutingAction><FollowTrajectoryAction" + ofs + "><Trajectory name=\"t\" closed=\"false\"><Shape>" + shape + "</Shape></Trajectory><TimeReference>" + timing +
           "</TimeReference><TrajectoryFollowingMode followingMode=\"" + mode + "\"/></FollowTrajectoryAction></RoutingAction></PrivateAction>";
}
static std::string timing(const char* dom, double scale, double off) { return std::string("<Timing domainAbsoluteRelative=\"") + dom + "\" scale=\"" + N(scale) + "\" offset=\"" + N(off) + "\"/>"; }
static Doc with(double v, const std::string& a, double at = -1)
{
    Doc d;
    d.minor = 1;
    d.xodr  = writeRoad(odr::doc({straight()}));
    Ent e;
    e.name  = "Ego";
    e.perf_ = perf(200, 1000, 1000);
    e.init  = teleport(lanePos(0, -1, 80)) + absSpeed(v);
    d.ents  = {e};
    d.story = act("a", mgroup("g", "Ego", event("e", action("x", a), trig(simTimeCond(at)))));
    return d;
}
static void check(Run& r, double s, double over)
{
    double x, y;
    int    leg;
    onLine(s, x, y, leg);
    VF_NEAR("x", r.obj(0)->pos_.GetX(), x + HX[leg] * over, 2e-5);
    VF_NEAR("y", r.obj(0)->pos_.GetY(), y + HY[leg] * over, 2e-5);
}
static void heading(Run& r, double s, bool rev)
{
    // away from the corners a vehicle in position mode points along the leg
    int leg = s <= 10 ? 0 : s <= 20 ? 1 : 2;
    if (s > LS[leg] + 2.001 && s < LS[leg + 1] - 2.001)
    {
        double h = r.obj(0)->pos_.GetH(), sg = rev ? -1 : 1;
        VF_NEAR("hx", cos(h), sg * HX[leg], 1e-5);
        VF_NEAR("hy", sin(h), sg * HY[leg], 1e-5);
    }
}
// no time reference: the entity keeps its own speed along the path, from the requested initial distance to the end
static void none_(double lo, double hi, const char* mode, bool rev, double ofs)
{
    double v = lo == hi ? lo : vf_double("v", lo, hi), o = ofs < 0 ? vf_double("ofs", 0.5, 9) : ofs;
    for (int k = 1; k <= 5; k++) VF_ASSUME(o + v * k * DT < 25 - 1e-3 || o + v * k * DT > 25 + 1e-3);
    Run r(xml(with(rev ? -v : v, follow(line(0, 0, 0, 0), "<None/>", mode, o == 0 ? "" : " initialDistanceOffset=\"" + N(o) + "\""))));
    bool done = false;
    for (int k = 0; k <= 5 && !done; k++)
    {
        r.step(k == 0 ? 0 : DT);
        double s = o + v * k * DT;
        if (s < 25)
        {
            VF_ASSERT("running", r.ev("e") == SE::RUNNING);
            check(r, s, 0);
            if (mode[0] == 'p') heading(r, s, rev);
        }
        else
        {
            VF_ASSERT("ended", r.ev("e") == SE::COMPLETE);
            check(r, 25, s - 25);
            done = true;
        }
        VF_NEAR("speed", r.obj(0)->GetSpeed(), rev ? -v : v, 1e-9);
    }
}
VF_CASE(none_slow) { none_(8, 20, "position", false, 0); }
VF_CASE(none_fast) { none_(20, 45, "position", false, 0); }
VF_CASE(none_follow) { none_(8, 30, "follow", false, 0); }
VF_CASE(none_reverse) { none_(8, 30, "position", true, 0); }
VF_CASE(none_offset) { none_(15, 15, "position", false, -1); }
// the speed of the entity may change while it follows
VF_CASE(none_accelerate)
{
    double v0 = vf_double("v0", 4, 10), v1 = vf_double("v1", 12, 20);
    Run    r(xml(with(v0, follow(line(0, 0, 0, 0), "<None/>", "position"))));
    r.step(0);
    r.step(DT);
    r.obj(0)->SetSpeed(v1);
    r.step(DT);
    check(r, v0 * DT + v1 * DT, 0);
    VF_ASSERT("running", r.ev("e") == SE::RUNNING);
}
// time references, position mode: constant speed between the time stamps
static double sAt(double t, const double* T)
{
    if (t <= T[0]) return 0;
    if (t <= T[1]) return 10 * (t - T[0]) / (T[1] - T[0]);
    if (t <= T[2]) return 10 + 10 * (t - T[1]) / (T[2] - T[1]);
    return 20 + 5 * (t - T[2]) / (T[3] - T[2]);
}
static void timed_(const char* dom, int what)
{
    double T[4] = {0, 0.4, 0.9, 1.1}, scale = 1, off = 0, start = 0;
    if (what == 0) T[1] = vf_double("T1", 0.3, 0.7);
    if (what == 1) scale = vf_double("scale", 0.6, 1.8);
    if (what == 2) off = vf_double("offset", 0.02, 0.5);
    if (what == 3) for (int i = 3; i >= 0; i--) T[i] += i ? 2.0 : 2.0;
    if (what == 3) T[3] = vf_double("T3", 3.0, 3.6);
    if (what == 4) T[2] = vf_double("T2", 0.45, 1.05);
    bool   rel = dom[0] == 'r';
    double v0 = 20, prev = 0, t = 0;
    for (int k = 0; k <= 6; k++)
        for (int i = 0; i < 4; i++)
        {
            double q = k * DT * scale + off + (rel ? T[0] : 0);
            VF_ASSUME(q < T[i] - 1e-4 || q > T[i] + 1e-4 || (k == 0 && i == 0) || (what != 1 && what != 2 && i == 0));
        }
    Run  r(xml(with(v0, follow(line(T[0], T[1], T[2], T[3]), timing(dom, scale, off), "position"))));
    bool done = false;
    for (int k = 0; k <= 6 && !done; k++)
    {
        r.step(k == 0 ? 0 : DT);
        t = k * DT * scale + off + (rel ? T[0] : 0);
        if (t < T[3])
        {
            VF_ASSERT("running", r.ev("e") == SE::RUNNING);
            double s = sAt(t, T);
            check(r, s, 0);
            if (k > 0 && k * DT + 1e-9 > 0)
                VF_NEAR("speed", r.obj(0)->GetSpeed(), (s - prev) / DT, 1e-4);
            prev = s;
            heading(r, s, false);
        }
        else
        {
            VF_ASSERT("ended", r.ev("e") == SE::COMPLETE);
            done = true;
        }
    }
}
VF_CASE(relative_stamps) { timed_("relative", 0); }
VF_CASE(relative_stamps2) { timed_("relative", 4); }
VF_CASE(relative_scale) { timed_("relative", 1); }
VF_CASE(relative_offset) { timed_("relative", 2); }
VF_CASE(relative_late) { timed_("relative", 3); }
VF_CASE(absolute_stamps) { timed_("absolute", 0); }
VF_CASE(absolute_stamps2) { timed_("absolute", 4); }
VF_CASE(absolute_scale) { timed_("absolute", 1); }
VF_CASE(absolute_offset) { timed_("absolute", 2); }
// follow mode: constant acceleration on each leg, arriving at each vertex at its time stamp
VF_CASE(follow_timed)
{
    double T[4] = {0, 0.8, 1.3, 1.7};
    double v = vf_double("v", 6, 14);
    Run    r(xml(with(v, follow(line(T[0], T[1], T[2], T[3]), timing("relative", 1, 0), "follow"))));
    r.step(0);
    check(r, 0, 0);
    VF_NEAR("v0", r.obj(0)->GetSpeed(), v, 1e-6);
    double a0 = 2 * (10 - v * 0.8) / 0.64, v1 = v + a0 * 0.8, a1 = 2 * (10 - v1 * 0.5) / 0.25, v2 = v1 + a1 * 0.5;
    VF_ASSUME(v1 > 0.1 && v2 > 0.1);
    double tm[] = {0.25, 0.5, 0.8, 1.0, 1.3};
    double t = 0;
    for (double q : tm)
    {
        r.step(q - t);
        t        = q;
        double s = t <= 0.8 ? v * t + a0 * t * t / 2 : 10 + v1 * (t - 0.8) + a1 * (t - 0.8) * (t - 0.8) / 2;
        check(r, s, 0);
        VF_ASSERT("running", r.ev("e") == SE::RUNNING);
    }
}
VF_CASE(follow_stamps)
{
    double T1 = vf_double("T1", 0.8, 1.2), v = 10;
    Run    r(xml(with(v, follow(line(0, T1, 2.0, 2.4), timing("relative", 1, 0), "follow"))));
    r.step(0);
    r.step(0.6);
    double a0 = 2 * (10 - v * T1) / (T1 * T1);
    check(r, v * 0.6 + a0 * 0.18, 0);
    r.step(T1 - 0.6);
    check(r, 10, 0);
    VF_ASSERT("running", r.ev("e") == SE::RUNNING);
}
// an early stop when there is too much time for the distance: stands at the vertex, never goes backwards
VF_CASE(follow_early_stop)
{
    double v = vf_double("v", 12, 20);
    Run    r(xml(with(v, follow(line(0, 4, 6, 8), timing("relative", 1, 0), "follow"))));
    r.step(0);
    double prev = 0;
    for (int k = 1; k <= 5; k++)
    {
        r.step(0.5);
        double s = r.obj(0)->pos_.GetTrajectoryS();
        VF_LE("monotone", prev, s, 1e-9);
        VF_LE("bounded", s, 10, 1e-5);
        check(r, s, 0);
        double t = 0.5 * k, stop = 20 / v, tt = t < stop ? t : stop;
        VF_NEAR("s", s, v * tt - v * v / 20 * tt * tt / 2, 1e-5);
        prev = s;
    }
}
// --- the shapes themselves
static roadmanager::PolyLineBase poly()
{
    roadmanager::PolyLineBase p;
    const double T[] = {1, 2, 4, 4.5};
    for (int i = 0; i < 4; i++)
    {
        roadmanager::TrajVertex v;
        v.x = LX[i];
        v.y = LY[i];
        v.z = i;
        v.s = std::nan("");
        v.time = T[i];
        v.speed = 2 * i;
        p.AddVertex(v);
    }
    return p;
}
VF_CASE(evaluate)
{
    auto   p = poly();
    double s = vf_double("s", -2, 28);
    int    start = vf_int("start", 0, 3);
    roadmanager::TrajVertex v;
    VF_NEAR("length", p.length_, 25, 1e-9);
    VF_ASSERT("ok", p.Evaluate(s, v, start) != IDX_UNDEFINED);
    double c = s < 0 ? 0 : s > 25 ? 25 : s, x, y;
    int    leg;
    onLine(c, x, y, leg);
    VF_NEAR("x", v.x, x - X0, 2e-6);
    VF_NEAR("y", v.y, y - Y0, 2e-6);
    VF_NEAR("z", v.z, leg + (c - LS[leg]) / (LS[leg + 1] - LS[leg]), 2e-6);
}
VF_CASE(time2s)
{
    auto   p = poly();
    double t = vf_double("t", 0, 6), s = 0;
    idx_t  idx = static_cast<idx_t>(vf_int("start", 0, 3));
    auto   rc = p.Time2S(t, s, idx);
    double T[] = {1, 2, 4, 4.5};
    VF_NEAR("s", s, t >= 4.5 ? 25 : sAt(t, T), 2e-5);
    if (t < 1 - 1e-5) VF_ASSERT("prior", rc == roadmanager::PolyLineBase::GhostTrailReturnCode::GHOST_TRAIL_TIME_PRIOR);
    else if (t > 4.5 + 1e-5) VF_ASSERT("past", rc == roadmanager::PolyLineBase::GhostTrailReturnCode::GHOST_TRAIL_TIME_PAST);
    else if (t > 1 + 1e-5 && t < 4.5 - 1e-5) VF_ASSERT("inside", rc == roadmanager::PolyLineBase::GhostTrailReturnCode::GHOST_TRAIL_OK);
}
static double d2(double px, double py, double x, double y) { return (px - x) * (px - x) + (py - y) * (py - y); }
static void closest_(double x0, double x1, double y0, double y1, bool dup)
{
    roadmanager::PolyLineBase p;
    for (int i = 0; i < 4; i++)
    {
        roadmanager::TrajVertex v;
        v.x = LX[i];
        v.y = LY[i];
        v.s = std::nan("");
        p.AddVertex(v);
        if (dup && i == 1) p.AddVertex(v);
    }
    double x = vf_double("x", x0, x1), y = vf_thorough() ? vf_double("y", y0, y1) : y0 + (y1 - y0) * vf_int("y8", 0, 8) / 8, q = vf_double("q", 0, 25);
    for (int i = 0; i < 3; i++)  // not exactly abreast of a vertex
        for (int j = i; j <= i + 1; j++)
        {
            double a = (x - LX[j]) * HX[i] + (y - LY[j]) * HY[i];
            VF_ASSUME(a < -1e-5 || a > 1e-5);
        }
    roadmanager::TrajVertex v;
    idx_t idx;
    VF_ASSERT("found", p.FindClosestPoint(x, y, v, idx, 0) == 0);
    // the reported point lies on the line at the reported distance, and no other point of the line is closer
    double a, b;
    int    leg;
    onLine(v.s, a, b, leg);
    VF_NEAR("x", v.x, a - X0, 1e-5);
    VF_NEAR("y", v.y, b - Y0, 1e-5);
    onLine(q, a, b, leg);
    VF_LE("closest", d2(x, y, v.x, v.y), d2(x, y, a - X0, b - Y0), 1e-3);
}
VF_CASE(closest_start) { closest_(-5, 5, -5, 5, false); }
VF_CASE(closest_corner) { closest_(5, 12, -4, 5, false); }
VF_CASE(closest_end) { closest_(14, 22, 6, 14, false); }
VF_CASE(closest_standstill) { closest_(6, 14, -4, 4, true); }
VF_CASE(closest_far) { closest_(-20, 40, -30, -20, false); }
static std::string clothoid(double k, double len, double t0, double t1)
{
    return "<Clothoid curvature=\"" + N(k) + "\" curvaturePrime=\"0\" length=\"" + N(len) + "\" startTime=\"" + N(t0) + "\" stopTime=\"" + N(t1) + "\"><Position><WorldPosition x=\"" + N(X0) + "\" y=\"" + N(Y0) + "\" h=\"0\"/></Position></Clothoid>";
}
VF_CASE(clothoid_none)
{
    double v = vf_double("v", 5, 25), k = 0.02;
    for (int i = 1; i <= 4; i++) VF_ASSUME(v * i * DT < 14.5 - 1e-3 || v * i * DT > 14.5 + 1e-3);
    Run    r(xml(with(v, follow(clothoid(k, 14.5, 0, 0), "<None/>", "position"))));
    for (int i = 0; i <= 4; i++)
    {
        r.step(i ? DT : 0);
        double s = v * i * DT, c = s < 14.5 ? s : 14.5, over = s - c;
        VF_NEAR("x", r.obj(0)->pos_.GetX(), X0 + sin(k * c) / k + over * cos(k * c), 1e-3);
        VF_NEAR("y", r.obj(0)->pos_.GetY(), Y0 + (1 - cos(k * c)) / k + over * sin(k * c), 1e-3);
        VF_ASSERT("state", r.ev("e") == (s < 14.5 ? SE::RUNNING : SE::COMPLETE));
        if (s > 14.5) break;
    }
}
VF_CASE(clothoid_timed)
{
    double t1 = vf_double("t1", 1.3, 2), t0 = 0.5, k = 0.02;
    VF_ASSUME(t1 - t0 < 1 - 1e-3 || t1 - t0 > 1 + 1e-3);
    VF_ASSUME(t1 - t0 < 1.25 - 1e-3 || t1 - t0 > 1.25 + 1e-3);
    VF_ASSUME(t1 - t0 < 1.5 - 1e-3 || t1 - t0 > 1.5 + 1e-3);
    Run    r(xml(with(20, follow(clothoid(k, 15, t0, t1), timing("relative", 1, 0), "position"))));
    for (int i = 0; i <= 3; i++)
    {
        r.step(i ? DT : 0);
        double s = 15 * (i * DT) / (t1 - t0);
        VF_NEAR("x", r.obj(0)->pos_.GetX(), X0 + sin(k * s) / k, 1e-3);
        VF_NEAR("y", r.obj(0)->pos_.GetY(), Y0 + (1 - cos(k * s)) / k, 1e-3);
        VF_ASSERT("running", r.ev("e") == SE::RUNNING);
    }
}
