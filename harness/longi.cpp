// C14: speed profiles and longitudinal distance keeping
#include "scenario.h"
using namespace osc;
using namespace scenarioengine;
typedef StoryBoardElement SE;
static const double DT = 0.1;
struct Run : Engine
{
    explicit Run(const std::string& text) : Engine(text) { VF_ASSERT("init", se->GetInitStatus() == 0); }
    int ev(const std::string& n)
    {
        auto v = se->storyBoard.FindChildByTypeAndName(SE::EVENT, n);
        return v.size() ? v[0]->GetCurrentState() : -1;
    }
};
static Ent car(const char* name, double v, double s, const std::string& p, int lane = -1)
{
    Ent e;
    e.name  = name;
    e.perf_ = p;
    e.init  = teleport(lanePos(0, lane, s)) + absSpeed(v);
    return e;
}
static Doc base(double v, const std::string& p = perf(200, 1000, 1000))
{
    Doc d;
    d.minor = 3;
    d.xodr  = writeRoad(odr::doc({straight()}));
    d.ents  = {car("Ego", v, 50, p)};
    return d;
}
static Doc with(Doc d, const std::string& a, int n = 1)
{
    d.story = act("a", mgroup("g", "Ego", event("e", action("x", a), trig(simTimeCond(-1)), "overwrite", n)));
    return d;
}
struct En { double t, v; };
static std::string profile(const char* mode, const std::vector<En>& e, const std::string& dynm = "", const std::string& ref = "")
{
    std::string s = std::string("<PrivateAction><LongitudinalAction><SpeedProfileAction followingMode=\"") + mode + "\">" + dynm;
    if (!ref.empty()) s += "<EntityRef entityRef=\"" + ref + "\"/>";
    for (auto& i : e) s += std::string("<SpeedProfileEntry ") + (i.t < 0 ? "" : "time=\"" + N(i.t) + "\" ") + "speed=\"" + N(i.v) + "\"/>";
    return s + "</SpeedProfileAction></LongitudinalAction></PrivateAction>";
}
static std::string dc(double vmax, double acc, double dec, double jacc = -1, double jdec = -1)
{
    return "<DynamicConstraints maxSpeed=\"" + N(vmax) + "\" maxAcceleration=\"" + N(acc) + "\" maxDeceleration=\"" + N(dec) + "\"" + (jacc < 0 ? "" : " maxAccelerationRate=\"" + N(jacc) + "\" maxDecelerationRate=\"" + N(jdec) + "\"") + "/>";
}
// linear between the entries, exact at them, done after the last
static void linear_(const std::vector<En>& e, double v0, double off, const std::string& text, int n)
{
    Run    r(text);
    double t = 0;
    for (int k = 0; k <= n; k++)
    {
        r.step(k == 0 ? 0 : DT);
        if (k) t += DT;
        double T = 0, v = v0, want = 0;
        int    found = 0;
        for (auto& i : e)
        {
            if (!found && t < T + i.t) { want = v + (i.v + off - v) * (t - T) / i.t; found = 1; }
            T += i.t;
            v = i.v + off;
        }
        if (!found) want = v;
        VF_NEAR("profile", r.obj(0)->GetSpeed(), want, 1e-5);
        if (found) VF_ASSERT("running", r.ev("e") == SE::RUNNING);
        if (!found && t > T + 1e-3) VF_ASSERT("ended", r.ev("e") == SE::COMPLETE);
    }
}
static void apart(double a, double b) { VF_ASSUME(a - b > 0.1 || b - a > 0.1); }
static void offgrid(double T)
{
    for (int k = 1; k <= 9; k++) VF_ASSUME(T < k * DT - 1e-3 || T > k * DT + 1e-3);
}
VF_CASE(profile1)
{
    double v0 = vf_double("v0", 1, 30), v1 = vf_double("v1", 1, 30), t1 = vf_double("t1", 0.11, 0.45);
    offgrid(t1);
    apart(v0, v1);
    linear_({{t1, v1}}, v0, 0, xml(with(base(v0), profile("position", {{t1, v1}}))), 6);
}
VF_CASE(profile2)
{
    double v1 = vf_double("v1", 5, 30), v2 = vf_double("v2", 5, 30), t1 = vf_double("t1", 0.11, 0.29), t2 = vf_double("t2", 0.11, 0.29);
    offgrid(t1);
    offgrid(t1 + t2);
    apart(v1, 10);
    apart(v1, v2);
    linear_({{t1, v1}, {t2, v2}}, 10, 0, xml(with(base(10), profile("position", {{t1, v1}, {t2, v2}}))), 7);
}
VF_CASE(profile3)
{
    // also points in line with their neighbours
    double v1 = vf_double("v1", 5, 30), v2 = vf_double("v2", 5, 30), v3 = vf_double("v3", 5, 30);
    std::vector<En> e = {{0.15, v1}, {0.2, v2}, {0.2, v3}};
    apart(v1, v3);
    apart(v2, v3);
    linear_(e, 10, 0, xml(with(base(10), profile("position", e))), 7);
}
VF_CASE(profile4)
{
    double a = vf_double("a", -20, 20), b = vf_double("b", -20, 20);
    std::vector<En> e = {{0.15, 15}, {0.1, 15 + a * 0.1}, {0.1, 15 + a * 0.2}, {0.1, 15 + a * 0.2 + b * 0.1}};
    apart(e[3].v, e[2].v);
    apart(e[3].v, e[0].v);
    apart(a, 0);
    linear_(e, 12, 0, xml(with(base(12), profile("position", e))), 7);
}
VF_CASE(profile_relative)
{
    // speeds relative to another entity
    double u = vf_double("u", 0, 10), v1 = vf_double("v1", 5, 30), t1 = vf_double("t1", 0.11, 0.29);
    offgrid(t1);
    Doc d = base(10);
    d.ents.push_back(car("Tgt", u, 200, perf(200, 1000, 1000), -2));
    apart(v1 + u, 10);
    linear_({{t1, v1}}, 10, u, xml(with(d, profile("position", {{t1, v1}}, "", "Tgt"))), 5);
}
VF_CASE(profile_untimed)
{
    // no times: as fast as the limits allow
    double A = vf_double("A", 5, 40), B = vf_double("B", 5, 40), v1 = vf_double("v1", 12, 14), v2 = vf_double("v2", 8, 11);
    double t1 = (v1 - 10) / A, t2 = (v1 - v2) / B;
    offgrid(t1);
    offgrid(t1 + t2);
    Doc d = with(base(10), profile("position", {{-1, v1}, {-1, v2}}, dc(100, A, B)));
    Run r(xml(d));
    double t = 0;
    for (int k = 0; k <= 9; k++)
    {
        r.step(k == 0 ? 0 : DT);
        if (k) t += DT;
        double want = t < t1 ? 10 + A * t : t < t1 + t2 ? v1 - B * (t - t1) : v2;
        VF_NEAR("profile", r.obj(0)->GetSpeed(), want, 1e-5);
        if (t > t1 + t2) VF_ASSERT("ended", r.ev("e") == SE::COMPLETE);
        else VF_ASSERT("running", r.ev("e") == SE::RUNNING);
    }
}
// follow mode: smooth, within the limits, ends at the last speed
static void smooth_(const std::vector<En>& e, double A, double B, double JA, double JB, int n, double tend, double DT = 0.1)
{
    Run    r(xml(with(base(10), profile("follow", e, dc(100, A, B, JA, JB)))));
    double v = 10, a = 0, t = 0;
    for (int k = 0; k <= n; k++)
    {
        r.step(k == 0 ? 0 : DT);
        if (k) t += DT;
        double w = r.obj(0)->GetSpeed();
        if (k)
        {
            double b = (w - v) / DT;
            VF_LE("acc", b, A, 1e-4);
            VF_LE("dec", -b, B, 1e-4);
            if (b > 0) VF_LE("jerk_up", b - a, JA * DT, 1e-4);
            VF_LE("jerk_down", a - b, JB * DT, 1e-4);
            a = b;
        }
        v = w;
        if (tend > 0 && t > tend + 1e-3) { VF_NEAR("target", v, e.back().v, 1e-4); VF_ASSERT("ended", r.ev("e") == SE::COMPLETE); }
        if (r.ev("e") == SE::COMPLETE) VF_NEAR("end_at_target", v, e.back().v, 1e-4);
    }
}
VF_CASE(follow1)
{
    double v1 = vf_double("v1", 11, 13), J = vf_double("J", 20, 60);
    smooth_({{0.8, v1}}, 30, 30, J, J, 11, -1);
}
VF_CASE(follow1_down)
{
    double v1 = vf_double("v1", 7, 9), J = vf_double("J", 20, 60);
    smooth_({{0.8, v1}}, 30, 30, J, J, 11, -1);
}
VF_CASE(follow2_up)
{
    double v2 = vf_double("v2", 14, 18);
    smooth_({{1, 13}, {1, v2}}, 30, 30, 30, 40, 11, 2.2, 0.25);
}
VF_CASE(follow2_down)
{
    double v2 = vf_double("v2", 8, 12);
    smooth_({{1, 13}, {1, v2}}, 30, 30, 30, 40, 11, 2.2, 0.25);
}
VF_CASE(follow2_line)
{
    double v1 = vf_double("v1", 12, 14);
    smooth_({{1, v1}, {1, 2 * v1 - 10}}, 30, 30, 30, 40, 11, 2.3, 0.25);
}
VF_CASE(follow3)
{
    double v2 = vf_double("v2", 14, 16);
    smooth_({{0.75, 12}, {0.75, v2}, {0.75, 13}}, 30, 30, 40, 40, 11, 2.5, 0.25);
}
// ---- distance keeping
static std::string longDist(double dist, bool gap, const char* disp, bool cont, bool fs, const char* cs, const std::string& dynm = "")
{
    return std::string("<PrivateAction><LongitudinalAction><LongitudinalDistanceAction entityRef=\"Tgt\" ") + (gap ? "timeGap" : "distance") + "=\"" + N(dist) + "\" displacement=\"" + disp + "\" continuous=\"" + (cont ? "true" : "false") +
           "\" freespace=\"" + (fs ? "true" : "false") + "\" coordinateSystem=\"" + cs + "\">" + dynm + "</LongitudinalDistanceAction></LongitudinalAction></PrivateAction>";
}
static const char* DISP[] = {"trailingReferencedEntity", "leadingReferencedEntity", "any"};
static void rigid_(const char* cs, int gap)
{
    int    disp = vf_int("disp", 0, 2), cont = vf_int("cont", 0, 1);
    double s1 = vf_double("s1", 200, 400), s2 = vf_double("s2", 200, 400), u = vf_double("u", 5, 20), D = gap ? vf_double("gap", 0.5, 3) : vf_double("D", 5, 60);
    VF_ASSUME(s2 - s1 > 10 || s1 - s2 > 10);
    Doc d = base(10);
    d.ents[0].init = teleport(lanePos(0, -1, s1)) + absSpeed(10);
    d.ents.push_back(car("Tgt", u, s2, perf(200, 1000, 1000), -2));
    d = with(d, longDist(D, gap, DISP[disp], cont, false, cs));
    Run    r(xml(d));
    double want = gap ? u * D : D;
    int    side = disp == 0 ? 1 : disp == 1 ? -1 : s2 > s1 ? 1 : -1;
    for (int k = 0; k <= 3; k++)
    {
        r.step(k == 0 ? 0 : DT);
        double dist = r.obj(1)->pos_.GetS() - r.obj(0)->pos_.GetS();
        // the reference entity moves on within the step
        if (k == 0) VF_NEAR("distance", dist, side * want, 1e-6);
        if (k > 0 && cont) { VF_LE("kept_min", side * want, dist, 1e-6); VF_LE("kept_max", dist, side * want + u * DT, 1e-6); }
        VF_NEAR("speed", r.obj(0)->GetSpeed(), u, 1e-9);
        if (k > 0) VF_ASSERT("state", r.ev("e") == (cont ? SE::RUNNING : SE::COMPLETE));
    }
}
VF_CASE(rigid_entity) { rigid_("entity", 0); }
VF_CASE(rigid_road) { rigid_("road", 0); }
VF_CASE(rigid_lane) { rigid_("lane", 0); }
VF_CASE(rigid_gap) { rigid_("entity", 1); }
VF_CASE(rigid_freespace)
{
    int    lead = vf_int("lead", 0, 1);
    int    b2 = vf_int("body", 0, 1);
    double l2 = b2 ? 7.5 : 4, cx2 = b2 ? -0.8 : 1.2, D = vf_double("D", 5, 60), s2 = vf_double("s2", 380, 420);
    Doc    d = base(10);
    d.ents[0].init = teleport(lanePos(0, -1, 300)) + absSpeed(10);
    d.ents.push_back(car("Tgt", 10, s2, perf(200, 1000, 1000), -1));
    d.ents[1].box.l  = l2;
    d.ents[1].box.cx = cx2;
    d.ents[0].init = teleport(lanePos(0, -1, lead ? 500 : 300)) + absSpeed(10);
    d = with(d, longDist(D, false, DISP[lead], true, true, "entity"));
    Run r(xml(d));
    r.step(0);
    Box    b;
    double f1 = r.obj(0)->pos_.GetS() + b.cx + b.l / 2, r1 = f1 - b.l, f2 = r.obj(1)->pos_.GetS() + cx2 + l2 / 2, r2 = f2 - l2;
    VF_NEAR("gap", lead ? r1 - f2 : r2 - f1, D, 1e-6);
}
// with limits: never beyond them; the distance comes closer and is reached
static void dynamic_(int n)
{
    int    i = vf_int("limits", 0, 2);
    double A = i == 0 ? 2 : i == 1 ? 6 : 3, B = i == 0 ? 4 : i == 1 ? 3 : 9, V = vf_double("V", 12, 30), J = i == 0 ? 6 : i == 1 ? 25 : 40, s2 = vf_double("s2", 70, 140), u = vf_double("u", 5, 15);
    Doc    d = base(10);
    d.ents.push_back(car("Tgt", u, s2, perf(200, 1000, 1000), -2));
    d = with(d, longDist(40, false, DISP[0], true, false, "road", dc(V, A, B, J, J)));
    Run    r(xml(d));
    double v = 10, a = 0;
    for (int k = 0; k <= n; k++)
    {
        r.step(k == 0 ? 0 : DT);
        double w = r.obj(0)->GetSpeed();
        if (k)
        {
            double b = (w - v) / DT;
            VF_LE("acc", b, A, 1e-6);
            VF_LE("dec", -b, B, 1e-6);
            VF_LE("speed", w, V, 1e-9);
            if (b > 0) VF_LE("jerk_up", b - a, J * DT, 1e-6);
            if (b < 0) VF_LE("jerk_down", a - b, J * DT, 1e-6);
            a = b;
        }
        v = w;
    }
}
VF_CASE(dynamic_limits) { dynamic_(vf_thorough() ? 4 : 3); }
static void settle_(double lo, double hi, int lead)
{
    double g = vf_double("gap", lo, hi), D = vf_double("D", 18, 22);
    Doc    d = base(10);
    d.ents[0].init = teleport(lanePos(0, -1, 100)) + absSpeed(10);
    d.ents.push_back(car("Tgt", 10, 100 + (lead ? -g : g), perf(200, 1000, 1000), -2));
    d = with(d, longDist(D, false, DISP[lead], true, false, "road", dc(60, 9, 9)));
    Run r(xml(d));
    for (int k = 0; k <= 120; k++) r.step(k == 0 ? 0 : 0.05);
    double dist = r.obj(1)->pos_.GetS() - r.obj(0)->pos_.GetS();
    VF_NEAR("distance", lead ? -dist : dist, D, 0.1);
    VF_NEAR("speed", r.obj(0)->GetSpeed(), 10, 0.1);
}
VF_CASE(settle_near) { settle_(19, 21, 0); }
VF_CASE(settle_lead) { settle_(19, 21, 1); }
