// C16: synchronize action
#include "scenario.h"
using namespace osc;
using namespace scenarioengine;
typedef StoryBoardElement SE;
struct Run : Engine
{
    explicit Run(const std::string& text) : Engine(text) { VF_ASSERT("init", se->GetInitStatus() == 0); }
    int ev(const std::string& n)
    {
        auto v = se->storyBoard.FindChildByTypeAndName(SE::EVENT, n);
        return v.size() ? v[0]->GetCurrentState() : -1;
    }
    bool done() { return ev("e") == SE::COMPLETE; }
};
static const double DT = 0.25;
static std::string at(const std::string& tag, const std::string& pos)
{
    std::string p = pos;  // <Position>..</Position> -> <tag>..</tag>
    return "<" + tag + ">" + p.substr(10, p.size() - 21) + "</" + tag + ">";
}
static std::string sync(double sm, double s, int lane, const std::string& fin = "", double tolM = -1, double tol = -1)
{
    return "<PrivateAction><SynchronizeAction masterEntityRef=\"M\"" + (tolM < 0 ? std::string() : " targetToleranceMaster=\"" + N(tolM) + "\" targetTolerance=\"" + N(tol) + "\"") + ">" +
           at("TargetPositionMaster", lanePos(0, lane, sm)) + at("TargetPosition", lanePos(0, lane > 0 ? 2 : -2, s)) + fin + "</SynchronizeAction></PrivateAction>";
}
static std::string absFinal(double v, const std::string& ss = "") { return "<FinalSpeed><AbsoluteSpeed value=\"" + N(v) + "\">" + ss + "</AbsoluteSpeed></FinalSpeed>"; }
static std::string relFinal(double v, const char* type) { return "<FinalSpeed><RelativeSpeedToMaster value=\"" + N(v) + "\" speedTargetValueType=\"" + type + "\"/></FinalSpeed>"; }
// the action starts at the third step (0, 0.25, 0.5 s), when both are at s = 500
static Doc scene(int lane, double V, double v, const std::string& a, double start = 0.1)
{
    double back = start < 0 ? 0 : (lane > 0 ? 1 : -1) * DT;
    Doc d;
    d.minor = 1;
    d.xodr  = writeRoad(odr::doc({straight()}));
    Ent e, m;
    e.name  = "Ego";
    e.perf_ = m.perf_ = perf(500, 1000, 1000);
    e.init  = teleport(lanePos(0, lane > 0 ? 2 : -2, 500 + back * v)) + absSpeed(v);
    m.name  = "M";
    m.init  = teleport(lanePos(0, lane, 500 + back * V)) + absSpeed(V);
    d.ents  = {e, m};
    d.story = act("a", mgroup("g", "Ego", event("e", action("x", a), trig(simTimeCond(start)), "overwrite", 1)));
    return d;
}
struct St { double d, m, v, V; };
static St state(Run& r, int lane, double dir, double sT, double sM)
{
    (void)lane;
    return {dir * (sT - r.obj(0)->pos_.GetS()), dir * (sM - r.obj(1)->pos_.GetS()), r.obj(0)->GetSpeed(), r.obj(1)->GetSpeed()};
}
// without a final speed: constant acceleration that covers the rest in the master's remaining time
static void plain(int lane, double D, double M, double V, double v, int n, bool arrive = true)
{
    double dir = lane > 0 ? -1 : 1, sM = 500 + dir * M, sT = 500 + dir * D;
    Run    r(xml(scene(lane, V, v, sync(sM, sT, lane))));
    r.step(0);
    r.step(DT);
    bool ended = false;
    for (int k = 1; k <= n; k++)
    {
        St     b = state(r, lane, dir, sT, sM);
        double T = b.m / V;
        bool   close = T < DT, near = b.d < 1e-6;
        VF_ASSUME(fabs(T - DT) > 1e-4 && fabs(b.d) > 1e-4);
        r.step(DT);
        St a = state(r, lane, dir, sT, sM);
        VF_NEAR("master", a.V, V, 1e-6);
        if (ended) continue;
        if (close)
        {
            VF_ASSERT("ends", r.done());
            if (arrive) VF_ASSERT("arrived", b.d < b.v * DT + 0.5 && b.d > -0.5);
            ended = true;
        }
        else if (!near)
        {
            VF_ASSERT("running", !r.done());
            double acc = (a.v - b.v) / DT;
            VF_NEAR("plan", b.v * T + acc * T * T / 2, b.d, 1e-5);
        }
        else break;
    }
    if (arrive) VF_ASSERT("completed", ended);
}
VF_CASE(arrive_distance)
{
    double D = vf_double("D", 15, 60);
    plain(-1, D, 21, 10, 15, 9);
}
VF_CASE(arrive_speed)
{
    double v = vf_double("v", 5, 25);
    plain(-1, 30, 21, 10, v, 9);
}
VF_CASE(arrive_left)
{
    double D = vf_double("D", 15, 60);
    plain(1, D, 21, 10, 15, 9);
}
VF_CASE(arrive_master)
{
    double V = vf_double("V", 9, 14);
    plain(-1, 32, 21, V, 15, 2, false);
}
// with a final speed: the first step of the two-phase profile (every later step plans anew from the state it finds)
static void profile(double D, double M, double V, double v, double vf, const std::string& f, double skip = 0)
{
    double sM = 500 + M, sT = 500 + D, T = M / V - skip / vf, d = D - skip;
    Run    r(xml(scene(-1, V, v, sync(sM, sT, -1, f))));
    r.step(0);
    r.step(DT);
    VF_NEAR("notYet", r.obj(0)->GetSpeed(), v, 1e-6);
    VF_NEAR("place", r.obj(0)->pos_.GetS(), 500.0, 1e-6);
    r.step(DT);
    VF_ASSERT("running", !r.done());
    // constant acceleration for x, then its opposite for T - x, ending with vf at the destination in time
    double a = (r.obj(0)->GetSpeed() - v) / DT, w = vf - v, X = w + a * T, Y = a * T - w;
    VF_ASSERT("phases", a > 0 ? X > -1e-3 && Y > -1e-3 : X < 1e-3 && Y < 1e-3);
    VF_LE("profile", fabs(8 * a * v * T + X * X + 2 * X * Y - Y * Y - 8 * a * d), 0.02 * 8 * fabs(a) + 1e-3, 0.0);
}
static void profileD(double lo, double hi, double v)
{
    int    k = vf_int("part", 0, 5);
    double D = vf_double("D", lo + (hi - lo) * k / 6, lo + (hi - lo) * (k + 1) / 6);
    profile(D, 42, 20, v, 18, absFinal(18));
}
VF_CASE(final_convex) { profileD(60, 72, 15); }
VF_CASE(final_concave) { profileD(26, 32, 15); }
VF_CASE(final_slower) { profileD(50, 62, 21); }
VF_CASE(final_same) { profileD(40, 60, 18); }
VF_CASE(final_speed)
{
    double v = vf_double("v", 10, 17);
    profile(50, 42, 20, v, 18, absFinal(18));
}
VF_CASE(final_relative)
{
    int    factor = vf_int("factor", 0, 1);
    double x = factor ? vf_double("x", 0.9, 1.1) : vf_double("x", -3, -1), vf = factor ? 20 * x : 20 + x;
    profile(70, 42, 20, 15, vf, relFinal(x, factor ? "factor" : "delta"));
}
VF_CASE(final_steady)
{
    int         kind = vf_int("kind", 0, 2);
    double      q = vf_double("q", 8, 9), vf = 16;
    std::string ss = kind == 0 ? "<TargetDistanceSteadyState distance=\"" + N(q) + "\"/>" : kind == 1 ? "<TargetTimeSteadyState time=\"" + N(q / vf) + "\"/>" : at("TargetPositionSteadyState", lanePos(0, -2, 540 - q));
    profile(40, 42, 20, 18, vf, absFinal(vf, ss), q);
}
// starting (nearly) on the final line: linear to the end
VF_CASE(final_line)
{
    double e = vf_double("e", -0.09, 0.09), V = 20, M = 24, D = 18 * M / V + e, sM = 500 + M, sT = 500 + D, vf = 18;
    Run    r(xml(scene(-1, V, 18, sync(sM, sT, -1, absFinal(vf)))));
    r.step(0);
    r.step(DT);
    bool ended = false;
    for (int k = 1; k <= 6; k++)
    {
        St     b = state(r, -1, 1, sT, sM);
        double T = b.m / V;
        r.step(DT);
        St a = state(r, -1, 1, sT, sM);
        if (ended) { VF_NEAR("kept", a.v, vf, 1e-6); continue; }
        if (T < DT)
        {
            VF_ASSERT("ends", r.done());
            VF_NEAR("finalSpeed", a.v, vf, 1e-6);
            VF_LE("arrived", fabs(b.d - vf * T), 0.2, 0.0);
            ended = true;
            continue;
        }
        VF_ASSERT("running", !r.done());
        if (k == 2) VF_NEAR("apex", a.v, b.v, 1e-6);
        if (k > 2) VF_NEAR("linear", a.v, 2 * b.d / T - vf, 1e-5);
    }
    VF_ASSERT("completed", ended);
}
VF_CASE(steady)  // the last stretch is driven at the final speed, starting just in time
{
    int    kind = vf_int("kind", 0, 2);
    double q = vf_double("q", 9, 12), vf = 16, V = 20, M = 22, D = 17.2;  // steady distance
    std::string ss = kind == 0 ? "<TargetDistanceSteadyState distance=\"" + N(q) + "\"/>" : kind == 1 ? "<TargetTimeSteadyState time=\"" + N(q / vf) + "\"/>" : at("TargetPositionSteadyState", lanePos(0, -2, 500 + D - q));
    double sM = 500 + M, sT = 500 + D;
    Run    r(xml(scene(-1, V, 16, sync(sM, sT, -1, absFinal(vf, ss)))));
    r.step(0);
    r.step(DT);
    bool steady = false, ended = false;
    for (int k = 1; k <= 8; k++)
    {
        St     b = state(r, -1, 1, sT, sM);
        double T = b.m / V, rest = b.d - q, Ts = T - q / vf;
        VF_ASSUME(fabs(rest) > 1e-4 && fabs(Ts) > 1e-4 && fabs(b.d) > 1e-4);
        if (rest < 0 || Ts < 0) steady = true;
        r.step(DT);
        St a = state(r, -1, 1, sT, sM);
        if (steady) VF_NEAR("steadySpeed", a.v, vf, 1e-6);
        if (T < DT) VF_ASSERT("ends", r.done());
        if (T < DT || b.d < 0) { ended = true; break; }
    }
    VF_ASSERT("reached", steady && ended);
}
VF_CASE(waits)  // as long as the master stands still
{
    double v = vf_double("v", 5, 25);
    int    f = vf_int("final", 0, 1);
    Run    r(xml(scene(-1, 0, v, sync(540, 560, -1, f ? absFinal(12) : ""))));
    r.step(0);
    r.step(DT);
    double s = 0;
    for (int k = 1; k <= 3; k++)
    {
        r.step(DT);
        VF_NEAR("still", r.obj(0)->GetSpeed(), 0.0, 1e-9);
        if (k == 1) s = r.obj(0)->pos_.GetS();
        VF_NEAR("place", r.obj(0)->pos_.GetS(), s, 1e-6);
        VF_ASSERT("running", !r.done());
    }
}
VF_CASE(tolerance)  // distances count to the tolerance area, reaching it ends the action
{
    int    w = vf_int("which", 0, 1);
    double tm = w ? vf_double("tolM", 0.1, 4) : 1.3, t = w ? 0.7 : vf_double("tol", 0.1, 4);
    Run    r(xml(scene(-1, 10, 15, sync(515, 521, -1, "", tm, t))));
    r.step(0);
    r.step(DT);
    for (int k = 1; k <= 7; k++)
    {
        St     b = state(r, -1, 1, 521, 515);
        double T = (b.m - tm) / 10, d = b.d - t;
        VF_ASSUME(fabs(T - DT) > 1e-4 && fabs(T) > 1e-4 && fabs(d) > 1e-4);
        r.step(DT);
        St   a = state(r, -1, 1, 521, 515);
        if (T < DT || d < 0)
        {
            VF_ASSERT("ends", r.done());
            break;
        }
        VF_ASSERT("running", !r.done());
        if (k <= 2)
        {
            double acc = (a.v - b.v) / DT;
            VF_NEAR("plan", b.v * T + acc * T * T / 2, d, 1e-5);
        }
        VF_ASSERT("inTime", k < 7);
    }
}
VF_CASE(passed)  // destination already behind: ends once the distance grows
{
    double D = vf_double("D", 1, 20);
    int    who = vf_int("who", 0, 1);
    Run    r(xml(scene(-1, 10, 15, sync(who ? 500 - D : 600, who ? 600 : 500 - D, -1))));
    r.step(0);
    r.step(DT);
    r.step(DT);
    r.step(DT);
    VF_ASSERT("ends", r.done() || (who && r.obj(0)->GetSpeed() < 1e-9));
}
VF_CASE(at_zero)  // an action starting with the simulation does not stop the entity when the master moves
{
    double v = vf_double("v", 10, 20);
    Run    r(xml(scene(-1, 10, v, sync(530, 540, -1), -1)));
    r.step(0);
    VF_ASSERT("moves", r.obj(0)->GetSpeed() > 1);
}
// too early: comes to a stop on the way, waits, and starts again just in time for the final speed
static void stop(double D, double M, double V, double v, double vf, bool hard, int n)
{
    double sM = 500 + M, sT = 500 + D;
    Run    r(xml(scene(-1, V, v, sync(sM, sT, -1, absFinal(vf)))));
    r.step(0);
    r.step(DT);
    bool restarted = false, stood = false, ended = false;
    for (int k = 1; k <= n && !ended; k++)
    {
        St     b = state(r, -1, 1, sT, sM);
        double T = b.m / V;
        VF_ASSUME(fabs(T * vf - 2 * b.d) > 1e-3 && fabs(b.d) > 1e-3);
        r.step(DT);
        St a = state(r, -1, 1, sT, sM);
        if (T < DT)
        {
            VF_ASSERT("ends", r.done());
            VF_NEAR("finalSpeed", a.v, vf, 1e-6);
            VF_LE("arrived", fabs(b.d - vf * T), 0.6, 0.0);
            ended = true;
        }
        else if (restarted)
        {
            if (!hard) VF_NEAR("linear", a.v, std::max(0.0, 2 * b.d / T - vf), 1e-5);
        }
        else if (!stood)
        {
            double acc = hard ? -8.0 : -(b.v * b.v + vf * vf) / (2 * b.d);
            VF_ASSUME(fabs(b.v + acc * DT) > 1e-3);
            VF_NEAR("slows", a.v, std::max(0.0, b.v + acc * DT), 1e-5);
            stood = b.v + acc * DT < 0;
        }
        else if (T * vf < 2 * b.d - (hard ? 0.1 * T : 0)) restarted = true;
        else if (T * vf > 2 * b.d + (hard ? 0.1 * T : 0)) VF_NEAR("waits", a.v, 0.0, 1e-9);
    }
    VF_ASSERT("all phases", stood && restarted && ended);
}
VF_CASE(stop_smooth)
{
    double D = vf_double("D", 2.9, 3.1);
    stop(D, 73, 20, 4, 4.5, false, 20);
}
VF_CASE(stop_hard)
{
    double D = vf_double("D", 6.4, 7.6);
    stop(D, 73, 20, 6.3, 5, true, 20);
}
