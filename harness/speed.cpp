// C13: speed actions follow the requested transition
#include "scenario.h"
using namespace osc;
using namespace scenarioengine;
typedef StoryBoardElement SE;
static const double DT = 0.1;
struct Run : Engine
{
    explicit Run(const std::string& text) : Engine(text) { VF_ASSERT("init", se->GetInitStatus() == 0); }
    int ev(const std::string& n)
    {
        auto v = se->storyBoard.FindChildByTypeAndName(SE::EVENT, n);
        return v.size() ? v[0]->GetCurrentState() : -1;
    }
};
static Ent car(const char* name, double v, double s, const std::string& p, int lane = -1)
{
    Ent e;
    e.name  = name;
    e.perf_ = p;
    e.init  = teleport(lanePos(0, lane, s)) + absSpeed(v);
    return e;
}
static std::string relSpeed(const char* ref, double v, const char* type, bool cont, const char* shape, const char* dim, double val)
{
    return "<PrivateAction><LongitudinalAction><SpeedAction>" + dyn("SpeedActionDynamics", shape, dim, val) + "<SpeedActionTarget><RelativeTargetSpeed entityRef=\"" + ref + "\" value=\"" + N(v) +
           "\" speedTargetValueType=\"" + type + "\" continuous=\"" + (cont ? "true" : "false") + "\"/></SpeedActionTarget></SpeedAction></LongitudinalAction></PrivateAction>";
}
static Doc base(double v, const std::string& p = perf(200, 1000, 1000))
{
    Doc d;
    d.xodr = writeRoad(odr::doc({straight()}));
    d.ents = {car("Ego", v, 50, p)};
    return d;
}
static Doc with(Doc d, const std::string& a, int n = 1, double T = -1)
{
    d.story = act("a", mgroup("g", "Ego", event("e", action("x", a), trig(simTimeCond(T)), "overwrite", n)));
    return d;
}
static double shape(const char* sh, double t, double D)
{
    double x = t / D;
    if (sh[0] == 'l') return x;
    if (sh[0] == 's') return (1 - cos(M_PI * t / D)) / 2;
    return x * x * (3 - 2 * x);
}
static double peak(const char* sh) { return sh[0] == 'l' ? 1.0 : sh[0] == 's' ? M_PI / 2 : 1.5; }
static void offgrid(double D)
{
    for (int k = 0; k <= 9; k++) VF_ASSUME(D < k * DT - 1e-4 || D > k * DT + 1e-4);
}
// the profile is followed at every step, the target reached exactly and the action ended then
static void follow(Run& r, const char* sh, double v0, double v1, double D, int n)
{
    double t = 0;
    for (int k = 0; k <= n; k++, t += DT)
    {
        r.step(k == 0 ? 0 : DT);
        double v = r.obj(0)->GetSpeed();
        if (t < D)
        {
            VF_ASSERT("running", r.ev("e") == SE::RUNNING);
            VF_NEAR("shape", v, v0 + (v1 - v0) * shape(sh, t, D), 1e-6);
        }
        else
        {
            VF_ASSERT("ended", r.ev("e") == SE::COMPLETE);
            VF_NEAR("target", v, v1, 1e-6);
        }
    }
}
static void time_(const char* sh, int down)
{
    double v0 = vf_double("v0", 1, 40), dv = vf_double("dv", 0.01, 20), D = vf_double("D", 0.15, 0.45), v1 = v0 + dv;
    offgrid(D);
    if (down) std::swap(v0, v1);
    Run r(xml(with(base(v0), absSpeed(v1, sh, "time", D))));
    follow(r, sh, v0, v1, D, 5);
}
VF_CASE(time_linear_up) { time_("linear", 0); }
VF_CASE(time_linear_down) { time_("linear", 1); }
VF_CASE(time_sinusoidal_up) { time_("sinusoidal", 0); }
VF_CASE(time_sinusoidal_down) { time_("sinusoidal", 1); }
VF_CASE(time_cubic_up) { time_("cubic", 0); }
VF_CASE(time_cubic_down) { time_("cubic", 1); }
VF_CASE(reverse)
{
    // through standstill
    double v0 = vf_double("v0", -5, 5), v1 = vf_double("v1", -5, 5), D = vf_double("D", 0.15, 0.29);
    offgrid(D);
    VF_ASSUME(v1 - v0 > 0.01 || v0 - v1 > 0.01);
    VF_ASSUME(v0 > 0.01 || v0 < -0.01);
    Run r(xml(with(base(v0), absSpeed(v1, "linear", "time", D))));
    follow(r, "linear", v0, v1, D, 3);
}
// rate: the steepest point of the profile has the requested rate
static void rate_(const char* sh, int down)
{
    double v0 = vf_double("v0", 1, 30), dv = vf_double("dv", 0.5, 10), D = vf_double("D", 0.15, 0.45), v1 = v0 + dv, R = peak(sh) * dv / D;
    offgrid(D);
    if (down) std::swap(v0, v1);
    Run r(xml(with(base(v0), absSpeed(v1, sh, "rate", R))));
    follow(r, sh, v0, v1, D, 5);
}
VF_CASE(rate_linear_up) { rate_("linear", 0); }
VF_CASE(rate_linear_down) { rate_("linear", 1); }
VF_CASE(rate_sinusoidal_up) { rate_("sinusoidal", 0); }
VF_CASE(rate_sinusoidal_down) { rate_("sinusoidal", 1); }
VF_CASE(rate_cubic_up) { rate_("cubic", 0); }
VF_CASE(rate_cubic_down) { rate_("cubic", 1); }
VF_CASE(step_shape)
{
    double v0 = vf_double("v0", -20, 40), v1 = vf_double("v1", -20, 40), vm = vf_double("vmax", 5, 60);
    VF_ASSUME(v0 <= vm && v0 >= -vm);
    Run    r(xml(with(base(v0, perf(vm, 10, 10)), absSpeed(v1))));
    double t = v1 > vm ? vm : v1 < -vm ? -vm : v1;
    r.step(0);
    VF_NEAR("at_once", r.obj(0)->GetSpeed(), t, 3e-6);
    r.step(DT);
    VF_ASSERT("ended", r.ev("e") == SE::COMPLETE);
    VF_NEAR("kept", r.obj(0)->GetSpeed(), t, 3e-6);
}
// distance: the target speed is reached after that distance (the speed of a step is that at its end)
static void dist_(const char* sh)
{
    double v0 = sh[0] == 'l' ? vf_double("v0", 1, 30) : 12, v1 = vf_double("v1", 1, 30), L = vf_double("L", 2, 30);
    VF_ASSUME((v1 - v0 > 0.5 || v0 - v1 > 0.5));
    VF_ASSUME(L > 0.1 * (v0 + v1) && L < 0.35 * (v0 + v1));
    Run    r(xml(with(base(v0), absSpeed(v1, sh, "distance", L))));
    int    n = 9, done = 0;
    double dv = v1 > v0 ? v1 - v0 : v0 - v1, vm = v1 > v0 ? v1 : v0;
    for (int k = 0; k <= n; k++)
    {
        r.step(k == 0 ? 0 : DT);
        double s = r.obj(0)->pos_.GetS() - 50;
        if (!done && r.ev("e") == SE::COMPLETE)
        {
            VF_LE("not_before", L, s + dv * DT, 1e-6);
            VF_LE("not_after", s, L + vm * DT + dv * DT, 1e-6);
            VF_NEAR("target", r.obj(0)->GetSpeed(), v1, 1e-6);
            done = 1;
        }
    }
    VF_ASSERT("done", done == 1);
}
VF_CASE(dist_linear) { dist_("linear"); }
VF_CASE(dist_sinusoidal) { dist_("sinusoidal"); }
VF_CASE(dist_cubic) { dist_("cubic"); }
// performance: neither acceleration nor speed beyond the limits, target reached all the same
static void limits_(const char* sh, const char* dim, int up)
{
    double A = vf_double("maxAcc", 2, 20), B = vf_double("maxDec", 2, 20), VM = vf_double("maxSpeed", 12, 40);
    double v0 = 10, dv = sh[0] == 'l' ? vf_double("dv", 0.5, 3) : 1.5, D = sh[0] == 'l' ? vf_double("value", 0.05, 20) : 0.2;
    double v1 = up ? v0 + dv : v0 - dv;
    Run    r(xml(with(base(v0, perf(VM, B, A)), absSpeed(v1, sh, dim, D))));
    double v = v0, end = v1 > VM ? VM : v1;
    int    n = 6;
    for (int k = 0; k <= n; k++)
    {
        r.step(k == 0 ? 0 : DT);
        double w = r.obj(0)->GetSpeed();
        if (k)
        {
            VF_LE("acceleration", w - v, A * DT, 3e-6);
            VF_LE("deceleration", v - w, B * DT, 3e-6);
        }
        VF_LE("speed", w, VM, 1e-9);
        VF_LE("speed_neg", -w, VM, 1e-9);
        if (up) { VF_LE("monotone", v, w, 1e-9); VF_LE("no_overshoot", w, end, 1e-9); }
        else { VF_LE("monotone", w, v, 1e-9); VF_LE("no_overshoot", end, w, 1e-9); }
        if (r.ev("e") == SE::COMPLETE) VF_NEAR("reached", w, end, 1e-6);
        v = w;
    }
    // as fast as the limit and the request allow
    double a = up ? A : B, pk = peak(sh);
    double need = dim[0] == 't' ? D : pk * dv / D, slow = pk * dv / a;
    double T = need > slow ? need : slow;
    if (T < (n - 1) * DT - 1e-3) VF_ASSERT("complete", r.ev("e") == SE::COMPLETE);
    if (T > n * DT + 1e-3 && v1 < VM) VF_ASSERT("not_complete", r.ev("e") == SE::RUNNING);
}
VF_CASE(limits_linear_up) { limits_("linear", "time", 1); }
VF_CASE(limits_linear_down) { limits_("linear", "time", 0); }
VF_CASE(limits_cubic_up) { limits_("cubic", "time", 1); }
VF_CASE(limits_cubic_down) { limits_("cubic", "time", 0); }
VF_CASE(limits_sinusoidal_up) { limits_("sinusoidal", "time", 1); }
VF_CASE(limits_rate_up) { limits_("linear", "rate", 1); }
VF_CASE(limits_rate_down) { limits_("linear", "rate", 0); }
// relative target: delta and factor of the other entity's speed
static void relative_(int cont)
{
    int    f = vf_int("factor", 0, 1);
    double v0 = vf_double("v0", 3, 30), u = vf_double("u", 3, 30), x = f ? vf_double("x", 0.2, 2) : vf_double("x", -2.5, 10), D = vf_double("D", 0.12, 0.18);
    Doc    d = base(v0);
    d.ents.push_back(car("Tgt", u, 200, perf(200, 1000, 1000), -2));
    d = with(d, relSpeed("Tgt", x, f ? "factor" : "delta", cont, "linear", "time", D));
    // the other entity changes its speed afterwards
    double u2 = vf_double("u2", 3, 30);
    d.story += act("a2", mgroup("g2", "Tgt", event("e2", action("y", absSpeed(u2)), trig(simTimeCond(0.35)))));
    Run r(xml(d));
    for (int k = 0; k <= 7; k++)
    {
        r.step(k == 0 ? 0 : DT);
        double v = r.obj(0)->GetSpeed(), w = f ? u * x : u + x, w2 = f ? u2 * x : u2 + x;
        if (k == 4) VF_NEAR("target", v, w, 3e-6);
        if (k >= 4 && cont) VF_ASSERT("goes_on", r.ev("e") == SE::RUNNING);
        if (k >= 4 && !cont) VF_ASSERT("ended", r.ev("e") == SE::COMPLETE);
        if (k == 7) VF_NEAR("afterwards", v, cont ? w2 : w, 3e-6);
    }
}
VF_CASE(relative) { relative_(0); }
VF_CASE(relative_continuous) { relative_(1); }
// a repeated event: the action does the same again from the same start
static void again_(const char* sh, const char* dim)
{
    double v1 = vf_double("v1", 12, 20), L = dim[0] == 'd' ? vf_double("L", 3, 6) : dim[0] == 't' ? vf_double("L", 0.15, 0.35) : vf_double("L", 20, 60);
    Doc    d  = base(10);
    std::string c = "<Condition name=\"c\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><StoryboardElementStateCondition storyboardElementType=\"event\" storyboardElementRef=\"e\" state=\"completeState\"/></ByValueCondition></Condition>";
    d.story = act("a", mgroup("g", "Ego", event("e", action("x", absSpeed(v1, sh, dim, L)), trig(simTimeCond(-1)), "parallel") + event("e2", action("y", absSpeed(10)), trig(c), "parallel"), 2));
    Run    r(xml(d));
    double T = dim[0] == 'd' ? 2 * L / (10 + v1) : dim[0] == 't' ? L : (v1 - 10) * peak(sh) / L;
    VF_ASSUME(T > 0.15);
    int    n = 0, was = SE::STANDBY, len = 0, seen = 0;
    for (int k = 0; k <= 24; k++)
    {
        r.step(k == 0 ? 0 : DT);
        int st = r.ev("e");
        if (k > 0 && (st == SE::RUNNING || (st == SE::COMPLETE && was == SE::RUNNING))) len++;
        if (st == SE::COMPLETE && was == SE::RUNNING)
        {
            VF_NEAR("target", r.obj(0)->GetSpeed(), v1, 1e-6);
            VF_LE("not_early", T, (len + 1) * DT, 1e-4);
            VF_LE("not_late", (len - 1) * DT, T, 1e-4);
            n++;
            len = 0;
        }
        seen += st == SE::STANDBY;
        was = st;
    }
    VF_ASSERT("twice", n == 2);
}
VF_CASE(again_dist) { again_("linear", "distance"); }
VF_CASE(again_time) { again_("cubic", "time"); }
VF_CASE(again_rate) { again_("linear", "rate"); }
