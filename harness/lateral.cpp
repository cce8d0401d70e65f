// C15: lateral actions
#include "scenario.h"
using namespace osc;
using namespace scenarioengine;
typedef StoryBoardElement SE;
struct Run : Engine
{
    explicit Run(const std::string& text) : Engine(text) { VF_ASSERT("init", se->GetInitStatus() == 0); }
    int ev(const std::string& n)
    {
        auto v = se->storyBoard.FindChildByTypeAndName(SE::EVENT, n);
        return v.size() ? v[0]->GetCurrentState() : -1;
    }
};
static const int    LANES[] = {-2, -1, 1, 2};
static double       mid(int lane) { return (lane > 0 ? lane - 0.5 : lane + 0.5) * 3.5; }
static std::string  against(bool b) { return b ? "<Orientation type=\"relative\" h=\"3.141592653589793\"/>" : ""; }
static Ent car(const char* name, double v, double s, int lane, double off = 0, bool agn = false)
{
    Ent e;
    e.name  = name;
    e.perf_ = perf(200, 1000, 1000);
    e.init  = teleport(lanePos(0, lane, s, off, against(agn))) + absSpeed(v);
    return e;
}
static Doc base(double v, int lane = -1, double s = 200)
{
    Doc d;
    d.minor = 1;
    d.xodr  = writeRoad(odr::doc({straight()}));
    d.ents  = {car("Ego", v, s, lane)};
    return d;
}
static Doc with(Doc d, const std::string& a, int n = 1)
{
    d.story = act("a", mgroup("g", "Ego", event("e", action("x", a), trig(simTimeCond(-1)), "overwrite", n)));
    return d;
}
static std::string lat(const std::string& s) { return "<PrivateAction><LateralAction>" + s + "</LateralAction></PrivateAction>"; }
static std::string laneChange(int lane, double off, const char* sh, const char* dim, double val, const char* ref = nullptr)
{
    return lat("<LaneChangeAction targetLaneOffset=\"" + N(off) + "\">" + dyn("LaneChangeActionDynamics", sh, dim, val) + "<LaneChangeTarget>" +
               (ref ? std::string("<RelativeTargetLane entityRef=\"") + ref + "\"" : std::string("<AbsoluteTargetLane")) + " value=\"" + std::to_string(lane) + "\"/></LaneChangeTarget></LaneChangeAction>");
}
static std::string laneOffset(double o, const char* sh, double acc, const char* ref = nullptr)
{
    return lat(std::string("<LaneOffsetAction continuous=\"false\"><LaneOffsetActionDynamics dynamicsShape=\"") + sh + "\" maxLateralAcc=\"" + N(acc) + "\"/><LaneOffsetTarget>" +
               (ref ? std::string("<RelativeTargetLaneOffset entityRef=\"") + ref + "\"" : std::string("<AbsoluteTargetLaneOffset")) + " value=\"" + N(o) + "\"/></LaneOffsetTarget></LaneOffsetAction>");
}
static double shape(const char* sh, double t, double D)
{
    double x = t / D;
    if (sh[0] == 'l') return x;
    if (sh[0] == 's') return (1 - cos(M_PI * t / D)) / 2;
    return x * x * (3 - 2 * x);
}
static double peak(const char* sh) { return sh[0] == 'l' ? 1.0 : sh[0] == 's' ? M_PI / 2 : 1.5; }
static const double DT = 0.25;
static void offgrid(double D)
{
    for (int k = 1; k <= 5; k++) VF_ASSUME(D < k * DT - 1e-3 || D > k * DT + 1e-3);
}
static void change_(const char* sh, const char* dim, int from, int to, int what = 0)
{
    bool   agn = from > 0;
    double v = what ? vf_double("v", 10, 40) : 30, off = what || sh[0] != 'l' ? 0.2 : vf_double("off", -0.5, 0.5), D = what ? 0.7 : vf_double("D", 0.55, 0.95);
    offgrid(D);
    double t0 = mid(from), t1 = mid(to) + off, dt = t1 > t0 ? t1 - t0 : t0 - t1;
    Run    r(xml(with(base(v, from), laneChange(to, off, sh, dim, dim[0] == 't' ? D : peak(sh) * dt / D))));
    double t = 0, s = 200, y = t0;
    int    n = 5;
    for (int k = 0; k <= n; k++)
    {
        r.step(k == 0 ? 0 : DT);
        if (k) t += DT;
        auto&  p = r.obj(0)->pos_;
        double want = t < D ? t0 + (t1 - t0) * shape(sh, t, D) : t1, ds = agn ? s - p.GetS() : p.GetS() - s;
        VF_NEAR("lateral", p.GetT(), want, 1e-5);
        if (k)
        {
            // the entity travels no more than its speed allows
            double lat = (p.GetT() - y) * (p.GetT() - y), step = v * DT;
            if (what) VF_LE("forward_max", ds, step, 1e-6);
            if (what && sh[0] == 'l' && t < D) VF_NEAR("length", ds * ds + lat, step * step, 1e-4);
        }
        s = p.GetS();
        y = p.GetT();
        if (t < D) VF_ASSERT("running", r.ev("e") == SE::RUNNING);
        else
        {
            VF_ASSERT("ended", r.ev("e") == SE::COMPLETE);
            VF_ASSERT("lane", p.GetLaneId() == to);
            VF_NEAR("offset", p.GetOffset(), off, 1e-5);
            double h = p.GetH() - (agn ? M_PI : 0);
            VF_NEAR("heading", cos(h), 1, 1e-5);
        }
    }
}
VF_CASE(change_linear) { change_("linear", "time", -1, -2); }
VF_CASE(change_sinusoidal) { change_("sinusoidal", "time", -2, -1); }
VF_CASE(change_cubic) { change_("cubic", "time", -1, -2); }
VF_CASE(change_across) { change_("linear", "time", -1, 1); }
VF_CASE(change_left) { change_("cubic", "time", 1, 2); }
VF_CASE(change_length) { change_("linear", "time", -1, -2, 1); }
VF_CASE(change_length_left) { change_("linear", "rate", 2, 1, 1); }
VF_CASE(change_length_cubic) { change_("cubic", "time", -2, -1, 1); }
VF_CASE(change_length_sinusoidal) { change_("sinusoidal", "time", 1, 2, 1); }
VF_CASE(change_rate) { change_("linear", "rate", -2, -1); }
VF_CASE(change_rate_cubic) { change_("cubic", "rate", 2, 1); }
static void distance_(const char* sh, int from, int to)
{
    bool   agn = from > 0;
    double v = 30, L = sh[0] == 'l' || vf_thorough() ? vf_double("L", 12, 18) : vf_double("L", 13, 14), t0 = mid(from), t1 = mid(to);
    Run    r(xml(with(base(v, from), laneChange(to, 0, sh, "distance", L))));
    int    done = 0;
    for (int k = 0; k <= 5; k++)
    {
        r.step(k == 0 ? 0 : DT);
        auto&  p = r.obj(0)->pos_;
        double x = agn ? 200 - p.GetS() : p.GetS() - 200;
        if (!done && r.ev("e") == SE::COMPLETE) { VF_LE("not_before", L, x, 0.02); VF_LE("not_after", x, L + v * DT, 1e-5); done = 1; VF_ASSERT("lane", p.GetLaneId() == to); }
        if (!done) VF_NEAR("lateral", p.GetT(), t0 + (t1 - t0) * shape(sh, x, L), 1e-5);
        else VF_NEAR("target", p.GetT(), t1, 1e-5);
    }
    VF_ASSERT("done", done);
}
VF_CASE(distance_linear) { distance_("linear", -1, -2); }
VF_CASE(distance_cubic) { distance_("cubic", 2, 1); }
VF_CASE(relative_lane)
{
    // lanes are counted to the left of the referred entity, the centre lane does not count
    int    i = vf_int("ref", 0, 3), agn = vf_int("against", 0, 1), n = vf_int("n", -3, 3), me = vf_int("from", 0, 1);
    int    fwd = (LANES[i] < 0) != (agn == 1), j = i + (fwd ? n : -n);
    VF_ASSUME(j >= 0 && j <= 3);
    double off = vf_double("off", -1, 1);
    Doc    d = base(10, me ? -1 : 1);
    d.ents.push_back(car("Tgt", 10, 300, LANES[i], 0, agn));
    Run r(xml(with(d, laneChange(n, off, "step", "time", 0, "Tgt"))));
    r.step(0);
    r.step(0.1);
    VF_ASSERT("lane", r.obj(0)->pos_.GetLaneId() == LANES[j]);
    VF_NEAR("offset", r.obj(0)->pos_.GetOffset(), off, 1e-6);
    VF_ASSERT("ended", r.ev("e") == SE::COMPLETE);
}
// lane offset: reached exactly, without overshoot, within the lateral acceleration
static void offset_(const char* sh, int lane, int what)
{
    bool   agn = lane > 0;
    double o0 = what ? -0.4 : 0.3, o1 = what ? 0.5 : vf_double("o1", -1, 1), acc = what ? vf_double("acc", 2, 30) : 8, v = 20;
    VF_ASSUME(o1 - o0 > 0.2 || o0 - o1 > 0.2);
    double dy = o1 > o0 ? o1 - o0 : o0 - o1, D2 = sh[0] == 's' ? M_PI * M_PI * dy / (2 * acc) : 6 * dy / acc;  // square of the duration
    VF_ASSUME(D2 > 0.16 && D2 < 0.8);
    double h = 0.2;
    Doc    d = base(v, lane);
    d.ents[0].init = teleport(lanePos(0, lane, 200, o0)) + absSpeed(v);
    Run    r(xml(with(d, laneOffset(o1, sh, acc))));
    double y = o0, y2 = o0;
    for (int k = 0; k <= 6; k++)
    {
        r.step(k == 0 ? 0 : h);
        auto&  p = r.obj(0)->pos_;
        double o = p.GetOffset();
        VF_ASSERT("lane", p.GetLaneId() == lane);
        if (o1 > o0) { VF_LE("monotone", y, o, 1e-9); VF_LE("overshoot", o, o1, 1e-9); }
        else { VF_LE("monotone", o, y, 1e-9); VF_LE("overshoot", o1, o, 1e-9); }
        if (k >= 2 && sh[0] != 'l' && r.ev("e") == SE::RUNNING) { VF_LE("acc", o - 2 * y + y2, acc * h * h, 1e-6); VF_LE("dec", -(o - 2 * y + y2), acc * h * h, 1e-6); }
        y2 = y;
        y  = o;
        if (r.ev("e") == SE::COMPLETE) { VF_NEAR("target", o, o1, 1e-6); double hh = p.GetH() - (agn ? M_PI : 0); VF_NEAR("heading", cos(hh), 1, 1e-5); }
        double T = k * h;
        if (T * T < D2 - 1e-3 && k) VF_ASSERT("running", r.ev("e") == SE::RUNNING);
        if (k >= 2 && (T - 2 * h) * (T - 2 * h) > D2 + 1e-3) VF_ASSERT("ended", r.ev("e") == SE::COMPLETE);
    }
}
VF_CASE(offset_linear_acc) { offset_("linear", -1, 1); }
VF_CASE(offset_linear_target) { offset_("linear", 2, 0); }
VF_CASE(offset_sinusoidal_acc) { offset_("sinusoidal", -2, 1); }
VF_CASE(offset_sinusoidal_target) { offset_("sinusoidal", 1, 0); }
VF_CASE(offset_cubic_acc) { offset_("cubic", 1, 1); }
VF_CASE(offset_cubic_target) { offset_("cubic", -1, 0); }
VF_CASE(offset_step)
{
    int    i = vf_int("lane", 0, 3);
    double o = vf_double("o", -3, 3);
    Run    r(xml(with(base(10, LANES[i]), laneOffset(o, "step", 1))));
    r.step(0);
    r.step(0.1);
    VF_NEAR("t", r.obj(0)->pos_.GetT(), mid(LANES[i]) + o, 1e-6);
    VF_ASSERT("ended", r.ev("e") == SE::COMPLETE);
}
VF_CASE(offset_relative)
{
    // to the left of the other entity by the given amount
    int    i = vf_int("lane", 0, 3), agn = vf_int("against", 0, 1), me = vf_int("from", 0, 3);
    double o = vf_double("o", -2, 2), ro = vf_double("ro", -1, 1);
    bool   fwd = (LANES[i] < 0) != (agn == 1);
    Doc    d = base(10, LANES[me]);
    d.ents.push_back(car("Tgt", 10, 300, LANES[i], ro, agn));
    Run r(xml(with(d, laneOffset(o, "step", 1, "Tgt"))));
    r.step(0);
    VF_NEAR("t", r.obj(0)->pos_.GetT(), mid(LANES[i]) + ro + (fwd ? o : -o), 1e-6);
}
// ---- lateral distance
static std::string latDist(double dist, bool right, bool cont, bool fs, const char* cs, const std::string& dynm = "")
{
    return lat(std::string("<LateralDistanceAction entityRef=\"Tgt\" distance=\"") + N(dist) + "\" displacement=\"" + (right ? "right" : "left") + "ToReferencedEntity\" continuous=\"" + (cont ? "true" : "false") + "\" freespace=\"" + (fs ? "true" : "false") +
               "\" coordinateSystem=\"" + cs + "\">" + dynm + "</LateralDistanceAction>");
}
static void keep_(const char* cs, int cont)
{
    int    right = vf_int("right", 0, 1), fs = vf_int("freespace", 0, 1), agn = vf_int("against", 0, 1);
    double D = vf_double("D", 0.5, 3), o = vf_double("o", -0.5, 0.5), w2 = vf_int("w2", 0, 1) ? 1 : 2.5;  // body sizes are single precision
    bool   roadcs = cs[0] == 'r';
    Doc    d = base(10, agn ? 1 : -1);
    d.ents.push_back(car("Tgt", 10, agn ? 190 : 210, agn ? 1 : -1, o));
    d.ents[1].box.w = w2;
    Run    r(xml(with(d, latDist(D, right, cont, fs, cs))));
    double want = (D + (fs ? (2 + w2) / 2 : 0)) * (right ? -1 : 1) * (agn ? -1 : 1);
    for (int k = 0; k <= 3; k++)
    {
        r.step(k == 0 ? 0 : 0.1);
        double dt = r.obj(0)->pos_.GetT() - r.obj(1)->pos_.GetT();
        if (k >= 1) VF_NEAR("distance", dt, want, 1e-5);
        if (k == 3) VF_ASSERT("state", r.ev("e") == (cont || !roadcs ? SE::RUNNING : SE::COMPLETE));
    }
}
VF_CASE(keep_road) { keep_("road", 1); }
VF_CASE(keep_road_once) { keep_("road", 0); }
VF_CASE(keep_entity) { keep_("entity", 1); }
VF_CASE(keep_again)
{
    // carried out twice: the same distance
    int    right = vf_int("right", 0, 1);
    double D = vf_double("D", 0.5, 3);
    Doc    d = base(10);
    d.ents.push_back(car("Tgt", 10, 210, -1));
    Run    r(xml(with(d, latDist(D, right, false, true, "road"), 2)));
    for (int k = 0; k <= 8; k++) r.step(k == 0 ? 0 : 0.1);
    VF_ASSERT("ended", r.ev("e") == SE::COMPLETE);
    VF_NEAR("distance", r.obj(0)->pos_.GetT() - r.obj(1)->pos_.GetT(), (D + 2) * (right ? -1 : 1), 1e-5);
}
// limited: approaches without exceeding lateral speed
VF_CASE(keep_limited)
{
    double D = vf_double("D", 1, 3), V = vf_double("V", 0.5, 4);
    Doc    d = base(10);
    d.ents.push_back(car("Tgt", 10, 210, -1));
    Run    r(xml(with(d, latDist(D, false, true, false, "road", "<DynamicConstraints maxSpeed=\"" + N(V) + "\"/>"))));
    double y = mid(-1);
    for (int k = 0; k <= 4; k++)
    {
        r.step(k == 0 ? 0 : 0.2);
        double t = r.obj(0)->pos_.GetT();
        VF_LE("speed", t - y, V * 0.2, 1e-6);
        VF_LE("monotone", y, t, 1e-6);
        VF_LE("overshoot", t - mid(-1), D, 1e-5);
        y = t;
    }
    if (V * 0.2 * 2 > D + 0.01) VF_NEAR("reached", y - mid(-1), D, 1e-4);
}
// an external controller in charge of one domain: actions of the other one still work, those of its own do not
VF_CASE(controlled)
{
    int    latc = vf_int("lat", 0, 1), longc = vf_int("long", 0, 1), kind = vf_int("kind", 0, 2);
    double D = vf_double("D", 0.5, 1.5);
    Doc    d = base(10);
    d.ents[0].controller = "<ObjectController><Controller name=\"c\"><ParameterDeclarations/><Properties><Property name=\"esminiController\" value=\"ExternalController\"/></Properties></Controller></ObjectController>";
    d.ents[0].init += std::string("<PrivateAction><ControllerAction><ActivateControllerAction lateral=\"") + (latc ? "true" : "false") + "\" longitudinal=\"" + (longc ? "true" : "false") + "\"/></ControllerAction></PrivateAction>";
    d.ents.push_back(car("Tgt", 10, 210, -1));
    Run r(xml(with(d, kind == 0 ? latDist(D, false, true, false, "road") : kind == 1 ? laneOffset(D, "step", 1) : laneChange(-1, D, "step", "time", 0))));
    for (int k = 0; k <= 2; k++) r.step(k == 0 ? 0 : 0.1);
    VF_NEAR("t", r.obj(0)->pos_.GetT(), mid(-1) + (latc ? 0 : D), 1e-5);
}
