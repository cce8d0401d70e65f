// C18: controllers: who moves an entity, and how the adaptive ones drive
#include "scenario.h"
#include "Controller.hpp"
#include <cmath>
#include <algorithm>
using namespace osc;
static std::string ctl(const char* type, const std::string& props, const char* name = nullptr)
{
    return std::string("<ObjectController><Controller name=\"") + (name ? name : type) + "\"><Properties><Property name=\"esminiController\" value=\"" + type + "\"/>" + props + "</Properties></Controller></ObjectController>";
}
static std::string pr(const char* n, double v) { return std::string("<Property name=\"") + n + "\" value=\"" + N(v) + "\"/>"; }
static std::string ps(const char* n, const char* v) { return std::string("<Property name=\"") + n + "\" value=\"" + v + "\"/>"; }
static std::string on(const char* lon = "true", const char* lat = "false")
{
    return std::string("<PrivateAction><ActivateControllerAction longitudinal=\"") + lon + "\" lateral=\"" + lat + "\"/></PrivateAction>";
}
struct Car
{
    int    lane;
    double s, v, off = 0, h = 0;
    Box    box;
};
static std::string pos(const Car& c) { return teleport(lanePos(0, c.lane, c.s, c.off, c.h == 0 ? "" : "<Orientation type=\"relative\" h=\"" + N(c.h) + "\"/>")); }
static const double MAXS = 60, MAXD = 8, MAXA = 5;
static Doc world(const std::string& controller, const Car& ego, const std::vector<Car>& others, bool egoLast = false, int nl = 2, int nr = 2)
{
    Doc d;
    d.xodr = writeRoad(odr::doc({straight(1000, nl, nr)}));
    Ent e;
    e.name       = "Ego";
    e.perf_      = perf(MAXS, MAXD, MAXA);
    e.controller = controller;
    e.box        = ego.box;
    e.init       = pos(ego) + absSpeed(ego.v) + on();
    int i        = 0;
    std::vector<Ent> o;
    for (auto& c : others)
    {
        Ent b;
        b.name = "o" + std::to_string(i++);
        b.box  = c.box;
        b.init = pos(c) + absSpeed(c.v);
        o.push_back(b);
    }
    d.ents = o;
    d.ents.insert(egoLast ? d.ents.end() : d.ents.begin(), e);
    return d;
}
// ---- adaptive cruise control
static double accFree(double v, double set, double dt)
{
    double a = std::min(0.7 * MAXA, std::max(-MAXD, (set - v) * 0.7 * MAXA)), w = v + a * dt;
    return fabs(w - set) > fabs(v - set) ? set : w;
}
static double accLead(double v, double set, double gap, double vl, double tg, double dt)
{
    if (gap < 1) return 0;
    double follow = 3 + tg * std::max(v, vl), f = std::min(1.0, (gap - follow) / follow);
    double a = 2.5 * f - f * (v - set) - (1 - f) * (v - std::min(set, vl));
    a        = std::min(MAXA, std::max(-MAXD, a));
    return std::min(set, std::max(0.0, v + a * dt));
}
static std::string acc(double set, double tg = 1.5, double lat = 5, const std::string& extra = "")
{
    return ctl("ACCController", pr("timeGap", tg) + pr("setSpeed", set) + pr("lateralDist", lat) + ps("mode", "override") + extra);
}
static const double DT = 0.1;
struct Run
{
    Engine                  e;
    size_t                  ego;
    Run(const Doc& d, size_t i) : e(xml(d)), ego(i) { e.step(0); }
    scenarioengine::Object* o() { return e.obj(ego); }
};
static void free1(double v, double set)
{
    Run r(world(acc(set), {-1, 100, v}, {}), 0);
    r.e.step(DT);
    double w = accFree(v, set, DT);
    VF_NEAR("speed", r.o()->GetSpeed(), w, 3e-6);
    VF_NEAR("moved", r.o()->pos_.GetS(), 100 + w * DT, 3e-6);
    VF_LE("acc", r.o()->GetSpeed() - v, 0.7 * MAXA * DT, 1e-6);
    VF_LE("dec", v - r.o()->GetSpeed(), MAXD * DT, 1e-6);
}
VF_CASE(acc_free_v) { double v = vf_double("v", 0, 40); free1(v, 20); }
VF_CASE(acc_free_set) { double u = vf_double("u", 0, 40); free1(13, u); }
VF_CASE(acc_free_settles)
{
    double v = vf_double("v", 18, 22);
    VF_ASSUME(fabs(v - 20) > 1e-3);
    Run    r(world(acc(20), {-1, 100, v}, {}), 0);
    double w = v;
    for (int i = 0; i < 5; i++)
    {
        r.e.step(DT);
        double n = r.o()->GetSpeed();
        VF_LE("closer", fabs(n - 20), fabs(w - 20), 1e-6);
        VF_LE("no overshoot", (20 - n) * (v - 20), 0, 1e-6);
        w = n;
    }
}
struct L { double v = 20, set = 25, gap = 30, vl = 15, tg = 1.5; };
static void lead1(const L& p, bool last = false)
{
    Run r(world(acc(p.set, p.tg), {-1, 100, p.v}, {{-1, 100 + p.gap + 5 - p.vl * DT, p.vl}}, last), last ? 1 : 0);
    double v0 = r.o()->GetSpeed();
    VF_NEAR("start", v0, p.v, 1e-6);
    r.e.step(DT);
    double n = r.o()->GetSpeed();
    VF_NEAR("speed", n, accLead(p.v, p.set, p.gap, p.vl, p.tg, DT), 1e-5);
    VF_NEAR("moved", r.o()->pos_.GetS(), 100 + n * DT, 3e-6);
    VF_LE("below set", n, std::max(p.set, 0.0), 1e-6);
    VF_LE("not reversing", 0, n, 0);
}
VF_CASE(acc_lead_gap) { L p; p.gap = vf_double("gap", 5, 44); lead1(p); }
VF_CASE(acc_lead_gap_last) { L p; p.gap = vf_double("gap", 5, 44); p.vl = 22; lead1(p, true); }
VF_CASE(acc_lead_faster) { L p; p.gap = vf_double("gap", 5, 44); p.vl = 28; p.v = 18; lead1(p); }
VF_CASE(acc_lead_speed) { L p; p.vl = vf_double("vl", 0, 40); lead1(p); }
VF_CASE(acc_lead_own) { L p; p.v = vf_double("v", 0, 24); lead1(p); }
VF_CASE(acc_lead_set) { L p; p.set = vf_double("set", 5, 40); p.v = 5; lead1(p); }
VF_CASE(acc_lead_timegap) { L p; p.tg = vf_double("tg", 0.1, 4); lead1(p); }
VF_CASE(acc_lead_slow) { L p; p.v = 0.4; p.vl = 0; p.gap = vf_double("gap", 1.2, 10); lead1(p); }
VF_CASE(acc_lead_close)  // nearly touching: stands still at once
{
    double gap = vf_double("gap", 0.3, 0.95);
    Run    r(world(acc(25), {-1, 100, 3}, {{-1, 100 + gap + 5 - 0.1, 1}}), 0);
    r.e.step(DT);
    VF_NEAR("speed", r.o()->GetSpeed(), 0, 1e-9);
}
VF_CASE(acc_lead_boxes)  // the gap is measured between the boxes
{
    int    l = vf_int("l", 2, 12);
    Box    b;
    b.l  = 7;
    b.cx = 2;
    Box c;
    c.l  = l;
    c.cx = 0.5;
    Run r(world(acc(25), {-1, 100, 20, 0, 0, b}, {{-1, 140 - 1.5, 15, 0, 0, c}}), 0);
    r.e.step(DT);
    VF_NEAR("speed", r.o()->GetSpeed(), accLead(20, 25, 40 - (3.5 + 2) - (l / 2.0 - 0.5), 15, 1.5, DT), 1e-5);
}
VF_CASE(acc_lead_oncoming)
{
    double g = vf_double("g", 15, 45);
    Box    b;
    b.cx = 0.5;
    Run r(world(acc(25), {-1, 100, 20}, {{-1, 100 + g, 0, 0, M_PI, b}}), 0);
    r.e.step(DT);
    VF_NEAR("speed", r.o()->GetSpeed(), accLead(20, 25, g - (2.5 + 1.4) - (2.5 + 0.5), 0, 1.5, DT), 1e-5);
}
VF_CASE(acc_lateral)  // only traffic within the lateral distance counts
{
    double off = vf_double("off", -1.7, 1.7);
    VF_ASSUME(fabs(fabs(off) - 1.2) > 1e-4);
    Run r(world(acc(25, 1.5, 1.2), {-1, 100, 20}, {{-1, 135 - 1.5, 15, off}}), 0);
    r.e.step(DT);
    VF_NEAR("speed", r.o()->GetSpeed(), fabs(off) < 1.2 ? accLead(20, 25, 30, 15, 1.5, DT) : accFree(20, 25, DT), 1e-5);
}
static void ignored(const Car& c, double v = 20)
{
    Run r(world(acc(25), {-1, 300, v}, {c}), 0);
    r.e.step(DT);
    VF_NEAR("speed", r.o()->GetSpeed(), accFree(v, 25, DT), 3e-6);
}
VF_CASE(acc_other_lane) { double d = vf_double("d", 10, 45); ignored({-2, 300 + d, 10}); }
VF_CASE(acc_behind) { double d = vf_double("d", 6, 45); ignored({-1, 300 - d, 10}); }
VF_CASE(acc_oncoming_lane) { double d = vf_double("d", 10, 45); ignored({1, 300 + d, 10}); }
VF_CASE(acc_beyond) { double d = vf_double("d", 60, 200); ignored({-1, 300 + d, 10}); }
VF_CASE(acc_far_fast)  // looks further ahead when faster
{
    double d = vf_double("d", 70, 90);
    Run    r(world(acc(35, 1), {-1, 100, 30}, {{-1, 100 + d - 0.5, 5}}), 0);
    r.e.step(DT);
    VF_NEAR("speed", r.o()->GetSpeed(), accLead(30, 35, d - 5, 5, 1, DT), 1e-5);
}
// several cars ahead: the nearest one counts, whatever their order
static void nearest(bool swap, double lo, double hi, double v)
{
    double g = vf_double("g", lo, hi);
    Car    a{-1, 100 + g + 5 - 1.0, 10}, b{-1, 100 + g + 5 + 5.9 - 0.2, 2};
    Run    r(world(acc(25), {-1, 100, v}, swap ? std::vector<Car>{b, a} : std::vector<Car>{a, b}), 0);
    r.e.step(DT);
    VF_NEAR("speed", r.o()->GetSpeed(), accLead(v, 25, g, 10, 1.5, DT), 1e-5);
}
VF_CASE(acc_nearest_far) { nearest(false, 20, 30, 15); }
VF_CASE(acc_nearest_far_swap) { nearest(true, 20, 30, 15); }
VF_CASE(acc_nearest_close) { nearest(false, 0.2, 0.95, 12); }
VF_CASE(acc_nearest_close_swap) { nearest(true, 0.2, 0.95, 12); }
VF_CASE(acc_nearest_mid) { nearest(false, 2.1, 3, 12); }
// closing in on a standing car: stops before it
VF_CASE(acc_stops)
{
    double g = vf_double("g", 1.2, 6);
    Run    r(world(acc(3), {-1, 100, 2}, {{-1, 105 + g, 0}}), 0);
    for (int i = 0; i < 6; i++) r.e.step(0.25);
    VF_LE("apart", r.o()->pos_.GetS(), 100 + g, 0);
}
// without override mode the speed set by actions is the set speed
VF_CASE(acc_additive)
{
    double v = vf_double("v", 5, 30);
    VF_ASSUME(fabs(v - 10) > 2e-3);
    Doc    d = world(ctl("ACCController", pr("timeGap", 1.5)), {-1, 100, 10}, {});
    d.story = act("a", mgroup("g", "Ego", event("e", action("s", absSpeed(v)), trig(simTimeCond(0.15)))));
    Run r(d, 0);
    r.e.step(DT);
    VF_NEAR("kept", r.o()->GetSpeed(), 10, 1e-9);
    for (int i = 0; i < 3; i++) r.e.step(DT);
    VF_NEAR("moved to the new set speed", r.o()->GetSpeed(), accFree(accFree(10, v, DT), v, DT), 1e-5);
}
// a virtual one only tells what it would do
VF_CASE(acc_virtual)
{
    double gap = vf_double("gap", 10, 45);
    Run    r(world(ctl("ACCController", pr("timeGap", 1.5) + pr("setSpeed", 25) + ps("virtual", "true")), {-1, 100, 20}, {{-1, 105 + gap - 1.5, 15}}), 0);
    r.e.step(DT);
    VF_NEAR("speed", r.o()->GetSpeed(), 20, 1e-9);
    VF_NEAR("wanted", 20 + r.o()->pos_.GetAccX() * DT, accLead(20, 20, gap - 2, 15, 1.5, DT), 1e-5);
}
// ---- natural driver (intelligent driver model), no lane to change to
struct ND { double v = 15, vd = 20, gap = 30, vl = 10, dist = 5, thw = 1.5, maxA = 2, maxD = -4; };
static std::string nd(const ND& p)
{
    return ctl("NaturalDriver", pr("desiredSpeed", p.vd) + pr("desiredDistance", p.dist) + pr("thw", p.thw) + pr("maxAcc", p.maxA) + pr("maxDec", p.maxD) + pr("lookAheadDistance", 80));
}
static double idm(const ND& p, bool lead, double dt)
{
    double q = p.v / p.vd, a = p.maxA * (1 - q * q * q * q);
    if (lead)
    {
        double w = p.dist + std::max(0.0, p.v * p.thw + p.v * (p.v - p.vl) / (2 * sqrt(-p.maxA * p.maxD)));
        a -= p.maxA * (w / p.gap) * (w / p.gap);
    }
    double n = p.v + std::max(a, p.maxD) * dt;
    return n >= p.vd ? p.vd : n < 0 ? 0.0 : n;
}
static void nd1(const ND& p, bool lead, const std::vector<Car>& extra = {})
{
    std::vector<Car> o = extra;
    if (lead) o.insert(o.begin(), Car{-1, 100 + p.gap + 5 - p.vl * DT, p.vl});
    Run r(world(nd(p), {-1, 100, p.v}, o, false, 1, 1), 0);
    r.e.step(DT);
    double n = idm(p, lead, DT);
    VF_NEAR("speed", r.o()->GetSpeed(), n, 1e-5);
    VF_NEAR("moved", r.o()->pos_.GetS(), 100 + n * DT, 1e-5);
}
VF_CASE(nd_free) { ND p; p.v = vf_double("v", 0, 20); nd1(p, false); }
VF_CASE(nd_free_desired) { ND p; p.vd = vf_double("vd", 16, 40); nd1(p, false); }
VF_CASE(nd_gap) { ND p; p.gap = vf_double("gap", 5, 70); nd1(p, true); }
VF_CASE(nd_gap_faster) { ND p; p.gap = vf_double("gap", 5, 70); p.vl = 30; nd1(p, true); }
VF_CASE(nd_lead_speed) { ND p; p.vl = vf_double("vl", 0, 35); p.gap = 40; nd1(p, true); }
VF_CASE(nd_own) { ND p; p.v = vf_double("v", 0, 19); p.gap = 50; nd1(p, true); }
VF_CASE(nd_dist) { ND p; p.dist = vf_double("dist", 1, 20); p.gap = 60; nd1(p, true); }
VF_CASE(nd_thw) { ND p; p.thw = vf_double("thw", 0.5, 4); p.gap = 60; nd1(p, true); }
VF_CASE(nd_behind) { double d = vf_double("d", 6, 70); nd1(ND(), false, {{-1, 100 - d, 0}}); }
VF_CASE(nd_oncoming) { double d = vf_double("d", 6, 70); nd1(ND(), false, {{1, 100 + d, 0}}); }
VF_CASE(nd_beyond) { double d = vf_double("d", 82, 150); nd1(ND(), false, {{-1, 100 + d, 0}}); }
VF_CASE(nd_two) { double d = vf_double("d", 42, 60); nd1(ND(), true, {{-1, 100 + d, 0}}); }
// ---- reference driver of UN ECE R157
static Doc ref(const Car& ego, const std::vector<Car>& o)
{
    return world(ctl("ECE_ALKS_RefDriverController", ""), ego, o);
}
static void ramp(Run& r, double v, double g, int n, double dt)
{
    double w = v, since = 0;
    for (int i = 0; i < n; i++)
    {
        r.e.step(dt);
        since = std::min(0.6, since + dt);
        w     = std::max(0.0, w - since / 0.6 * g * 9.81 * dt);
        VF_NEAR("braking", r.o()->GetSpeed(), w, 1e-5);
    }
}
VF_CASE(aeb_ttc)  // slower car straight ahead: emergency braking exactly below 2 s to collision
{
    double gap = vf_double("gap", 3, 40);
    VF_ASSUME(fabs(gap - 20) > 1e-3 && fabs(gap - 22) > 1e-3);
    Run r(ref({-1, 100, 20}, {{-1, 105 + gap, 10}}), 0);
    if (gap < 22) ramp(r, 20, 0.85, 4, 0.2);  // both have moved by one step when the gap is judged
    else
    {
        r.e.step(0.2);
        VF_NEAR("kept", r.o()->GetSpeed(), 20, 1e-6);
    }
}
VF_CASE(aeb_speed)
{
    double v = vf_double("v", 12, 30);
    VF_ASSUME(15 > 2.05 * (v - 8) + 1e-3 || 15 < 2 * (v - 8) - 1e-3);
    Run r(ref({-1, 100, v}, {{-1, 120, 8}}), 0);
    if (15 < 2 * (v - 8)) ramp(r, v, 0.85, 4, 0.2);
    else
    {
        r.e.step(0.05);
        VF_NEAR("kept", r.o()->GetSpeed(), v, 1e-6);
    }
}
VF_CASE(aeb_to_stop)
{
    double v = vf_double("v", 2, 5);
    Run    r(ref({-1, 100, v}, {{-1, 106.5, 0}}), 0);
    ramp(r, v, 0.85, 6, 0.2);
}
VF_CASE(driver_ttc)  // only partly in the way: the driver reacts after 1.15 s
{
    double gap = vf_double("gap", 5, 15);
    Run    r(ref({-1, 100, 20}, {{-1, 105 + gap, 10, 0.3}}), 0);
    double t = 0;
    for (int i = 0; i < 4; i++)
    {
        r.e.step(0.25);
        t += 0.25;
        VF_NEAR("reaction time", r.o()->GetSpeed(), 20, 1e-6);
    }
    r.e.step(0.25);
    VF_NEAR("reaction time", r.o()->GetSpeed(), 20, 1e-6);
    ramp(r, 20, 0.774, 4, 0.2);
}
VF_CASE(ref_other_lane)
{
    double d = vf_double("d", 5, 40);
    Run    r(ref({-1, 100, 20}, {{-2, 100 + d, 10}}), 0);
    for (int i = 0; i < 8; i++) r.e.step(0.2);
    VF_NEAR("kept", r.o()->GetSpeed(), 20, 1e-6);
}
VF_CASE(ref_behind)
{
    double d = vf_double("d", 5, 40);
    Run    r(ref({-1, 100, 20}, {{-1, 100 - d, 10}}), 0);
    for (int i = 0; i < 8; i++) r.e.step(0.2);
    VF_NEAR("kept", r.o()->GetSpeed(), 20, 1e-6);
}
// ---- which controller owns which domain
static int lonOn(scenarioengine::Object* o, const char* n) { auto c = o->GetController(n); return c && c->IsActiveOnDomains(unsigned(ControlDomainMasks::DOMAIN_MASK_LONG)); }
static int latOn(scenarioengine::Object* o, const char* n) { auto c = o->GetController(n); return c && c->IsActiveOnDomains(unsigned(ControlDomainMasks::DOMAIN_MASK_LAT)); }
static std::string activate(const char* name, int lon, int lat, int minor)
{
    static const char* tf[] = {"false", "true"};
    std::string        s    = "<PrivateAction>";
    if (minor >= 1) s += "<ControllerAction>";
    s += "<ActivateControllerAction " + std::string(minor >= 3 ? "objectControllerRef" : "controllerRef") + "=\"" + name + "\"";
    if (lon < 2) s += std::string(" longitudinal=\"") + tf[lon] + "\"";
    if (lat < 2) s += std::string(" lateral=\"") + tf[lat] + "\"";
    s += "/>";
    if (minor >= 1) s += "</ControllerAction>";
    return s + "</PrivateAction>";
}
// a history of activations of two external controllers; what they own is what was given to them last
static void owners(int k)
{
    static const char* names[] = {"A", "B"};
    int                lon = 0, lat = 0, ever = 0;  // owner: 0 none, 1 A, 2 B
    std::string        ev;
    for (int i = 0; i < k; i++)
    {
        std::string q = std::to_string(i);
        int c = vf_int(("c" + q).c_str(), 0, 1), x = vf_int(("lon" + q).c_str(), 0, 2), y = vf_int(("lat" + q).c_str(), 0, 2);
        VF_ASSUME(x != 2 || y != 2);
        ev += event("e" + q, action("a" + q, activate(names[c], x, y, 3)), trig(simTimeCond(0.05 + 0.1 * i)), "parallel");
        if (x == 1) lon = c + 1, ever = 1;
        if (x == 0 && lon == c + 1) lon = 0;
        if (y == 1) lat = c + 1;
        if (y == 0 && lat == c + 1) lat = 0;
    }
    Doc d = world(ctl("ExternalController", "", "A") + ctl("ExternalController", "", "B"), {-1, 100, 10}, {});
    d.minor        = 3;
    d.ents[0].init = pos({-1, 100, 10}) + absSpeed(10);
    d.story        = act("act", mgroup("g", "Ego", ev));
    Run r(d, 0);
    for (int i = 0; i < k + 1; i++) r.e.step(0.1);
    auto o = r.o();
    VF_ASSERT("A long", lonOn(o, "A") == (lon == 1));
    VF_ASSERT("B long", lonOn(o, "B") == (lon == 2));
    VF_ASSERT("A lat", latOn(o, "A") == (lat == 1));
    VF_ASSERT("B lat", latOn(o, "B") == (lat == 2));
    // an external controller in override mode leaves the motion to the outside
    double s = o->pos_.GetS();
    r.e.step(0.1);
    if (lon || !ever) VF_NEAR("moved by whom", o->pos_.GetS() - s, lon ? 0 : 1.0, 1e-6);
}
VF_CASE(owners1) { owners(1); }
VF_CASE(owners2) { owners(2); }
VF_CASE(owners_two_then_take)  // both active on different domains, then one takes one or both
{
    int c = vf_int("c", 0, 1), x = vf_int("lon", 0, 2), y = vf_int("lat", 0, 2);
    VF_ASSUME(x != 2 || y != 2);
    static const char* names[] = {"A", "B"};
    std::string        ev      = event("e0", action("a0", activate("A", 1, 2, 3)), trig(simTimeCond(0.05)), "parallel") +
                     event("e1", action("a1", activate("B", 2, 1, 3)), trig(simTimeCond(0.15)), "parallel") +
                     event("e2", action("a2", activate(names[c], x, y, 3)), trig(simTimeCond(0.25)), "parallel");
    int lon = 1, lat = 2;
    if (x == 1) lon = c + 1;
    if (x == 0 && lon == c + 1) lon = 0;
    if (y == 1) lat = c + 1;
    if (y == 0 && lat == c + 1) lat = 0;
    Doc d          = world(ctl("ExternalController", "", "A") + ctl("ExternalController", "", "B"), {-1, 100, 10}, {});
    d.minor        = 3;
    d.ents[0].init = pos({-1, 100, 10}) + absSpeed(10);
    d.story        = act("act", mgroup("g", "Ego", ev));
    Run r(d, 0);
    for (int i = 0; i < 4; i++) r.e.step(0.1);
    auto o = r.o();
    VF_ASSERT("long", lonOn(o, "A") == (lon == 1) && lonOn(o, "B") == (lon == 2));
    VF_ASSERT("lat", latOn(o, "A") == (lat == 1) && latOn(o, "B") == (lat == 2));
}
