// C26: vehicle lights and traffic signals
#include "scenario.h"
using namespace osc;
using namespace scenarioengine;
typedef StoryBoardElement SE;
typedef Object::VehicleLightType T;
typedef Object::VehicleLightMode M;
static const double DT = 0.25;
struct Run : Engine
{
    explicit Run(const std::string& text) : Engine(text) { VF_ASSERT("init", se->GetInitStatus() == 0); }
    int ev(const std::string& n)
    {
        auto v = se->storyBoard.FindChildByTypeAndName(SE::EVENT, n);
        return v.size() ? v[0]->GetCurrentState() : -1;
    }
    Object::VehicleLightStatus& lamp(T t) { return obj(0)->vehLghtStsList[static_cast<size_t>(t)]; }
};
static std::string light(const std::string& type, const std::string& mode, double I = -1, double trans = -1, double on = -1, double off = -1, const std::string& color = "")
{
    return "<PrivateAction><AppearanceAction><LightStateAction" + (trans < 0 ? std::string() : " transitionTime=\"" + N(trans) + "\"") + "><LightType><VehicleLight vehicleLightType=\"" + type +
           "\"/></LightType><LightState mode=\"" + mode + "\"" + (I < 0 ? std::string() : " luminousIntensity=\"" + N(I) + "\"") + (on < 0 ? std::string() : " flashingOnDuration=\"" + N(on) + "\"") +
           (off < 0 ? std::string() : " flashingOffDuration=\"" + N(off) + "\"") + ">" + color + "</LightState></LightStateAction></AppearanceAction></PrivateAction>";
}
static std::string rgb(double r, double g, double b) { return "<Color colorType=\"other\"><ColorRgb red=\"" + N(r) + "\" green=\"" + N(g) + "\" blue=\"" + N(b) + "\"/></Color>"; }
static Doc scene(const std::string& events)
{
    Doc d;
    d.minor = 2;
    d.xodr  = writeRoad(odr::doc({straight()}));
    Ent e;
    e.name  = "Ego";
    e.init  = teleport(lanePos(0, -1, 50)) + absSpeed(0);
    d.ents  = {e};
    d.story = act("a", mgroup("g", "Ego", events));
    return d;
}
static void emits(const Object::VehicleLightStatus& l)
{
    bool any = false;
    for (double e : l.emission)
    {
        VF_ASSUME(fabs(e - 1e-3) > 1e-6);
        any = any || e > 1e-3;
    }
    VF_ASSERT("emitting", l.emitting == any);
    for (int i = 0; i < 3; i++) VF_NEAR("emission", l.emission[i], l.maxRgb[i] * pow(l.luminousIntensity / 12000, 0.25), 1e-6);
}
// the intensity goes linearly from what it was to the commanded one and gets there, after the transition time (rounded up to steps)
static void onOff(const char* name, T ty, double I, double Tr, double Tr2, int n, bool instant)
{
    Run r(xml(scene(event("on", action("x1", light(name, "on", I, Tr)), trig(simTimeCond(0.1))) + event("off", action("x2", light(name, "off", -1, Tr2)), trig(simTimeCond(n * DT - 0.1))))));
    r.step(0);
    double t0 = -1, t = 0, from = 0, to = I, T0 = Tr;
    bool   onDone = false, offDone = false;
    for (int k = 1; k < 2 * n; k++)
    {
        r.step(DT);
        t += DT;
        if (t0 < 0 && r.ev("on") != SE::STANDBY && r.ev("on") != SE::INIT) t0 = t;
        if (t0 < 0) continue;
        if (!offDone && r.ev("off") != SE::STANDBY && r.ev("off") != SE::INIT && to > 0)
        {
            t0 = t, from = r.lamp(ty).luminousIntensity, to = 0, T0 = Tr2;
            from = I;
        }
        double f = instant ? 1 : (t - t0) / T0;
        VF_ASSUME(fabs(f - 1) > 1e-3 || instant);
        bool done = f > 1 - 1e-9;
        if (done) f = 1;
        VF_NEAR("intensity", r.lamp(ty).luminousIntensity, from + (to - from) * f, 1e-5 * 12000);
        if (done) VF_ASSERT("mode", r.lamp(ty).mode == (to > 0 ? M::ON : M::OFF));
        if (!done && to > 0) VF_ASSERT("mode before", r.lamp(ty).mode != M::ON);
        if (!done && to <= 0) VF_ASSERT("mode before off", r.lamp(ty).mode == M::ON);
        emits(r.lamp(ty));
        if (done && to > 0) onDone = true;
        if (done && to <= 0) offDone = true;
    }
    VF_ASSERT("both", onDone && offDone);
    VF_ASSERT("complete", r.ev("on") == SE::COMPLETE && r.ev("off") == SE::COMPLETE);
}
VF_CASE(brake_intensity) { onOff("brakeLights", T::BRAKE_LIGHTS, vf_double("I", 100, 12000), 0.6, 0.3, 5, false); }
VF_CASE(brake_transition) { onOff("brakeLights", T::BRAKE_LIGHTS, 5000, vf_double("Tr", 0.05, 0.9), 0.3, 6, false); }
VF_CASE(lowbeam_transition) { onOff("lowBeam", T::LOW_BEAM, 9000, vf_double("Tr", 0.05, 0.9), 0.45, 6, false); }
VF_CASE(off_transition) { onOff("reversingLights", T::REVERSING_LIGHTS, 5000, 0.1, vf_double("Tr", 0.05, 0.9), 6, false); }
VF_CASE(instant) { onOff("highBeam", T::HIGH_BEAM, vf_double("I", 100, 12000), 0, 0, 4, true); }
VF_CASE(fog_rear) { onOff("fogLightsRear", T::FOG_LIGHTS_REAR, vf_double("I", 100, 12000), 0.3, 0.1, 4, false); }
// default intensity, and beyond the range
VF_CASE(intensity_range)
{
    double I = vf_double("I", 0, 20000);
    VF_ASSUME(fabs(I - 12000) > 1);
    Run r(xml(scene(event("on", action("x1", light("lowBeam", "on", I)), trig(simTimeCond(0.1))) + event("d", action("x2", light("highBeam", "on")), trig(simTimeCond(0.1)), "parallel"))));
    r.step(0);
    for (int k = 0; k < 3; k++) r.step(DT);
    VF_NEAR("clamped", r.lamp(T::LOW_BEAM).luminousIntensity, I > 12000 ? 12000 : I, 1e-3);
    VF_NEAR("default", r.lamp(T::HIGH_BEAM).luminousIntensity, 6000, 1e-3);
    emits(r.lamp(T::LOW_BEAM));
    emits(r.lamp(T::HIGH_BEAM));
}
// any colour: a lamp emits if any channel does, and its colour is the one asked for, scaled to full strength
VF_CASE(colours)
{
    double c[3] = {vf_double("r", 0, 1), vf_double("g", 0, 1), vf_double("b", 0, 1)};
    double mx   = 0;
    for (double x : c) mx = x > mx ? x : mx;
    VF_ASSUME(mx > 0.05);
    VF_ASSUME(fabs(c[0] - c[1]) > 1e-4 && fabs(c[0] - c[2]) > 1e-4 && fabs(c[1] - c[2]) > 1e-4);
    Run r(xml(scene(event("on", action("x1", light("brakeLights", "on", 12000, -1, -1, -1, rgb(c[0], c[1], c[2]))), trig(simTimeCond(0.1))))));
    r.step(0);
    for (int k = 0; k < 3; k++) r.step(DT);
    auto& l = r.lamp(T::BRAKE_LIGHTS);
    VF_ASSERT("mode", l.mode == M::ON);
    VF_ASSERT("lit", l.emitting);
    double e = 0;
    for (double x : l.emission) e = x > e ? x : e;
    VF_ASSERT("bright", e > 0.3);
}
VF_CASE(pure_red)
{
    double x = vf_double("x", 0.3, 1);
    int    w = int(vf_int("which", 0, 2));
    double I = vf_double("I", 100, 12000);
    Run    r(xml(scene(event("on", action("x1", light("brakeLights", "on", I, -1, -1, -1, rgb(w == 0 ? x : 0, w == 1 ? x : 0, w == 2 ? x : 0))), trig(simTimeCond(0.1))))));
    r.step(0);
    for (int k = 0; k < 3; k++) r.step(DT);
    VF_ASSERT("lit", r.lamp(T::BRAKE_LIGHTS).emitting);
    emits(r.lamp(T::BRAKE_LIGHTS));
}
// flashing: lit at once, then alternating
static void flash(const char* name, std::vector<T> ts, double on, double off, int n, double trans = -1)
{
    Run r(xml(scene(event("f", action("x1", light(name, "flashing", 6000, trans, on, off)), trig(simTimeCond(0.1))))));
    r.step(0);
    bool   started = false, lit = false;
    double t = 0;
    for (int k = 0; k < n; k++)
    {
        r.step(DT);
        if (!started)
        {
            if (r.ev("f") == SE::STANDBY || r.ev("f") == SE::INIT) continue;
            started = true, lit = true, t = 0;
        }
        else
        {
            t += DT;
            double d = lit ? on : off;
            VF_ASSUME(fabs(t - d) > 1e-4);
            if (t > d) lit = !lit, t = 0;
        }
        VF_ASSERT("running", r.ev("f") == SE::RUNNING);
        for (T ty : ts)
        {
            auto& l = r.lamp(ty);
            VF_ASSERT("mode", l.mode == M::FLASHING);
            VF_NEAR("intensity", l.luminousIntensity, lit ? 6000 : 0, 1e-3);
            VF_ASSERT("emitting", l.emitting == lit || ty == T::WARNING_LIGHTS || ty == T::FOG_LIGHTS);
        }
    }
    VF_ASSERT("started", started);
}
VF_CASE(flash_left) { flash("indicatorLeft", {T::INDICATOR_LEFT}, vf_double("on", 0.05, 1.2), 0.4, 12); }
VF_CASE(flash_right) { flash("indicatorRight", {T::INDICATOR_RIGHT}, 0.6, vf_double("off", 0.05, 1.2), 12); }
VF_CASE(flash_both) { flash("indicatorRight", {T::INDICATOR_RIGHT}, vf_double("on", 0.05, 0.8), vf_double("off", 0.05, 0.8), 9); }
VF_CASE(flash_warning) { flash("warningLights", {T::WARNING_LIGHTS, T::INDICATOR_LEFT, T::INDICATOR_RIGHT}, vf_double("on", 0.05, 0.8), 0.3, 8); }
VF_CASE(flash_fog) { flash("fogLights", {T::FOG_LIGHTS, T::FOG_LIGHTS_FRONT, T::FOG_LIGHTS_REAR}, 0.3, vf_double("off", 0.05, 0.8), 8); }
// lamps which cannot be used together
static void dark(const Object::VehicleLightStatus& l)
{
    for (double e : l.emission) VF_NEAR("dark", e, 0, 1e-6);
    VF_ASSERT("not emitting", !l.emitting);
}
static void conflict(const char* a, const char* b, T ta, T tb, bool keeps, double at, bool flashing)
{
    const char* mode = flashing ? "flashing" : "on";
    Run r(xml(scene(event("a", action("x1", light(a, mode, 6000, -1, 5, 5)), trig(simTimeCond(0.1))) + event("b", action("x2", light(b, mode, 6000, -1, 5, 5)), trig(simTimeCond(at)), "parallel"))));
    r.step(0);
    bool started = false;
    for (int k = 0; k < 8; k++)
    {
        r.step(DT);
        if (k == 1) VF_ASSERT("first lit", r.lamp(ta).emitting);
        if (r.ev("b") == SE::STANDBY || r.ev("b") == SE::INIT) continue;
        started = true;
        VF_ASSERT("second lit", r.lamp(tb).emitting);
        if (keeps)
            VF_ASSERT("first still lit", r.lamp(ta).emitting);
        else
            dark(r.lamp(ta));
    }
    VF_ASSERT("started", started);
}
VF_CASE(left_then_right) { conflict("indicatorLeft", "indicatorRight", T::INDICATOR_LEFT, T::INDICATOR_RIGHT, false, vf_double("at", 0.55, 1.2), false); }
VF_CASE(right_then_left) { conflict("indicatorRight", "indicatorLeft", T::INDICATOR_RIGHT, T::INDICATOR_LEFT, false, vf_double("at", 0.55, 1.2), false); }
VF_CASE(left_then_right_flashing) { conflict("indicatorLeft", "indicatorRight", T::INDICATOR_LEFT, T::INDICATOR_RIGHT, false, vf_double("at", 0.55, 1.2), true); }
VF_CASE(brake_then_left) { conflict("brakeLights", "indicatorLeft", T::BRAKE_LIGHTS, T::INDICATOR_LEFT, true, vf_double("at", 0.55, 1.2), false); }
VF_CASE(front_then_rear_fog) { conflict("fogLightsFront", "fogLightsRear", T::FOG_LIGHTS_FRONT, T::FOG_LIGHTS_REAR, true, vf_double("at", 0.55, 1.2), false); }

// ---------------------------------------------------------------- traffic signals
static const char* MODES[] = {"off", "on", "flashing"};
static std::string sig(int id, double s)
{
    return "<signal s=\"" + N(s) + "\" t=\"-4\" id=\"" + std::to_string(id) + "\" name=\"tl\" dynamic=\"yes\" orientation=\"-\" zOffset=\"2\" country=\"OpenDRIVE\" type=\"1000001\" subtype=\"-1\" height=\"0.9\" width=\"0.3\"/>";
}
static std::string sigAction(int id, const std::string& st)
{
    return "<GlobalAction><InfrastructureAction><TrafficSignalAction><TrafficSignalStateAction name=\"" + std::to_string(id) + "\" state=\"" + st + "\"/></TrafficSignalAction></InfrastructureAction></GlobalAction>";
}
static std::string sigCond(int id, const std::string& st)
{
    return "<Condition name=\"c\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><TrafficSignalCondition name=\"" + std::to_string(id) + "\" state=\"" + st + "\"/></ByValueCondition></Condition>";
}
struct TL : Run
{
    explicit TL(const std::string& x) : Run(x) {}
    roadmanager::TrafficLight* tl(int id)
    {
        for (auto* s : roadmanager::Position::GetOpenDrive()->GetDynamicSignals())
            if (s->GetId() == id) return dynamic_cast<roadmanager::TrafficLight*>(s);
        return nullptr;
    }
    void shows(int id, const std::string& st)
    {
        size_t      i = 0, p = 0;
        std::string x = st + ";";
        while ((p = x.find(';')) != std::string::npos)
        {
            std::string m = x.substr(0, p);
            x             = x.substr(p + 1);
            auto want = m == "on" ? roadmanager::Signal::LampMode::MODE_CONSTANT : m == "off" ? roadmanager::Signal::LampMode::MODE_OFF : roadmanager::Signal::LampMode::MODE_FLASHING;
            VF_ASSERT("lamp", tl(id)->GetLamp(i)->GetMode() == want);
            i++;
        }
        VF_ASSERT("lamps", tl(id)->GetNrLamps() == i);
    }
};
VF_CASE(signals)
{
    double      t1 = vf_double("t1", 0.05, 0.7), t2 = vf_double("t2", 0.8, 1.4);
    std::string a = std::string(MODES[vf_int("m0", 0, 2)]) + ";off;" + MODES[vf_int("m1", 0, 2)], b = std::string("off;") + MODES[vf_int("m2", 0, 2)] + ";on";
    for (int k = 0; k < 8; k++) VF_ASSUME(fabs(t1 - k * DT) > 1e-3 && fabs(t2 - k * DT) > 1e-3);
    VF_ASSUME(a != b);
    Doc d   = scene(event("a", action("x1", sigAction(7, a)), trig(simTimeCond(t1))) + event("b", action("x2", sigAction(7, b)), trig(simTimeCond(t2)), "parallel") +
                    event("hit", action("x3", absSpeed(1)), trig(sigCond(7, b)), "parallel") + event("other", action("x4", sigAction(9, "on;on;off")), trig(simTimeCond(50)), "parallel") +
                    event("miss", action("x5", absSpeed(1)), trig(sigCond(9, b)), "parallel"));
    odr::RoadDef rd = straight();
    rd.extra        = "<signals>" + sig(7, 100) + sig(9, 200) + "</signals>";
    d.xodr          = writeRoad(odr::doc({rd}));
    TL  r(xml(d));
    int na = -1, nb = -1, nh = -1;
    r.step(0);
    for (int k = 1; k < 9; k++)
    {
        r.step(DT);
        double t = k * DT;
        if (na < 0 && r.ev("a") != SE::STANDBY && r.ev("a") != SE::INIT) na = k;
        if (nb < 0 && r.ev("b") != SE::STANDBY && r.ev("b") != SE::INIT) nb = k;
        if (nh < 0 && r.ev("hit") != SE::STANDBY && r.ev("hit") != SE::INIT) nh = k;
        VF_ASSERT("first in time", (na >= 0) == (t > t1 + DT - 1e-9 || na >= 0) && (na < 0 || na * DT > t1));
        if (t > t1 + 2 * DT) VF_ASSERT("first done", na >= 0);
        if (t > t2 + 2 * DT) VF_ASSERT("second done", nb >= 0);
        r.shows(7, nb >= 0 ? b : na >= 0 ? a : std::string("off;off;off"));
        r.shows(9, "off;off;off");
        VF_ASSERT("condition", nh < 0 || (nb >= 0 && k >= nb));
        if (nb >= 0 && k > nb + 1) VF_ASSERT("condition fired", nh >= 0);
        VF_ASSERT("no other", r.ev("miss") == SE::STANDBY || r.ev("miss") == SE::INIT);
    }
}
