#include "scenario.h"
using namespace osc;
VF_CASE(cruise)
{
    Doc d;
    d.xodr = writeRoad(odr::doc({straight()}));
    Ent e; e.name = "Ego";
    double s0 = vf_double("s0", 10, 300), v = vf_double("v", 0.5, 40);
    e.init = teleport(lanePos(0, -1, s0)) + absSpeed(v);
    d.ents = {e};
    d.story = act("a", mgroup("g", "Ego", event("e", action("x", absSpeed(10, "linear", "time", 2)), trig(simTimeCond(100)))));
    Engine en(xml(d));
    VF_ASSERT("init", en.se->GetInitStatus() == 0);
    en.step(0);
    double dt = vf_double("dt", 0.01, 0.5);
    for (int i = 0; i < 3; i++) en.step(dt);
    VF_NEAR("s", en.obj(0)->pos_.GetS(), s0 + 3 * dt * v, 1e-6);
    VF_NEAR("speed", en.obj(0)->GetSpeed(), v, 1e-9);
}
VF_CASE(speedact)
{
    Doc d;
    d.xodr = writeRoad(odr::doc({straight()}));
    Ent e; e.name = "Ego";
    double v = vf_double("v", 5, 40), v2 = vf_double("v2", 0, 50), T = vf_double("T", 0.2, 3);
    e.init = teleport(lanePos(0, -1, 100)) + absSpeed(v);
    d.ents = {e};
    d.story = act("a", mgroup("g", "Ego", event("e", action("x", absSpeed(v2, "linear", "time", T)), trig(simTimeCond(0.05)))));
    Engine en(xml(d));
    en.step(0);
    for (int i = 0; i < 8; i++) en.step(0.1);
    vf_observe("speed", en.obj(0)->GetSpeed());
    VF_LE("max", en.obj(0)->GetSpeed(), 50,1e-6);
}
VF_CASE(lanechange)
{
    Doc d;
    d.xodr = writeRoad(odr::doc({straight()}));
    Ent e; e.name = "Ego";
    double v = 10, T = vf_double("T", 0.5, 3);
    e.init = teleport(lanePos(0, -1, 100)) + absSpeed(v);
    d.ents = {e};
    d.story = act("a", mgroup("g", "Ego", event("e", action("x", "<PrivateAction><LateralAction><LaneChangeAction>"+dyn("LaneChangeActionDynamics","sinusoidal","time",T)+"<LaneChangeTarget><AbsoluteTargetLane value=\"-2\"/></LaneChangeTarget></LaneChangeAction></LateralAction></PrivateAction>"), trig(simTimeCond(0.05)))));
    Engine en(xml(d));
    en.step(0);
    for (int i = 0; i < 8; i++) en.step(0.1);
    vf_observe("t", en.obj(0)->pos_.GetT());
    VF_LE("lat", en.obj(0)->pos_.GetT(), -1.75,1e-6);
}
