// C18, natural driver changing lanes (needs the player, hence the library)
#include "scenario.h"
#include "esminiLib.hpp"
#include <cmath>
#include <cstring>
using namespace osc;
namespace
{
std::string pr(const char* n, double v) { return std::string("<Property name=\"") + n + "\" value=\"" + N(v) + "\"/>"; }
struct C { int lane; double s, v; };
const double VD = 20, DIST = 5, THW = 1.5, MA = 2, MD = -4;
double idm(double v, bool lead, double gap, double vl)
{
    double q = v / VD, a = MA * (1 - q * q * q * q);
    if (lead)
    {
        double w = DIST + std::max(0.0, v * THW + v * (v - vl) / (2 * sqrt(-MA * MD)));
        a -= MA * (w / gap) * (w / gap);
    }
    return a;
}
Doc scene(int nl, int nr, const C& ego, const std::vector<C>& o, const std::string& extra = "", int route = -9)
{
    Doc d;
    d.xodr = writeRoad(odr::doc({straight(1000, nl, nr)}));
    Ent e;
    e.name       = "Ego";
    e.controller = "<ObjectController><Controller name=\"NaturalDriver\"><Properties><Property name=\"esminiController\" value=\"NaturalDriver\"/>" + pr("desiredSpeed", VD) + pr("desiredDistance", DIST) + pr("thw", THW) + pr("maxAcc", MA) +
                   pr("maxDec", MD) + pr("lookAheadDistance", 80) + pr("laneChangeDuration", 0.4) + "<Property name=\"route\" value=\"" + std::to_string(route) + "\"/>" + extra + "</Properties></Controller></ObjectController>";
    e.init = teleport(lanePos(0, ego.lane, ego.s)) + absSpeed(ego.v) + "<PrivateAction><ActivateControllerAction longitudinal=\"true\" lateral=\"false\"/></PrivateAction>";
    d.ents.push_back(e);
    int i = 0;
    for (auto& c : o)
    {
        Ent b;
        b.name = "o" + std::to_string(i++);
        b.init = teleport(lanePos(0, c.lane, c.s)) + absSpeed(c.v);
        d.ents.push_back(b);
    }
    return d;
}
int laneAfter(const Doc& d)
{
    VF_ASSERT("init", SE_InitWithString(xml(d).c_str(), 0, 0, 0, 0) == 0);
    for (int i = 0; i < 8; i++) SE_StepDT(0.1);
    SE_ScenarioObjectState s;
    memset(&s, 0, sizeof s);
    SE_GetObjectState(0, &s);
    SE_Close();
    return s.laneId;
}
// stuck behind a slow car with the neighbour lanes empty: left if there is such a lane, else right, else stays
void slow(int nl, int nr)
{
    int lane = vf_int("lane", -nr, nl);
    VF_ASSUME(lane != 0);
    int side = lane < 0 ? -1 : 1, count = lane < 0 ? nr : nl, k = lane < 0 ? -lane : lane;
    int want = k > 1 ? lane - side : k < count ? lane + side : lane;
    int got  = laneAfter(scene(nl, nr, {lane, 300, 15}, {{lane, 300 + 25.0 * -side, 8}}));
    VF_ASSERT("lane", got == want);
}
}  // namespace
VF_CASE(nd_lanes_1_1) { slow(1, 1); }
VF_CASE(nd_lanes_1_2) { slow(1, 2); }
VF_CASE(nd_lanes_2_1) { slow(2, 1); }
VF_CASE(nd_lanes_2_2) { slow(2, 2); }
VF_CASE(nd_lanes_1_3) { slow(1, 3); }
VF_CASE(nd_lanes_3_1) { slow(3, 1); }
VF_CASE(nd_lanes_3_2) { slow(3, 2); }
VF_CASE(nd_lanes_2_3) { slow(2, 3); }
// changes lane exactly when it gains more than its threshold
VF_CASE(nd_gain)
{
    double g = vf_double("g", 20, 70), v = 15;
    double gain = idm(v, false, 0, 0) - idm(v, true, g, 12);
    VF_ASSUME(fabs(gain - 0.8) > 0.12);
    int got = laneAfter(scene(1, 2, {-2, 300, v}, {{-2, 305 + g, 12}}, pr("laneChangeAccGain", 0.8)));
    VF_ASSERT("lane", got == (gain > 0.8 ? -1 : -2));
}
// never into a gap that makes the car behind brake harder than allowed
VF_CASE(nd_imposed)
{
    double b = vf_double("b", 8, 40);
    double a = idm(18, true, b, 15);
    VF_ASSUME(fabs(a + 3) > 0.6);
    int got = laneAfter(scene(1, 2, {-2, 300, 15}, {{-2, 325, 8}, {-1, 300 - b - 5, 18}}, pr("politeness", 0)));
    VF_ASSERT("lane", got == (a > -3 ? -1 : -2));
}
// towards its desired lane it goes without gaining anything, but not at the price of hard braking
VF_CASE(nd_route)
{
    double g = vf_double("g", 12, 60);
    double a = idm(15, true, g, 12);
    VF_ASSUME(fabs(a + 3) > 0.6);
    int got = laneAfter(scene(1, 3, {-2, 300, 15}, {{-3, 305 + g, 12}}, "", -3));
    VF_ASSERT("lane", got == (a > -3 ? -3 : -2));
}
// politeness: the car left behind speeding up counts, too
VF_CASE(nd_polite)
{
    double p = vf_double("p", 0, 1);
    // ego held up a little by the lead; the follower behind in the other lane would have to brake
    double gain = idm(15, false, 0, 0) - idm(15, true, 45, 12), loss = idm(16, true, 35, 15) - idm(16, false, 0, 0);
    VF_ASSUME(fabs(gain + p * loss - 0.2) > 0.15);
    int got = laneAfter(scene(1, 2, {-2, 300, 15}, {{-2, 350, 12}, {-1, 260, 16}}, pr("politeness", p)));
    VF_ASSERT("lane", got == (gain + p * loss > 0.2 ? -1 : -2));
}
