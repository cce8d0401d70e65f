// C10: storyboard life cycle
#include "scenario.h"
#include <map>
using namespace osc;
using namespace scenarioengine;
typedef StoryBoardElement SE;
struct Rec { std::string path; int type, state; double t; int step; };
static std::vector<Rec>           g_log;
static std::map<std::string, int> g_state;
static Engine*                    g_en   = nullptr;
static int                        g_step = -1;
static void cb(const char*, int type, int state, const char* path)
{
    g_log.push_back({path, type, state, 0, g_step});
    std::string k    = std::to_string(type) + ":" + path;
    int         prev = g_state.count(k) ? g_state[k] : SE::INIT;
    if (type != SE::ACTION)
    {
        // complete is final (actions start again with their event)
        VF_ASSERT("complete_final", prev != SE::COMPLETE);
        if (state == SE::STANDBY) VF_ASSERT("to_standby", prev == SE::INIT || prev == SE::RUNNING);
        if (state == SE::RUNNING) VF_ASSERT("to_running", prev == SE::INIT || prev == SE::STANDBY);
        if (state == SE::COMPLETE) VF_ASSERT("to_complete", prev == SE::STANDBY || prev == SE::RUNNING);
    }
    g_state[k] = state;
}
struct Run : Engine
{
    int ret = 0;
    explicit Run(const std::string& text) : Engine(text)
    {
        g_log.clear(); g_state.clear(); g_step = -1; g_en = this;
        SE::stateChangeCallback = cb;
        VF_ASSERT("init", se->GetInitStatus() == 0);
    }
    int go(double dt) { g_step++; return ret = step(dt); }
    SE* el(SE::ElementType t, const std::string& n)
    {
        auto v = se->storyBoard.FindChildByTypeAndName(t, n);
        return v.size() ? v[0] : nullptr;
    }
    int ev(const std::string& n) { return el(SE::EVENT, n)->GetCurrentState(); }
};
// number of times, or step of the k-th time, an element entered a state; -1 never
static int count(const std::string& name, int state, int type = SE::EVENT)
{
    int n = 0;
    for (auto& r : g_log) if (r.type == type && r.state == state && r.path.size() >= name.size() && r.path.substr(r.path.size() - name.size()) == name) n++;
    return n;
}
static int when(const std::string& name, int state, int type = SE::EVENT)
{
    for (auto& r : g_log) if (r.type == type && r.state == state && r.path.size() >= name.size() && r.path.substr(r.path.size() - name.size()) == name) return r.step;
    return -1;
}
static Doc base(double v = 10)
{
    Doc d;
    d.xodr = writeRoad(odr::doc({straight()}));
    Ent e;
    e.name = "Ego";
    e.perf_ = perf(200, 1000, 1000);
    e.init = teleport(lanePos(0, -1, 50)) + absSpeed(v);
    d.ents = {e};
    return d;
}
static std::string laneOffset(double o)
{
    return "<PrivateAction><LateralAction><LaneOffsetAction continuous=\"false\"><LaneOffsetActionDynamics dynamicsShape=\"linear\" maxLateralAcc=\"1\"/><LaneOffsetTarget><AbsoluteTargetLaneOffset value=\"" + N(o) + "\"/></LaneOffsetTarget></LaneOffsetAction></LateralAction></PrivateAction>";
}
static const double DT = 0.1;
// first step at which the time condition t > T holds; T keeps off the step times
static int first(double T, int n)
{
    for (int k = 0; k <= n; k++) if (k * DT > T) return k;
    return n + 1;
}
static double offgrid(const char* name, double lo, double hi)
{
    double T = vf_double(name, lo, hi);
    for (int k = 0; k <= 14; k++) VF_ASSUME(T < k * DT - 1e-4 || T > k * DT + 1e-4);
    return T;
}
VF_CASE(one_event)
{
    double T = offgrid("T", -0.05, 0.65), D = vf_double("D", 0.05, 0.45);
    Doc    d = base();
    d.story  = act("a", mgroup("g", "Ego", event("e", action("x", absSpeed(20, "linear", "time", D)), trig(simTimeCond(T)))));
    Run r(xml(d));
    int N = 13, k1 = first(T, N);
    for (int k = 0; k <= N; k++)
    {
        int ret = r.go(k == 0 ? 0 : DT);
        // step k evaluates the storyboard at time (k - 1) * DT; k = 0 and 1 both at time 0
        int now = k == 0 ? 0 : k - 1;
        VF_ASSERT("goes_on", ret == 0);
        if (now < k1) VF_ASSERT("not_yet", r.ev("e") == SE::STANDBY);
        if (now == k1) VF_ASSERT("starts", count("e", SE::RUNNING) == 1);
        VF_ASSERT("act", r.el(SE::ACT, "a")->GetCurrentState() == (r.ev("e") == SE::COMPLETE ? SE::COMPLETE : SE::RUNNING));
        VF_ASSERT("story", r.el(SE::STORY, "story")->GetCurrentState() == (r.ev("e") == SE::COMPLETE ? SE::COMPLETE : SE::RUNNING));
        VF_ASSERT("action", (r.el(SE::ACTION, "x")->GetCurrentState() == SE::COMPLETE) == (r.ev("e") == SE::COMPLETE));
        if (r.ev("e") == SE::STANDBY) VF_NEAR("before", r.obj(0)->GetSpeed(), 10, 1e-9);
        if (r.ev("e") == SE::COMPLETE) VF_NEAR("after", r.obj(0)->GetSpeed(), 20, 1e-6);
    }
    VF_ASSERT("once", count("e", SE::RUNNING) == 1 && count("e", SE::COMPLETE) == 1);
    int    w   = when("e", SE::RUNNING);
    double run = (when("e", SE::COMPLETE) - (w == 0 ? 1 : w) + 1) * DT;  // the start step already moves the action, the very first step takes no time
    VF_LE("duration_min", D, run, 1e-6);
    VF_LE("duration_max", run, D + DT, 1e-6);
}
// two events in one maneuver, the second with each priority
static void priority_(const char* prio, const char* edge)
{
    int    p  = prio[0] == 'o' ? 0 : prio[0] == 's' ? 1 : 2;
    double T1 = offgrid("T1", -0.05, 0.35), T2 = offgrid("T2", -0.05, 0.75);
    Doc    d  = base();
    d.story   = act("a", mgroup("g", "Ego", event("e1", action("x", absSpeed(20, "linear", "time", 0.45)), trig(simTimeCond(T1))) +
                                                event("e2", action("y", laneOffset(0.05)), trig(simTimeCond(T2, "greaterThan", 0, edge)), prio)));
    Run r(xml(d));
    int N = 11, k1 = first(T1, N), k2 = first(T2, N);
    if (edge[0] == 'r' && k2 == 0) k2 = 99;  // true from the beginning: no edge
    int e1end = k1 + 5;                      // first time index at which event 1 no longer runs
    for (int k = 0; k <= N; k++)
    {
        r.go(k == 0 ? 0 : DT);
        int  now    = k == 0 ? 0 : k - 1;
        bool during = k2 >= k1 && k2 < e1end;  // event 1 running when event 2 triggers
        if (now < k1) VF_ASSERT("e1_waits", r.ev("e1") == SE::STANDBY);
        if (p == 0 && during && now >= k2) VF_ASSERT("overwritten", r.ev("e1") == SE::COMPLETE && when("e2", SE::RUNNING) >= 0);
        if (p == 2 && during && now == k2 && k2 < e1end - 1) VF_ASSERT("both", r.ev("e1") == SE::RUNNING && r.ev("e2") == SE::RUNNING);
        if (p == 1 && during && now >= k2 && now < e1end) VF_ASSERT("skipped", r.ev("e2") == SE::STANDBY);
        if (p == 1 && during && edge[0] == 'r') VF_ASSERT("skipped_for_good", count("e2", SE::RUNNING) == 0);
        if (p == 1 && during && edge[0] == 'n' && now == e1end) VF_ASSERT("afterwards", count("e2", SE::RUNNING) == 1);
        if (!during && now == k2) VF_ASSERT("e2_starts", count("e2", SE::RUNNING) == 1);
        if (now < k2) VF_ASSERT("e2_waits", count("e2", SE::RUNNING) == 0);
        if (!(p == 0 && during) && now >= k1 && now < e1end - 1) VF_ASSERT("e1_runs", r.ev("e1") == SE::RUNNING);
        if (!(p == 0 && during) && now >= e1end) VF_NEAR("e1_done", r.obj(0)->GetSpeed(), 20, 1e-6);
    }
    VF_ASSERT("e1_once", count("e1", SE::RUNNING) == 1);
}
VF_CASE(overwrite) { priority_("overwrite", "none"); }
VF_CASE(skip) { priority_("skip", "none"); }
VF_CASE(skip_edge) { priority_("skip", "rising"); }
VF_CASE(parallel) { priority_("parallel", "none"); }
VF_CASE(exec_count)
{
    int    n = vf_int("n", 1, 3), rising = vf_int("rising", 0, 1);
    double T = offgrid("T", -0.05, 0.35);
    Doc    d = base();
    d.story  = act("a", mgroup("g", "Ego", event("e", action("x", absSpeed(20, "linear", "time", 0.15)), trig(simTimeCond(T, "greaterThan", 0, rising ? "rising" : "none")), "overwrite", n)));
    Run r(xml(d));
    for (int k = 0; k <= 16; k++)
    {
        r.go(k == 0 ? 0 : DT);
        VF_ASSERT("never_more", count("e", SE::RUNNING) <= n);
        if (count("e", SE::RUNNING) < n) VF_ASSERT("not_complete", r.ev("e") != SE::COMPLETE);
    }
    if (!rising) { VF_ASSERT("all_runs", count("e", SE::RUNNING) == n); VF_ASSERT("complete", r.ev("e") == SE::COMPLETE); }
    else if (T > 0) { VF_ASSERT("one_edge", count("e", SE::RUNNING) == 1); VF_ASSERT("waits", r.ev("e") == (n == 1 ? SE::COMPLETE : SE::STANDBY)); }
    else VF_ASSERT("no_edge", count("e", SE::RUNNING) == 0);
}
VF_CASE(group_count)
{
    // maneuver group executed m times, its two events every time
    int    m = vf_int("m", 1, 3);
    double T = offgrid("T", -0.05, 0.35);
    Doc    d = base();
    d.story  = act("a", mgroup("g", "Ego", event("e1", action("x", absSpeed(20, "linear", "time", 0.15)), trig(simTimeCond(T)), "parallel") + event("e2", action("y", laneOffset(0.01)), trig(simTimeCond(T)), "parallel"), m));
    Run r(xml(d));
    g_state.clear();
    SE::stateChangeCallback = [](const char*, int type, int state, const char* path) { g_log.push_back({path, type, state, 0, g_step}); };
    for (int k = 0; k <= 30 && r.el(SE::ACT, "a")->GetCurrentState() != SE::COMPLETE; k++)
    {
        r.go(k == 0 ? 0 : DT);
        VF_ASSERT("never_more", count("e1", SE::RUNNING) <= m && count("e2", SE::RUNNING) <= m);
        if (r.el(SE::MANEUVER_GROUP, "g")->GetCurrentState() == SE::COMPLETE) VF_ASSERT("all", count("e1", SE::RUNNING) == m && count("e2", SE::RUNNING) == m);
    }
    VF_ASSERT("runs", count("e1", SE::RUNNING) == m && count("e2", SE::RUNNING) == m);
    VF_ASSERT("complete", r.el(SE::ACT, "a")->GetCurrentState() == SE::COMPLETE);
}
VF_CASE(act_stop)
{
    double T1 = offgrid("T1", -0.05, 0.45), TS = offgrid("TS", -0.05, 0.85);
    Doc    d  = base();
    d.story   = act("a", mgroup("g", "Ego", event("e", action("x", absSpeed(20, "linear", "time", 1.0)), trig(simTimeCond(T1)))), "", trig(simTimeCond(TS), "StopTrigger"));
    Run    r(xml(d));
    int    N = 10, k1 = first(T1, N), ks = first(TS, N);
    double v = 0;
    for (int k = 0; k <= N; k++)
    {
        int ret = r.go(k == 0 ? 0 : DT);
        int now = k == 0 ? 0 : k - 1;
        VF_ASSERT("goes_on", ret == 0);
        if (now >= ks && k >= 1)
        {
            VF_ASSERT("stopped", r.ev("e") == SE::COMPLETE && r.el(SE::ACTION, "x")->GetCurrentState() != SE::RUNNING && r.el(SE::ACT, "a")->GetCurrentState() == SE::COMPLETE && r.el(SE::STORY, "story")->GetCurrentState() == SE::COMPLETE);
            if (now > ks) VF_NEAR("frozen", r.obj(0)->GetSpeed(), v, 1e-9);
            if (k1 >= ks && ks > 0) VF_ASSERT("never_ran", count("e", SE::RUNNING) == 0);
        }
        else if (now >= k1 && now < ks) VF_ASSERT("running", r.ev("e") == SE::RUNNING && r.el(SE::ACT, "a")->GetCurrentState() == SE::RUNNING);
        v = r.obj(0)->GetSpeed();
    }
}
VF_CASE(storyboard_stop)
{
    double T1 = offgrid("T1", -0.05, 0.45), TS = offgrid("TS", 0.05, 0.85);
    Doc    d  = base();
    d.story   = act("a", mgroup("g", "Ego", event("e", action("x", absSpeed(20, "linear", "time", 1.0)), trig(simTimeCond(T1)))));
    d.stop    = "<ConditionGroup>" + simTimeCond(TS) + "</ConditionGroup>";
    Run    r(xml(d));
    int    N = 10, ks = first(TS, N);
    for (int k = 0; k <= N; k++)
    {
        int ret = r.go(k == 0 ? 0 : DT), now = k == 0 ? 0 : k - 1;
        if (now < ks) VF_ASSERT("goes_on", ret == 0);
        else
        {
            VF_ASSERT("quit", ret != 0);
            VF_ASSERT("stopped", r.se->storyBoard.GetCurrentState() == SE::COMPLETE && r.ev("e") == SE::COMPLETE);
            break;
        }
    }
}
VF_CASE(conflict)
{
    // events of different groups acting on the same object: a new action ends the ongoing one of the same domain only
    int    kind = vf_int("kind", 0, 1);  // second action: 0 speed (same domain), 1 lateral
    double T1 = offgrid("T1", -0.05, 0.35), T2 = offgrid("T2", -0.05, 0.95);
    Doc    d  = base();
    d.story   = act("a", mgroup("g1", "Ego", event("e1", action("x", absSpeed(20, "linear", "time", 0.65)), trig(simTimeCond(T1)))) +
                             mgroup("g2", "Ego", event("e2", action("y", kind ? laneOffset(0.2) : absSpeed(5, "linear", "time", 0.35)), trig(simTimeCond(T2)))));
    Run r(xml(d));
    int N = 13, k1 = first(T1, N), k2 = first(T2, N), first_end = k1 + 7;
    // the second starter takes over; on a tie event 2 is started after event 1
    for (int k = 0; k <= N; k++)
    {
        r.go(k == 0 ? 0 : DT);
        int now = k == 0 ? 0 : k - 1;
        VF_ASSERT("started1", (count("e1", SE::RUNNING) == 1) == (now >= k1));
        VF_ASSERT("started2", (count("e2", SE::RUNNING) == 1) == (now >= k2));
        if (kind == 0)
        {
            if (k2 >= k1 && now >= k2) VF_ASSERT("e1_ended", r.ev("e1") == SE::COMPLETE);
            if (k2 < k1 && now >= k1) VF_ASSERT("e2_ended", r.ev("e2") == SE::COMPLETE);
            if (k2 >= k1 && now >= k2 + 4) VF_NEAR("speed2", r.obj(0)->GetSpeed(), 5, 1e-6);
            if (k2 < k1 && now >= k1 + 7) VF_NEAR("speed1", r.obj(0)->GetSpeed(), 20, 1e-6);
        }
        else
        {
            if (now >= k1 && now < first_end - 1) VF_ASSERT("e1_unharmed", r.ev("e1") == SE::RUNNING);
            if (now >= first_end) VF_NEAR("speed", r.obj(0)->GetSpeed(), 20, 1e-6);
        }
    }
}
VF_CASE(init_conflict)
{
    // an ongoing init action ends when an event takes over its domain, and only then
    int    kind = vf_int("kind", 0, 1);
    double T = offgrid("T", 0.05, 0.45), v2 = vf_double("v2", 1, 30);
    Doc    d = base();
    d.ents[0].init += absSpeed(20, "linear", "time", 0.65);
    d.story = act("a", mgroup("g", "Ego", event("e", action("y", kind ? laneOffset(0.2) : absSpeed(v2, "linear", "time", 0.35)), trig(simTimeCond(T)))));
    Run r(xml(d));
    for (int k = 0; k <= 12; k++) r.go(k == 0 ? 0 : DT);
    VF_NEAR("speed", r.obj(0)->GetSpeed(), kind ? 20 : v2, 1e-6);
}
VF_CASE(state_condition)
{
    // an event waiting for a state or transition of another one, before or after it in the document
    static const char* S[] = {"runningState", "completeState", "startTransition", "endTransition"};
    int    s = vf_int("state", 0, 3), before = vf_int("before", 0, 1);
    double T = offgrid("T", 0.05, 0.45);
    std::string c = std::string("<Condition name=\"c\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><StoryboardElementStateCondition storyboardElementType=\"event\" storyboardElementRef=\"e1\" state=\"") + S[s] + "\"/></ByValueCondition></Condition>";
    std::string e1 = event("e1", action("x", absSpeed(20, "linear", "time", 0.35)), trig(simTimeCond(T)), "parallel"), e2 = event("e2", action("y", laneOffset(0.05)), trig(c), "parallel");
    Doc d = base();
    d.story = act("a", mgroup("g", "Ego", before ? e2 + e1 : e1 + e2));
    Run r(xml(d));
    int N = 11;
    for (int k = 0; k <= N; k++)
    {
        r.go(k == 0 ? 0 : DT);
        int w = when("e1", s == 0 || s == 2 ? SE::RUNNING : SE::COMPLETE);
        if (w < 0) VF_ASSERT("waits", count("e2", SE::RUNNING) == 0);
        if (w >= 0 && k > w) VF_ASSERT("starts", count("e2", SE::RUNNING) == 1);
    }
    VF_ASSERT("once", count("e2", SE::RUNNING) == 1);
}
VF_CASE(act_start)
{
    double TA = offgrid("TA", -0.05, 0.55), T = offgrid("T", -0.05, 0.55);
    Doc    d  = base();
    d.story   = act("a", mgroup("g", "Ego", event("e", action("x", absSpeed(20, "linear", "time", 0.15)), trig(simTimeCond(T)))), trig(simTimeCond(TA)));
    Run r(xml(d));
    int N = 8, ka = first(TA, N), ke = first(T, N), ks = ka > ke ? ka : ke;
    for (int k = 0; k <= N; k++)
    {
        r.go(k == 0 ? 0 : DT);
        int now = k == 0 ? 0 : k - 1;
        if (now < ka) VF_ASSERT("act_waits", r.el(SE::ACT, "a")->GetCurrentState() == SE::STANDBY);
        VF_ASSERT("event", (count("e", SE::RUNNING) == 1) == (now >= ks));
    }
}
VF_CASE(two_acts)
{
    // the story is complete exactly when all of its acts are
    double T1 = offgrid("T1", -0.05, 0.55), T2 = offgrid("T2", -0.05, 0.55);
    Doc    d  = base();
    d.story   = act("a1", mgroup("g1", "Ego", event("e1", action("x", absSpeed(20, "linear", "time", 0.15)), trig(simTimeCond(T1))))) + act("a2", mgroup("g2", "Ego", event("e2", action("y", laneOffset(0.01)), trig(simTimeCond(T2)))));
    Run r(xml(d));
    for (int k = 0; k <= 13; k++)
    {
        r.go(k == 0 ? 0 : DT);
        for (int i = 1; i <= 2; i++)
        {
            std::string n = std::to_string(i);
            bool        c = r.ev("e" + n) == SE::COMPLETE;
            VF_ASSERT("act", (r.el(SE::ACT, "a" + n)->GetCurrentState() == SE::COMPLETE) == c);
            VF_ASSERT("group", (r.el(SE::MANEUVER_GROUP, "g" + n)->GetCurrentState() == SE::COMPLETE) == c);
        }
        VF_ASSERT("story", (r.el(SE::STORY, "story")->GetCurrentState() == SE::COMPLETE) == (r.ev("e1") == SE::COMPLETE && r.ev("e2") == SE::COMPLETE));
    }
    VF_ASSERT("done", r.el(SE::STORY, "story")->GetCurrentState() == SE::COMPLETE);
}
VF_CASE(sim_time)
{
    Doc d = base();
    Run r(xml(d));
    double t = 0;
    r.go(0);
    for (int i = 0; i < 4; i++)
    {
        char n[8];
        snprintf(n, sizeof n, "dt%d", i);
        double dt = vf_double(n, 0.001, 2);
        r.go(dt);
        t += dt;
        VF_NEAR("time", r.se->getSimulationTime(), t, 1e-9);
        VF_NEAR("s", r.obj(0)->pos_.GetS(), 50 + 10 * t, 1e-6);
    }
}
