// C11: triggers: edge, delay, condition groups, comparison rules
#include "scenario.h"
using namespace osc;
using namespace scenarioengine;
// a condition whose raw value is scripted; edge, delay and history are the real code's
struct Script : OSCCondition
{
    std::vector<int> raw;
    size_t           at = 0;
    Script() : OSCCondition(BY_VALUE) { name_ = "script"; }
    bool        CheckCondition(double) override { return raw[at++] != 0; }
    std::string GetAdditionalLogInfo() override { return ""; }
};
static int  g_calls;
static void onCondition(const char*, double) { g_calls++; }
// raw values given by the bits of mask
static std::vector<int> bits(int mask, int n)
{
    std::vector<int> v;
    for (int i = 0; i < n; i++) v.push_back((mask >> i) & 1);
    return v;
}
static bool edgeOf(int edge, const std::vector<int>& r, int i)
{
    if (edge == OSCCondition::NONE) return r[i] != 0;
    if (i == 0) return false;
    if (edge == OSCCondition::RISING) return r[i] && !r[i - 1];
    if (edge == OSCCondition::FALLING) return !r[i] && r[i - 1];
    return r[i] != r[i - 1];
}
static void edgeDelay(int edge, int n)
{
    int              mask = vf_int("raw", 0, (1 << n) - 1);
    double           d    = vf_double("delay", 0, 2.5);
    std::vector<double> t = {0};
    for (int i = 1; i < n; i++) t.push_back(t[i - 1] + vf_double(("dt" + std::to_string(i)).c_str(), 0.05, 1));
    Script c;
    c.raw   = bits(mask, n);
    c.edge_ = static_cast<OSCCondition::ConditionEdge>(edge);
    c.delay_ = d;
    OSCCondition::conditionCallback = onCondition;
    g_calls = 0;
    int  last = -1;   // newest sample whose delayed time has come
    bool was = false;
    for (int i = 0; i < n; i++)
    {
        bool got = c.Evaluate(t[i]);
        int  now = last;
        while (now < i)
        {
            double diff = t[i] - d - t[now + 1];
            VF_ASSUME(diff > 1e-4 || diff < -1e-4);
            if (diff < 0) break;
            now++;
        }
        bool want = now >= 0 && edgeOf(edge, c.raw, now);
        for (int j = last + 1; j <= now; j++) want = want || (edgeOf(edge, c.raw, j) && !(j > 0 && edgeOf(edge, c.raw, j - 1)));
        VF_ASSERT("value", got == want);
        VF_ASSERT("stored", c.GetValue() == got);
        int calls = g_calls;
        g_calls   = 0;
        VF_ASSERT("callback", calls == (want && !was ? 1 : 0));
        was  = want;
        last = now;
    }
}
VF_CASE(delay_none) { edgeDelay(OSCCondition::NONE, vf_thorough() ? 5 : 4); }
VF_CASE(delay_rising) { edgeDelay(OSCCondition::RISING, vf_thorough() ? 5 : 4); }
VF_CASE(delay_falling) { edgeDelay(OSCCondition::FALLING, vf_thorough() ? 5 : 4); }
VF_CASE(delay_both) { edgeDelay(OSCCondition::RISING_OR_FALLING, vf_thorough() ? 5 : 4); }
// no delay: the edge itself, at once
VF_CASE(edges)
{
    int    n = vf_thorough() ? 8 : 6;
    int    edge = vf_int("edge", 0, 3), mask = vf_int("raw", 0, (1 << n) - 1);
    Script c;
    c.raw   = bits(mask, n);
    c.edge_ = static_cast<OSCCondition::ConditionEdge>(edge);
    for (int i = 0; i < n; i++) VF_ASSERT("edge", c.Evaluate(0.1 * i) == edgeOf(edge, c.raw, i));
}
// a trigger holds when all conditions of one of its groups hold; after it fired, edges count anew
VF_CASE(groups)
{
    int     n = 3;
    int     m[4];
    Trigger tr(false);
    Script* c[4];
    double  delay[4] = {0, 0.25, 0, 0.15};
    for (int g = 0; g < 2; g++)
    {
        tr.conditionGroup_.push_back(new ConditionGroup);
        for (int k = 0; k < 2; k++)
        {
            int i = 2 * g + k;
            m[i]  = vf_int(("raw" + std::to_string(i)).c_str(), 0, (1 << n) - 1);
            c[i]  = new Script;
            c[i]->raw = bits(m[i], n);
            c[i]->delay_ = delay[i];
            tr.conditionGroup_[g]->condition_.push_back(c[i]);
        }
    }
    double dt = 0.2;
    for (int s = 0; s < n; s++)
    {
        bool want[4];
        for (int i = 0; i < 4; i++)
        {
            int lag = delay[i] == 0 ? 0 : (delay[i] > dt ? 2 : 1);
            want[i] = s >= lag && ((m[i] >> (s - lag)) & 1);
        }
        // a condition without delay is read only when its predecessors in the group hold
        for (int i = 0; i < 4; i += 2) c[i]->at = s;
        VF_ASSERT("or_of_and", tr.Evaluate(dt * s) == ((want[0] && want[1]) || (want[2] && want[3])));
    }
}
VF_CASE(rearm)
{
    // rising edge trigger: fires, must not fire again until the value has been false and true again
    int     n = vf_thorough() ? 9 : 7, mask = vf_int("raw", 0, (1 << n) - 1);
    Trigger tr(false);
    Script* c = new Script;
    c->raw    = bits(mask, n);
    c->edge_  = OSCCondition::RISING;
    tr.conditionGroup_.push_back(new ConditionGroup);
    tr.conditionGroup_[0]->condition_.push_back(c);
    for (int s = 0; s < n; s++) VF_ASSERT("rising", tr.Evaluate(0.1 * s) == edgeOf(OSCCondition::RISING, c->raw, s));
}
VF_CASE(empty)
{
    Trigger a(false), b(true);
    double  t = vf_double("t", 0, 100);
    VF_ASSERT("default_false", !a.Evaluate(t));
    VF_ASSERT("default_true", b.Evaluate(t));
    Trigger e(true);
    e.conditionGroup_.push_back(new ConditionGroup);
    VF_ASSERT("empty_group", !e.Evaluate(t));
}
static const char* RULES[] = {"greaterThan", "lessThan", "equalTo", "greaterOrEqual", "lessOrEqual", "notEqualTo"};
static bool compare(int rule, double a, double b)
{
    switch (rule) { case 0: return a > b; case 1: return a < b; case 2: return a == b; case 3: return a >= b; case 4: return a <= b; }
    return a != b;
}
static Doc base()
{
    Doc d;
    d.xodr = writeRoad(odr::doc({straight()}));
    Ent e;
    e.name = "Ego";
    e.init = teleport(lanePos(0, -1, 50)) + absSpeed(10);
    d.ents = {e};
    d.minor = 2;
    return d;
}
static std::string byValue(const std::string& inner, const char* edge = "none", double delay = 0)
{
    return "<Condition name=\"c\" delay=\"" + N(delay) + "\" conditionEdge=\"" + edge + "\"><ByValueCondition>" + inner + "</ByValueCondition></Condition>";
}
static std::string setVar(const char* name, const std::string& v)
{
    return "<GlobalAction><VariableAction variableRef=\"" + std::string(name) + "\"><SetAction value=\"" + v + "\"/></VariableAction></GlobalAction>";
}
static int state(Engine& r, const char* ev)
{
    return r.se->storyBoard.FindChildByTypeAndName(StoryBoardElement::EVENT, ev)[0]->GetCurrentState();
}
static Event* evt(Engine& r, const char* ev) { return static_cast<Event*>(r.se->storyBoard.FindChildByTypeAndName(StoryBoardElement::EVENT, ev)[0]); }
// simulation time condition with every rule, edge and delay, from the document to the event
static void simTime(const char* edge, int e)
{
    int    rule = vf_int("rule", 0, 3);
    if (rule == 2) rule = 4;
    double T = vf_double("T", -0.15, 0.45), D = vf_int("delayed", 0, 1) ? vf_double("delay", 0.01, 0.4) : 0.0;
    int    n = 9;
    double dt = 0.1;
    for (int k = 0; k < n; k++) VF_ASSUME(T < k * dt - 1e-4 || T > k * dt + 1e-4);
    if (D > 0) for (int k = 1; k < n; k++) VF_ASSUME(D < k * dt - 1e-4 || D > k * dt + 1e-4);
    Doc d = base();
    d.story = act("a", mgroup("g", "Ego", event("e", action("x", absSpeed(20)), trig(simTimeCond(T, RULES[rule], D, edge)))));
    Engine r(xml(d));
    std::vector<int> raw;
    int  fired = -1;
    for (int k = 0; k < n; k++)
    {
        r.step(k == 0 ? 0 : dt);
        if (fired < 0 && state(r, "e") != StoryBoardElement::STANDBY) fired = k;
    }
    // storyboard evaluations: step 0 and 1 at time 0, step k at (k - 1) * dt
    for (int k = 0; k < n; k++) raw.push_back(compare(rule, k == 0 ? 0 : (k - 1) * dt, T));
    int want = -1;
    for (int k = 0; k < n && want < 0; k++)
    {
        double now = (k == 0 ? 0 : (k - 1) * dt) - D;
        for (int j = k; j >= 0; j--)
        {
            if (now < (j == 0 ? 0 : (j - 1) * dt)) continue;
            if (edgeOf(e, raw, j)) want = k;
            break;
        }
    }
    VF_ASSERT("fires", fired == want);
}
VF_CASE(time_none) { simTime("none", OSCCondition::NONE); }
VF_CASE(time_rising) { simTime("rising", OSCCondition::RISING); }
VF_CASE(time_falling) { simTime("falling", OSCCondition::FALLING); }
VF_CASE(time_both) { simTime("risingOrFalling", OSCCondition::RISING_OR_FALLING); }
// parameter and variable conditions compare by the declared type
static void valueCond(bool variable, const char* type, const std::string& a, const std::string& b, int rule, bool want)
{
    Doc         d    = base();
    std::string decl = variable ? "VariableDeclaration" : "ParameterDeclaration", ref = variable ? "variableRef" : "parameterRef", el = variable ? "VariableCondition" : "ParameterCondition";
    (variable ? d.variables : d.params) = "<" + decl + " name=\"v\" " + (variable ? "variableType" : "parameterType") + "=\"" + type + "\" value=\"" + a + "\"/>";
    d.story = act("a", mgroup("g", "Ego", event("e", action("x", absSpeed(20)), trig(byValue("<" + el + " " + ref + "=\"v\" value=\"" + b + "\" rule=\"" + RULES[rule] + "\"/>")))));
    Engine r(xml(d));
    r.step(0);
    r.step(0.1);
    r.step(0.1);
    VF_ASSERT("compare", (state(r, "e") != StoryBoardElement::STANDBY) == want);
    VF_NEAR("effect", r.obj(0)->GetSpeed(), want ? 20 : 10, 1e-9);
}
VF_CASE(double_rule)
{
    double a = vf_double("a", -100, 100), b = vf_double("b", -100, 100);
    int    rule = vf_int("rule", 0, 5), var = vf_int("variable", 0, 1);
    if (rule == 2 || rule == 5)
    {
        if (vf_int("same", 0, 1)) b = a;
        else VF_ASSUME(a > b + 1e-4 || a < b - 1e-4);
    }
    else VF_ASSUME(a > b + 1e-4 || a < b - 1e-4);
    valueCond(var, "double", N(a), N(b), rule, compare(rule, a, b));
}
VF_CASE(int_rule)
{
    int a = vf_int("a", -1, 1), b = vf_int("b", -1, 1), rule = vf_int("rule", 0, 5);
    valueCond(vf_int("variable", 0, 1), "integer", std::to_string(a), std::to_string(b), rule, compare(rule, a, b));
}
VF_CASE(bool_rule)
{
    int a = vf_int("a", 0, 1), b = vf_int("b", 0, 1), rule = vf_int("rule", 0, 5);
    valueCond(vf_int("variable", 0, 1), "boolean", a ? "true" : "false", b ? "true" : "false", rule, compare(rule, a, b));
}
VF_CASE(string_rule)
{
    static const char* S[] = {"alpha", "beta", "betamax"};
    int a = vf_int("a", 0, 2), b = vf_int("b", 0, 2), rule = vf_int("rule", 0, 5);
    valueCond(vf_int("variable", 0, 1), "string", S[a], S[b], rule, compare(rule, a, b));
}
// equality and order exclude each other whatever the values
VF_CASE(rule_algebra)
{
    double a = vf_double("a", -100, 100), b = vf_double("b", -100, 100);
    Doc d = base();
    d.variables = "<VariableDeclaration name=\"v\" variableType=\"double\" value=\"" + N(a) + "\"/>";
    std::string ev;
    for (int i = 0; i < 6; i++)
        ev += event("e" + std::to_string(i), action("x" + std::to_string(i), setVar("v", N(a))), trig(byValue("<VariableCondition variableRef=\"v\" value=\"" + N(b) + "\" rule=\"" + RULES[i] + "\"/>")), "parallel");
    d.story = act("a", mgroup("g", "Ego", ev));
    Engine r(xml(d));
    r.step(0); r.step(0.1);
    bool t[6];
    for (int i = 0; i < 6; i++) t[i] = state(r, ("e" + std::to_string(i)).c_str()) != StoryBoardElement::STANDBY;
    VF_ASSERT("gt_le", t[0] != t[4]);
    VF_ASSERT("lt_ge", t[1] != t[3]);
    VF_ASSERT("eq_ne", t[2] != t[5]);
    VF_ASSERT("gt_ge", !t[0] || t[3]);
    VF_ASSERT("lt_le", !t[1] || t[4]);
    VF_ASSERT("gt_lt", !(t[0] && t[1]));
    VF_ASSERT("eq", t[2] ? (t[3] && t[4]) : true);
    if (a == b) VF_ASSERT("same", t[2] && !t[0] && !t[1]);
    if (a > b + 1e-5) VF_ASSERT("above", t[0] && t[5]);
    if (a < b - 1e-5) VF_ASSERT("below", t[1] && t[5]);
}
// variable actions take effect for the conditions evaluated afterwards
VF_CASE(variable_actions)
{
    double a = vf_double("a", -10, 10), s = vf_double("set", -10, 10), add = vf_double("add", -10, 10), mul = vf_double("mul", -3, 3), lim = vf_double("lim", -60, 60);
    int    kind = vf_int("kind", 0, 2);
    Doc d = base();
    d.variables = "<VariableDeclaration name=\"v\" variableType=\"double\" value=\"" + N(a) + "\"/>";
    std::string ga = kind == 0 ? setVar("v", N(s)) : std::string("<GlobalAction><VariableAction variableRef=\"v\"><ModifyAction><Rule>") +
                     (kind == 1 ? "<AddValue value=\"" + N(add) + "\"/>" : "<MultiplyByValue value=\"" + N(mul) + "\"/>") + "</Rule></ModifyAction></VariableAction></GlobalAction>";
    d.story = act("a", mgroup("g", "Ego", event("set", action("x", ga), trig(simTimeCond(0.15)))) +
                       mgroup("h", "Ego", event("e", action("y", absSpeed(20)), trig(byValue("<VariableCondition variableRef=\"v\" value=\"" + N(lim) + "\" rule=\"greaterThan\"/>")))));
    double after = kind == 0 ? s : kind == 1 ? a + add : a * mul;
    VF_ASSUME(a > lim + 1e-4 || a < lim - 1e-4);
    VF_ASSUME(after > lim + 1e-4 || after < lim - 1e-4);
    Engine r(xml(d));
    for (int k = 0; k < 3; k++) r.step(k ? 0.1 : 0);
    VF_ASSERT("before", (state(r, "e") != StoryBoardElement::STANDBY) == (a > lim));
    for (int k = 0; k < 3; k++) r.step(0.1);
    VF_ASSERT("after", (state(r, "e") != StoryBoardElement::STANDBY) == (a > lim || after > lim));
    VF_ASSERT("set_ran", state(r, "set") == StoryBoardElement::COMPLETE);
}
