// C19: parameters, expressions, variables and parameter distributions
#include "scenario.h"
#include "Parameters.hpp"
#include "ScenarioReader.hpp"
#include "OSCParameterDistribution.hpp"
#include <set>
using namespace osc;
using namespace scenarioengine;
static std::string decl(const std::string& n, const char* type, const std::string& v) { return "<ParameterDeclaration name=\"" + n + "\" parameterType=\"" + type + "\" value=\"" + v + "\"/>"; }
static Parameters& P() { return ScenarioReader::parameters; }
static void declare(const std::string& body, bool scope = false)
{
    pugi::xml_document d;
    d.load_string(("<ParameterDeclarations>" + body + "</ParameterDeclarations>").c_str());
    if (scope) P().addParameterDeclarations(d.child("ParameterDeclarations"));
    else P().parseGlobalParameterDeclarations(d.child("ParameterDeclarations"));
}
static std::string attr(const std::string& v)
{
    pugi::xml_document d;
    d.load_string("<x/>");
    d.child("x").append_attribute("a").set_value(v.c_str());
    return P().ReadAttribute(d.child("x"), "a");
}
static double num(const std::string& v) { return strtod(attr(v)); }
// std::to_string keeps six decimals
#define EQ6(label, a, b) VF_NEAR(label, a, b, 2e-6)
VF_CASE(plain)
{
    double a = vf_double("a", 0, 1000);
    int    neg = vf_int("neg", 0, 1);
    P().Clear();
    std::string t = (neg ? "-" : "") + N(a);
    declare(decl("p", "double", t) + decl("n", "integer", "7") + decl("s", "string", "hello") + decl("b", "boolean", "true") + decl("pp", "double", "3"));
    double v = 0;
    int    n = 0;
    bool   b = false;
    const char* s = nullptr;
    VF_NEAR("attr", num("$p"), neg ? -a : a, 1e-9);
    VF_ASSERT("str", attr("$s") == "hello" && attr("$b") == "true" && attr("$n") == "7" && attr("$pp") == "3" && attr("plain") == "plain");
    VF_ASSERT("get", P().getParameterValueDouble("p", v) == 0 && P().getParameterValueInt("n", n) == 0 && P().getParameterValueBool("b", b) == 0 && P().getParameterValueString("s", s) == 0);
    VF_NEAR("value", v, neg ? -a : a, 1e-9);
    VF_ASSERT("values", n == 7 && b && std::string(s) == "hello");
    VF_ASSERT("wrong_type", P().getParameterValueInt("p", n) != 0 && P().getParameterValueDouble("n", v) != 0 && P().getParameterValueDouble("nope", v) != 0);
}
// a value set by the user: read back exactly, seen by attributes, and not overridden by a later declaration
VF_CASE(set_value)
{
    double a = vf_double("a", -1000, 1000), d = vf_double("d", 1, 9), v = 0;
    int    i = vf_int("i", -2, 2), n = 0;
    P().Clear();
    declare(decl("p", "double", N(d)) + decl("q", "double", N(d)) + decl("n", "integer", "7") + decl("b", "boolean", "false") + decl("s", "string", "x"));
    VF_ASSERT("set", P().setParameterValue("p", a) == 0 && P().setParameterValue("n", i) == 0 && P().setParameterValue("b", true) == 0 && P().setParameterValue("s", "y") == 0);
    VF_ASSERT("reject", P().setParameterValue("p", i) != 0 && P().setParameterValue("n", a) != 0 && P().setParameterValue("zz", a) != 0);
    P().getParameterValueDouble("p", v);
    VF_NEAR("p", v, a, 1e-9);
    P().getParameterValueInt("n", n);
    VF_ASSERT("n", n == i);
    EQ6("attr", num("$p"), a);
    VF_ASSERT("attr_n", attr("$n") == std::to_string(i) && attr("$b") == "true" && attr("$s") == "y");
    declare(decl("p", "double", "555") + decl("q", "double", "77") + decl("n", "integer", "9"));
    P().getParameterValueDouble("p", v);
    VF_NEAR("kept", v, a, 1e-9);
    EQ6("attr_kept", num("$p"), a);
    VF_ASSERT("n_kept", attr("$n") == std::to_string(i));
    VF_NEAR("shadowed", num("$q"), 77, 1e-9);
}
// local declarations shadow global ones, in any nesting, and are gone afterwards
VF_CASE(scopes)
{
    double g = vf_double("g", 1, 100), l1 = vf_double("l1", 1, 100), l2 = vf_double("l2", 1, 100), as = vf_double("as", 1, 100);
    P().Clear();
    declare(decl("p", "double", N(g)) + decl("q", "double", "5"));
    declare(decl("p", "double", N(l1)), true);
    VF_NEAR("inner", num("$p"), l1, 1e-9);
    declare(decl("q", "double", N(l2)) + decl("r", "double", "$p"), true);
    VF_NEAR("q", num("$q"), l2, 1e-9);
    VF_NEAR("p_seen", num("$p"), l1, 1e-9);
    VF_NEAR("r", num("$r"), l1, 1e-9);
    EQ6("mixed", num("${$p + 2 * $q}"), l1 + 2 * l2);
    P().RestoreParameterDeclarations();
    VF_NEAR("q_back", num("$q"), 5, 1e-9);
    VF_NEAR("p_still", num("$p"), l1, 1e-9);
    VF_ASSERT("r_gone", P().getParameterEntry("r") == nullptr);
    P().RestoreParameterDeclarations();
    VF_NEAR("p_back", num("$p"), g, 1e-9);
    VF_ASSERT("count", P().GetNumberOfParameters() == 2);
    // assignments of a catalog reference override the declared default, the most recent one counts
    OSCParameterDeclarations::ParameterStruct ps;
    ps.name = "p"; ps.value._string = "1000"; P().catalog_param_assignments.push_back(ps);
    ps.value._string = N(as); P().catalog_param_assignments.push_back(ps);
    declare(decl("p", "double", "3") + decl("z", "double", "4"), true);
    VF_NEAR("assigned", num("$p"), as, 1e-9);
    double v = 0;
    P().getParameterValueDouble("p", v);
    VF_NEAR("assigned_value", v, as, 1e-9);
    VF_NEAR("default", num("$z"), 4, 1e-9);
    P().RestoreParameterDeclarations();
    VF_NEAR("p_back2", num("$p"), g, 1e-9);
    declare(decl("p", "double", "3"), true);
    VF_NEAR("assignment_gone", num("$p"), 3, 1e-9);
}
static void vars(double a, double b)
{
    P().Clear();
    declare(decl("a", "double", N(a)) + decl("b", "double", N(b)) + decl("ab", "double", "4") + decl("m", "double", "-3.5"));
}
VF_CASE(arithmetic)
{
    double a = vf_double("a", 0.5, 100), b = vf_double("b", 0.5, 100);
    vars(a, b);
    EQ6("sum", num("${$a + $b}"), a + b);
    EQ6("prec", num("${$a + $b * 2}"), a + b * 2);
    EQ6("paren", num("${($a + $b) * 2}"), (a + b) * 2);
    EQ6("left", num("${$a - $b - 1}"), a - b - 1);
    EQ6("right", num("${$a - ($b - 1)}"), a - (b - 1));
    EQ6("div", num("${$a / 4 / 2}"), a / 8);
    EQ6("muldiv", num("${$a * 3 / 4 + 1.5 * $b}"), a * 0.75 + 1.5 * b);
    EQ6("neg", num("${-$a + 30.25}"), 30.25 - a);
    EQ6("names", num("${$ab+$a*$b-$ab*$ab}"), 4 + a * b - 16);
    EQ6("negpar", num("${$a+$m*2}"), a - 7);
    EQ6("minusneg", num("${$a - $m}"), a + 3.5);
    EQ6("parneg", num("${$m + $a}"), a - 3.5);
    EQ6("pi", num("${$a * pi}"), a * M_PI);
    EQ6("pow", num("${$a ** 2}"), a * a);
    EQ6("powprec", num("${2 * $a ** 2}"), 2 * a * a);
}
VF_CASE(division)
{
    double a = vf_double("a", 1, 50), b = vf_double("b", 1, 50);
    vars(a, b);
    EQ6("div", num("${$a / $b}"), a / b);
    EQ6("divmul", num("${$a / $b * 2}"), a / b * 2);
    EQ6("div2", num("${1 / ($a + $b)}"), 1 / (a + b));
}
VF_CASE(functions)
{
    double a = vf_double("a", 0.5, 9.5), b = vf_double("b", 0.5, 9.5);
    VF_ASSUME(fabs(a - b) > 1e-3 && fabs(a - 5) > 1e-3);
    for (int k = 1; k < 10; k++) VF_ASSUME((a < k - 1e-3 || a > k + 1e-3) && (a < k - 0.501 || a > k - 0.499));
    vars(a, b);
    EQ6("max", num("${max($a, $b)}"), a > b ? a : b);
    EQ6("min", num("${min($a, $b) + 1}"), (a < b ? a : b) + 1);
    EQ6("abs", num("${abs($a - 5)}"), a > 5 ? a - 5 : 5 - a);
    EQ6("sign", num("${sign($a - 5)}"), a > 5 ? 1 : -1);
    EQ6("floor", num("${floor($a)}"), floor(a));
    EQ6("ceil", num("${ceil($a)}"), ceil(a));
    EQ6("round", num("${round($a)}"), floor(a + 0.5));
}
VF_CASE(functions2)
{
    double a = vf_double("a", 0.5, 3);
    vars(a, 0.5);
    EQ6("sqrt", num("${sqrt($a)}") * num("${sqrt($a)}"), a);
    EQ6("pow", num("${pow($a, 2)}"), a * a);
    EQ6("sin", num("${sin($a)}"), sin(a));
    EQ6("cos", num("${cos($a) + 1}"), cos(a) + 1);
    EQ6("atan", num("${atan($a)}"), atan(a));
    EQ6("nested", num("${max(sin($a), 2 * $a) + min(1, $a + 5)}"), 2 * a + 1);
}
VF_CASE(logic)
{
    double a = vf_double("a", 0.5, 9.5), b = vf_double("b", 0.5, 9.5);
    VF_ASSUME(fabs(a - b) > 1e-3 && fabs(a - 5) > 1e-3 && fabs(b - 5) > 1e-3);
    vars(a, b);
    EQ6("lt", num("${$a < $b}"), a < b ? 1 : 0);
    EQ6("gt", num("${$a > $b}"), a > b ? 1 : 0);
    EQ6("and", num("${$a > 5 and $b > 5}"), a > 5 && b > 5 ? 1 : 0);
    EQ6("or", num("${$a > 5 or $b > 5}"), a > 5 || b > 5 ? 1 : 0);
    EQ6("not", num("${not($a > 5)}"), a > 5 ? 0 : 1);
    EQ6("sel", num("${($a > 5) * 10 + 3}"), a > 5 ? 13 : 3);
}
// the values arrive where they are used
static std::string varDecl(const char* n, const char* t, const std::string& v) { return std::string("<VariableDeclaration name=\"") + n + "\" variableType=\"" + t + "\" value=\"" + v + "\"/>"; }
static std::string varAct(const char* n, const std::string& a) { return std::string("<GlobalAction><VariableAction variableRef=\"") + n + "\">" + a + "</VariableAction></GlobalAction>"; }
static std::string setV(const std::string& v) { return "<SetAction value=\"" + v + "\"/>"; }
static std::string addV(const std::string& v) { return "<ModifyAction><Rule><AddValue value=\"" + v + "\"/></Rule></ModifyAction>"; }
static std::string mulV(const std::string& v) { return "<ModifyAction><Rule><MultiplyByValue value=\"" + v + "\"/></Rule></ModifyAction>"; }
static std::string ev(const char* n, const std::string& a, double t) { return event(n, action(std::string(n) + "a", a), trig(simTimeCond(t))); }
static std::string valCond(const char* kind, const char* ref, const std::string& v, const char* rule)
{
    return std::string("<Condition name=\"v\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><") + kind + "Condition " + (kind[0] == 'V' ? "variableRef" : "parameterRef") + "=\"" + ref + "\" value=\"" + v + "\" rule=\"" + rule + "\"/></ByValueCondition></Condition>";
}
VF_CASE(scenario)
{
    double v = vf_double("v", 1, 40), w = vf_double("w", 1, 20), s = vf_double("s", 10, 200);
    P().Clear();
    Ent e;
    e.name = "Ego";
    e.init = "<PrivateAction><TeleportAction><Position><LanePosition roadId=\"0\" laneId=\"-1\" s=\"${$s + 2 * $w}\" offset=\"0\"/></Position></TeleportAction></PrivateAction><PrivateAction><LongitudinalAction><SpeedAction>" + dyn("SpeedActionDynamics", "step", "time", 0) + "<SpeedActionTarget><AbsoluteTargetSpeed value=\"$v\"/></SpeedActionTarget></SpeedAction></LongitudinalAction></PrivateAction>";
    Doc d;
    d.params = decl("v", "double", N(v)) + decl("w", "double", N(w)) + decl("s", "double", "${$w + " + N(s) + "}");
    d.ents = {e};
    d.xodr = writeRoad(odr::doc({straight()}));
    Engine en(xml(d));
    en.step(0);
    VF_NEAR("speed", en.obj(0)->GetSpeed(), v, 1e-6);
    VF_NEAR("s", en.obj(0)->pos_.GetS(), s + 3 * w, 1e-5);
}
VF_CASE(variables)
{
    double x = vf_double("x", 1, 20), y = vf_double("y", -5, 5), z = vf_double("z", 0.5, 3), thr = vf_double("thr", -10, 60), v = 0;
    P().Clear();
    Ent e;
    e.name = "Ego";
    e.init = teleport(lanePos(0, -1, 50)) + absSpeed(10);
    Doc d;
    d.minor = 2;
    d.variables = varDecl("x", "double", N(x)) + varDecl("n", "integer", "3") + varDecl("b", "boolean", "false") + varDecl("st", "string", "off");
    d.ents = {e};
    d.xodr = writeRoad(odr::doc({straight()}));
    d.story = act("a", mgroup("g", "Ego",
                              ev("e1", varAct("x", addV(N(y))) , 0.05) + ev("e2", varAct("x", mulV(N(z))), 0.15) + ev("e3", varAct("n", addV("4")), 0.05) + ev("e4", varAct("n", mulV("-2")), 0.15) + ev("e5", varAct("b", setV("true")), 0.15) + ev("e6", varAct("st", setV("on")), 0.25) +
                                  event("t", action("ta", absSpeed(20)), trig(valCond("Variable", "x", N(thr), "greaterThan"))) + event("u", action("ua", varAct("n", setV("100"))), trig(valCond("Variable", "st", "on", "equalTo") + valCond("Variable", "b", "true", "equalTo") + valCond("Variable", "n", "-14", "equalTo")))));
    Engine en(xml(d));
    auto&  V  = ScenarioReader::variables;
    double r0 = x, r1 = x + y, r2 = (x + y) * z;
    VF_ASSUME(fabs(thr - r0) > 1e-3 && fabs(thr - r1) > 1e-3 && fabs(thr - r2) > 1e-3);
    bool        fired = false;
    int         n     = 0;
    const char* st    = nullptr;
    en.step(0);
    for (int i = 0; i < 6; i++)
    {
        double t = 0.1 * i;
        V.getParameterValueDouble("x", v);
        // the change is made within a step of its trigger time and stays until the next one
        auto   xs  = [&](double q) { return q > 0.15 ? r2 : q > 0.05 ? r1 : r0; };
        auto   ns  = [&](double q) { return q > 0.35 ? 100 : q > 0.15 ? -14 : q > 0.05 ? 7 : 3; };
        double w1 = xs(t), w0 = xs(t - 0.1);
        VF_ASSERT("x", fabs(v - w1) < 1e-6 || fabs(v - w0) < 1e-6);
        V.getParameterValueInt("n", n);
        VF_ASSERT("n", n == ns(t) || n == ns(t - 0.1));
        V.getParameterValueString("st", st);
        VF_ASSERT("st", t > 0.35 ? std::string(st) == "on" : t > 0.25 || std::string(st) == "off");
        // no reaction before the variable has got the value
        bool now = en.obj(0)->GetSpeed() > 15;
        if (now && !fired) VF_ASSERT("cause", r0 > thr || (t > 0.05 && r1 > thr) || (t > 0.15 && r2 > thr));
        fired = fired || now;
        en.step(0.1);
    }
    V.getParameterValueDouble("x", v);
    VF_NEAR("x_end", v, r2, 1e-6);
    V.getParameterValueInt("n", n);
    VF_ASSERT("n_end", n == 100);
    VF_ASSERT("fired", fired == (r0 > thr || r1 > thr || r2 > thr));
}
VF_CASE(parameter_action)
{
    double x = vf_double("x", 1, 20), y = vf_double("y", 1, 20), thr = vf_double("thr", 0, 21), v = 0;
    VF_ASSUME(fabs(thr - x) > 1e-3 && fabs(thr - y) > 1e-3);
    P().Clear();
    Ent e;
    e.name = "Ego";
    e.init = teleport(lanePos(0, -1, 50)) + absSpeed(10);
    Doc d;
    d.params = decl("x", "double", N(x)) + decl("k", "string", "a");
    d.ents = {e};
    d.xodr = writeRoad(odr::doc({straight()}));
    bool le = vf_int("less", 0, 1);
    d.story = act("a", mgroup("g", "Ego", ev("e1", "<GlobalAction><ParameterAction parameterRef=\"x\"><SetAction value=\"" + N(y) + "\"/></ParameterAction></GlobalAction>", 0.15) +
                                              event("t", action("ta", absSpeed(20)), trig(valCond("Parameter", "x", N(thr), le ? "lessThan" : "greaterThan")))));
    Engine en(xml(d));
    en.step(0);
    bool f0 = le ? x < thr : x > thr, f1 = le ? y < thr : y > thr;
    for (int i = 0; i < 2; i++) en.step(0.1);
    VF_ASSERT("first", (en.obj(0)->GetSpeed() > 15) == f0);
    P().getParameterValueDouble("x", v);
    VF_NEAR("x", v, x, 1e-9);
    for (int i = 0; i < 4; i++) en.step(0.1);
    VF_ASSERT("then", (en.obj(0)->GetSpeed() > 15) == (f0 || f1));
    P().getParameterValueDouble("x", v);
    VF_NEAR("x2", v, y, 1e-9);
    EQ6("attr", num("$x"), y);
}
// distributions: every combination exactly once
static std::string setDist(const char* n, std::vector<std::string> vs)
{
    std::string s = std::string("<DeterministicSingleParameterDistribution parameterName=\"") + n + "\"><DistributionSet>";
    for (auto& v : vs) s += "<Element value=\"" + v + "\"/>";
    return s + "</DistributionSet></DeterministicSingleParameterDistribution>";
}
static bool loadDist(OSCParameterDistribution& d, const std::string& body)
{
    char fn[64];
    snprintf(fn, sizeof fn, "dist_%d.xosc", int(getpid()));
    FILE* f = fopen(fn, "w");
    fputs(("<OpenSCENARIO><ParameterValueDistribution><ScenarioFile filepath=\"x.xosc\"/><Deterministic>" + body + "</Deterministic></ParameterValueDistribution></OpenSCENARIO>").c_str(), f);
    fclose(f);
    return d.Load(fn) == 0;
}
VF_CASE(permutations)
{
    int n1 = vf_int("n1", 1, 3), n2 = vf_int("n2", 1, 3), n3 = vf_int("n3", 1, 2);
    std::vector<std::string> a, b;
    for (int i = 0; i < n1; i++) a.push_back("a" + std::to_string(i));
    for (int i = 0; i < n2; i++) b.push_back("b" + std::to_string(i));
    std::string multi = "<DeterministicMultiParameterDistribution><ValueSetDistribution>";
    for (int i = 0; i < n3; i++) multi += "<ParameterValueSet><ParameterAssignment parameterRef=\"C\" value=\"c" + std::to_string(i) + "\"/><ParameterAssignment parameterRef=\"D\" value=\"d" + std::to_string(i) + "\"/></ParameterValueSet>";
    multi += "</ValueSetDistribution></DeterministicMultiParameterDistribution>";
    OSCParameterDistribution d;
    VF_ASSERT("load", loadDist(d, setDist("A", a) + multi + setDist("B", b)));
    VF_ASSERT("count", (int)d.GetNumPermutations() == n1 * n2 * n3);
    std::set<std::string> seen;
    for (int i = 0; i < n1 * n2 * n3; i++)
    {
        VF_ASSERT("next", d.IncrementIndex() == i && d.GetIndex() == i);
        VF_ASSERT("params", d.GetNumParameters() == 4);
        VF_ASSERT("names", d.GetParamName(0) == "A" && d.GetParamName(3) == "B" && d.GetParamName(1) == "C" && d.GetParamName(2) == "D");
        std::string A = d.GetParamValue(0), B = d.GetParamValue(3), C = d.GetParamValue(1), D = d.GetParamValue(2);
        VF_ASSERT("values", A.size() == 2 && A[0] == 'a' && A[1] - '0' < n1 && B.size() == 2 && B[0] == 'b' && B[1] - '0' < n2 && C.size() == 2 && C[0] == 'c' && C[1] - '0' < n3 && D.size() == 2 && D[0] == 'd' && D[1] == C[1]);
        seen.insert(A + B + C);
    }
    VF_ASSERT("all", (int)seen.size() == n1 * n2 * n3);
    VF_ASSERT("over", d.IncrementIndex() < 0 && d.GetIndex() == n1 * n2 * n3 - 1);
    VF_ASSERT("range", d.SetIndex(n1 * n2 * n3) != 0 && d.SetIndex(0) == 0 && d.GetParamValue(0) == "a0");
}
VF_CASE(range)
{
    double lo = vf_double("lo", -5, 5), span = vf_double("span", 0, 4), st = vf_double("st", 0.9, 3);
    OSCParameterDistribution d;
    double hi = lo + span;
    for (int k = 0; k < 6; k++) VF_ASSUME(fabs(span - k * st) > 1e-4 || k == 0);
    VF_ASSUME(span > 1e-4);
    VF_ASSERT("load", loadDist(d, "<DeterministicSingleParameterDistribution parameterName=\"A\"><DistributionRange stepWidth=\"" + N(st) + "\"><Range lowerLimit=\"" + N(lo) + "\" upperLimit=\"" + N(hi) + "\"/></DistributionRange></DeterministicSingleParameterDistribution>"));
    int n = 1;
    while (n * st < span) n++;
    VF_ASSERT("count", (int)d.GetNumPermutations() == n);
    for (int i = 0; i < n; i++)
    {
        VF_ASSERT("next", d.IncrementIndex() == i);
        EQ6("value", strtod(d.GetParamValue(0)), lo + i * st);
    }
}
