// Shared helpers: OpenSCENARIO documents whose numbers may be symbolic, run through the real ScenarioEngine.
#pragma once
#include "common.h"
#include "ScenarioEngine.hpp"
#include "pugixml.hpp"
#include <memory>
#include <functional>
#include <unistd.h>

namespace osc
{
    using odr::N;
    inline std::string perf(double maxSpeed, double maxDec, double maxAcc)
    {
        return "<Performance maxSpeed=\"" + N(maxSpeed) + "\" maxDeceleration=\"" + N(maxDec) + "\" maxAcceleration=\"" + N(maxAcc) + "\"/>";
    }
    struct Box { double cx = 1.4, cy = 0, cz = 0.75, w = 2, l = 5, h = 1.5; };
    struct Ent
    {
        std::string name;
        std::string perf_   = perf(70, 10, 10);
        Box         box;
        std::string init;        // private init actions
        std::string controller;  // ObjectController element
        std::string props;
        double      frontX = 3.1;
    };
    inline std::string entity(const Ent& e)
    {
        return "<ScenarioObject name=\"" + e.name + "\"><Vehicle name=\"car\" vehicleCategory=\"car\"><ParameterDeclarations/>" + e.perf_ +
               "<BoundingBox><Center x=\"" + N(e.box.cx) + "\" y=\"" + N(e.box.cy) + "\" z=\"" + N(e.box.cz) + "\"/><Dimensions width=\"" + N(e.box.w) + "\" length=\"" + N(e.box.l) +
               "\" height=\"" + N(e.box.h) + "\"/></BoundingBox><Axles><FrontAxle maxSteering=\"0.5\" wheelDiameter=\"0.6\" trackWidth=\"1.8\" positionX=\"" + N(e.frontX) +
               "\" positionZ=\"0.3\"/><RearAxle maxSteering=\"0.0\" wheelDiameter=\"0.6\" trackWidth=\"1.8\" positionX=\"0\" positionZ=\"0.3\"/></Axles><Properties>" + e.props +
               "</Properties></Vehicle>" + e.controller + "</ScenarioObject>";
    }
    inline std::string lanePos(int road, int lane, double s, double off = 0, const std::string& orient = "")
    {
        return "<Position><LanePosition roadId=\"" + std::to_string(road) + "\" laneId=\"" + std::to_string(lane) + "\" s=\"" + N(s) + "\" offset=\"" + N(off) + "\">" + orient + "</LanePosition></Position>";
    }
    inline std::string worldPos(double x, double y, double h)
    {
        return "<Position><WorldPosition x=\"" + N(x) + "\" y=\"" + N(y) + "\" h=\"" + N(h) + "\"/></Position>";
    }
    inline std::string teleport(const std::string& pos) { return "<PrivateAction><TeleportAction>" + pos + "</TeleportAction></PrivateAction>"; }
    inline std::string dyn(const char* tag, const char* shape, const char* dim, double v)
    {
        return std::string("<") + tag + " dynamicsShape=\"" + shape + "\" dynamicsDimension=\"" + dim + "\" value=\"" + N(v) + "\"/>";
    }
    inline std::string absSpeed(double v, const char* shape = "step", const char* dim = "time", double val = 0)
    {
        return "<PrivateAction><LongitudinalAction><SpeedAction>" + dyn("SpeedActionDynamics", shape, dim, val) + "<SpeedActionTarget><AbsoluteTargetSpeed value=\"" + N(v) + "\"/></SpeedActionTarget></SpeedAction></LongitudinalAction></PrivateAction>";
    }
    inline std::string simTimeCond(double t, const char* rule = "greaterThan", double delay = 0, const char* edge = "none")
    {
        return "<Condition name=\"c\" delay=\"" + N(delay) + "\" conditionEdge=\"" + edge + "\"><ByValueCondition><SimulationTimeCondition value=\"" + N(t) + "\" rule=\"" + rule + "\"/></ByValueCondition></Condition>";
    }
    inline std::string trig(const std::string& cond, const char* tag = "StartTrigger") { return std::string("<") + tag + "><ConditionGroup>" + cond + "</ConditionGroup></" + tag + ">"; }
    inline std::string action(const std::string& name, const std::string& a) { return "<Action name=\"" + name + "\">" + a + "</Action>"; }
    inline std::string event(const std::string& name, const std::string& actions, const std::string& trigger, const char* prio = "overwrite", int maxExec = 1)
    {
        return "<Event name=\"" + name + "\" priority=\"" + prio + "\" maximumExecutionCount=\"" + std::to_string(maxExec) + "\">" + actions + trigger + "</Event>";
    }
    inline std::string mgroup(const std::string& name, const std::string& actor, const std::string& events, int maxExec = 1)
    {
        return "<ManeuverGroup maximumExecutionCount=\"" + std::to_string(maxExec) + "\" name=\"" + name + "\"><Actors selectTriggeringEntities=\"false\">" + (actor.empty() ? "" : "<EntityRef entityRef=\"" + actor + "\"/>") +
               "</Actors><Maneuver name=\"" + name + "M\">" + events + "</Maneuver></ManeuverGroup>";
    }
    inline std::string act(const std::string& name, const std::string& groups, const std::string& start = "", const std::string& stop = "")
    {
        return "<Act name=\"" + name + "\">" + groups + (start.empty() ? trig(simTimeCond(-1)) : start) + stop + "</Act>";
    }
    struct Doc
    {
        std::string         xodr;    // file
        std::vector<Ent>    ents;
        std::string         params, variables, story, stop, globalInit, roadExtra;
        int                 minor = 1;
    };
    inline std::string xml(const Doc& d)
    {
        std::string s = "<?xml version=\"1.0\"?><OpenSCENARIO><FileHeader revMajor=\"1\" revMinor=\"" + std::to_string(d.minor) + "\" date=\"\" description=\"\" author=\"\"/><ParameterDeclarations>" + d.params +
                        "</ParameterDeclarations><VariableDeclarations>" + d.variables + "</VariableDeclarations><CatalogLocations/><RoadNetwork>";
        if (!d.xodr.empty()) s += "<LogicFile filepath=\"" + d.xodr + "\"/>";
        s += d.roadExtra + "</RoadNetwork><Entities>";
        for (auto& e : d.ents) s += entity(e);
        s += "</Entities><Storyboard><Init><Actions>" + d.globalInit;
        for (auto& e : d.ents) s += "<Private entityRef=\"" + e.name + "\">" + e.init + "</Private>";
        s += "</Actions></Init>" + (d.story.empty() ? std::string() : "<Story name=\"story\"><ParameterDeclarations/>" + d.story + "</Story>") + "<StopTrigger>" + d.stop + "</StopTrigger></Storyboard></OpenSCENARIO>";
        return s;
    }
    inline std::string writeRoad(const std::string& text)
    {
        char fn[64];
        snprintf(fn, sizeof fn, "road_%d.xodr", int(getpid()));
        FILE* f = fopen(fn, "w");
        fputs(text.c_str(), f);
        fclose(f);
        return fn;
    }
    struct Engine
    {
        pugi::xml_document                               doc;
        std::unique_ptr<scenarioengine::ScenarioEngine> se;
        double                                           t = 0;
        explicit Engine(const std::string& text)
        {
            SE_Env::Inst().SetOSIMaxLongitudinalDistance(500.0);
            SE_Env::Inst().SetOSIMaxLateralDeviation(100.0);
            doc.load_string(text.c_str());
            se.reset(new scenarioengine::ScenarioEngine(doc));
        }
        int step(double dt)
        {
            ::DirtyBits::SetReadFront();
            int r = se->step(dt);
            se->prepareGroundTruth(dt);
            se->SwapAndClearDirtyBits();
            ::DirtyBits::SetReadBack();
            return r;
        }
        scenarioengine::Object* obj(size_t i) { return se->entities_.object_[i]; }
    };
    inline odr::RoadDef straight(double len = 1000, int nl = 2, int nr = 2, double w = 3.5)
    {
        odr::RoadDef r;
        r.length = len;
        odr::SecDef sec;
        sec.s = 0;
        for (int i = 1; i <= nl; i++) sec.lanes.push_back({i, {odr::W(w)}});
        for (int i = 1; i <= nr; i++) sec.lanes.push_back({-i, {odr::W(w)}});
        r.sec = {sec};
        r.geo = {{0, 0, 0, 0, len, "<line/>"}};
        return r;
    }
}
