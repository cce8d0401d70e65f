// Shared helpers of the harnesses: small OpenDRIVE documents whose numbers may be symbolic.
#pragma once
#include "vf.h"
#include "CommonMini.hpp"
#include "RoadManager.hpp"
#include <string>
#include <vector>
#include <cmath>

namespace odr
{
    inline std::string N(double v) { return vf_text(v); }
    struct Poly { double s, a, b, c, d; };
    struct LaneDef
    {
        int               id;
        std::vector<Poly> width;
        const char*       type = "driving";
        int               pred = 0, succ = 0;
        std::string       extra;  // additional children (roadMark, height ...)
    };
    struct SecDef { double s; std::vector<LaneDef> lanes; };
    struct GeoDef { double s, x, y, hdg, len; std::string kind; };  // kind: inner xml, e.g. <line/>
    struct LinkDef { const char* elType = nullptr; int id = -1; const char* contact = nullptr; };
    struct RoadDef
    {
        int                  id = 0, junction = -1;
        double               length = 100;
        std::vector<GeoDef>  geo;
        std::vector<Poly>    elev, superelev, laneoffset;
        std::vector<SecDef>  sec;
        LinkDef              pred, succ;
        std::string          type;      // <type> elements
        std::string          extra;     // objects, signals
        const char*          rule = "RHT";
    };
    inline std::string poly(const char* tag, const char* sname, const Poly& p)
    {
        return std::string("<") + tag + " " + sname + "=\"" + N(p.s) + "\" a=\"" + N(p.a) + "\" b=\"" + N(p.b) + "\" c=\"" + N(p.c) + "\" d=\"" + N(p.d) + "\"/>";
    }
    inline std::string lane(const LaneDef& l)
    {
        std::string s = "<lane id=\"" + std::to_string(l.id) + "\" type=\"" + l.type + "\" level=\"false\"><link>";
        if (l.pred) s += "<predecessor id=\"" + std::to_string(l.pred) + "\"/>";
        if (l.succ) s += "<successor id=\"" + std::to_string(l.succ) + "\"/>";
        s += "</link>";
        for (auto& w : l.width) s += poly("width", "sOffset", w);
        s += l.extra + "</lane>";
        return s;
    }
    inline std::string link(const char* tag, const LinkDef& l)
    {
        if (!l.elType) return "";
        std::string s = std::string("<") + tag + " elementType=\"" + l.elType + "\" elementId=\"" + std::to_string(l.id) + "\"";
        if (l.contact) s += std::string(" contactPoint=\"") + l.contact + "\"";
        return s + "/>";
    }
    inline std::string road(const RoadDef& r)
    {
        std::string s = "<road name=\"\" length=\"" + N(r.length) + "\" id=\"" + std::to_string(r.id) + "\" junction=\"" + std::to_string(r.junction) + "\" rule=\"" + r.rule + "\"><link>";
        s += link("predecessor", r.pred) + link("successor", r.succ) + "</link>" + r.type + "<planView>";
        for (auto& g : r.geo)
            s += "<geometry s=\"" + N(g.s) + "\" x=\"" + N(g.x) + "\" y=\"" + N(g.y) + "\" hdg=\"" + N(g.hdg) + "\" length=\"" + N(g.len) + "\">" + g.kind + "</geometry>";
        s += "</planView><elevationProfile>";
        for (auto& p : r.elev) s += poly("elevation", "s", p);
        s += "</elevationProfile><lateralProfile>";
        for (auto& p : r.superelev) s += poly("superelevation", "s", p);
        s += "</lateralProfile><lanes>";
        for (auto& p : r.laneoffset) s += poly("laneOffset", "s", p);
        for (auto& ls : r.sec)
        {
            std::string L, R, C;
            bool        hasC = false;
            for (auto& l : ls.lanes) { if (l.id > 0) L += lane(l); else if (l.id < 0) R += lane(l); else { C += lane(l); hasC = true; } }
            if (!hasC) C = "<lane id=\"0\" type=\"none\" level=\"false\"/>";
            s += "<laneSection s=\"" + N(ls.s) + "\">";
            if (!L.empty()) s += "<left>" + L + "</left>";
            s += "<center>" + C + "</center>";
            if (!R.empty()) s += "<right>" + R + "</right>";
            s += "</laneSection>";
        }
        s += "</lanes>" + r.extra + "</road>";
        return s;
    }
    inline std::string doc(const std::vector<RoadDef>& rs, const std::string& junctions = "")
    {
        std::string s = "<?xml version=\"1.0\"?><OpenDRIVE><header revMajor=\"1\" revMinor=\"5\" name=\"\" version=\"1\" date=\"\" north=\"0\" south=\"0\" east=\"0\" west=\"0\"/>";
        for (auto& r : rs) s += road(r);
        return s + junctions + "</OpenDRIVE>";
    }
    inline bool load(const std::string& d)
    {
        SE_Env::Inst().SetOSIMaxLongitudinalDistance(500.0); SE_Env::Inst().SetOSIMaxLateralDeviation(100.0);
        return roadmanager::Position::LoadOpenDriveFromXMLString(d.c_str());
    }
    inline Poly W(double a, double b = 0, double c = 0, double d = 0, double s = 0) { return {s, a, b, c, d}; }
    inline std::string arc(double k) { return "<arc curvature=\"" + N(k) + "\"/>"; }
}
