// C04: road profiles and lane records in force at s
#include "common.h"
using namespace roadmanager;
using namespace odr;
static const double T = 1e-6;
static double ev(const Poly& p, double s) { double d = s - p.s; return p.a + d * (p.b + d * (p.c + d * p.d)); }
static double dev(const Poly& p, double s) { double d = s - p.s; return p.b + d * (2 * p.c + 3 * d * p.d); }
// index of the record in force at s; s keeps off the borders
static int in_force(const std::vector<Poly>& v, double s)
{
    int k = int(v.size()) - 1;
    for (size_t i = 1; i < v.size(); i++) VF_ASSUME(s < v[i].s - 1e-4 || s > v[i].s + 1e-4);
    while (k > 0 && s < v[k].s) k--;
    return k;
}
// a road assembled from records, as the file loader does
static Road* assemble(const RoadDef& d)
{
    Road* r = new Road(d.id, "0", "");
    r->SetLength(d.length);
    r->AddLine(new Line(0, 0, 0, 0, d.length));
    for (auto& p : d.elev) r->AddElevation(new Elevation(p.s, p.a, p.b, p.c, p.d));
    for (auto& p : d.superelev) r->AddSuperElevation(new Elevation(p.s, p.a, p.b, p.c, p.d));
    for (auto& p : d.laneoffset) r->AddLaneOffset(new LaneOffset(p.s, p.a, p.b, p.c, p.d));
    for (auto& sec : d.sec)
    {
        LaneSection* ls = new LaneSection(sec.s);
        r->AddLaneSection(ls);
        bool centre = false;
        for (auto& l : sec.lanes)
        {
            if (l.id < 0 && !centre) { ls->AddLane(new Lane(0, Lane::LaneType::LANE_TYPE_NONE)); centre = true; }
            std::string ty = l.type;
            Lane* lane = new Lane(l.id, ty == "driving" ? Lane::LaneType::LANE_TYPE_DRIVING : ty == "shoulder" ? Lane::LaneType::LANE_TYPE_SHOULDER : Lane::LaneType::LANE_TYPE_BORDER);
            for (auto& w : l.width) lane->AddLaneWidth(new LaneWidth(w.s, w.a, w.b, w.c, w.d));
            if (l.pred) lane->AddLink(new LaneLink(LinkType::PREDECESSOR, l.pred));
            if (l.succ) lane->AddLink(new LaneLink(LinkType::SUCCESSOR, l.succ));
            ls->AddLane(lane);
        }
    }
    return r;
}
// either the assembled road with symbolic records or a loaded file with fixed ones
static Road* get(const RoadDef& d, int file)
{
    if (!file) return assemble(d);
    VF_ASSERT("load", load(doc({d})));
    return Position::GetOpenDrive()->GetRoadById(0);
}
static int  FILE_ = 0;
static double sym(const char* n, double lo, double hi, double fixed) { return FILE_ ? fixed : vf_double(n, lo, hi); }
static RoadDef base(double len)
{
    RoadDef r;
    r.length = len;
    r.geo    = {{0, 0, 0, 0, len, "<line/>"}};
    r.sec    = {{0, {{1, {W(3.5)}}, {-1, {W(3.5)}}}}};
    return r;
}
static std::vector<Poly> three(double first = 0)
{
    double s1 = sym("s1", 20, 90, 45), s2 = sym("s2", 110, 180, 130);
    return {{first, sym("a0", -3, 3, 0.1), 0.002, -0.0001, 0.000001}, {s1, sym("a1", -3, 3, -0.2), sym("b1", -0.1, 0.1, 0.003), 0.00004, 0}, {s2, sym("a2", -3, 3, 0.3), -0.003, 0, -0.000002}};
}
static void elevation_()
{
    RoadDef r = base(200);
    r.elev    = three();
    double s  = vf_double("s", 0, 200), z = 0, zp = 0, zpp = 0, p = 0;
    int    k  = in_force(r.elev, s);
    idx_t hint = vf_int("hint", 0, 2);
    Road* rd = get(r, FILE_);
    VF_ASSERT("rc", rd->GetZAndPitchByS(s, &z, &zp, &zpp, &p, &hint));
    VF_NEAR("z", z, ev(r.elev[k], s), T);
    VF_NEAR("slope", zp, dev(r.elev[k], s), T);
    VF_NEAR("pitch", tan(p), -dev(r.elev[k], s), T);
}
static void superelevation_()
{
    RoadDef r   = base(200);
    r.superelev = three();
    double s    = vf_double("s", 0, 200), roll = 0, rp = 0;
    int    k    = in_force(r.superelev, s);
    idx_t hint = vf_int("hint", 0, 2);
    Road* rd = get(r, FILE_);
    VF_ASSERT("rc", rd->UpdateRollByS(s, &rp, &roll, &hint));
    VF_NEAR("roll", roll, ev(r.superelev[k], s), T);
    VF_NEAR("roll_prim", rp, dev(r.superelev[k], s), T);
}
static void lane_offset_()
{
    RoadDef r    = base(200);
    r.laneoffset = three();
    double s     = vf_double("s", 0, 200);
    int    k     = in_force(r.laneoffset, s);
    Road* rd = get(r, FILE_);
    VF_NEAR("offset", rd->GetLaneOffset(s), ev(r.laneoffset[k], s), T);
    VF_NEAR("offset_prim", rd->GetLaneOffsetPrim(s), dev(r.laneoffset[k], s), T);
}
static void lane_width_()
{
    // second lane section starts at S; lane -2 has three width records relative to it
    double S = sym("S", 10, 60, 40), u = vf_double("u", 0, 100), w1 = sym("w1", 2, 5, 3.3);
    double o1 = sym("o1", 15, 45, 30), o2 = sym("o2", 55, 85, 70);
    std::vector<Poly> w = {{0, 3, 0.01, 0, 0}, {o1, w1, -0.02, 0.0001, 0}, {o2, 3.2, 0.004, 0, 0.000001}};
    RoadDef r  = base(200);
    r.sec.push_back({S, {{1, {W(3.1, 0.001)}}, {-1, {W(2.7)}}, {-2, w}, {-3, {W(1.2)}}}});
    int    k = in_force(w, u);
    double s = S + u;
    VF_ASSUME(u > 1e-4);
    Road* rd = get(r, FILE_);
    double want = ev(w[k], u);
    VF_NEAR("width", rd->GetLaneWidthByS(s, -2), want, T);
    VF_NEAR("width1", rd->GetLaneWidthByS(s, 1), 3.1 + 0.001 * u, T);
    VF_NEAR("center", rd->GetCenterOffset(s, -2), 2.7 + want / 2, T);
    VF_NEAR("center3", rd->GetCenterOffset(s, -3), 2.7 + want + 0.6, T);
    VF_NEAR("center1", rd->GetCenterOffset(s, 1), (3.1 + 0.001 * u) / 2, T);
    VF_NEAR("right", rd->GetWidth(s, -1), 2.7 + want + 1.2, T);
    VF_NEAR("left", rd->GetWidth(s, 1), 3.1 + 0.001 * u, T);
    VF_NEAR("both", rd->GetWidth(s, 0), 2.7 + want + 1.2 + 3.1 + 0.001 * u, T);
    LaneSection* ls = rd->GetLaneSectionByS(s);
    VF_NEAR("outer", ls->GetOuterOffset(s, -2), 2.7 + want, T);
    VF_NEAR("inner", ls->GetInnerOffset(s, -3), 2.7 + want, T);
    VF_NEAR("between", ls->GetOffsetBetweenLanes(1, -2, s), -(2.7 + want / 2) - (3.1 + 0.001 * u) / 2, T);
}
static void sections_()
{
    double s1 = sym("s1", 10, 50, 30), s2 = sym("s2", 60, 100, 80), s3 = sym("s3", 110, 150, 120), s = vf_double("s", 0, 200);
    RoadDef r = base(200);
    r.sec     = {{0, {{1, {W(3)}, "driving", 0, 1}, {-1, {W(3)}, "driving", 0, -1}}},
                 {s1, {{1, {W(3)}, "driving", 1, 2}, {-1, {W(3)}, "driving", -1, -1}, {-2, {W(1)}, "shoulder", 0, -2}}},
                 {s2, {{2, {W(3)}, "driving", 1, 2}, {1, {W(3)}, "driving", 0, 1}, {-1, {W(3)}, "driving", -1, -2}, {-2, {W(2)}, "driving", -2, -3}}},
                 {s3, {{2, {W(3)}, "driving", 2}, {1, {W(3)}, "driving", 1}, {-1, {W(2)}, "border"}, {-2, {W(3)}, "driving", -1}, {-3, {W(2)}, "driving", -2}}}};
    int k = in_force({{0, 0, 0, 0, 0}, {s1, 0, 0, 0, 0}, {s2, 0, 0, 0, 0}, {s3, 0, 0, 0, 0}}, s);
    Road* rd = get(r, FILE_);
    int   hint = vf_int("hint", 0, 3);
    VF_ASSERT("section", (int)rd->GetLaneSectionIdxByS(s, hint) == k);
    VF_ASSERT("lanes", (int)rd->GetNumberOfLanes(s) == (const int[]){3, 4, 5, 6}[k]);
    VF_ASSERT("driving", (int)rd->GetNumberOfDrivingLanes(s) == (const int[]){2, 2, 4, 4}[k]);
    VF_ASSERT("driving_right", (int)rd->GetNumberOfDrivingLanesSide(s, -1) == (const int[]){1, 1, 2, 2}[k]);
    VF_ASSERT("driving_left", (int)rd->GetNumberOfDrivingLanesSide(s, 1) == (const int[]){1, 1, 2, 2}[k]);
    // following the lane links from the section of the hint
    static const int R[4] = {-1, -1, -1, -2}, L[4] = {1, 1, 2, 2};
    LaneInfo li;
    VF_ASSERT("info_rc", rd->GetLaneInfoByS(s, hint, R[hint], li, Lane::LaneType::LANE_TYPE_ANY_DRIVING) == 0);
    VF_ASSERT("follow_right", (int)li.lane_section_idx_ == k && li.lane_id_ == R[k]);
    rd->GetLaneInfoByS(s, hint, L[hint], li, Lane::LaneType::LANE_TYPE_ANY_DRIVING);
    VF_ASSERT("follow_left", (int)li.lane_section_idx_ == k && li.lane_id_ == L[k]);
}
VF_CASE(road_type)
{
    double s1 = vf_double("s1", 20, 90), s2 = vf_double("s2", 110, 180), v0 = vf_double("v0", 5, 40), v1 = vf_double("v1", 5, 40), v2 = vf_double("v2", 5, 40), s = vf_double("s", 0, 200);
    RoadDef r = base(200);
    auto ty = [](double s, const char* t, double v, const char* u) { return "<type s=\"" + N(s) + "\" type=\"" + t + "\"><speed max=\"" + N(v) + "\" unit=\"" + u + "\"/></type>"; };
    r.type    = ty(0, "rural", v0, "m/s") + ty(s1, "motorway", v1, "km/h") + ty(s2, "town", v2, "mph");
    int k     = in_force({{0, 0, 0, 0, 0}, {s1, 0, 0, 0, 0}, {s2, 0, 0, 0, 0}}, s);
    Road* rd = get(r, 1);
    VF_NEAR("speed", rd->GetSpeedByS(s), k == 0 ? v0 : k == 1 ? v1 / 3.6 : v2 * 0.44704, 1e-3);
    VF_ASSERT("type", rd->GetRoadTypeByS(s) == (k == 0 ? Road::RoadType::ROADTYPE_RURAL : k == 1 ? Road::RoadType::ROADTYPE_MOTORWAY : Road::RoadType::ROADTYPE_TOWN));
}
VF_CASE(lane_height)
{
    // a kerb lane -2 of the section starting at 30, two height records
    double  S = 30, o1 = 40, hi = 0.25, ho = 0.05, u = vf_double("u", 0, 100), off = vf_double("off", -0.99, 0.99);
    RoadDef r = base(200);
    LaneDef k2{-2, {W(2)}, "sidewalk"};
    k2.extra = "<height sOffset=\"0\" inner=\"0.1\" outer=\"0.2\"/><height sOffset=\"" + N(o1) + "\" inner=\"" + N(hi) + "\" outer=\"" + N(ho) + "\"/>";
    r.sec.push_back({S, {{1, {W(3)}}, {-1, {W(3)}}, k2}});
    VF_ASSUME(u < o1 - 1e-4 || u > o1 + 1e-4);
    VF_ASSUME(u > 1e-3);
    Road* rd = get(r, 1);
    double f = (1 - off) / 2;  // 0 at the inner border (left, towards the reference line), 1 at the outer one
    double in = 0.1, ou = 0.2;
    if (u < o1) { in += u / o1 * (hi - in); ou += u / o1 * (ho - ou); } else { in = hi; ou = ho; }
    Lane* l  = rd->GetLaneSectionByS(S + u)->GetLaneById(-2);
    VF_NEAR("height", l->GetHeightBySAndOffset(u, off), in + f * (ou - in), T);
    Position p;
    p.SetSnapLaneTypes(-1);
    p.SetLanePos(0, -2, S + u, off);
    VF_NEAR("z", p.GetZ(), in + f * (ou - in), T);
}
VF_CASE(lane_height_sym)
{
    double o1 = vf_double("o1", 20, 60), hi = vf_double("hi", 0, 0.3), ho = vf_double("ho", 0, 0.3), u = vf_double("u", 0.01, 100), off = vf_double("off", -0.99, 0.99);
    int    side = vf_int("side", 0, 1);
    VF_ASSUME(u < o1 - 1e-4 || u > o1 + 1e-4);
    Lane l(side ? 2 : -2, Lane::LaneType::LANE_TYPE_SIDEWALK);
    l.AddLaneWidth(new LaneWidth(0, 2, 0, 0, 0));
    l.AddLaneHeight({0, 0.1, 0.2});
    l.AddLaneHeight({o1, hi, ho});
    double f = side ? (1 + off) / 2 : (1 - off) / 2, in = 0.1, ou = 0.2;
    if (u < o1) { in += u / o1 * (hi - in); ou += u / o1 * (ho - ou); } else { in = hi; ou = ho; }
    VF_NEAR("height", l.GetHeightBySAndOffset(u, off), in + f * (ou - in), T);
}
VF_CASE(elevation) { elevation_(); }
VF_CASE(elevation_file) { FILE_ = 1; elevation_(); }
VF_CASE(superelevation) { superelevation_(); }
VF_CASE(superelevation_file) { FILE_ = 1; superelevation_(); }
VF_CASE(lane_offset) { lane_offset_(); }
VF_CASE(lane_offset_file) { FILE_ = 1; lane_offset_(); }
VF_CASE(lane_width) { lane_width_(); }
VF_CASE(lane_width_file) { FILE_ = 1; lane_width_(); }
VF_CASE(sections) { sections_(); }
VF_CASE(sections_file) { FILE_ = 1; sections_(); }
