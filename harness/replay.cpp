// C25: recordings (.dat) and replay
#include "scenario.h"
#include "Replay.hpp"
#include <sstream>
#include <cstdlib>
#include <dirent.h>
#include <sys/stat.h>
using namespace osc;
using namespace scenarioengine;
static const double DT = 0.25;

// ---------------------------------------------------------------- the timelines that back a replay
// The value at a time is the last one recorded at or before it (or the first one, before any), whatever was asked before.
static void timeline(int n, const char* mode, double q1, double q2, double q3, bool inside = false)
{
    Timeline<int> tl;
    double        t[5];
    t[0] = vf_double("t0", -1, 1);
    tl.values.push_back({t[0], 100});
    for (int i = 1; i < n; i++)
    {
        char nm[8];
        snprintf(nm, sizeof nm, "d%d", i);
        t[i] = t[i - 1] + vf_double(nm, 0.01, 1);
        tl.values.push_back({t[i], 100 + i});
    }
    double q[3] = {q1, q2, q3};
    for (int k = 0; k < 3; k++)
    {
        int want = 0;
        for (int i = 0; i < n; i++)
        {
            VF_ASSUME(fabs(q[k] - t[i]) > 1e-5 || fabs(q[k] - t[i]) < 1e-7);
            if (i > 0 && q[k] > t[i] - 5e-6) want = i;
        }
        VF_ASSUME(!inside || want < n - 1);
        bool inc = mode[k] == 'i';
        auto v   = inc ? tl.get_value_incremental(q[k]) : tl.get_value_binary(q[k]);
        VF_ASSERT("some", v.has_value());
        VF_ASSERT("value", v.value() == 100 + want);
    }
}
VF_CASE(timeline_inc) { timeline(3, "iii", vf_double("q1", -1.5, 3.5), vf_double("q2", -1.5, 3.5), vf_double("q3", -1.5, 3.5)); }
VF_CASE(timeline_two) { timeline(2, "iii", vf_double("q1", -1.5, 3.5), vf_double("q2", -1.5, 3.5), vf_double("q3", -1.5, 3.5)); }
VF_CASE(timeline_four) { timeline(4, "iii", vf_double("q1", -1.5, 4.5), vf_double("q2", -1.5, 4.5), 10); }
VF_CASE(timeline_bin) { timeline(4, "bbb", vf_double("q1", -1.5, 4.5), vf_double("q2", -1.5, 4.5), -10, true); }
VF_CASE(timeline_bin_end) { timeline(4, "bbb", 10, 11, 12); }
VF_CASE(timeline_one) { timeline(1, "ibi", vf_double("q1", -1.5, 4.5), vf_double("q2", -1.5, 4.5), -3); }
VF_CASE(timeline_empty)
{
    Timeline<int> tl;
    double        q = vf_double("q", -1, 1);
    VF_ASSERT("inc", !tl.get_value_incremental(q).has_value());
    VF_ASSERT("bin", !tl.get_value_binary(q).has_value());
    VF_ASSERT("until", tl.get_values_until_time(q).empty());
}

// ---------------------------------------------------------------- recording
struct Snap
{
    double         speed, x, y, z, h, p, r, off, t, s, wa, wr;
    id_t           road;
    int            lane, vis, type, cat, model, ctrl, scale;
    std::string    name;
    OSCBoundingBox bb;
};
struct Frame
{
    double              t;
    std::map<int, Snap> o;
};
struct Recorder
{
    std::unique_ptr<Dat::DatWriter> w;
    std::stringbuf                  sb;
    std::string                     fn, head;
    std::vector<Frame>              frames;
    explicit Recorder(const std::string& f) : fn(f)
    {
        w.reset(new Dat::DatWriter());
        VF_ASSERT("open", w->Init(fn, "my_road.xodr", "my_model.osgb", "rev") == 0);
        w->write_file_.flush();
        FILE* fp = fopen(fn.c_str(), "rb");
        char  b[512];
        head.assign(b, fread(b, 1, sizeof b, fp));
        fclose(fp);
        static_cast<std::ios&>(w->write_file_).rdbuf(&sb);  // packets are collected in memory: several paths may be explored from here
    }
    void write(ScenarioEngine* se, double dt)
    {
        w->SetSimulationTime(se->getSimulationTime(), dt);
        w->WriteDtToDat();
        w->WriteEnvironmentToDat(se->environment);
        w->WriteTrafficLightsToDat(roadmanager::Position::GetOpenDrive()->GetDynamicSignals());
        w->WriteStoryBoardStateChangesToDat(se->storyBoard.GetChanges());
        w->WriteObjectStatesToDat(se->entities_.object_);
        w->SetTimestampWritten(false);
        se->storyBoard.ClearStateChanges();
        Frame f;
        f.t = se->getSimulationTime();
        for (auto* o : se->entities_.object_)
            f.o[o->GetId()] = {o->GetSpeed(), o->pos_.GetX(), o->pos_.GetY(), o->pos_.GetZ(), o->pos_.GetH(), o->pos_.GetP(), o->pos_.GetR(), o->pos_.GetOffset(), o->pos_.GetT(), o->pos_.GetS(),
                               o->GetWheelAngle(), o->GetWheelRotation(), o->pos_.GetTrackId(), o->pos_.GetLaneId(), o->visibilityMask_, o->type_, o->category_, o->model_id_,
                               o->GetControllerTypeActiveOnDomain(ControlDomains::DOMAIN_LONG), static_cast<int>(o->scaleMode_), o->GetName(), o->boundingbox_};
        frames.push_back(f);
    }
    void close()
    {
        w.reset();
        fn += "." + std::to_string(getpid());  // paths explored in parallel each have a file of their own
        std::string body = sb.str();
        FILE*       fp   = fopen(fn.c_str(), "wb");
        fwrite(head.data(), 1, head.size(), fp);
        fwrite(body.data(), 1, body.size(), fp);
        fclose(fp);
    }
};
static std::string datName(const char* tag = "rec")
{
    char fn[64];
    snprintf(fn, sizeof fn, "%s_%d.dat", tag, int(getpid()));
    return fn;
}
struct Run : Engine
{
    Recorder rec;
    explicit Run(const std::string& text, const std::string& fn = datName()) : Engine(text), rec(fn) { VF_ASSERT("init", se->GetInitStatus() == 0); }
    void go(double dt)
    {
        step(dt);
        rec.write(se.get(), dt);
    }
};
static const double TOL = 3e-6;
static void same(const ReplayEntry& e, const Snap& s)
{
    VF_NEAR("speed", e.state.info.speed, s.speed, TOL);
    VF_NEAR("x", e.state.pos.x, s.x, TOL);
    VF_NEAR("y", e.state.pos.y, s.y, TOL);
    VF_NEAR("z", e.state.pos.z, s.z, TOL);
    VF_NEAR("h", e.state.pos.h, s.h, TOL);
    VF_NEAR("p", e.state.pos.p, s.p, TOL);
    VF_NEAR("r", e.state.pos.r, s.r, TOL);
    VF_NEAR("offset", e.state.pos.offset, s.off, TOL);
    VF_NEAR("t", e.state.pos.t, s.t, TOL);
    VF_NEAR("s", e.state.pos.s, s.s, TOL);
    VF_NEAR("wheel angle", e.state.info.wheel_angle, s.wa, TOL);
    VF_NEAR("wheel rotation", e.state.info.wheel_rot, s.wr, TOL);
    VF_ASSERT("road", e.state.pos.roadId == s.road);
    VF_ASSERT("lane", e.state.pos.laneId == s.lane);
    VF_ASSERT("visibility", e.state.info.visibilityMask == s.vis);
    VF_ASSERT("type", e.state.info.obj_type == s.type && e.state.info.obj_category == s.cat);
    VF_ASSERT("model", e.state.info.model_id == s.model && e.state.info.scaleMode == s.scale);
    VF_ASSERT("controller", e.state.info.ctrl_type == s.ctrl);
    VF_ASSERT("name", e.state.info.name == s.name);
    VF_ASSERT("active", e.state.info.active);
    VF_ASSERT("box", e.state.info.boundingbox.dimensions_.length_ == s.bb.dimensions_.length_ && e.state.info.boundingbox.dimensions_.width_ == s.bb.dimensions_.width_ &&
                         e.state.info.boundingbox.dimensions_.height_ == s.bb.dimensions_.height_ && e.state.info.boundingbox.center_.x_ == s.bb.center_.x_ &&
                         e.state.info.boundingbox.center_.y_ == s.bb.center_.y_ && e.state.info.boundingbox.center_.z_ == s.bb.center_.z_);
}
static void sameFrame(Replay& p, const Frame& f, double t, bool binary = false, int idOffset = 0)
{
    for (int id : p.GetAllObjectIDs())
    {
        if (id < idOffset || id >= idOffset + 100) continue;
        ReplayEntry e  = binary ? p.GetReplayEntryAtTimeBinary(id, t) : p.GetReplayEntryAtTimeIncremental(id, t);
        auto        it = f.o.find(id - idOffset);
        VF_ASSERT("id", e.state.info.id == id);
        VF_NEAR("entry time", e.state.info.timeStamp, t, 1e-9);
        if (it == f.o.end())
            VF_ASSERT("inactive", !e.state.info.active);
        else
            same(e, it->second);
    }
    for (auto& o : f.o) VF_ASSERT("present", p.objects_timeline_.count(o.first + idOffset) == 1);
}
static void sameTimes(Replay& p, const std::vector<Frame>& f)
{
    VF_ASSERT("nr of frames", p.timestamps_.size() == f.size());
    for (size_t i = 0; i < f.size(); i++) VF_NEAR("frame time", p.timestamps_[i], f[i].t, TOL);
    VF_NEAR("start time", p.GetStartTime(), f.front().t, TOL);
    VF_NEAR("stop time", p.GetStopTime(), f.back().t, TOL);
}
// every recorded frame is found again: forward, backward, and in jumps, and between frames the last one is shown
static void whole(Replay& p, const std::vector<Frame>& f, bool binary = false)
{
    sameTimes(p, f);
    VF_ASSERT("header", p.dat_header_.odr_filename.string == "my_road.xodr" && p.dat_header_.model_filename.string == "my_model.osgb" && p.dat_header_.git_rev.string == "rev");
    for (size_t i = 0; i < f.size(); i++) sameFrame(p, f[i], f[i].t);
    for (size_t i = f.size(); i-- > 0;) sameFrame(p, f[i], f[i].t);
    for (size_t i = 0; i + 1 < f.size(); i++) sameFrame(p, f[i], 0.6 * f[i].t + 0.4 * f[i + 1].t);
    for (size_t i = 0; i + 2 < f.size(); i++)
    {
        sameFrame(p, f[i + 2], f[i + 2].t);
        sameFrame(p, f[i], f[i].t);
    }
    sameFrame(p, f.back(), f.back().t + 5);
    if (binary)
        for (size_t i = 0; i + 1 < f.size(); i++) sameFrame(p, f[i], f[i].t, true);
}
static Ent car(const std::string& name, const std::string& pos, double v)
{
    Ent e;
    e.name  = name;
    e.perf_ = perf(500, 1000, 1000);
    e.init  = teleport(pos) + absSpeed(v);
    return e;
}
static Doc scene(const std::vector<Ent>& ents, const std::string& story = "")
{
    Doc d;
    d.minor = 1;
    d.xodr  = writeRoad(odr::doc({straight()}));
    d.ents  = ents;
    d.story = story;
    return d;
}
VF_CASE(moving)
{
    double v = vf_double("v", 1, 2), u = vf_double("u", 8.9, 10.9), off = vf_double("off", -1, 1);
    Run    r(xml(scene({car("Ego", lanePos(0, -1, 50, off), v), car("Tgt", lanePos(0, 1, 600), u)})));
    r.go(0);
    for (int i = 0; i < 4; i++) r.go(DT);
    r.rec.close();
    Replay p(r.rec.fn, true);
    whole(p, r.rec.frames, true);
}
static Doc curve(const std::vector<Ent>& ents)
{
    odr::RoadDef r = straight();
    r.geo          = {{0, 0, 0, 0, 100, "<line/>"}, {100, 100, 0, 0, 900, "<arc curvature=\"0.002\"/>"}};
    Doc d;
    d.minor = 1;
    d.xodr  = writeRoad(odr::doc({r}));
    d.ents  = ents;
    return d;
}
VF_CASE(moving_curve)
{
    double v = vf_double("v", 1, 2);
    Run    r(xml(curve({car("Ego", lanePos(0, -2, 150), v), car("Tgt", lanePos(0, 1, 99), 10)})));
    r.go(0);
    for (int i = 0; i < 3; i++) r.go(DT);
    r.rec.close();
    Replay p(r.rec.fn, true);
    whole(p, r.rec.frames);
}
VF_CASE(parked)
{
    double off = vf_double("off", -1, 1);
    Run    r(xml(scene({car("Ego", lanePos(0, -1, 50, off), 0)})));
    r.go(0);
    for (int i = 0; i < 6; i++) r.go(DT);
    r.rec.close();
    Replay p(r.rec.fn, true);
    whole(p, r.rec.frames);
}
static std::string laneChange(double off, double time)
{
    return "<PrivateAction><LateralAction><LaneChangeAction targetLaneOffset=\"" + N(off) + "\"><LaneChangeActionDynamics dynamicsShape=\"linear\" dynamicsDimension=\"time\" value=\"" + N(time) +
           "\"/><LaneChangeTarget><AbsoluteTargetLane value=\"-2\"/></LaneChangeTarget></LaneChangeAction></LateralAction></PrivateAction>";
}
VF_CASE(changes)
{
    // stands, then drives off, then changes lane and stops again
    double v = vf_double("v", 1, 2), off = vf_double("off", -0.5, 0.5);
    Run    r(xml(scene({car("Ego", lanePos(0, -1, 50), 0), car("Tgt", lanePos(0, -1, 90), 0)},
                       act("a", mgroup("g", "Ego",
                                       event("e1", action("x1", absSpeed(v)), trig(simTimeCond(0.4))) + event("e2", action("x2", laneChange(off, 0.5)), trig(simTimeCond(0.9)), "parallel") +
                                           event("e3", action("x3", absSpeed(0)), trig(simTimeCond(1.9))))))));
    r.go(0);
    for (int i = 0; i < 10; i++) r.go(DT);
    r.rec.close();
    Replay p(r.rec.fn, true);
    whole(p, r.rec.frames);
}
static std::string entityAction(const std::string& ref, const std::string& a) { return "<GlobalAction><EntityAction entityRef=\"" + ref + "\">" + a + "</EntityAction></GlobalAction>"; }
static void addDel(double v, double u, bool readd, int moving)
{
    std::string ev = event("d", action("xd", entityAction("Tgt", "<DeleteEntityAction/>")), trig(simTimeCond(0.4)), "parallel");
    if (readd) ev += event("a", action("xa", entityAction("Tgt", "<AddEntityAction>" + lanePos(0, -1, 300) + "</AddEntityAction>")), trig(simTimeCond(0.9)), "parallel");
    Run r(xml(scene({car("Ego", lanePos(0, -1, 50), moving ? v : 0), car("Tgt", lanePos(0, 1, 600), u)}, act("a", mgroup("g", "Ego", ev)))));
    r.go(0);
    for (int i = 0; i < 7; i++) r.go(DT);
    size_t mid = 3;
    VF_ASSERT("deleted", r.rec.frames[mid].o.size() == 1);
    VF_ASSERT("end", r.rec.frames.back().o.size() == (readd ? 2 : 1));
    r.rec.close();
    Replay p(r.rec.fn, true);
    whole(p, r.rec.frames);
}
VF_CASE(deleted) { addDel(vf_double("v", 1, 1.2), 10, false, 1); }
VF_CASE(deleted_parked) { addDel(0, vf_double("u", 8.9, 9.1), false, 0); }
VF_CASE(readded) { addDel(vf_double("v", 1, 1.2), 10, true, 1); }
VF_CASE(readded_parked) { addDel(0, vf_double("u", 8.9, 9.1), true, 0); }
static void steps(const std::vector<double>& dts, double v)
{
    Run r(xml(scene({car("Ego", lanePos(0, -1, 50), v)})));
    r.go(0);
    for (double dt : dts) r.go(dt);
    r.rec.close();
    Replay p(r.rec.fn, true);
    whole(p, r.rec.frames);
}
VF_CASE(steps_vary) { steps({vf_double("d1", 0.01, 0.1), vf_double("d2", 0.11, 0.2), vf_double("d3", 0.21, 0.3), vf_double("d4", 0.11, 0.2)}, 1.1); }
VF_CASE(steps_two) { double a = vf_double("a", 0.01, 0.1), b = vf_double("b", 0.11, 0.2); steps({a, a, b, b, a}, 1.1); }
VF_CASE(steps_two_down) { double a = vf_double("a", 0.01, 0.1), b = vf_double("b", 0.11, 0.2); steps({b, b, a, a}, 1.1); }
VF_CASE(steps_first) { double a = vf_double("a", 0.01, 0.1), b = vf_double("b", 0.11, 0.2); steps({a, b, b, b}, 1.1); }
VF_CASE(steps_last) { double a = vf_double("a", 0.01, 0.1), b = vf_double("b", 0.11, 0.2); steps({a, a, a, b}, 1.1); }
VF_CASE(steps_parked) { double a = vf_double("a", 0.01, 0.1), b = vf_double("b", 0.11, 0.2); steps({a, a, a, b, b, b}, 0); }
VF_CASE(steps_parked_down) { double a = vf_double("a", 0.01, 0.1), b = vf_double("b", 0.11, 0.2); steps({b, b, b, a, a, a}, 0); }
VF_CASE(steps_parked_last) { double a = vf_double("a", 0.01, 0.1), b = vf_double("b", 0.11, 0.2); steps({a, a, a, b}, 0); }
VF_CASE(steps_parked_first) { double a = vf_double("a", 0.01, 0.1), b = vf_double("b", 0.11, 0.2); steps({a, b, b, b}, 0); }

// ---------------------------------------------------------------- moving around in a recording
struct Nav
{
    Run                     r;
    std::unique_ptr<Replay> p;
    explicit Nav(const std::vector<double>& dts) : r(xml(scene({car("Ego", lanePos(0, -1, 50), 1.1)})))
    {
        r.go(0);
        for (double d : dts) r.go(d);
        r.rec.close();
        p.reset(new Replay(r.rec.fn, true));
    }
    double at(int i) { return r.rec.frames[i].t; }
    int    n() { return int(r.rec.frames.size()); }
};
VF_CASE(frames_next_previous)
{
    Nav v({vf_double("d1", 0.01, 0.1), vf_double("d2", 0.11, 0.2), vf_double("d3", 0.21, 0.3), vf_double("d4", 0.11, 0.2)});
    VF_NEAR("start", v.p->GetTime(), 0, TOL);
    for (int i = 1; i < v.n(); i++)
    {
        VF_ASSERT("next", v.p->GoToNextFrame() == 0);
        VF_NEAR("next time", v.p->GetTime(), v.at(i), TOL);
        VF_ASSERT("next index", v.p->GetIndex() == i);
    }
    v.p->GoToNextFrame();
    VF_NEAR("end", v.p->GetTime(), v.at(v.n() - 1), TOL);
    VF_ASSERT("end index", v.p->GetIndex() == v.n() - 1);
    for (int i = v.n() - 2; i >= 0; i--)
    {
        v.p->GoToPreviousFrame();
        VF_NEAR("previous time", v.p->GetTime(), v.at(i), TOL);
        VF_ASSERT("previous index", v.p->GetIndex() == i);
    }
    v.p->GoToPreviousFrame();
    VF_NEAR("begin", v.p->GetTime(), 0, TOL);
    VF_ASSERT("begin index", v.p->GetIndex() == 0);
}
static void offGrid(Nav& v, double t)
{
    for (int i = 0; i < v.n(); i++) VF_ASSUME(fabs(t - v.at(i)) > 1e-4);
}
VF_CASE(jump)
{
    Nav    v({DT, DT, 2 * DT, DT, DT});
    double t[2] = {vf_double("t1", -1, 3), vf_double("t2", -1, 3)};
    for (int k = 0; k < 2; k++)
    {
        offGrid(v, t[k]);
        v.p->GoToTime(t[k]);
        double end = v.at(v.n() - 1), want = t[k] < 0 ? 0 : t[k] > end ? end : t[k];
        VF_NEAR("time", v.p->GetTime(), want, TOL);
        int i = v.p->GetIndex();
        VF_ASSERT("index", i >= 0 && i < v.n());
        VF_ASSERT("at or after", v.at(i) > want - 1e-5);
        VF_ASSERT("before", i == 0 || v.at(i - 1) < want + 1e-5);
    }
    // and to the neighbouring frames from there
    double now = v.p->GetTime();
    int    i   = int(vf_int("dir", 0, 1));
    if (i)
    {
        v.p->GoToNextFrame();
        double want = v.at(v.n() - 1);
        for (int k = v.n() - 1; k >= 0; k--)
            if (v.at(k) > now + 1e-5) want = v.at(k);
        VF_NEAR("next", v.p->GetTime(), want, TOL);
    }
    else
    {
        v.p->GoToPreviousFrame();
        double want = 0;
        for (int k = 0; k < v.n(); k++)
            if (v.at(k) < now - 1e-5) want = v.at(k);
        VF_NEAR("previous", v.p->GetTime(), want, TOL);
    }
}
// playing: time moves by the requested amount, but stops at the next frame on the way
VF_CASE(play_forward)
{
    Nav    v({DT, DT, 2 * DT, DT});
    double d = vf_double("d", 0.05, 0.6), t = 0;
    for (int k = 0; k < 8; k++)
    {
        double to = t + d, want = to, end = v.at(v.n() - 1);
        for (int i = v.n() - 1; i >= 0; i--)
        {
            VF_ASSUME(fabs(to - v.at(i)) > 1e-4);
            if (v.at(i) > t + 1e-5 && v.at(i) < to) want = v.at(i);
        }
        if (want > end) want = end;
        v.p->GoToDeltaTime(d, true);
        VF_NEAR("time", v.p->GetTime(), want, TOL);
        t = want;
    }
}
VF_CASE(play_backward)
{
    Nav v({DT, DT, 2 * DT, DT});
    v.p->GoToEnd();
    double d = vf_double("d", 0.05, 0.6), t = v.at(v.n() - 1);
    VF_NEAR("end", v.p->GetTime(), t, TOL);
    for (int k = 0; k < 8; k++)
    {
        double to = t - d, want = to;
        for (int i = 0; i < v.n(); i++)
        {
            VF_ASSUME(fabs(to - v.at(i)) > 1e-4);
            if (v.at(i) < t - 1e-5 && v.at(i) > to) want = v.at(i);
        }
        if (want < 0) want = 0;
        v.p->GoToDeltaTime(-d, true);
        VF_NEAR("time", v.p->GetTime(), want, TOL);
        t = want;
    }
}
VF_CASE(limits)
{
    Nav    v({DT, DT, DT, DT, DT, DT});
    double a = vf_double("a", 0.01, 0.7), b = vf_double("b", 0.76, 1.49);
    offGrid(v, a);
    offGrid(v, b);
    v.p->SetStartTime(a);
    v.p->SetStopTime(b);
    VF_NEAR("now", v.p->GetTime(), a, TOL);
    VF_NEAR("start", v.p->GetStartTime(), a, TOL);
    VF_NEAR("stop", v.p->GetStopTime(), b, TOL);
    int n = 0;
    for (int i = 0; i < v.n(); i++)
        if (v.at(i) > a && v.at(i) < b)
        {
            v.p->GoToNextFrame();
            VF_NEAR("next", v.p->GetTime(), v.at(i), TOL);
            n++;
        }
    v.p->GoToNextFrame();
    VF_NEAR("end", v.p->GetTime(), b, TOL);
    v.p->GoToTime(10);
    VF_NEAR("end2", v.p->GetTime(), b, TOL);
    for (int i = v.n() - 1; i >= 0; i--)
        if (v.at(i) > a && v.at(i) < b)
        {
            v.p->GoToPreviousFrame();
            VF_NEAR("previous", v.p->GetTime(), v.at(i), TOL);
        }
    v.p->GoToPreviousFrame();
    VF_NEAR("begin", v.p->GetTime(), a, TOL);
    v.p->GoToTime(-10);
    VF_NEAR("begin2", v.p->GetTime(), a, TOL);
    v.p->SetRepeat(true);
    v.p->GoToTime(10);
    VF_NEAR("repeat", v.p->GetTime(), a, TOL);
    v.p->GoToEnd(true);
    VF_NEAR("no repeat", v.p->GetTime(), b, TOL);
}
