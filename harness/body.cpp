// C20: bodies - overlap, free space, trailers, collision bookkeeping
#include "scenario.h"
using namespace osc;
using namespace scenarioengine;
struct V2 { double x, y; };
static Vehicle* body(double x, double y, double h, Box b = Box())
{
    Vehicle* v                          = new Vehicle();
    v->boundingbox_.center_.x_          = static_cast<float>(b.cx);
    v->boundingbox_.center_.y_          = static_cast<float>(b.cy);
    v->boundingbox_.dimensions_.length_ = static_cast<float>(b.l);
    v->boundingbox_.dimensions_.width_  = static_cast<float>(b.w);
    v->pos_.SetX(x);
    v->pos_.SetY(y);
    v->pos_.SetHeading(h, false);
    return v;
}
static const Box    BOX[] = {{1.5, 0, 0.75, 2, 5, 1.5}, {0.25, 0.5, 0.75, 1, 1.5, 1.5}, {4, -0.25, 1.5, 2.5, 12, 3}};
static const double HEAD[] = {0, 0.6435011087932844, M_PI / 2, 2.5, M_PI, 4.1};
static V2           at(const Object* o, double lx, double ly)
{
    double c = cos(o->pos_.GetH()), s = sin(o->pos_.GetH());
    return {o->pos_.GetX() + lx * c - ly * s, o->pos_.GetY() + lx * s + ly * c};
}
static void corners(const Object* o, const Box& b, V2* v)
{
    int k = 0;
    for (int i : {1, -1})
        for (int j : {1, -1}) v[k++] = at(o, b.cx + i * b.l / 2, b.cy + i * j * b.w / 2);
}
// signed gap between the boxes along the axis at angle a (negative: overlap)
static double gap(const Object* p, const Box& bp, const Object* q, const Box& bq, double a)
{
    V2     cp = at(p, bp.cx, bp.cy), cq = at(q, bq.cx, bq.cy);
    double d  = (cq.x - cp.x) * cos(a) + (cq.y - cp.y) * sin(a);
    auto   r  = [&](const Object* o, const Box& b) { return fabs(cos(a - o->pos_.GetH())) * b.l / 2 + fabs(sin(a - o->pos_.GetH())) * b.w / 2; };
    return (d < 0 ? -d : d) - r(p, bp) - r(q, bq);
}
static double seg2(V2 p, V2 a, V2 b)
{
    double ux = b.x - a.x, uy = b.y - a.y, t = ((p.x - a.x) * ux + (p.y - a.y) * uy) / (ux * ux + uy * uy);
    if (t < 0) t = 0;
    if (t > 1) t = 1;
    double dx = p.x - a.x - t * ux, dy = p.y - a.y - t * uy;
    return dx * dx + dy * dy;
}
static double dist2(V2* a, V2* b)
{
    double m = 1e20;
    for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++)
        {
            double d = seg2(a[i], b[j], b[(j + 1) % 4]);
            if (d < m) m = d;
            d = seg2(b[i], a[j], a[(j + 1) % 4]);
            if (d < m) m = d;
        }
    return m;
}
struct Pair
{
    Vehicle *a, *b;
    Box      ba, bb;
    bool     hit = true, known = true;
    double   best = -1e9;
};
static Pair makePair(int ka, int kb, int ha, int hb, double x, double y)
{
    Pair p;
    p.ba = BOX[ka], p.bb = BOX[kb];
    p.a  = body(30, -20, HEAD[ha], p.ba);
    p.b  = body(30 + x, -20 + y, HEAD[hb], p.bb);
    for (double ang : {HEAD[ha], HEAD[ha] + M_PI / 2, HEAD[hb], HEAD[hb] + M_PI / 2})
    {
        double g = gap(p.a, p.ba, p.b, p.bb, ang);
        if (g > p.best) p.best = g;
    }
    return p;
}
VF_CASE(overlap)  // whole plane
{
    static const int C[][4] = {{0, 0, 0, 0}, {0, 2, 0, 1}, {0, 1, 1, 2}, {2, 0, 1, 3}, {0, 0, 5, 4}, {2, 1, 3, 0}, {1, 2, 4, 5}, {2, 2, 2, 2}, {1, 1, 0, 3}, {0, 2, 3, 5}};
    int    n = vf_int("combination", 0, vf_thorough() ? 9 : 5), swap = vf_int("swap", 0, 1);
    double x = vf_double("x", -25, 25), y = vf_double("y", -25, 25);
    Pair   p = makePair(C[n][0], C[n][1], C[n][2], C[n][3], x, y);
    VF_ASSUME(p.best > 3e-6 || p.best < -3e-6);
    bool hit = (swap ? p.b->Collision(p.a) : p.a->Collision(p.b)) != 0;
    VF_ASSERT("overlap", hit == (p.best < 0));
}
VF_CASE(elevation)
{
    double z = vf_double("z", -20, 20), x = vf_double("x", -4, 4);
    Pair   p = makePair(0, 0, 0, 1, x, 0.5);
    VF_ASSUME(fabs(z) < 2 || fabs(z) > 5);
    p.b->pos_.SetZ(z);
    VF_ASSUME(p.best < -1e-5);
    bool hit = p.a->Collision(p.b) != 0;
    VF_ASSERT("level", hit == (fabs(z) < 3));
}
static void freespace(int ha, int hb)
{
    int    ka = 0, kb = vf_int("bodyB", 0, 2), dir = vf_int("dir", 0, 7);
    if (!vf_thorough()) VF_ASSUME(kb != 2 || dir % 2);
    double t = vf_double("t", 0, 30), phi = 0.2 + dir * M_PI / 4;
    Pair   p = makePair(ka, kb, ha, hb, 1.0 + t * cos(phi), -0.3 + t * sin(phi));
    VF_ASSUME(p.best > 3e-6 || p.best < -3e-6);
    double lat, lon, d = p.a->FreeSpaceDistance(p.b, &lat, &lon);
    if (p.best < 0)
    {
        VF_NEAR("zero", d, 0.0, 1e-9);
        VF_NEAR("lat0", lat, 0.0, 1e-9);
        VF_NEAR("lon0", lon, 0.0, 1e-9);
        return;
    }
    V2 va[4], vb[4];
    corners(p.a, p.ba, va);
    corners(p.b, p.bb, vb);
    double m = dist2(va, vb);
    VF_NEAR("distance", d * d, m, 1e-6);
    VF_ASSERT("atLeastGap", d > p.best - 1e-6);
    // components in the frame of the first
    double gx = gap(p.a, p.ba, p.b, p.bb, HEAD[ha]), gy = gap(p.a, p.ba, p.b, p.bb, HEAD[ha] + M_PI / 2);
    V2     ca = at(p.a, p.ba.cx, p.ba.cy), cb = at(p.b, p.bb.cx, p.bb.cy);
    double fx = (cb.x - ca.x) * cos(HEAD[ha]) + (cb.y - ca.y) * sin(HEAD[ha]), fy = (cb.y - ca.y) * cos(HEAD[ha]) - (cb.x - ca.x) * sin(HEAD[ha]);
    VF_NEAR("long", lon, gx > 0 ? (fx > 0 ? gx : -gx) : 0.0, 3e-6);
    VF_NEAR("lat", lat, gy > 0 ? (fy > 0 ? gy : -gy) : 0.0, 3e-6);
    double e;
    VF_ASSERT("Distance", p.a->Distance(p.b, roadmanager::CoordinateSystem::CS_ENTITY, roadmanager::RelativeDistanceType::REL_DIST_EUCLIDIAN, true, e) == 0);
    VF_ASSERT("signed", (e < 0 ? -e : e) > d - 1e-9 && (e < 0 ? -e : e) < d + 1e-9);
}
VF_CASE(freespace_aligned) { freespace(0, 0); }
VF_CASE(freespace_turned) { freespace(1, 3); }
VF_CASE(freespace_across) { freespace(0, 2); }
VF_CASE(freespace_opposite) { freespace(1, 5); }
VF_CASE(freespace_symmetric)
{
    int    hb = vf_int("headB", 0, 2), dir = vf_int("dir", 0, 3);
    double t = vf_double("t", 8, 30), phi = 0.2 + dir * M_PI / 2;
    Pair   p = makePair(0, 1, 1, hb, t * cos(phi), t * sin(phi));
    double lat, lon;
    VF_NEAR("same", p.a->FreeSpaceDistance(p.b, &lat, &lon), p.b->FreeSpaceDistance(p.a, &lat, &lon), 1e-9);
}
VF_CASE(point)
{
    int    k = vf_int("body", 0, 2), h = vf_int("head", 0, 5);
    double x = vf_double("x", -12, 12), y = vf_double("y", -12, 12), c = cos(HEAD[h]), s = sin(HEAD[h]);
    Box    b = BOX[k];
    auto   a = body(30, -20, HEAD[h], b);
    double gx = fabs(x - b.cx) - b.l / 2, gy = fabs(y - b.cy) - b.w / 2, g = gx > gy ? gx : gy;
    VF_ASSUME(g > 3e-6 || g < -3e-6);
    VF_ASSERT("point", (a->PointCollision(30 + x * c - y * s, -20 + x * s + y * c) != 0) == (g < 0));
}
VF_CASE(point_distance)
{
    int    k = vf_int("body", 0, 2), h = vf_int("head", 0, 5), dir = vf_int("dir", 0, 7);
    if (!vf_thorough()) VF_ASSUME(k == 1 ? h >= 1 && h <= 3 : h == (k ? 3 : 5));
    double t = vf_double("t", 0, 20), phi = 0.2 + dir * M_PI / 4, x = t * cos(phi), y = t * sin(phi), c = cos(HEAD[h]), s = sin(HEAD[h]);
    Box    b = BOX[k];
    auto   a = body(30, -20, HEAD[h], b);
    double rx = x - b.cx, ry = y - b.cy, gx = fabs(rx) - b.l / 2, gy = fabs(ry) - b.w / 2;
    VF_ASSUME(fabs(gx) > 1e-4 && fabs(gy) > 1e-4);
    double lat, lon, d = a->FreeSpaceDistancePoint(30 + x * c - y * s, -20 + x * s + y * c, &lat, &lon);
    double ex = gx > 0 ? gx : 0, ey = gy > 0 ? gy : 0;
    VF_NEAR("distance", d * d, ex * ex + ey * ey, 1e-6);
    VF_NEAR("long", lon, rx > 0 ? ex : -ex, 1e-6);
    VF_NEAR("lat", lat, ry > 0 ? ey : -ey, 1e-6);
}
VF_CASE(front)  // how the target lies across the front line
{
    int    kb = vf_int("bodyB", 0, 2), ha = vf_int("headA", 0, 2), hb = vf_int("headB", 0, 3);
    if (!vf_thorough()) VF_ASSUME((kb + ha + hb) % 3 == 0);
    double y = vf_double("y", -8, 8), tol = 0.1, w = 2.0;
    Box    bb = BOX[kb];
    double c = cos(HEAD[ha]), s = sin(HEAD[ha]);
    auto   a = body(30, -20, HEAD[ha], BOX[0]), b = body(30 + 20 * c - y * s, -20 + 20 * s + y * c, HEAD[ha] + HEAD[hb], bb);
    int    in = 0, left = 0, right = 0;
    for (int i : {1, -1})
        for (int j : {1, -1})
        {
            double ly = y + sin(HEAD[hb]) * (bb.cx + i * bb.l / 2) + cos(HEAD[hb]) * (bb.cy + j * bb.w / 2);  // lateral, left positive
            for (double e : {w / 2, w / 2 - tol, w / 2 + tol}) VF_ASSUME(fabs(ly - e) > 1e-5 && fabs(ly + e) > 1e-5);
            if (ly > w / 2 - tol) left++;
            if (ly < -w / 2 + tol) right++;
            if (fabs(ly) < w / 2 + tol) in++;
        }
    int want = in == 4 && left && right ? int(Object::OverlapType::INSIDE_AND_FULL) : in == 4 ? int(Object::OverlapType::INSIDE) : left && right ? int(Object::OverlapType::FULL) : in ? int(Object::OverlapType::PART) : int(Object::OverlapType::NONE);
    VF_ASSERT("class", int(a->OverlappingFront(b, tol)) == want);
}
// ---- trailers ----
static std::string withTrailer(const std::string& s, const std::string& extra)
{
    std::string m = "<Properties>", r = s;
    r.insert(r.find(m), extra);
    return r;
}
struct Rig : Engine
{
    explicit Rig(const std::string& text) : Engine(text) { VF_ASSERT("init", se->GetInitStatus() == 0); }
    Vehicle* v(int i) { return static_cast<Vehicle*>(obj(i)); }
};
static Doc rigDoc(double v, int lane, double s0, int n, std::vector<double> hitch, std::vector<double> coupler, const std::vector<Ent>& more = {})
{
    Doc d;
    d.xodr = writeRoad(odr::doc({straight()}));
    Ent e;
    e.name = "Tow";
    e.init = teleport(lanePos(0, lane, s0)) + absSpeed(v);
    e.props.clear();
    d.ents.push_back(e);
    (void)n, (void)hitch, (void)coupler;
    for (auto& m : more) d.ents.push_back(m);
    return d;
}
static std::string rigXml(double v, int lane, double s0, int n, double* hitch, double* coupler, const std::vector<Ent>& more = {}, const std::string& story = "")
{
    Doc d   = rigDoc(v, lane, s0, n, {}, {}, more);
    d.story = story;
    std::string x = xml(d);
    // nest the trailers from the last one outwards
    std::string inner;
    for (int i = n; i >= 1; i--)
    {
        std::string t = "<Trailer><Trailer name=\"T" + std::to_string(i) + "\"><Vehicle name=\"t\" vehicleCategory=\"trailer\"><ParameterDeclarations/>" + perf(70, 10, 10) +
                        "<BoundingBox><Center x=\"1\" y=\"0\" z=\"0.75\"/><Dimensions width=\"2\" length=\"4\" height=\"1.5\"/></BoundingBox><Axles><FrontAxle maxSteering=\"0\" wheelDiameter=\"0.6\" trackWidth=\"1.8\" positionX=\"1\" positionZ=\"0.3\"/><RearAxle maxSteering=\"0.0\" wheelDiameter=\"0.6\" trackWidth=\"1.8\" positionX=\"0\" positionZ=\"0.3\"/></Axles>" +
                        "<TrailerCoupler dx=\"" + N(coupler[i]) + "\"/>" + (i < n ? "<TrailerHitch dx=\"" + N(hitch[i]) + "\"/>" + inner : std::string()) + "<Properties/></Vehicle></Trailer></Trailer>";
        inner = t;
    }
    return withTrailer(x, "<TrailerHitch dx=\"" + N(hitch[0]) + "\"/>" + inner);
}
static void coupled(Rig& r, int n, double* hitch, double* coupler, bool still = true)
{
    for (int i = 1; i <= n; i++)
    {
        auto   f = r.obj(i - 1), t = r.obj(i);
        V2     h = at(f, hitch[i - 1], 0), c = at(t, coupler[i], 0);
        VF_NEAR("hitchX", h.x, c.x, 1e-6);
        VF_NEAR("hitchY", h.y, c.y, 1e-6);
        if (still) VF_NEAR("speed", t->GetSpeed(), f->GetSpeed(), 1e-6);
    }
}
VF_CASE(trailer_straight)
{
    int    n = vf_int("n", 1, 2), lane = vf_int("left", 0, 1) ? 1 : -1;
    double v = vf_double("v", 0, 40), hitch[] = {-1.2, -2}, coupler[] = {0, vf_double("coupler", 2, 9), 4.5};
    Rig    r(rigXml(v, lane, 300, n, hitch, coupler));
    for (int k = 0; k < 4; k++)
    {
        r.step(k ? 0.25 : 0);
        coupled(r, n, hitch, coupler);
        double x = 300 - (lane > 0 ? -1 : 1) * (0 - v * 0.25 * k), dir = lane > 0 ? -1 : 1;
        VF_NEAR("tow", r.obj(0)->pos_.GetX(), x, 1e-6);
        for (int i = 1; i <= n; i++)
        {
            x += dir * (hitch[i - 1] - coupler[i]);
            VF_NEAR("trailer", r.obj(i)->pos_.GetX(), x, 1e-5);
            VF_NEAR("side", r.obj(i)->pos_.GetY(), lane > 0 ? 1.75 : -1.75, 1e-5);
        }
    }
}
VF_CASE(trailer_turn)  // the tow vehicle is turned and moved by hand: trailers stay coupled and are only dragged along
{
    int    n = vf_int("n", 1, vf_thorough() ? 2 : 1);
    double h = vf_double("h", -0.9, 0.9), hitch[] = {-1.2, -2}, coupler[] = {0, 5, 4.5};
    Rig    r(rigXml(0, -1, 300, n, hitch, coupler));
    r.step(0);
    for (int k = 1; k <= 1; k++)
    {
        V2 old[3];
        for (int i = 0; i <= n; i++) old[i] = {r.obj(i)->pos_.GetX(), r.obj(i)->pos_.GetY()};
        r.obj(0)->pos_.SetInertiaPos(300 + 2 * k, -1.75 + k, h);
        r.step(0.1);
        coupled(r, n, hitch, coupler, false);
        for (int i = 1; i <= n; i++)
        {
            // new position lies on the line from the hitch to the old position
            V2     p = {r.obj(i)->pos_.GetX(), r.obj(i)->pos_.GetY()}, q = at(r.obj(i - 1), hitch[i - 1], 0);
            double cross = (p.x - q.x) * (old[i].y - q.y) - (p.y - q.y) * (old[i].x - q.x);
            VF_NEAR("dragged", cross, 0.0, 1e-5);
            VF_ASSERT("behind", (p.x - q.x) * (old[i].x - q.x) + (p.y - q.y) * (old[i].y - q.y) > 0);
        }
    }
}
static Ent other(double s, int lane)
{
    Ent e;
    e.name = "Other";
    e.box  = {1.5, 0, 0.75, 2, 5, 1.5};
    e.init = teleport(lanePos(0, lane, s));
    return e;
}
static void rigDistance(int cs)
{
    int    n = vf_int("n", 1, 2), from = vf_int("from", 0, 2), to = vf_int("swap", 0, 1), lane = cs == 0 ? -1 : -1 - vf_int("lane", 0, 1);
    VF_ASSUME(from <= n);
    double s = vf_double("s", 200, 360), hitch[] = {-1.2, -2}, coupler[] = {0, 5, 4.5};
    Rig    r(rigXml(0, -1, 300, n, hitch, coupler, {other(s, lane)}));
    r.step(0);
    // bodies along the road, lane centre to lane centre
    double lo[3], hi[3], x = 300;
    lo[0] = x + 1.4 - 2.5, hi[0] = x + 1.4 + 2.5;
    for (int i = 1; i <= n; i++)
    {
        x += hitch[i - 1] - coupler[i];
        lo[i] = x - 1, hi[i] = x + 3;
    }
    double oLo = s - 1, oHi = s + 4, ahead = 1e9, behind = 1e9;
    bool   hit = false;
    for (int i = 0; i <= n; i++)
    {
        for (double e : {oLo - hi[i], lo[i] - oHi}) VF_ASSUME(fabs(e) > 1e-4);
        if (oLo > hi[i]) ahead = oLo - hi[i] < ahead ? oLo - hi[i] : ahead;
        else if (oHi < lo[i]) behind = lo[i] - oHi < behind ? lo[i] - oHi : behind;
        else hit = true;
    }
    VF_ASSUME(fabs(ahead - behind) > 1e-4);
    double want = hit ? 0.0 : ahead < behind ? ahead : -behind;
    double d;
    Object *a = r.obj(from), *b = r.obj(n + 1);
    if (to) { std::swap(a, b), want = -want; }
    VF_ASSERT("ok", a->Distance(b, cs ? roadmanager::CoordinateSystem::CS_ROAD : roadmanager::CoordinateSystem::CS_ENTITY, roadmanager::RelativeDistanceType::REL_DIST_LONGITUDINAL, true, d) == 0);
    VF_NEAR("rig", d, want, 1e-5);
}
VF_CASE(rig_distance_entity) { rigDistance(0); }
VF_CASE(rig_distance_road) { rigDistance(1); }
// ---- collision bookkeeping ----
VF_CASE(collisions)
{
    SE_Env::Inst().SetCollisionDetection(true);
    double v = vf_double("v", 0, 40), s = vf_double("s", 190, 230);
    Doc    d;
    d.xodr = writeRoad(odr::doc({straight()}));
    Ent a  = other(200, -1), b = other(s, -1), c = other(215, -2);
    a.name = "A", b.name = "B", c.name = "C";
    a.init += absSpeed(v);
    b.init += absSpeed(5);
    c.init += absSpeed(0);
    d.ents = {a, b, c};
    Rig r(xml(d));
    for (int k = 0; k < 4; k++)
    {
        r.step(k ? 0.5 : 0);
        double xa = 200 + v * 0.5 * k, xb = s + 5 * 0.5 * k, dd = xa > xb ? xa - xb : xb - xa;
        VF_ASSUME(fabs(dd - 5) > 1e-5);
        bool hit = dd < 5;
        auto has = [&](int i, int j) { auto& l = r.obj(i)->collisions_; return std::count(l.begin(), l.end(), r.obj(j)); };
        VF_ASSERT("pair", int(r.se->collision_pair_.size()) == (hit ? 1 : 0));
        VF_ASSERT("listed", has(0, 1) == (hit ? 1 : 0) && has(1, 0) == (hit ? 1 : 0));
        VF_ASSERT("neighbourLane", has(0, 2) == 0 && has(2, 0) == 0 && has(1, 2) == 0 && has(2, 1) == 0);
    }
}
