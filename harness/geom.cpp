// C02: planar geometry and 3D rotation helpers
#include "vf.h"
#include "CommonMini.hpp"
static const double T = 1e-6;

static void segment(double& x1, double& y1, double& x2, double& y2)
{
    // one end point anywhere, the other at least 0.1 m away along one of the axes
    x1 = vf_double("x1", -50, 50); y1 = vf_double("y1", -50, 50);
    double dx = vf_double("dx", -30, 30), dy = vf_double("dy", -30, 30);
    switch (vf_int("steep", 0, 3))
    {
        case 0: VF_LEQ(0.1, dx); break;
        case 1: VF_LEQ(dx, -0.1); break;
        case 2: VF_LEQ(0.1, dy); break;
        default: VF_LEQ(dy, -0.1); break;
    }
    x2 = x1 + dx; y2 = y1 + dy;
}
VF_CASE(project_line)
{
    double x1, y1, x2, y2, px = 0, py = 0, qx = 0, qy = 0;
    segment(x1, y1, x2, y2);
    double x = vf_double("x", -50, 50), y = vf_double("y", -50, 50);
    int    rc = ProjectPointOnLine2D(x, y, x1, y1, x2, y2, px, py);
    VF_ASSERT("projected", rc == 0);
    double dx = x2 - x1, dy = y2 - y1, l2 = dx * dx + dy * dy;
    VF_NEAR("on_line", ((px - x1) * dy - (py - y1) * dx) / l2, 0, T);
    VF_NEAR("perpendicular", ((x - px) * dx + (y - py) * dy) / l2, 0, T);
    double d = DistanceFromPointToLine2D(x, y, x1, y1, x2, y2, &qx, &qy);
    VF_NEAR("foot_x", qx, px, T);
    VF_NEAR("foot_y", qy, py, T);
    VF_NEAR("dist2", d * d, (x - px) * (x - px) + (y - py) * (y - py), T);
    double sd = PointToLineDistance2DSigned(x, y, x1, y1, x2, y2), cr = dx * (y - y1) - dy * (x - x1);
    VF_NEAR("signed2", sd * sd, d * d, T);
    VF_LE("signed_side", -sd * cr, 0, T);  // positive to the left
}
VF_CASE(angle_line)
{
    double x1 = vf_double("x1", -50, 50), y1 = vf_double("y1", -50, 50), a = vf_double("a", -7, 7), x = vf_double("x", -50, 50), y = vf_double("y", -50, 50);
    double d  = DistanceFromPointToLine2DWithAngle(x, y, x1, y1, a);
    VF_NEAR("angle_dist", d, (x - x1) * sin(a) - (y - y1) * cos(a), T);
    double s = (x - x1) * cos(a) + (y - y1) * sin(a);
    VF_NEAR("pythagoras", s * s + d * d, (x - x1) * (x - x1) + (y - y1) * (y - y1), T);
}
VF_CASE(edge)
{
    double x1, y1, x2, y2, qx = 0, qy = 0, sn = 0;
    segment(x1, y1, x2, y2);
    double x = vf_double("x", -50, 50), y = vf_double("y", -50, 50), u = vf_double("u", 0, 1);
    double dx = x2 - x1, dy = y2 - y1, l2 = dx * dx + dy * dy;
    double d  = DistanceFromPointToEdge2D(x, y, x1, y1, x2, y2, &qx, &qy);
    // the reported point lies on the edge, at the reported distance, and no point of the edge is closer
    VF_NEAR("dist2", d * d, (x - qx) * (x - qx) + (y - qy) * (y - qy), T);
    VF_NEAR("collinear", ((qx - x1) * dy - (qy - y1) * dx) / l2, 0, T);
    double k = ((qx - x1) * dx + (qy - y1) * dy) / l2;
    VF_LE("k_ge_0", 0, k, T);
    VF_LE("k_le_1", k, 1, T);
    // optimality: (p - q) . (w - q) <= 0 for the end points w (the edge is convex)
    (void)u;
    VF_LE("opt_start", ((x - qx) * (x1 - qx) + (y - qy) * (y1 - qy)) / l2, 0, T);
    VF_LE("opt_end", ((x - qx) * (x2 - qx) + (y - qy) * (y2 - qy)) / l2, 0, T);
}
VF_CASE(between_endpoints)
{
    double x1, y1, x2, y2, sn = 0;
    segment(x1, y1, x2, y2);
    double k = vf_double("k", -1, 2);
    double px = x1 + k * (x2 - x1), py = y1 + k * (y2 - y1);
    bool   in = PointInBetweenVectorEndpoints(px, py, x1, y1, x2, y2, sn);
    double len2 = (x2 - x1) * (x2 - x1) + (y2 - y1) * (y2 - y1);
    if (in) { VF_LE("in_lo", 0, k, T); VF_LE("in_hi", k, 1, T); VF_NEAR("fraction", sn, k, T); }
    else if (k < 0.5) { VF_LE("before", k, 0, T); VF_LE("negative", sn, 0, 0); VF_NEAR("dist_before", sn * sn, k * k * len2, T); }
    else { VF_LE("after", 1, k, T); VF_LE("positive", 0, sn, 0); VF_NEAR("dist_after", sn * sn, (k - 1) * (k - 1) * len2, T); }
}
VF_CASE(intersection)
{
    double ax = vf_double("ax", -20, 20), ay = vf_double("ay", -20, 20), adx = vf_double("adx", -10, 10), ady = vf_double("ady", -10, 10);
    double bx = vf_double("bx", -20, 20), by = vf_double("by", -20, 20), bdx = vf_double("bdx", -10, 10), bdy = vf_double("bdy", -10, 10);
    double x = 0, y = 0, den = adx * bdy - ady * bdx;
    int    side = vf_int("side", 0, 1);
    if (side) VF_LEQ(0.01, den); else VF_LEQ(den, -0.01);
    int rc = GetIntersectionOfTwoLineSegments(ax, ay, ax + adx, ay + ady, bx, by, bx + bdx, by + bdy, x, y);
    VF_ASSERT("found", rc == 0);
    VF_NEAR("on_a", (x - ax) * ady - (y - ay) * adx, 0, T);
    VF_NEAR("on_b", (x - bx) * bdy - (y - by) * bdx, 0, T);
}
VF_CASE(parallel)
{
    double ax = vf_double("ax", -20, 20), ay = vf_double("ay", -20, 20), adx = vf_double("adx", -10, 10), ady = vf_double("ady", -10, 10), k = vf_double("k", -3, 3);
    double bx = vf_double("bx", -20, 20), by = vf_double("by", -20, 20), x = 0, y = 0;
    VF_ASSERT("none", GetIntersectionOfTwoLineSegments(ax, ay, ax + adx, ay + ady, bx, by, bx + k * adx, by + k * ady, x, y) != 0);
}
VF_CASE(circle)
{
    // line through (px, py), circle of radius r around (cx, cy)
    double px = vf_double("px", -20, 20), py = vf_double("py", -20, 20), cx = 3, cy = -2, r = vf_double("r", 0.5, 10);
    int    dir = vf_int("dir", 0, 3);
    double dx = (const double[]){1, 0, 3, -2}[dir], dy = (const double[]){0, 2, 4, 1}[dir];
    double p0[2] = {px, py}, p1[2] = {px + dx, py + dy}, c[2] = {cx, cy}, i0[2] = {0, 0}, i1[2] = {0, 0};
    double cr = dx * (cy - py) - dy * (cx - px), l2 = dx * dx + dy * dy;
    double h2 = cr * cr / l2;  // squared distance from centre to line
    if (vf_int("hit", 0, 1)) VF_LEQ(h2 + 1e-4, r * r); else VF_LEQ(r * r + 1e-4, h2);  // not tangential
    int    n = GetIntersectionsOfLineAndCircle(p0, p1, c, r, i0, i1);
    if (n == 0) VF_LE("miss", r * r, h2, 1e-5);
    else
    {
        VF_LE("hit", h2, r * r, 1e-5);
        VF_NEAR("on_line0", (i0[0] - px) * dy - (i0[1] - py) * dx, 0, T);
        VF_NEAR("on_circle0", (i0[0] - cx) * (i0[0] - cx) + (i0[1] - cy) * (i0[1] - cy), r * r, 1e-5);
        if (n == 2)
        {
            VF_NEAR("on_line1", (i1[0] - px) * dy - (i1[1] - py) * dx, 0, T);
            VF_NEAR("on_circle1", (i1[0] - cx) * (i1[0] - cx) + (i1[1] - cy) * (i1[1] - cy), r * r, 1e-5);
            VF_NEAR("mid", (i0[0] + i1[0]) * 0.5 * dx + (i0[1] + i1[1]) * 0.5 * dy, cx * dx + cy * dy, 1e-5);
        }
    }
}
VF_CASE(project_vector)
{
    double x0 = vf_double("x0", -50, 50), y0 = vf_double("y0", -50, 50), x1 = vf_double("x1", -10, 10), y1 = vf_double("y1", -10, 10), px = 0, py = 0;
    switch (vf_int("steep", 0, 3))
    {
        case 0: VF_LEQ(0.1, x1); break;
        case 1: VF_LEQ(x1, -0.1); break;
        case 2: VF_LEQ(0.1, y1); break;
        default: VF_LEQ(y1, -0.1); break;
    }
    ProjectPointOnVector2D(x0, y0, x1, y1, px, py);
    VF_NEAR("perp", (x0 - px) * x1 + (y0 - py) * y1, 0, T);
    VF_NEAR("along", px * y1 - py * x1, 0, T);
}
VF_CASE(project_vector_len)
{
    double x0 = vf_double("x0", -50, 50), y0 = vf_double("y0", -50, 50), px = 0, py = 0;
    int    d  = vf_int("dir", 0, 7);
    double x1 = (const double[]){3, 0, -3, 0, 3, -3, -3, 3}[d], y1 = (const double[]){0, 3, 0, -3, 4, 4, -4, -4}[d];
    double l  = ProjectPointOnVector2DSignedLength(x0, y0, x1, y1, px, py);
    VF_NEAR("signed_length", l, (x0 * x1 + y0 * y1) / (d < 4 ? 3 : 5), T);
}
VF_CASE(side)
{
    double x1, y1, x2, y2;
    segment(x1, y1, x2, y2);
    double x = vf_double("x", -50, 50), y = vf_double("y", -50, 50);
    int    s = PointSideOfVec(x, y, x1, y1, x2, y2);
    double cr = (x2 - x1) * (y - y1) - (y2 - y1) * (x - x1);
    VF_ASSERT("sign", s == 1 || s == -1);
    if (s > 0) VF_LE("left", 0, cr, T);
    else VF_LE("right", cr, 0, T);
}
VF_CASE(rotate2d)
{
    double x = vf_double("x", -50, 50), y = vf_double("y", -50, 50), a = vf_double("a", -7, 7), xr = 0, yr = 0, xb = 0, yb = 0;
    RotateVec2D(x, y, a, xr, yr);
    VF_NEAR("len", xr * xr + yr * yr, x * x + y * y, T);
    VF_NEAR("dot", xr * x + yr * y, cos(a) * (x * x + y * y), T);
    VF_NEAR("cross", x * yr - y * xr, sin(a) * (x * x + y * y), T);
    RotateVec2D(xr, yr, -a, xb, yb);
    VF_NEAR("back_x", xb, x, T);
    VF_NEAR("back_y", yb, y, T);
    double hx = vf_double("hx", -9, 9), hy = vf_double("hy", -9, 9), gx = 0, gy = 0;
    Local2GlobalCoordinates(gx, gy, hx, hy, a, x, y);
    VF_NEAR("l2g_x", gx, hx + xr, T);
    VF_NEAR("l2g_y", gy, hy + yr, T);
}
static void rot(double h, double p, double r, const double v[3], double o[3])
{
    // intrinsic z-y-x: R = Rz(h) Ry(p) Rx(r)
    double x = v[0], y = v[1] * cos(r) - v[2] * sin(r), z = v[1] * sin(r) + v[2] * cos(r);
    double x2 = x * cos(p) + z * sin(p), z2 = -x * sin(p) + z * cos(p);
    o[0] = x2 * cos(h) - y * sin(h); o[1] = x2 * sin(h) + y * cos(h); o[2] = z2;
}
VF_CASE(rotate3d)
{
    double h = vf_double("h", 0, 6.2), p = vf_double("p", -1.4, 1.4), r = vf_double("r", -1.4, 1.4);
    double v[3] = {vf_double("x", -10, 10), vf_double("y", -10, 10), vf_double("z", -10, 10)}, o[3], x, y, z, bx, by, bz;
    rot(h, p, r, v, o);
    RotateVec3d(h, p, r, v[0], v[1], v[2], x, y, z);
    VF_NEAR("x", x, o[0], 1e-4);
    VF_NEAR("y", y, o[1], 1e-4);
    VF_NEAR("z", z, o[2], 1e-4);
    InverseRotateVec3d(h, p, r, o[0], o[1], o[2], bx, by, bz);
    VF_NEAR("inv_x", bx, v[0], 1e-4);
    VF_NEAR("inv_y", by, v[1], 1e-4);
    VF_NEAR("inv_z", bz, v[2], 1e-4);
}
// orientation relative to the road and back: R(abs) = R(road) R(rel)
static void same(const char* l, double h1, double p1, double r1, double h2, double p2, double r2)
{
    for (int i = 0; i < 3; i++)
    {
        double v[3] = {i == 0 ? 1. : 0., i == 1 ? 1. : 0., i == 2 ? 1. : 0.}, a[3], b[3];
        rot(h1, p1, r1, v, a); rot(h2, p2, r2, v, b);
        for (int k = 0; k < 3; k++) VF_NEAR(l, a[k], b[k], 1e-4);
    }
}
static const double HD[] = {0, M_PI_2, M_PI, 3 * M_PI_2, 0.7, 2.3, 4.0, 5.5};
VF_CASE(compose_heading)
{
    // flat road of any heading, vehicle with heading, pitch and roll relative to it
    double hr = vf_double("hr", 0, 6.28), p = (const double[]){0, 0.2, -0.3}[vf_int("p", 0, 2)], r = (const double[]){0, 0.1, -0.25}[vf_int("r", 0, 2)];
    double h1 = HD[vf_int("h1", 0, 7)], h, pp, rr, m[3][3];
    R0R12EulerAngles(hr, 0, 0, h1, p, r, h, pp, rr, m);
    VF_NEAR("h_sin", sin(h), sin(hr + h1), 1e-5);
    VF_NEAR("h_cos", cos(h), cos(hr + h1), 1e-5);
    VF_NEAR("p_sin", sin(pp), sin(p), 1e-5);
    VF_NEAR("r_sin", sin(rr), sin(r), 1e-5);
}
VF_CASE(rel_roundtrip)
{
    double hr = HD[vf_int("hroad", 0, vf_thorough() ? 7 : 4)], pr, rr;
    switch (vf_int("tilt", 0, 2)) { case 0: pr = 0; rr = 0.05; break; case 1: pr = 0.1; rr = 0; break; default: pr = -0.2; rr = -0.1; break; }
    double h1 = vf_thorough() ? vf_double("h1", 0.05, 6.2) : vf_double("h1", 0.1, 1.4), h, p, r, h2, p2, r2, m[3][3];
    R0R12EulerAngles(hr, pr, rr, h1, 0, 0, h, p, r, m);
    CalcRelAnglesFromRoadAndAbsAngles(hr, pr, rr, h, p, r, h2, p2, r2);
    VF_NEAR("h_sin", sin(h2), sin(h1), 1e-4);
    VF_NEAR("h_cos", cos(h2), cos(h1), 1e-4);
    VF_NEAR("p", sin(p2), 0, 1e-4);
    VF_NEAR("r", sin(r2), 0, 1e-4);
}
VF_CASE(t_rel_compose)
{
    double hr = HD[vf_int("hroad", 0, 7)], pr = (const double[]){0, 0.1, -0.2}[vf_int("proad", 0, 2)], rr = (const double[]){0, 0.05, -0.1}[vf_int("rroad", 0, 2)];
    double ha = vf_double("ha", 0.05, 6.2), pa = (const double[]){0, 0.15}[vf_int("pabs", 0, 1)], h, p, r, h2, p2, r2, m[3][3];
    CalcRelAnglesFromRoadAndAbsAngles(hr, pr, rr, ha, pa, 0.1, h2, p2, r2);
    R0R12EulerAngles(hr, pr, rr, h2, p2, r2, h, p, r, m);
    same("abs", h, p, r, ha, pa, 0.1);
}
VF_CASE(invert3)
{
    double a[3][3] = {{2, 0.5, -1}, {0.3, -3, 0.7}, {-0.2, 0.4, 4}}, b[3][3] = {}, c[3][3] = {};
    int    i = vf_int("i", 0, 2), j = vf_int("j", 0, 2);
    a[i][j] += vf_double("d", -0.4, 0.4);
    VF_ASSERT("rc", InvertMatrix3(a, b) == 0);
    MultMatrixMatrix3d(a, b, c);
    for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) VF_NEAR("identity", c[k][l], k == l ? 1.0 : 0.0, T);
}
VF_CASE(sector)
{
    // two parallel normals of a horizontal line at x=0 and x=10: fraction along
    double x = vf_double("x", -5, 15), y = vf_double("y", -4, 4), sn = 0;
    bool   in = IsPointWithinSectorBetweenTwoLines(SE_Vector(x, y), SE_Vector(0, 0), SE_Vector(0, 1), SE_Vector(10, 0), SE_Vector(10, 1), sn);
    if (in) { VF_NEAR("fraction", sn, x / 10, 1e-6); VF_LE("in0", 0, x, T); VF_LE("in1", x, 10, T); }
    else if (x < 5) { VF_LE("before", x, 0, T); VF_NEAR("neg", sn, x, T); }
    else { VF_LE("after", 10, x, T); VF_NEAR("pos", sn, x - 10, T); }
}
VF_CASE(norms)
{
    double x = vf_double("x", -50, 50), y = vf_double("y", -50, 50), z = vf_double("z", -50, 50), u = 0, v = 0, cx, cy, cz;
    VF_NEAR("len2", GetLengthOfVector2D(x, y) * GetLengthOfVector2D(x, y), x * x + y * y, T);
    VF_NEAR("len3", GetLengthOfVector3D(x, y, z) * GetLengthOfVector3D(x, y, z), x * x + y * y + z * z, T);
    VF_NEAR("pd", PointDistance2D(x, y, z, 3) * PointDistance2D(x, y, z, 3), (x - z) * (x - z) + (y - 3) * (y - 3), T);
    VF_NEAR("psd", PointSquareDistance2D(x, y, z, 3), (x - z) * (x - z) + (y - 3) * (y - 3), T);
    GetCrossProduct3D(x, y, z, 2, -1, 3, cx, cy, cz);
    VF_NEAR("c1", cx * x + cy * y + cz * z, 0, T);
    VF_NEAR("c2", 2 * cx - cy + 3 * cz, 0, T);
    VF_NEAR("c3", cz, x * -1 - y * 2, T);
    VF_NEAR("dot", GetDotProduct3D(x, y, z, 2, -1, 3), 2 * x - y + 3 * z, T);
}
