// C03: reference line geometry
#include "common.h"
using namespace roadmanager;
static const double T = 1e-6;
VF_CASE(line)
{
    double x0 = vf_double("x0", -100, 100), y0 = vf_double("y0", -100, 100), h0 = vf_double("h0", -6.28, 6.28), ds = vf_double("ds", 0, 200), x, y, h;
    Line   g(0, x0, y0, h0, 200);
    g.EvaluateDS(ds, &x, &y, &h);
    VF_NEAR("x", x, x0 + ds * cos(h0), T);
    VF_NEAR("y", y, y0 + ds * sin(h0), T);
    VF_NEAR("h_sin", sin(h), sin(h0), T);
    VF_NEAR("h_cos", cos(h), cos(h0), T);
    VF_NEAR("curv", g.EvaluateCurvatureDS(ds), 0, 1e-12);
}
VF_CASE(arc)
{
    int    sg = vf_int("left", 0, 1);
    double k  = vf_double("k", 0.001, 0.2), x0 = vf_double("x0", -100, 100), y0 = vf_double("y0", -100, 100), h0 = vf_double("h0", 0, 6.28), ds = vf_double("ds", 0, 200), x, y, h;
    if (!sg) k = -k;
    Arc g(0, x0, y0, h0, 200, k);
    g.EvaluateDS(ds, &x, &y, &h);
    // dp/ds = (cos(h0 + k s), sin(h0 + k s))
    VF_NEAR("x", (x - x0) * k, sin(h0 + k * ds) - sin(h0), T);
    VF_NEAR("y", (y - y0) * k, -cos(h0 + k * ds) + cos(h0), T);
    VF_NEAR("h", h, h0 + k * ds, T);
    VF_NEAR("curv", g.EvaluateCurvatureDS(ds), k, 1e-12);
}
VF_CASE(arc_straight)
{
    double x0 = vf_double("x0", -100, 100), y0 = vf_double("y0", -100, 100), h0 = vf_double("h0", 0, 6.28), ds = vf_double("ds", 0, 200), x, y, h;
    Arc    g(0, x0, y0, h0, 200, 0.0);
    g.EvaluateDS(ds, &x, &y, &h);
    VF_NEAR("x", x, x0 + ds * cos(h0), T);
    VF_NEAR("y", y, y0 + ds * sin(h0), T);
    VF_NEAR("h", h, h0, T);
}
VF_CASE(spiral_heading)
{
    // heading and curvature of every clothoid, all parameters symbolic
    double k0 = vf_double("k0", -0.1, 0.1), k1 = vf_double("k1", -0.1, 0.1), L = vf_double("L", 5, 100), h0 = vf_double("h0", 0, 6.28), u = vf_double("u", 0, 1), x, y, h;
    if (vf_int("up", 0, 1)) VF_LEQ(2e-6, k1 - k0); else VF_LEQ(k1 - k0, -2e-6);
    Spiral g(0, 10, -5, h0, L, k0, k1);
    VF_NEAR("curv", g.EvaluateCurvatureDS(u * L), k0 + u * (k1 - k0), T);
}
static const double SP[][4] = {{0, 0.05, 40, 0.3}, {0.04, 0, 50, 2.1}, {-0.03, 0.02, 60, 4.0}, {0.01, 0.06, 30, 5.5}, {0, -0.02, 80, 1.5707963267948966}, {-0.05, -0.01, 35, 3.3}};
VF_CASE(spiral_curve)
{
    // x' = cos h, y' = sin h along concrete clothoids, symbolic position along them
    int    i = vf_thorough() ? vf_int("i", 0, 5) : vf_int("i", 0, 1) * 2;
    double ds = vf_thorough() ? vf_double("ds", 0, SP[i][2] - 1.0) : vf_double("ds", 3, 5), d = 1.0, x, y, h, xm, ym, hm, x1, y1, h1;
    Spiral g(0, 10, -5, SP[i][3], SP[i][2], SP[i][0], SP[i][1]);
    double k0 = SP[i][0], cd = (SP[i][1] - SP[i][0]) / SP[i][2];
    g.EvaluateDS(ds, &x, &y, &h);
    g.EvaluateDS(ds + d, &x1, &y1, &h1);
    VF_NEAR("heading", h, SP[i][3] + k0 * ds + 0.5 * cd * ds * ds, 1e-6);
    // chord of length d: midpoint rule with error below d^3 * (k^2 + cd) / 24
    double mid = SP[i][3] + k0 * (ds + d / 2) + 0.5 * cd * (ds + d / 2) * (ds + d / 2);
    VF_NEAR("dx", x1 - x, d * cos(mid), 2e-3);
    VF_NEAR("dy", y1 - y, d * sin(mid), 2e-3);
}
VF_CASE(spiral_start)
{
    int    i = vf_int("i", 0, 5);
    double x0 = vf_double("x0", -100, 100), y0 = vf_double("y0", -100, 100), h0 = vf_double("h0", 0, 6.28), x, y, h;
    Spiral g(0, x0, y0, h0, SP[i][2], SP[i][0], SP[i][1]);
    g.EvaluateDS(0, &x, &y, &h);
    VF_NEAR("x", x, x0, T);
    VF_NEAR("y", y, y0, T);
    VF_NEAR("h", h, h0, T);
    // same shape whatever the start pose: displacement rotates with the heading
    Spiral r(0, 0, 0, 0, SP[i][2], SP[i][0], SP[i][1]);
    double xr, yr, hr, ds = SP[i][2] * 0.7;
    r.EvaluateDS(ds, &xr, &yr, &hr);
    g.EvaluateDS(ds, &x, &y, &h);
    VF_NEAR("rot_x", x - x0, xr * cos(h0) - yr * sin(h0), T);
    VF_NEAR("rot_y", y - y0, xr * sin(h0) + yr * cos(h0), T);
    VF_NEAR("rot_h", h - h0, hr, T);
}
VF_CASE(spiral_degenerate)
{
    // equal curvatures: an arc or a line
    double k = (const double[]){0, 0.02, -0.03}[vf_int("k", 0, 2)], h0 = vf_double("h0", 0, 6.28), ds = vf_double("ds", 0, 50), x, y, h, xa, ya, ha;
    Spiral g(0, 3, 4, h0, 50, k, k);
    Arc    a(0, 3, 4, h0, 50, k);
    g.EvaluateDS(ds, &x, &y, &h);
    a.EvaluateDS(ds, &xa, &ya, &ha);
    VF_NEAR("x", x, xa, T);
    VF_NEAR("y", y, ya, T);
    VF_NEAR("h", h, ha, T);
    VF_NEAR("curv", g.EvaluateCurvatureDS(ds), k, T);
}
// parametric cubics, (aU aV must be 0, bV 0 for a smooth start): bU cU dU bV cV dV
static const double PP[][6] = {{50, 0, 0, 0, 10, -3}, {40, -4, 2, 0, 0, 20}, {60, 5, -8, 0, -15, 6}};
static double pplen(const double* c)
{
    double len = 0;
    for (int i = 0; i < 20000; i++)
    {
        double p = (i + 0.5) / 20000, du = c[0] + 2 * c[1] * p + 3 * c[2] * p * p, dv = c[3] + 2 * c[4] * p + 3 * c[5] * p * p;
        len += sqrt(du * du + dv * dv) / 20000;
    }
    return len;
}
VF_CASE(parampoly_curve)
{
    int           i = vf_int("i", 0, 2);
    const double* c = PP[i];
    double        L = pplen(c), h0 = (const double[]){0, 1.2, 4.5}[vf_int("h0", 0, 2)];
    ParamPoly3    g(0, 5, 6, h0, L, 0, c[0], c[1], c[2], 0, c[3], c[4], c[5], ParamPoly3::P_RANGE_NORMALIZED);
    double        ds = vf_double("ds", 0.01, L - 1.01), x, y, h, x1, y1, h1, d = 1.0;
    g.EvaluateDS(ds, &x, &y, &h);
    g.EvaluateDS(ds + d, &x1, &y1, &h1);
    // arc length parametrisation: a step of d along s moves by d (curvature below 0.05: chord within 0.2%; table interpolation 1%)
    double c2 = (x1 - x) * (x1 - x) + (y1 - y) * (y1 - y);
    VF_LE("chord_le", c2, d * d * 1.02, 0);
    VF_LE("chord_ge", d * d * 0.97, c2, 0);
    // tangent heading: the chord is aligned with both end headings up to the turn
    VF_LE("aligned", d * 0.99, (x1 - x) * cos(h) + (y1 - y) * sin(h) + 0.02 * d, 0);
    VF_LE("side", fabs(-(x1 - x) * sin(h) + (y1 - y) * cos(h)), 0.05 * d, 0);
}
VF_CASE(parampoly_pose)
{
    int           i = vf_int("i", 0, 2);
    const double* c = PP[i];
    double        x0 = vf_double("x0", -100, 100), y0 = vf_double("y0", -100, 100), h0 = vf_double("h0", 0.01, 6.27), x, y, h, L = pplen(c);
    ParamPoly3    g(0, x0, y0, h0, L, 0, c[0], c[1], c[2], 0, c[3], c[4], c[5], ParamPoly3::P_RANGE_NORMALIZED);
    g.EvaluateDS(0, &x, &y, &h);
    VF_NEAR("x", x, x0, T);
    VF_NEAR("y", y, y0, T);
    VF_NEAR("h", h, h0, T);
    g.EvaluateDS(L, &x, &y, &h);
    double u = c[0] + c[1] + c[2], v = c[3] + c[4] + c[5];
    VF_NEAR("end_x", x, x0 + u * cos(h0) - v * sin(h0), 1e-4);
    VF_NEAR("end_y", y, y0 + u * sin(h0) + v * cos(h0), 1e-4);
    VF_NEAR("end_h", sin(h - h0), (c[3] + 2 * c[4] + 3 * c[5]) / sqrt(pow(c[3] + 2 * c[4] + 3 * c[5], 2) + pow(c[0] + 2 * c[1] + 3 * c[2], 2)), 1e-4);
}
VF_CASE(parampoly_range)
{
    // arcLength parametrisation gives the same curve as the normalized one with scaled coefficients
    int           i = vf_int("i", 0, 2);
    const double* c = PP[i];
    double        L = pplen(c), ds = vf_double("ds", 0, L), x, y, h, x1, y1, h1;
    ParamPoly3    a(0, 5, 6, 0.5, L, 0, c[0], c[1], c[2], 0, c[3], c[4], c[5], ParamPoly3::P_RANGE_NORMALIZED);
    ParamPoly3    b(0, 5, 6, 0.5, L, 0, c[0] / L, c[1] / L / L, c[2] / L / L / L, 0, c[3] / L, c[4] / L / L, c[5] / L / L / L, ParamPoly3::P_RANGE_ARC_LENGTH);
    a.EvaluateDS(ds, &x, &y, &h);
    b.EvaluateDS(ds, &x1, &y1, &h1);
    VF_NEAR("x", x, x1, 1e-4);
    VF_NEAR("y", y, y1, 1e-4);
    VF_NEAR("h", h, h1, 1e-4);
}
static void ppcurv(bool normalized)
{
    int           i = normalized ? 1 : vf_int("i", 0, 2);
    const double* c = PP[i];
    double        L = pplen(c), d = 0.5, q = normalized ? 1 : L;
    ParamPoly3    g(0, 5, 6, 0.5, L, 0, c[0] / q, c[1] / q / q, c[2] / q / q / q, 0, c[3] / q, c[4] / q / q, c[5] / q / q / q, normalized ? ParamPoly3::P_RANGE_NORMALIZED : ParamPoly3::P_RANGE_ARC_LENGTH);
    double        ds = vf_double("ds", 0.01, L - 1.01), x, y, h, h1;
    g.EvaluateDS(ds, &x, &y, &h);
    g.EvaluateDS(ds + d, &x, &y, &h1);
    // mean curvature over the interval is the heading change per metre
    VF_NEAR("mean_curv", (h1 - h) / d, 0.5 * (g.EvaluateCurvatureDS(ds) + g.EvaluateCurvatureDS(ds + d)), normalized ? 1.5e-3 : 8e-3);
}
VF_CASE(parampoly_curvature) { ppcurv(true); }
VF_CASE(parampoly_curvature_arclen) { ppcurv(false); }
VF_CASE(poly3_curve)
{
    // y = c x^2 + d x^3, gentle
    int    i = vf_int("i", 0, 2);
    double cc = (const double[]){0.001, -0.002, 0}[i], dd = (const double[]){0, 0.00002, 0.000005}[i], L = (const double[]){60, 47, 8}[i];
    Poly3  g(0, 0, 0, 0.6, L, 0, 0, cc, dd);
    double ds = vf_double("ds", 0, L), x, y, h;
    g.EvaluateDS(ds, &x, &y, &h);
    double u = x * cos(0.6) + y * sin(0.6), v = -x * sin(0.6) + y * cos(0.6);
    VF_NEAR("on_curve", v, cc * u * u + dd * u * u * u, 1e-6);
    VF_NEAR("tangent", tan(h - 0.6), 2 * cc * u + 3 * dd * u * u, 1e-6);
    // arc length up to u of these gentle curves is below u * (1 + slope^2 / 2); sampled chords of 10 m
    VF_LE("u_le_s", u, ds, 1e-6);
    VF_LE("u_ge", ds * 0.98 - 0.02, u, 0);
}
