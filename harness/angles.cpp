// C01: angle arithmetic
#include "vf.h"
#include "CommonMini.hpp"
static const double TOL = 1e-9;
static const double PI2 = 2 * M_PI;
VF_CASE(norm2pi)
{
    double a = vf_double("a", -31, 31);
    double r = GetAngleInInterval2PI(a);
    VF_LE("ge0", 0, r, 0);
    VF_LE("le2pi", r, PI2, TOL);
    VF_NEAR("same_sin", sin(r), sin(a), TOL);
    VF_NEAR("same_cos", cos(r), cos(a), TOL);
}
VF_CASE(normpi)
{
    double a = vf_double("a", -31, 31);
    double r = GetAngleInIntervalMinusPIPlusPI(a);
    VF_LE("gemin", -M_PI, r, TOL);
    VF_LE("lemax", r, M_PI, TOL);
    VF_NEAR("same_sin", sin(r), sin(a), TOL);
    VF_NEAR("same_cos", cos(r), cos(a), TOL);
}
VF_CASE(diff)
{
    double a = vf_double("a", -14, 14);
    double b = vf_double("b", -14, 14);
    double r = GetAngleDifference(a, b);
    VF_LE("le", r, M_PI, TOL);
    VF_LE("ge", -M_PI, r, TOL);
    VF_NEAR("same_sin", sin(r), sin(a - b), TOL);
    VF_NEAR("same_cos", cos(r), cos(a - b), TOL);
    VF_NEAR("antisymmetric", GetAngleDifference(b, a), -r, TOL);
}
VF_CASE(absdiff)
{
    double a = vf_double("a", -10, 10);
    double b = vf_double("b", -10, 10);
    double r = GetAbsAngleDifference(a, b);
    VF_LE("le", r, M_PI, TOL);
    VF_LE("ge", 0, r, TOL);
    VF_NEAR("same_cos", cos(r), cos(a - b), TOL);
    VF_NEAR("symmetric", GetAbsAngleDifference(b, a), r, TOL);
    VF_NEAR("abs_of_diff", fabs(GetAngleDifference(a, b)), r, TOL);
}
VF_CASE(sum)
{
    double a = vf_double("a", -14, 14);
    double b = vf_double("b", -14, 14);
    double r = GetAngleSum(a, b);
    VF_LE("ge0", 0, r, 0);
    VF_LE("le2pi", r, PI2, TOL);
    VF_NEAR("same_sin", sin(r), sin(a + b), TOL);
    VF_NEAR("same_cos", cos(r), cos(a + b), TOL);
}
VF_CASE(forward)
{
    double a = vf_double("a", -20, 20);
    bool   f = IsAngleForward(a);
    // forward means within 90 degrees of straight ahead
    if (f) VF_LE("cos_ge_0", 0, cos(a), TOL);
    else VF_LE("cos_le_0", cos(a), 0, TOL);
}
VF_CASE(ofvector)
{
    int    q  = vf_int("quadrant", 0, 3);
    double a  = vf_double("a", 0.001, 50), b = vf_double("b", 0.001, 50);
    double x  = (q == 0 || q == 3) ? a : -a, y = q < 2 ? b : -b;
    double r  = GetAngleOfVector(x, y), l = sqrt(x * x + y * y);
    VF_LE("ge0", 0, r, 0);
    VF_LE("le2pi", r, PI2, TOL);
    VF_NEAR("dir_x", l * cos(r), x, 1e-6);
    VF_NEAR("dir_y", l * sin(r), y, 1e-6);
}
VF_CASE(ofvector_axis)
{
    double b  = vf_double("b", 1, 50);
    int    k  = vf_int("axis", 0, 3);
    double x = k == 0 ? b : k == 2 ? -b : 0, y = k == 1 ? b : k == 3 ? -b : 0;
    VF_NEAR("axis_angle", GetAngleOfVector(x, y), k * M_PI_2, 2e-6);
}
VF_CASE(between)
{
    int    q1 = vf_int("q1", 0, 3), q2 = vf_int("q2", 0, 3);
    double x1 = vf_double("x1", 0.1, 10), y1 = vf_double("y1", 0.1, 10), x2 = vf_double("x2", 0.1, 10), y2 = vf_double("y2", 0.1, 10);
    if (q1 == 1 || q1 == 2) x1 = -x1;
    if (q1 >= 2) y1 = -y1;
    if (q2 == 1 || q2 == 2) x2 = -x2;
    if (q2 >= 2) y2 = -y2;
    double r = GetSignedAngleBetweenVectors(x1, y1, x2, y2), u = GetAngleBetweenVectors(x1, y1, x2, y2);
    double l1 = sqrt(x1 * x1 + y1 * y1), l2 = sqrt(x2 * x2 + y2 * y2);
    VF_LE("le", r, M_PI, TOL);
    VF_LE("ge", -M_PI, r, TOL);
    VF_NEAR("unsigned", u, fabs(r), TOL);
    // rotating vector 1 by r gives the direction of vector 2
    VF_NEAR("rot_x", (x1 * cos(r) - y1 * sin(r)) * l2, x2 * l1, 1e-6);
    VF_NEAR("rot_y", (x1 * sin(r) + y1 * cos(r)) * l2, y2 * l1, 1e-6);
}
