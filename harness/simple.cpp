// C17: the simple vehicle model moves as a vehicle within its limits
#include "vf.h"
#include "CommonMini.hpp"
#include "esminiLib.hpp"
#include "vehicle.hpp"
#include <cmath>
typedef SE_SimpleVehicleState S;
struct Car
{
    void* h;
    Car(double v, double head = 0.5, double len = 4.0) { h = SE_SimpleVehicleCreate(10, -5, head, len, v); }
    ~Car() { SE_SimpleVehicleDelete(h); }
    S st()
    {
        S s;
        SE_SimpleVehicleGetState(h, &s);
        return s;
    }
};
static double wrap(double d) { return d > M_PI ? d - 2 * M_PI : d < -M_PI ? d + 2 * M_PI : d; }
// one update of the kinematics: distance, direction and turning follow from speed, wheel angle and time step
static void kin(const S& a, const S& b, double dt, double len)
{
    double dx = b.x - a.x, dy = b.y - a.y, d = b.speed * dt;
    double beta = atan(0.15 * tan(double(b.wheel_angle))), m = double(a.h) + beta;
    VF_NEAR("moves_x", dx, d * cos(m), 1e-4);
    VF_NEAR("moves_y", dy, d * sin(m), 1e-4);
    VF_NEAR("turns", sin(double(b.h) - a.h - d * sin(beta) / (0.15 * len)), 0, 1e-5);
    VF_LE("heading_range", 0, b.h, 1e-9);
    VF_LE("heading_range", b.h, 2 * M_PI, 1e-6);
}
static const double MAXA = 60 * M_PI / 180;
static void binary(int thr, int ste)
{
    double v = vf_double("v", -30, 30), dt = 0.1, acc = 6, dec = 9, mx = 108 / 3.6;
    VF_ASSUME(fabs(v) > 1e-3);
    Car c(v);
    SE_SimpleVehicleSetMaxSpeed(c.h, 108);
    SE_SimpleVehicleSetMaxAcceleration(c.h, acc);
    SE_SimpleVehicleSetMaxDeceleration(c.h, dec);
    SE_SimpleVehicleSetEngineBrakeFactor(c.h, 0.01);
    S a = c.st();
    VF_NEAR("created", a.x, 10, 1e-9);
    VF_NEAR("created", a.y, -5, 1e-9);
    VF_NEAR("created", a.h, 0.5, 1e-9);
    VF_NEAR("created", a.speed, v, 1e-6);
    SE_SimpleVehicleControlBinary(c.h, dt, thr, ste);
    S      b    = c.st();
    double want = thr > 0 ? v + acc * dt : thr < 0 ? v - dec * dt : v * 0.99;
    if (thr < 0 && v > 0 && want < 0) want = 0;  // braking stops the vehicle, it does not set off backwards
    if (want > mx) want = mx;
    if (want < -mx) want = -mx;
    VF_NEAR("speed", b.speed, want, 1e-5);
    VF_LE("max_speed", b.speed, mx, 1e-5);
    VF_LE("max_speed", -mx, b.speed, 1e-5);
    kin(a, b, dt, 4);
    if (ste == 0) VF_NEAR("straight", b.wheel_angle, 0, 1e-9);
    if (ste > 0) VF_ASSERT("steers_left", b.wheel_angle > 1e-4);
    if (ste < 0) VF_ASSERT("steers_right", b.wheel_angle < -1e-4);
    VF_LE("wheel_limit", fabs(b.wheel_angle), MAXA / (1 + 0.02 * want * want), 1e-5);
    if (thr < 0 && v > 0 && v < dec * dt - 1e-3)
    {
        // held while the brake stays pressed
        SE_SimpleVehicleControlBinary(c.h, dt, -1, 0);
        VF_NEAR("held", c.st().speed, 0, 1e-9);
        // released: reversing is possible then
        SE_SimpleVehicleControlBinary(c.h, dt, 0, 0);
        VF_NEAR("held", c.st().speed, 0, 1e-9);
        SE_SimpleVehicleControlBinary(c.h, dt, -1, 0);
        VF_NEAR("reverses", c.st().speed, -dec * dt, 1e-5);
    }
}
VF_CASE(binary_brake_left) { binary(-1, 1); }
VF_CASE(binary_brake) { binary(-1, 0); }
VF_CASE(binary_none_right) { binary(0, -1); }
VF_CASE(binary_none) { binary(0, 0); }
VF_CASE(binary_acc_left) { binary(1, 1); }
VF_CASE(binary_acc_right) { binary(1, -1); }
static void analog(double vlo, double vhi, bool brake)
{
    double v = vf_double("v", vlo, vhi), q = brake ? vf_double("q", -1, -0.1) : vf_double("q", 0.1, 1), dt = 0.1, acc = 6, dec = 9, mx = 30;
    Car    c(v);
    SE_SimpleVehicleSetMaxSpeed(c.h, 108);
    SE_SimpleVehicleSetMaxAcceleration(c.h, acc);
    SE_SimpleVehicleSetMaxDeceleration(c.h, dec);
    S a = c.st();
    SE_SimpleVehicleControlAnalog(c.h, dt, q, 0);
    S      b    = c.st();
    double want = v + (brake ? dec : acc) * q * dt;
    bool   stop = brake && v > 0 && want < 0;
    if (stop) want = 0;
    if (want > mx) want = mx;
    if (want < -mx) want = -mx;
    VF_NEAR("speed", b.speed, want, 1e-5);
    VF_NEAR("straight", b.wheel_angle, 0, 1e-9);
    kin(a, b, dt, 4);
    if (stop)
    {
        SE_SimpleVehicleControlAnalog(c.h, dt, q, 0);
        VF_NEAR("held", c.st().speed, 0, 1e-9);
        SE_SimpleVehicleControlAnalog(c.h, dt, 0.5, 0);
        SE_SimpleVehicleControlAnalog(c.h, dt, 0.5, 0);
        VF_NEAR("sets_off", c.st().speed, acc * 0.5 * dt, 1e-5);
    }
}
VF_CASE(analog_acc) { analog(-10, 30, false); }
VF_CASE(analog_brake_slow) { analog(0.001, 0.9, true); }
VF_CASE(analog_brake) { analog(1, 30, true); }
VF_CASE(analog_reverse) { analog(-30, -0.001, true); }
VF_CASE(analog_steer)
{
    double v = vf_double("v", 0, 30), q = vf_double("steer", -1, 1);
    Car    c(v);
    SE_SimpleVehicleSteeringRate(c.h, 3);
    SE_SimpleVehicleSteeringReturnFactor(c.h, 2);
    S a = c.st();
    SE_SimpleVehicleControlAnalog(c.h, 0.1, 0.001, q);
    S b = c.st();
    VF_NEAR("angle", b.wheel_angle, 3 * q * 0.1 / (1 + 0.005 * b.speed * b.speed) * (1 - 2 * 0.1), 1e-5);
    VF_LE("wheel_limit", fabs(b.wheel_angle), MAXA, 1e-6);
    // steering back to the middle: never past it
    SE_SimpleVehicleControlAnalog(c.h, 0.1, 0.001, 0);
    S d = c.st();
    VF_NEAR("returns", d.wheel_angle, b.wheel_angle * 0.8, 1e-4);
}
VF_CASE(analog_steer_limit)
{
    double v = vf_double("v", 5, 30);
    Car    c(v);
    SE_SimpleVehicleSteeringRate(c.h, 60);
    for (int i = 0; i < 2; i++)
    {
        SE_SimpleVehicleControlAnalog(c.h, 0.1, 0.001, i ? -1 : 1);
        S s = c.st();
        VF_LE("wheel_limit", fabs(s.wheel_angle), MAXA / (1 + 0.005 * s.speed * s.speed), 1e-5);
        if (i) VF_ASSERT("side", s.wheel_angle < 0); else VF_ASSERT("side", s.wheel_angle > 0);
    }
}
VF_CASE(acc_steer)
{
    double v = vf_double("v", -30, 30), q = vf_double("acc", -20, 20), w = 0.2;
    Car    c(v);
    SE_SimpleVehicleSetMaxSpeed(c.h, 90);
    S a = c.st();
    SE_SimpleVehicleControlAccAndSteer(c.h, 0.1, q, w);
    S      b    = c.st();
    double want = v + q * 0.1;
    if (want > 25) want = 25;
    if (want < -25) want = -25;
    VF_NEAR("speed", b.speed, want, 1e-5);
    VF_NEAR("wheel", b.wheel_angle, w, 1e-6);
    kin(a, b, 0.1, 4);
}
VF_CASE(acc_steer_wheel)
{
    double v = 8, w = vf_double("w", -2, 2);
    Car    c(v, 6.2);
    S      a = c.st();
    SE_SimpleVehicleControlAccAndSteer(c.h, 0.1, 0, w);
    S b = c.st();
    VF_NEAR("wheel", b.wheel_angle, w > MAXA ? MAXA : w < -MAXA ? -MAXA : w, 1e-6);
    VF_LE("heading_range", 0, b.h, 1e-9);
    VF_LE("heading_range", b.h, 2 * M_PI, 1e-6);
    if (w > 0.01) VF_ASSERT("left_turn", sin(double(b.h) - 6.2) > 0);
    if (w < -0.01) VF_ASSERT("right_turn", sin(double(b.h) - 6.2) < 0);
}
VF_CASE(disabled)
{
    double v = vf_double("v", -20, 20), q = vf_double("acc", -5, 5);
    Car    c(v);
    SE_SimpleVehicleSetThrottleDisabled(c.h, true);
    SE_SimpleVehicleControlAccAndSteer(c.h, 0.1, q, 0.1);
    VF_NEAR("throttle_off", c.st().speed, v, 1e-6);
    VF_NEAR("wheel", c.st().wheel_angle, 0.1, 1e-6);
    SE_SimpleVehicleControlAnalog(c.h, 0.1, 1, 0);
    VF_NEAR("throttle_off", c.st().speed, v, 1e-6);
    SE_SimpleVehicleControlBinary(c.h, 0.1, 1, 0);
    VF_NEAR("throttle_off", c.st().speed, v, 1e-6);
    SE_SimpleVehicleSetThrottleDisabled(c.h, false);
    SE_SimpleVehicleSetSteeringDisabled(c.h, true);
    double w = c.st().wheel_angle;
    SE_SimpleVehicleControlAccAndSteer(c.h, 0.1, q, -0.3);
    VF_NEAR("throttle_on", c.st().speed, v + q * 0.1, 1e-5);
    VF_NEAR("steer_off", c.st().wheel_angle, w, 1e-6);
    SE_SimpleVehicleControlAnalog(c.h, 0.1, 0, 1);
    VF_NEAR("steer_off", c.st().wheel_angle, w, 1e-6);
    SE_SimpleVehicleControlBinary(c.h, 0.1, 0, 1);
    VF_NEAR("steer_off", c.st().wheel_angle, w, 1e-6);
    auto* o = static_cast<vehicle::Vehicle*>(c.h);
    VF_ASSERT("reads_back", !o->GetThrottleDisabled() && o->GetSteeringDisabled());
    o->SetThrottleDisabled(true);
    o->SetSteeringDisabled(false);
    VF_ASSERT("reads_back", o->GetThrottleDisabled() && !o->GetSteeringDisabled());
}
static void target(bool up)
{
    double v = vf_double("v", 2, 20), t = up ? vf_double("target", 20.5, 60) : vf_double("target", -10, 1.5), w = vf_double("w", -0.1, 0.1);
    Car    c(v);
    SE_SimpleVehicleSetMaxAcceleration(c.h, 5);
    SE_SimpleVehicleSetMaxSpeed(c.h, 36);
    S a = c.st();
    SE_SimpleVehicleControlTarget(c.h, 0.1, t, w);
    S      b  = c.st();
    double dv = t - v > 1 ? 0.5 : t - v < -1 ? -0.5 : 0.5 * (t - v), want = v + dv;
    if (want > 10) want = 10;
    VF_NEAR("speed", b.speed, want, 1e-5);
    double lim = MAXA / (1 + 0.02 * want * want);
    VF_NEAR("wheel", b.wheel_angle, w > lim ? lim : w < -lim ? -lim : w, 1e-5);
}
VF_CASE(target_up) { target(true); }
VF_CASE(target_down) { target(false); }
// braking and letting go never makes a vehicle faster, whatever the sequence
VF_CASE(sequence)
{
    double v = vf_double("v", 0, 3), dt = 0.1;
    Car    c(v);
    SE_SimpleVehicleSetMaxDeceleration(c.h, 10);
    bool   rel = false;
    double last = v;
    for (int i = 0; i < (vf_thorough() ? 5 : 3); i++)
    {
        int k = vf_int(i == 0 ? "k0" : i == 1 ? "k1" : i == 2 ? "k2" : i == 3 ? "k3" : "k4", 0, 1);
        SE_SimpleVehicleControlAnalog(c.h, dt, k ? -0.8 : 0.0, 0);
        double n = c.st().speed;
        if (last > 1e-6)
        {
            VF_LE("slows", n, last, 1e-6);
            VF_LE("not_reversed", 0, n, 1e-9);
        }
        VF_NEAR("limit", n, last, 10 * dt * 0.8 + 1e-5);
        last = n;
    }
}
