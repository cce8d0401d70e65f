// Harness interface of the symbolic runtime.
#pragma once
#include <cstddef>
#include <string>
extern "C"
{
    // fresh symbolic input: a real number in [lo, hi]
    double vf_double(const char* name, double lo, double hi);
    // symbolic integer input in [lo, hi]; every value is a separate branch
    int vf_int(const char* name, int lo, int hi);
    // decimal text which the real code's strtod/atof turns back into the value v (symbolic or not)
    const char* vf_text(double v);
    void        vf_assume_fail();
    void        vf_assume_cmp(int pred, double a, double b);  // constrain without forking
    void        vf_assert_fail(const char* label, const char* expr, const char* file, int line);
    void        vf_assert_pass(const char* label);
    void        vf_near(double a, double b, double tol, const char* label, const char* expr, const char* file, int line);
    void        vf_le(double a, double b, double tol, const char* label, const char* expr, const char* file, int line);
    void        vf_observe(const char* name, double v);
    void        vf_note(const char* text);
    void        vf_done();      // normal end of a path (called for you when the case returns)
    void        vf_register(const char* name, void (*fn)());
    int         vf_is_symbolic(double v);
    int         vf_thorough();  // 1 in the thorough tier
}
// generic assertion: the comparisons inside cond fork, the failing side is the counterexample
#define VF_ASSERT(label, ...)                                    \
    do                                                            \
    {                                                             \
        if ((__VA_ARGS__))                                        \
            vf_assert_pass(label);                                \
        else                                                      \
            vf_assert_fail(label, #__VA_ARGS__, __FILE__, __LINE__);     \
    } while (0)
#define VF_NEAR(label, a, b, tol) vf_near((a), (b), (tol), label, #a " ~ " #b, __FILE__, __LINE__)
#define VF_LE(label, a, b, tol) vf_le((a), (b), (tol), label, #a " <= " #b, __FILE__, __LINE__)
#define VF_ASSUME(...)         \
    do                         \
    {                          \
        if (!(__VA_ARGS__))    \
            vf_assume_fail();  \
    } while (0)
#define VF_LT(a, b) vf_assume_cmp(4, (a), (b))   // a < b
#define VF_LEQ(a, b) vf_assume_cmp(5, (a), (b))  // a <= b
#define VF_CASE(name)                                                                      \
    static void name();                                                                    \
    static struct name##_reg_t                                                             \
    {                                                                                      \
        name##_reg_t() { vf_register(#name, name); }                                       \
    } name##_reg;                                                                          \
    static void name()
