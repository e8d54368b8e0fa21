// Compound assignment, scalar operators, negation, square root and apply.
#include "vf.hpp"
#include "shapes.hpp"
using namespace vf;

#define SCEN(R, S)                                                                              \
    void addeq_##R##_##S() { TF a = input(A##R, "a"), b = input(B##S, "b"); a += b; out("c", a); out("b", b); } \
    void subeq_##R##_##S() { TF a = input(A##R, "a"), b = input(B##S, "b"); a -= b; out("c", a); out("b", b); } \
    void muleq_##R##_##S() { TF a = input(A##R, "a"), b = input(B##S, "b"); a *= b; out("c", a); out("b", b); } \
    void diveq_##R##_##S() { TF a = input(A##R, "a"), b = input(B##S, "b"); a /= b; out("c", a); out("b", b); }
SCEN(1, 1) SCEN(2, 2) SCEN(2, 1) SCEN(1, 2) SCEN(3, 3) SCEN(3, 1) SCEN(3, 2) SCEN(4, 4) SCEN(4, 2)

#define SELF(R)                                                                    \
    void addself_##R() { TF a = input(A##R, "a"); a += a; out("c", a); }           \
    void subself_##R() { TF a = input(A##R, "a"); a -= a; out("c", a); }           \
    void mulself_##R() { TF a = input(A##R, "a"); a *= a; out("c", a); }           \
    void divself_##R() { TF a = input(A##R, "a"); a /= a; out("c", a); }
SELF(1) SELF(2) SELF(3)

#define SC(R)                                                                                          \
    void scalar_##R() {                                                                                \
        TF a = input(A##R, "a");                                                                       \
        float s = vf_real("s");                                                                        \
        out("add", a + s); out("sub", a - s); out("mul", a * s);                                       \
        out("radd", s + a); out("rsub", s - a); out("rmul", s * a); out("rdiv", s / a);                \
        out("neg", -a); out("a", a);                                                                   \
    }                                                                                                  \
    void sqrt_##R() { TF a = input(A##R, "a"); out("c", a.sqrt()); out("a", a); }                      \
    void sdiv_##R() { TF a = input(A##R, "a"); float s = vf_real("s"); vf_assume(s != 0.0f); out("c", a / s); out("a", a); } \
    void sdiv0_##R() { TF a = input(A##R, "a"); out("c", a / 0.0f); }                                  \
    void sdiveq0_##R() { TF a = input(A##R, "a"); a /= 0.0f; out("c", a); }                            \
    void sadd_##R() { TF a = input(A##R, "a"); a += vf_real("s"); out("c", a); }                       \
    void ssub_##R() { TF a = input(A##R, "a"); a -= vf_real("s"); out("c", a); }                       \
    void smul_##R() { TF a = input(A##R, "a"); a *= vf_real("s"); out("c", a); }                       \
    void sdiveq_##R() { TF a = input(A##R, "a"); float s = vf_real("s"); vf_assume(s != 0.0f); a /= s; out("c", a); } \
    void apply_##R() {                                                                                 \
        TF a = input(A##R, "a"), k = input(A##R, "k");                                                 \
        float s = vf_real("s");                                                                        \
        auto f = [s](float x) { return x * x * x + s * x; };                                           \
        out("free", AdvancedTensorOperations<float>::apply(a, f));                                     \
        out("pair", AdvancedTensorOperations<float>::applyPair(a, k, [](float x, float y) { return x * x - y; })); \
        out("a", a);                                                                                   \
        TF& r = a.apply(f);                                                                            \
        out("self", a);                                                                                \
        vf_out_bool("same", &r == &a);                                                                 \
    }                                                                                                  \
    void recip_##R() { TF a = input(A##R, "a"); out("c", AdvancedTensorOperations<float>::reciprocal(a)); out("e", AdvancedTensorOperations<float>::reciprocal(a, vf_real("s"))); }
SC(1) SC(2) SC(3) SC(4)

void pairbad() {
    TF a = input(Shape{vf_dim("a0"), vf_dim("a1")}, "a"), b = input(Shape{vf_dim("b0"), vf_dim("b1")}, "b");
    out("c", AdvancedTensorOperations<float>::applyPair(a, b, [](float x, float y) { return x + y; }));
}
void cmp() {
    TF a = input(A2, "a"), b = input(B2, "b");
    vf_out_bool("eq", a == b);
    vf_out_bool("ne", a != b);
}
void cmpself() {
    TF a = input(A2, "a");
    TF b = a;
    vf_out_bool("eq", a == b);
    vf_out_bool("ne", a != b);
}
void cmpdiff() {
    TF a = input(A2, "a");
    TF b = a;
    b[(size_t)vf_dim("p")] += 1.0f;
    vf_out_bool("eq", a == b);
    vf_out_bool("ne", a != b);
}
void cmprank() {
    TF a = input(A2, "a");
    TF b = a;
    b.reshape(Shape{vf_dim("a0") * vf_dim("a1")});
    vf_out_bool("eq", a == b);
    vf_out_bool("ne", a != b);
}
