// Reductions.
#include "vf.hpp"
#include "shapes.hpp"
using namespace vf;
using Adv = AdvancedTensorOperations<float>;
using Ax = std::vector<size_t>;

#define ALL(R)                                                                                       \
    void sum_##R() { TF a = input(A##R, "a"); out("c", Adv::sum(a)); out("a", a); }                  \
    void mean_##R() { TF a = input(A##R, "a"); out("c", Adv::mean(a)); out("a", a); }                \
    void var_##R() { TF a = input(A##R, "a"), m = input(Shape{1}, "m"); out("c", Adv::variance(a, m)); out("a", a); out("m", m); }
ALL(1) ALL(2) ALL(3) ALL(4)
#define AXIS(R, X)                                                                                   \
    void sumx_##R##_##X() { TF a = input(A##R, "a"); out("c", Adv::sum(a, (size_t)X)); out("a", a); }
AXIS(1, 0) AXIS(2, 0) AXIS(2, 1) AXIS(3, 0) AXIS(3, 1) AXIS(3, 2) AXIS(4, 0) AXIS(4, 1) AXIS(4, 2) AXIS(4, 3)
#define AXES(R, N, M, ...)                                                                           \
    void sums_##R##_##N() { TF a = input(A##R, "a"); out("c", Adv::sum(a, Ax{__VA_ARGS__})); out("a", a); } \
    void means_##R##_##N() { TF a = input(A##R, "a"); out("c", Adv::mean(a, Ax{__VA_ARGS__})); out("a", a); } \
    void vars_##R##_##N() { TF a = input(A##R, "a"), m = input(Shape M, "m"); out("c", Adv::variance(a, m, Ax{__VA_ARGS__})); out("a", a); out("m", m); }
#define N0 vf_dim("a0")
#define N1 vf_dim("a1")
#define N2 vf_dim("a2")
#define N3 vf_dim("a3")
#define LST(...) {__VA_ARGS__}
AXES(1, 0, LST(1), 0)
AXES(2, 0, LST(1, N1), 0) AXES(2, 1, LST(N0, 1), 1) AXES(2, 01, LST(1, 1), 0, 1) AXES(2, 10, LST(1), 1, 0)
AXES(3, 0, LST(1, N1, N2), 0) AXES(3, 1, LST(N0, 1, N2), 1) AXES(3, 2, LST(N0, N1, 1), 2) AXES(3, 01, LST(1, 1, N2), 0, 1) AXES(3, 20, LST(1, N1, 1), 2, 0) AXES(3, 12, LST(N0, 1, 1), 1, 2) AXES(3, 012, LST(1, 1, 1), 0, 1, 2)
AXES(4, 0, LST(1, N1, N2, N3), 0) AXES(4, 1, LST(N0, 1, N2, N3), 1) AXES(4, 023, LST(1, N1, 1, 1), 0, 2, 3) AXES(4, 13, LST(N0, 1, N2, 1), 1, 3) AXES(4, 23, LST(N0, N1, 1, 1), 2, 3) AXES(4, 302, LST(1, N1, 1, 1), 3, 0, 2) AXES(4, 012, LST(1, 1, 1, N3), 0, 1, 2) AXES(4, 0123, LST(1, 1, 1, 1), 0, 1, 2, 3)

void sums_none() { TF a = input(A2, "a"); out("c", Adv::sum(a, Ax{})); }
void means_none() { TF a = input(A2, "a"); out("c", Adv::mean(a, Ax{})); }
void bad_sum() { TF a = input(A2, "a"); out("c", Adv::sum(a, (size_t)vf_dim("x"))); }
void bad_sums() { TF a = input(A2, "a"); out("c", Adv::sum(a, Ax{(size_t)vf_dim("x")})); }
void bad_sums2() { TF a = input(A3, "a"); out("c", Adv::sum(a, Ax{0, (size_t)vf_dim("x")})); }
void bad_mean() { TF a = input(A2, "a"); out("c", Adv::mean(a, Ax{(size_t)vf_dim("x")})); }
void bad_mean1() { TF a = input(A1, "a"); out("c", Adv::mean(a, Ax{(size_t)vf_dim("x")})); }
void bad_mean2() { TF a = input(A3, "a"); out("c", Adv::mean(a, Ax{1, (size_t)vf_dim("x")})); }
void bad_var() { TF a = input(A2, "a"), m = input(Shape{1, vf_dim("a1")}, "m"); out("c", Adv::variance(a, m, Ax{(size_t)vf_dim("x")})); }
void bad_var_mean() { TF a = input(A2, "a"), m = input(Shape{vf_dim("a0"), vf_dim("a1")}, "m"); out("c", Adv::variance(a, m, Ax{0})); }
