// Broadcasting arithmetic on every pair of ranks.
#include "vf.hpp"
#include "shapes.hpp"
using namespace vf;


#define SCEN(R, S)                                                                                  \
    void add_##R##_##S() { TF a = input(A##R, "a"), b = input(B##S, "b"); TF c = a + b; out("c", c); } \
    void sub_##R##_##S() { TF a = input(A##R, "a"), b = input(B##S, "b"); TF c = a - b; out("c", c); } \
    void mul_##R##_##S() { TF a = input(A##R, "a"), b = input(B##S, "b"); TF c = a * b; out("c", c); } \
    void div_##R##_##S() { TF a = input(A##R, "a"), b = input(B##S, "b"); TF c = a / b; out("c", c); }

SCEN(1, 1) SCEN(1, 2) SCEN(2, 1) SCEN(2, 2) SCEN(1, 3) SCEN(3, 1) SCEN(2, 3) SCEN(3, 2) SCEN(3, 3)
SCEN(4, 4) SCEN(4, 1) SCEN(1, 4) SCEN(2, 4) SCEN(4, 2) SCEN(3, 4) SCEN(4, 3)
