// Matrix multiplication.
#include "vf.hpp"
#include "shapes.hpp"
using namespace vf;
using Adv = AdvancedTensorOperations<float>;
#define MM(R, S) void mm_##R##_##S() { TF a = input(A##R, "a"), b = input(B##S, "b"); out("c", Adv::matmul(a, b)); out("a", a); out("b", b); }
MM(1, 1) MM(1, 2) MM(2, 1) MM(2, 2) MM(3, 2) MM(2, 3) MM(3, 3) MM(4, 4) MM(1, 3) MM(3, 1) MM(4, 2) MM(2, 4) MM(4, 3) MM(3, 4) MM(1, 4)
