// Indexed access and slicing.
#include "vf.hpp"
#include "shapes.hpp"
using namespace vf;
#define I(n) vf_dim("i" #n)

void at_1() { TF a = input(A1, "a"); vf_out_real("x", a.at({I(0)})); a.at({I(0)}) = vf_real("v"); out("a", a); }
void at_2() { TF a = input(A2, "a"); vf_out_real("x", a.at({I(0), I(1)})); a.at({I(0), I(1)}) = vf_real("v"); out("a", a); }
void at_3() { TF a = input(A3, "a"); vf_out_real("x", a.at({I(0), I(1), I(2)})); a.at({I(0), I(1), I(2)}) = vf_real("v"); out("a", a); }
void at_4() { TF a = input(A4, "a"); const TF& c = a; vf_out_real("x", c.at({I(0), I(1), I(2), I(3)})); a.at({I(0), I(1), I(2), I(3)}) = vf_real("v"); out("a", a); }
void at_const() { const TF a = input(A2, "a"); vf_out_real("x", a.at({I(0), I(1)})); vf_out_real("y", a.getData().at({I(0), I(1)})); vf_out_real("z", a[(size_t)I(0)]); }
void flat_index() { Shape s = A3; vf_out_int("f", (long long)computeFlatIndex(s, {I(0), I(1), I(2)})); }
void few() { TF a = input(A3, "a"); vf_out_real("x", a.at({I(0), I(1)})); }
void many() { TF a = input(A2, "a"); vf_out_real("x", a.at({I(0), I(1), I(2)})); }
void none() { TF a = input(A2, "a"); vf_out_real("x", a.at(std::vector<int>{})); }
void range_1() { TF a = input(A1, "a"); vf_out_real("x", a.at({I(0)})); }
void range_2() { TF a = input(A2, "a"); vf_out_real("x", a.at({I(0), I(1)})); }
void range_3() { const TF a = input(A3, "a"); vf_out_real("x", a.at({I(0), I(1), I(2)})); }
void range_4() { TF a = input(A4, "a"); a.at({I(0), I(1), I(2), I(3)}) = 1.0f; }

void slice_2_0() { TF a = input(A2, "a"); out("c", a.slice(0, I(0))); out("a", a); }
void slice_2_1() { TF a = input(A2, "a"); out("c", a.slice(1, I(0))); out("a", a); }
void slice_3_0() { TF a = input(A3, "a"); out("c", a.slice(0, I(0))); }
void slice_3_1() { TF a = input(A3, "a"); out("c", a.slice(1, I(0))); }
void slice_3_2() { TF a = input(A3, "a"); out("c", a.slice(2, I(0))); }
void slice_4_0() { TF a = input(A4, "a"); out("c", a.slice(0, I(0))); }
void slice_4_1() { TF a = input(A4, "a"); out("c", a.slice(1, I(0))); }
void slice_4_2() { TF a = input(A4, "a"); out("c", a.slice(2, I(0))); }
void slice_4_3() { TF a = input(A4, "a"); out("c", a.slice(3, I(0))); }
void slice_dim() { TF a = input(A3, "a"); out("c", a.slice(vf_dim("d"), I(0))); }
