// Transpose and reshape.
#include "vf.hpp"
#include "shapes.hpp"
using namespace vf;
using Adv = AdvancedTensorOperations<float>;
#define TR(R, X, Y) void tr_##R##_##X##Y() { TF a = input(A##R, "a"); out("c", Adv::transpose(a, X, Y)); out("a", a); }
TR(1, 0, 0) TR(2, 0, 1) TR(2, 1, 0) TR(2, 0, 0) TR(3, 0, 1) TR(3, 0, 2) TR(3, 1, 2) TR(3, 2, 0) TR(3, 1, 1) TR(4, 0, 1) TR(4, 0, 3) TR(4, 1, 2) TR(4, 2, 3) TR(4, 3, 1)
void tr_sym() { TF a = input(A3, "a"); out("c", Adv::transpose(a, (size_t)vf_dim("x"), (size_t)vf_dim("y"))); }
void re_free_2() { TF a = input(A3, "a"); out("c", Adv::reshape(a, Shape{vf_dim("a0") * vf_dim("a1"), vf_dim("a2")})); out("a", a); }
void re_free_1() { TF a = input(A4, "a"); out("c", Adv::reshape(a, Shape{vf_dim("a0") * vf_dim("a1") * vf_dim("a2") * vf_dim("a3")})); }
void re_free_swap() { TF a = input(A2, "a"); out("c", Adv::reshape(a, Shape{vf_dim("a1"), vf_dim("a0")})); out("a", a); }
void re_mem_list() { TF a = input(A2, "a"); a.reshape({1, vf_dim("a0"), vf_dim("a1"), 1}); out("c", a); }
void re_mem_vec() { TF a = input(A2, "a"); std::vector<int> d{vf_dim("a1"), vf_dim("a0")}; a.reshape(d); out("c", a); vf_out_real("x", a.at({vf_dim("x"), vf_dim("y")})); }
void re_mem_shape() { TF a = input(A3, "a"); a.reshape(Shape{vf_dim("a0"), vf_dim("a1") * vf_dim("a2")}); out("c", a); }
void re_bad() { TF a = input(A2, "a"); out("c", Adv::reshape(a, Shape{vf_dim("b0"), vf_dim("b1")})); }
void re_twice() { TF a = input(A3, "a"); TF b = Adv::transpose(Adv::transpose(a, 0, 2), 0, 2); out("c", b); }
