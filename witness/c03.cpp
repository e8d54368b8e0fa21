// Value semantics: writes through one object are never visible in another.
#include "vf.hpp"
#include "shapes.hpp"
using namespace vf;
using Adv = AdvancedTensorOperations<float>;

#define P ((size_t)vf_dim("p"))
#define V (vf_real("v"))

void copy_dst() { TF a = input(A2, "a"); TF b = a; b[P] = V; out("a", a); out("b", b); }
void copy_src() { TF a = input(A2, "a"); TF b = a; a[P] = V; out("a", a); out("b", b); }
void assign_dst() { TF a = input(A2, "a"); TF b = input(B3, "b"); b = a; b[P] = V; out("a", a); out("b", b); }
void assign_src() { TF a = input(A2, "a"); TF b = input(B1, "b"); b = a; a[P] = V; out("a", a); out("b", b); }
void assign_self() { TF a = input(A2, "a"); TF& r = a; a = r; out("a", a); out("b", a); }
void assign_chain() { TF a = input(A2, "a"); TF b = input(B1, "b"); TF c = input(B3, "c"); c = b = a; b[P] = V; out("a", a); out("b", b); out("c", c); }
void data_copy() { TF a = input(A2, "a"); TensorData<float, CPUDevice> d = a.getData(); d[P] = V; TF b(d); d[P] = 0.0f; out("a", a); out("b", b); }
void data_assign() { TF a = input(A2, "a"); TF c = input(B1, "c"); TensorData<float, CPUDevice> d = c.getData(); d = a.getData(); d[P] = V; TF b(d); out("a", a); out("b", b); }
void from_array() { TF a = input(A2, "a"); TF b(a.getShape(), (const float*)a.getData().data()); b[P] = V; out("a", a); out("b", b); }
void from_array_mut() { TF a = input(A2, "a"); TensorData<float, CPUDevice> d(a.getShape(), a.getData().data()); d[P] = V; TF b(d); out("a", a); out("b", b); }
void from_vector() { std::vector<float> x((size_t)(vf_dim("a0") * vf_dim("a1"))); vf_fill(x.data(), "a"); TF b(A2, x); b[P] = V; TF a(A2, (const float*)x.data()); out("a", a); out("b", b); }
void from_vector_move() { std::vector<float> x((size_t)(vf_dim("a0") * vf_dim("a1"))); vf_fill(x.data(), "a"); TF a(A2, (const float*)x.data()); TF b(A2, std::move(x)); b[P] = V; out("a", a); out("b", b); }
void reshape_free() { TF a = input(A2, "a"); TF b = Adv::reshape(a, Shape{vf_dim("a0"), vf_dim("a1")}); b[P] = V; out("a", a); out("b", b); }
void apply_free() { TF a = input(A2, "a"); TF b = Adv::apply(a, [](float x) { return x; }); b[P] = V; out("a", a); out("b", b); }
void op_scalar() { TF a = input(A2, "a"); TF b = a + 0.0f; b[P] = V; out("a", a); out("b", b); }
void op_tensor() { TF a = input(A2, "a"); TF z = TF::zeros(A2); TF b = a + z; b[P] = V; out("a", a); out("b", b); }
void op_src() { TF a = input(A2, "a"); TF z = TF::zeros(A2); TF b = a - z; a[P] = V; out("a", a); out("b", b); }
void slice_dst() { TF a = input(A2, "a"); TF b = a.slice(0, vf_dim("q")); b[P] = V; out("a", a); out("b", b); }
void slice_src() { TF a = input(A2, "a"); TF b = a.slice(0, vf_dim("q")); a[P] = V; out("a", a); out("b", b); }
void transpose_dst() { TF a = input(A2, "a"); TF b = Adv::transpose(a, 0, 1); b[P] = V; out("a", a); out("b", b); }
void sum_dst() { TF a = input(A2, "a"); TF b = Adv::sum(a, (size_t)0); b[P] = V; out("a", a); }
void mean_dst() { TF a = input(A2, "a"); TF b = Adv::mean(a, {0}); TF c = Adv::variance(a, b, {0}); c[P] = V; out("a", a); }
void matmul_dst() { TF a = input(A2, "a"); TF b = input(B2, "b"); TF c = Adv::matmul(a, b); c[P] = V; out("a", a); out("b", b); }

void move_ctor() { TF a = input(A2, "a"); TF b = std::move(a); out("b", b); out("a", a); TF s = a + a; out("s", s); a = b; a[P] = V; out("a2", a); out("b2", b); }
void move_assign() { TF a = input(A2, "a"); TF b = input(B3, "b"); b = std::move(a); out("b", b); out("a", a); TF s = a * 2.0f; out("s", s); TF t = a; out("t", t); a = b; a[P] = V; out("a2", a); out("b2", b); }
void move_from_data() { TF a = input(A2, "a"); TensorData<float, CPUDevice> d = a.getData(); TF b(std::move(d)); b[P] = V; out("a", a); out("b", b); }
void shape_indep() { Shape s = A2; TF a = input(s, "a"); Shape t = a.getShape(); t.reshape(std::vector<int>{vf_dim("a1"), vf_dim("a0")}); TF b = a; b.reshape(t); b[P] = V; out("a", a); out("b", b); }
TF by_value(TF x) { x[P] = V; return x; }
void param() { TF a = input(A2, "a"); TF b = by_value(a); out("a", a); out("b", b); }
