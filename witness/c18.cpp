// Flatten and activation layers (C18).
#include "nn.hpp"
using namespace vf;
void flat(const Shape& s, const Shape& t) {
    FlattenLayer<float> l; TF a = input(s, "a"), g = input(t, "g");
    out("c", l.forward(a)); out("d", l.backward(g)); out("a", a); out("g", g);
}
void flat2() { flat(A2, A2); }
void flat3() { Shape t{vf_dim("a0"), vf_dim("a1") * vf_dim("a2")}; flat(A3, t); }
void flat4() { Shape t{vf_dim("a0"), vf_dim("a1") * vf_dim("a2") * vf_dim("a3")}; flat(A4, t); }
void flat5() { Shape s{vf_dim("a0"), vf_dim("a1"), vf_dim("a2"), vf_dim("a3"), 2}, t{vf_dim("a0"), vf_dim("a1") * vf_dim("a2") * vf_dim("a3") * 2}; flat(s, t); }
void flat4d() {
    FlattenLayer<double> l; auto a = input<double>(A4, "a"), g = input<double>(Shape{vf_dim("a0"), vf_dim("a1") * vf_dim("a2") * vf_dim("a3")}, "g");
    out("c", l.forward(a)); out("d", l.backward(g));
}
void flat1() { FlattenLayer<float> l; TF a = input(A1, "a"); l.forward(a); }
template <class A> void seq(A a, A b, const Shape& s, const Shape& t) {
    FlattenLayer<float> l; TF x = input(a, "a"), y = input(b, "b"), g = input(s, "g"), h = input(t, "h");
    out("c", l.forward(x)); out("d", l.backward(g)); out("c2", l.forward(y)); out("d2", l.backward(h)); out("d2", l.backward(h));
}
void seq42() { Shape s{vf_dim("a0"), vf_dim("a1") * vf_dim("a2") * vf_dim("a3")}; seq(A4, B2, s, B2); }
void seq24() { Shape s{vf_dim("b0"), vf_dim("b1") * vf_dim("b2") * vf_dim("b3")}; seq(A2, B4, A2, s); }
void seq34() { Shape s{vf_dim("a0"), vf_dim("a1") * vf_dim("a2")}, t{vf_dim("b0"), vf_dim("b1") * vf_dim("b2") * vf_dim("b3")}; seq(A3, B4, s, t); }
void seqeval() {
    FlattenLayer<float> l; TF x = input(A4, "a"), y = input(B3, "b"), h = input(Shape{vf_dim("b0"), vf_dim("b1") * vf_dim("b2")}, "h");
    l.forward(x); l.setTrainingMode(false); out("c2", l.forward(y)); out("d2", l.backward(h));
}
void flatnone() { FlattenLayer<float> l; TF g = input(A2, "g"); l.backward(g); }
void flatupd() { FlattenLayer<float> l; TF a = input(A3, "a"); SGDOptimizer<float> o; l.forward(a); l.updateWeights(o); out("c", l.forward(a)); }
template <class T, class Act> void act(Act&& f, const Shape& s) {
    ActivationLayer<T> l(std::forward<Act>(f)); auto a = input<T>(s, "a"), g = input<T>(s, "g");
    out("c", l.forward(a)); out("d", l.backward(g)); out("a", a); out("g", g);
}
template <class Act> void acts(Act&& f) {
    ActivationLayer<float> l(std::forward<Act>(f)); Layer<float>& r = l;
    TF a = input(A2, "a"), g = input(A2, "g"), b = input(B3, "b"), h = input(B3, "h");
    out("c", r.forward(a)); out("d", r.backward(g)); out("c2", r.forward(b)); out("d2", r.backward(h)); out("d2", r.backward(h));
    r.setTrainingMode(false); out("c", r.forward(a)); out("d", r.backward(g));
}
void actnone() { ActivationLayer<float> l(ReLU<float>{}); TF g = input(A2, "g"); l.backward(g); }
void actkeep() { ActivationLayer<float> l(Sigmoid<float>{}); TF a = input(A2, "a"), g = input(A2, "g"), z = input(A2, "z"); l.forward(a); a = z; out("d", l.backward(g)); }
void actlv() { Sigmoid<float> s; ActivationLayer<float> l(s), m(s); TF a = input(A2, "a"), g = input(A2, "g"), b = input(A2, "z"); l.forward(a); m.forward(b); out("d", l.backward(g)); }
void act_relu() { act<float>(ReLU<float>{}, A2); }
void actd_relu() { act<double>(ReLU<double>{}, A4); }
void acts_relu() { acts(ReLU<float>{}); }
void act_leaky() { act<float>(LeakyReLU<float>{vf_real("alpha")}, A2); }
void actd_leaky() { act<double>(LeakyReLU<double>{vf_dreal("alpha")}, A4); }
void acts_leaky() { acts(LeakyReLU<float>{vf_real("alpha")}); }
void act_sigmoid() { act<float>(Sigmoid<float>{}, A2); }
void actd_sigmoid() { act<double>(Sigmoid<double>{}, A4); }
void acts_sigmoid() { acts(Sigmoid<float>{}); }
void act_tanh() { act<float>(Tanh<float>{}, A2); }
void actd_tanh() { act<double>(Tanh<double>{}, A4); }
void acts_tanh() { acts(Tanh<float>{}); }
void act_softmax() { act<float>(Softmax<float>{}, A2); }
void actd_softmax() { act<double>(Softmax<double>{}, A4); }
void acts_softmax() { acts(Softmax<float>{}); }
void act_swish() { act<float>(Swish<float>{}, A2); }
void actd_swish() { act<double>(Swish<double>{}, A4); }
void acts_swish() { acts(Swish<float>{}); }
void act_mish() { act<float>(Mish<float>{}, A2); }
void actd_mish() { act<double>(Mish<double>{}, A4); }
void acts_mish() { acts(Mish<float>{}); }
