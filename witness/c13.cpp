// 2-D convolution (C13).
#include "nn.hpp"
using namespace vf;
template <class T> Conv2DLayer<T> layer() {
    Conv2DLayer<T> l(vf_dim("ci"), vf_dim("co"), vf_dim("kh"), vf_dim("kw"), vf_dim("st"), vf_dim("pad"), vf_dim("dil"));
    l.setWeights(input<T>(Shape{vf_dim("co"), vf_dim("ci"), vf_dim("kh"), vf_dim("kw")}, "w"));
    l.setBiases(input<T>(Shape{vf_dim("co"), 1}, "b"));
    return l;
}
#define X Shape{vf_dim("n"), vf_dim("ci"), vf_dim("h"), vf_dim("wd")}
#define Y Shape{vf_dim("n"), vf_dim("co"), vf_dim("oh"), vf_dim("ow")}
template <class T> void params(Conv2DLayer<T>& l) { out("w", l.getWeights()); out("b", l.getBiases()); }
template <class T> void grads(Conv2DLayer<T>& l) { out("wg", l.getWeightGradients()); out("bg", l.getBiasGradients()); }
void fwd() { auto l = layer<float>(); TF a = input(X, "a"); out("c", l.forward(a)); out("a", a); params(l); }
void fwdd() { auto l = layer<double>(); auto a = input<double>(X, "a"); out("c", l.forward(a)); }
void bwd() { auto l = layer<float>(); TF a = input(X, "a"), g = input(Y, "g"); l.forward(a); out("d", l.backward(g)); grads(l); params(l); out("g", g); }
void bwdd() { auto l = layer<double>(); auto a = input<double>(X, "a"), g = input<double>(Y, "g"); l.forward(a); out("d", l.backward(g)); grads(l); }
// forward and backward again with other inputs: nothing accumulates, the most recent input counts
void again() {
    auto l = layer<float>();
    TF a = input(X, "a"), b = input(Shape{vf_dim("n2"), vf_dim("ci"), vf_dim("h"), vf_dim("wd")}, "z"), h = input(Y, "hg"), g = input(Shape{vf_dim("n2"), vf_dim("co"), vf_dim("oh"), vf_dim("ow")}, "g");
    l.forward(a); l.backward(h);
    out("c", l.forward(b)); out("d", l.backward(g)); grads(l); params(l);
}
void square() {         // the constructor for square kernels, default stride, padding and dilation
    Conv2DLayer<float> l(vf_dim("ci"), vf_dim("co"), vf_dim("kh"));
    l.setWeights(input(Shape{vf_dim("co"), vf_dim("ci"), vf_dim("kh"), vf_dim("kh")}, "w")); l.setBiases(input(Shape{vf_dim("co"), 1}, "b"));
    TF a = input(X, "a"); out("c", l.forward(a));
}
void square6() {
    Conv2DLayer<float> l(vf_dim("ci"), vf_dim("co"), vf_dim("kh"), vf_dim("st"), vf_dim("pad"), vf_dim("dil"));
    l.setWeights(input(Shape{vf_dim("co"), vf_dim("ci"), vf_dim("kh"), vf_dim("kh")}, "w")); l.setBiases(input(Shape{vf_dim("co"), 1}, "b"));
    TF a = input(X, "a"); out("c", l.forward(a));
}
void init() {
    Conv2DLayer<float> l(vf_dim("ci"), vf_dim("co"), vf_dim("kh"), vf_dim("kw"), vf_dim("st"), vf_dim("pad"), vf_dim("dil"));
    vf_out_vec("ws", l.getWeights().getShape().getDimensions()); out("b", l.getBiases());
}
template <class T> struct Probe : Optimizer<T> {
    void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& w, const std::vector<std::reference_wrapper<Tensor<T>>>& g, T) override {
        vf_out_int("nw", w.size());
        vf_out_int("ng", g.size());
        out("pw0", w[0].get()); out("pg0", g[0].get());
        out("pw1", w[1].get()); out("pg1", g[1].get());
    }
};
void upd() { auto l = layer<float>(); TF a = input(X, "a"), g = input(Y, "g"); l.forward(a); l.backward(g); Probe<float> p; l.updateWeights(p); }
void evalm() { auto l = layer<float>(); TF a = input(X, "a"), g = input(Y, "g"); l.setTrainingMode(false); out("c", l.forward(a)); out("d", l.backward(g)); grads(l); params(l); }
void rank3() { auto l = layer<float>(); TF a = input(Shape{vf_dim("ci"), vf_dim("h"), vf_dim("wd")}, "a"); l.forward(a); }
void rank2() { auto l = layer<float>(); TF a = input(Shape{vf_dim("h"), vf_dim("wd")}, "a"); l.forward(a); }
void chan() { auto l = layer<float>(); TF a = input(Shape{vf_dim("n"), vf_dim("c2"), vf_dim("h"), vf_dim("wd")}, "a"); l.forward(a); }
