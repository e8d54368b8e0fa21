// Fully connected layer (C12).
#include "nn.hpp"
using namespace vf;
using FC = FullyConnectedLayer<float>;
template <class T> FullyConnectedLayer<T> layer() {
    FullyConnectedLayer<T> l(vf_dim("i"), vf_dim("o"));
    l.setWeights(input<T>(Shape{vf_dim("i"), vf_dim("o")}, "w"));
    l.setBiases(input<T>(Shape{1, vf_dim("o")}, "b"));
    return l;
}
template <class T> void params(FullyConnectedLayer<T>& l) { out("w", l.getWeights()); out("b", l.getBiases()); }
template <class T> void grads(FullyConnectedLayer<T>& l) { out("wg", l.getWeightGradients()); out("bg", l.getBiasGradients()); }
// hands the parameters over without changing them
template <class T> struct Probe : Optimizer<T> {
    void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& w, const std::vector<std::reference_wrapper<Tensor<T>>>& g, T) override {
        vf_out_int("nw", w.size());
        vf_out_int("ng", g.size());
        out("pw0", w[0].get()); out("pg0", g[0].get());
        out("pw1", w[1].get()); out("pg1", g[1].get());
    }
};
void fwd2() { auto l = layer<float>(); TF a = input(A2, "a"); out("c", l.forward(a)); out("a", a); params(l); }
void fwd2d() { auto l = layer<double>(); auto a = input<double>(A2, "a"); out("c", l.forward(a)); out("a", a); params(l); }
void fwd1() { auto l = layer<float>(); TF a = input(A1, "a"); out("c", l.forward(a)); out("a", a); params(l); }
void fwdbase() { auto l = layer<float>(); TF a = input(A2, "a"), b = input(B2, "b2"); Layer<float>& r = l; r.forward(a); out("c", r.forward(b)); out("d", r.forward(a)); }
void bwd2() { auto l = layer<float>(); TF a = input(A2, "a"), g = input(Shape{vf_dim("a0"), vf_dim("o")}, "g"); l.forward(a); out("d", l.backward(g)); grads(l); params(l); out("g", g); out("a", a); }
void bwd1() { auto l = layer<float>(); TF a = input(A1, "a"), g = input(Shape{vf_dim("o")}, "g"); l.forward(a); out("d", l.backward(g)); grads(l); params(l); }
void bwdlast() {        // the most recent forward input counts, and gradients do not accumulate
    auto l = layer<float>();
    TF a = input(A2, "a"), b = input(B2, "b2"), h = input(Shape{vf_dim("a0"), vf_dim("o")}, "h"), g = input(Shape{vf_dim("b0"), vf_dim("o")}, "g");
    l.forward(a); l.backward(h);
    l.forward(b); out("d", l.backward(g)); grads(l); params(l);
}
void bwdtwice() {
    auto l = layer<float>();
    TF a = input(A2, "a"), h = input(Shape{vf_dim("a0"), vf_dim("o")}, "h"), g = input(Shape{vf_dim("a0"), vf_dim("o")}, "g");
    l.forward(a); l.backward(h); out("d", l.backward(g)); grads(l); params(l);
}
void bwdkeep() {        // the layer keeps its own copy of the input
    auto l = layer<float>();
    TF a = input(A2, "a"), g = input(Shape{vf_dim("a0"), vf_dim("o")}, "g");
    l.forward(a); a *= 0.0f; out("d", l.backward(g)); grads(l);
}
void upd() { auto l = layer<float>(); TF a = input(A2, "a"), g = input(Shape{vf_dim("a0"), vf_dim("o")}, "g"); l.forward(a); l.backward(g); Probe<float> p; l.updateWeights(p); params(l); }
void evalm() { auto l = layer<float>(); TF a = input(A2, "a"), g = input(Shape{vf_dim("a0"), vf_dim("o")}, "g"); l.setTrainingMode(false); out("c", l.forward(a)); out("d", l.backward(g)); grads(l); params(l); }
void init() { FC l(vf_dim("i"), vf_dim("o")); out("b", l.getBiases()); vf_out_vec("ws", l.getWeights().getShape().getDimensions()); }
void own() { FC l(vf_dim("i"), vf_dim("o")); TF w = input(Shape{vf_dim("i"), vf_dim("o")}, "w"), b = input(Shape{1, vf_dim("o")}, "b"); l.setWeights(w); l.setBiases(b); w *= 0.0f; b *= 0.0f; params(l); }
