// Batch normalization (C15, C16).
#include "nn.hpp"
using namespace vf;
#define X2 Shape{vf_dim("n"), vf_dim("f")}
#define X4 Shape{vf_dim("n"), vf_dim("f"), vf_dim("h"), vf_dim("w")}
#define Y2 Shape{vf_dim("m"), vf_dim("f")}
#define Y4 Shape{vf_dim("m"), vf_dim("f"), vf_dim("u"), vf_dim("v")}
// gives the scale and shift arbitrary values, through the optimizer interface
template <class T> struct Setter : Optimizer<T> {
    void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& w, const std::vector<std::reference_wrapper<Tensor<T>>>&, T) override {
        vf_fill(w[0].get().getData().data(), "ga");
        vf_fill(w[1].get().getData().data(), "be");
    }
};
template <class T> struct Probe : Optimizer<T> {
    void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& w, const std::vector<std::reference_wrapper<Tensor<T>>>& g, T) override {
        vf_out_int("nw", w.size());
        vf_out_int("ng", g.size());
        std::vector<int> one{vf_dim("f")};
        for (const char* n : {"pw0", "pw1", "pg0", "pg1"}) vf_out_vec(n, one);
        vf_out_arr("pw0", w[0].get().getData().data(), (long long)w[0].get().getShape().size());
        vf_out_arr("pw1", w[1].get().getData().data(), (long long)w[1].get().getShape().size());
        vf_out_arr("pg0", g[0].get().getData().data(), (long long)g[0].get().getShape().size());
        vf_out_arr("pg1", g[1].get().getData().data(), (long long)g[1].get().getShape().size());
    }
};
template <class T> BatchNormalizationLayer<T> make() { return BatchNormalizationLayer<T>(vf_dim("f"), (T)vf_real("eps"), (T)vf_real("mom")); }
template <class T> void parameters(BatchNormalizationLayer<T>& l) {
    auto z = input<T>(Shape{vf_dim("k"), vf_dim("f")}, "z"), y = input<T>(Shape{vf_dim("k"), vf_dim("f")}, "y");
    l.forward(z); l.backward(y);
    Setter<T> s; l.updateWeights(s);
}
template <class T> void probe(BatchNormalizationLayer<T>& l) { Probe<T> p; l.updateWeights(p); }
template <class T> void first(const Shape& s, const Shape& t) {
    auto l = make<T>(); auto a = input<T>(s, "a"), b = input<T>(t, "b");
    out("c", l.forward(a)); out("a", a);
    l.setTrainingMode(false); out("d", l.forward(b)); out("b", b);
}
template <class T> void scaled(const Shape& s, const Shape& t) {
    auto l = make<T>(); parameters(l); auto a = input<T>(s, "a"), b = input<T>(t, "b");
    out("c", l.forward(a));
    l.setTrainingMode(false); out("d", l.forward(b));
}
void first2() { first<float>(X2, Y2); }
void first4() { first<float>(X4, Y4); }
void first24() { first<float>(X2, Y4); }
void first42() { first<float>(X4, Y2); }
void first2d() { first<double>(X2, Y2); }
void first4d() { first<double>(X4, Y4); }
void scaled2() { scaled<float>(X2, Y2); }
void scaled4() { scaled<float>(X4, Y4); }
void fresh2() { auto l = make<float>(); TF b = input(Y2, "b"); l.setTrainingMode(false); out("d", l.forward(b)); }
void fresh4() { auto l = make<float>(); TF b = input(Y4, "b"); l.setTrainingMode(false); out("d", l.forward(b)); }
void defaults() {
    BatchNormalizationLayer<float> l(vf_dim("f")); TF a = input(X2, "a"), b = input(Y2, "b");
    out("c", l.forward(a)); l.setTrainingMode(false); out("d", l.forward(b));
}
// evaluations between two training calls
template <class T> void history(const Shape& s, const Shape& t) {
    auto l = make<T>(); auto a = input<T>(s, "a"), b = input<T>(t, "b"), z = input<T>(t, "z");
    out("c", l.forward(a));
    l.setTrainingMode(false); out("d", l.forward(b)); out("d", l.forward(b));
    l.setTrainingMode(true); out("cz", l.forward(z));
    l.setTrainingMode(false); out("d2", l.forward(b));
}
void history2() { history<float>(X2, Y2); }
void history4() { history<float>(X4, Y4); }
void rank1() { auto l = make<float>(); TF a = input(Shape{vf_dim("f")}, "a"); l.forward(a); }
void rank3() { auto l = make<float>(); TF a = input(Shape{vf_dim("n"), vf_dim("f"), vf_dim("w")}, "a"); l.forward(a); }
void rank3e() { auto l = make<float>(); TF a = input(Shape{vf_dim("n"), vf_dim("f"), vf_dim("w")}, "a"); l.setTrainingMode(false); l.forward(a); }
void features() { auto l = make<float>(); TF a = input(Shape{vf_dim("n"), vf_dim("g")}, "a"); l.forward(a); }
void features4() { auto l = make<float>(); TF a = input(Shape{vf_dim("n"), vf_dim("g"), vf_dim("h"), vf_dim("w")}, "a"); l.forward(a); }
// ---- backward
template <class T> void bwd(const Shape& s) {
    auto l = make<T>(); auto a = input<T>(s, "a"), g = input<T>(s, "g");
    l.forward(a); out("d", l.backward(g)); probe(l); out("g", g);
}
template <class T> void bwds(const Shape& s) {
    auto l = make<T>(); parameters(l); auto a = input<T>(s, "a"), g = input<T>(s, "g");
    l.forward(a); out("d", l.backward(g)); probe(l);
}
void bwd2() { bwd<float>(X2); }
void bwd4() { bwd<float>(X4); }
void bwd2d() { bwd<double>(X2); }
void bwd4d() { bwd<double>(X4); }
void bwds2() { bwds<float>(X2); }
void bwds4() { bwds<float>(X4); }
template <class T> void last(const Shape& s, const Shape& t) {
    auto l = make<T>(); auto z = input<T>(t, "z"), y = input<T>(t, "y"), a = input<T>(s, "a"), g = input<T>(s, "g");
    l.forward(z); l.backward(y); l.forward(a); out("d", l.backward(g)); out("d", l.backward(g)); probe(l);
}
void last2() { last<float>(X2, Y2); }
void last4() { last<float>(X4, Y4); }
void last24() { last<float>(X2, Y4); }
void last42() { last<float>(X4, Y2); }
void noforward() { auto l = make<float>(); TF g = input(X2, "g"); l.backward(g); }
