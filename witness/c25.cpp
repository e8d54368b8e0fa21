// Training and evaluation mode of a model (C25).
#include "nn.hpp"
using namespace vf;
using Trace = std::vector<float>;
// records the mode in which it is called
struct Mode : Layer<float> {
    Trace* t; int id;
    Mode(Trace* t, int id) : t(t), id(id) {}
    void tell(int what) { t->push_back((float)what); t->push_back((float)id); t->push_back(this->trainingMode ? 1.0f : 0.0f); }
    TF forward(const TF& x) override { tell(1); return x; }
    TF backward(const TF& g) override { tell(4); return g; }
};
struct Quiet : Optimizer<float> { void optimize(const std::vector<std::reference_wrapper<TF>>&, const std::vector<std::reference_wrapper<TF>>&, float) override {} };
struct Half : Loss<float> {
    TF compute(const TF&, const TF&) override { return TF(Shape{1}, 1.0f); }
    TF gradient(const TF& p, const TF&) override { return p; }
};
void model(SmartDNN<float>& m, Trace* t) { m.addLayer(Mode(t, 1)); m.addLayer(Mode(t, 2)); m.addLayer(Mode(t, 3)); m.compile(Half(), Quiet()); }
TF in() { return input(A1, "x"); }
void fin(const Trace& t) { vf_out_vec("trace", t); }
void md_fresh() { Trace t; SmartDNN<float> m; model(m, &t); TF x = in(); m.predict(x); m.backward(x); fin(t); }
void md_eval() { Trace t; SmartDNN<float> m; model(m, &t); TF x = in(); m.evalMode(); m.predict(x); m.predict(x); m.backward(x); m.updateWeights(); m.predict(x); fin(t); }
void md_batch() { Trace t; SmartDNN<float> m; model(m, &t); std::vector<TF> xs{in(), in()}; m.evalMode(); m.predict(xs); m.predict(xs[0]); fin(t); }
void md_train() { Trace t; SmartDNN<float> m; model(m, &t); std::vector<TF> xs{in()}, ys{in()}; m.train(xs, ys, 2); fin(t); }
void md_evaltrain() { Trace t; SmartDNN<float> m; model(m, &t); std::vector<TF> xs{in()}, ys{in()}; m.evalMode(); m.predict(xs[0]); m.trainingMode(); m.train(xs, ys, 1); m.evalMode(); m.predict(xs[0]); fin(t); }
void md_switch() { Trace t; SmartDNN<float> m; model(m, &t); TF x = in(); m.evalMode(); m.evalMode(); m.predict(x); m.trainingMode(); m.predict(x); m.trainingMode(); m.predict(x); m.evalMode(); m.predict(x); fin(t); }
void md_added() { Trace t; SmartDNN<float> m; model(m, &t); TF x = in(); m.evalMode(); m.addLayer(Mode(&t, 4)); m.predict(x); m.evalMode(); m.predict(x); m.trainingMode(); m.predict(x); fin(t); }
void md_one() { Trace t; SmartDNN<float> m; m.addLayer(Mode(&t, 1)); TF x = in(); m.predict(x); m.evalMode(); m.predict(x); m.trainingMode(); m.predict(x); fin(t); }
void md_many() { Trace t; SmartDNN<float> m; for (int i = 1; i <= 10; ++i) m.addLayer(Mode(&t, i)); m.compile(Half(), Quiet()); TF x = in(); m.evalMode(); m.predict(x); m.trainingMode(); m.predict(x); m.backward(x); m.evalMode(); m.predict(x); m.backward(x); fin(t); }
void md_single() { Trace t; Mode l(&t, 1); TF x = in(); l.forward(x); l.setTrainingMode(false); l.forward(x); Layer<float>& r = l; r.setTrainingMode(true); l.forward(x); fin(t); }
// layers that behave differently in the two modes
BatchNormalizationLayer<float> bn() { return BatchNormalizationLayer<float>(vf_dim("f"), vf_real("eps"), vf_real("mom")); }
TF img(const char* n) { return input(Shape{vf_dim("n"), vf_dim("f")}, n); }
TF img2(const char* n) { return input(Shape{vf_dim("m"), vf_dim("f")}, n); }
// first, middle and last position
void md_layers() {
    SmartDNN<float> m; m.addLayer(bn()); m.addLayer(DropoutLayer<float>(vf_real("rate"))); m.addLayer(DropoutLayer<float>(vf_real("rate")));
    TF z = img("z"), x = img2("x");
    m.predict(z); m.evalMode(); out("c", m.predict(x)); out("c2", m.predict(x)); m.predict(z); out("c3", m.predict(x)); out("x", x);
}
void md_layers2() {
    SmartDNN<float> m; m.addLayer(DropoutLayer<float>(vf_real("rate"))); m.addLayer(bn()); m.addLayer(ActivationLayer<float>(Tanh<float>())); m.addLayer(DropoutLayer<float>(vf_real("rate")));
    TF x = img2("x");
    m.evalMode(); out("c", m.predict(x)); out("c2", m.predict(x));
}
void md_back() {        // back in training mode the batch statistics count again
    SmartDNN<float> m; m.addLayer(bn());
    TF z = img("z"), x = img2("x");
    m.predict(z); m.evalMode(); out("c", m.predict(x)); m.trainingMode(); out("d", m.predict(x)); m.evalMode(); out("e", m.predict(x));
}
void md_last() {
    SmartDNN<float> m; m.addLayer(ActivationLayer<float>(ReLU<float>())); m.addLayer(FlattenLayer<float>()); m.addLayer(bn());
    TF x = img2("x");
    m.evalMode(); out("c", m.predict(x)); out("c2", m.predict(x));
}
// predicting in evaluation mode changes no parameter
void md_params() {
    SmartDNN<float> m; FullyConnectedLayer<float> l(vf_dim("f"), vf_dim("o")); l.setWeights(input(Shape{vf_dim("f"), vf_dim("o")}, "w")); l.setBiases(input(Shape{1, vf_dim("o")}, "b"));
    m.addLayer(std::move(l)); m.evalMode();
    TF x = img("x"), y = img2("y");
    out("c", m.predict(x)); m.predict(y); out("c2", m.predict(x));
    auto* k = static_cast<FullyConnectedLayer<float>*>(m.getLayer(0)); out("w", k->getWeights()); out("b", k->getBiases());
}
void md_convpool() {
    SmartDNN<float> m; m.addLayer(MaxPooling2DLayer<float>(2, 2)); m.addLayer(DropoutLayer<float>(vf_real("rate"))); m.addLayer(FlattenLayer<float>());
    m.evalMode(); TF x = input(Shape{vf_dim("n"), vf_dim("f"), 4, 4}, "x");
    out("c", m.predict(x)); out("c2", m.predict(x));
}
