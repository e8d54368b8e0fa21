// The model class (C24, C25, C26).
#include "nn.hpp"
using namespace vf;
using Trace = std::vector<float>;
// what a layer, a loss or an optimizer was called with, in the order of the calls
inline void note(Trace* t, int what, int who, float v) { t->push_back((float)what); t->push_back((float)who); t->push_back(v); }
struct Aff : Layer<float> {
    Trace* t; int id; float a, b, c, d;
    Aff(Trace* t, int id, float a, float b, float c, float d) : t(t), id(id), a(a), b(b), c(c), d(d) {}
    TF forward(const TF& x) override { note(t, 1, id, x.getData().data()[0]); return x * a + b; }
    TF backward(const TF& g) override { note(t, 4, id, g.getData().data()[0]); return g * c + d; }
    void updateWeights(Optimizer<float>& o) override { note(t, 5, id, 0); TF w(Shape{1}, (float)id), g(Shape{1}, 0.0f); o.optimize({std::ref(w)}, {std::ref(g)}); }
};
struct PLoss : Loss<float> {
    Trace* t; float a, b;
    PLoss(Trace* t, float a, float b) : t(t), a(a), b(b) {}
    TF compute(const TF& p, const TF& y) override { note(t, 2, 0, p.getData().data()[0]); note(t, 2, 1, y.getData().data()[0]); return TF(Shape{1}, 1.0f); }
    TF gradient(const TF& p, const TF& y) override { note(t, 3, 0, p.getData().data()[0]); note(t, 3, 1, y.getData().data()[0]); return p * a + y * b; }
};
struct POpt : Optimizer<float> {
    Trace* t; int id;
    POpt(Trace* t, int id) : t(t), id(id) {}
    void optimize(const std::vector<std::reference_wrapper<TF>>& w, const std::vector<std::reference_wrapper<TF>>&, float) override { note(t, 6, id, w[0].get().getData().data()[0]); }
};
Aff aff1(Trace* t) { return Aff(t, 1, vf_real("p1"), vf_real("q1"), vf_real("r1"), vf_real("s1")); }
Aff aff2(Trace* t) { return Aff(t, 2, vf_real("p2"), vf_real("q2"), vf_real("r2"), vf_real("s2")); }
Aff aff3(Trace* t) { return Aff(t, 3, vf_real("p3"), vf_real("q3"), vf_real("r3"), vf_real("s3")); }
void fillm(SmartDNN<float>& m, Trace* t, int layers) {
    if (layers >= 1) m.addLayer(aff1(t));
    if (layers >= 2) m.addLayer(aff2(t));
    if (layers >= 3) m.addLayer(aff3(t));
    for (int i = 3; i < layers; ++i) { Aff l = i % 3 == 0 ? aff1(t) : i % 3 == 1 ? aff2(t) : aff3(t); l.id = i + 1; m.addLayer(l); }
}
void trace(const Trace& t) { vf_out_vec("trace", t); }

void m_predict() { Trace t; SmartDNN<float> m; fillm(m, &t, vf_dim("layers")); TF x = input(A2, "x"); out("c", m.predict(x)); out("x", x); trace(t); }
void m_predictbatch() {
    Trace t; SmartDNN<float> m; fillm(m, &t, vf_dim("layers"));
    std::vector<TF> xs;
    if (vf_dim("samples") >= 1) xs.push_back(input(A1, "x0"));
    if (vf_dim("samples") >= 2) xs.push_back(input(B1, "x1"));
    if (vf_dim("samples") >= 3) xs.push_back(input(A1, "x2"));
    for (int i = 3; i < vf_dim("samples"); ++i) xs.push_back(xs[i - 3]);
    auto r = m.predict(xs);
    vf_out_int("n", (long long)r.size());
    if (r.size() >= 1) out("c0", r[0]);
    if (r.size() >= 2) out("c1", r[1]);
    if (r.size() >= 3) out("c2", r[2]);
    trace(t);
}
void m_backw() { Trace t; SmartDNN<float> m; fillm(m, &t, vf_dim("layers")); TF g = input(A2, "g"); m.backward(g); out("g", g); trace(t); }
void m_update() { Trace t; SmartDNN<float> m; fillm(m, &t, vf_dim("layers")); m.compile(PLoss(&t, 1, 1), POpt(&t, 7)); m.updateWeights(); trace(t); }
void m_recompile() { Trace t; SmartDNN<float> m; fillm(m, &t, 2); m.compile(PLoss(&t, 1, 1), POpt(&t, 7)); m.updateWeights(); m.compile(PLoss(&t, 1, 1), POpt(&t, 8)); m.updateWeights(); trace(t); }
void m_getlayer() {
    Trace t; SmartDNN<float> m; fillm(m, &t, 3);
    TF x = input(A1, "x");
    out("c0", m.getLayer(0)->forward(x)); out("c1", m.getLayer(1)->forward(x)); out("c2", m.getLayer(2)->forward(x));
    trace(t);
}
void m_lvalues() {        // layers, loss and optimizer may be lvalues: the model keeps copies
    Trace t; SmartDNN<float> m; Aff l = aff1(&t); m.addLayer(l); l.a = 0; l.id = 9;
    Aff k = aff2(&t); m.addLayer(std::move(k));
    PLoss q(&t, 1, 1); POpt o(&t, 7); m.compile(q, o); o.id = 9;
    TF x = input(A1, "x"); out("c", m.predict(x)); m.updateWeights(); trace(t);
}
void dotrain(SmartDNN<float>& m, Trace* t, int layers, int samples, int epochs) {
    fillm(m, t, layers);
    m.compile(PLoss(t, vf_real("la"), vf_real("lb")), POpt(t, 7));
    std::vector<TF> xs, ys;
    if (samples >= 1) { xs.push_back(input(A1, "x0")); ys.push_back(input(A1, "y0")); }
    if (samples >= 2) { xs.push_back(input(B1, "x1")); ys.push_back(input(B1, "y1")); }
    if (samples >= 3) { xs.push_back(input(A1, "x2")); ys.push_back(input(A1, "y2")); }
    for (int i = 3; i < samples; ++i) { xs.push_back(xs[i - 3]); ys.push_back(ys[i - 3]); }
    m.train(xs, ys, epochs);
    if (samples >= 1) { out("x0", xs[0]); out("y0", ys[0]); }
    if (samples >= 2) { out("x1", xs[1]); out("y1", ys[1]); }
}
void m_train() { Trace t; SmartDNN<float> m; dotrain(m, &t, vf_dim("layers"), vf_dim("samples"), vf_dim("epochs")); trace(t); }
void m_trainmore() {      // training again starts from the first sample
    Trace t; SmartDNN<float> m; dotrain(m, &t, 1, 2, 1);
    std::vector<TF> xs{input(A1, "p")}, ys{input(A1, "q")};
    m.train(xs, ys, 1); trace(t);
}
// real layers: one step of gradient descent through two fully connected layers and an activation
template <class T> FullyConnectedLayer<T> fc(const char* wn, const char* bn, int i, int o) {
    FullyConnectedLayer<T> l(i, o);
    l.setWeights(input<T>(Shape{i, o}, wn)); l.setBiases(input<T>(Shape{1, o}, bn));
    return l;
}
template <class T> void sgdstep() {
    SmartDNN<T> m;
    m.addLayer(fc<T>("w", "b", vf_dim("i"), vf_dim("h")));
    m.addLayer(ActivationLayer<T>(Sigmoid<T>()));
    m.addLayer(fc<T>("v", "c", vf_dim("h"), vf_dim("o")));
    SGDOptions<T> op; op.learningRate = (T)vf_real("lr"); op.momentum = 0;
    m.compile(MSELoss<T>(), SGDOptimizer<T>(op));
    auto x = input<T>(Shape{vf_dim("n"), vf_dim("i")}, "x"), y = input<T>(Shape{vf_dim("n"), vf_dim("o")}, "y");
    out("p", m.predict(x));
    std::vector<Tensor<T>> xs{x}, ys{y};
    m.train(xs, ys, 1);
    auto* l = static_cast<FullyConnectedLayer<T>*>(m.getLayer(0)); auto* k = static_cast<FullyConnectedLayer<T>*>(m.getLayer(2));
    out("w", l->getWeights()); out("b", l->getBiases()); out("v", k->getWeights()); out("c", k->getBiases());
}
void sgdstepf() { sgdstep<float>(); }
void sgdstepd() { sgdstep<double>(); }
// a model of double elements
void dbl() { SmartDNN<double> m; m.addLayer(fc<double>("w", "b", vf_dim("i"), vf_dim("o"))); m.addLayer(ActivationLayer<double>(ReLU<double>())); auto x = input<double>(Shape{vf_dim("n"), vf_dim("i")}, "x"); out("p", m.predict(x)); }
