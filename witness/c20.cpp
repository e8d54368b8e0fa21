// Optimizers (C20 - C23).
#include "nn.hpp"
using namespace vf;
template <class T> using Refs = std::vector<std::reference_wrapper<Tensor<T>>>;
template <class T> SGDOptimizer<T> sgd() {
    SGDOptions<T> o;
    o.learningRate = (T)vf_real("lr"); o.momentum = (T)vf_real("mom"); o.dampening = (T)vf_real("damp"); o.weightDecay = (T)vf_real("wd"); o.nesterov = vf_dim("nes") == 1;
    return SGDOptimizer<T>(o);
}
template <class T> RMSPropOptimizer<T> rms() {
    RMSPropOptions<T> o;
    o.learningRate = (T)vf_real("lr"); o.alpha = (T)vf_real("al"); o.epsilon = (T)vf_real("eps"); o.momentum = (T)vf_real("mom"); o.centered = vf_dim("cen") == 1; o.weightDecay = (T)vf_real("wd");
    return RMSPropOptimizer<T>(o);
}
template <class T> AdamOptimizer<T> adam() {
    AdamOptions<T> o;
    o.learningRate = (T)vf_real("lr"); o.beta1 = (T)vf_real("b1"); o.beta2 = (T)vf_real("b2"); o.epsilon = (T)vf_real("eps"); o.l1Strength = (T)vf_real("l1"); o.l2Strength = (T)vf_real("l2"); o.decay = (T)vf_real("dec"); o.batchSize = vf_dim("bs");
    return AdamOptimizer<T>(o);
}
// three steps with one tensor; the second one with another learning rate
template <class T, class O> void steps(O o, const Shape& s) {
    auto w = input<T>(s, "w"), f = input<T>(s, "f"), g = input<T>(s, "g"), h = input<T>(s, "h");
    Optimizer<T>& r = o;
    r.optimize({std::ref(w)}, {std::ref(f)}); out("w1", w);
    r.optimize({std::ref(w)}, {std::ref(g)}, (T)vf_real("ov")); out("w2", w);
    r.optimize({std::ref(w)}, {std::ref(h)}); out("w3", w);
    out("f", f); out("g", g); out("h", h);
}
// two tensors, together and on their own
template <class T, class O> void pair(O o, const Shape& s, const Shape& t) {
    auto w = input<T>(s, "w"), f = input<T>(s, "f"), g = input<T>(s, "g");
    auto x = input<T>(t, "x"), p = input<T>(t, "p"), q = input<T>(t, "q"), z = input<T>(t, "z");
    o.optimize({std::ref(w), std::ref(x)}, {std::ref(f), std::ref(p)}); out("w1", w); out("x1", x);
    o.optimize({std::ref(x)}, {std::ref(q)}); out("w2", w); out("x2", x);
    o.optimize({std::ref(x), std::ref(w)}, {std::ref(z), std::ref(g)}); out("w3", w); out("x3", x);
}
// three tensors in one list
template <class T, class O> void triple(O o, const Shape& s, const Shape& t) {
    auto w = input<T>(s, "w"), f = input<T>(s, "f"), x = input<T>(t, "x"), p = input<T>(t, "p"), y = input<T>(s, "y"), q = input<T>(s, "q");
    Refs<T> ws{std::ref(w), std::ref(x), std::ref(y)}, gs{std::ref(f), std::ref(p), std::ref(q)};
    o.optimize(ws, gs); out("w1", w); out("x1", x); out("y1", y);
}
// the layers' own order: one optimizer, two layers, two passes
template <class T, class O> void layers(O o) {
    auto w = input<T>(A2, "w"), b = input<T>(A1, "b"), x = input<T>(B2, "x"), y = input<T>(B1, "y");
    auto f = input<T>(A2, "f"), fb = input<T>(A1, "fb"), p = input<T>(B2, "p"), pb = input<T>(B1, "pb");
    for (int i = 0; i < 2; ++i) {
        o.optimize({std::ref(w), std::ref(b)}, {std::ref(f), std::ref(fb)});
        o.optimize({std::ref(x), std::ref(y)}, {std::ref(p), std::ref(pb)});
    }
    out("w", w); out("b", b); out("x", x); out("y", y);
}
template <class O> void counts(O o) {
    TF w = input(A1, "w"), f = input(A1, "f"), x = input(A1, "x");
    o.optimize({std::ref(w), std::ref(x)}, {std::ref(f)});
}
template <class O> void counts2(O o) {
    TF w = input(A1, "w"), f = input(A1, "f"), x = input(A1, "x");
    o.optimize({std::ref(w)}, {std::ref(f), std::ref(x)});
}
template <class O> void sizes(O o) {
    TF w = input(A2, "w"), f = input(B2, "f");
    o.optimize({std::ref(w)}, {std::ref(f)});
}
// the second tensor does not fit: nothing is read out of bounds
template <class O> void sizes2(O o) {
    TF w = input(A1, "w"), f = input(A1, "f"), x = input(A2, "x"), p = input(B2, "p");
    o.optimize({std::ref(w), std::ref(x)}, {std::ref(f), std::ref(p)});
}
template <class O> void none(O o) { o.optimize({}, {}); vf_out_int("c", 1); }
#define ALL(n, make) \
    void n##_steps1() { steps<float>(make<float>(), A1); } \
    void n##_steps2() { steps<float>(make<float>(), A2); } \
    void n##_steps4() { steps<float>(make<float>(), A4); } \
    void n##_stepsd() { steps<double>(make<double>(), A2); } \
    void n##_pair() { pair<float>(make<float>(), A2, B3); } \
    void n##_paird() { pair<double>(make<double>(), A2, B1); } \
    void n##_samesize() { pair<float>(make<float>(), A2, A2); } \
    void n##_triple() { triple<float>(make<float>(), A2, B1); } \
    void n##_layers() { layers<float>(make<float>()); } \
    void n##_counts() { counts(make<float>()); } \
    void n##_counts2() { counts2(make<float>()); } \
    void n##_sizes() { sizes(make<float>()); } \
    void n##_sizes2() { sizes2(make<float>()); } \
    void n##_none() { none(make<float>()); }
ALL(sgd, sgd)
ALL(rms, rms)
ALL(adam, adam)
template <class O> void defaults(O o) {
    TF w = input(A1, "w"), f = input(A1, "f"), g = input(A1, "g");
    o.optimize({std::ref(w)}, {std::ref(f)}); out("w1", w);
    o.optimize({std::ref(w)}, {std::ref(g)}); out("w2", w);
}
void sgd_defaults() { defaults(SGDOptimizer<float>()); }
void rms_defaults() { defaults(RMSPropOptimizer<float>()); }
void adam_defaults() { defaults(AdamOptimizer<float>()); }
