// Calls out of order and with operands of the wrong shape (C26).
#include "nn.hpp"
using namespace vf;
using FC = FullyConnectedLayer<float>;
using Conv = Conv2DLayer<float>;
using Pool = MaxPooling2DLayer<float>;
using BN = BatchNormalizationLayer<float>;
using Drop = DropoutLayer<float>;
using Flat = FlattenLayer<float>;
using Act = ActivationLayer<float>;
using SGD = SGDOptimizer<float>;
using Refs = std::vector<std::reference_wrapper<TF>>;

FC fc() { return FC(vf_dim("i"), vf_dim("o")); }
Conv conv() { return Conv(vf_dim("i"), vf_dim("o"), vf_dim("kh"), vf_dim("kw"), vf_dim("s"), vf_dim("p"), vf_dim("d")); }
Pool pool() { return Pool(vf_dim("k"), vf_dim("s"), vf_dim("p")); }
BN bn() { return BN(vf_dim("i")); }
Drop drop() { return Drop(vf_real("rate")); }
Flat flat() { return Flat(); }
Act act() { return Act(Tanh<float>()); }
SGD sgd() { return SGD(); }

TF ga1() { return input(A1, "x"); }
TF ga2() { return input(A2, "x"); }
TF ga3() { return input(A3, "x"); }
TF ga4() { return input(A4, "x"); }
TF gb1() { return input(B1, "g"); }
TF gb2() { return input(B2, "g"); }
TF gb3() { return input(B3, "g"); }
TF gb4() { return input(B4, "g"); }

// backward, update and read-outs before anything was computed
template <class L> void bfirst(L l) { TF g = ga2(); l.backward(g); }
template <class L> void bfirst4(L l) { TF g = ga4(); l.backward(g); }
template <class L> void ufirst(L l) { SGD o = sgd(); l.updateWeights(o); }
template <class L> void uforward(L l) { SGD o = sgd(); l.forward(ga2()); l.updateWeights(o); }
template <class L> void uforward4(L l) { SGD o = sgd(); l.forward(ga4()); l.updateWeights(o); }
template <class L> void grads(L l) { l.getWeightGradients(); }
template <class L> void bgrads(L l) { l.getBiasGradients(); }
#define FIRST(n) void x_##n##_b2() { bfirst(n()); } void x_##n##_b4() { bfirst4(n()); } void x_##n##_u() { ufirst(n()); }
FIRST(fc) FIRST(conv) FIRST(pool) FIRST(bn) FIRST(drop) FIRST(flat) FIRST(act)
void x_fc_uf() { uforward(fc()); }
void x_bn_uf() { uforward(bn()); }
void x_bn_uf4() { uforward4(bn()); }
void x_conv_uf() { uforward4(conv()); }
void x_fc_grads() { grads(fc()); }
void x_fc_bgrads() { bgrads(fc()); }
void x_conv_grads() { grads(conv()); }
void x_conv_bgrads() { bgrads(conv()); }

// forward with x of rank q, backward with g of rank r and of any dimensions
template <class L> void fb(L l, TF x, TF g) { l.forward(x); l.backward(g); }
// ... and the update that would use what was left behind
template <class L> void fbu(L l, TF x, TF g) { SGD o = sgd(); l.forward(x); l.backward(g); l.updateWeights(o); }
#define RANKS(n, q, x) \
    void x_##n##_##q##1() { fbu(n(), x(), gb1()); } void x_##n##_##q##2() { fbu(n(), x(), gb2()); } \
    void x_##n##_##q##3() { fbu(n(), x(), gb3()); } void x_##n##_##q##4() { fbu(n(), x(), gb4()); }
RANKS(fc, 1, ga1) RANKS(fc, 2, ga2) RANKS(fc, 3, ga3) RANKS(fc, 4, ga4)
RANKS(conv, 4, ga4) RANKS(pool, 4, ga4) RANKS(bn, 2, ga2) RANKS(bn, 4, ga4)
RANKS(drop, 1, ga1) RANKS(drop, 2, ga2) RANKS(drop, 4, ga4)
RANKS(flat, 2, ga2) RANKS(flat, 3, ga3) RANKS(flat, 4, ga4)
RANKS(act, 1, ga1) RANKS(act, 2, ga2) RANKS(act, 4, ga4)
// inputs of any rank
#define INPUTS(n) void x_##n##_f1() { n().forward(ga1()); } void x_##n##_f2() { n().forward(ga2()); } void x_##n##_f3() { n().forward(ga3()); } void x_##n##_f4() { n().forward(ga4()); }
INPUTS(fc) INPUTS(conv) INPUTS(pool) INPUTS(bn) INPUTS(drop) INPUTS(flat) INPUTS(act)

// the second input has other dimensions than the first; the gradient fits neither, the first or the second
template <class L> void two(L l, TF x, TF y, TF g) { SGD o = sgd(); l.forward(x); l.forward(y); l.backward(g); l.updateWeights(o); }
template <class L> void twob(L l, TF x, TF g, TF y) { SGD o = sgd(); l.forward(x); l.backward(g); l.forward(y); l.updateWeights(o); l.backward(g); l.updateWeights(o); }
TF gc2() { return input(Shape{vf_dim("c0"), vf_dim("c1")}, "y"); }
TF y4() { return input(Shape{vf_dim("c0"), vf_dim("c1"), vf_dim("c2"), vf_dim("c3")}, "y"); }
void x_fc_two() { two(fc(), ga2(), gc2(), gb2()); }
void x_fc_twob() { twob(fc(), ga2(), gb2(), gc2()); }
void x_bn_two() { two(bn(), ga2(), gc2(), gb2()); }
void x_bn_twob() { twob(bn(), ga2(), gb2(), gc2()); }
void x_bn_two4() { two(bn(), ga2(), y4(), gb4()); }
void x_bn_two42() { two(bn(), ga4(), gc2(), gb4()); }
void x_conv_two() { two(conv(), ga4(), y4(), gb4()); }
void x_pool_two() { two(pool(), ga4(), y4(), gb4()); }
void x_flat_two() { two(flat(), ga4(), gc2(), gb2()); }
void x_flat_two4() { two(flat(), ga2(), y4(), gb2()); }
void x_drop_two() { two(drop(), ga2(), gc2(), gb2()); }
void x_drop_two4() { two(drop(), ga4(), gc2(), gb4()); }

// switching modes between the passes
template <class L> void evalfb(L l, TF x, TF g) { SGD o = sgd(); l.setTrainingMode(false); l.forward(x); l.backward(g); l.updateWeights(o); }
template <class L> void evalthen(L l, TF x, TF g) { SGD o = sgd(); l.setTrainingMode(false); l.forward(x); l.setTrainingMode(true); l.backward(g); l.updateWeights(o); }
template <class L> void thenval(L l, TF x, TF y, TF g) { SGD o = sgd(); l.forward(x); l.setTrainingMode(false); l.forward(y); l.backward(g); l.updateWeights(o); }
template <class L> void thenback(L l, TF x, TF y, TF g) { SGD o = sgd(); l.forward(x); l.setTrainingMode(false); l.forward(y); l.setTrainingMode(true); l.backward(g); l.updateWeights(o); }
void x_bn_eval() { evalfb(bn(), ga2(), gb2()); }
void x_bn_eval4() { evalfb(bn(), ga4(), gb4()); }
void x_bn_evalthen() { evalthen(bn(), ga2(), gb2()); }
void x_bn_theneval() { thenval(bn(), ga2(), gc2(), gb2()); }
void x_bn_theneval4() { thenval(bn(), ga2(), y4(), gb4()); }
void x_bn_thenback() { thenback(bn(), ga4(), gc2(), gb2()); }
void x_drop_eval() { evalfb(drop(), ga2(), gb2()); }
void x_drop_evalthen() { evalthen(drop(), ga2(), gb2()); }
void x_drop_theneval() { thenval(drop(), ga2(), gc2(), gb2()); }
void x_drop_thenback() { thenback(drop(), ga2(), gc2(), gb2()); }

// parameters of any shape
void x_fc_setw() { FC l = fc(); SGD o = sgd(); l.setWeights(ga2()); l.forward(gb2()); l.backward(gc2()); l.updateWeights(o); }
void x_fc_setw1() { FC l = fc(); l.setWeights(ga1()); l.forward(gb2()); l.backward(gb2()); }
void x_fc_setw3() { FC l = fc(); l.setWeights(ga3()); l.forward(gb2()); l.backward(gb2()); }
void x_fc_setw4() { FC l = fc(); l.setWeights(ga4()); l.forward(gb2()); l.backward(gb2()); }
void x_fc_setwlate() { FC l = fc(); SGD o = sgd(); l.forward(gb2()); l.setWeights(ga2()); l.backward(gc2()); l.updateWeights(o); }
void x_fc_setwlater() { FC l = fc(); SGD o = sgd(); l.forward(gb2()); l.backward(gc2()); l.setWeights(ga2()); l.updateWeights(o); }
void x_fc_setb() { FC l = fc(); SGD o = sgd(); l.setBiases(ga2()); l.forward(gb2()); l.backward(gc2()); l.updateWeights(o); }
void x_fc_setb1() { FC l = fc(); l.setBiases(ga1()); l.forward(gb2()); l.backward(gc2()); }
void x_fc_setb3() { FC l = fc(); l.setBiases(ga3()); l.forward(gb2()); l.backward(gc2()); }
void x_fc_setblate() { FC l = fc(); SGD o = sgd(); l.forward(gb2()); l.setBiases(ga2()); l.backward(gc2()); l.updateWeights(o); }
void x_fc_setblater() { FC l = fc(); SGD o = sgd(); l.forward(gb2()); l.backward(gc2()); l.setBiases(ga2()); l.updateWeights(o); }
void x_fc_setg() { FC l = fc(); SGD o = sgd(); l.setWeightGradient(ga2()); l.setBiasGradient(gb2()); l.updateWeights(o); }
void x_fc_setg1() { FC l = fc(); SGD o = sgd(); l.setWeightGradient(ga2()); l.updateWeights(o); }
void x_conv_setw() { Conv l = conv(); SGD o = sgd(); l.setWeights(ga4()); l.forward(y4()); l.backward(gb4()); l.updateWeights(o); }
void x_conv_setw2() { Conv l = conv(); l.setWeights(ga2()); l.forward(y4()); l.backward(gb4()); }
void x_conv_setwlate() { Conv l = conv(); SGD o = sgd(); l.forward(y4()); l.setWeights(ga4()); l.backward(gb4()); l.updateWeights(o); }
void x_conv_setwlater() { Conv l = conv(); SGD o = sgd(); l.forward(y4()); l.backward(gb4()); l.setWeights(ga4()); l.updateWeights(o); }
void x_conv_setb() { Conv l = conv(); SGD o = sgd(); l.setBiases(ga2()); l.forward(y4()); l.backward(gb4()); l.updateWeights(o); }
void x_conv_setb1() { Conv l = conv(); l.setBiases(ga1()); l.forward(y4()); l.backward(gb4()); }
void x_conv_setblate() { Conv l = conv(); SGD o = sgd(); l.forward(y4()); l.setBiases(ga2()); l.backward(gb4()); l.updateWeights(o); }
void x_conv_setb1late() { Conv l = conv(); SGD o = sgd(); l.forward(y4()); l.setBiases(ga1()); l.backward(gb4()); l.updateWeights(o); }

// constructor arguments
void x_new_fc() { FC l(vf_int("i"), vf_int("o")); l.forward(ga2()); l.forward(ga1()); }
void x_new_fcz() { FC l(vf_dim("i"), vf_dim("o")); }
void x_new_conv() { Conv l(vf_dim("i"), vf_dim("o"), vf_dim("kh"), vf_dim("kw"), vf_dim("s"), vf_dim("p"), vf_dim("d")); l.forward(ga4()); }
void x_new_pool() { Pool l(vf_dim("k"), vf_dim("s"), vf_dim("p")); l.forward(ga4()); }
void x_new_pool2() { Pool l(vf_dim("k"), vf_dim("s")); l.forward(ga4()); }
void x_new_pool1() { Pool l(vf_dim("k")); l.forward(ga4()); }
void x_new_bn() { BN l(vf_dim("i")); l.forward(ga2()); }
void x_new_drop() { Drop l(vf_real("rate")); l.forward(ga2()); }

// losses
template <class L> void loss(L l, TF p, TF t) { l.compute(p, t); }
template <class L> void lgrad(L l, TF p, TF t) { l.gradient(p, t); }
#define PAIRS(n, l, q, x) \
    void x_##n##_c##q##1() { loss(l(), x(), gb1()); } void x_##n##_g##q##1() { lgrad(l(), x(), gb1()); } \
    void x_##n##_c##q##2() { loss(l(), x(), gb2()); } void x_##n##_g##q##2() { lgrad(l(), x(), gb2()); } \
    void x_##n##_c##q##3() { loss(l(), x(), gb3()); } void x_##n##_g##q##3() { lgrad(l(), x(), gb3()); }
PAIRS(mse, MSELoss<float>, 1, ga1) PAIRS(mse, MSELoss<float>, 2, ga2) PAIRS(mse, MSELoss<float>, 3, ga3)
PAIRS(cce, CategoricalCrossEntropyLoss<float>, 1, ga1) PAIRS(cce, CategoricalCrossEntropyLoss<float>, 2, ga2) PAIRS(cce, CategoricalCrossEntropyLoss<float>, 3, ga3)

// activations: gradients of any shape
#define ACTS(n, T) void x_##n##_g12() { T().backward(ga1(), gb2()); } void x_##n##_g11() { T().backward(ga1(), gb1()); } void x_##n##_g22() { T().backward(ga2(), gb2()); } \
    void x_##n##_g21() { T().backward(ga2(), gb1()); } void x_##n##_g23() { T().backward(ga2(), gb3()); } void x_##n##_g32() { T().backward(ga3(), gb2()); }
ACTS(relu, ReLU<float>) ACTS(leaky, LeakyReLU<float>) ACTS(sigmoid, Sigmoid<float>) ACTS(tanh, Tanh<float>) ACTS(swish, Swish<float>) ACTS(mish, Mish<float>) ACTS(softmax, Softmax<float>)

// the model
struct Id : Layer<float> { TF forward(const TF& x) override { return x; } TF backward(const TF& g) override { return g; } };
using Model = SmartDNN<float>;
void x_m_train() { Model m; m.addLayer(Id()); m.train({ga2()}, {ga2()}, vf_int("epochs")); }
void x_m_trainempty() { Model m; m.train({}, {}, vf_int("epochs")); }
void x_m_update() { Model m; m.addLayer(Id()); m.updateWeights(); }
void x_m_updateempty() { Model m; m.updateWeights(); }
void x_m_updatefc() { Model m; m.addLayer(fc()); m.compile(MSELoss<float>(), SGD()); m.updateWeights(); }
void x_m_backward() { Model m; m.addLayer(Id()); m.addLayer(fc()); m.backward(ga2()); }
void x_m_backwardempty() { Model m; m.backward(ga2()); }
void x_m_predictempty() { Model m; m.predict(ga2()); m.predict(std::vector<TF>{}); }
void x_m_modes() { Model m; m.evalMode(); m.trainingMode(); }
void x_m_lists() { Model m; m.addLayer(Id()); m.compile(MSELoss<float>(), SGD()); m.train({ga2(), ga2()}, {ga2()}, vf_int("epochs")); }
void x_m_lists2() { Model m; m.addLayer(Id()); m.compile(MSELoss<float>(), SGD()); m.train({ga2()}, {ga2(), ga2()}, vf_int("epochs")); }
void x_m_lists0() { Model m; m.addLayer(Id()); m.compile(MSELoss<float>(), SGD()); m.train({ga2()}, {}, vf_int("epochs")); }
void x_m_lists00() { Model m; m.addLayer(Id()); m.compile(MSELoss<float>(), SGD()); m.train({}, {ga2()}, vf_int("epochs")); }
void x_m_nothing() { Model m; m.addLayer(Id()); m.compile(MSELoss<float>(), SGD()); m.train({}, {}, vf_dim("epochs")); }
void x_m_noepochs() { Model m; m.addLayer(Id()); m.compile(MSELoss<float>(), SGD()); m.train({ga2()}, {gb2()}, vf_dim("epochs")); vf_out_int("c", 1); }
void x_m_nolayers() { Model m; m.compile(MSELoss<float>(), SGD()); m.train({ga2()}, {gb2()}, vf_dim("epochs")); }
void x_m_target() { Model m; m.addLayer(Id()); m.compile(MSELoss<float>(), SGD()); m.train({ga2()}, {gb2()}, vf_dim("epochs")); }
void x_m_get0() { Model m; m.getLayer(0); }
void x_m_get2() { Model m; m.addLayer(Id()); m.addLayer(Id()); m.getLayer((size_t)vf_dim("at")); }
void x_m_input() { Model m; m.addLayer(fc()); m.addLayer(flat()); m.addLayer(act()); m.predict(ga1()); }
void x_m_input2() { Model m; m.addLayer(fc()); m.addLayer(flat()); m.addLayer(act()); m.predict(ga2()); }
void x_m_swap() { Model m; m.addLayer(flat()); m.addLayer(conv()); m.predict(ga4()); }
