// User programs: every public template of the library used for one element type (C32).
// The includes come from the check (-include), in several orders.
#include <sstream>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#ifndef REAL
#define REAL float
#endif
using namespace smart_dnn;
using R = REAL;
using Ten = Tensor<R>;
using Dat = TensorData<R, CPUDevice>;
using Op = TensorOperations<R, CPUDevice>;
using Adv = AdvancedTensorOperations<R>;

void use_views(Dat& d, const Dat& e) {
    BroadcastView<R, CPUDevice> v(e, d.shape());
    for (R x : v) (void)x;
    auto it = v.begin();
    ++it;
    (void)(it == v.end());
    (void)(it != v.end());
    SliceView<R, CPUDevice> s(d, {{0, 1}}, {1});
    for (R x : s) (void)x;
    Op::addInPlace(d, e); Op::subtractInPlace(d, e); Op::multiplyInPlace(d, e); Op::divideInPlace(d, e);
    Dat f = Op::add(d, e); f = Op::subtract(d, e); f = Op::multiply(d, e); f = Op::divide(d, e);
    f = Op::addScalar(d, R(1)); f = Op::apply(d, [](R x) { return x + R(1); });
    Op::applyInPlace(d, [](R x) { return x * x; });
    for (R& x : d) x = R(0);
}

void use_arithmetic(Ten a, const Ten& b, R s) {
    Ten c = a + b; c = a - b; c = a * b; c = a / b;
    c = a + s; c = a - s; c = a * s; c = a / s;
    c = s + a; c = s - a; c = s * a; c = s / a; c = -a;
    c = R(2) + a; c = R(2) - a; c = R(2) * a; c = R(1) / a; c = a * R(2) + R(1);
    c = a * 2; c = a + 1; c = a - 1; c = a / 2;
    a += b; a -= b; a *= b; a /= b; a += s; a -= s; a *= s; a /= s;
    bool same = (a == b) || (a != b);
    (void)same;
    c = a.sqrt();
    a.apply([](R x) { return x; });
    a.apply([](R x) { return x * 2; }).apply([](R x) { return x + 1; });
    c.reshape(Shape({2, 3})); c.reshape(std::vector<int>{6}); c.reshape({3, 2});
    a.at({0, 0}) = b.at({0, 0}); a[0] = b[0];
    c = b.slice(0, 1);
    std::string t = b.toDetailedString() + b.toDataString() + b.getData().toString() + b.getData().toDataString();
    std::ostringstream o;
    o << b.getShape() << b.getShape().toString() << b.getShape().rank() << b.getShape().size() << b.getShape()[0];
    for (int x : b.getShape()) o << x;
}

void use_advanced(const Ten& a, const Ten& b, Dat& d) {
    Ten c = Adv::matmul(a, b); c = Adv::transpose(a, 0, 1);
    c = Adv::sum(a); c = Adv::sum(a, 0); c = Adv::sum(a, {0, 1}); c = Adv::sum(a, std::vector<size_t>{0});
    c = Adv::mean(a); c = Adv::mean(a, {0}); c = Adv::variance(a, b); c = Adv::variance(a, b, {0});
    c = Adv::apply(a, [](R x) { return x; }); c = Adv::reciprocal(a); c = Adv::reciprocal(a, R(1e-7));
    c = Adv::reshape(a, Shape({6}));
    c = Adv::applyPair(a, b, [](R x, R y) { return x + y; });
    (void)d;
}

void use_factories() {
    Ten c = TensorFactory::ones<R, CPUDevice>(Shape({2, 3})); c = TensorFactory::ones<R, CPUDevice>(3);
    c = TensorFactory::zeros<R, CPUDevice>(Shape({2, 3})); c = TensorFactory::zeros<R, CPUDevice>(3);
    c = TensorFactory::rand<R, CPUDevice>(Shape({2, 3})); c = TensorFactory::rand<R, CPUDevice>(3);
    c = TensorFactory::randn<R, CPUDevice>(Shape({2, 3}), R(0), R(1)); c = TensorFactory::randn<R, CPUDevice>(3, R(0), R(1));
    c = TensorFactory::identity<R, CPUDevice>(3);
    c = Ten::ones(Shape({2, 3})); c = Ten::ones({2, 3}); c = Ten::ones(3); c = Ten::zeros({2, 3}); c = Ten::zeros(3);
    c = Ten::rand({2, 3}); c = Ten::rand(3); c = Ten::randn({2, 3}, R(0), R(1)); c = Ten::randn(3, R(0), R(1)); c = Ten::identity(3);
    Ten d({2}, R(1)), e({2}, {R(1), R(2)}), f(Shape({2})), g(d), h(std::move(e)), i(Shape({2}), std::vector<R>{R(1), R(2)});
    std::vector<R> values{R(1), R(2)};
    Ten j(Shape({2}), values), k(Shape({2}), values.data()), l(d.getData()), m(Dat(Shape({2})));
    d = f; h = std::move(g);
    Dat n(Shape({2})), o(Shape({2}), R(1)), p(Shape({2}), {R(1), R(2)}), q(Shape({2}), values), r(Shape({2}), values.data());
    n = o; n.fill(R(3)); n[0] = o[0]; n.at({0}) = o.at({1}); n.reshape(std::vector<int>{1, 2}); n.reshape(Shape({2}));
    p = std::move(r); (void)(p == q); (void)(p != q);
}

void use_shapes() {
    Shape a({2, 3}), b(std::vector<int>{2, 3});
    Shape c = ShapeOperations::broadcastShapes(a, b);
    c = ShapeOperations::concat(a, b);
    (void)ShapeOperations::areBroadcastable(a, b);
    (void)computeFlatIndex(a, {0, 1});
    (void)(a == b); (void)(a != b);
}

template <class A>
void use_activation(const Ten& x) {
    A a;
    Ten y = a.forward(x);
    y = a.backward(x, y);
    std::unique_ptr<Activation<R>> p = std::make_unique<A>();
    y = p->forward(x);
    ActivationLayer<R> l{A()};
    Layer<R>& r = l;
    y = r.forward(x); y = r.backward(y); r.setTrainingMode(false);
}

template <class L>
void use_layer(L& l, Optimizer<R>& o, const Ten& x) {
    Ten y = l.forward(x);
    y = l.backward(y);
    l.updateWeights(o);
    l.setTrainingMode(true);
    Layer<R>& r = l;
    y = r.forward(x); y = r.backward(y); r.updateWeights(o); r.setTrainingMode(false);
}

template <class O>
void use_optimizer(O& o, Ten& w, Ten& g) {
    o.optimize({w}, {g});
    o.optimize({std::ref(w)}, {std::ref(g)}, R(0.1));
    Optimizer<R>& r = o;
    r.optimize({w}, {g});
    std::stringstream s;
    o.save(s); o.load(s);
}

template <class Lo>
void use_loss(Lo& l, const Ten& p, const Ten& t) {
    Ten y = l.compute(p, t);
    y = l.gradient(p, t);
    Loss<R>& r = l;
    y = r.compute(p, t); y = r.gradient(p, t);
    std::stringstream s;
    r.save(s); r.load(s);
}

void use_parts(Ten& x, Ten& g) {
    use_activation<ReLU<R>>(x); use_activation<LeakyReLU<R>>(x); use_activation<Sigmoid<R>>(x); use_activation<Tanh<R>>(x);
    use_activation<Softmax<R>>(x); use_activation<Swish<R>>(x); use_activation<Mish<R>>(x);
    SGDOptimizer<R> sgd; RMSPropOptimizer<R> rms; AdamOptimizer<R> adam;
    SGDOptions<R> so; so.learningRate = R(0.1); SGDOptimizer<R> sgd2(so);
    RMSPropOptions<R> ro; ro.learningRate = R(0.1); RMSPropOptimizer<R> rms2(ro);
    AdamOptions<R> ao; ao.learningRate = R(0.1); AdamOptimizer<R> adam2(ao);
    use_optimizer(sgd, x, g); use_optimizer(rms2, x, g); use_optimizer(adam2, x, g); use_optimizer(sgd2, x, g);
    FullyConnectedLayer<R> fc(3, 2); Conv2DLayer<R> conv(1, 2, 3), conv2(1, 2, 3, 3, 1, 0, 1); FlattenLayer<R> flat;
    BatchNormalizationLayer<R> bn(2), bn2(2, R(1e-5), R(0.9)); DropoutLayer<R> drop(R(0.5)); MaxPooling2DLayer<R> pool(2), pool2(2, 1), pool3(3, 2, 1);
    use_layer(fc, sgd, x); use_layer(conv, sgd, x); use_layer(conv2, rms, x); use_layer(flat, adam, x);
    use_layer(bn, sgd, x); use_layer(drop, sgd, x); use_layer(pool, sgd, x);
    MSELoss<R> mse; CategoricalCrossEntropyLoss<R> cce;
    use_loss(mse, x, g); use_loss(cce, x, g);
}

void use_model(const Ten& x, const std::vector<Ten>& xs, const std::vector<Ten>& ys) {
    SmartDNN<R> model;
    model.addLayer(FullyConnectedLayer<R>(3, 4));
    model.addLayer(ActivationLayer<R>(ReLU<R>()));
    model.addLayer(ActivationLayer<R>(Softmax<R>()));
    model.addLayer(Conv2DLayer<R>(1, 2, 3)); model.addLayer(MaxPooling2DLayer<R>(2)); model.addLayer(FlattenLayer<R>());
    model.addLayer(BatchNormalizationLayer<R>(4)); model.addLayer(DropoutLayer<R>(R(0.5)));
    model.compile(MSELoss<R>(), SGDOptimizer<R>());
    model.compile(CategoricalCrossEntropyLoss<R>(), AdamOptimizer<R>(AdamOptions<R>{}));
    model.compile(MSELoss<R>(), RMSPropOptimizer<R>());
    model.train(xs, ys, 2);
    Ten y = model.predict(x);
    std::vector<Ten> z = model.predict(xs);
    model.trainingMode(); model.evalMode();
    model.backward(y); model.updateWeights();
    FullyConnectedLayer<R>* p = dynamic_cast<FullyConnectedLayer<R>*>(model.getLayer(0));
    (void)p;
}

void use_data() {
    MNISTLoader<R> l("images", "labels", 32, 100);
    std::pair<std::vector<Ten>, std::vector<Ten>> d = l.loadData();
    (void)l.toAsciiArt(d.first[0]);
    RandomEngine::setSeed(1);
    (void)RandomEngine::getRand(); (void)RandomEngine::getRandRange(0, 1); (void)RandomEngine::getXavierInit(3);
    (void)RandomEngine::getHeInit(3); (void)RandomEngine::getHeRandRange(3, 0, 1);
    Logger::log(Logger::Level::INFO, "text"); Logger::log(Logger::Level::WARNING, std::string("text")); Logger::log(Logger::Level::ERROR, 3);
    LOG_INFO("text"); LOG_WARNING("text"); LOG_ERROR("text");
}
