// Random tensors, the engine's helpers and constant tensors (C30).
#include "nn.hpp"
#include "smart_dnn/RandomEngine.hpp"
#include "smart_dnn/Tensor/TensorFactory.hpp"
using namespace vf;
unsigned seed() { return (unsigned)vf_dim("seed"); }
unsigned other() { return (unsigned)vf_dim("other"); }
template <class T> void r_rand(const Shape& s) { RandomEngine::setSeed(seed()); out("c", Tensor<T>::rand(s)); out("d", Tensor<T>::rand(s)); }
template <class T> void r_randn(const Shape& s) { RandomEngine::setSeed(seed()); out("c", Tensor<T>::randn(s, (T)vf_real("min"), (T)vf_real("max"))); out("d", Tensor<T>::randn(s, (T)vf_real("min2"), (T)vf_real("max2"))); }
void r_rand1() { r_rand<float>(A1); }
void r_rand2() { r_rand<float>(A2); }
void r_rand3() { r_rand<float>(A3); }
void r_rand4() { r_rand<float>(A4); }
void r_randd() { r_rand<double>(A2); }
void r_randn1() { r_randn<float>(A1); }
void r_randn2() { r_randn<float>(A2); }
void r_randn4() { r_randn<float>(A4); }
void r_randnd() { r_randn<double>(A2); }
void r_randsize() { RandomEngine::setSeed(seed()); out("c", TF::rand((int)vf_dim("a0"))); out("d", TF::rand((int)vf_dim("b0"))); }
void r_randnsize() { RandomEngine::setSeed(seed()); out("c", TF::randn((int)vf_dim("a0"), vf_real("min"), vf_real("max"))); out("d", TF::randn((int)vf_dim("b0"), vf_real("min2"), vf_real("max2"))); }
void r_factory() { RandomEngine::setSeed(seed()); out("c", TensorFactory::rand<float, CPUDevice>(A2)); out("d", TensorFactory::randn<float, CPUDevice>(B2, vf_real("min"), vf_real("max"))); }
// seeding again repeats the sequence, whatever was drawn before
void r_again() { TF::rand(B2); RandomEngine::getXavierInit(vf_real("n")); RandomEngine::setSeed(seed()); TF a = TF::rand(A2), b = TF::randn(A2, vf_real("min"), vf_real("max")); TF::rand(B2); RandomEngine::getRand(); RandomEngine::setSeed(seed()); out("c", a); out("d", b); out("e", TF::rand(A2)); out("f", TF::randn(A2, vf_real("min"), vf_real("max"))); }
void r_other() { RandomEngine::setSeed(seed()); TF a = TF::rand(A2); RandomEngine::setSeed(other()); out("c", a); out("d", TF::rand(A2)); }
// initial parameters
void r_fc() { RandomEngine::setSeed(seed()); FullyConnectedLayer<float> l(vf_dim("i"), vf_dim("o")), m(vf_dim("i"), vf_dim("o")); out("c", l.getWeights()); out("b", l.getBiases()); out("d", m.getWeights()); out("e", m.getBiases()); }
void r_fcd() { RandomEngine::setSeed(seed()); FullyConnectedLayer<double> l(vf_dim("i"), vf_dim("o")), m(vf_dim("i"), vf_dim("o")); out("c", l.getWeights()); out("b", l.getBiases()); out("d", m.getWeights()); out("e", m.getBiases()); }
void r_conv() { RandomEngine::setSeed(seed()); Conv2DLayer<float> l(vf_dim("i"), vf_dim("o"), vf_dim("kh"), vf_dim("kw"), 1, 0, 1), m(vf_dim("i"), vf_dim("o"), vf_dim("kh"), vf_dim("kw"), 1, 0, 1); out("c", l.getWeights()); out("b", l.getBiases()); out("d", m.getWeights()); out("e", m.getBiases()); }
void r_convsq() { RandomEngine::setSeed(seed()); Conv2DLayer<float> l(vf_dim("i"), vf_dim("o"), vf_dim("kh")), m(vf_dim("i"), vf_dim("o"), vf_dim("kh")); out("c", l.getWeights()); out("b", l.getBiases()); out("d", m.getWeights()); out("e", m.getBiases()); }
// helpers of the engine
void r_getrand() { RandomEngine::setSeed(seed()); float a = RandomEngine::getRand(), b = RandomEngine::getRand(); vf_out_real("u", a); vf_out_real("v", b); }
void r_getrange() { RandomEngine::setSeed(seed()); float a = RandomEngine::getRandRange(vf_real("min"), vf_real("max")), b = RandomEngine::getRandRange(vf_real("min2"), vf_real("max2")); vf_out_real("u", a); vf_out_real("v", b); }
void r_gethe() { RandomEngine::setSeed(seed()); float a = RandomEngine::getHeInit(vf_real("n")), b = RandomEngine::getHeInit(vf_real("m")); vf_out_real("u", a); vf_out_real("v", b); }
void r_getxavier() { RandomEngine::setSeed(seed()); float a = RandomEngine::getXavierInit(vf_real("n")), b = RandomEngine::getXavierInit(vf_real("m")); vf_out_real("u", a); vf_out_real("v", b); }
void r_getherange() { RandomEngine::setSeed(seed()); float a = RandomEngine::getHeRandRange(vf_real("n"), vf_real("min"), vf_real("max")), b = RandomEngine::getHeRandRange(vf_real("m"), vf_real("min2"), vf_real("max2")); vf_out_real("u", a); vf_out_real("v", b); }
void r_mixed() { RandomEngine::setSeed(seed()); float a = RandomEngine::getRand(); TF t = TF::rand(A1); float b = RandomEngine::getHeInit(vf_real("n")); vf_out_real("u", a); vf_out_real("v", b); out("c", t); }
void r_reseed() { RandomEngine::getHeInit(vf_real("n")); RandomEngine::setSeed(seed()); vf_out_real("u", RandomEngine::getHeInit(vf_real("n"))); vf_out_real("v", RandomEngine::getXavierInit(vf_real("m"))); }
void r_reseed2() { RandomEngine::getRand(); RandomEngine::getXavierInit(vf_real("n")); RandomEngine::getHeRandRange(vf_real("n"), vf_real("min"), vf_real("max")); RandomEngine::getRandRange(vf_real("min"), vf_real("max")); RandomEngine::setSeed(seed()); vf_out_real("u", RandomEngine::getXavierInit(vf_real("n"))); vf_out_real("v", RandomEngine::getHeRandRange(vf_real("m"), vf_real("min2"), vf_real("max2"))); }
// constants
template <class T> void r_const(const Shape& s) { out("c", Tensor<T>::ones(s)); out("d", Tensor<T>::zeros(s)); }
void r_const1() { r_const<float>(A1); }
void r_const2() { r_const<float>(A2); }
void r_const3() { r_const<float>(A3); }
void r_const4() { r_const<float>(A4); }
void r_constd() { r_const<double>(A3); }
void r_constsize() { out("c", TF::ones((int)vf_dim("a0"))); out("d", TF::zeros((int)vf_dim("a0"))); }
void r_constfactory() { out("c", TensorFactory::ones<float, CPUDevice>(A2)); out("d", TensorFactory::zeros<float, CPUDevice>(A2)); }
void r_ident() { out("c", TF::identity(vf_dim("n"))); }
void r_identd() { out("c", Tensor<double>::identity(vf_dim("n"))); }
void r_identf() { out("c", TensorFactory::identity<float, CPUDevice>(vf_dim("n"))); }
