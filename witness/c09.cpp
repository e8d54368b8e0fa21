// Activation functions, forward (C09) and backward (C10).
#include "nn.hpp"
using namespace vf;
#define FB(N, R, ...)                                                                                                                                   \
    void fwd_##N##_##R() { TF a = input(A##R, "a"); __VA_ARGS__ f; out("c", f.forward(a)); out("a", a); }                                               \
    void bwd_##N##_##R() { TF a = input(A##R, "a"), g = input(A##R, "g"); __VA_ARGS__ f; out("c", f.backward(a, g)); out("a", a); out("g", g); }         \
    void bwds_##N##_##R() { TF a = input(A##R, "a"), g = input(B##R, "g"); __VA_ARGS__ f; out("c", f.backward(a, g)); }
struct Leaky : LeakyReLU<float> { Leaky() : LeakyReLU<float>(vf_real("alpha")) {} };
#define ALLR(N, ...) FB(N, 1, __VA_ARGS__) FB(N, 2, __VA_ARGS__) FB(N, 3, __VA_ARGS__) FB(N, 4, __VA_ARGS__)
ALLR(relu, ReLU<float>) ALLR(leaky, Leaky) ALLR(leakydef, LeakyReLU<float>) ALLR(sigmoid, Sigmoid<float>) ALLR(tanh, Tanh<float>) ALLR(swish, Swish<float>) ALLR(mish, Mish<float>) ALLR(softmax, Softmax<float>)

// through the base class, in double precision, twice with different inputs
#define TWICE(N, ...)                                                                                             \
    void twice_##N() {                                                                                            \
        Tensor<double> a = input<double>(A2, "a"), b = input<double>(B2, "b");                                    \
        __VA_ARGS__ f;                                                                                            \
        const Activation<double>& base = f;                                                                       \
        Tensor<double> x = base.forward(a);                                                                       \
        Tensor<double> y = base.forward(b);                                                                       \
        Tensor<double> z = base.forward(a);                                                                       \
        out("x", x); out("y", y); out("z", z);                                                                    \
    }
TWICE(relu, ReLU<double>) TWICE(leaky, LeakyReLU<double>) TWICE(sigmoid, Sigmoid<double>) TWICE(tanh, Tanh<double>) TWICE(swish, Swish<double>) TWICE(mish, Mish<double>) TWICE(softmax, Softmax<double>)
