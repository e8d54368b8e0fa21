// Max pooling (C14).
#include "nn.hpp"
using namespace vf;
#define X Shape{vf_dim("n"), vf_dim("c"), vf_dim("h"), vf_dim("wd")}
#define Y Shape{vf_dim("n"), vf_dim("c"), vf_dim("oh"), vf_dim("ow")}
#define L MaxPooling2DLayer<float> l(vf_dim("p"), vf_dim("st"), vf_dim("pad"))
void fwd() { L; TF a = input(X, "a"); out("c", l.forward(a)); out("a", a); }
void fwdd() { MaxPooling2DLayer<double> l(vf_dim("p"), vf_dim("st"), vf_dim("pad")); auto a = input<double>(X, "a"); out("c", l.forward(a)); }
void bwd() { L; TF a = input(X, "a"), g = input(Y, "g"); l.forward(a); out("d", l.backward(g)); out("a", a); out("g", g); }
void bwdd() { MaxPooling2DLayer<double> l(vf_dim("p"), vf_dim("st"), vf_dim("pad")); auto a = input<double>(X, "a"), g = input<double>(Y, "g"); l.forward(a); out("d", l.backward(g)); }
void again() {
    L; TF z = input(Shape{vf_dim("n2"), vf_dim("c"), vf_dim("h"), vf_dim("wd")}, "z"), y = input(Shape{vf_dim("n2"), vf_dim("c"), vf_dim("oh"), vf_dim("ow")}, "y"), a = input(X, "a"), g = input(Y, "g");
    l.forward(z); l.backward(y); out("c", l.forward(a)); out("d", l.backward(g)); out("d", l.backward(g));
}
void one() { MaxPooling2DLayer<float> l(vf_dim("p")); TF a = input(X, "a"), g = input(Y, "g"); out("c", l.forward(a)); out("d", l.backward(g)); }
void two() { MaxPooling2DLayer<float> l(vf_dim("p"), vf_dim("st")); TF a = input(X, "a"), g = input(Y, "g"); out("c", l.forward(a)); out("d", l.backward(g)); }
void evalm() { L; TF a = input(X, "a"), g = input(Y, "g"); l.setTrainingMode(false); out("c", l.forward(a)); out("d", l.backward(g)); }
void rank3() { L; TF a = input(Shape{vf_dim("c"), vf_dim("h"), vf_dim("wd")}, "a"); l.forward(a); }
void rank2() { L; TF a = input(Shape{vf_dim("h"), vf_dim("wd")}, "a"); l.forward(a); }
