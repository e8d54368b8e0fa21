// Dropout (C17).
#include "nn.hpp"
using namespace vf;
template <class T> void both(const Shape& s) {
    DropoutLayer<T> l((T)vf_real("rate")); auto a = input<T>(s, "a"), g = input<T>(s, "g");
    out("c", l.forward(a)); out("d", l.backward(g)); out("a", a); out("g", g);
}
void both1() { both<float>(A1); }
void both2() { both<float>(A2); }
void both3() { both<float>(A3); }
void both4() { both<float>(A4); }
void both2d() { both<double>(A2); }
void twice() {
    DropoutLayer<float> l(vf_real("rate")); TF a = input(A2, "a"), g = input(A2, "g"), b = input(B2, "b"), h = input(B2, "h");
    out("c", l.forward(a)); out("d", l.backward(g)); out("c2", l.forward(b)); out("d2", l.backward(h));
}
void again() {
    DropoutLayer<float> l(vf_real("rate")); TF a = input(A2, "a"), g = input(A2, "g");
    out("c", l.forward(a)); out("d", l.backward(g)); out("c2", l.forward(a)); out("d2", l.backward(g));
}
template <class T> void eval(const Shape& s) {
    DropoutLayer<T> l((T)vf_real("rate")); auto a = input<T>(s, "a"), g = input<T>(s, "g");
    l.setTrainingMode(false); out("c", l.forward(a)); out("d", l.backward(g)); out("a", a); out("g", g);
}
void eval1() { eval<float>(A1); }
void eval2() { eval<float>(A2); }
void eval3() { eval<float>(A3); }
void eval4() { eval<float>(A4); }
void eval2d() { eval<double>(A2); }
void switched() {
    DropoutLayer<float> l(vf_real("rate")); TF a = input(A2, "a"), g = input(A2, "g"), b = input(B2, "b"), h = input(B2, "h");
    l.forward(a); l.backward(g);
    l.setTrainingMode(false); out("e", l.forward(b)); out("f", l.backward(h));
    l.setTrainingMode(true); out("c", l.forward(a)); out("d", l.backward(g));
}
void badrate() { DropoutLayer<float> l(vf_real("rate")); }
void nomask() { DropoutLayer<float> l(vf_real("rate")); TF g = input(A2, "g"); l.backward(g); }
