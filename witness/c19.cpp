// Losses (C19).
#include "nn.hpp"
using namespace vf;
template <class T> void mse(const Shape& s, const Shape& t) {
    MSELoss<T> l; auto p = input<T>(s, "p"), y = input<T>(t, "y");
    out("c", l.compute(p, y)); out("d", l.gradient(p, y)); out("p", p); out("y", y);
}
void mse1() { mse<float>(A1, A1); }
void mse2() { mse<float>(A2, A2); }
void mse3() { mse<float>(A3, A3); }
void mse4() { mse<float>(A4, A4); }
void mse2d() { mse<double>(A2, A2); }
void msecol() { Shape s{vf_dim("a0"), 1}; mse<float>(s, A1); }
void msecold() { Shape s{vf_dim("a0"), 1}; mse<double>(s, A1); }
void msec12() { MSELoss<float> l; TF p = input(A2, "p"), y = input(B1, "y"); l.compute(p, y); }
void mseg12() { MSELoss<float> l; TF p = input(A2, "p"), y = input(B1, "y"); l.gradient(p, y); }
void msec22() { MSELoss<float> l; TF p = input(A2, "p"), y = input(B2, "y"); l.compute(p, y); }
void mseg22() { MSELoss<float> l; TF p = input(A2, "p"), y = input(B2, "y"); l.gradient(p, y); }
void msec11() { MSELoss<float> l; TF p = input(A1, "p"), y = input(B1, "y"); l.compute(p, y); }
void mseg11() { MSELoss<float> l; TF p = input(A1, "p"), y = input(B1, "y"); l.gradient(p, y); }
void msec32() { MSELoss<float> l; TF p = input(A3, "p"), y = input(B2, "y"); l.compute(p, y); }
void mseg32() { MSELoss<float> l; TF p = input(A3, "p"), y = input(B2, "y"); l.gradient(p, y); }
void msebase() { MSELoss<float> m; Loss<float>& l = m; TF p = input(A2, "p"), y = input(A2, "y"), q = input(B2, "q"), z = input(B2, "z"); out("c", l.compute(p, y)); out("c2", l.compute(q, z)); out("d", l.gradient(p, y)); out("d2", l.gradient(q, z)); }
template <class T> void cce() {
    CategoricalCrossEntropyLoss<T> l; auto p = input<T>(A2, "p"), y = input<T>(A2, "y");
    out("c", l.compute(p, y)); out("d", l.gradient(p, y)); out("p", p); out("y", y);
}
void cce2() { cce<float>(); }
void cce2d() { cce<double>(); }
void ccebase() { CategoricalCrossEntropyLoss<float> m; Loss<float>& l = m; TF p = input(A2, "p"), y = input(A2, "y"), q = input(B2, "q"), z = input(B2, "z"); out("c", l.compute(p, y)); out("c2", l.compute(q, z)); out("d", l.gradient(p, y)); out("d2", l.gradient(q, z)); }
void ccec22() { CategoricalCrossEntropyLoss<float> l; TF p = input(A2, "p"), y = input(B2, "y"); l.compute(p, y); }
void cceg22() { CategoricalCrossEntropyLoss<float> l; TF p = input(A2, "p"), y = input(B2, "y"); l.gradient(p, y); }
void ccec21() { CategoricalCrossEntropyLoss<float> l; TF p = input(A2, "p"), y = input(B1, "y"); l.compute(p, y); }
void cceg21() { CategoricalCrossEntropyLoss<float> l; TF p = input(A2, "p"), y = input(B1, "y"); l.gradient(p, y); }
void ccec11() { CategoricalCrossEntropyLoss<float> l; TF p = input(A1, "p"), y = input(A1, "y"); l.compute(p, y); }
void cceg11() { CategoricalCrossEntropyLoss<float> l; TF p = input(A1, "p"), y = input(A1, "y"); l.gradient(p, y); }
