// Slice and broadcast views.
#include "vf.hpp"
#include "shapes.hpp"
using namespace vf;
using Sl = std::vector<std::pair<int, int>>;
using St = std::vector<int>;

void slice1() {
    TF a = input(A1, "a");
    SliceView<float> v(a.getData(), Sl{{vf_dim("s0"), vf_dim("e0")}}, St{vf_dim("t0")});
    vf_out_vec("dims", v.shape().getDimensions());
    vf_out_real("x", v[{vf_dim("p0")}]);
    v.set({vf_dim("p0")}, vf_real("v"));
    out("a", a);
}
void slice2() {
    TF a = input(A2, "a");
    SliceView<float> v(a.getData(), Sl{{vf_dim("s0"), vf_dim("e0")}, {vf_dim("s1"), vf_dim("e1")}}, St{vf_dim("t0"), vf_dim("t1")});
    vf_out_vec("dims", v.shape().getDimensions());
    vf_out_real("x", v[{vf_dim("p0"), vf_dim("p1")}]);
    v.set({vf_dim("p0"), vf_dim("p1")}, vf_real("v"));
    out("a", a);
}
void slice2_iter() {
    TF a = input(A2, "a");
    SliceView<float> v(a.getData(), Sl{{vf_dim("s0"), vf_dim("e0")}, {vf_dim("s1"), vf_dim("e1")}}, St{vf_dim("t0"), vf_dim("t1")});
    TF o(Shape(v.shape()));
    size_t n = 0;
    auto end = v.end();
    for (auto it = v.begin(); it != end; ++it) {
        o[n] = *it;
        ++n;
    }
    vf_out_int("n", (long long)n);
    out("o", o);
}
void slice3_iter() {
    TF a = input(A3, "a");
    SliceView<float> v(a.getData(), Sl{{vf_dim("s0"), vf_dim("e0")}, {vf_dim("s1"), vf_dim("e1")}, {0, vf_dim("a2")}}, St{1, 1, 1});
    TF o(Shape(v.shape()));
    size_t n = 0;
    for (auto it = v.begin(); it != v.end(); ++it) {
        o[n] = *it;
        ++n;
    }
    vf_out_int("n", (long long)n);
    out("o", o);
}
void slice_rank() { TF a = input(A2, "a"); SliceView<float> v(a.getData(), Sl{{0, 1}}, St{1, 1}); vf_out_vec("dims", v.shape().getDimensions()); }
void slice_steps() { TF a = input(A2, "a"); SliceView<float> v(a.getData(), Sl{{0, 1}, {0, 1}}, St{1}); vf_out_vec("dims", v.shape().getDimensions()); }
void slice_step0() { TF a = input(A1, "a"); SliceView<float> v(a.getData(), Sl{{0, vf_dim("a0")}}, St{vf_dim("t0")}); vf_out_vec("dims", v.shape().getDimensions()); }
void slice_end_deref() { TF a = input(A1, "a"); SliceView<float> v(a.getData(), Sl{{0, vf_dim("a0")}}, St{1}); auto it = v.end(); vf_out_real("x", *it); }

#define BV(R, S)                                                                   \
    void bview_##R##_##S() {                                                       \
        TF a = input(A##R, "a");                                                   \
        BroadcastView<float, CPUDevice> v(a.getData(), B##S);                      \
        vf_out_vec("dims", v.shape().getDimensions());                             \
        TF o(B##S);                                                                \
        size_t n = 0;                                                              \
        for (auto x : v) { o[n] = x; ++n; }                                        \
        vf_out_int("n", (long long)n);                                             \
        out("o", o);                                                               \
        out("a", a);                                                               \
    }
BV(1, 1) BV(1, 2) BV(2, 2) BV(2, 3) BV(3, 3) BV(1, 3) BV(4, 4)
void bview_index() { TF a = input(A2, "a"); BroadcastView<float, CPUDevice> v(a.getData(), B2); vf_out_real("x", v[{vf_dim("p0"), vf_dim("p1")}]); }
