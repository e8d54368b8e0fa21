// Shape: dimensions, size, strides, reshape.
#include "vf.hpp"
#include "smart_dnn/Shape/ShapeOperations.hpp"
using namespace vf;

static void show(const char* d, const char* s, const char* t, const char* r, const Shape& x) {
    vf_out_vec(d, x.getDimensions());
    vf_out_vec(t, x.getStride());
    vf_out_int(s, (long long)x.size());
    vf_out_int(r, (long long)x.rank());
}
#define SHOW(x, p) show(p ".dims", p ".size", p ".stride", p ".rank", x)
#define D(i) vf_dim("d" #i)
#define E(i) vf_dim("e" #i)

void ctor_1() { Shape s{D(0)}; SHOW(s, "s"); }
void ctor_2() { Shape s{D(0), D(1)}; SHOW(s, "s"); }
void ctor_3() { Shape s{D(0), D(1), D(2)}; SHOW(s, "s"); vf_out_int("i0", s[0]); vf_out_int("i1", s[1]); vf_out_int("i2", s[2]); }
void ctor_4() { Shape s{D(0), D(1), D(2), D(3)}; SHOW(s, "s"); }
void ctor_5() { Shape s{D(0), D(1), D(2), D(3), D(4)}; SHOW(s, "s"); }
void vector_ctor() { std::vector<int> v{D(0), D(1), D(2)}; Shape s(v); SHOW(s, "s"); vf_out_vec("v", v); }
void copies() {
    Shape s{D(0), D(1), D(2)};
    Shape c(s);
    Shape x{E(0), E(1)};
    x = s;
    Shape y{E(0)};
    Shape z{D(0), D(1), D(2)};
    y = std::move(z);
    Shape w(std::move(c));
    Shape& self = s;
    s = self;
    SHOW(s, "s"); SHOW(x, "x"); SHOW(y, "y"); SHOW(w, "w");
    x.reshape(std::vector<int>{D(0) * D(1), D(2)});
    SHOW(s, "s2"); SHOW(x, "x2");
}
void reshape_vec() { Shape s{D(0), D(1)}; s.reshape(std::vector<int>{E(0), E(1), E(2)}); SHOW(s, "s"); }
void reshape_shape() { Shape s{D(0), D(1), D(2)}; s.reshape(Shape{E(0), E(1)}); SHOW(s, "s"); }
void reshape_one() { Shape s{D(0), D(1), D(2)}; s.reshape(std::vector<int>{E(0)}); SHOW(s, "s"); }
void reshape_four() { Shape s{D(0)}; s.reshape(std::vector<int>{E(0), E(1), E(2), E(3)}); SHOW(s, "s"); }
void reshape_bad() {
    Shape s{D(0), D(1)};
    bool threw = false;
    try { s.reshape(std::vector<int>{E(0), E(1), E(2)}); } catch (const std::exception&) { threw = true; }
    vf_out_bool("threw", threw);
    SHOW(s, "s");
}
void reshape_bad_shape() {
    Shape s{D(0), D(1), D(2)};
    bool threw = false;
    try { s.reshape(Shape{E(0), E(1)}); } catch (const std::exception&) { threw = true; }
    vf_out_bool("threw", threw);
    SHOW(s, "s");
}
void reshape_empty() {
    Shape s{D(0), D(1)};
    bool threw = false;
    try { s.reshape(std::vector<int>{}); } catch (const std::exception&) { threw = true; }
    vf_out_bool("threw", threw);
    SHOW(s, "s");
}
void reshape_tensor_bad() {
    TF a = input(Shape{D(0), D(1)}, "a");
    bool threw = false;
    try { a.reshape({E(0), E(1)}); } catch (const std::exception&) { threw = true; }
    vf_out_bool("threw", threw);
    out("a", a);
}
void empty_vec() { Shape s(std::vector<int>{}); SHOW(s, "s"); }
void bad_1() { Shape s{E(0)}; SHOW(s, "s"); }
void bad_2() { Shape s{D(0), E(0)}; SHOW(s, "s"); }
void bad_3() { Shape s(std::vector<int>{D(0), E(0), D(1)}); SHOW(s, "s"); }
void overflow() { Shape s{D(0), D(1), D(2), D(3)}; SHOW(s, "s"); }
void equality() {
    Shape s{D(0), D(1)}, t{E(0), E(1)}, u{D(0), D(1), 1}, v{D(0) * D(1)};
    vf_out_bool("st", s == t); vf_out_bool("nst", s != t);
    vf_out_bool("su", s == u); vf_out_bool("nsu", s != u);
    vf_out_bool("sv", s == v);
    vf_out_bool("ss", s == s);
}
void concat2() { Shape s{D(0), D(1)}, t{E(0), E(1), E(2)}; Shape c = smart_dnn::ShapeOperations::concat(s, t); SHOW(c, "c"); SHOW(s, "s"); SHOW(t, "t"); }
void concat1() { Shape s{D(0)}, t{E(0)}; Shape c = smart_dnn::ShapeOperations::concat(s, t); SHOW(c, "c"); }
void broadcastable() { Shape s{D(0), D(1)}, t{E(0), E(1)}; vf_out_bool("b", smart_dnn::ShapeOperations::areBroadcastable(s, t)); }
void broadcastable_rank() { Shape s{D(0), D(1)}, t{E(0)}; vf_out_bool("b", smart_dnn::ShapeOperations::areBroadcastable(s, t)); vf_out_bool("c", smart_dnn::ShapeOperations::areBroadcastable(t, s)); }
void iterate() { Shape s{D(0), D(1), D(2)}; long long n = 0; for (int d : s) n = n * 10 + d; vf_out_int("n", n); }
void resh_1_1() { Shape s{D(0)}; Shape t = s; s.reshape(std::vector<int>{E(0)}); t.reshape(Shape{E(0)}); SHOW(s, "s"); SHOW(t, "t"); }
void resh_1_2() { Shape s{D(0)}; Shape t = s; s.reshape(std::vector<int>{E(0), E(1)}); t.reshape(Shape{E(0), E(1)}); SHOW(s, "s"); SHOW(t, "t"); }
void resh_1_3() { Shape s{D(0)}; Shape t = s; s.reshape(std::vector<int>{E(0), E(1), E(2)}); t.reshape(Shape{E(0), E(1), E(2)}); SHOW(s, "s"); SHOW(t, "t"); }
void resh_1_4() { Shape s{D(0)}; Shape t = s; s.reshape(std::vector<int>{E(0), E(1), E(2), E(3)}); t.reshape(Shape{E(0), E(1), E(2), E(3)}); SHOW(s, "s"); SHOW(t, "t"); }
void resh_2_1() { Shape s{D(0), D(1)}; Shape t = s; s.reshape(std::vector<int>{E(0)}); t.reshape(Shape{E(0)}); SHOW(s, "s"); SHOW(t, "t"); }
void resh_2_2() { Shape s{D(0), D(1)}; Shape t = s; s.reshape(std::vector<int>{E(0), E(1)}); t.reshape(Shape{E(0), E(1)}); SHOW(s, "s"); SHOW(t, "t"); }
void resh_2_3() { Shape s{D(0), D(1)}; Shape t = s; s.reshape(std::vector<int>{E(0), E(1), E(2)}); t.reshape(Shape{E(0), E(1), E(2)}); SHOW(s, "s"); SHOW(t, "t"); }
void resh_2_4() { Shape s{D(0), D(1)}; Shape t = s; s.reshape(std::vector<int>{E(0), E(1), E(2), E(3)}); t.reshape(Shape{E(0), E(1), E(2), E(3)}); SHOW(s, "s"); SHOW(t, "t"); }
void resh_3_1() { Shape s{D(0), D(1), D(2)}; Shape t = s; s.reshape(std::vector<int>{E(0)}); t.reshape(Shape{E(0)}); SHOW(s, "s"); SHOW(t, "t"); }
void resh_3_2() { Shape s{D(0), D(1), D(2)}; Shape t = s; s.reshape(std::vector<int>{E(0), E(1)}); t.reshape(Shape{E(0), E(1)}); SHOW(s, "s"); SHOW(t, "t"); }
void resh_3_3() { Shape s{D(0), D(1), D(2)}; Shape t = s; s.reshape(std::vector<int>{E(0), E(1), E(2)}); t.reshape(Shape{E(0), E(1), E(2)}); SHOW(s, "s"); SHOW(t, "t"); }
void resh_3_4() { Shape s{D(0), D(1), D(2)}; Shape t = s; s.reshape(std::vector<int>{E(0), E(1), E(2), E(3)}); t.reshape(Shape{E(0), E(1), E(2), E(3)}); SHOW(s, "s"); SHOW(t, "t"); }
void resh_4_1() { Shape s{D(0), D(1), D(2), D(3)}; Shape t = s; s.reshape(std::vector<int>{E(0)}); t.reshape(Shape{E(0)}); SHOW(s, "s"); SHOW(t, "t"); }
void resh_4_2() { Shape s{D(0), D(1), D(2), D(3)}; Shape t = s; s.reshape(std::vector<int>{E(0), E(1)}); t.reshape(Shape{E(0), E(1)}); SHOW(s, "s"); SHOW(t, "t"); }
void resh_4_3() { Shape s{D(0), D(1), D(2), D(3)}; Shape t = s; s.reshape(std::vector<int>{E(0), E(1), E(2)}); t.reshape(Shape{E(0), E(1), E(2)}); SHOW(s, "s"); SHOW(t, "t"); }
void resh_4_4() { Shape s{D(0), D(1), D(2), D(3)}; Shape t = s; s.reshape(std::vector<int>{E(0), E(1), E(2), E(3)}); t.reshape(Shape{E(0), E(1), E(2), E(3)}); SHOW(s, "s"); SHOW(t, "t"); }
