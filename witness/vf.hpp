// Declarations shared by the witness programs.  The vf_* functions have no
// definition: the analysis gives them their meaning.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <fstream>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>

int vf_dim(const char* name);                    // a size chosen by the configuration
int vf_int(const char* name);                    // any integer
bool vf_bool(const char* name);                  // any truth value
float vf_real(const char* name);                 // any finite real
double vf_dreal(const char* name);
void vf_assume(bool c);
template <class P> void vf_fill(P* p, const char* name);      // arbitrary contents
void vf_out_int(const char* name, long long v);
void vf_out_bool(const char* name, bool v);
void vf_out_real(const char* name, double v);
template <class V> void vf_out_vec(const char* name, const V& v);
template <class P> void vf_out_arr(const char* name, const P* p, long long n);
void vf_log(const char* what, const void* who);
void vf_mark(const char* name);

#include "smart_dnn/Tensor/Tensor.hpp"
#include "smart_dnn/Tensor/AdvancedTensorOperations.hpp"

namespace vf {
using namespace smart_dnn;
using TF = Tensor<float>;

template <class T = float>
Tensor<T> input(const Shape& s, const char* name) {
    Tensor<T> t{s};
    vf_fill(t.getData().data(), name);
    return t;
}
template <class T>
void out(const char* name, const Tensor<T>& t) {
    vf_out_vec(name, t.getShape().getDimensions());
    vf_out_arr(name, t.getData().data(), (long long)t.getShape().size());
}
}  // namespace vf
