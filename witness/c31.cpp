// MNIST loader (C31).  The analysis models the files "img" and "lab"; the
// configuration gives their length (img#), whether they exist (img?) and bytes
// of their headers (img@0 ...).
#include "vf.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
using namespace vf;
template <class T, class L>
void i_show(L& loader) {
    auto d = loader.loadData();
    vf_out_int("nx", (long long)d.first.size());
    vf_out_int("ny", (long long)d.second.size());
    for (size_t i = 0; i < d.first.size(); ++i) out("x", d.first[i]);
    for (size_t i = 0; i < d.second.size(); ++i) out("y", d.second[i]);
}
void i_load() { MNISTLoader<> l("img", "lab", vf_dim("b"), vf_int("limit")); i_show<float>(l); }
void i_double() { MNISTLoader<double> l("img", "lab", vf_dim("b"), vf_int("limit")); i_show<double>(l); }
void i_all() { MNISTLoader<> l("img", "lab", vf_dim("b")); i_show<float>(l); }
void i_plain() { MNISTLoader<> l("img", "lab"); i_show<float>(l); }
void i_again() { MNISTLoader<> l("img", "lab", vf_dim("b"), vf_int("limit")); i_show<float>(l); i_show<float>(l); }
void i_make() { MNISTLoader<> l("img", "lab", vf_int("b"), vf_int("limit")); vf_out_int("ok", 1); }
