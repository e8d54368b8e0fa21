// Sample generators (C34).
#include "vf.hpp"
#include "smart_dnn/Datasets/SampleGenerator.hpp"
using namespace vf;
using Data = std::pair<std::vector<TF>, std::vector<TF>>;
void show(const Data& d) {
    vf_out_int("nx", (long long)d.first.size()); vf_out_int("ny", (long long)d.second.size());
    for (size_t i = 0; i < d.first.size(); ++i) out("x", d.first[i]);
    for (size_t i = 0; i < d.second.size(); ++i) out("y", d.second[i]);
}
void g_linear() { show(generateLinearDataset(vf_dim("n"), vf_real("noise"))); }
void g_default() { show(generateLinearDataset(vf_dim("n"))); }
void g_batched() { show(generateBatchedLinearDataset(vf_dim("n"), vf_dim("b"), vf_real("noise"))); }
void g_batdefault() { show(generateBatchedLinearDataset(vf_dim("n"), vf_dim("b"))); }
void g_twice() { show(generateLinearDataset(vf_dim("n"), vf_real("noise"))); show(generateBatchedLinearDataset(vf_dim("m"), vf_dim("b"), vf_real("noise"))); }
