// Random networks and datasets, and views of a model's parameters.
#pragma once
#include <functional>
#include "common.hpp"
#include "middleware/fnn.hpp"
#include "data/dataset.hpp"
#include "dnn/recurrent.hpp"
#include "dnn/concatenate.hpp"

#include <set>

using namespace EdgeLearning;

namespace {

struct Net {
    DLMath::Shape3d in{1, 1, 1};
    std::vector<LayerDescriptor> layers;     // without the input descriptor
    SizeType in_size = 1, out_size = 1;
    bool dropout = false, big = false;
    bool two_heads = false, links_last = false;   // a second output layer with a loss of its own; edges added after all layers, last first
    SizeType rec_in = 0, rec_out = 0, rec_hidden = 0, rec_steps = 0;   // a recurrent layer in front, if rec_steps > 0
    std::string text;
};

ActivationType act(uint64_t k)
{
    static const ActivationType a[] = {ActivationType::Linear, ActivationType::ReLU, ActivationType::TanH,
                                       ActivationType::Sigmoid, ActivationType::ELU, ActivationType::Softmax};
    return a[k];
}

// three digits, so that saving keeps it
double drop() { return std::round(sim::real(0.1, 0.6) * 1000.0) / 1000.0; }

Net gen_net(bool cce, bool allow_dropout)
{
    // now and then wide layers: code may take another path for them
    SizeType wide = sim::pick(10) == 9 ? sim::range(8, 40) : 0;
    bool huge = wide >= 38; if (huge) wide = sim::range(70, 300);
    Net n;
    uint64_t kind = sim::pick(4);      // 0,1: dense; 2: conv first; 3: pooling first
    std::string t;
    if (kind <= 1) n.in = DLMath::Shape3d(1, wide && sim::pick(2) && !huge ? wide / 2 : sim::range(1, 4), 1);
    else
    {
        if (wide) wide = 8;
        SizeType hh = sim::range(2, 4), ww = sim::range(2, 4), cc = sim::range(1, 2);
        n.in = DLMath::Shape3d(hh, ww, cc);
    }
    n.in_size = n.in.size();
    int id = 0;
    auto nm = [&](const char* p) { return std::string(p) + std::to_string(id++); };
    if (kind == 2)
    {
        SizeType nf = sim::range(1, wide ? 4 : 2), kh = sim::range(1, 2), kw = sim::range(1, 2), pad = sim::pick(2);
        n.layers.push_back(Conv(nm("conv"), {nf, DLMath::Shape2d(kh, kw), DLMath::Shape2d(1), DLMath::Shape2d(pad)}, act(sim::pick(4))));
        t += " conv";
    }
    else if (kind == 3)
    {
        SizeType k = sim::range(1, 2);
        if (sim::pick(2)) { n.layers.push_back(MaxPool(nm("maxp"), {DLMath::Shape2d(k), DLMath::Shape2d(1)})); t += " maxpool"; }
        else { n.layers.push_back(AvgPool(nm("avgp"), {DLMath::Shape2d(k), DLMath::Shape2d(1)})); t += " avgpool"; }
    }
    uint64_t hidden = sim::pick(12) == 11 ? 5 : sim::pick(3);
    for (uint64_t i = 0; i < hidden; ++i)
    {
        SizeType u = wide && !(huge && i) && sim::pick(2) ? wide : sim::range(1, 4);
        n.layers.push_back(Dense(nm("d"), u, act(sim::pick(5)))); t += " dense" + std::to_string(u);
        if (allow_dropout && sim::pick(4) == 3)
        {
            n.layers.push_back(Dropout(nm("drop"), {drop()})); n.dropout = true; t += " dropout";
        }
    }
    n.big = wide || hidden > 2;
    n.out_size = sim::pick(16) == 15 ? sim::range(4, 12) : sim::range(1, 3);
    n.layers.push_back(Dense(nm("out"), n.out_size, cce ? ActivationType::Softmax : act(sim::pick(4)))); t += " dense" + std::to_string(n.out_size);
    n.text = t;
    return n;
}

// With recurrent networks and other graphs than a chain.
Net gen_any_net(bool cce, bool allow_dropout)
{
    if (sim::pick(4) != 3)
    {
        Net n = gen_net(cce, allow_dropout);
        uint64_t k = sim::pick(6);
        n.two_heads = k == 5; n.links_last = k >= 4;
        if (n.two_heads) n.text += " two-heads";
        return n;
    }
    Net n;
    n.rec_in = sim::range(1, 2); n.rec_out = sim::range(1, 2); n.rec_hidden = sim::range(1, 3); n.rec_steps = sim::range(1, 3);
    n.in = DLMath::Shape3d(1, n.rec_in * n.rec_steps, 1);
    n.in_size = n.in.size();
    n.text = " recurrent";
    if (allow_dropout && sim::pick(3) == 2) { n.layers.push_back(Dropout("rdrop", {drop()})); n.dropout = true; n.text += " dropout"; }
    n.out_size = sim::range(1, 3);
    n.layers.push_back(Dense("out", n.out_size, cce ? ActivationType::Softmax : act(sim::pick(4)))); n.text += " dense" + std::to_string(n.out_size);
    return n;
}

struct Data { std::vector<double> v; SizeType n, in, out; };

Data gen_data(SizeType n, SizeType in, SizeType out, bool cce)
{
    Data d{{}, n, in, out};
    for (SizeType r = 0; r < n; ++r)
    {
        for (SizeType i = 0; i < in; ++i) d.v.push_back(sim::real(0.05, 1.05) + 0.001 * double(r) + 0.0007 * double(i));
        SizeType hot = cce ? sim::pick(out) : 0;
        for (SizeType o = 0; o < out; ++o) d.v.push_back(cce ? (o == hot ? 1.0 : 0.0) : sim::real(-1.0, 1.0));
    }
    return d;
}
Dataset<NumType> make(const Data& d)
{
    std::set<SizeType> lab;
    for (SizeType o = 0; o < d.out; ++o) lab.insert(d.in + o);
    return Dataset<NumType>(d.v, d.in + d.out, 1, lab);
}

// Layers are known by their place: between the steps the model may be replaced by a copy of itself, or move to another object.
void build(Model& first_m, const Net& net, bool cce, SizeType batch, const std::string& prefix = "", bool unnamed = false, const std::function<void(const std::function<void()>&)>& via = {}, Model** where = nullptr)
{
    auto now = [&]() -> Model& { return where ? **where : first_m; };
    DLMath::Shape3d shape = net.in;
    auto nm = [&](const std::string& s) { return unnamed ? std::string() : prefix + s; };
    const std::size_t none = std::size_t(-1);
    auto step = [&](const std::function<void()>& f) { if (via) via(f); else f(); };
    auto at = [&](std::size_t i) { return now().layers().at(i); };
    auto last = [&] { return now().layers().size() - 1; };
    std::size_t prev = none, fork = none;
    std::vector<std::pair<std::size_t, std::size_t>> later;
    auto edge = [&](std::size_t a, std::size_t b) { if (net.links_last) later.push_back({a, b}); else step([&] { now().create_edge(at(a), at(b)); }); };
    auto link = [&] { std::size_t l = last(); if (prev != none) edge(prev, l); prev = l; };
    if (net.rec_steps)
    {
        step([&] { now().add_layer<RecurrentLayer>(nm("rec"), net.rec_in, net.rec_out, net.rec_hidden, net.rec_steps); });
        link();
        shape = DLMath::Shape3d(1, net.rec_out * net.rec_steps, 1);
        step([&] { now().add_layer<LinearLayer>(nm("reca"), shape.size()); });
        link();
    }
    for (auto& d : net.layers)
    {
        const auto& s = d.setting();
        if (&d == &net.layers.back()) fork = prev;
        step([&] {
            switch (d.type())
            {
                case LayerType::Conv: now().add_layer<ConvolutionalLayer>(nm(d.name()), shape, s.kernel_shape(), s.n_filters(), s.stride(), s.padding()); break;
                case LayerType::MaxPool: now().add_layer<MaxPoolingLayer>(nm(d.name()), shape, s.kernel_shape(), s.stride()); break;
                case LayerType::AvgPool: now().add_layer<AveragePoolingLayer>(nm(d.name()), shape, s.kernel_shape(), s.stride()); break;
                case LayerType::Dropout: now().add_layer<DropoutLayer>(nm(d.name()), shape.size(), s.drop_probability()); break;
                default: now().add_layer<DenseLayer>(nm(d.name()), shape.size(), s.units().size());
            }
        });
        shape = at(last())->output_shape().shape();
        link();
        SizeType sz = shape.size();
        step([&] {
            switch (d.activation_type())
            {
                case ActivationType::ReLU: now().add_layer<ReluLayer>(nm(d.name() + "a"), sz); break;
                case ActivationType::ELU: now().add_layer<EluLayer>(nm(d.name() + "a"), sz); break;
                case ActivationType::Softmax: now().add_layer<SoftmaxLayer>(nm(d.name() + "a"), sz); break;
                case ActivationType::TanH: now().add_layer<TanhLayer>(nm(d.name() + "a"), sz); break;
                case ActivationType::Sigmoid: now().add_layer<SigmoidLayer>(nm(d.name() + "a"), sz); break;
                default: now().add_layer<LinearLayer>(nm(d.name() + "a"), sz);
            }
        });
        link();
    }
    SizeType bs = batch > 1000000 ? 1000000 : batch;
    auto loss = [&](std::size_t from, const std::string& name) {
        step([&] {
            if (cce) now().add_loss<CategoricalCrossEntropyLossLayer>(nm(name), at(from)->output_size(), bs);
            else now().add_loss<MeanSquaredLossLayer>(nm(name), at(from)->output_size(), bs);
        });
        step([&] { now().create_loss_edge(at(from), std::dynamic_pointer_cast<LossLayer>(at(last()))); });
    };
    std::size_t first = prev;
    if (net.two_heads && fork != none)
    {
        prev = fork;
        step([&] { now().add_layer<DenseLayer>(nm("head"), at(fork)->output_size(), net.out_size); });
        link();
        step([&] { if (cce) now().add_layer<SoftmaxLayer>(nm("heada"), net.out_size); else now().add_layer<TanhLayer>(nm("heada"), net.out_size); });
        link();
    }
    for (auto e = later.rbegin(); e != later.rend(); ++e) step([&] { now().create_edge(at(e->first), at(e->second)); });
    loss(first, "loss");
    if (prev != first) loss(prev, "loss2");
}
std::vector<double> params(Model& m)
{
    std::vector<double> v;
    for (auto& l : m.layers()) for (SizeType i = 0; i < l->param_count(); ++i) v.push_back(l->param(i));
    return v;
}
void set_params(Model& m, const std::vector<double>& v)
{
    std::size_t k = 0;
    for (auto& l : m.layers()) for (SizeType i = 0; i < l->param_count(); ++i) l->param(i) = v[k++];
}
std::vector<double> take_gradient(Model& m)
{
    std::vector<double> v;
    for (auto& l : m.layers()) for (SizeType i = 0; i < l->param_count(); ++i) { v.push_back(l->gradient(i)); l->gradient(i) = 0; }
    return v;
}

} // namespace
