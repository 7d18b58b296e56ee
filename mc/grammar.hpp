// Bounded grammar of architectures.
#pragma once
#include "ref.hpp"

namespace grammar
{
    using namespace u;

    struct Bounds
    {
        std::vector<std::vector<int>> inputs;
        std::vector<LayerSpec> layers;
        int depth = 2;
    };

    inline bool filtered(Kind k) { return k == CONV || k == LC || k == POOL; }

    inline std::vector<LayerSpec> layers(std::vector<int> dense, std::vector<int> filters, std::vector<int> kernels, bool temporal = true)
    {
        std::vector<LayerSpec> r;
        for (int n : dense)
            r.push_back({FC, n});
        if (temporal)
            for (int n : dense)
                if (n <= 2)
                {
                    r.push_back({RNN, n});
                    r.push_back({GRU, n});
                }
        for (int k : kernels)
        {
            r.push_back({POOL, 1, k});
            for (int f : filters)
            {
                r.push_back({CONV, f, k});
                r.push_back({LC, f, k});
            }
        }
        return r;
    }

    // The layers which are accepted after a layer of shape `shape`.
    inline bool fits(const LayerSpec& l, std::vector<int> shape)
    {
        if (!filtered(l.kind))
            return true;
        shape = ref::Net::asMap(shape);
        if (shape.size() > 3)
            return false;
        for (size_t i = 1; i < shape.size(); ++i)
            if (l.k > shape[i])
                return false;
        return true;
    }

    inline std::vector<int> shapeAfter(const LayerSpec& l, const std::vector<int>& shape)
    {
        ArchSpec a;
        a.input = shape;
        a.layers = {l};
        return ref::Net(a).layers[0].out;
    }

    // Chooses an architecture with exactly `depth` layers.
    inline ArchSpec choose(const Bounds& b, int depth)
    {
        ArchSpec a;
        a.input = mc::pick(b.inputs);
        std::vector<int> shape = a.input;
        for (int d = 0; d < depth; ++d)
        {
            std::vector<const LayerSpec*> possible;
            for (const auto& l : b.layers)
                if (fits(l, shape))
                    possible.push_back(&l);
            a.layers.push_back(*mc::pick(possible));
            shape = shapeAfter(a.layers.back(), shape);
        }
        return a;
    }

    inline uint64_t hash(const ArchSpec& a) { return mc::hash(describe(a)); }

    inline bool temporal(const ArchSpec& a)
    {
        for (const auto& l : a.layers)
            if (l.kind == RNN || l.kind == GRU)
                return true;
        return false;
    }

    // Activations which are a function of the architecture: every one is met in every position.
    inline void mixActivations(ArchSpec& a, int rotation = 0)
    {
        uint64_t h = hash(a);
        for (auto& l : a.layers)
        {
            if (l.kind != GRU)
                l.act = allActivations[(h + rotation) % 7];
            h = mc::mix(h, 5);
        }
    }

    // Chooses an architecture with many inputs, neurons, filters, channels, positions or layers.
    inline ArchSpec large()
    {
        const int n = mc::pick(largeSizes());
        const auto T = activation::tanh;
        ArchSpec a;
        const int kind = mc::choose(9);
        switch (kind)
        {
        case 0: a.input = {n}, a.layers = {{mc::pick(std::vector<Kind>{FC, RNN, GRU}), 2, 1, T}}; break;
        case 1: a.input = {2}, a.layers = {{mc::pick(std::vector<Kind>{FC, RNN, GRU}), n, 1, T}}; break;
        case 2: a.input = {1, n}, a.layers = {{mc::pick(std::vector<Kind>{CONV, LC}), 2, mc::flag() ? 3 : n, T}}; break;
        case 3: a.input = {n, 2}, a.layers = {{mc::pick(std::vector<Kind>{CONV, LC}), 2, 2, T}}; break;
        case 4: a.input = {1, 2, 2}, a.layers = {{mc::pick(std::vector<Kind>{CONV, LC}), n, 2, T}}; break;
        case 5: a.input = {1, n, 3}, a.layers = {{mc::pick(std::vector<Kind>{CONV, LC}), 2, 2, T}}; break;
        case 6: a.input = {n, 3}, a.layers = {{POOL, 1, 2}}; break;
        case 7: a.input = {2, n}, a.layers = {{POOL, 1, std::max(2, n / 3)}}; break;
        default: a.input = {2}, a.layers = std::vector<LayerSpec>(std::min(n, 130), LayerSpec{FC, 2, 1, T}); break;
        }
        if (kind < 8)
            a.layers.push_back({FC, 2, 1, T});
        return a;
    }

    // Chooses an architecture with more than 32768 or 65536 parameters in a layer: many neurons with many inputs.
    inline ArchSpec largeProduct()
    {
        ArchSpec a;
        const int n = mc::pick(mc::thorough() ? std::vector<int>{182, 256, 257, 300, 512} : std::vector<int>{182, 257});
        switch (mc::choose(5))
        {
        case 0: a.input = {n}, a.layers = {{FC, n, 1, activation::tanh}}; break;
        case 1: a.input = {n}, a.layers = {{RNN, n, 1, activation::tanh}}; break;
        case 2: a.input = {n / 2}, a.layers = {{GRU, n}}; break;
        case 3: a.input = {1, n, 2}, a.layers = {{LC, n, 2, activation::tanh}}; break;
        default: a.input = {n, 3}, a.layers = {{CONV, n, 2, activation::tanh}}; break;
        }
        if (mc::flag())
            a.layers.push_back({FC, 2, 1, activation::tanh});
        return a;
    }
}
