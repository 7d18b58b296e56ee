// Reference model of a network, in double precision, written from the definition of each kind of layer.
#pragma once
#include "util.hpp"

namespace ref
{
    using D = std::vector<double>;
    using DD = std::vector<D>;
    using namespace u;

    inline double sigmoid(double x) { return 1.0 / (1.0 + std::exp(-x)); }

    inline double f(activation a, double x)
    {
        switch (a)
        {
        case activation::sigmoid: return sigmoid(x);
        case activation::iSigmoid: return sigmoid(x) + 0.05 * x;
        case activation::tanh: return std::tanh(x);
        case activation::ReLU: return x > 0 ? x : 0;
        case activation::GELU: return x * sigmoid(1.702 * x);
        case activation::gaussian: return std::exp(-x * x);
        default: return x;
        }
    }

    inline double df(activation a, double x)
    {
        const double s = sigmoid(x), t = std::tanh(x), g = sigmoid(1.702 * x);
        switch (a)
        {
        case activation::sigmoid: return s * (1 - s);
        case activation::iSigmoid: return s * (1 - s) + 0.05;
        case activation::tanh: return 1 - t * t;
        case activation::ReLU: return x > 0 ? 1 : 0;
        case activation::GELU: return g + 1.702 * x * g * (1 - g);
        case activation::gaussian: return -2 * x * std::exp(-x * x);
        default: return 1;
        }
    }

    inline int product(const std::vector<int>& v)
    {
        int p = 1;
        for (int i : v)
            p *= i;
        return p;
    }

    enum Defect { CORRECT = 0, TEMPORAL_LEAK = 1, LC1D_ERRORS = 2, GRU_GATES = 4 };

    struct Layer
    {
        LayerSpec spec;
        std::vector<int> in, out; // {C, X, Y}, {C, X} or {N}
        int weightsPerNeuron = 0, neurons = 0;
        std::vector<std::vector<int>> kernels; // input index of each weight for each position, -1 in the padding
        DD w, dw; // [neuron][weight]
        DD previous; // momentum, [neuron * positions][weight]
        // last forward
        D input, sums, result;
        D mask; // of the dropout
        // temporal state
        D lastOutput, leakedOutput;
        D history; // output of the previous data, as used by the last forward
        D previousSums, recurrentErrors; // of each neuron, of each gate for the gated units: reset, update, output
        D updates, candidates, interpolated; // gated units: outputs of the gates and interpolated history

        int positions() const { return (int)kernels.size(); }
        bool hasNeurons() const { return spec.kind != POOL; }
    };

    struct Net
    {
        std::vector<Layer> layers;
        double lr = 0, momentum = 0;
        int defects = CORRECT;
        bool sequential = false; // a filter is updated after each position: the errors of the next ones use its new weights

        static std::vector<int> asMap(std::vector<int> shape) { return shape.size() == 1 ? std::vector<int>{1, shape[0]} : shape; }

        explicit Net(const ArchSpec& a)
            : lr(a.lr), momentum(a.momentum)
        {
            std::vector<int> shape = a.input;
            for (const auto& s : a.layers)
            {
                Layer l;
                l.spec = s;
                if (s.kind == FC || s.kind == RNN || s.kind == GRU)
                {
                    l.in = shape;
                    l.out = {s.n};
                    l.neurons = s.n;
                    l.weightsPerNeuron = product(shape) + (s.kind == FC ? 1 : 2);
                    if (s.kind == GRU)
                        l.weightsPerNeuron *= 3;
                    l.kernels.resize(1);
                    for (int i = 0; i < product(shape); ++i)
                        l.kernels[0].push_back(i);
                }
                else
                {
                    l.in = asMap(shape);
                    const int C = l.in[0], X = l.in[1], Y = l.in.size() > 2 ? l.in[2] : 1, k = s.k;
                    const int ky = l.in.size() > 2 ? k : 1;
                    const bool overlap = s.kind == CONV;
                    const int ox = overlap ? X - k + 1 : (X + k - 1) / k;
                    const int oy = l.in.size() == 2 ? 1 : overlap ? Y - k + 1 : (Y + k - 1) / k;
                    l.out = {s.kind == POOL ? C : s.n, ox};
                    if (l.in.size() > 2)
                        l.out.push_back(oy);
                    for (int py = 0; py < oy; ++py)
                        for (int px = 0; px < ox; ++px)
                        {
                            std::vector<int> kernel;
                            const int sx = overlap ? px : px * k, sy = overlap ? py : py * ky;
                            for (int y = 0; y < ky; ++y)
                                for (int x = 0; x < k; ++x)
                                    for (int c = 0; c < C; ++c)
                                        kernel.push_back(sx + x < X && sy + y < Y ? ((sy + y) * X + sx + x) * C + c : -1);
                            l.kernels.push_back(kernel);
                        }
                    if (s.kind != POOL)
                    {
                        l.neurons = s.n * (s.kind == LC ? l.positions() : 1);
                        l.weightsPerNeuron = k * ky * C + 1;
                    }
                }
                l.previous.assign(s.kind == CONV ? l.neurons * l.positions() : l.neurons, D(l.weightsPerNeuron, 0.0));
                l.lastOutput.assign(l.neurons, 0.0);
                l.leakedOutput.assign(l.neurons * 3, 0.0);
                l.history = l.sums = l.recurrentErrors = D(l.neurons * (s.kind == GRU ? 3 : 1), 0.0);
                l.updates = l.candidates = l.interpolated = D(l.neurons, 0.0);
                layers.push_back(l);
                shape = l.out;
            }
        }

        int inputs() const { return product(layers[0].in); }
        int outputs() const { return product(layers.back().out); }
        int parameters() const
        {
            int p = 0;
            for (const auto& l : layers)
                p += l.neurons * l.weightsPerNeuron;
            return p;
        }
        int neurons() const
        {
            int p = 0;
            for (const auto& l : layers)
                p += l.neurons;
            return p;
        }

        void readWeights(const u::Net& net)
        {
            const auto all = u::weights(net);
            for (size_t l = 0; l < layers.size(); ++l)
            {
                layers[l].w.clear();
                for (const auto& n : all[l])
                    layers[l].w.emplace_back(n.begin(), n.end());
            }
        }

        double bias(const Layer& l) const { return l.spec.kind == CONV || l.spec.kind == LC ? static_cast<double>(0.001f) : 1.0; }

        D temporalUnits(Layer& l, const D& x, bool reset)
        {
            D out;
            const int n = (int)x.size();
            l.previousSums = l.sums;
            if (reset)
                l.recurrentErrors.assign(l.recurrentErrors.size(), 0.0);
            for (int u = 0; u < l.neurons; ++u)
            {
                const auto& w = l.w[u];
                if (l.spec.kind == RNN)
                {
                    // correct: the first data of a sequence is computed without history
                    const double h = reset && !(defects & TEMPORAL_LEAK) ? 0.0 : l.lastOutput[u];
                    l.history[u] = h;
                    double s = h * w[n] + w[n + 1];
                    for (int i = 0; i < n; ++i)
                        s += x[i] * w[i];
                    l.sums[u] = s;
                    l.lastOutput[u] = f(l.spec.act, s);
                    out.push_back(l.lastOutput[u]);
                }
                else
                {
                    const auto gate = [&](int g, double h)
                    {
                        const int o = g * (n + 2);
                        double s = h * w[o + n] + w[o + n + 1];
                        for (int i = 0; i < n; ++i)
                            s += x[i] * w[o + i];
                        l.history[u * 3 + g] = h;
                        return l.sums[u * 3 + g] = s;
                    };
                    // the known defect: the gates keep the output of the previous data at the start of a sequence, the
                    // interpolated output always starts from 0
                    const bool leak = defects & TEMPORAL_LEAK;
                    const double h = reset && !leak ? 0.0 : l.lastOutput[u], h0 = leak ? 0.0 : h;
                    const double r = sigmoid(gate(0, h)), z = sigmoid(gate(1, h));
                    const double c = std::tanh(gate(2, r * h));
                    l.updates[u] = z;
                    l.candidates[u] = c;
                    l.interpolated[u] = h0;
                    l.lastOutput[u] = (1 - z) * h0 + z * c;
                    out.push_back(l.lastOutput[u]);
                }
            }
            return out;
        }

        D forwardLayer(Layer& l, const D& x, bool reset, bool training)
        {
            D out;
            l.input = x;
            if (l.spec.kind == RNN || l.spec.kind == GRU)
                out = temporalUnits(l, x, reset);
            else if (l.spec.kind == POOL)
            {
                for (const auto& kernel : l.kernels)
                    for (int c = 0; c < l.in[0]; ++c)
                    {
                        double m = -INFINITY;
                        for (size_t i = c; i < kernel.size(); i += l.in[0])
                            if (kernel[i] >= 0)
                                m = std::max(m, x[kernel[i]]);
                        out.push_back(m);
                    }
            }
            else
            {
                l.sums.clear();
                const int perPosition = l.spec.n;
                for (int p = 0; p < l.positions(); ++p)
                    for (int n = 0; n < perPosition; ++n)
                    {
                        const auto& w = l.w[l.spec.kind == LC ? p * perPosition + n : n];
                        double s = w.back() * bias(l);
                        for (size_t i = 0; i < l.kernels[p].size(); ++i)
                            if (l.kernels[p][i] >= 0)
                                s += x[l.kernels[p][i]] * w[i];
                        l.sums.push_back(s);
                        out.push_back(f(l.spec.act, s));
                    }
            }
            for (const auto& o : l.spec.optimizers)
            {
                if (o.type == snn::layerOptimizerType::dropout)
                    for (size_t i = 0; i < out.size(); ++i)
                        out[i] *= training ? (l.mask.empty() ? 1.0 : l.mask[i]) : 1.0 - static_cast<double>(o.value);
                if (o.type == snn::layerOptimizerType::softmax)
                {
                    const double m = *std::max_element(out.begin(), out.end());
                    double sum = 0;
                    for (auto& v : out)
                        sum += v = std::exp(v - m);
                    for (auto& v : out)
                        v /= sum;
                }
            }
            l.result = out;
            return out;
        }

        D forward(D x, bool reset = true, bool training = false)
        {
            for (auto& l : layers)
                x = forwardLayer(l, x, reset, training);
            return x;
        }

        D forward(const V& x, bool reset = true, bool training = false) { return forward(D(x.begin(), x.end()), reset, training); }

        double error(const V& x, const V& desired)
        {
            const D out = forward(x, true, true);
            double e = 0;
            for (size_t i = 0; i < out.size(); ++i)
                e += (desired[i] - out[i]) * (desired[i] - out[i]);
            return e;
        }

        // One step of gradient descent on the squared error, after forward(..., training). Returns the errors (-dE/dx).
        D train(const V& desired)
        {
            D e;
            for (size_t i = 0; i < layers.back().result.size(); ++i)
                e.push_back(2 * (desired[i] - layers.back().result[i]));
            for (int i = (int)layers.size() - 1; i >= 0; --i)
                e = trainLayer(layers[i], e);
            return e;
        }

        D trainLayer(Layer& l, D e)
        {
            for (auto o = l.spec.optimizers.begin(); o != l.spec.optimizers.end(); ++o)
            {
                if (o->type == snn::layerOptimizerType::dropout && !l.mask.empty())
                    for (size_t i = 0; i < e.size(); ++i)
                        e[i] *= l.mask[i];
                if (o->type == snn::layerOptimizerType::errorMultiplier)
                    for (auto& v : e)
                        v *= static_cast<double>(o->value);
            }
            D back(l.input.size(), 0.0);
            if (l.spec.kind == POOL)
            {
                for (int p = 0, o = 0; p < l.positions(); ++p)
                    for (int c = 0; c < l.in[0]; ++c, ++o)
                    {
                        int best = -1;
                        for (size_t i = c; i < l.kernels[p].size(); i += l.in[0])
                            if (l.kernels[p][i] >= 0 && (best < 0 || l.input[l.kernels[p][i]] > l.input[best]))
                                best = l.kernels[p][i];
                        back[best] += e[o];
                    }
                return back;
            }
            const DD old = l.w;
            if (l.spec.kind == GRU)
            {
                const int n = (int)l.input.size();
                for (int u = 0; u < l.neurons; ++u)
                {
                    const double z = l.updates[u], c = l.candidates[u];
                    const double candidate = e[u] * z;
                    // the known defect: the output is taken as the sum, not as the interpolation, and the reset gate has no error
                    const bool defect = defects & GRU_GATES;
                    const double update = defect ? e[u] * (c + z) : e[u] * (c - l.interpolated[u]);
                    const double h = l.history[u * 3];
                    const double reset = defect ? 0 : candidate * df(activation::tanh, l.sums[u * 3 + 2]) * old[u][2 * (n + 2) + n] * h;
                    const double errors[3] = {reset, update, candidate};
                    for (int g = 0; g < 3; ++g)
                    {
                        const auto a = g == 2 ? activation::tanh : activation::sigmoid;
                        const int o = g * (n + 2);
                        const double d = errors[g] * df(a, l.sums[u * 3 + g]);
                        auto& recurrent = l.recurrentErrors[u * 3 + g];
                        recurrent = d + recurrent * df(a, l.previousSums[u * 3 + g]) * old[u][o + n];
                        for (int i = 0; i < n + 2; ++i)
                        {
                            const double step = i < n ? d * l.input[i] : i == n ? recurrent * l.history[u * 3 + g] : d;
                            l.previous[u][o + i] = lr * step + momentum * l.previous[u][o + i];
                            l.w[u][o + i] += l.previous[u][o + i];
                            if (i < n)
                                back[i] += d * old[u][o + i];
                        }
                    }
                }
                return back;
            }
            const int perPosition = l.spec.n;
            const double rate = l.spec.kind == CONV ? lr / l.positions() : lr;
            for (int p = 0, o = 0; p < l.positions(); ++p)
                for (int n = 0; n < perPosition; ++n, ++o)
                {
                    const int neuron = l.spec.kind == LC ? o : n;
                    const double d = e[o] * df(l.spec.act, l.sums[o]);
                    // the known defect of the errors of LocallyConnected1D: the kernel is chosen with the wrong stride
                    const int q = l.spec.kind == LC && l.in.size() == 2 && (defects & LC1D_ERRORS) ? o % l.positions() : p;
                    auto& previous = l.previous[l.spec.kind == CONV ? n * l.positions() + p : neuron];
                    const size_t inputs = l.kernels[p].size();
                    if (l.spec.kind == RNN) // the error of the current data and the ones of the sequence so far
                        l.recurrentErrors[neuron] = d + l.recurrentErrors[neuron] * df(l.spec.act, l.previousSums[neuron]) * old[neuron][inputs];
                    for (size_t i = 0; i < l.w[neuron].size(); ++i)
                    {
                        double x = 0, error = d;
                        if (i < inputs)
                        {
                            if (l.kernels[q][i] >= 0)
                                back[l.kernels[q][i]] += d * (sequential ? l.w : old)[neuron][i];
                            if (l.kernels[p][i] >= 0)
                                x = l.input[l.kernels[p][i]];
                        }
                        else if (l.spec.kind == RNN && i == inputs)
                        {
                            x = l.history[neuron];
                            error = l.recurrentErrors[neuron];
                        }
                        else
                            x = bias(l);
                        previous[i] = rate * error * x + momentum * previous[i];
                        l.w[neuron][i] += previous[i];
                    }
                }
            return back;
        }
    };

    inline double maxDifference(const D& a, const V& b)
    {
        double m = a.size() == b.size() ? 0 : INFINITY;
        for (size_t i = 0; i < a.size() && i < b.size(); ++i)
        {
            const double d = std::fabs(a[i] - b[i]);
            m = std::isnan(d) ? INFINITY : std::max(m, d);
        }
        return m;
    }
}
