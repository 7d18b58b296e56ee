// C26: the bitmaps are valid files which show the data, the outputs and the weights of the layers, and their export changes nothing.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "ops.hpp"
using namespace ops;

struct Image
{
    bool valid = false;
    int w = 0, h = 0;
    std::vector<std::array<int, 3>> pixels; // red, green, blue
    const std::array<int, 3>& at(int x, int y) const { return pixels[y * w + x]; }
};

static Image read(const std::string& path)
{
    Image i;
    const std::string f = readFile(path);
    const auto u32 = [&](size_t o) { return (uint32_t)(unsigned char)f[o] | (unsigned char)f[o + 1] << 8 | (unsigned char)f[o + 2] << 16 | (uint32_t)(unsigned char)f[o + 3] << 24; };
    if (f.size() < 54 || f[0] != 'B' || f[1] != 'M')
        return i;
    const uint32_t offset = u32(10);
    i.w = u32(18);
    i.h = u32(22);
    const size_t row = (i.w * 3 + 3) / 4 * 4;
    if ((unsigned char)f[28] != 24 || u32(30) != 0 || f.size() != offset + row * i.h || u32(2) != f.size() || i.w < 1 || i.h < 1)
        return i;
    i.pixels.resize(i.w * i.h);
    for (int y = 0; y < i.h; ++y)
        for (int x = 0; x < i.w; ++x)
        {
            const size_t o = offset + row * (i.h - 1 - y) + x * 3;
            i.pixels[y * i.w + x] = {(unsigned char)f[o + 2], (unsigned char)f[o + 1], (unsigned char)f[o]};
        }
    i.valid = true;
    return i;
}

static int color(double v) { return (int)(std::clamp(v, 0.0, 1.0) * 255.0 + 1e-4); }

static bool close(int a, double exact255, double tolerance) { return a >= std::floor(exact255 - tolerance) && a <= std::ceil(exact255 + tolerance); }

static std::map<std::string, std::string> files(const std::string& dir)
{
    std::map<std::string, std::string> r;
    for (const auto& e : std::filesystem::directory_iterator(dir))
        r[e.path().filename().string()] = e.path().string();
    return r;
}

static void tiles(int n, int& columns, int& rows)
{
    columns = 1;
    while (columns * columns < n)
        ++columns;
    rows = (n + columns - 1) / columns;
}

static ArchSpec architecture()
{
    ArchSpec a;
    const int rank = mc::choose(3);
    const int big = mc::thorough() ? 4 : 3;
    if (rank == 0)
        a.input = {4};
    else if (rank == 1)
        a.input = {1 + mc::choose(2), 4};
    else
        a.input = {1 + mc::choose(4), 1 + mc::choose(big), 1 + mc::choose(big)};
    const int depth = 1 + mc::choose(2);
    std::vector<int> shape = a.input;
    for (int d = 0; d < depth; ++d)
    {
        std::vector<LayerSpec> possible;
        for (const auto& l : d == 0 ? layers({2}, {1, 2, 3, 5}, {1, 2, 3}, false) : layers({2}, {1, 4}, {1, 2}, false))
            if (fits(l, shape))
                possible.push_back(l);
        auto l = mc::pick(possible);
        l.act = d == 0 ? activation::sigmoid : activation::identity;
        a.layers.push_back(l);
        shape = shapeAfter(l, shape);
    }
    return a;
}

static void exports(const ArchSpec& a, float inputs = 1.2f, float weights = 1.5f);

MC_SCENARIO_SPLIT(exports, 4)
{
    exports(architecture());
}

MC_SCENARIO_SPLIT(large_images, 2) // wide or high images, many channels or filters
{
    const int n = mc::pick(mc::thorough() ? std::vector<int>{7, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 129, 200, 255, 257, 300, 513, 700} : std::vector<int>{9, 16, 17, 33, 64, 65, 129, 257, 300, 513});
    ArchSpec a;
    const auto kind = mc::pick(std::vector<Kind>{CONV, LC, POOL});
    const int shape = mc::choose(5);
    const std::vector<std::vector<int>> inputs = {{3, n, 2}, {1, 3, n}, {1, 3, 3}, {1, 3, 4}, {n, 3, 3}};
    a.input = inputs[shape];
    const int filters = kind == POOL ? 1 : shape == 2 || shape == 3 ? n : 2;
    a.layers = {{kind, filters, 2, activation::sigmoid}};
    if (shape == 3)
        a.layers.push_back({CONV, 2, 2, activation::identity});
    exports(a);
}

MC_SCENARIO(magnitudes) // small and large inputs, outputs and weights
{
    ArchSpec a;
    const auto kind = mc::pick(std::vector<Kind>{CONV, LC});
    a.input = mc::pick(std::vector<std::vector<int>>{{1, 3, 3}, {2, 3, 2}, {3, 2, 3}});
    a.layers = {{kind, 2, 2, mc::pick(std::vector<activation>{activation::identity, activation::ReLU, activation::tanh})}};
    const float input = mc::pick(V{1e-30f, 0.01f, 1.2f, 100.0f, 1e9f, 1e30f});
    exports(a, input, mc::pick(V{1e-4f, 0.1f, 1.5f, 10.0f, 1e6f}));
}

static void exports(const ArchSpec& a, const float inputScale, const float weightScale)
{
    auto net = make(a);
    setWeights(*net, 3, weightScale);
    ref::Net model(a);
    model.readWeights(*net);
    const std::string dir = mc::scratchDir() + "/c26";
    std::filesystem::remove_all(dir);
    std::filesystem::create_directories(dir);
    const std::string what = describe(a) + (inputScale == 1.2f ? "" : mc::format(" inputs of %g", inputScale)) + (weightScale == 1.5f ? "" : mc::format(" weights of %g", weightScale));
    mc::note("%s", what.c_str());
    VV X, Y;
    const int inputs = net->getNumberOfInputs();
    for (int i = 0; i < 2; ++i)
    {
        V x = values(i + 1, inputs, inputScale);
        if (i)
            x[0] = 1.0f;
        X.push_back(x);
        Y.push_back(V(net->getNumberOfOutputs(), i ? 1.0f : 0.0f));
    }
    Data d(problem::multipleClassification, X, Y, X, Y);
    const int item = mc::choose(2);
    Net before(*net);
    const auto o = observe(*net);
    mc::step(3);
    // the data
    net->saveData2DAsBitmap(dir + "/d", d, item);
    auto list = files(dir);
    MC_CHECK(list.size() == (a.input.size() == 3 && model.layers[0].in.size() == 3 && filtered(a.layers[0].kind) ? 1 : list.size()), "files", "%s: %zu files", what.c_str(), list.size());
    for (const auto& [name, path] : list)
    {
        const Image i = read(path);
        const auto& s = a.input;
        MC_CHECK(i.valid && s.size() == 3 && i.w == s[1] && i.h == s[2], "data", "%s: %s is not an image of the data (%dx%d)", what.c_str(), name.c_str(), i.w, i.h);
        for (int y = 0; y < i.h; ++y)
            for (int x = 0; x < i.w; ++x)
                for (int c = 0; c < 3; ++c)
                {
                    const double v = X[item][(y * s[1] + x) * s[0] + (s[0] < 3 ? 0 : c)];
                    MC_CHECK(std::abs(i.at(x, y)[c] - color(v)) <= 1, "data", "%s: pixel %d,%d channel %d is %d instead of %d", what.c_str(), x, y, c, i.at(x, y)[c], color(v));
                }
        std::filesystem::remove(path);
    }
    // the outputs of the layers
    net->saveFilterLayersAsBitmap(dir + "/o", d, item);
    list = files(dir);
    V current = X[item];
    size_t expectedFiles = 0;
    for (size_t l = 0; l < a.layers.size(); ++l)
    {
        V out = before.layers[l]->output(current, true);
        const auto& L = model.layers[l];
        const std::string path = dir + "/o_layer_" + std::to_string(l) + ".bmp";
        const bool map = filtered(a.layers[l].kind) && L.out.size() == 3;
        if (map && a.layers[l].kind == POOL && !std::filesystem::exists(path))
            expectedFiles += 0; // the pooling layers are optional
        else
        {
            MC_CHECK(std::filesystem::exists(path) == map, "files", "%s: layer %zu", what.c_str(), l);
            expectedFiles += map;
        }
        if (map && std::filesystem::exists(path))
        {
            const Image i = read(path);
            int columns, rows;
            tiles(L.out[0], columns, rows);
            MC_CHECK(i.valid && i.w == (L.out[1] + 1) * columns - 1 && i.h == (L.out[2] + 1) * rows - 1, "outputs", "%s: layer %zu: image of %dx%d", what.c_str(), l, i.w, i.h);
            for (int y = 0; y < i.h; ++y)
                for (int x = 0; x < i.w; ++x)
                {
                    const int f = y / (L.out[2] + 1) * columns + x / (L.out[1] + 1), px = x % (L.out[1] + 1), py = y % (L.out[2] + 1);
                    const bool inside = f < L.out[0] && px < L.out[1] && py < L.out[2];
                    const int e = inside ? color(out[(py * L.out[1] + px) * L.out[0] + f]) : 0;
                    for (int c = 0; c < 3; ++c)
                        MC_CHECK(std::abs(i.at(x, y)[c] - e) <= (inside ? 1 : 0), "outputs", "%s: layer %zu pixel %d,%d is %d instead of %d", what.c_str(), l, x, y, i.at(x, y)[c], e);
                }
        }
        current = out;
    }
    MC_CHECK(list.size() == expectedFiles, "files", "%s: %zu files of outputs", what.c_str(), list.size());
    for (const auto& [name, path] : list)
        std::filesystem::remove(path);
    // the weights
    net->saveFeatureMapsAsBitmap(dir + "/w");
    list = files(dir);
    expectedFiles = 0;
    for (size_t l = 0; l < a.layers.size(); ++l)
    {
        const auto& L = model.layers[l];
        const std::string path = dir + "/w_layer_" + std::to_string(l) + ".bmp";
        const bool map = (a.layers[l].kind == CONV || a.layers[l].kind == LC) && L.in.size() == 3;
        MC_CHECK(std::filesystem::exists(path) == map, "files", "%s: feature maps of layer %zu", what.c_str(), l);
        expectedFiles += map;
        if (!map)
            continue;
        const Image i = read(path);
        int columns, rows;
        const int X = L.in[1], Y = L.in[2], C = L.in[0], filters = L.out[0];
        tiles(filters, columns, rows);
        MC_CHECK(i.valid && i.w == (X + 1) * columns - 1 && i.h == (Y + 1) * rows - 1, "feature maps", "%s: layer %zu: image of %dx%d", what.c_str(), l, i.w, i.h);
        for (int f = 0; f < filters; ++f)
        {
            std::vector<double> sum(X * Y, 0.0);
            for (int p = 0; p < L.positions(); ++p)
            {
                const auto& w = L.w[a.layers[l].kind == CONV ? f : p * filters + f];
                for (size_t k = 0; k < L.kernels[p].size(); ++k)
                    if (L.kernels[p][k] >= 0)
                        sum[L.kernels[p][k] / C] += w[k];
            }
            for (int y = 0; y < Y; ++y)
                for (int x = 0; x < X; ++x)
                {
                    const int got = i.at(f % columns * (X + 1) + x, f / columns * (Y + 1) + y)[0];
                    const double e = (std::tanh(sum[y * X + x] / 2) + 1) * 127.5;
                    MC_CHECK(close(got, e, 0.51), "feature maps", "%s: layer %zu filter %d pixel %d,%d is %d instead of %g", what.c_str(), l, f, x, y, got, e);
                }
        }
        for (int y = 0; y < i.h; ++y)
            for (int x = 0; x < i.w; ++x)
                if (x % (X + 1) == X || y % (Y + 1) == Y || y / (Y + 1) * columns + x / (X + 1) >= filters)
                    MC_CHECK(i.at(x, y)[0] == 0, "feature maps", "%s: layer %zu pixel %d,%d", what.c_str(), l, x, y);
    }
    MC_CHECK(list.size() == expectedFiles, "files", "%s: %zu files of feature maps", what.c_str(), list.size());
    const auto p = observe(*net);
    MC_CHECK(o == p, "purity", "%s: the export changes the network:%s", what.c_str(), difference(o, p).c_str());
    mc::outcome(mc::hash(what));
    mc::state(mc::hash(what));
}
