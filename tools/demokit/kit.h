// Small helpers for the demonstrations.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <opencompgraph.h>
#include <OpenImageIO/imageio.h>
namespace ocg = open_comp_graph;
using NT = ocg::NodeType;
typedef std::shared_ptr<ocg::Cache> CacheP;

#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)

// An EXR (or other) image whose pixels depend on the seed.
static void mkimg(const std::string &p, int w, int h, int seed, int ch = 4, const char *type = "float", int x = 0, int y = 0, int fw = 0, int fh = 0) {
    OIIO::ImageSpec s(w, h, ch, OIIO::TypeDesc(type));
    s.x = x; s.y = y; s.full_width = fw ? fw : w; s.full_height = fh ? fh : h;
    std::vector<float> px((size_t)w * h * ch);
    for (size_t i = 0; i < px.size(); i++) px[i] = (float)((i * 7 + seed * 13) % 61) / 64.0f;
    auto o = OIIO::ImageOutput::create(p);
    o->open(p, s);
    o->write_image(OIIO::TypeDesc::FLOAT, px.data());
    o->close();
}
static CacheP mkcache(size_t bytes) { auto c = std::make_shared<ocg::Cache>(); c->set_capacity_bytes(bytes); return c; }
static ocg::ExecuteStatus run(ocg::Graph &g, ocg::Node &n, CacheP c, std::vector<int32_t> frames = {1}) {
    return g.execute(n, frames, c);
}
static std::string bytes(const std::string &p) { std::ifstream i(p, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static bool exists(const std::string &p) { return (bool)std::ifstream(p); }
// Everything a stream shows, as text.
template <class S> static std::string show(S &&s) {
    auto dw = s.data_window(); auto fw = s.display_window(); auto sp = s.clone_image_spec();
    size_t n = (size_t)s.pixel_width() * s.pixel_height() * s.pixel_num_channels();
    auto t = s.pixel_data_type();
    size_t es = t == ocg::DataType::kFloat32 ? 4 : t == ocg::DataType::kUInt8 ? 1 : 2;
    char b[400];
    snprintf(b, sizeof b, "%dx%dx%d type %d dw %d,%d,%d,%d fw %d,%d,%d,%d cs %s deformers %zu ops %zu/%llx px ", s.pixel_width(), s.pixel_height(), s.pixel_num_channels(), (int)t,
             dw.min_x, dw.min_y, dw.max_x, dw.max_y, fw.min_x, fw.min_y, fw.max_x, fw.max_y, std::string(sp.color_space).c_str(), s.deformers_len(), s.color_ops_len(), (unsigned long long)s.color_ops_hash());
    std::string o = b;
    if (s.pixel_buffer().data() && n) o.append((const char *)s.pixel_buffer().data(), n * es);
    return o;
}
static bool same(const std::string &a, const std::string &b, const char *what) {
    if (a == b) return true;
    printf("%s differ:\n  %.200s\n  %.200s\n", what, a.c_str(), b.c_str());
    return false;
}
static std::vector<float> pixels(const std::string &p) {
    auto in = OIIO::ImageInput::open(p);
    if (!in) return {};
    auto s = in->spec();
    std::vector<float> px((size_t)s.width * s.height * s.nchannels);
    bool ok = in->read_image(0, 0, 0, s.nchannels, OIIO::TypeDesc::FLOAT, px.data());
    in->close();
    if (!ok) return {};
    return px;
}
static ocg::Node read_node(ocg::Graph &g, const char *name, const char *path) { auto n = g.create_node(NT::kReadImage, name); g.set_node_attr_str(n, "file_path", path); return n; }
