// ocgsim: runs one simulated execution of the real OpenCompGraph library from a script of operations.
//   ocgsim serve          a zygote: reads "RUN <dir> <bytes>\n<script>" from stdin, forks one child per
//                         run, replies "DONE <exit> <signal> <log bytes> <stderr bytes>\n<log><stderr>"
//   ocgsim exec DIR FILE  the same for one script, in a child of this process
// The script decides everything (operations, faults, thread schedule, random numbers); one script is one
// exactly repeatable execution.
#include "seams.h"
#include <cfenv>
#include <clocale>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <dirent.h>
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#include <OpenImageIO/imageio.h>
#include <OpenImageIO/imagebuf.h>
#include <opencompgraph.h>

namespace ocg = open_comp_graph;
using seams::logf;
typedef std::vector<std::string> Toks;

static std::string dec(const std::string &s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '%' && i + 2 < s.size() + 0) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else o += s[i];
    }
    return o;
}
static Toks split(const std::string &l) { std::istringstream is(l); Toks t; std::string w; while (is >> w) t.push_back(w); return t; }

struct Fnv {
    uint64_t h = 1469598103934665603ull;
    void add(const void *p, size_t n) { const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } }
    template <class T> void v(T x) { add(&x, sizeof x); }
};

static const char *DT(ocg::DataType d) {
    if (d == ocg::DataType::kFloat32) return "f32";
    if (d == ocg::DataType::kHalf16) return "f16";
    if (d == ocg::DataType::kUInt8) return "u8";
    if (d == ocg::DataType::kUInt16) return "u16";
    return "unk";
}

struct GraphBox {
    std::unique_ptr<ocg::Graph> g;
    std::map<std::string, ocg::Node> nodes;
};
struct World {
    std::map<std::string, GraphBox> graphs;
    std::map<std::string, std::shared_ptr<ocg::Cache>> caches;
    std::map<std::string, std::unique_ptr<ocg::StreamData>> handles;
};
static World W;

static std::string digest(ocg::StreamData &s, std::string *points = nullptr) {
    auto px = s.pixel_buffer();
    Fnv f;
    // pixel_buffer() counts elements, not bytes.
    size_t ne = (size_t)s.pixel_width() * s.pixel_height() * s.pixel_num_channels();
    const char *dt = DT(s.pixel_data_type());
    size_t es = !strcmp(dt, "f32") ? 4 : !strcmp(dt, "u8") ? 1 : 2;
    f.add(px.data(), px.size() == ne ? ne * es : px.size());
    auto dw = s.data_window();
    auto fw = s.display_window();
    auto sp = s.clone_image_spec();
    auto m = s.color_matrix();
    Fnv mm;
    mm.add(&m, sizeof m);
    // What the deformers do, seen from outside.
    Fnv df;
    float pts[15] = {0};
    if (s.deformers_len() > 0) {
        for (int i = 0; i < 5; i++) { pts[3 * i] = 0.3f + 1.7f * i; pts[3 * i + 1] = 2.1f - 0.4f * i; pts[3 * i + 2] = 1.0f; }
        rust::Slice<float> sl{pts, 15};
        ocg::BBox2Df bd{(float)fw.min_x, (float)fw.min_y, (float)fw.max_x, (float)fw.max_y};
        ocg::BBox2Df bw{(float)dw.min_x, (float)dw.min_y, (float)dw.max_x, (float)dw.max_y};
        s.apply_deformers(sl, bd, bw);
        df.add(pts, sizeof pts);
    }
    if (points) {
        *points = "";
        for (int i = 0; i < 15 && s.deformers_len() > 0; i++) {
            char b[40];
            snprintf(b, sizeof b, "%.9g,", pts[i]);
            *points += b;
        }
    }
    char b[700];
    snprintf(b, sizeof b, "st=%d px=%016llx n=%zu dim=%dx%dx%d t=%s dw=%d,%d,%d,%d fw=%d,%d,%d,%d cs=%s g=%.4f pa=%.4f or=%d ua=%d di=%d nd=%zu df=%016llx nc=%zu ch=%016llx cm=%016llx",
             (int)s.state_id(), (unsigned long long)f.h, px.size(), s.pixel_width(), s.pixel_height(), s.pixel_num_channels(), DT(s.pixel_data_type()),
             dw.min_x, dw.min_y, dw.max_x, dw.max_y, fw.min_x, fw.min_y, fw.max_x, fw.max_y, std::string(sp.color_space).c_str(), (double)sp.gamma,
             (double)sp.pixel_aspect, (int)sp.orientation, (int)sp.unassociated_alpha, (int)sp.dither, s.deformers_len(), (unsigned long long)df.h, s.color_ops_len(),
             (unsigned long long)s.color_ops_hash(), (unsigned long long)mm.h);
    return b;
}
static std::string digest_img(ocg::internal::ImageShared &img) {
    auto &pb = img.pixel_block;
    int w = pb->width(), h = pb->height(), c = pb->num_channels();
    Fnv f;
    auto sl = pb->as_slice_f32();
    f.add(sl.data(), sizeof(float) * sl.size());
    char b[200];
    snprintf(b, sizeof b, "px=%016llx dim=%dx%dx%d cs=%s", (unsigned long long)f.h, w, h, c, std::string(img.spec.color_space).c_str());
    return b;
}
static void dump_stream(const std::string &h, ocg::StreamData &s) {
    auto px = s.pixel_buffer();
    int w = s.pixel_width(), c = s.pixel_num_channels(), hh = s.pixel_height();
    const char *t = DT(s.pixel_data_type());
    std::string o;
    size_t n = (size_t)w * hh * c;
    for (size_t i = 0; i < n && i < 4000; i++) {
        char b[40];
        if (!strcmp(t, "f32")) { float v; memcpy(&v, px.data() + 4 * i, 4); snprintf(b, sizeof b, "%.9g,", v); }
        else if (!strcmp(t, "u8")) snprintf(b, sizeof b, "%d,", px.data()[i]);
        else { uint16_t v; memcpy(&v, px.data() + 2 * i, 2); snprintf(b, sizeof b, "%d,", v); }
        o += b;
    }
    logf("D %s %dx%dx%d %s %s", h.c_str(), w, hh, c, t, o.c_str());
    digest(s, &o);
    if (!o.empty()) logf("V %s %s", h.c_str(), o.c_str());
}

// Pixel patterns for the files of the simulated world: small dyadic values, exact in every float format.
static float pat(int seed, int x, int y, int c) {
    unsigned v = (unsigned)seed * 2654435761u + x * 97u + y * 193u + c * 31u + (unsigned)(seed >> 3) * 7u;
    v ^= v >> 13;
    v *= 0x5bd1e995u;
    v ^= v >> 15;
    return (float)(v % 16) / 16.0f;
}
static int g_sub = 0;

// mkimg path w h ch dtype x y fx fy fw fh seed [attr=value ...]
static bool mkimg(const Toks &t) {
    std::string path = dec(t[1]);
    int w = atoi(t[2].c_str()), h = atoi(t[3].c_str()), ch = atoi(t[4].c_str());
    OIIO::TypeDesc td(t[5].c_str());
    OIIO::ImageSpec sp(w, h, ch, td);
    sp.x = atoi(t[6].c_str()); sp.y = atoi(t[7].c_str());
    sp.full_x = atoi(t[8].c_str()); sp.full_y = atoi(t[9].c_str());
    sp.full_width = atoi(t[10].c_str()); sp.full_height = atoi(t[11].c_str());
    sp.attribute("DateTime", "2020:01:01 00:00:00");   // else the image library stores the real time
    int seed = atoi(t[12].c_str());
    for (size_t i = 13; i < t.size(); i++) {
        size_t e = t[i].find('=');
        std::string k = t[i].substr(0, e), v = dec(t[i].substr(e + 1));
        if (k.size() > 2 && k.substr(k.size() - 2) == ":f") sp.attribute(k.substr(0, k.size() - 2), strtof(v.c_str(), nullptr));
        else if (k.size() > 2 && k.substr(k.size() - 2) == ":i") sp.attribute(k.substr(0, k.size() - 2), atoi(v.c_str()));
        else sp.attribute(k, v);
    }
    std::vector<float> px((size_t)w * h * ch);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int c = 0; c < ch; c++) px[((size_t)y * w + x) * ch + c] = pat(seed, x, y, c);
    auto out = OIIO::ImageOutput::create(path);
    if (!out) { logf("E mkimg %s no plugin", path.c_str()); return false; }
    if (!out->open(path, sp)) { logf("E mkimg %s %s", path.c_str(), out->geterror().c_str()); return false; }
    bool ok = out->write_image(OIIO::TypeDesc::FLOAT, px.data());
    out->close();
    if (!ok) logf("E mkimg write %s %s", path.c_str(), out->geterror().c_str());
    return ok;
}

// What an independent reader finds in a file.
static void decode(const std::string &path) {
    auto in = OIIO::ImageInput::open(path);
    if (!in) { struct stat st; bool ex = ::stat(path.c_str(), &st) == 0; logf("R decode %s %s", path.c_str(), ex ? "unreadable" : "absent"); OIIO::geterror(); return; }
    const OIIO::ImageSpec sp = in->spec();
    std::vector<float> px((size_t)sp.width * sp.height * sp.nchannels);
    bool ok = in->read_image(0, 0, 0, sp.nchannels, OIIO::TypeDesc::FLOAT, px.data());
    if (!ok) in->geterror();
    in->close();
    Fnv f;
    f.add(px.data(), px.size() * 4);
    logf("R decode %s %s px=%016llx dim=%dx%dx%d t=%s dw=%d,%d fw=%d,%d,%d,%d", path.c_str(), ok ? "ok" : "damaged", (unsigned long long)f.h, sp.width, sp.height,
         sp.nchannels, sp.format.c_str(), sp.x, sp.y, sp.full_x, sp.full_y, sp.full_width, sp.full_height);
}
static void decode_px(const std::string &path, int ln) {
    auto in = OIIO::ImageInput::open(path);
    if (!in) { logf("X %d none", ln); OIIO::geterror(); return; }
    const OIIO::ImageSpec sp = in->spec();
    std::vector<float> px((size_t)sp.width * sp.height * sp.nchannels);
    bool ok = in->read_image(0, 0, 0, sp.nchannels, OIIO::TypeDesc::FLOAT, px.data());
    in->close();
    std::string o;
    for (size_t i = 0; i < px.size() && i < 4000; i++) { char b[40]; snprintf(b, sizeof b, "%.9g,", px[i]); o += b; }
    logf("X %d %s %d %d %d %s %d %d %d %d %d %d cs=%s %.4f %s/%s/%d/%d/%.4f %s", ln, ok ? "ok" : "damaged", sp.width, sp.height, sp.nchannels, sp.format.c_str(), sp.x, sp.y, sp.full_x, sp.full_y, sp.full_width, sp.full_height,
         sp.get_string_attribute("oiio:ColorSpace", "").c_str(), sp.get_float_attribute("PixelAspectRatio", 1.0f), sp.get_string_attribute("compression", "-").c_str(),
         sp.get_string_attribute("jpeg:subsampling", "-").c_str(), sp.get_int_attribute("jpeg:progressive", 0), sp.get_int_attribute("Orientation", 1), sp.get_float_attribute("oiio:Gamma", 1.0f), o.c_str());
}

// Commands of the environment, at top level or injected in the middle of an operation by a fault.
static bool env_cmd(const Toks &t) {
    const std::string &c = t[0];
    if (c == "mkimg") { mkimg(t); return true; }
    if (c == "raw") {
        std::string b = t.size() > 2 ? dec(t[2]) : std::string();
        std::ofstream o(dec(t[1]), std::ios::binary | std::ios::trunc);
        o << b;
        return true;
    }
    if (c == "rm") { ::unlink(dec(t[1]).c_str()); return true; }
    if (c == "rmdir") { ::rmdir(dec(t[1]).c_str()); return true; }
    if (c == "mkdir") { ::mkdir(dec(t[1]).c_str(), 0777); return true; }
    if (c == "mv") { ::rename(dec(t[1]).c_str(), dec(t[2]).c_str()); return true; }
    if (c == "ln") { ::symlink(dec(t[1]).c_str(), dec(t[2]).c_str()); return true; }
    if (c == "cp") {
        std::ifstream i(dec(t[1]), std::ios::binary);
        std::ofstream o(dec(t[2]), std::ios::binary | std::ios::trunc);
        o << i.rdbuf();
        return true;
    }
    if (c == "cptrunc") {   // a partly copied file: the first n/1000 of the source
        std::ifstream i(dec(t[1]), std::ios::binary);
        std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
        std::ofstream o(dec(t[2]), std::ios::binary | std::ios::trunc);
        o << s.substr(0, s.size() * atol(t[3].c_str()) / 1000);
        return true;
    }
    if (c == "flip") {      // stored bits change
        std::fstream f(dec(t[1]), std::ios::binary | std::ios::in | std::ios::out);
        f.seekg(0, std::ios::end);
        long n = f.tellg();
        if (n > 0) { long at = n * atol(t[2].c_str()) / 1000; if (at >= n) at = n - 1; f.seekg(at); char b = f.get(); f.seekp(at); f.put((char)(b ^ (1 << (atoi(t[3].c_str()) & 7)))); }
        return true;
    }
    if (c == "trunc") { struct stat st; if (::stat(dec(t[1]).c_str(), &st) == 0) ::truncate(dec(t[1]).c_str(), st.st_size * atol(t[2].c_str()) / 1000); return true; }
    if (c == "setenv") { setenv(t[1].c_str(), dec(t[2]).c_str(), 1); return true; }
    if (c == "unsetenv") { unsetenv(t[1].c_str()); return true; }
    if (c == "mem") { seams::sim_pages = atol(t[1].c_str()); return true; }
    if (c == "jump") { seams::sim_ns += strtoll(t[1].c_str(), nullptr, 10); return true; }
    if (c == "heal") { seams::sys_full = false; seams::quota = -1; return true; }
    if (c == "quota") { seams::quota = atol(t[1].c_str()); return true; }
    if (c == "splitreads") { seams::split_reads = t[1] == "1"; return true; }
    if (c == "cap") { auto i = W.caches.find(t[1]); if (i != W.caches.end()) { i->second->set_capacity_bytes(strtoull(t[2].c_str(), nullptr, 10)); } return true; }
    return false;
}
static void env_hook(const Toks &t) { env_cmd(t); }

static ocg::NodeType node_type(const std::string &s) {
    static const std::map<std::string, ocg::NodeType> m = {{"read", ocg::NodeType::kReadImage}, {"write", ocg::NodeType::kWriteImage},
        {"lens", ocg::NodeType::kLensDistort}, {"null", ocg::NodeType::kNull}, {"grade", ocg::NodeType::kGrade}, {"merge", ocg::NodeType::kMergeImage},
        {"crop", ocg::NodeType::kCropImage}, {"resample", ocg::NodeType::kResampleImage}, {"xform", ocg::NodeType::kTransform}, {"viewer", ocg::NodeType::kViewer}};
    return m.at(s);
}
static std::string rs(rust::Str s) { return std::string(s.data(), s.size()); }

static void graph_info(const char *tag, const std::string &gn, GraphBox &gb) {
    std::string o;
    for (auto &kv : gb.nodes) { o += kv.first; o += ":"; o += std::to_string((int)gb.g->node_exists(kv.second)); o += ":"; o += std::to_string((int)gb.g->node_status(kv.second)); o += " "; }
    logf("%s %s state=%d es=%d %s", tag, gn.c_str(), (int)gb.g->state(), (int)gb.g->execute_status(), o.c_str());
}

static bool one(const Toks &t);
struct Par { std::vector<Toks> ops; };
static void par_body(void *a) { Par *p = (Par *)a; for (auto &t : p->ops) { seams::sched_point("op"); one(t); } }

// One operation; everything it does to the system under test happens between B and R lines.
static bool one(const Toks &t) {
    const std::string &c = t[0];
    if (c == "graph") { W.graphs[t[1]].g.reset(new ocg::Graph()); return true; }
    if (c == "delgraph") { W.graphs.erase(t[1]); return true; }
    if (c == "cache") { auto p = std::make_shared<ocg::Cache>(); W.caches[t[1]] = p; p->set_capacity_bytes(strtoull(t[2].c_str(), nullptr, 10)); return true; }
    if (c == "delcache") { W.caches.erase(t[1]); return true; }
    if (c == "cstat") {
        auto i = W.caches.find(t[1]);
        if (i == W.caches.end()) return true;
        logf("R cstat %s n=%llu used=%zu cap=%zu", t[1].c_str(), (unsigned long long)i->second->count(), i->second->used_bytes(), i->second->capacity_bytes());
        return true;
    }
    if (c == "dig") { auto i = W.handles.find(t[1]); if (i == W.handles.end()) return true; logf("R dig %s %s", t[1].c_str(), digest(*i->second).c_str()); return true; }
    if (c == "drop") { W.handles.erase(t[1]); return true; }
    if (c == "dump") { auto i = W.handles.find(t[1]); if (i == W.handles.end()) return true; dump_stream(t[1], *i->second); return true; }
    if (c == "lut3d") {
        auto i = W.caches.find(t[1]);
        if (i == W.caches.end()) return true;
        auto img = ocg::get_color_transform_3dlut(dec(t[2]), dec(t[3]), atoi(t[4].c_str()), i->second);
        logf("R lut3d %s", digest_img(img).c_str());
        return true;
    }
    if (c == "lutops") {   // lutops handle cache size channels
        auto i = W.caches.find(t[2]);
        auto h = W.handles.find(t[1]);
        if (i == W.caches.end() || h == W.handles.end()) return true;
        auto img = ocg::get_color_ops_lut(*h->second, atoi(t[3].c_str()), atoi(t[4].c_str()), i->second);
        logf("R lutops %s", digest_img(img).c_str());
        return true;
    }
    if (c == "config") {
        std::unique_ptr<ocg::Config> k(t[1] == "-" ? new ocg::Config() : new ocg::Config(dec(t[1]).c_str()));
        logf("R config pct=%.9g bytes=%zu", (double)k->cache_ram_capacity_percent(), k->cache_ram_capacity_bytes());
        return true;
    }
    if (c == "threads") {
        if (t[1] == "set") { int v = atoi(t[2].c_str()); OIIO::attribute("threads", OIIO::TypeDesc::INT, &v); }
        int v = -99;
        OIIO::getattribute("threads", v);
        logf("R threads %d", v);
        return true;
    }
    // Operations on a graph.
    if (t.size() < 2) return false;
    auto gi = W.graphs.find(t[1]);
    static const std::set<std::string> gops = {"node", "delnode", "seti", "setf", "sets", "geti", "getf", "gets", "conn", "disc", "exec", "out", "info", "debug"};
    if (!gops.count(c)) return false;
    if (gi == W.graphs.end()) { logf("R skip"); return true; }
    GraphBox &gb = gi->second;
    ocg::Graph &g = *gb.g;
    if (c == "info") { graph_info("R info", t[1], gb); return true; }
    if (c == "debug") { g.data_debug_string(); return true; }
    if (c == "node") {   // node g name type [id|@name]
        ocg::Node n = t.size() > 4 ? (t[4][0] == '@' ? g.create_node(node_type(t[3]), t[4].c_str() + 1) : g.create_node(node_type(t[3]), strtoull(t[4].c_str(), nullptr, 10)))
                                   : g.create_node(node_type(t[3]));
        gb.nodes.erase(t[2]);
        gb.nodes.emplace(t[2], n);
        return true;
    }
    if (c == "out") { W.handles[t[2]].reset(new ocg::StreamData(g.output_stream())); return true; }
    auto ni = gb.nodes.find(t[2]);
    if (ni == gb.nodes.end()) { logf("R skip"); return true; }
    ocg::Node &n = ni->second;
    if (c == "delnode") { bool ok = g.delete_node(n); logf("R delnode %d", (int)ok); return true; }
    if (c == "seti") { g.set_node_attr_i32(n, t[3], atoi(t[4].c_str())); return true; }
    if (c == "setf") { g.set_node_attr_f32(n, t[3], strtof(t[4].c_str(), nullptr)); return true; }
    if (c == "sets") { g.set_node_attr_str(n, t[3], t.size() > 4 ? dec(t[4]) : std::string()); return true; }
    if (c == "geti") { logf("R geti %d %d", (int)g.node_attr_exists(n, t[3]), g.get_node_attr_i32(n, t[3])); return true; }
    if (c == "getf") { logf("R getf %d %.9g", (int)g.node_attr_exists(n, t[3]), g.get_node_attr_f32(n, t[3])); return true; }
    if (c == "gets") { logf("R gets %d %s", (int)g.node_attr_exists(n, t[3]), rs(g.get_node_attr_str(n, t[3])).c_str()); return true; }
    if (c == "disc") { g.disconnect_input(n, (uint8_t)atoi(t[3].c_str())); return true; }
    if (c == "conn") {   // conn g src dst input
        auto d = gb.nodes.find(t[3]);
        if (d == gb.nodes.end()) { logf("R skip"); return true; }
        g.connect(n, d->second, (uint8_t)atoi(t[4].c_str()));
        return true;
    }
    if (c == "exec") {   // exec g node cache i|f frame...
        auto ci = W.caches.find(t[3]);
        if (ci == W.caches.end()) { logf("R skip"); return true; }
        ocg::ExecuteStatus st;
        if (t[4] == "i") { std::vector<int32_t> f; for (size_t i = 5; i < t.size(); i++) f.push_back(atoi(t[i].c_str())); st = g.execute(n, f, ci->second); }
        else { std::vector<double> f; for (size_t i = 5; i < t.size(); i++) f.push_back(atof(t[i].c_str())); st = g.execute(n, f, ci->second); }
        ocg::StreamData s(g.output_stream());
        logf("R exec %d ns=%d h=%016llx | %s", (int)st, (int)g.node_status(n), (unsigned long long)s.hash(), digest(s).c_str());
        return true;
    }
    return false;
}

static std::string g_dir;
static int tasks() {
    int n = 0;
    if (DIR *d = opendir("/proc/self/task")) {
        while (dirent *e = readdir(d)) n += e->d_name[0] != '.';
        closedir(d);
    }
    return n;
}

static void arm(const Toks &t) {
    // fault kind nth[+] action arg path [env command ...]
    static const std::map<std::string, seams::Kind> km = {{"open_r", seams::K_OPEN_R}, {"open_w", seams::K_OPEN_W}, {"read", seams::K_READ}, {"write", seams::K_WRITE},
        {"close", seams::K_CLOSE}, {"stat", seams::K_STAT}, {"any", seams::K_ANY}};
    seams::Fault f;
    f.kind = km.at(t[1]);
    f.nth = atoi(t[2].c_str());
    f.sticky = t[2].back() == '+';
    f.action = t[3];
    f.arg = t.size() > 4 ? atol(t[4].c_str()) : 0;
    f.path = t.size() > 5 && t[5] != "-" ? dec(t[5]) : "";
    for (size_t i = 6; i < t.size(); i++) f.env.push_back(t[i]);
    seams::faults.push_back(f);
}

static void run_script(const std::string &script) {
    std::istringstream is(script);
    std::string line;
    std::vector<seams::Fault> armed;
    int ln = 0;
    Par pars[16];
    int npar = 0;
    std::vector<int> sched;
    while (std::getline(is, line)) {
        ln++;
        Toks t = split(line);
        if (t.empty() || t[0][0] == '#') continue;
        const std::string &c = t[0];
        if (c == "fault") { arm(t); continue; }
        if (c == "seed") { seams::rng_state = strtoull(t[1].c_str(), nullptr, 10); continue; }
        // What a result must not depend on: chance, the clock, the state of the heap, open files, logging.
        if (c == "clock") { seams::sim_ns = strtoull(t[1].c_str(), nullptr, 10); seams::sim_step = strtoll(t[2].c_str(), nullptr, 10); continue; }
        if (c == "heapfill") { mallopt(M_PERTURB, atoi(t[1].c_str())); continue; }
        if (c == "heapshift") {
            unsigned v = (unsigned)atoi(t[1].c_str());
            std::vector<void *> held;
            for (int i = 0; i < 200; i++) { v = v * 1664525u + 1013904223u; size_t n = (v >> 8) % 3000 + 1; void *q = malloc(n); memset(q, (int)(v >> 24), n); held.push_back(q); }
            for (size_t i = 0; i < held.size(); i++) if ((v >> (i % 24)) & 1) free(held[i]);
            continue;
        }
        if (c == "fds") { for (int i = atoi(t[1].c_str()); i > 0; i--) if (::open("/dev/null", O_RDONLY) < 0) break; continue; }
        if (c == "log") { setenv("OPENCOMPGRAPH_LOG", t[1].c_str(), 1); ocg::log::initialize(); continue; }
        if (c == "logio") { seams::log_io = t[1] == "1"; continue; }
        if (c == "decode") { decode(dec(t[1])); continue; }
        if (c == "decodepx") { decode_px(dec(t[1]), ln); continue; }
        if (c == "T") { int k = atoi(t[1].c_str()); Toks u(t.begin() + 2, t.end()); pars[k].ops.push_back(u); npar = std::max(npar, k + 1); continue; }
        if (c == "sched") { for (size_t i = 1; i < t.size(); i++) sched.push_back(atoi(t[i].c_str())); continue; }
        if (c == "ls") {
            FILE *p = popen("find . -type f | LC_ALL=C sort", "r");
            char b[512];
            while (fgets(b, sizeof b, p)) { b[strcspn(b, "\n")] = 0; logf("R ls %s", b + 2); }
            pclose(p);
            continue;
        }
        if (c == "sum") {   // every file of the scratch folder with a checksum of its bytes
            std::vector<std::string> fs;
            for (auto &e : std::filesystem::recursive_directory_iterator(".")) if (e.is_regular_file()) fs.push_back(e.path().string().substr(2));
            std::sort(fs.begin(), fs.end());
            for (auto &f : fs) {
                std::ifstream i(f, std::ios::binary);
                std::string b((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
                Fnv h;
                h.add(b.data(), b.size());
                logf("R sum %s %016llx %zu", f.c_str(), (unsigned long long)h.h, b.size());
            }
            logf("R sumend");
            continue;
        }
        if (c == "heap") { struct mallinfo2 m = mallinfo2(); logf("R heap %zu", (size_t)(m.uordblks + m.hblkhd)); continue; }
        if (c == "host") {   // the state of the process that hosts the library
            int v = -99, n = 0;
            OIIO::getattribute("threads", v);
            if (DIR *d = opendir("/proc/self/fd")) {
                int self = dirfd(d);
                while (dirent *e = readdir(d)) if (e->d_name[0] != '.' && atoi(e->d_name) != self) n++;
                closedir(d);
            }
            char cwd[1024] = "";
            if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
            Fnv h;
            for (char **e = environ; *e; e++) h.add(*e, strlen(*e) + 1);
            struct sigaction sa;
            int sg = 0;
            for (int k : {SIGPIPE, SIGINT, SIGTERM, SIGSEGV, SIGABRT, SIGCHLD}) { sigaction(k, nullptr, &sa); sg = sg * 2 + (sa.sa_handler != SIG_DFL); }
            mode_t um = umask(0);
            umask(um);
            Fnv o;   // the other global settings of the image library, the locale, signal mask, floating point modes and resource limits
            for (const char *k : {"exr_threads", "openexr:core", "read_chunk", "debug", "tiff:half", "tiff:multithread", "log_times", "dds:bc5normal", "limits:channels", "limits:imagesize_MB", "use_tbb", "try_all_readers"}) {
                int x = -99;
                OIIO::getattribute(k, x);
                o.add(&x, sizeof x);
            }
            for (const char *k : {"plugin_searchpath", "font_searchpath"}) { std::string x; OIIO::getattribute(k, x); o.add(x.data(), x.size() + 1); }
            const char *loc = setlocale(LC_ALL, nullptr);
            o.add(loc, strlen(loc));
            sigset_t ss;
            sigemptyset(&ss);
            pthread_sigmask(SIG_BLOCK, nullptr, &ss);
            for (int k = 1; k < 65; k++) { char m = sigismember(&ss, k); o.add(&m, 1); }
            int fr = fegetround();
            o.add(&fr, sizeof fr);
            unsigned fm = __builtin_ia32_stmxcsr() & ~0x3fu;
            o.add(&fm, sizeof fm);
            for (int k : {RLIMIT_NOFILE, RLIMIT_STACK, RLIMIT_CORE, RLIMIT_FSIZE, RLIMIT_AS}) { rlimit rl{}; getrlimit((decltype(RLIMIT_AS))k, &rl); o.add(&rl, sizeof rl); }
            logf("R host settings=%016llx threads=%d fds=%d cwd=%s env=%016llx sig=%d umask=%o tasks=%d", (unsigned long long)o.h, v, n, !strcmp(cwd, g_dir.c_str()) ? "ok" : "moved", (unsigned long long)h.h, sg, (unsigned)um, tasks());
            continue;
        }
        if (c == "par") {
            logf("B %d par", ln);
            seams::schedule = sched; seams::sched_pos = 0;
            std::vector<void (*)(void *)> fns;
            std::vector<void *> args;
            for (int i = 0; i < npar; i++) { fns.push_back(par_body); args.push_back(&pars[i]); }
            seams::op_begin();
            seams::active = true;
            seams::par_run(fns, args);
            seams::active = false;
            logf("P points=%llu switches=%llu", (unsigned long long)seams::sched_points, (unsigned long long)seams::sched_switches);
            for (auto &p : pars) p.ops.clear();
            npar = 0;
            sched.clear();
            seams::faults.clear();
            continue;
        }
        static const std::set<std::string> env = {"mkimg", "raw", "rm", "rmdir", "mkdir", "mv", "ln", "cp", "cptrunc", "flip", "trunc", "setenv", "unsetenv", "mem", "jump", "heal", "quota", "splitreads"};
        if (env.count(c)) { env_cmd(t); continue; }
        logf("B %d %s", ln, c.c_str());
        seams::op_begin();
        seams::active = true;
        bool ok = c == "cap" ? env_cmd(t) : one(t);
        seams::active = false;
        logf("C %llu %llu %llu %llu %llu %llu", (unsigned long long)seams::op_count[0], (unsigned long long)seams::op_count[1], (unsigned long long)seams::op_count[2], (unsigned long long)seams::op_count[3],
             (unsigned long long)seams::op_count[4], (unsigned long long)seams::op_count[5]);
        seams::faults.clear();
        if (!ok) { logf("E unknown command %s", c.c_str()); }
    }
    logf("END io=%llu clock=%llu ns=%llu", (unsigned long long)seams::io_events, (unsigned long long)seams::clock_calls, (unsigned long long)(seams::sim_ns - 1600000000ull * 1000000000ull));
}

static char *g_log, *g_err;
static size_t *g_len;
static const size_t LOGCAP = 8 << 20, ERRCAP = 8192;

static void child(const std::string &dir, const std::string &script, int errfd) {
    struct rlimit rl = {20, 25};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit ra = {6ull << 30, 6ull << 30};
    setrlimit(RLIMIT_AS, &ra);
    struct rlimit rc = {0, 0};
    setrlimit(RLIMIT_CORE, &rc);
    if (chdir(dir.c_str()) != 0) _exit(90);
    dup2(errfd, 2);
    int dn = ::open("/dev/null", O_RDWR);
    dup2(dn, 1);
    dup2(dn, 0);
    seams::set_root(dir);
    g_dir = dir;
    seams::log_base = g_log;
    seams::log_cap = LOGCAP;
    seams::log_len = g_len;
    seams::env_hook = env_hook;
    run_script(script);
    _exit(0);
}

static int run_one(const std::string &dir, const std::string &script, int &sig, int errfd, int wall) {
    *g_len = 0;
    if (ftruncate(errfd, 0)) {}
    lseek(errfd, 0, SEEK_SET);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) child(dir, script, errfd);
    int st = 0;
    // Wall-clock watchdog, far above any legitimate run; a run that reaches it counts as hung.
    struct timespec t0, t1;
    syscall(228, 1, &t0);
    long us = 200;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        syscall(228, 1, &t1);
        if (t1.tv_sec - t0.tv_sec > wall) { kill(p, SIGKILL); waitpid(p, &st, 0); sig = -1; return 255; }
        usleep(us);
        if (us < 2000) us += 100;
    }
    sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    return WIFEXITED(st) ? WEXITSTATUS(st) : 255;
}

static void warm() {
    int before = tasks();
    // One CPU, no worker threads in the image libraries: the simulator owns every thread.
    int v = -1;
    OIIO::attribute("exr_threads", OIIO::TypeDesc::INT, &v);
    OIIO::attribute("threads", 1);
    char tmpl[] = "/tmp/ocgsim_warm_XXXXXX";
    char *d = mkdtemp(tmpl);
    if (d) {
        std::string D(d);
        for (const char *e : {"exr", "png", "tif", "tga", "jpg", "dpx"}) {
            std::string f = D + "/w." + e;
            Toks t = split("mkimg " + f + " 4 4 4 uint8 0 0 0 0 4 4 1");
            if (!strcmp(e, "exr")) t[5] = "half";
            if (!strcmp(e, "jpg")) t[4] = "3";
            mkimg(t);
            auto in = OIIO::ImageInput::open(f);
            if (in) in->close();
            ::unlink(f.c_str());
        }
        ::rmdir(d);
    }
    OIIO::geterror();
    // The first use of colour management loads a configuration: do it before forking.
    auto c = std::make_shared<ocg::Cache>();
    c->set_capacity_bytes(0);
    auto img = ocg::get_color_transform_3dlut("Linear", "sRGB", 2, c);
    // The image library starts a worker and stops it again; forking while that still goes on would
    // leave its locks taken in the child.
    for (int i = 0; i < 5000 && tasks() > before; i++) usleep(1000);
    usleep(2000);
}

int main(int argc, char **argv) {
    g_log = (char *)mmap(nullptr, LOGCAP + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_len = (size_t *)(g_log + LOGCAP);
    int errfd = memfd_create("err", 0);
    if (argc >= 4 && !strcmp(argv[1], "exec")) {
        warm();
        std::ifstream f(argv[3]);
        std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        int sig;
        int rc = run_one(argv[2], s, sig, errfd, 60);
        fwrite(g_log, 1, *g_len, stdout);
        char b[ERRCAP];
        lseek(errfd, 0, SEEK_SET);
        ssize_t n = ::read(errfd, b, sizeof b);
        printf("--- exit=%d signal=%d\n", rc, sig);
        if (n > 0) fwrite(b, 1, n, stdout);
        return 0;
    }
    if (argc >= 2 && !strcmp(argv[1], "serve")) {
        warm();
        setvbuf(stdin, nullptr, _IOFBF, 1 << 16);
        char hdr[4096];
        while (fgets(hdr, sizeof hdr, stdin)) {
            char dir[2048];
            size_t n;
            int wall;
            if (sscanf(hdr, "RUN %2047s %zu %d", dir, &n, &wall) != 3) return 2;
            std::string s(n, 0);
            if (fread(&s[0], 1, n, stdin) != n) return 2;
            int sig;
            int rc = run_one(dir, s, sig, errfd, wall);
            off_t el = lseek(errfd, 0, SEEK_END);
            size_t en = std::min<size_t>(el, ERRCAP);
            char b[ERRCAP];
            lseek(errfd, 0, SEEK_SET);
            ssize_t got = ::read(errfd, b, en);
            if (got < 0) got = 0;
            printf("DONE %d %d %zu %zd\n", rc, sig, *g_len, got);
            fwrite(g_log, 1, *g_len, stdout);
            fwrite(b, 1, got, stdout);
            fflush(stdout);
        }
        return 0;
    }
    fprintf(stderr, "usage: ocgsim serve | exec DIR SCRIPT\n");
    return 2;
}
