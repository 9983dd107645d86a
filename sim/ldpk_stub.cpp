// Stand-in for src/deformer/ldpk_utils.cpp: the Science-D-Visions LDPK library it wraps is not
// installed.  It implements the same small interface with a one-coefficient radial lens model whose
// result depends on every parameter, so that a lost or mixed-up parameter is observable.
#include <cmath>
#include <cstring>
#include <map>
#include <string>
#include <rust/cxx.h>
#include <opencompgraph.h>
#include <opencompgraph/internal/ldpk_utils.h>

class tde4_ld_plugin {
public:
    std::map<std::string, double> p;
    double k = 0, ax = 1, ox = 0, oy = 0;
    bool ready = false;
    double g(const char *n, double d) const { auto i = p.find(n); return i == p.end() ? d : i->second; }
    void init() {
        k = 0.05 * g("Distortion", 0) + 0.01 * g("Quartic Distortion", 0) + 0.003 * g("Curvature X", 0) +
            0.002 * g("Curvature Y", 0);
        ax = g("Anamorphic Squeeze", 1);
        ox = 0.1 * g("tde4_lens_center_offset_x_cm", 0);
        oy = 0.1 * g("tde4_lens_center_offset_y_cm", 0);
        ready = true;
    }
    void und(double x, double y, double &u, double &v) const {
        double cx = x - 0.5 - ox, cy = y - 0.5 - oy;
        u = 0.5 + ox + cx * (1 + k * (cx < 0 ? -cx : cx)) * (1 + 0.1 * (ax - 1));
        v = 0.5 + oy + cy * (1 + k * (cy < 0 ? -cy : cy));
    }
    void dis(double x, double y, double &u, double &v) const {
        double cx = x - 0.5 - ox, cy = y - 0.5 - oy;
        u = 0.5 + ox + cx * (1 - k * (cx < 0 ? -cx : cx)) / (1 + 0.1 * (ax - 1));
        v = 0.5 + oy + cy * (1 - k * (cy < 0 ? -cy : cy));
    }
};

namespace open_comp_graph {
namespace internal {
std::unique_ptr<OcgLdPluginBase> ldpk_new_plugin() { return std::unique_ptr<OcgLdPluginBase>(new OcgLdPluginBase()); }
OcgLdPluginBase::OcgLdPluginBase() { m_plugin = new tde4_ld_plugin(); }
OcgLdPluginBase::~OcgLdPluginBase() { delete m_plugin; }
rust::Str OcgLdPluginBase::get_version_string() const { return "stub"; }
bool OcgLdPluginBase::get_model_name(rust::Slice<uint8_t> n) { memcpy(n.data(), "stub", 5); return true; }
bool OcgLdPluginBase::get_num_parameters(int32_t &v) { v = 0; return true; }
bool OcgLdPluginBase::get_parameter_name(int32_t, rust::Slice<uint8_t>) { return false; }
bool OcgLdPluginBase::get_parameter_type(rust::Str, int32_t &) { return false; }
bool OcgLdPluginBase::get_parameter_default_value_f64(rust::Str, double &v) { v = 0; return true; }
bool OcgLdPluginBase::get_parameter_range(rust::Str, double &a, double &b) { a = -1; b = 1; return true; }
bool OcgLdPluginBase::set_parameter_value_f64(rust::Str id, double v) {
    m_plugin->p[std::string(id.data(), strnlen(id.data(), id.size()))] = v;
    return true;
}
bool OcgLdPluginBase::initialize_parameters() { m_plugin->init(); return true; }
bool OcgLdPluginBase::undistort(double x, double y, double &u, double &v) { m_plugin->und(x, y, u, v); return true; }
bool OcgLdPluginBase::distort(double x, double y, double &u, double &v) { m_plugin->dis(x, y, u, v); return true; }
bool OcgLdPluginBase::distort_with_guess(double x, double y, double, double, double &u, double &v) { return distort(x, y, u, v); }
bool OcgLdPluginBase::provides_parameter_derivatives() { return false; }
void OcgLdPluginBase::get_bounding_box_undistort(double a, double b, double c, double d, double &e, double &f,
                                                 double &g, double &h, int, int) {
    m_plugin->und(a, b, e, f); m_plugin->und(c, d, g, h);
}
void OcgLdPluginBase::get_bounding_box_distort(double a, double b, double c, double d, double &e, double &f,
                                               double &g, double &h, int, int) {
    m_plugin->dis(a, b, e, f); m_plugin->dis(c, d, g, h);
}
}
}
