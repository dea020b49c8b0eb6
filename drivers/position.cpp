#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/geometry/point.hpp>
#include <osmium/handler/find_bbox.hpp>
using namespace Osmium::OSM;
// conversions from floating point
extern "C" void drv_to_both(Position* p, double lon, double lat) { new (p) Position(lon, lat); }
extern "C" void drv_to_lon(Position* p, double v) { p->lon(v); }
extern "C" void drv_to_lat(Position* p, double v) { p->lat(v); }
extern "C" void drv_to_nodelon(Node* p, double v) { p->lon(v); }
extern "C" void drv_to_nodelat(Node* p, double v) { p->lat(v); }
// conversions to floating point
extern "C" double drv_from_lon(const Position* p) { return p->lon(); }
extern "C" double drv_from_lat(const Position* p) { return p->lat(); }
extern "C" double drv_nd_lon(const Node* p) { return p->lon(); }
extern "C" double drv_nd_lat(const Node* p) { return p->lat(); }
extern "C" double drv_wn_lon(const WayNode* p) { return p->lon(); }
extern "C" double drv_wn_lat(const WayNode* p) { return p->lat(); }
extern "C" double drv_pt_lon(const Osmium::Geometry::Point* p) { return p->lon(); }
extern "C" double drv_pt_lat(const Osmium::Geometry::Point* p) { return p->lat(); }
// fixed point
extern "C" void drv_new(Position* p) { new (p) Position(); }
extern "C" void drv_new32(Position* p, int32_t x, int32_t y) { new (p) Position(x, y); }
extern "C" void drv_new64(Position* p, int64_t x, int64_t y) { new (p) Position(x, y); }
extern "C" void drv_set_x(Position* p, int32_t x) { p->x(x); }
extern "C" void drv_set_y(Position* p, int32_t x) { p->y(x); }
extern "C" int32_t drv_get_x(const Position* n) { return n->x(); }
extern "C" int32_t drv_get_y(const Position* n) { return n->y(); }
extern "C" bool drv_defined(const Position* n) { return n->defined(); }
extern "C" void drv_node_set(Node* n, const Position* p) { n->position(*p); }
extern "C" void drv_node_get(Position* p, const Node* n) { *p = n->position(); }
extern "C" void drv_wn_new(WayNode* w, const Position* p) { new (w) WayNode(1, *p); }
extern "C" void drv_wn_set(WayNode* w, const Position* p) { w->position(*p); }
extern "C" void drv_wn_get(Position* p, const WayNode* n) { *p = n->position(); }
extern "C" void drv_pt_new(Osmium::Geometry::Point* w, const Position* p) { new (w) Osmium::Geometry::Point(*p); }
extern "C" void drv_pt_get(Position* p, const Osmium::Geometry::Point* n) { *p = n->position(); }
// bounds
extern "C" void drv_b_new(Bounds* b) { new (b) Bounds(); }
extern "C" void drv_b_extend(Bounds* b, const Position* p) { b->extend(*p); }
extern "C" void drv_b_bl(Position* p, const Bounds* b) { *p = b->bottom_left(); }
extern "C" void drv_b_tr(Position* p, const Bounds* b) { *p = b->top_right(); }
extern "C" bool drv_b_defined(const Bounds* b) { return b->defined(); }
extern "C" void drv_f_new(Osmium::Handler::FindBbox* b) { new (b) Osmium::Handler::FindBbox(); }
extern "C" void drv_f_node(Osmium::Handler::FindBbox* b, const shared_ptr<Node const>* p) { b->node(*p); }
