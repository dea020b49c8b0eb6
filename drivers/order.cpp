#include "probe.hpp"
#include <functional>
#include <osmium/osm/undirected_segment.hpp>
#include <osmium/relations/assembler.hpp>
using namespace Osmium::OSM;
#define LESS(n, T) extern "C" bool drv_lt_##n(const T& a, const T& b) { return a < b; } \
                   extern "C" bool drv_less_##n(const T& a, const T& b) { return std::less<T>()(a, b); }
#define PLESS(n, T) extern "C" bool drv_pless_##n(const shared_ptr<T const>& a, const shared_ptr<T const>& b) { return std::less<shared_ptr<T const> >()(a, b); }
#define GET(R, n, T, f) extern "C" R drv_get_##n##_##f(const T& a) { return a.f(); }
LESS(node, Node) LESS(way, Way) LESS(relation, Relation) PLESS(node, Node) PLESS(way, Way) PLESS(relation, Relation)
LESS(position, Position) LESS(segment, UndirectedSegment) LESS(waynode, WayNode) LESS(member, Osmium::Relations::MemberInfo)
GET(osm_object_id_t, node, Node, id) GET(osm_version_t, node, Node, version) GET(osm_object_id_t, way, Way, id) GET(osm_version_t, way, Way, version)
GET(osm_object_id_t, relation, Relation, id) GET(osm_version_t, relation, Relation, version)
GET(int32_t, position, Position, x) GET(int32_t, position, Position, y) GET(osm_object_id_t, waynode, WayNode, ref)
extern "C" int32_t drv_get_segment_x1(const UndirectedSegment& a) { return a.first().x(); }
extern "C" int32_t drv_get_segment_y1(const UndirectedSegment& a) { return a.first().y(); }
extern "C" int32_t drv_get_segment_x2(const UndirectedSegment& a) { return a.second().x(); }
extern "C" int32_t drv_get_segment_y2(const UndirectedSegment& a) { return a.second().y(); }
extern "C" osm_object_id_t drv_get_member_id(const Osmium::Relations::MemberInfo& a) { return a.m_member_id; }
extern "C" bool drv_eq_position(const Position& a, const Position& b) { return a == b; }
extern "C" bool drv_eq_waynode(const WayNode& a, const WayNode& b) { return a == b; }
extern "C" bool drv_eq_segment(const UndirectedSegment& a, const UndirectedSegment& b) { return a == b; }
extern "C" void drv_new_segment(UndirectedSegment* s, const Position& a, const Position& b) { new (s) UndirectedSegment(a, b); }
