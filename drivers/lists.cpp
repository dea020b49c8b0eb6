#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/geometry/point.hpp>
#include <osmium/geometry/linestring.hpp>
#include <osmium/geometry/polygon.hpp>
#include <osmium/geometry/multipolygon.hpp>
#include <osmium/geometry/shplib.hpp>
#include <osmium/geometry/ogr.hpp>
using namespace Osmium::OSM;
namespace G = Osmium::Geometry;
extern "C" bool drv_list_closed(const WayNodeList* l) { return l->is_closed(); }
extern "C" bool drv_way_closed(const Way* w) { return w->is_closed(); }
extern "C" bool drv_list_positions(const WayNodeList* l) { return l->has_position(); }
extern "C" const RelationMember* drv_member(const Relation* r, osm_sequence_id_t i) { return r->get_member(i); }
extern "C" const char* drv_tag(const TagList* t, const char* k) { return t->get_value_by_key(k); }
extern "C" const char* drv_object_tag(const Object* o, const char* k) { return o->tags().get_value_by_key(k); }
extern "C" void drv_polygon_list(G::Polygon* p, const WayNodeList* l, bool r) { new (p) G::Polygon(*l, r); }
extern "C" void drv_polygon_way(G::Polygon* p, const Way* w, bool r) { new (p) G::Polygon(*w, r); }
extern "C" void drv_line_list(G::LineString* p, const WayNodeList* l, bool r) { new (p) G::LineString(*l, r); }
extern "C" SHPObject* drv_shp_line(const G::LineString* l) { return G::create_shp_object(*l); }
extern "C" SHPObject* drv_shp_polygon(const G::Polygon* l) { return G::create_shp_object(*l); }
extern "C" SHPObject* drv_shp_point(const G::Point* l) { return G::create_shp_object(*l); }
extern "C" OGRPoint* drv_ogr_point(const G::Point* l) { return G::create_ogr_geometry(*l); }
extern "C" OGRLineString* drv_ogr_line(const G::LineString* l) { return G::create_ogr_geometry(*l); }
extern "C" OGRPolygon* drv_ogr_polygon(const G::Polygon* l) { return G::create_ogr_geometry(*l); }
extern "C" geos::geom::Point* drv_geos_point(const G::Point* l) { return G::create_geos_geometry(*l); }
extern "C" geos::geom::LineString* drv_geos_line(const G::LineString* l) { return G::create_geos_geometry(*l); }
extern "C" geos::geom::Polygon* drv_geos_polygon(const G::Polygon* l) { return G::create_geos_geometry(*l); }
extern "C" std::ostream* drv_wkt(std::ostream* o, const G::Geometry* g, bool s) { *o << g->as_WKT(s); return o; }
extern "C" std::ostream* drv_wkt_line(std::ostream* o, const G::LineString* g, bool s) { return &g->G::LineString::write_to_stream(*o, G::Geometry::AsWKT(*g, s), s); }
extern "C" std::ostream* drv_wkt_polygon(std::ostream* o, const G::Polygon* g, bool s) { return &g->G::Polygon::write_to_stream(*o, G::Geometry::AsWKT(*g, s), s); }
extern "C" std::ostream* drv_wkt_point(std::ostream* o, const G::Point* g, bool s) { return &g->G::Point::write_to_stream(*o, G::Geometry::AsWKT(*g, s), s); }
extern "C" std::ostream* drv_wkb_line(std::ostream* o, const G::LineString* g, bool s) { return &g->G::LineString::write_to_stream(*o, G::Geometry::AsWKB(*g, s), s); }
extern "C" std::ostream* drv_wkb_polygon(std::ostream* o, const G::Polygon* g, bool s) { return &g->G::Polygon::write_to_stream(*o, G::Geometry::AsWKB(*g, s), s); }
extern "C" std::ostream* drv_wkb_point(std::ostream* o, const G::Point* g, bool s) { return &g->G::Point::write_to_stream(*o, G::Geometry::AsWKB(*g, s), s); }
extern "C" std::ostream* drv_hex_line(std::ostream* o, const G::LineString* g, bool s) { return &g->G::LineString::write_to_stream(*o, G::Geometry::AsHexWKB(*g, s), s); }
extern "C" std::ostream* drv_hex_polygon(std::ostream* o, const G::Polygon* g, bool s) { return &g->G::Polygon::write_to_stream(*o, G::Geometry::AsHexWKB(*g, s), s); }
extern "C" std::ostream* drv_hex_point(std::ostream* o, const G::Point* g, bool s) { return &g->G::Point::write_to_stream(*o, G::Geometry::AsHexWKB(*g, s), s); }
extern "C" void drv_point_pos(G::Point* p, const Position* q, osm_object_id_t i) { new (p) G::Point(*q, i); }
extern "C" void drv_point_node(G::Point* p, const Node* n) { new (p) G::Point(*n); }
extern "C" osm_object_id_t drv_get_ref(const WayNode* n) { return n->ref(); }
extern "C" const Position* drv_get_pos(const WayNode* n) { return &n->position(); }
extern "C" int32_t drv_get_x(const Position* n) { return n->x(); }
extern "C" int32_t drv_get_y(const Position* n) { return n->y(); }
extern "C" const WayNodeList* drv_get_nodes(const Way* w) { return &w->nodes(); }
extern "C" const TagList* drv_get_tags(const Object* w) { return &w->tags(); }
extern "C" const WayNodeList* drv_get_gnodes(const G::FromWay* w) { return &w->nodes(); }
extern "C" const char* drv_get_tkey(const Tag* t) { return t->key(); }
extern "C" const char* drv_get_tvalue(const Tag* t) { return t->value(); }
extern "C" WayNodeList::const_iterator drv_get_lbegin(const WayNodeList* w) { return w->begin(); }
extern "C" TagList::const_iterator drv_get_tbegin(const TagList* w) { return w->begin(); }
extern "C" RelationMemberList::const_iterator drv_get_mbegin(const Relation* w) { return w->members().begin(); }
extern "C" RelationMemberList::const_iterator drv_get_rmbegin(const RelationMemberList* w) { return w->begin(); }
#include <osmium/geometry/haversine.hpp>
extern "C" double drv_length(const WayNodeList* w) { return G::Haversine::distance(*w); }
extern "C" std::ostream* drv_wkb(std::ostream* o, const G::Geometry* g, bool s) { *o << g->as_WKB(s); return o; }
extern "C" std::ostream* drv_hex(std::ostream* o, const G::Geometry* g, bool s) { *o << g->as_HexWKB(s); return o; }
extern "C" double drv_lon(const Position* p) { return p->lon(); }
extern "C" double drv_lat(const Position* p) { return p->lat(); }
extern "C" const Position* drv_get_npos(const Node* n) { static Position p; p = n->position(); return &p; }
extern "C" void drv_line_way(G::LineString* p, const Way* w, bool r) { new (p) G::LineString(*w, r); }
