#define OSMIUM_OSM_AREA_HPP
#include "geos_all.hpp"
#include "probe.hpp"
#include <osmium/osm/types.hpp>
#include <osmium/osm.hpp>
#define OSMIUM_GEOMETRY_MULTIPOLYGON_HPP
namespace Osmium { namespace Geometry { class MultiPolygon; } }
#define OSMIUM_GEOMETRY_SHPLIB_HPP
#include <shapefil.h>
#include <osmium/geometry.hpp>
#include <osmium/export/shapefile.hpp>
using Osmium::Export::Shapefile;
struct Any : Shapefile { Any(const std::string& f, int t) : Shapefile(f, t) {} };
struct Shape : Any { Shape(const std::string& f, int t) : Any(f, t) {} };
extern "C" void drv_new(Shape* s, const std::string& f, int t) { new (s) Shape(f, t); }
extern "C" void drv_new_point(Osmium::Export::PointShapefile* s, const std::string& f) { new (s) Osmium::Export::PointShapefile(f); }
extern "C" void drv_new_line(Osmium::Export::LineStringShapefile* s, const std::string& f) { new (s) Osmium::Export::LineStringShapefile(f); }
extern "C" void drv_new_polygon(Osmium::Export::PolygonShapefile* s, const std::string& f) { new (s) Osmium::Export::PolygonShapefile(f); }
extern "C" void drv_field(Shape* s, const std::string& n, int type, int w, int d) { s->add_field(n, static_cast<DBFFieldType>(type), w, d); }
extern "C" void drv_field_named(Shape* s, const std::string& n, const std::string& type, int w, int d) { s->add_field(n, type, w, d); }
extern "C" void drv_shape(Shape* s, SHPObject* o) { s->add_geometry(o); }
extern "C" void drv_bool(Shape* s, int f, bool v) { s->add_attribute(f, v); }
extern "C" void drv_int(Shape* s, int f, int v) { s->add_attribute(f, v); }
extern "C" void drv_double(Shape* s, int f, double v) { s->add_attribute(f, v); }
extern "C" void drv_string(Shape* s, int f, const std::string& v) { s->add_attribute(f, v); }
extern "C" void drv_chars(Shape* s, int f, const char* v) { s->add_attribute(f, v); }
extern "C" void drv_null(Shape* s, int f) { s->add_attribute(f); }
extern "C" void drv_cut(Shape* s, int f, const char* v) { s->add_attribute_with_truncate(f, v); }
extern "C" void drv_cut_string(Shape* s, int f, const std::string& v) { s->add_attribute_with_truncate(f, v); }
extern "C" void drv_close(Shape* s) { s->close(); }
extern "C" void drv_del(Shape* s) { s->Shape::~Shape(); }
extern "C" int drv_type(SHPHandle h) { return h->nShapeType; }
extern "C" int drv_otype(SHPObject* o) { return o->nSHPType; }
extern "C" int drv_overts(SHPObject* o) { return o->nVertices; }
extern "C" int drv_oparts(SHPObject* o) { return o->nParts; }
