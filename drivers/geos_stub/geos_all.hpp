// Declarations of the interface of GEOS 3.3, which the library is written against (the installed version has another one).
// Nothing is defined: to the analyses these are opaque library calls.
#pragma once
#include <ostream>
#include <string>
#include <vector>
#include <stdexcept>
namespace geos {
namespace util { class GEOSException : public std::runtime_error { public: GEOSException(const std::string&); }; }
namespace geom {
class GeometryFactory; class Envelope;
enum GeometryTypeId { GEOS_POINT, GEOS_LINESTRING, GEOS_LINEARRING, GEOS_POLYGON, GEOS_MULTIPOINT, GEOS_MULTILINESTRING, GEOS_MULTIPOLYGON, GEOS_GEOMETRYCOLLECTION };
class PrecisionModel { public: PrecisionModel(); ~PrecisionModel(); private: double d[3]; };
class Coordinate { public: Coordinate(); Coordinate(double x, double y); double x, y, z; };
class CoordinateSequence { public: virtual ~CoordinateSequence(); virtual size_t size() const; virtual size_t getSize() const; virtual double getX(size_t) const; virtual double getY(size_t) const; virtual void add(const Coordinate&); virtual void add(const Coordinate&, bool); virtual const Coordinate& getAt(size_t) const; };
class CoordinateSequenceFactory { public: virtual ~CoordinateSequenceFactory(); virtual CoordinateSequence* create(std::vector<Coordinate>*, size_t = 0) const; };
class Geometry { public: virtual ~Geometry(); virtual Geometry* clone() const; virtual GeometryTypeId getGeometryTypeId() const; virtual bool isValid() const; virtual size_t getNumPoints() const; };
class GeometryCollection : public virtual Geometry { public: typedef std::vector<Geometry*>::const_iterator const_iterator; const_iterator begin() const; const_iterator end() const; virtual size_t getNumGeometries() const; ~GeometryCollection(); };
class LineString : public virtual Geometry { public: virtual const CoordinateSequence* getCoordinatesRO() const; virtual CoordinateSequence* getCoordinates() const; ~LineString(); };
class LinearRing : public LineString { public: ~LinearRing(); };
class Point : public virtual Geometry { public: ~Point(); };
class Polygon : public virtual Geometry { public: ~Polygon(); virtual const LineString* getExteriorRing() const; virtual size_t getNumInteriorRing() const; virtual const LineString* getInteriorRingN(size_t) const; };
class MultiPolygon : public GeometryCollection { public: ~MultiPolygon(); Geometry* clone() const; };
class MultiLineString : public GeometryCollection { public: ~MultiLineString(); };
class GeometryFactory { public: GeometryFactory(const PrecisionModel*, int); virtual ~GeometryFactory(); Point* createPoint(const Coordinate&) const; const CoordinateSequenceFactory* getCoordinateSequenceFactory() const; LineString* createLineString(CoordinateSequence*) const; LinearRing* createLinearRing(CoordinateSequence*) const; Polygon* createPolygon(LinearRing*, std::vector<Geometry*>*) const; MultiPolygon* createMultiPolygon(std::vector<Geometry*>*) const; };
}
namespace io {
class WKTWriter { public: WKTWriter(); ~WKTWriter(); std::string write(const geom::Geometry*); private: void* p[4]; };
class WKBWriter { public: WKBWriter(); void setIncludeSRID(bool); void write(const geom::Geometry&, std::ostream&); void writeHEX(const geom::Geometry&, std::ostream&); private: void* p[4]; };
}
}
