// Everything that converts timestamps to text and back.
#include "probe.hpp"
#include <osmium/handler/debug.hpp>
#include <new>
using namespace Osmium::OSM;
extern "C" void drv_to_iso(std::string* s, time_t t) { new (s) std::string(Osmium::Timestamp::to_iso(t)); }
extern "C" time_t drv_parse_iso(const char* s) { return Osmium::Timestamp::parse_iso(s); }
extern "C" void drv_set(Object& o, const char* s) { o.timestamp(s); }
extern "C" void drv_set_attr(Object& o, const char* s) { o.set_attribute("timestamp", s); }
extern "C" void drv_text(std::string* s, const Object& o) { new (s) std::string(o.timestamp_as_string()); }
extern "C" void drv_endtext(std::string* s, const Object& o) { new (s) std::string(o.endtime_as_string()); }
extern "C" time_t drv_get_timestamp(const Object& o) { return o.timestamp(); }
extern "C" time_t drv_get_endtime(const Object& o) { return o.endtime(); }
