#include "probe.hpp"
#include <osmium/output/pbf.hpp>
using Osmium::Output::PBF;
extern "C" void drv_init(PBF& o, Osmium::OSM::Meta& m) { o.PBF::init(m); }
extern "C" void drv_node(PBF& o, const shared_ptr<Osmium::OSM::Node const>& n) { o.PBF::node(n); }
extern "C" void drv_way(PBF& o, const shared_ptr<Osmium::OSM::Way const>& n) { o.PBF::way(n); }
extern "C" void drv_relation(PBF& o, const shared_ptr<Osmium::OSM::Relation const>& n) { o.PBF::relation(n); }
extern "C" void drv_final(PBF& o) { o.PBF::final(); }
extern "C" PBF* drv_new(const Osmium::OSMFile& f) { return new PBF(f); }
extern "C" uint32_t drv_record(Osmium::StringTable& t, const std::string& s) { return t.record_string(s); }
extern "C" uint32_t drv_map(const Osmium::StringTable& t, uint32_t i) { return t.map_string_id(i); }
extern "C" void drv_store(Osmium::StringTable& t, OSMPBF::StringTable* s) { t.store_stringtable(s); }
extern "C" void drv_clear(Osmium::StringTable& t) { t.clear(); }
extern "C" bool drv_get_dense(const PBF& o) { return o.use_dense_format(); }
extern "C" bool drv_get_meta(const PBF& o) { return o.should_add_metadata(); }
extern "C" int drv_get_gran(const PBF& o) { return o.location_granularity(); }
extern "C" int drv_get_date(const PBF& o) { return o.date_granularity(); }
