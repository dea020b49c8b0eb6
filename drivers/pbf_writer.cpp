#include "probe.hpp"
#include <osmium/output/pbf.hpp>
#include "build.hpp"
using Osmium::Output::PBF;
extern "C" void drv_new(PBF* o, const Osmium::OSMFile& f) { new (o) PBF(f); }
extern "C" void drv_dense(PBF& o, bool b) { o.use_dense_format(b); }
extern "C" void drv_compression(PBF& o, bool b) { o.use_compression(b); }
extern "C" void drv_metadata(PBF& o, bool b) { o.should_add_metadata(b); }
extern "C" void drv_gran(PBF& o, int g) { o.location_granularity(g); }
extern "C" void drv_date(PBF& o, int g) { o.date_granularity(g); }
extern "C" void drv_generator(PBF& o, const std::string& s) { o.set_generator(s); }
extern "C" void drv_init(PBF& o, Osmium::OSM::Meta& m) { o.PBF::init(m); }
extern "C" void drv_node(PBF& o, const shared_ptr<Node const>& n) { o.PBF::node(n); }
extern "C" void drv_way(PBF& o, const shared_ptr<Way const>& n) { o.PBF::way(n); }
extern "C" void drv_relation(PBF& o, const shared_ptr<Relation const>& n) { o.PBF::relation(n); }
extern "C" void drv_final(PBF& o) { o.PBF::final(); }
extern "C" void drv_del(PBF& o) { o.PBF::~PBF(); }
