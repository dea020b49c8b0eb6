#include "probe.hpp"
#include <osmium/output/xml.hpp>
#include "build.hpp"
using Osmium::Output::XML;
extern "C" void drv_new(XML* o, const Osmium::OSMFile& f) { new (o) XML(f); }
extern "C" void drv_generator(XML& o, const std::string& s) { o.set_generator(s); }
extern "C" void drv_init(XML& o, Osmium::OSM::Meta& m) { o.XML::init(m); }
extern "C" void drv_node(XML& o, const shared_ptr<Node const>& n) { o.XML::node(n); }
extern "C" void drv_way(XML& o, const shared_ptr<Way const>& n) { o.XML::way(n); }
extern "C" void drv_relation(XML& o, const shared_ptr<Relation const>& n) { o.XML::relation(n); }
extern "C" void drv_final(XML& o) { o.XML::final(); }
extern "C" void drv_del(XML& o) { o.XML::~XML(); }
