#include "probe.hpp"
#include <osmium/handler/endtime.hpp>
#include <osmium/handler/range_from_history.hpp>
#include <osmium/storage/objectstore.hpp>
#include <osmium/relations/assembler.hpp>
#include <osmium/output/xml.hpp>
#include <osmium/output/pbf.hpp>
using namespace Osmium;
template <int N> struct P {
    void init(OSM::Meta&);
    void before_nodes();
    void node(const shared_ptr<OSM::Node const>&);
    void after_nodes();
    void before_ways();
    void way(const shared_ptr<OSM::Way const>&);
    void after_ways();
    void before_relations();
    void relation(const shared_ptr<OSM::Relation const>&);
    void after_relations();
    void area(const shared_ptr<OSM::Area const>&);
    void final();
    void set_debug_level(int);
};
#define CALLS(n, T, NODE, WAY, REL) \
    extern "C" void drv_##n##_init(T& h, OSM::Meta& m) { h.init(m); } \
    extern "C" void drv_##n##_before_nodes(T& h) { h.before_nodes(); } \
    extern "C" void drv_##n##_node(T& h, const shared_ptr<NODE>& o) { h.node(o); } \
    extern "C" void drv_##n##_after_nodes(T& h) { h.after_nodes(); } \
    extern "C" void drv_##n##_before_ways(T& h) { h.before_ways(); } \
    extern "C" void drv_##n##_way(T& h, const shared_ptr<WAY>& o) { h.way(o); } \
    extern "C" void drv_##n##_after_ways(T& h) { h.after_ways(); } \
    extern "C" void drv_##n##_before_relations(T& h) { h.before_relations(); } \
    extern "C" void drv_##n##_relation(T& h, const shared_ptr<REL>& o) { h.relation(o); } \
    extern "C" void drv_##n##_after_relations(T& h) { h.after_relations(); } \
    extern "C" void drv_##n##_final(T& h) { h.final(); }
#define AREA(n, T) extern "C" void drv_##n##_area(T& h, const shared_ptr<OSM::Area>& o) { h.area(o); }
#define DEBUG(n, T) extern "C" void drv_##n##_set_debug_level(T& h, int l) { h.set_debug_level(l); }
typedef Handler::Forward<P<1> > Fwd;
typedef Handler::Sequence<P<1>, P<2> > Seq;
typedef Handler::EndTime<P<1> > End;
typedef Handler::RangeFromHistory<P<1> > Range;
typedef Storage::ObjectStore::ApplyHandler<P<1> > Apply;
struct Asm : public Relations::Assembler<Asm, Relations::RelationInfo, true, true, true, P<1> > {
    typedef Relations::Assembler<Asm, Relations::RelationInfo, true, true, true, P<1> > Up;
    Asm(P<1>& p) : Up(p) {}
    void relation(const shared_ptr<OSM::Relation const>&);
    void complete_relation(Relations::RelationInfo&);
    void all_members_available();
    void node_not_in_any_relation(const shared_ptr<OSM::Node const>&);
    void way_not_in_any_relation(const shared_ptr<OSM::Way const>&);
    void relation_not_in_any_relation(const shared_ptr<OSM::Relation const>&);
};
typedef Asm::HandlerPass2 Pass2;
CALLS(fwd, Fwd, OSM::Node, OSM::Way, OSM::Relation) AREA(fwd, Fwd) DEBUG(fwd, Fwd)
CALLS(seq, Seq, OSM::Node, OSM::Way, OSM::Relation) AREA(seq, Seq) DEBUG(seq, Seq)
CALLS(end, End, OSM::Node, OSM::Way, OSM::Relation) AREA(end, End)
CALLS(range, Range, OSM::Node, OSM::Way, OSM::Relation) AREA(range, Range)
CALLS(apply, Apply, OSM::Node, OSM::Way, OSM::Relation) AREA(apply, Apply)
CALLS(pass2, Pass2, OSM::Node const, OSM::Way const, OSM::Relation const)
CALLS(base, const Handler::Base, OSM::Node const, OSM::Way const, OSM::Relation const)
extern "C" void drv_base_area(const Handler::Base& h, const shared_ptr<OSM::Area const>& o) { h.area(o); }
CALLS(out, Output::Handler, OSM::Node, OSM::Way, OSM::Relation)
extern "C" void drv_new_pbf(Output::PBF* p, const OSMFile& f) { new (p) Output::PBF(f); }
extern "C" void drv_new_xml(Output::XML* p, const OSMFile& f) { new (p) Output::XML(f); }

typedef Storage::ObjectStore Store;
extern "C" void drv_store_node(Store& s, const shared_ptr<OSM::Node const>& o) { s.node(o); }
extern "C" void drv_store_way(Store& s, const shared_ptr<OSM::Way const>& o) { s.way(o); }
extern "C" void drv_store_relation(Store& s, const shared_ptr<OSM::Relation const>& o) { s.relation(o); }
extern "C" void drv_store_feed(Store& s, P<1>& p, OSM::Meta& m, bool clear) { s.feed_to(&p, m, clear); }
extern "C" void drv_apply_new(Apply* a, Store& s, P<1>& p, OSM::Meta& m) { new (a) Apply(s, p, m); }

#define GET(n, T) \
    extern "C" osm_object_id_t drv_get_##n##_id(const T& o) { return o.id(); } \
    extern "C" osm_version_t drv_get_##n##_version(const T& o) { return o.version(); } \
    extern "C" time_t drv_get_##n##_timestamp(const T& o) { return o.timestamp(); } \
    extern "C" time_t drv_get_##n##_endtime(const T& o) { return o.endtime(); }
GET(node, OSM::Node) GET(way, OSM::Way) GET(relation, OSM::Relation)
extern "C" void drv_fwd_new(Fwd* h, P<1>& p) { new (h) Fwd(p); }
extern "C" void drv_seq_new(Seq* h, P<1>& p, P<2>& q) { new (h) Seq(p, q); }
extern "C" void drv_end_new(End* h, P<1>& p) { new (h) End(p); }
extern "C" void drv_range_new(Range* h, P<1>& p, time_t a, time_t b) { new (h) Range(p, a, b); }
