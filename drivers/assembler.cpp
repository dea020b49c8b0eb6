// The two passes of the assembler; the hooks of the child class are opaque.
#include "probe.hpp"
#include <osmium/relations/assembler.hpp>
using namespace Osmium;
template <int N> struct P {
    void init(OSM::Meta&);
    void before_nodes();
    void node(const shared_ptr<OSM::Node const>&);
    void after_nodes();
    void before_ways();
    void way(const shared_ptr<OSM::Way const>&);
    void after_ways();
    void before_relations();
    void relation(const shared_ptr<OSM::Relation const>&);
    void after_relations();
    void final();
};
template <bool N, bool W, bool R> struct Asm : public Relations::Assembler<Asm<N, W, R>, Relations::RelationInfo, N, W, R, P<1> > {
    typedef Relations::Assembler<Asm<N, W, R>, Relations::RelationInfo, N, W, R, P<1> > Up;
    Asm(P<1>& p) : Up(p) {}
    bool keep_member(Relations::RelationInfo&, const OSM::RelationMember&);
    void complete_relation(Relations::RelationInfo&);
    void all_members_available();
    void node_not_in_any_relation(const shared_ptr<OSM::Node const>&);
    void way_not_in_any_relation(const shared_ptr<OSM::Way const>&);
    void relation_not_in_any_relation(const shared_ptr<OSM::Relation const>&);
};
typedef Relations::RelationInfo Info;
#define ASM(n, ...) \
    typedef Asm<__VA_ARGS__> T##n; \
    extern "C" void drv_##n##_new(T##n* a, P<1>& p) { new (a) T##n(p); } \
    extern "C" void drv_##n##_rel1(T##n& a, const shared_ptr<OSM::Relation const>& o) { a.handler_pass1().relation(o); } \
    extern "C" void drv_##n##_after1(T##n& a) { a.handler_pass1().after_relations(); } \
    extern "C" void drv_##n##_init(T##n& a, OSM::Meta& m) { a.handler_pass2().init(m); } \
    extern "C" void drv_##n##_before_nodes(T##n& a) { a.handler_pass2().before_nodes(); } \
    extern "C" void drv_##n##_node(T##n& a, const shared_ptr<OSM::Node const>& o) { a.handler_pass2().node(o); } \
    extern "C" void drv_##n##_after_nodes(T##n& a) { a.handler_pass2().after_nodes(); } \
    extern "C" void drv_##n##_before_ways(T##n& a) { a.handler_pass2().before_ways(); } \
    extern "C" void drv_##n##_way(T##n& a, const shared_ptr<OSM::Way const>& o) { a.handler_pass2().way(o); } \
    extern "C" void drv_##n##_after_ways(T##n& a) { a.handler_pass2().after_ways(); } \
    extern "C" void drv_##n##_before_relations(T##n& a) { a.handler_pass2().before_relations(); } \
    extern "C" void drv_##n##_relation(T##n& a, const shared_ptr<OSM::Relation const>& o) { a.handler_pass2().relation(o); } \
    extern "C" void drv_##n##_after_relations(T##n& a) { a.handler_pass2().after_relations(); } \
    extern "C" void drv_##n##_final(T##n& a) { a.handler_pass2().final(); }
ASM(nwr, true, true, true)
ASM(w, false, true, false)
ASM(nw, true, true, false)
ASM(r, false, false, true)
extern "C" osm_object_id_t drv_get_id(const OSM::Object& o) { return o.id(); }
extern "C" osm_object_id_t drv_get_mref(const OSM::RelationMember& o) { return o.ref(); }
extern "C" char drv_get_mtype(const OSM::RelationMember& o) { return o.type(); }
extern "C" OSM::RelationMemberList::const_iterator drv_get_mbegin(const OSM::Relation* w) { return w->members().begin(); }
extern "C" const shared_ptr<OSM::Relation const>* drv_get_irel(const Info* i) { return &i->relation(); }
extern "C" const std::vector<shared_ptr<OSM::Object const> >* drv_get_imem(const Info* i) { return &i->members(); }
extern "C" bool drv_get_iall(const Info* i) { return i->has_all_members(); }
extern "C" void drv_objects(OSM::Node* n, OSM::Way* w, OSM::Relation* r) { new (n) OSM::Node; new (w) OSM::Way; new (r) OSM::Relation; }
