// reads files with the library and records every object through the public interface
#define OSMIUM_OSM_AREA_HPP
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/handler.hpp>
using namespace Osmium::OSM;
extern "C" void rec_kind(const char*, const void* = 0);
extern "C" void rec_num(const char*, long);
extern "C" void rec_real(const char*, double);
extern "C" void rec_str(const char*, const char*);
static void common(const Object& o) {
    rec_num("id", o.id());
    rec_num("version", o.version());
    rec_num("changeset", o.changeset());
    rec_num("timestamp", o.timestamp());
    rec_num("uid", o.uid());
    rec_str("user", o.user());
    rec_num("visible", o.visible());
    for (TagList::const_iterator t = o.tags().begin(); t != o.tags().end(); ++t) {
        rec_str("k", t->key());
        rec_str("v", t->value());
    }
}
extern "C" void look_node(const Node* n) {
    rec_kind("node", n);
    common(*n);
    rec_num("defined", n->position().defined());
    if (n->position().defined()) {
        rec_real("lon", n->position().lon());
        rec_real("lat", n->position().lat());
    }
}
extern "C" void look_way(const Way* w) {
    rec_kind("way", w);
    common(*w);
    for (WayNodeList::const_iterator n = w->nodes().begin(); n != w->nodes().end(); ++n) rec_num("ref", n->ref());
}
extern "C" void look_relation(const Relation* r) {
    rec_kind("relation", r);
    common(*r);
    for (RelationMemberList::const_iterator n = r->members().begin(); n != r->members().end(); ++n) {
        rec_num("type", n->type());
        rec_num("ref", n->ref());
        rec_str("role", n->role());
    }
}
struct Rec : public Osmium::Handler::Base {
    void init(Meta& m) {
        rec_kind("init");
        rec_num("defined", m.bounds().defined());
        if (m.bounds().defined()) {
            rec_real("minlon", m.bounds().bottom_left().lon());
            rec_real("minlat", m.bounds().bottom_left().lat());
            rec_real("maxlon", m.bounds().top_right().lon());
            rec_real("maxlat", m.bounds().top_right().lat());
        }
        rec_str("generator", m.generator().c_str());
    }
    void node(const shared_ptr<Node const>& n) { look_node(n.get()); }
    void way(const shared_ptr<Way const>& w) { look_way(w.get()); }
    void relation(const shared_ptr<Relation const>& r) { look_relation(r.get()); }
    void final() { rec_kind("final"); }
};
extern "C" void drv_file(Osmium::OSMFile* f, const std::string& n) { new (f) Osmium::OSMFile(n); }
extern "C" void drv_xml(const Osmium::OSMFile& f, Rec& h) { Osmium::Input::XML<Rec> in(f, h); in.parse(); }
extern "C" void drv_pbf(const Osmium::OSMFile& f, Rec& h) { Osmium::Input::PBF<Rec> in(f, h); in.parse(); }
extern "C" void drv_mk_node(Node* p) { new (p) Node(); }
extern "C" void drv_mk_way(Way* p, int n) { new (p) Way(n); }
extern "C" void drv_mk_relation(Relation* p) { new (p) Relation(); }
extern "C" void drv_again_node(const Node* p) { look_node(p); }
extern "C" void drv_again_way(const Way* p) { look_way(p); }
extern "C" void drv_again_relation(const Relation* p) { look_relation(p); }
