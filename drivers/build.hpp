// builds files and objects through the public interface
#pragma once
#include "probe.hpp"
using namespace Osmium::OSM;
typedef Osmium::OSMFile::FileType FT;
extern "C" void drv_file(Osmium::OSMFile* f, const std::string& n) { new (f) Osmium::OSMFile(n); }
extern "C" void drv_file_del(Osmium::OSMFile* f) { f->~OSMFile(); }
extern "C" FT* drv_type_OSM() { return FT::OSM(); }
extern "C" FT* drv_type_History() { return FT::History(); }
extern "C" FT* drv_type_Change() { return FT::Change(); }
// objects
static void fill(Object* o, osm_object_id_t id, uint32_t v, int32_t c, time_t t, int32_t uid, const char* u, bool vis) { o->id(id); o->version(v); o->changeset(c); o->timestamp(t); o->uid(uid); o->user(u); o->visible(vis); }
extern "C" void drv_new_node(Node* o, osm_object_id_t id, uint32_t v, int32_t c, time_t t, int32_t uid, const char* u, bool vis) { new (o) Node(); fill(o, id, v, c, t, uid, u, vis); }
extern "C" void drv_new_way(Way* o, osm_object_id_t id, uint32_t v, int32_t c, time_t t, int32_t uid, const char* u, bool vis) { new (o) Way(); fill(o, id, v, c, t, uid, u, vis); }
extern "C" void drv_new_relation(Relation* o, osm_object_id_t id, uint32_t v, int32_t c, time_t t, int32_t uid, const char* u, bool vis) { new (o) Relation(); fill(o, id, v, c, t, uid, u, vis); }
extern "C" void drv_set_pos(Node* n, int32_t x, int32_t y) { n->position(Position(x, y)); }
extern "C" void drv_tag(Object* o, const char* k, const char* v) { o->tags().add(k, v); }
extern "C" void drv_nd(Way* w, osm_object_id_t r) { w->add_node(r); }
extern "C" void drv_member(Relation* w, char t, osm_object_id_t r, const char* role) { w->add_member(t, r, role); }
extern "C" double drv_lon(int32_t x, int32_t y) { return Position(x, y).lon(); }
extern "C" double drv_lat(int32_t x, int32_t y) { return Position(x, y).lat(); }
extern "C" void drv_meta(Meta* m) { new (m) Meta(); }
extern "C" void drv_extend(Meta* m, int32_t x, int32_t y) { m->bounds().extend(Position(x, y)); }
