#include "probe.hpp"
using namespace Osmium::OSM;
#define SET(x) extern "C" void drv_set_##x(Object& o, const char* v) { o.x(v); }
SET(id) SET(version) SET(changeset) SET(timestamp) SET(uid) SET(user) SET(visible)
#define GET(t, x) extern "C" t drv_get_##x(const Object& o) { return o.x(); }
GET(osm_object_id_t, id) GET(osm_version_t, version) GET(osm_changeset_id_t, changeset) GET(time_t, timestamp) GET(osm_user_id_t, uid) GET(const char*, user) GET(bool, visible) GET(time_t, endtime)
#define SETV(t, x) extern "C" void drv_setv_##x(Object& o, t v) { o.x(v); }
SETV(osm_object_id_t, id) SETV(osm_version_t, version) SETV(osm_changeset_id_t, changeset) SETV(time_t, timestamp) SETV(osm_user_id_t, uid) SETV(bool, visible) SETV(time_t, endtime)
// members
extern "C" void drv_m_setv_ref(RelationMember& m, osm_object_id_t v) { m.ref(v); }
extern "C" osm_object_id_t drv_m_get_ref(const RelationMember& m) { return m.ref(); }
extern "C" void drv_m_setv_type(RelationMember& m, char v) { m.type(v); }
extern "C" char drv_m_get_type(const RelationMember& m) { return m.type(); }
extern "C" void drv_m_set_role(RelationMember& m, const char* v) { m.role(v); }
extern "C" const char* drv_m_get_role(const RelationMember& m) { return m.role(); }
extern "C" void drv_w_setv_ref(WayNode& m, osm_object_id_t v) { m.ref(v); }
extern "C" osm_object_id_t drv_w_get_ref(const WayNode& m) { return m.ref(); }
extern "C" void drv_p_setv_x(Position& m, int32_t v) { m.x(v); }
extern "C" int32_t drv_p_get_x(const Position& m) { return m.x(); }
extern "C" void drv_p_setv_y(Position& m, int32_t v) { m.y(v); }
extern "C" int32_t drv_p_get_y(const Position& m) { return m.y(); }
// what is stored where by the containers
extern "C" void drv_add_node(Way& w, osm_object_id_t ref) { w.add_node(ref); }
extern "C" void drv_add_member(Relation& r, char type, osm_object_id_t ref, const char* role) { r.add_member(type, ref, role); }
extern "C" void drv_add_tag(TagList& t, const char* key, const char* value) { t.add(key, value); }
extern "C" void drv_ctor_waynode(WayNode* w, osm_object_id_t ref) { new (w) WayNode(ref); }
extern "C" void drv_ctor_tag(Tag* t, const char* key, const char* value) { new (t) Tag(key, value); }
extern "C" const char* drv_t_get_key(const Tag& t) { return t.key(); }
extern "C" const char* drv_t_get_value(const Tag& t) { return t.value(); }
extern "C" void drv_set_attr_user(Object& o, const char* v) { o.set_attribute("user", v); }
extern "C" const RelationMemberList* drv_r_members(const Relation* r) { return &r->members(); }
extern "C" RelationMemberList::const_iterator drv_rm_begin(const RelationMemberList* w) { return w->begin(); }
