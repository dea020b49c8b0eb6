// The coordinate handler with opaque stores.
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/handler/coordinates_for_ways.hpp>
#include <new>
using namespace Osmium::OSM;
template <int N> struct Store {
    void set(const uint64_t id, const Position value);
    const Position operator[](const uint64_t id) const;
    void clear();
    uint64_t size() const;
};
typedef Osmium::Handler::CoordinatesForWays<Store<1>, Store<2> > H;
extern "C" void drv_new(H* h, Store<1>* a, Store<2>* b) { new (h) H(*a, *b); }
extern "C" void drv_node(H* h, const shared_ptr<Node const>* n) { h->node(*n); }
extern "C" void drv_way(H* h, const shared_ptr<Way>* w) { h->way(*w); }
extern "C" void drv_get(Position* p, const H* h, int64_t id) { *p = h->get_node_pos(id); }
extern "C" osm_object_id_t drv_get_id(const Object* n) { return n->id(); }
extern "C" void drv_node_new(Node* n) { new (n) Node; }
extern "C" void drv_way_new(Way* n) { new (n) Way; }
extern "C" void drv_node_set(Node* n, const Position* p) { n->position(*p); }
extern "C" osm_object_id_t drv_get_ref(const WayNode* n) { return n->ref(); }
extern "C" const Position* drv_get_pos(const WayNode* n) { return &n->position(); }
extern "C" int32_t drv_get_x(const Position* n) { return n->x(); }
extern "C" int32_t drv_get_y(const Position* n) { return n->y(); }
extern "C" const WayNodeList* drv_get_nodes(const Way* w) { return &w->nodes(); }
extern "C" const TagList* drv_get_tags(const Object* w) { return &w->tags(); }
extern "C" WayNodeList::const_iterator drv_get_lbegin(const WayNodeList* w) { return w->begin(); }
extern "C" TagList::const_iterator drv_get_tbegin(const TagList* w) { return w->begin(); }
extern "C" RelationMemberList::const_iterator drv_get_mbegin(const Relation* w) { return w->members().begin(); }
