// Probe handler used by the analysis drivers: every callback is an external function, so
// the analyses see each delivery as an opaque call that may throw.
#pragma once
#define OSMIUM_OSM_AREA_HPP
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/handler.hpp>
struct Probe : public Osmium::Handler::Base {
    void init(Osmium::OSM::Meta&);
    void before_nodes();
    void node(const shared_ptr<Osmium::OSM::Node const>&);
    void after_nodes();
    void before_ways();
    void way(const shared_ptr<Osmium::OSM::Way const>&);
    void after_ways();
    void before_relations();
    void relation(const shared_ptr<Osmium::OSM::Relation const>&);
    void after_relations();
    void final();
};
