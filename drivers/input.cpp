#include "probe.hpp"
extern "C" void drv_xml(const Osmium::OSMFile& f, Probe& h) { Osmium::Input::XML<Probe> in(f, h); in.parse(); }
extern "C" void drv_pbf(const Osmium::OSMFile& f, Probe& h) { Osmium::Input::PBF<Probe> in(f, h); in.parse(); }
extern "C" void drv_read(const Osmium::OSMFile& f, Probe& h) { Osmium::Input::read(f, h); }
struct Prepare : public Osmium::Input::Base<Probe> {
    Prepare(const Osmium::OSMFile& f, Probe& p);
    void parse();
    void n() { prepare_node(); }
    void w() { prepare_way(); }
    void r() { prepare_relation(); }
};
extern "C" void drv_prepare_node(Prepare& p) { p.n(); }
extern "C" void drv_prepare_way(Prepare& p) { p.w(); }
extern "C" void drv_prepare_relation(Prepare& p) { p.r(); }
extern "C" Osmium::OSMFile::FileType* drv_type_OSM() { return Osmium::OSMFile::FileType::OSM(); }
extern "C" Osmium::OSMFile::FileType* drv_type_History() { return Osmium::OSMFile::FileType::History(); }
extern "C" Osmium::OSMFile::FileType* drv_type_Change() { return Osmium::OSMFile::FileType::Change(); }
extern "C" Osmium::OSMFile::FileType* drv_get_type(const Osmium::OSMFile* f) { return f->type(); }
