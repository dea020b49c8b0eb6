#include "probe.hpp"
#include <osmium/osmfile.hpp>
using Osmium::OSMFile;
typedef OSMFile::FileType FT;
typedef OSMFile::FileEncoding FE;
extern "C" FT* drv_type_OSM() { return FT::OSM(); }
extern "C" FT* drv_type_History() { return FT::History(); }
extern "C" FT* drv_type_Change() { return FT::Change(); }
extern "C" FE* drv_enc_PBF() { return FE::PBF(); }
extern "C" FE* drv_enc_XML() { return FE::XML(); }
extern "C" FE* drv_enc_XMLgz() { return FE::XMLgz(); }
extern "C" FE* drv_enc_XMLbz2() { return FE::XMLbz2(); }
extern "C" bool drv_type_multi(const FT* t) { return t->has_multiple_object_versions(); }
extern "C" void drv_new(OSMFile* f, const std::string& n) { new (f) OSMFile(n); }
extern "C" void drv_new_default(OSMFile* f) { new (f) OSMFile(); }
extern "C" void drv_del(OSMFile* f) { f->~OSMFile(); }
extern "C" FT* drv_get_type(const OSMFile* f) { return f->type(); }
extern "C" FE* drv_get_enc(const OSMFile* f) { return f->encoding(); }
extern "C" bool drv_get_multi(const OSMFile* f) { return f->has_multiple_object_versions(); }
extern "C" int drv_get_fd(const OSMFile* f) { return f->fd(); }
extern "C" void drv_set_type(OSMFile* f, FT* t) { f->type(t); }
extern "C" void drv_set_enc(OSMFile* f, FE* e) { f->encoding(e); }
extern "C" void drv_name_type(OSMFile* f, const std::string& n) { f->type(n); }
extern "C" void drv_name_enc(OSMFile* f, const std::string& n) { f->encoding(n); }
extern "C" void drv_name(OSMFile* f, const std::string& n) { f->filename(n); }
extern "C" const std::string* drv_get_name(const OSMFile* f) { return &f->filename(); }
extern "C" void drv_with_suffix(std::string* r, const OSMFile* f) { new (r) std::string(f->filename_with_default_suffix()); }
extern "C" void drv_without_suffix(std::string* r, const OSMFile* f) { new (r) std::string(f->filename_without_suffix()); }
extern "C" void drv_open_in(OSMFile* f) { f->open_for_input(); }
extern "C" void drv_open_out(OSMFile* f) { f->open_for_output(); }
extern "C" void drv_close(OSMFile* f) { f->close(); }
extern "C" void drv_copy(OSMFile* g, const OSMFile* f) { new (g) OSMFile(*f); }
extern "C" void drv_assign(OSMFile* g, const OSMFile* f) { *g = *f; }
