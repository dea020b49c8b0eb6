// The handler that owns an output file.
#include "probe.hpp"
#include <osmium/output.hpp>
#include <new>
typedef Osmium::Output::Handler H;
extern "C" void drv_new(H* h, const Osmium::OSMFile& f) { new (h) H(f); }
extern "C" void drv_generator(H* h, const std::string& s) { h->set_generator(s); }
extern "C" void drv_init(H* h, Osmium::OSM::Meta& m) { h->init(m); }
extern "C" void drv_final(H* h) { h->final(); }
extern "C" void drv_del(H* h) { h->~H(); }
extern "C" void drv_delete(Osmium::Output::Base* b) { delete b; }
