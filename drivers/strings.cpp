#include "probe.hpp"
#include <osmium/utils/stringtable.hpp>
using Osmium::StringTable;
extern "C" void drv_new(StringTable* t) { new (t) StringTable(); }
extern "C" uint64_t drv_record(StringTable& t, const std::string& s) { return t.record_string(s); }
extern "C" void drv_store(StringTable& t, OSMPBF::StringTable* st) { t.store_stringtable(st); }
extern "C" uint64_t drv_map(const StringTable& t, uint32_t i) { return t.map_string_id(i); }
extern "C" void drv_clear(StringTable& t) { t.clear(); }
extern "C" void drv_del(StringTable& t) { t.~StringTable(); }
