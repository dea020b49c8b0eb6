// Tag filters and conversion of tags to text.
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/tags/key_filter.hpp>
#include <osmium/tags/key_value_filter.hpp>
#include <osmium/tags/regex_filter.hpp>
#include <osmium/tags/to_string.hpp>
#include <new>
using namespace Osmium::OSM;
using namespace Osmium::Tags;
extern "C" void drv_k_new(KeyFilter* f, bool d) { new (f) KeyFilter(d); }
extern "C" void drv_k_add(KeyFilter* f, bool r, const char* k) { f->add(r, k); }
extern "C" bool drv_k_op(const KeyFilter* f, const Tag* t) { return (*f)(*t); }
extern "C" void drv_v_new(KeyValueFilter* f, bool d) { new (f) KeyValueFilter(d); }
extern "C" void drv_v_add(KeyValueFilter* f, bool r, const char* k, const char* v) { f->add(r, k, v); }
extern "C" bool drv_v_op(const KeyValueFilter* f, const Tag* t) { return (*f)(*t); }
extern "C" void drv_x_new(RegexFilter* f, bool d) { new (f) RegexFilter(d); }
extern "C" void drv_x_add(RegexFilter* f, bool r, const char* k, const char* v) { f->add(r, k, v); }
extern "C" bool drv_x_op(const RegexFilter* f, const Tag* t) { return (*f)(*t); }
extern "C" void drv_s_new(TagToStringOp* f, const std::string* e, const char* p, const char* i, const char* s, const char* j) { new (f) TagToStringOp(*e, p, i, s, j); }
extern "C" void drv_s_kv(TagToKeyEqualsValueStringOp* f, const char* j) { new (f) TagToKeyEqualsValueStringOp(j); }
extern "C" void drv_s_hs(TagToHStoreStringOp* f) { new (f) TagToHStoreStringOp(); }
extern "C" void drv_s_op(const TagToStringOp* f, std::string* o, const Tag* t) { (*f)(*o, *t); }
extern "C" const char* drv_t_key(const Tag* t) { return t->key(); }
extern "C" const char* drv_t_value(const Tag* t) { return t->value(); }
extern "C" void drv_t_new(Tag* t, const char* k, const char* v) { new (t) Tag(k, v); }
