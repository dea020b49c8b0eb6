// The stores indexed by id.
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/storage/byid/vector.hpp>
#include <osmium/storage/byid/stl_map.hpp>
#include <osmium/storage/byid/fixed_array.hpp>
#include <osmium/storage/byid/mmap_anon.hpp>
#include <osmium/storage/byid/mmap_file.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <new>
namespace B = Osmium::Storage::ById;
typedef uint64_t V;
#define STORE(n, T) \
extern "C" void drv_##n##_set(T* s, uint64_t id, V v) { s->T::set(id, v); } \
extern "C" V drv_##n##_get(const T* s, uint64_t id) { return s->T::operator[](id); } \
extern "C" void drv_##n##_clear(T* s) { s->T::clear(); } \
extern "C" uint64_t drv_##n##_size(const T* s) { return s->T::size(); } \
extern "C" void drv_##n##_end(T* s) { s->T::~T(); }
typedef B::Vector<V> Vec;
typedef B::StlMap<V> Map;
typedef B::FixedArray<V> Arr;
typedef B::MmapAnon<V> Anon;
typedef B::MmapFile<V> File;
typedef B::SparseTable<V> Sparse;
STORE(vec, Vec) STORE(map, Map) STORE(arr, Arr) STORE(anon, Anon) STORE(file, File) STORE(sparse, Sparse)
extern "C" void drv_vec_new(Vec* s) { new (s) Vec; }
extern "C" void drv_map_new(Map* s) { new (s) Map; }
extern "C" void drv_arr_new(Arr* s, uint64_t n) { new (s) Arr(n); }
extern "C" void drv_anon_new(Anon* s) { new (s) Anon; }
extern "C" void drv_file_new(File* s, const std::string* n, bool remove) { new (s) File(*n, remove); }
extern "C" void drv_sparse_new(Sparse* s, uint64_t grow) { new (s) Sparse(grow); }
