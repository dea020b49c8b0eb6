#include "probe.hpp"
#include <new>
#include <type_traits>
using Osmium::OSMFile;
template <class T> void copy(T* p, const T& o) { if constexpr (std::is_copy_constructible<T>::value) new (p) T(o); }
template <class T> void assign(T* p, const T& o) { if constexpr (std::is_copy_assignable<T>::value) *p = o; }
extern "C" void drv_file_copy(OSMFile* p, const OSMFile& o) { copy(p, o); }
extern "C" void drv_file_assign(OSMFile* p, const OSMFile& o) { assign(p, o); }
extern "C" int drv_file_fd(const OSMFile& f) { return f.fd(); }
extern "C" void drv_file_close(OSMFile& f) { f.close(); }
