// Witness programs for the type system: every block guarded by a WITNESS_n macro must not compile.
#pragma once
#include "probe.hpp"
#include <osmium/output/pbf.hpp>
#include <osmium/output/xml.hpp>
#include <osmium/storage/objectstore.hpp>
#include <osmium/storage/byid/vector.hpp>
#include <osmium/storage/byid/stl_map.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <osmium/storage/byid/fixed_array.hpp>
#include <osmium/storage/byid/mmap_anon.hpp>
#include <osmium/storage/byid/mmap_file.hpp>
#include <osmium/relations/assembler.hpp>
#include <osmium/handler/coordinates_for_ways.hpp>
#include <osmium/handler/endtime.hpp>
using Osmium::OSM::Position;
template <class T> T& mk();
