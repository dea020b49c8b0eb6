#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, entry=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
I = "include/osmium/"
p("C01", "Reader callbacks follow the handler protocol for every input",
  "For every XML or PBF input, a handler's init callback is called exactly once and before every other callback, each maximal run of same-kind objects is delivered between exactly one before_X and one matching after_X callback, and no object is delivered outside the bracket of its own kind. "
  "The final callback is called exactly once, after everything else, whenever reading ends normally or because a handler asked to stop reading, also when the input contains no objects at all; and it is not called when reading fails with another error.",
  ["inputs"], "every byte sequence offered to the XML or PBF reader, and every handler (including handlers that throw from any callback)",
  "Tests run a handful of small sorted files; the guarantee is over all orders, empty inputs, stop requests and failures.",
  [I+"input.hpp", I+"input/xml.hpp", I+"input/pbf.hpp"], "type-change dispatcher shared by both readers; parse() entry points; expat start/end element callbacks",
  [("last object type", "kind of the bracket that is currently open")])
p("C02", "The XML reader delivers exactly what the element says",
  "Every node, way and relation element of well-formed OSM XML is delivered exactly once, at its end tag, carrying the values of its own attributes (id, version, changeset, timestamp, uid, user, visible, and lon/lat for nodes), its own tags, node references and members, and nothing from any other element. "
  "Objects inside a delete section are delivered as not visible; unknown attributes and elements are ignored, and an object that has been delivered is never modified afterwards.",
  ["inputs"], "every well-formed XML document with osm or osmChange as its root, any attribute order, unknown attributes and elements, nesting and sections included",
  "Tests read a few fixed documents; the mapping must hold for every attribute combination, nesting and section.",
  [I+"input/xml.hpp", I+"osm/object.hpp", I+"osm/tag_list.hpp", I+"osm/way.hpp", I+"osm/relation.hpp"], "expat callbacks with an explicit context; attribute-name comparisons select the setter")
p("C03", "The PBF reader decodes every field of every object as the format defines",
  "Each node, way and relation in a PBF block is delivered exactly once with its id, version, changeset, timestamp, uid, user name, visibility, tags, node refs and members taken from its own fields: delta-coded fields are accumulated from zero within their own group or object, coordinates are offset plus granularity times value, timestamps are scaled by the block's date granularity without loss, and strings are looked up by index in the block's string table. "
  "Plain and dense nodes with the same content are decoded alike, and metadata is taken if and only if present.",
  ["inputs"], "every valid PBF file: any granularity, offset, date granularity, dense or plain nodes, with or without metadata",
  "No PBF reading test exists with unusual granularities, plain nodes or missing metadata; the decoding rules quantify over all blocks.",
  [I+"input/pbf.hpp"], "per-kind group decoders feeding object setters from protobuf accessors")
p("C04", "XML output is well-formed and carries every field under the name read back",
  "Every sequence of objects written as XML produces balanced elements with attributes written before children, and all user-supplied text goes through the XML library's escaping. "
  "Each object element carries id, version, timestamp, uid, user, changeset, (for history files) visible, position, tags, node refs and members from the matching field of that object, under the attribute names and member type names the XML reader understands; in change files each object is placed in the create, modify or delete section its visibility and version call for.",
  ["inputs", "histories"], "every sequence of nodes, ways and relations with any content, for every file type",
  "Tests write one or two objects; nesting, escaping and the attribute tables must hold for all object sequences and contents.",
  [I+"output/xml.hpp", I+"osm/relation_member.hpp"], "libxml text-writer calls; create/modify/delete section tracking")
p("C05", "PBF output encodes every field so that a conforming reader recovers it",
  "Every object written as PBF carries its id, version, timestamp, changeset, uid, user name, (for files with several object versions) visibility, tags, node refs, members and coordinates in the corresponding format fields: delta-coded exactly where the format is delta-coded, coordinates rounded to the declared granularity and timestamps scaled by the declared date granularity, both of which are written into the block, and members with the matching type code. "
  "Every string is written as the final index into the string table of the same block, and indices are never narrowed to a type that cannot hold every index of a block.",
  ["inputs", "histories"], "every sequence of objects, any number of distinct strings per block, any option setting of the writer",
  "Tests never write a block with more than a few strings or with non-default granularities; the encoding must hold for all.",
  [I+"output/pbf.hpp", I+"utils/stringtable.hpp", I+"utils/delta.hpp"], "protobuf setters; interim string ids mapped to final ids before serialisation")
p("C06", "Every object handed to the PBF writer ends up in exactly one complete block",
  "Objects are added to the current block, full blocks are written out before the next object is added, and whatever remains is written when output is finished, so no object is lost, duplicated or split. "
  "When a block is written, all per-block state (delta predecessors, string table, object counters, block contents) starts afresh for the next block, and a header block naming all features the file needs is written before any data block.",
  ["histories"], "every sequence of writer calls, in particular those crossing a block boundary",
  "A block boundary needs 8000 objects; no test writes that many.",
  [I+"output/pbf.hpp", I+"utils/delta.hpp", I+"utils/stringtable.hpp"], "block counter check on entry of node/way/relation, block store routine, final()")
p("C07", "Hostile PBF input cannot cause out-of-bounds access",
  "For every byte sequence offered as PBF, the reader rejects sizes larger than the buffers they are used with before reading or decompressing into them, and no string-table index or array element is used unless it lies inside the table or array that is accessed. "
  "Violating input ends with an exception in every build mode; it never ends in an out-of-bounds access or an assertion failure.",
  ["inputs"], "every byte sequence used as PBF file, with assertions enabled or disabled",
  "Tests contain no malformed PBF at all; the guarantee is over all byte sequences.",
  [I+"input/pbf.hpp"], "size checks before read/uncompress; index checks before protobuf element accessors")
p("C08", "Damaged or truncated input is reported, never read as a shorter file",
  "When reading input, every failed or short read, decompression failure, parse failure, unknown required feature, unsupported compression, size mismatch or mismatch between expected and actual file type ends the read with an exception. "
  "Only end of file exactly at a block boundary (PBF) or after a complete document (XML) counts as the end of the data, and a failing helper process that delivers the input is reported as an error when the input has been read.",
  ["inputs", "fault_sequences"], "every truncation point, every read error, every malformed block or document, every helper exit status",
  "Tests never truncate a file or make a read or helper fail.",
  [I+"input/pbf.hpp", I+"input/xml.hpp", I+"input.hpp", I+"osmfile.hpp"], "result checks on read, uncompress, protobuf and expat calls; close of the input file")
p("C09", "Write errors are never silently dropped",
  "If any part of an output file cannot be produced (an incomplete or failed write, a failed serialisation or compression, a failing XML writer call including the last flush, a failing close or compressor process, a failing shapefile write), the call that wrote or finished the output throws. "
  "Success is only reported when all bytes have been accepted by the operating system, and a block larger than readers accept is refused.",
  ["fault_sequences"], "every possible failure or partial success of each output system or library call",
  "Tests cannot make the disk full, a pipe short or a compressor die at each call site.",
  [I+"output/pbf.hpp", I+"output/xml.hpp", I+"osmfile.hpp", I+"export/shapefile.hpp"], "result checks at each fallible output call")
p("C10", "Every resource acquired is released exactly once on every path",
  "File descriptors, memory mappings, XML parser and writer objects, compression streams, shape objects and heap objects obtained by the library are released exactly once by the time their owner is gone, whether reading or writing ends normally, is stopped by a handler, or ends with an exception at any point. "
  "No handle is used or released again after it has been released.",
  ["fault_sequences", "histories"], "every path through construction, use and destruction, including an exception out of every call that can throw",
  "Leaks and double releases do not change test results, and error paths are not exercised.",
  [I+"osmium.hpp", I+"osmfile.hpp", I+"input/xml.hpp", I+"output/xml.hpp", I+"output/pbf.hpp", I+"storage/byid/mmap_anon.hpp", I+"storage/byid/mmap_file.hpp", I+"storage/byid/fixed_array.hpp", I+"export/shapefile.hpp"], "acquire/release library calls and their owners' destructors")
p("C11", "Helper processes get only their pipe end and are always reaped",
  "A helper process started for compression, decompression or download has its standard input or output connected to the pipe, holds no other copy of the parent's end of that pipe however many descriptors the parent has open, never runs the parent's code beyond starting the program (failure to start ends it at once without running exit handlers), and gets the file name as one argument. "
  "The parent closes the child's pipe end, and closing the file closes the pipe before waiting for exactly that child, waits at most once, and reports an abnormal or non-zero exit.",
  ["configurations", "fault_sequences"], "every set of open descriptors in the parent and every failure of fork, dup2, open, exec or the helper itself",
  "Tests run with few open descriptors and helpers that succeed.",
  [I+"osmfile.hpp"], "pipe/fork/dup2/exec sequence and the close routine")
p("C12", "File names, types and encodings map to each other consistently",
  "Every combination of file type and encoding the library supports has a default file name suffix that, given back as a file name, selects that same type and encoding, and each documented name of a type or encoding selects the type or encoding of that name while unknown names are refused with an error. "
  "Only the part after the last path separator decides about suffixes, an empty name or '-' means standard input or output, and http and https URLs are recognised as such.",
  ["inputs"], "every file name, type name and encoding name",
  "Tests list some file names; every type and encoding pair and every path shape is quantified.",
  [I+"osmfile.hpp"], "suffix table, type()/encoding() by name, default suffix construction")
p("C13", "Orderings are strict weak orderings and distinguish what must be distinguished",
  "The less-than relations of nodes, ways, relations, positions, segments, way nodes and relation members (by value and through shared pointers) are irreflexive, transitive and have transitive incomparability for all values of the compared fields. "
  "Two objects of the same kind are equivalent in the ordering only if both id and version are equal, so sorted and unique containers of objects never drop an object; objects are ordered by absolute id and then by version.",
  ["inputs"], "all values (any sign, any version) of the compared fields",
  "Tests compare a few pairs; ordering laws quantify over all triples.",
  [I+"osm/node.hpp", I+"osm/way.hpp", I+"osm/relation.hpp", I+"osm/position.hpp", I+"osm/undirected_segment.hpp", I+"osm/way_node.hpp", I+"relations/assembler.hpp"], "operator< definitions")
p("C14", "Id-indexed stores never touch memory outside what they hold",
  "All storages indexed by object id behave alike: storing makes room for the id before writing it (or, where the capacity is fixed, never writes beyond it), a stored value is read back under the same id, and a failed growth leaves the store with its old contents usable and destructible. "
  "Looking up an id never creates or changes entries, and clear releases all items once, after which destroying the store is safe.",
  ["histories", "fault_sequences"], "every sequence of set, get, clear and destruction with any id, and every failing allocation",
  "Tests set a handful of small ids; growth, allocation failure and clear-then-destroy are not reached.",
  [I+"storage/byid/fixed_array.hpp", I+"storage/byid/mmap_anon.hpp", I+"storage/byid/mmap_file.hpp", I+"storage/byid/sparse_table.hpp", I+"storage/byid/stl_map.hpp", I+"storage/byid/vector.hpp"], "set/operator[]/clear/destructor of the sibling storages")
p("C15", "Way nodes get the position stored for exactly their own node id",
  "The coordinate handler stores the position of every node under its id, in the store for non-negative ids if the id is zero or positive and under the negated id in the other store if it is negative. "
  "Every lookup, for a single id or for all nodes of a way, uses the same store and key as the storing did, each way node receives the position of its own reference, and nothing else of the way is changed.",
  ["inputs"], "all node ids of either sign and all ways",
  "Tests use few ids; the mapping must be the same at all sites for every id.",
  [I+"handler/coordinates_for_ways.hpp"], "sign-based choice of store and key in node(), way() and single lookup")
p("C16", "Relation assembly completes each relation exactly once with the right members",
  "In the two-pass assembler every wanted member of every relation is registered under its own kind, id, relation and position in the member list, each matching object of the second pass is stored at that position of that relation, and a relation is handed to the completion hook exactly once, when its last wanted member arrives. "
  "Objects that appear again or in several versions never cause access to a relation that was already completed, objects wanted by no relation reach the not-in-any-relation hook, and the chained handler receives every callback.",
  ["inputs", "histories"], "all relations and member sets, all orders, duplicates and multiple versions of objects in the second pass",
  "Tests cover one small complete relation; duplicates, several versions and repeated members are not reached.",
  [I+"relations/assembler.hpp", I+"relations/relation_info.hpp"], "member registration, sorted lookup with equal ids, member counter")
p("C17", "Handlers that chain to others pass on every callback",
  "Each handler that wraps other handlers (forwarding, sequencing, adding end times, filtering by time range, merging stored objects, second assembler pass, output) calls the same callback of every wrapped handler exactly once per own callback with the same argument, first handler before second, unless documented otherwise for that callback. "
  "The default handler accepts every callback without doing anything.",
  ["programs"], "all callbacks of all chaining handlers, instantiated with any handler",
  "Each callback of each wrapper would need its own test; most have none.",
  [I+"handler.hpp", I+"handler/endtime.hpp", I+"handler/range_from_history.hpp", I+"storage/objectstore.hpp", I+"output.hpp"], "one forwarding member per callback")
p("C18", "End times and time-range filtering treat every version once and correctly",
  "The end-time handler delivers every object exactly once, in order and before the end of its section; an object gets the timestamp of the following object as end time, before it is delivered, if and only if that object has the same id. "
  "The range filter passes an object of any kind if and only if its end time is unset or not before the start of the range and its timestamp is not after the end of the range.",
  ["histories"], "every sequence of object versions and every range",
  "Tests use one tiny history; the rule is over all sequences.",
  [I+"handler/endtime.hpp", I+"handler/range_from_history.hpp"], "one-object look-behind per kind; inclusive interval test")
p("C19", "All geometry outputs describe the same geometry",
  "For points, line strings and polygons, the WKT, WKB and hex WKB outputs contain the type code or keyword of that geometry, the SRID exactly when asked for, the number of coordinates that are actually written, and every coordinate of the way exactly once as longitude then latitude, in way order or, if the geometry is reversed, in reverse order. "
  "Conversions to the OGR and shape libraries agree with them in coordinates and order.",
  ["inputs"], "every way node list, both directions, with and without SRID, every output format",
  "Tests write a few geometries and never a reversed polygon.",
  [I+"geometry.hpp", I+"geometry/point.hpp", I+"geometry/linestring.hpp", I+"geometry/polygon.hpp", I+"geometry/ogr.hpp", I+"geometry/shplib.hpp"], "sibling stream writers and converters")
p("C20", "Empty or short ways and lists are handled without invalid access",
  "Asking whether a way or way node list is closed, building a polygon, and looking up members or tags never accesses an element that does not exist: an empty node list is not closed and gives no polygon, looking up a member position beyond the end gives no member and an unknown tag key gives no value. "
  "A polygon is only built from a closed ring and a shape object only from enough nodes.",
  ["inputs"], "every way, including ways with no or one node, and every index or key",
  "Tests use ways with several nodes.",
  [I+"osm/way_node_list.hpp", I+"osm/way.hpp", I+"osm/relation.hpp", I+"osm/tag_list.hpp", I+"geometry/polygon.hpp", I+"geometry/shplib.hpp"], "emptiness and range checks before element access")
p("C21", "Timestamps convert in UTC and fail safely",
  "Converting a timestamp to text and back uses the same ISO format in both directions and interprets both in UTC whatever the time zone of the process, the text buffer is large enough for the format, and a timestamp of zero gives an empty text. "
  "Text that does not match the format is rejected with an exception and a value no calendar date exists for never causes an invalid access.",
  ["inputs", "configurations"], "all time values and strings, all time zone settings",
  "Tests convert a few dates in one time zone.",
  [I+"utils/timestamp.hpp"], "gmtime/strftime and strptime/timegm pair")
p("C22", "Every header can be used on its own and in several source files of a program",
  "Including any public header first in a source file compiles, and a program may include any headers in any number of its source files: no header defines a non-inline function or variable with external linkage. "
  "Code in headers therefore never breaks a program that links several files using the library.",
  ["programs"], "all public headers whose external dependencies are available, all programs of several translation units",
  "Each test is a single program; multi-file use and each include order are not built.",
  [I+"*.hpp"], "linkage of each definition; include closure of each header")
p("C23", "Ownership and constness are enforced by the type system",
  "Readers, writers, handlers, storages and file descriptors' owners cannot be copied in a way that would duplicate ownership of a descriptor or child process, and a program that tries to copy a reader, output writer, id store or output handler base does not compile. "
  "Objects held by the object store and relation assembler are reachable only as const, so programs modifying them through the library's interface do not compile.",
  ["programs"], "all programs using the public interface",
  "Tests are programs that compile; that others do not is not tested.",
  [I+"input.hpp", I+"output/pbf.hpp", I+"output/xml.hpp", I+"storage/byid.hpp", I+"handler.hpp", I+"osmfile.hpp", I+"storage/objectstore.hpp", I+"relations/relation_info.hpp"], "deleted or inaccessible copy operations; shared pointers to const")
p("C24", "Tag filters apply the first matching rule; tag strings are escaped",
  "Each tag filter (by key, by key and value, by regular expression) returns the result of the first rule, in the order added, whose key matches and whose value, if the rule has one, matches the tag's own value, and the default result if no rule matches. "
  "Turning tags into strings writes prefix, key, infix, value and suffix of each tag in this order with joins only between tags, and escapes every character that needs it in keys and values alike.",
  ["inputs"], "all rule lists and tags",
  "Tests try a few rules; order and escaping hold for all.",
  [I+"tags/key_filter.hpp", I+"tags/key_value_filter.hpp", I+"tags/regex_filter.hpp", I+"tags/to_string.hpp"], "rule loop with early return; escaping append")
p("C25", "Overlong names are refused and limits are checked before use",
  "Setting a user name or member role longer than the documented maximum throws and leaves the object unchanged, and shorter ones are stored unchanged. "
  "The same limits apply to every way of setting the value (directly, from XML, from PBF).",
  ["inputs"], "all strings",
  "Tests do not try overlong strings on each path.",
  [I+"osm/object.hpp", I+"osm/relation_member.hpp"], "length check dominating the store")
p("C26", "Shapefile export stays within field and file limits",
  "Text attributes are cut to the width of their field without writing outside the buffer and without splitting a UTF-8 character, fields with impossible name lengths, widths or counts are refused, and shapes of the wrong type are refused. "
  "Before a file would exceed the size limit a new one is started that has the same fields, and attributes are always written to the record of the shape just added.",
  ["inputs", "histories"], "all strings, field widths and export sizes",
  "Tests clip a few strings; file rollover needs two gigabytes.",
  [I+"export/shapefile.hpp"], "truncation routine, field checks, rollover")
p("C27", "Coordinates convert to fixed point by rounding and bounds enclose all positions",
  "Every conversion of a floating point coordinate to an integer representation (positions, PBF coordinates, PBF header bounding box) rounds to nearest instead of truncating, with the same scale in both directions, and longitude and latitude never change places. "
  "Extending a bounding box by defined positions yields the minimum and maximum of each axis, and undefined positions do not change it.",
  ["inputs"], "all coordinates and sequences of positions",
  "Tests use coordinates that survive truncation.",
  [I+"osm/position.hpp", I+"osm/bounds.hpp", I+"output/pbf.hpp", I+"input/pbf.hpp", I+"handler/find_bbox.hpp"], "double/fixed conversion helpers; min/max comparisons")
p("C28", "An object store keeps every object and replays it in order",
  "Every object fed to the store is kept, feeding the store to a handler replays all of them ordered by kind and then in object order within the full callback protocol (init first, each section bracketed, final last), and merging the store into another input delivers every stored object in its sorted place exactly once. "
  "Stored objects are cleared only after they have been delivered: feeding clears them only if asked to, merging when the section they belong to has ended.",
  ["histories"], "all sequences of stored objects and inputs merged with them",
  "Tests store a few objects; merge and clear variants are not covered.",
  [I+"storage/objectstore.hpp"], "ordered sets, replay routine, merge handler")
p("C29", "Writing a file and reading it back gives equal objects",
  "For every sequence of objects, writing them in any supported format and reading the result yields objects equal in all attributes up to the documented coordinate and time precision.",
  ["inputs"], "all sequences of objects and all formats", "Tests do not round-trip arbitrary objects.",
  [I+"input/pbf.hpp", I+"output/pbf.hpp", I+"input/xml.hpp", I+"output/xml.hpp"], "writer and reader pairs")
p("C30", "Multipolygon assembly builds valid areas from any member ways",
  "For every multipolygon relation, rings are assembled from member ways so that each area has closed, correctly nested outer and inner rings, or the relation is rejected with an error.",
  ["inputs"], "all multipolygon relations", "Tests need a GEOS version that is not available.",
  [I+"multipolygon/assembler.hpp", I+"multipolygon/builder.hpp"], "ring building")
p("C31", "Distances are numerically accurate",
  "The great-circle distance of two positions and the length of a way are accurate to the stated precision for all positions on the globe.",
  ["inputs"], "all pairs of positions", "Tests compare a few distances.",
  [I+"geometry/haversine.hpp"], "floating point formula")
p("C32", "Memory use while reading is bounded independently of file size",
  "Reading a file of any size needs a bounded amount of memory besides what handlers keep.",
  ["inputs"], "all files", "Tests read tiny files.",
  [I+"input/pbf.hpp", I+"input/xml.hpp"], "object reuse and fixed buffers")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
