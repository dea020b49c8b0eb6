From afd70b6a10f433af0928e090c17e1cd2f585734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 01/57] fix: call init() also when the input contains no
 objects at all

final() was called on a handler that had never been initialised.
---
 include/osmium/input.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/osmium/input.hpp b/include/osmium/input.hpp
index d444918..52d46d7 100644
--- a/include/osmium/input.hpp
+++ b/include/osmium/input.hpp
@@ -106,7 +106,8 @@ namespace Osmium {
             }
 
             void call_after_and_before_on_handler(osm_object_type_t current_object_type) {
-                if (current_object_type != m_last_object_type) {
+                // UNKNOWN marks the end of the input: if it comes first there were no objects at all
+                if (current_object_type != m_last_object_type || current_object_type == UNKNOWN) {
                     switch (m_last_object_type) {
                         case UNKNOWN:
                             m_handler.init(m_meta);
-- 
2.43.0


From 4b52dce681f6fa53bd3c40a08a8c4bde7ce8dcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 02/57] fix: do not lose the date granularity of PBF blocks
 when it is not a multiple of a second

---
 include/osmium/input/pbf.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index d987e6c..bb67302 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -58,7 +58,8 @@ namespace Osmium {
             OSMPBF::BlobHeader     m_pbf_blob_header;
             OSMPBF::PrimitiveBlock m_pbf_primitive_block;
 
-            int64_t m_date_factor;
+            /// date granularity of the current block in milliseconds
+            int64_t m_date_granularity;
 
         public:
 
@@ -75,7 +76,7 @@ namespace Osmium {
                 m_pbf_blob(),
                 m_pbf_blob_header(),
                 m_pbf_primitive_block(),
-                m_date_factor() {
+                m_date_granularity() {
                 GOOGLE_PROTOBUF_VERIFY_VERSION;
             }
 
@@ -95,7 +96,7 @@ namespace Osmium {
                                 throw std::runtime_error("Failed to parse PrimitiveBlock.");
                             }
                             const OSMPBF::StringTable& stringtable = m_pbf_primitive_block.stringtable();
-                            m_date_factor = m_pbf_primitive_block.date_granularity() / 1000;
+                            m_date_granularity = m_pbf_primitive_block.date_granularity();
                             for (int i=0; i < m_pbf_primitive_block.primitivegroup_size(); ++i) {
                                 parse_group(m_pbf_primitive_block.primitivegroup(i), stringtable);
                             }
@@ -195,7 +196,7 @@ namespace Osmium {
                     if (pbf_node.has_info()) {
                         node.version(pbf_node.info().version())
                         .changeset(pbf_node.info().changeset())
-                        .timestamp(pbf_node.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_node.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_node.info().uid())
                         .user(stringtable.s(pbf_node.info().user_sid()).data());
                         if (pbf_node.info().has_visible()) {
@@ -233,7 +234,7 @@ namespace Osmium {
                     if (pbf_way.has_info()) {
                         way.version(pbf_way.info().version())
                         .changeset(pbf_way.info().changeset())
-                        .timestamp(pbf_way.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_way.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_way.info().uid())
                         .user(stringtable.s(pbf_way.info().user_sid()).data());
                         if (pbf_way.info().has_visible()) {
@@ -274,7 +275,7 @@ namespace Osmium {
                     if (pbf_relation.has_info()) {
                         relation.version(pbf_relation.info().version())
                         .changeset(pbf_relation.info().changeset())
-                        .timestamp(pbf_relation.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_relation.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_relation.info().uid())
                         .user(stringtable.s(pbf_relation.info().user_sid()).data());
                         if (pbf_relation.info().has_visible()) {
@@ -342,7 +343,7 @@ namespace Osmium {
 
                         node.version(dense.denseinfo().version(entity));
                         node.changeset(last_dense_changeset);
-                        node.timestamp(last_dense_timestamp * m_date_factor);
+                        node.timestamp(last_dense_timestamp * m_date_granularity / 1000);
                         node.uid(last_dense_uid);
                         node.user(stringtable.s(last_dense_user_sid).data());
 
-- 
2.43.0


From 22ec176d12f774569e5b5bbc5da72ff203694e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 03/57] fix: check string table indexes and array sizes in PBF
 input before use

---
 include/osmium/input/pbf.hpp | 66 +++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 13 deletions(-)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index bb67302..e9a01b1 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -152,6 +152,26 @@ namespace Osmium {
 
         private:
 
+            /**
+            * Get string with given index from string table. The index comes
+            * from the file and can have any value.
+            */
+            static const char* get_string(const OSMPBF::StringTable& stringtable, const int64_t index) {
+                if (index < 0 || index >= stringtable.s_size()) {
+                    throw std::runtime_error("string table index out of range");
+                }
+                return stringtable.s(static_cast<int>(index)).data();
+            }
+
+            /**
+            * Arrays that belong together must have (at least) the same number of elements.
+            */
+            static void check_array_size(const int size, const int expected_size) {
+                if (size < expected_size) {
+                    throw std::runtime_error("array in PBF block is too short");
+                }
+            }
+
             /**
             * Parse one PrimitiveGroup inside a PrimitiveBlock. This function will check what
             * type of data the group contains (nodes, dense nodes, ways, or relations) and
@@ -198,16 +218,17 @@ namespace Osmium {
                         .changeset(pbf_node.info().changeset())
                         .timestamp(pbf_node.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_node.info().uid())
-                        .user(stringtable.s(pbf_node.info().user_sid()).data());
+                        .user(get_string(stringtable, pbf_node.info().user_sid()));
                         if (pbf_node.info().has_visible()) {
                             node.visible(pbf_node.info().visible());
                         }
                     }
 
                     Osmium::OSM::TagList& tags = node.tags();
+                    check_array_size(pbf_node.vals_size(), pbf_node.keys_size());
                     for (int tag=0; tag < pbf_node.keys_size(); ++tag) {
-                        tags.add(stringtable.s(pbf_node.keys(tag)).data(),
-                                 stringtable.s(pbf_node.vals(tag)).data());
+                        tags.add(get_string(stringtable, pbf_node.keys(tag)),
+                                 get_string(stringtable, pbf_node.vals(tag)));
                     }
 
                     node.position(Osmium::OSM::Position(
@@ -236,16 +257,17 @@ namespace Osmium {
                         .changeset(pbf_way.info().changeset())
                         .timestamp(pbf_way.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_way.info().uid())
-                        .user(stringtable.s(pbf_way.info().user_sid()).data());
+                        .user(get_string(stringtable, pbf_way.info().user_sid()));
                         if (pbf_way.info().has_visible()) {
                             way.visible(pbf_way.info().visible());
                         }
                     }
 
                     Osmium::OSM::TagList& tags = way.tags();
+                    check_array_size(pbf_way.vals_size(), pbf_way.keys_size());
                     for (int tag=0; tag < pbf_way.keys_size(); ++tag) {
-                        tags.add(stringtable.s(pbf_way.keys(tag)).data(),
-                                 stringtable.s(pbf_way.vals(tag)).data());
+                        tags.add(get_string(stringtable, pbf_way.keys(tag)),
+                                 get_string(stringtable, pbf_way.vals(tag)));
                     }
 
                     uint64_t ref = 0;
@@ -277,19 +299,22 @@ namespace Osmium {
                         .changeset(pbf_relation.info().changeset())
                         .timestamp(pbf_relation.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_relation.info().uid())
-                        .user(stringtable.s(pbf_relation.info().user_sid()).data());
+                        .user(get_string(stringtable, pbf_relation.info().user_sid()));
                         if (pbf_relation.info().has_visible()) {
                             relation.visible(pbf_relation.info().visible());
                         }
                     }
 
                     Osmium::OSM::TagList& tags = relation.tags();
+                    check_array_size(pbf_relation.vals_size(), pbf_relation.keys_size());
                     for (int tag=0; tag < pbf_relation.keys_size(); ++tag) {
-                        tags.add(stringtable.s(pbf_relation.keys(tag)).data(),
-                                 stringtable.s(pbf_relation.vals(tag)).data());
+                        tags.add(get_string(stringtable, pbf_relation.keys(tag)),
+                                 get_string(stringtable, pbf_relation.vals(tag)));
                     }
 
                     uint64_t ref = 0;
+                    check_array_size(pbf_relation.memids_size(), pbf_relation.types_size());
+                    check_array_size(pbf_relation.roles_sid_size(), pbf_relation.types_size());
                     for (int i=0; i < pbf_relation.types_size(); ++i) {
                         char type = 'x';
                         switch (pbf_relation.types(i)) {
@@ -304,7 +329,7 @@ namespace Osmium {
                                 break;
                         }
                         ref += pbf_relation.memids(i);
-                        relation.add_member(type, ref, stringtable.s(pbf_relation.roles_sid(i)).data());
+                        relation.add_member(type, ref, get_string(stringtable, pbf_relation.roles_sid(i)));
                     }
 
                     this->call_relation_on_handler();
@@ -329,6 +354,20 @@ namespace Osmium {
 
                 const OSMPBF::DenseNodes& dense = group.dense();
                 int max_entity = dense.id_size();
+
+                check_array_size(dense.lat_size(), max_entity);
+                check_array_size(dense.lon_size(), max_entity);
+                if (dense.has_denseinfo()) {
+                    check_array_size(dense.denseinfo().version_size(), max_entity);
+                    check_array_size(dense.denseinfo().changeset_size(), max_entity);
+                    check_array_size(dense.denseinfo().timestamp_size(), max_entity);
+                    check_array_size(dense.denseinfo().uid_size(), max_entity);
+                    check_array_size(dense.denseinfo().user_sid_size(), max_entity);
+                    if (dense.denseinfo().visible_size() > 0) {
+                        check_array_size(dense.denseinfo().visible_size(), max_entity);
+                    }
+                }
+
                 for (int entity=0; entity < max_entity; ++entity) {
                     Osmium::OSM::Node& node = this->prepare_node();
 
@@ -345,7 +384,7 @@ namespace Osmium {
                         node.changeset(last_dense_changeset);
                         node.timestamp(last_dense_timestamp * m_date_granularity / 1000);
                         node.uid(last_dense_uid);
-                        node.user(stringtable.s(last_dense_user_sid).data());
+                        node.user(get_string(stringtable, last_dense_user_sid));
 
                         if (dense.denseinfo().visible_size() > 0) {
                             node.visible(dense.denseinfo().visible(entity));
@@ -366,9 +405,10 @@ namespace Osmium {
                             break;
                         }
 
+                        check_array_size(dense.keys_vals_size(), last_dense_tag + 2);
                         Osmium::OSM::TagList& tags = node.tags();
-                        tags.add(stringtable.s(tag_key_pos).data(),
-                                 stringtable.s(dense.keys_vals(last_dense_tag+1)).data());
+                        tags.add(get_string(stringtable, tag_key_pos),
+                                 get_string(stringtable, dense.keys_vals(last_dense_tag+1)));
 
                         last_dense_tag += 2;
                     }
-- 
2.43.0


From 7c5a523ef8876dd7aef72426ef59b1b2ddaae368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 04/57] fix: reject PBF blobs claiming a raw size larger than
 the buffer in all build modes

---
 include/osmium/input/pbf.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index e9a01b1..8bf4a4b 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -489,7 +489,9 @@ namespace Osmium {
                     return array_t(m_pbf_blob.raw().data(), m_pbf_blob.raw().size());
                 } else if (m_pbf_blob.has_zlib_data()) {
                     unsigned long raw_size = m_pbf_blob.raw_size();
-                    assert(raw_size <= static_cast<unsigned long>(OSMPBF::max_uncompressed_blob_size));
+                    if (m_pbf_blob.raw_size() < 0 || raw_size > static_cast<unsigned long>(OSMPBF::max_uncompressed_blob_size)) {
+                        throw std::runtime_error("invalid uncompressed blob size");
+                    }
                     if (uncompress(m_unpack_buffer, &raw_size, reinterpret_cast<const unsigned char*>(m_pbf_blob.zlib_data().data()), m_pbf_blob.zlib_data().size()) != Z_OK || m_pbf_blob.raw_size() != static_cast<long>(raw_size)) {
                         throw std::runtime_error("zlib error");
                     }
-- 
2.43.0


From a300690b2c1cfbafff35103ea4ef1443c22f09b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 05/57] fix: report a PBF file truncated inside the length of a
 blob header

---
 include/osmium/input/pbf.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index 8bf4a4b..6b34cc6 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -437,6 +437,9 @@ namespace Osmium {
                     if (nread < 0) {
                         throw std::runtime_error("read error");
                     } else if (nread == 0) {
+                        if (offset != 0) {
+                            throw std::runtime_error("truncated BlobHeader size");
+                        }
                         return false; // EOF
                     }
                     offset += nread;
-- 
2.43.0


From e89c5bff3922054cfb7c7a9273531450e920a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 06/57] fix: lon/lat attributes on ways and relations do not
 change an earlier node

---
 include/osmium/input/xml.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 985acd7..3741c0a 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -149,11 +149,11 @@ namespace Osmium {
                 m_current_object = &obj;
                 for (int count = 0; attrs[count]; count += 2) {
                     if (!strcmp(attrs[count], "lon")) {
-                        if (this->m_node) {
+                        if (m_current_object == this->m_node.get()) {
                             this->m_node->lon(atof(attrs[count+1]));
                         }
                     } else if (!strcmp(attrs[count], "lat")) {
-                        if (this->m_node) {
+                        if (m_current_object == this->m_node.get()) {
                             this->m_node->lat(atof(attrs[count+1]));
                         }
                     } else {
-- 
2.43.0


From caeb9c7cb21a9323c782af4d318eb2bcaf3b6241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 07/57] fix: objects in a delete section are never visible

---
 include/osmium/input/xml.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 3741c0a..275f37c 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -143,9 +143,6 @@ namespace Osmium {
             }
 
             void init_object(Osmium::OSM::Object& obj, const XML_Char** attrs) {
-                if (m_in_delete_section) {
-                    obj.visible(false);
-                }
                 m_current_object = &obj;
                 for (int count = 0; attrs[count]; count += 2) {
                     if (!strcmp(attrs[count], "lon")) {
@@ -160,6 +157,9 @@ namespace Osmium {
                         m_current_object->set_attribute(attrs[count], attrs[count+1]);
                     }
                 }
+                if (m_in_delete_section) {
+                    obj.visible(false);
+                }
             }
 
             void check_tag(const XML_Char* element, const XML_Char** attrs) {
-- 
2.43.0


From 22c6b2d3b0e8b23082c2cf6abae1ad8bca62119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 08/57] fix: unknown nested elements in XML input do not run
 into an assertion

---
 include/osmium/input/xml.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 275f37c..8d4dc43 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -63,6 +63,7 @@ namespace Osmium {
                 m_current_object(NULL),
                 m_context(context_root),
                 m_last_context(context_root),
+                m_ignored_depth(0),
                 m_in_delete_section(false) {
             }
 
@@ -128,6 +129,12 @@ namespace Osmium {
             context_t m_context;
             context_t m_last_context;
 
+            /**
+             * Number of currently open elements nested inside a child of an
+             * object. Nothing like this is defined, so they are ignored.
+             */
+            unsigned int m_ignored_depth;
+
             /**
              * This is used only for change files which contain create, modify,
              * and delete sections.
@@ -269,7 +276,8 @@ namespace Osmium {
                         }
                         break;
                     case context_in_object:
-                        // fallthrough
+                        ++m_ignored_depth;
+                        break;
                     default:
                         assert(false); // should never be here
                 }
@@ -278,8 +286,7 @@ namespace Osmium {
             void end_element(const XML_Char* element) {
                 switch (m_context) {
                     case context_root:
-                        assert(false); // should never be here
-                        break;
+                        throw std::runtime_error("nested osm or osmChange elements");
                     case context_top:
                         if (!strcmp(element, "osm") || !strcmp(element, "osmChange")) {
                             m_context = context_root;
@@ -303,7 +310,11 @@ namespace Osmium {
                         m_context = context_top;
                         break;
                     case context_in_object:
-                        m_context = m_last_context;
+                        if (m_ignored_depth > 0) {
+                            --m_ignored_depth;
+                        } else {
+                            m_context = m_last_context;
+                        }
                         break;
                     default:
                         assert(false); // should never be here
-- 
2.43.0


From de1e90b006c4d6fce9226f8d7534d75ab8309121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 09/57] fix: free the XML parser also when reading is stopped
 or fails

---
 include/osmium/input/xml.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 8d4dc43..8a195a7 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -73,6 +73,7 @@ namespace Osmium {
                     throw std::runtime_error("Error creating parser");
                 }
 
+                const ParserFree parser_free(parser);
                 XML_SetUserData(parser, this);
 
                 XML_SetElementHandler(parser, Osmium::Input::XML<THandler>::start_element_wrapper, Osmium::Input::XML<THandler>::end_element_wrapper);
@@ -102,7 +103,6 @@ namespace Osmium {
                             throw std::runtime_error(errorDesc.str());
                         }
                     } while (!done);
-                    XML_ParserFree(parser);
 
                     this->call_after_and_before_on_handler(UNKNOWN);
                 } catch (Osmium::Handler::StopReading) {
@@ -113,6 +113,25 @@ namespace Osmium {
 
         private:
 
+            /**
+             * Frees the parser however the parse() function is left.
+             */
+            class ParserFree : boost::noncopyable {
+
+                XML_Parser m_parser;
+
+            public:
+
+                ParserFree(XML_Parser parser) :
+                    m_parser(parser) {
+                }
+
+                ~ParserFree() {
+                    XML_ParserFree(m_parser);
+                }
+
+            }; // class ParserFree
+
             static const int c_buffer_size = 10240;
 
             Osmium::OSM::Object* m_current_object;
-- 
2.43.0


From 90ab7001ac051f338841dd5fceacb22c9a61c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 10/57] fix: do not truncate string table ids in PBF output to
 16 bits

---
 include/osmium/output/pbf.hpp        | 4 ++--
 include/osmium/utils/stringtable.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index 9162f24..d7178db 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -382,7 +382,7 @@ namespace Osmium {
                         // is always unused). String-ids of 0 are thus kept alone.
                         for (int i=0, l=dense->keys_vals_size(); i<l; i++) {
                             // map interim string-ids > 0 to real string ids
-                            uint16_t sid = dense->keys_vals(i);
+                            uint32_t sid = dense->keys_vals(i);
                             if (sid > 0) {
                                 dense->set_keys_vals(i, string_table.map_string_id(sid));
                             }
@@ -396,7 +396,7 @@ namespace Osmium {
                             // iterate over all username string-ids
                             for (int i=0, l= denseinfo->user_sid_size(); i<l; i++) {
                                 // map interim string-ids > 0 to real string ids
-                                uint16_t user_sid = string_table.map_string_id(denseinfo->user_sid(i));
+                                uint32_t user_sid = string_table.map_string_id(denseinfo->user_sid(i));
 
                                 // delta encode the string-id
                                 denseinfo->set_user_sid(i, m_delta_user_sid.update(user_sid));
diff --git a/include/osmium/utils/stringtable.hpp b/include/osmium/utils/stringtable.hpp
index 69063bd..6e68028 100644
--- a/include/osmium/utils/stringtable.hpp
+++ b/include/osmium/utils/stringtable.hpp
@@ -54,7 +54,7 @@ namespace Osmium {
     class StringTable {
 
         /// type for string IDs (interim and final)
-        typedef uint16_t string_id_t;
+        typedef uint32_t string_id_t;
 
         /**
          * this is the struct used to build the StringTable. It is stored as
-- 
2.43.0


From ef2442a429b2e7eb25baf997d2d4c52c5a7bf5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 11/57] fix: write PBF blobs completely if the operating system
 accepts only a part

---
 include/osmium/output/pbf.hpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index d7178db..ece3e6d 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -289,6 +289,21 @@ namespace Osmium {
                 return z.total_out;
             }
 
+            /**
+             * Write all bytes in the buffer to the file, even if the operating
+             * system accepts only some of them at a time.
+             */
+            void write_all(const char* buffer, size_t size) {
+                while (size > 0) {
+                    const ssize_t written = ::write(fd(), buffer, size);
+                    if (written < 0) {
+                        throw std::runtime_error("file error");
+                    }
+                    buffer += written;
+                    size -= written;
+                }
+            }
+
             /**
              * Serialize a protobuf-message together into a Blob, optionally apply compression
              * and write it together with a BlobHeader to the file.
@@ -346,15 +361,9 @@ namespace Osmium {
                 uint32_t sz = htonl(blobhead.size());
 
                 // write to the file: the 4-byte BlobHeader-Size followed by the BlobHeader followed by the Blob
-                if (::write(fd(), &sz, sizeof(sz)) < 0) {
-                    throw std::runtime_error("file error");
-                }
-                if (::write(fd(), blobhead.c_str(), blobhead.size()) < 0) {
-                    throw std::runtime_error("file error");
-                }
-                if (::write(fd(), data.c_str(), data.size()) < 0) {
-                    throw std::runtime_error("file error");
-                }
+                write_all(reinterpret_cast<const char*>(&sz), sizeof(sz));
+                write_all(blobhead.c_str(), blobhead.size());
+                write_all(data.c_str(), data.size());
             }
 
             /**
-- 
2.43.0


From a790a241b75bde8e0bea829f618a5242b7c120ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 12/57] fix: report failing serialization of PBF blocks

---
 include/osmium/output/pbf.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index ece3e6d..04e5fa8 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -316,7 +316,9 @@ namespace Osmium {
                 std::string data;
 
                 // serialize the protobuf message to the string
-                msg.SerializeToString(&data);
+                if (!msg.SerializeToString(&data)) {
+                    throw std::runtime_error("failed to serialize block");
+                }
 
                 if (use_compression()) {
                     // compress using zlib
@@ -341,7 +343,9 @@ namespace Osmium {
                 data.clear();
 
                 // serialize and clear the Blob
-                pbf_blob.SerializeToString(&data);
+                if (!pbf_blob.SerializeToString(&data)) {
+                    throw std::runtime_error("failed to serialize blob");
+                }
                 pbf_blob.Clear();
 
                 // set the header-type to the supplied string on the BlobHeader
@@ -354,7 +358,9 @@ namespace Osmium {
                 std::string blobhead;
 
                 // serialize and clear the BlobHeader
-                pbf_blob_header.SerializeToString(&blobhead);
+                if (!pbf_blob_header.SerializeToString(&blobhead)) {
+                    throw std::runtime_error("failed to serialize blob header");
+                }
                 pbf_blob_header.Clear();
 
                 // the 4-byte size of the BlobHeader, transformed from Host- to Network-Byte-Order
-- 
2.43.0


From 8e7888ef1ea427d57df94a06f0e820128a6c4dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 13/57] fix: refuse to write PBF blocks larger than readers
 accept

---
 include/osmium/output/pbf.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index 04e5fa8..5222295 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -320,6 +320,11 @@ namespace Osmium {
                     throw std::runtime_error("failed to serialize block");
                 }
 
+                // readers do not accept blocks larger than this
+                if (data.size() > static_cast<size_t>(OSMPBF::max_uncompressed_blob_size)) {
+                    throw std::runtime_error("block too large");
+                }
+
                 if (use_compression()) {
                     // compress using zlib
                     size_t out = zlib_compress(data);
-- 
2.43.0


From 2401e56c9da59f70f5d98870561bf8ae5fdcb7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 14/57] fix: release the zlib stream when compressing a PBF
 blob fails

---
 include/osmium/output/pbf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index 5222295..55e237d 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -272,6 +272,7 @@ namespace Osmium {
 
                 // compress
                 if (deflate(&z, Z_FINISH) != Z_STREAM_END) {
+                    deflateEnd(&z);
                     throw std::runtime_error("failed to deflate zlib stream");
                 }
 
-- 
2.43.0


From f93090de5bd4ce8a65f0b4e02cc9f863eac3534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 15/57] fix: close the pipe if the helper process can not be
 started

---
 include/osmium/osmfile.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 316ff14..8b73cb7 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -318,7 +318,10 @@ namespace Osmium {
             }
             pid_t pid = fork();
             if (pid < 0) {
-                throw SystemError("Can't fork", errno);
+                const int fork_errno = errno;
+                ::close(pipefd[0]);
+                ::close(pipefd[1]);
+                throw SystemError("Can't fork", fork_errno);
             }
             if (pid == 0) { // child
                 // close all file descriptors except one end of the pipe
-- 
2.43.0


From d8869e24ec98e5a6bba215558e4bbf7a7d5ea4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 16/57] fix: do not run exit handlers of the parent in a helper
 process that could not be started

---
 include/osmium/osmfile.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 8b73cb7..392b9fd 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -331,22 +331,22 @@ namespace Osmium {
                     }
                 }
                 if (dup2(pipefd[1-input], 1-input) < 0) { // put end of pipe as stdout/stdin
-                    exit(1);
+                    _exit(1);
                 }
 
                 if (input == 0) {
                     ::open("/dev/null", O_RDONLY); // stdin
                     ::open("/dev/null", O_WRONLY); // stderr
                     if (::execlp(command.c_str(), command.c_str(), m_filename.c_str(), NULL) < 0) {
-                        exit(1);
+                        _exit(1);
                     }
                 } else {
                     if (::open(m_filename.c_str(), O_WRONLY | O_TRUNC | O_CREAT, 0666) != 1) {
-                        exit(1);
+                        _exit(1);
                     }
                     ::open("/dev/null", O_WRONLY); // stderr
                     if (::execlp(command.c_str(), command.c_str(), 0, NULL) < 0) {
-                        exit(1);
+                        _exit(1);
                     }
                 }
             }
-- 
2.43.0


From 6aba168a4d8ff6367bb5ac6017695a4f8e9847d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 17/57] fix: helper processes do not inherit the parent's end
 of a pipe

---
 include/osmium/osmfile.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 392b9fd..1960f51 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -316,6 +316,8 @@ namespace Osmium {
             if (pipe(pipefd) < 0) {
                 throw SystemError("Can't create pipe", errno);
             }
+            // no helper process may inherit our end of the pipe
+            ::fcntl(pipefd[input], F_SETFD, FD_CLOEXEC);
             pid_t pid = fork();
             if (pid < 0) {
                 const int fork_errno = errno;
-- 
2.43.0


From 5795ae60bae98ae0f5ea65f5f958ff12528071dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 18/57] fix: report errors when closing a file, wait for a
 helper process only once

---
 include/osmium/osmfile.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 1960f51..caca17e 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -539,20 +539,28 @@ namespace Osmium {
         }
 
         void close() {
+            int close_errno = 0;
             if (m_fd >= 0) {
-                ::close(m_fd);
+                if (::close(m_fd) < 0) {
+                    close_errno = errno;
+                }
                 m_fd = -1;
             }
 
             if (m_childpid) {
                 int status;
-                pid_t pid = waitpid(m_childpid, &status, 0);
+                const pid_t childpid = m_childpid;
+                m_childpid = 0; // never wait for it a second time
+                pid_t pid = waitpid(childpid, &status, 0);
                 if (pid < 0 || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
                     // global variable errno doesn't contain a valid value,
                     // so we better set errno=0
                     throw IOError("Subprocess returned error", m_filename, 0);
                 }
-                m_childpid = 0;
+            }
+
+            if (close_errno) {
+                throw IOError("Close failed", m_filename, close_errno);
             }
         }
 
-- 
2.43.0


From 11d4387d06f4cc3a15470edb964ad602b6e45fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 19/57] fix: close an open file before another one is assigned
 to it

---
 include/osmium/osmfile.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index caca17e..4bb0f4d 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -522,11 +522,12 @@ namespace Osmium {
          * copied.
          */
         OSMFile& operator=(const OSMFile& orig) {
-            m_fd       = -1;
-            m_childpid = 0;
-            m_type     = orig.type();
-            m_encoding = orig.encoding();
-            m_filename = orig.filename();
+            if (this != &orig) {
+                close();
+                m_type     = orig.type();
+                m_encoding = orig.encoding();
+                m_filename = orig.filename();
+            }
             return *this;
         }
 
-- 
2.43.0


From 084809ab5ce23a014d6f42d3585dadde15f84f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 20/57] fix: close an open file before it is opened again

---
 include/osmium/osmfile.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 4bb0f4d..98cdcab 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -673,10 +673,12 @@ namespace Osmium {
         }
 
         void open_for_input() {
+            close();
             m_fd = m_encoding->decompress() == "" ? open_input_file_or_url() : execute(m_encoding->decompress(), 0);
         }
 
         void open_for_output() {
+            close();
             m_fd = m_encoding->compress() == "" ? open_output_file() : execute(m_encoding->compress(), 1);
         }
 
-- 
2.43.0


From 02621dc4cf951a862548e2fd8a5c460b191d28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 21/57] fix: free the reader also when reading fails

---
 include/osmium.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/osmium.hpp b/include/osmium.hpp
index 74817e3..becd986 100644
--- a/include/osmium.hpp
+++ b/include/osmium.hpp
@@ -70,7 +70,12 @@ namespace Osmium {
 #endif // OSMIUM_WITH_XML_INPUT
             }
 
-            input->parse();
+            try {
+                input->parse();
+            } catch (...) {
+                delete input;
+                throw;
+            }
             delete input;
         }
 
-- 
2.43.0


From e37629a955fb73ff3d27ba3d90794592aa013621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 22/57] fix: report a failing helper process after the input
 has been read

---
 include/osmium/input.hpp     | 8 ++++++++
 include/osmium/input/pbf.hpp | 1 +
 include/osmium/input/xml.hpp | 1 +
 3 files changed, 10 insertions(+)

diff --git a/include/osmium/input.hpp b/include/osmium/input.hpp
index 52d46d7..c88a7ce 100644
--- a/include/osmium/input.hpp
+++ b/include/osmium/input.hpp
@@ -169,6 +169,14 @@ namespace Osmium {
                 return m_file;
             }
 
+            /**
+             * Close the input file after all of it has been read. Throws an
+             * exception if a helper process delivering the data failed.
+             */
+            void close() {
+                m_file.close();
+            }
+
             /*
                The following methods prepare the m_node/way/relation member
                variable for use. If it is empty or in use by somebody other
diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index 6b34cc6..7afe477 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -143,6 +143,7 @@ namespace Osmium {
 //                            std::cerr << "Ignoring unknown blob type (" << m_pbf_blob_header.type().data() << ").\n";
                         }
                     }
+                    this->close();
                     this->call_after_and_before_on_handler(UNKNOWN);
                 } catch (Osmium::Handler::StopReading) {
                     // if a handler says to stop reading, we do
diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 8a195a7..aaeee3c 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -104,6 +104,7 @@ namespace Osmium {
                         }
                     } while (!done);
 
+                    this->close();
                     this->call_after_and_before_on_handler(UNKNOWN);
                 } catch (Osmium::Handler::StopReading) {
                     // if a handler says to stop reading, we do
-- 
2.43.0


From 4372bd43790d81a965e38089b9da0a84be4eb4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 23/57] fix: free the XML writer also if writing ends early

---
 include/osmium/output/xml.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/osmium/output/xml.hpp b/include/osmium/output/xml.hpp
index 48632d3..8b1f16d 100644
--- a/include/osmium/output/xml.hpp
+++ b/include/osmium/output/xml.hpp
@@ -60,13 +60,18 @@ namespace Osmium {
             XML(const Osmium::OSMFile& file) :
                 Base(file),
                 m_xml_output_buffer(xmlOutputBufferCreateFd(this->fd(), NULL)),
-                m_xml_writer(xmlNewTextWriter(m_xml_output_buffer)),
+                m_xml_writer(m_xml_output_buffer ? xmlNewTextWriter(m_xml_output_buffer) : NULL),
                 m_last_op('\0') {
-                if (!m_xml_output_buffer || !m_xml_writer) {
+                if (!m_xml_writer) {
+                    xmlOutputBufferClose(m_xml_output_buffer);
                     throw XMLWriteError();
                 }
             }
 
+            ~XML() {
+                xmlFreeTextWriter(m_xml_writer);
+            }
+
             void init(Osmium::OSM::Meta& meta) {
                 check_for_error(xmlTextWriterSetIndent(m_xml_writer, 1));
                 check_for_error(xmlTextWriterSetIndentString(m_xml_writer, BAD_CAST "  "));
@@ -159,6 +164,7 @@ namespace Osmium {
                 }
                 check_for_error(xmlTextWriterEndElement(m_xml_writer)); // </osm> or </osmChange>
                 xmlFreeTextWriter(m_xml_writer);
+                m_xml_writer = NULL;
                 m_file.close();
             }
 
-- 
2.43.0


From cb30453c0d2b917de73538dc165eba6ad2103fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 24/57] fix: report write errors when the XML output is flushed
 at the end

---
 include/osmium/output/xml.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/osmium/output/xml.hpp b/include/osmium/output/xml.hpp
index 8b1f16d..f1cb19e 100644
--- a/include/osmium/output/xml.hpp
+++ b/include/osmium/output/xml.hpp
@@ -163,6 +163,14 @@ namespace Osmium {
                     open_close_op_tag('\0');
                 }
                 check_for_error(xmlTextWriterEndElement(m_xml_writer)); // </osm> or </osmChange>
+
+                // make sure everything was written, xmlFreeTextWriter() can not tell us
+                int written;
+                do {
+                    written = xmlTextWriterFlush(m_xml_writer);
+                    check_for_error(written);
+                } while (written > 0);
+
                 xmlFreeTextWriter(m_xml_writer);
                 m_xml_writer = NULL;
                 m_file.close();
-- 
2.43.0


From 862c6e8e3a17a9194eacedfbcb3819c6dacb4962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 25/57] fix: write large object versions as unsigned numbers to
 XML

---
 include/osmium/output/xml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/output/xml.hpp b/include/osmium/output/xml.hpp
index f1cb19e..e69f21b 100644
--- a/include/osmium/output/xml.hpp
+++ b/include/osmium/output/xml.hpp
@@ -185,7 +185,7 @@ namespace Osmium {
             void write_meta(const shared_ptr<Osmium::OSM::Object const>& object) {
                 check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "id", "%" PRId64, object->id()));
                 if (object->version()) {
-                    check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "version", "%d", object->version()));
+                    check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "version", "%u", object->version()));
                 }
                 if (object->timestamp()) {
                     check_for_error(xmlTextWriterWriteAttribute(m_xml_writer, BAD_CAST "timestamp", BAD_CAST object->timestamp_as_string().c_str()));
-- 
2.43.0


From b0170b8f45597feaeccb357587f46919350b7832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 26/57] fix: undefined positions do not change bounds

---
 include/osmium/osm/bounds.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/osmium/osm/bounds.hpp b/include/osmium/osm/bounds.hpp
index da69a42..c32c22e 100644
--- a/include/osmium/osm/bounds.hpp
+++ b/include/osmium/osm/bounds.hpp
@@ -37,7 +37,14 @@ namespace Osmium {
                 m_top_right() {
             }
 
+            /**
+             * Extend bounds so that they include the position. Undefined
+             * positions don't change the bounds.
+             */
             Bounds& extend(const Position& position) {
+                if (!position.defined()) {
+                    return *this;
+                }
                 if (m_bottom_left.defined()) {
                     if (position.x() < m_bottom_left.x()) m_bottom_left.x(position.x());
                     if (position.x() > m_top_right.x()  ) m_top_right.x(position.x());
-- 
2.43.0


From 67b7dc9e313e54b505d96b925d511106d328a616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 27/57] fix: objects with negated ids are not equivalent in the
 ordering

---
 include/osmium/osm/area.hpp     | 2 ++
 include/osmium/osm/node.hpp     | 2 ++
 include/osmium/osm/relation.hpp | 2 ++
 include/osmium/osm/way.hpp      | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/osmium/osm/area.hpp b/include/osmium/osm/area.hpp
index a5979f6..a8e0384 100644
--- a/include/osmium/osm/area.hpp
+++ b/include/osmium/osm/area.hpp
@@ -137,6 +137,8 @@ namespace Osmium {
         inline bool operator<(const Area& lhs, const Area& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
diff --git a/include/osmium/osm/node.hpp b/include/osmium/osm/node.hpp
index f4dea1f..695d161 100644
--- a/include/osmium/osm/node.hpp
+++ b/include/osmium/osm/node.hpp
@@ -87,6 +87,8 @@ namespace Osmium {
         inline bool operator<(const Node& lhs, const Node& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
diff --git a/include/osmium/osm/relation.hpp b/include/osmium/osm/relation.hpp
index e20dadf..74383e6 100644
--- a/include/osmium/osm/relation.hpp
+++ b/include/osmium/osm/relation.hpp
@@ -78,6 +78,8 @@ namespace Osmium {
         inline bool operator<(const Relation& lhs, const Relation& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
diff --git a/include/osmium/osm/way.hpp b/include/osmium/osm/way.hpp
index 89562a9..fccea1d 100644
--- a/include/osmium/osm/way.hpp
+++ b/include/osmium/osm/way.hpp
@@ -113,6 +113,8 @@ namespace Osmium {
         inline bool operator<(const Way& lhs, const Way& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
-- 
2.43.0


From 3a620bf385db869be8c4f79d15cb1d290678bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 28/57] fix: round the bounding box in the PBF header

---
 include/osmium/output/pbf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index 55e237d..cff179f 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -907,10 +907,10 @@ namespace Osmium {
 
                 if (meta.bounds().defined()) {
                     OSMPBF::HeaderBBox* bbox = pbf_header_block.mutable_bbox();
-                    bbox->set_left(meta.bounds().bottom_left().lon() * OSMPBF::lonlat_resolution);
-                    bbox->set_bottom(meta.bounds().bottom_left().lat() * OSMPBF::lonlat_resolution);
-                    bbox->set_right(meta.bounds().top_right().lon() * OSMPBF::lonlat_resolution);
-                    bbox->set_top(meta.bounds().top_right().lat() * OSMPBF::lonlat_resolution);
+                    bbox->set_left(round(meta.bounds().bottom_left().lon() * OSMPBF::lonlat_resolution));
+                    bbox->set_bottom(round(meta.bounds().bottom_left().lat() * OSMPBF::lonlat_resolution));
+                    bbox->set_right(round(meta.bounds().top_right().lon() * OSMPBF::lonlat_resolution));
+                    bbox->set_top(round(meta.bounds().top_right().lat() * OSMPBF::lonlat_resolution));
                 }
 
                 store_header_block();
-- 
2.43.0


From 130a839486201952b22973a0a12d95bf51615c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 29/57] fix: converting a timestamp without calendar date does
 not crash

---
 include/osmium/utils/timestamp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/utils/timestamp.hpp b/include/osmium/utils/timestamp.hpp
index 49be3e9..4008487 100644
--- a/include/osmium/utils/timestamp.hpp
+++ b/include/osmium/utils/timestamp.hpp
@@ -56,6 +56,9 @@ namespace Osmium {
                 return std::string("");
             }
             struct tm* tm = std::gmtime(&timestamp);
+            if (!tm) { // there is no calendar date for this timestamp
+                return std::string("");
+            }
             std::string s(timestamp_length, '\0');
             /* This const_cast is ok, because we know we have enough space
                in the string for the format we are using (well at least until
-- 
2.43.0


From 3df2658cb0af9541136c259e33d60a4056058bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 30/57] fix: reject timestamps followed by other text

---
 include/osmium/utils/timestamp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/osmium/utils/timestamp.hpp b/include/osmium/utils/timestamp.hpp
index 4008487..8ee6884 100644
--- a/include/osmium/utils/timestamp.hpp
+++ b/include/osmium/utils/timestamp.hpp
@@ -76,7 +76,8 @@ namespace Osmium {
         inline time_t parse_iso(const char* timestamp) {
 #ifndef WIN32
             struct tm tm = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 };
-            if (strptime(timestamp, timestamp_format(), &tm) == NULL) {
+            const char* end = strptime(timestamp, timestamp_format(), &tm);
+            if (end == NULL || *end != '\0') {
                 throw std::invalid_argument("can't parse timestamp");
             }
             return timegm(&tm);
-- 
2.43.0


From 0227484e60e44eab0a42eb957f88667545e07fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 31/57] fix: an empty way node list is not closed

---
 include/osmium/osm/way_node_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/osm/way_node_list.hpp b/include/osmium/osm/way_node_list.hpp
index 3d79e74..b88566b 100644
--- a/include/osmium/osm/way_node_list.hpp
+++ b/include/osmium/osm/way_node_list.hpp
@@ -125,7 +125,7 @@ namespace Osmium {
             }
 
             bool is_closed() const {
-                return m_list.front().ref() == m_list.back().ref();
+                return !m_list.empty() && m_list.front().ref() == m_list.back().ref();
             }
 
             bool has_position() const {
-- 
2.43.0


From 80d55a41d22008729feab480ed0a11955302c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 32/57] fix: reversed polygons are written in reverse order

---
 include/osmium/geometry/polygon.hpp | 32 ++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/osmium/geometry/polygon.hpp b/include/osmium/geometry/polygon.hpp
index 5128c0d..649237d 100644
--- a/include/osmium/geometry/polygon.hpp
+++ b/include/osmium/geometry/polygon.hpp
@@ -67,7 +67,11 @@ namespace Osmium {
                 }
                 LonLatListWriter<Osmium::OSM::WayNode> writer(out);
                 out << "POLYGON((" << std::setprecision(10);
-                for_each(nodes().begin(), nodes().end(), writer);
+                if (reverse()) {
+                    std::for_each(nodes().rbegin(), nodes().rend(), writer);
+                } else {
+                    std::for_each(nodes().begin(), nodes().end(), writer);
+                }
                 return out << "))";
             }
 
@@ -75,9 +79,16 @@ namespace Osmium {
                 write_binary_wkb_header(out, with_srid, wkbPolygon);
                 write_binary<uint32_t>(out, 1); // ring count
                 write_binary<uint32_t>(out, nodes().size()); // ring #1 point count
-                for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
-                    write_binary<double>(out, it->lon());
-                    write_binary<double>(out, it->lat());
+                if (reverse()) {
+                    for (Osmium::OSM::WayNodeList::const_reverse_iterator it = nodes().rbegin(); it != nodes().rend(); ++it) {
+                        write_binary<double>(out, it->lon());
+                        write_binary<double>(out, it->lat());
+                    }
+                } else {
+                    for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
+                        write_binary<double>(out, it->lon());
+                        write_binary<double>(out, it->lat());
+                    }
                 }
                 return out;
             }
@@ -86,9 +97,16 @@ namespace Osmium {
                 write_hex_wkb_header(out, with_srid, wkbPolygon);
                 write_hex<uint32_t>(out, 1); // ring count
                 write_hex<uint32_t>(out, nodes().size()); // ring #1 point count
-                for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
-                    write_hex<double>(out, it->lon());
-                    write_hex<double>(out, it->lat());
+                if (reverse()) {
+                    for (Osmium::OSM::WayNodeList::const_reverse_iterator it = nodes().rbegin(); it != nodes().rend(); ++it) {
+                        write_hex<double>(out, it->lon());
+                        write_hex<double>(out, it->lat());
+                    }
+                } else {
+                    for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
+                        write_hex<double>(out, it->lon());
+                        write_hex<double>(out, it->lat());
+                    }
                 }
                 return out;
             }
-- 
2.43.0


From a23b1c07f554f0d93056463b70623d4d263d3859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 33/57] fix: recognise the suffix osc.pbf

---
 include/osmium/osmfile.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 98cdcab..5b870ea 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -489,6 +489,9 @@ namespace Osmium {
             } else if (suffix == "osh.gz") {
                 m_type     = FileType::History();
                 m_encoding = FileEncoding::XMLgz();
+            } else if (suffix == "osc.pbf") {
+                m_type     = FileType::Change();
+                m_encoding = FileEncoding::PBF();
             } else if (suffix == "osc") {
                 m_type     = FileType::Change();
                 m_encoding = FileEncoding::XML();
-- 
2.43.0


From 340332699a0db23b450e86a707abe9b105ae19cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 34/57] fix: only the last part of a file name has a suffix

---
 include/osmium/osmfile.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 5b870ea..1ef018e 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -666,7 +666,12 @@ namespace Osmium {
         }
 
         std::string filename_without_suffix() const {
-            return m_filename.substr(0, m_filename.find_first_of('.'));
+            // dots in directory names don't start a suffix
+            size_t n = m_filename.find_last_of('/');
+            if (n == std::string::npos) {
+                n = 0;
+            }
+            return m_filename.substr(0, m_filename.find_first_of('.', n));
         }
 
         std::string filename_with_default_suffix() const {
-- 
2.43.0


From a429bdac1fa63084b5fc558eb396a5caddbca9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 35/57] fix: the end time handler passes on areas

---
 include/osmium/handler/endtime.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/osmium/handler/endtime.hpp b/include/osmium/handler/endtime.hpp
index 3129275..82e6a7f 100644
--- a/include/osmium/handler/endtime.hpp
+++ b/include/osmium/handler/endtime.hpp
@@ -116,6 +116,10 @@ namespace Osmium {
                 m_handler.after_relations();
             }
 
+            void area(const shared_ptr<Osmium::OSM::Area>& area) {
+                m_handler.area(area);
+            }
+
             void final() {
                 m_handler.final();
             }
-- 
2.43.0


From 67c964567c1852279ed2c18e6276f213d6ddbdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 36/57] fix: merging an object store also delivers kinds of
 objects missing in the input

---
 include/osmium/storage/objectstore.hpp | 45 ++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/include/osmium/storage/objectstore.hpp b/include/osmium/storage/objectstore.hpp
index 628d23b..fc7dbc8 100644
--- a/include/osmium/storage/objectstore.hpp
+++ b/include/osmium/storage/objectstore.hpp
@@ -205,6 +205,11 @@ namespace Osmium {
                     m_object_store.clear_nodes();
                 }
 
+                void before_ways() {
+                    flush_nodes();
+                    m_handler.before_ways();
+                }
+
                 void way(const shared_ptr<Osmium::OSM::Way>& way) {
                     while (m_ways_iter != m_ways_end && **m_ways_iter < *way) {
                         m_handler.way(*m_ways_iter++);
@@ -220,6 +225,12 @@ namespace Osmium {
                     m_object_store.clear_ways();
                 }
 
+                void before_relations() {
+                    flush_nodes();
+                    flush_ways();
+                    m_handler.before_relations();
+                }
+
                 void relation(const shared_ptr<Osmium::OSM::Relation>& relation) {
                     while (m_relations_iter != m_relations_end && **m_relations_iter < *relation) {
                         m_handler.relation(*m_relations_iter++);
@@ -235,8 +246,42 @@ namespace Osmium {
                     m_object_store.clear_relations();
                 }
 
+                void final() {
+                    flush_nodes();
+                    flush_ways();
+                    flush_relations();
+                    m_handler.final();
+                }
+
             private:
 
+                /*
+                 * There is no section for a kind of object that is in the
+                 * object store but not in the stream of objects, so these
+                 * methods add one.
+                 */
+
+                void flush_nodes() {
+                    if (m_nodes_iter != m_nodes_end) {
+                        m_handler.before_nodes();
+                        after_nodes();
+                    }
+                }
+
+                void flush_ways() {
+                    if (m_ways_iter != m_ways_end) {
+                        m_handler.before_ways();
+                        after_ways();
+                    }
+                }
+
+                void flush_relations() {
+                    if (m_relations_iter != m_relations_end) {
+                        m_handler.before_relations();
+                        after_relations();
+                    }
+                }
+
                 ObjectStore& m_object_store;
                 THandler& m_handler;
                 Osmium::OSM::Meta& m_meta;
-- 
2.43.0


From d66a41f365b2d258b34d27f82efce5180698065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 37/57] fix: the member info ordering can be used in several
 source files

---
 include/osmium/relations/assembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/relations/assembler.hpp b/include/osmium/relations/assembler.hpp
index a99ec56..01806cf 100644
--- a/include/osmium/relations/assembler.hpp
+++ b/include/osmium/relations/assembler.hpp
@@ -85,7 +85,7 @@ namespace Osmium {
          * Used to sort a vector of MemberInfo objects and to later find
          * them using binary search.
          */
-        bool operator<(const MemberInfo& a, const MemberInfo& b) {
+        inline bool operator<(const MemberInfo& a, const MemberInfo& b) {
             return a.m_member_id < b.m_member_id;
         }
 
-- 
2.43.0


From 6693384a06675b808091f82aebfef31f01df8793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 38/57] fix: repeated members don't complete a relation early
 or access a completed one

---
 include/osmium/relations/assembler.hpp     | 4 ++++
 include/osmium/relations/relation_info.hpp | 9 +++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/osmium/relations/assembler.hpp b/include/osmium/relations/assembler.hpp
index 01806cf..0cab6d3 100644
--- a/include/osmium/relations/assembler.hpp
+++ b/include/osmium/relations/assembler.hpp
@@ -381,6 +381,10 @@ namespace Osmium {
                         assert(member_info.m_member_id == object->id());
                         assert(member_info.m_relation_pos < m_assembler.m_relations.size());
                         TRelationInfo& relation_info = m_assembler.m_relations[member_info.m_relation_pos];
+                        if (!relation_info.relation()) {
+                            // this relation was already completed, the object is here again or in another version
+                            continue;
+                        }
                         assert(member_info.m_member_pos < relation_info.relation()->members().size());
                         if (relation_info.add_member(object, member_info.m_member_pos)) {
                             m_assembler.complete_relation(relation_info);
diff --git a/include/osmium/relations/relation_info.hpp b/include/osmium/relations/relation_info.hpp
index 5db34e3..fb4b84c 100644
--- a/include/osmium/relations/relation_info.hpp
+++ b/include/osmium/relations/relation_info.hpp
@@ -93,15 +93,20 @@ namespace Osmium {
 
             /**
              * Add new member. This stores a shared pointer to the member object
-             * in the RelationInfo. It also decrements the members needed counter.
+             * in the RelationInfo. It also decrements the members needed counter
+             * unless there already was an object (for instance an earlier version)
+             * in this place.
              *
              * @return true if relation is complete, false otherwise
              */
             bool add_member(const shared_ptr<Osmium::OSM::Object const>& object, osm_sequence_id_t n) {
                 assert(m_need_members > 0);
                 assert(n < m_relation->members().size());
+                if (!m_members[n]) {
+                    --m_need_members;
+                }
                 m_members[n] = object;
-                return --m_need_members == 0;
+                return m_need_members == 0;
             }
 
             /**
-- 
2.43.0


From 4548937a7099c38ac16a5f115cf5ac39b9d53584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 39/57] fix: a failed growth of a mapped id store keeps the old
 contents

---
 include/osmium/storage/byid/mmap_anon.hpp | 5 +++--
 include/osmium/storage/byid/mmap_file.hpp | 9 ++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/osmium/storage/byid/mmap_anon.hpp b/include/osmium/storage/byid/mmap_anon.hpp
index 15979c0..7e232c2 100644
--- a/include/osmium/storage/byid/mmap_anon.hpp
+++ b/include/osmium/storage/byid/mmap_anon.hpp
@@ -80,10 +80,11 @@ namespace Osmium {
                     if (id >= m_size) {
                         uint64_t new_size = id + size_increment;
 
-                        m_items = static_cast<TValue*>(mremap(m_items, sizeof(TValue) * m_size, sizeof(TValue) * new_size, MREMAP_MAYMOVE));
-                        if (m_items == MAP_FAILED) {
+                        void* items = mremap(m_items, sizeof(TValue) * m_size, sizeof(TValue) * new_size, MREMAP_MAYMOVE);
+                        if (items == MAP_FAILED) {
                             throw std::bad_alloc();
                         }
+                        m_items = static_cast<TValue*>(items);
                         m_size = new_size;
                     }
                     m_items[id] = value;
diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index fcd60a1..6675673 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -116,13 +116,12 @@ namespace Osmium {
                             }
                         }
 
-                        if (munmap(m_items, sizeof(TValue) * m_size) < 0) {
-                            throw std::bad_alloc();
-                        }
-                        m_items = static_cast<TValue*>(mmap(NULL, sizeof(TValue) * new_size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0));
-                        if (m_items == MAP_FAILED) {
+                        void* items = mmap(NULL, sizeof(TValue) * new_size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0);
+                        if (items == MAP_FAILED) {
                             throw std::bad_alloc();
                         }
+                        munmap(m_items, sizeof(TValue) * m_size);
+                        m_items = static_cast<TValue*>(items);
                         m_size = new_size;
                     }
                     m_items[id] = value;
-- 
2.43.0


From a448709c11004896d6856252681f5886f11f85bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 40/57] fix: a mapped id store is unmapped only once

---
 include/osmium/storage/byid/fixed_array.hpp | 1 +
 include/osmium/storage/byid/mmap_anon.hpp   | 9 ++++++++-
 include/osmium/storage/byid/mmap_file.hpp   | 8 ++++++--
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/osmium/storage/byid/fixed_array.hpp b/include/osmium/storage/byid/fixed_array.hpp
index f09987f..bc0470d 100644
--- a/include/osmium/storage/byid/fixed_array.hpp
+++ b/include/osmium/storage/byid/fixed_array.hpp
@@ -94,6 +94,7 @@ namespace Osmium {
                 void clear() {
                     free(m_items);
                     m_items = NULL;
+                    m_size = 0;
                 }
 
             private:
diff --git a/include/osmium/storage/byid/mmap_anon.hpp b/include/osmium/storage/byid/mmap_anon.hpp
index 7e232c2..d99354e 100644
--- a/include/osmium/storage/byid/mmap_anon.hpp
+++ b/include/osmium/storage/byid/mmap_anon.hpp
@@ -80,6 +80,9 @@ namespace Osmium {
                     if (id >= m_size) {
                         uint64_t new_size = id + size_increment;
 
+                        if (!m_items) { // already cleared
+                            throw std::bad_alloc();
+                        }
                         void* items = mremap(m_items, sizeof(TValue) * m_size, sizeof(TValue) * new_size, MREMAP_MAYMOVE);
                         if (items == MAP_FAILED) {
                             throw std::bad_alloc();
@@ -103,7 +106,11 @@ namespace Osmium {
                 }
 
                 void clear() {
-                    munmap(m_items, sizeof(TValue) * m_size);
+                    if (m_items) {
+                        munmap(m_items, sizeof(TValue) * m_size);
+                        m_items = NULL;
+                        m_size = 0;
+                    }
                 }
 
             private:
diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index 6675673..e42308a 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -120,7 +120,7 @@ namespace Osmium {
                         if (items == MAP_FAILED) {
                             throw std::bad_alloc();
                         }
-                        munmap(m_items, sizeof(TValue) * m_size);
+                        clear();
                         m_items = static_cast<TValue*>(items);
                         m_size = new_size;
                     }
@@ -140,7 +140,11 @@ namespace Osmium {
                 }
 
                 void clear() {
-                    munmap(m_items, sizeof(TValue) * m_size);
+                    if (m_items) {
+                        munmap(m_items, sizeof(TValue) * m_size);
+                        m_items = NULL;
+                        m_size = 0;
+                    }
                 }
 
             private:
-- 
2.43.0


From b6a66081f6ded0f29e5959394a38549013edd6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 41/57] fix: close the file behind a mapped id store

---
 include/osmium/storage/byid/mmap_file.hpp | 25 +++++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index e42308a..57d4cf9 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -71,7 +71,8 @@ namespace Osmium {
                         if (!file) {
                             throw std::bad_alloc();
                         }
-                        m_fd = fileno(file);
+                        m_fd = dup(fileno(file));
+                        fclose(file);
                     } else {
                         m_fd = open(filename.c_str(), O_RDWR | O_CREAT, 0600);
                     }
@@ -88,21 +89,27 @@ namespace Osmium {
                         }
                     }
 
-                    // make sure the file is at least as large as the initial size
-                    if (get_file_size() < sizeof(TValue) * m_size) {
-                        if (ftruncate(m_fd, sizeof(TValue) * m_size) < 0) {
-                            throw std::bad_alloc();
+                    try {
+                        // make sure the file is at least as large as the initial size
+                        if (get_file_size() < sizeof(TValue) * m_size) {
+                            if (ftruncate(m_fd, sizeof(TValue) * m_size) < 0) {
+                                throw std::bad_alloc();
+                            }
                         }
-                    }
 
-                    m_items = static_cast<TValue*>(mmap(NULL, sizeof(TValue) * m_size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0));
-                    if (m_items == MAP_FAILED) {
-                        throw std::bad_alloc();
+                        m_items = static_cast<TValue*>(mmap(NULL, sizeof(TValue) * m_size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0));
+                        if (m_items == MAP_FAILED) {
+                            throw std::bad_alloc();
+                        }
+                    } catch (...) {
+                        close(m_fd);
+                        throw;
                     }
                 }
 
                 ~MmapFile() {
                     clear();
+                    close(m_fd);
                 }
 
                 void set(const uint64_t id, const TValue value) {
-- 
2.43.0


From 2e42925fc5908125d72f4ca78db8946f42f959e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 42/57] fix: clear() releases the items of the StlMap id store

---
 include/osmium/storage/byid/stl_map.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/osmium/storage/byid/stl_map.hpp b/include/osmium/storage/byid/stl_map.hpp
index 1b43f48..454f6a9 100644
--- a/include/osmium/storage/byid/stl_map.hpp
+++ b/include/osmium/storage/byid/stl_map.hpp
@@ -65,6 +65,7 @@ namespace Osmium {
                 }
 
                 void clear() {
+                    m_items.clear();
                 }
 
             private:
-- 
2.43.0


From 72f0fe3b6d831aead480e2d035893148994b60b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 43/57] fix: the Vector id store returns the last value set for
 an id like the other stores

---
 include/osmium/storage/byid/vector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/osmium/storage/byid/vector.hpp b/include/osmium/storage/byid/vector.hpp
index f28376b..6310900 100644
--- a/include/osmium/storage/byid/vector.hpp
+++ b/include/osmium/storage/byid/vector.hpp
@@ -79,7 +79,12 @@ namespace Osmium {
                 }
 
                 void set(const uint64_t id, const TValue value) {
-                    m_items.push_back(item_t(id, value));
+                    const item_t item(id, value);
+                    if (!m_items.empty() && m_items.back() == item) {
+                        m_items.back() = item; // new value for the same id
+                    } else {
+                        m_items.push_back(item);
+                    }
                 }
 
                 const TValue operator[](const uint64_t id) const {
-- 
2.43.0


From 2fb6566525d3058536df4fcb772dfd1a8b64eb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 44/57] fix: the FixedArray id store does not write beyond its
 end

---
 include/osmium/storage/byid/fixed_array.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/osmium/storage/byid/fixed_array.hpp b/include/osmium/storage/byid/fixed_array.hpp
index bc0470d..a9710cb 100644
--- a/include/osmium/storage/byid/fixed_array.hpp
+++ b/include/osmium/storage/byid/fixed_array.hpp
@@ -23,6 +23,8 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 */
 
 #include <cstdlib>
+#include <new>
+#include <stdexcept>
 
 #include <osmium/storage/byid.hpp>
 
@@ -41,7 +43,8 @@ namespace Osmium {
             * It is mainly provided for cases where the more flexible Mmap storage
             * class does not work.
             *
-            * There is no range checking on accessing the store.
+            * Setting the value for an ID that does not fit into the array throws
+            * std::out_of_range.
             *
             * If you are storing node coordinates, you'll need 8 bytes for each node.
             * At the time of writing this, the largest node ID is over 3 billion,
@@ -76,6 +79,9 @@ namespace Osmium {
                 }
 
                 void set(const uint64_t id, const TValue value) {
+                    if (id >= m_size) {
+                        throw std::out_of_range("id does not fit into FixedArray storage");
+                    }
                     m_items[id] = value;
                 }
 
-- 
2.43.0


From cef668549869765c4f610518fedd42b9571be104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 45/57] fix: looking up an id beyond the end of an id store
 does not access invalid memory

---
 include/osmium/storage/byid.hpp             | 2 +-
 include/osmium/storage/byid/fixed_array.hpp | 3 +++
 include/osmium/storage/byid/mmap_anon.hpp   | 3 +++
 include/osmium/storage/byid/mmap_file.hpp   | 5 +++++
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/osmium/storage/byid.hpp b/include/osmium/storage/byid.hpp
index 0ed3f79..6d14ac2 100644
--- a/include/osmium/storage/byid.hpp
+++ b/include/osmium/storage/byid.hpp
@@ -67,7 +67,7 @@ namespace Osmium {
                 /// Set the field with id to value.
                 virtual void set(const uint64_t id, const TValue value) = 0;
 
-                /// Retrieve value by key. Does not check for overflow or empty fields.
+                /// Retrieve value by key. Does not check for empty fields.
                 virtual const TValue operator[](const uint64_t id) const = 0;
 
                 /**
diff --git a/include/osmium/storage/byid/fixed_array.hpp b/include/osmium/storage/byid/fixed_array.hpp
index a9710cb..0b84ef4 100644
--- a/include/osmium/storage/byid/fixed_array.hpp
+++ b/include/osmium/storage/byid/fixed_array.hpp
@@ -86,6 +86,9 @@ namespace Osmium {
                 }
 
                 const TValue operator[](const uint64_t id) const {
+                    if (id >= m_size) {
+                        return TValue();
+                    }
                     return m_items[id];
                 }
 
diff --git a/include/osmium/storage/byid/mmap_anon.hpp b/include/osmium/storage/byid/mmap_anon.hpp
index d99354e..3f0da7c 100644
--- a/include/osmium/storage/byid/mmap_anon.hpp
+++ b/include/osmium/storage/byid/mmap_anon.hpp
@@ -94,6 +94,9 @@ namespace Osmium {
                 }
 
                 const TValue operator[](const uint64_t id) const {
+                    if (id >= m_size) {
+                        return TValue();
+                    }
                     return m_items[id];
                 }
 
diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index 57d4cf9..04f7e7a 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -97,6 +97,8 @@ namespace Osmium {
                             }
                         }
 
+                        // there might already be items in the file
+                        m_size = get_file_size() / sizeof(TValue);
                         m_items = static_cast<TValue*>(mmap(NULL, sizeof(TValue) * m_size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0));
                         if (m_items == MAP_FAILED) {
                             throw std::bad_alloc();
@@ -135,6 +137,9 @@ namespace Osmium {
                 }
 
                 const TValue operator[](const uint64_t id) const {
+                    if (id >= m_size) {
+                        return TValue();
+                    }
                     return m_items[id];
                 }
 
-- 
2.43.0


From b724a3ce080960b826d50ac2960f6d753159af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 46/57] fix: sizes of id stores do not overflow

---
 include/osmium/storage/byid/fixed_array.hpp | 3 +++
 include/osmium/storage/byid/mmap_anon.hpp   | 5 +++++
 include/osmium/storage/byid/mmap_file.hpp   | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/include/osmium/storage/byid/fixed_array.hpp b/include/osmium/storage/byid/fixed_array.hpp
index 0b84ef4..22c45ab 100644
--- a/include/osmium/storage/byid/fixed_array.hpp
+++ b/include/osmium/storage/byid/fixed_array.hpp
@@ -68,6 +68,9 @@ namespace Osmium {
                 FixedArray(const uint64_t max_id) :
                     Base<TValue>(),
                     m_size(max_id) {
+                    if (max_id > SIZE_MAX / sizeof(TValue)) {
+                        throw std::bad_alloc();
+                    }
                     m_items = static_cast<TValue*>(malloc(sizeof(TValue) * max_id));
                     if (!m_items) {
                         throw std::bad_alloc();
diff --git a/include/osmium/storage/byid/mmap_anon.hpp b/include/osmium/storage/byid/mmap_anon.hpp
index 3f0da7c..b95f711 100644
--- a/include/osmium/storage/byid/mmap_anon.hpp
+++ b/include/osmium/storage/byid/mmap_anon.hpp
@@ -30,6 +30,8 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 #include <sys/stat.h>
 #include <sys/types.h>
 #include <unistd.h>
+#include <new>
+#include <stdint.h>
 
 #include <osmium/storage/byid.hpp>
 
@@ -78,6 +80,9 @@ namespace Osmium {
 
                 void set(const uint64_t id, const TValue value) {
                     if (id >= m_size) {
+                        if (id > SIZE_MAX / sizeof(TValue) - size_increment) { // more than could ever be mapped
+                            throw std::bad_alloc();
+                        }
                         uint64_t new_size = id + size_increment;
 
                         if (!m_items) { // already cleared
diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index 04f7e7a..39dbac7 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -29,6 +29,8 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 #include <sys/stat.h>
 #include <sys/types.h>
 #include <unistd.h>
+#include <new>
+#include <stdint.h>
 #include <string>
 
 #include <osmium/storage/byid.hpp>
@@ -116,6 +118,9 @@ namespace Osmium {
 
                 void set(const uint64_t id, const TValue value) {
                     if (id >= m_size) {
+                        if (id > SIZE_MAX / sizeof(TValue) - size_increment) { // more than could ever be mapped
+                            throw std::bad_alloc();
+                        }
                         uint64_t new_size = id + size_increment;
 
                         // if the file backing this mmap is smaller than needed, increase its size
-- 
2.43.0


From cfa14803cac68ae5b7c3da0da01a1d7080e9a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 47/57] fix: truncating text for very short shapefile fields
 stays inside the buffer

---
 include/osmium/export/shapefile.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index 2f5e6a4..cffc9eb 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -269,9 +269,9 @@ namespace Osmium {
                 if (dest[i] & 128) {
                     if (dest[i] & 64) {
                         dest[i] = '\0';
-                    } else if ((dest[i-1] & 224) == 224) {
+                    } else if (i >= 1 && (dest[i-1] & 224) == 224) {
                         dest[i-1] = '\0';
-                    } else if ((dest[i-2] & 240) == 240) {
+                    } else if (i >= 2 && (dest[i-2] & 240) == 240) {
                         dest[i-2] = '\0';
                     }
                 }
-- 
2.43.0


From d8f69960a43395258b65a2fc70f664cbd57618a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 48/57] fix: refuse shapefile fields without width

---
 include/osmium/export/shapefile.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index cffc9eb..9cf3c71 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -71,8 +71,8 @@ namespace Osmium {
                     m_decimals(decimals) {
                     if (name == "" || name.size() > max_dbf_field_name_length) {
                         throw std::invalid_argument("field name must be between 1 and 11 characters long");
-                    } else if (width > max_dbf_field_length) {
-                        throw std::invalid_argument("field width must not exceed 255 characters");
+                    } else if (width < 1 || width > max_dbf_field_length) {
+                        throw std::invalid_argument("field width must be between 1 and 255 characters");
                     }
                 }
 
-- 
2.43.0


From a04695c82449d08c9f0db247b385f5b4481e2f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 49/57] fix: free shape objects also if they can not be written

---
 include/osmium/export/shapefile.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index 9cf3c71..a3dbf70 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -30,6 +30,7 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 #include <boost/utility.hpp>
 
 #include <osmium/geometry/shplib.hpp>
+#include <osmium/smart_ptr.hpp>
 
 namespace Osmium {
 
@@ -196,6 +197,9 @@ namespace Osmium {
              *                   shapefile.
              */
             void add_geometry(SHPObject* shp_object) {
+                // free the object also if there is an exception
+                const shared_ptr<SHPObject> owner(shp_object, SHPDestroyObject);
+
                 if (!shp_object || shp_object->nSHPType != m_shp_handle->nShapeType) {
                     throw Osmium::Geometry::IllegalGeometry();
                 }
@@ -214,7 +218,6 @@ namespace Osmium {
                 if (m_current_shape == -1) {
                     throw std::runtime_error("error writing to shapefile");
                 }
-                SHPDestroyObject(shp_object);
             }
 
             void add_attribute(const int field, const bool value) const {
-- 
2.43.0


From d7bbad6f556a21f4f25e6a1d8252fc4f3764f27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 50/57] fix: close the parts of a shapefile already open if
 opening it fails

---
 include/osmium/export/shapefile.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index a3dbf70..e024c23 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -302,7 +302,12 @@ namespace Osmium {
                 m_record_length(1),
                 m_shp_bytes(0), 
                 m_dbf_bytes(0) { 
-                open();
+                try {
+                    open();
+                } catch (...) {
+                    close();
+                    throw;
+                }
             }
 
         private:
-- 
2.43.0


From 5da9f8f561bfa0521e37d619e0cce1b33eecc867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 51/57] fix: report failures when a new shapefile is set up

---
 include/osmium/export/shapefile.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index e024c23..ea812d3 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -367,6 +367,9 @@ namespace Osmium {
                 }
                 file << "GEOGCS[\"GCS_WGS_1984\",DATUM[\"D_WGS_1984\",SPHEROID[\"WGS_1984\",6378137,298.257223563]],PRIMEM[\"Greenwich\",0],UNIT[\"Degree\",0.017453292519943295]]" << std::endl;
                 file.close();
+                if (file.fail()) {
+                    throw std::runtime_error("Can't write shapefile: " + filename.str() + ".prj");
+                }
 
                 file.open((filename.str() + ".cpg").c_str());
                 if (file.fail()) {
@@ -374,11 +377,16 @@ namespace Osmium {
                 }
                 file << "UTF-8" << std::endl;
                 file.close();
+                if (file.fail()) {
+                    throw std::runtime_error("Can't write shapefile: " + filename.str() + ".cpg");
+                }
 
                 // If any fields are defined already, add them here. This will do nothing if
                 // called from the constructor.
                 for (std::vector<Field>::const_iterator it = m_fields.begin(); it != m_fields.end(); ++it) {
-                    DBFAddField(m_dbf_handle, it->name().c_str(), it->type(), it->width(), it->decimals());
+                    if (DBFAddField(m_dbf_handle, it->name().c_str(), it->type(), it->width(), it->decimals()) == -1) {
+                        throw std::runtime_error("Failed to add field:" + it->name());
+                    }
                 }
 
                 m_shp_bytes = size_shapefile_header;
-- 
2.43.0


From f4f7026807acf905d78c8009060907703785689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 52/57] fix: include what is used in shapefile.hpp

---
 include/osmium/export/shapefile.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index ea812d3..09fea5b 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -25,6 +25,10 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 #include <fstream>
 #include <sstream>
 #include <cerrno>
+#include <cstring>
+#include <stdexcept>
+#include <string>
+#include <vector>
 #include <stdint.h>
 #include <shapefil.h>
 #include <boost/utility.hpp>
-- 
2.43.0


From 20799528171c1cfd02d23b02f7a21a09830d3af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 53/57] fix: a member that is refused is not added to the
 relation

---
 include/osmium/osm/relation_member_list.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/osmium/osm/relation_member_list.hpp b/include/osmium/osm/relation_member_list.hpp
index df8c2be..914664e 100644
--- a/include/osmium/osm/relation_member_list.hpp
+++ b/include/osmium/osm/relation_member_list.hpp
@@ -80,9 +80,14 @@ namespace Osmium {
                 RelationMember* m = &m_list[m_list.size()-1];
                 /* ...so that we can directly write into the memory and avoid
                 a second copy */
-                m->type(type);
-                m->ref(ref);
-                m->role(role);
+                try {
+                    m->type(type);
+                    m->ref(ref);
+                    m->role(role);
+                } catch (...) {
+                    m_list.pop_back();
+                    throw;
+                }
             }
 
         private:
-- 
2.43.0


From 941aebdb3bad092a8ceb63752b3e9f1d7d60b934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 54/57] fix: change files in PBF did not name the
 HistoricalInformation feature

Objects of change files carry the visible flag and several versions, too, so
a reader has to know that it must understand them.
---
 include/osmium/output/pbf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index cff179f..ff21c63 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -898,7 +898,7 @@ namespace Osmium {
 
                 // when the resulting file will carry history information, add
                 // HistoricalInformation as required feature
-                if (m_file.type() == Osmium::OSMFile::FileType::History()) {
+                if (m_file.has_multiple_object_versions()) {
                     pbf_header_block.add_required_features("HistoricalInformation");
                 }
 
-- 
2.43.0


From c11d956deb477623e22f2d06e58e2d38d7455951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 55/57] fix: user names and roles of 1021 bytes are longer than
 255 UTF-8 characters

---
 include/osmium/osm/object.hpp          | 2 +-
 include/osmium/osm/relation_member.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/osm/object.hpp b/include/osmium/osm/object.hpp
index 512e579..c9d34d5 100644
--- a/include/osmium/osm/object.hpp
+++ b/include/osmium/osm/object.hpp
@@ -185,7 +185,7 @@ namespace Osmium {
              * @exception std::length_error Thrown when the username contains more than max_characters_username (255 UTF-8 characters). When the exception is thrown the username is set to "".
              */
             Object& user(const char* user) {
-                if (strlen(user) > max_length_username) {
+                if (strlen(user) >= max_length_username) {
                     throw std::length_error("user name too long");
                 }
                 m_user = user;
diff --git a/include/osmium/osm/relation_member.hpp b/include/osmium/osm/relation_member.hpp
index 271a619..dd2ff48 100644
--- a/include/osmium/osm/relation_member.hpp
+++ b/include/osmium/osm/relation_member.hpp
@@ -84,7 +84,7 @@ namespace Osmium {
             }
 
             RelationMember& role(const char* role) {
-                if (strlen(role) > max_length_role) {
+                if (strlen(role) >= max_length_role) {
                     throw std::length_error("role too long");
                 }
                 m_role = role;
-- 
2.43.0


From 29d5dded9affacb7a426dbd8a1ef5ccf17abf6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:04 +0000
Subject: [PATCH 56/57] fix: SparseTable shrinks or writes through a null
 pointer for ids it cannot store

---
 include/osmium/storage/byid/sparse_table.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/osmium/storage/byid/sparse_table.hpp b/include/osmium/storage/byid/sparse_table.hpp
index 308b0cf..6477314 100644
--- a/include/osmium/storage/byid/sparse_table.hpp
+++ b/include/osmium/storage/byid/sparse_table.hpp
@@ -22,6 +22,9 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 
 */
 
+#include <memory>
+#include <new>
+
 #include <google/sparsetable>
 
 #include <osmium/storage/byid.hpp>
@@ -59,11 +62,14 @@ namespace Osmium {
                     Base<TValue>(),
                     m_grow_size(grow_size),
                     m_items(grow_size) {
-                    assert(sizeof(typename google::sparsetable<TValue>::size_type) >= 8 && "google::sparsetable needs 64bit machine");
+                    assert(sizeof(m_items.size()) >= 8 && "google::sparsetable needs 64bit machine");
                 }
 
                 void set(const uint64_t id, const TValue value) {
                     if (id >= m_items.size()) {
+                        if (id > m_items.max_size() - m_grow_size) { // more than could ever be stored
+                            throw std::bad_alloc();
+                        }
                         m_items.resize(id + m_grow_size);
                     }
                     m_items[id] = value;
@@ -94,7 +100,8 @@ namespace Osmium {
 
                 uint64_t m_grow_size;
 
-                google::sparsetable<TValue> m_items;
+                // not the default allocator of sparsetable: that one does not report when there is not enough memory
+                google::sparsetable<TValue, google::DEFAULT_SPARSEGROUP_SIZE, std::allocator<TValue> > m_items;
 
             }; // class SparseTable
 
-- 
2.43.0


From e9662ec2da5a0c559115471977ea8470968ebeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:06 +0000
Subject: [PATCH 57/57] fix: a sparse table with a grow size of zero wrote
 outside its items

---
 include/osmium/storage/byid/sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/storage/byid/sparse_table.hpp b/include/osmium/storage/byid/sparse_table.hpp
index 6477314..89795f5 100644
--- a/include/osmium/storage/byid/sparse_table.hpp
+++ b/include/osmium/storage/byid/sparse_table.hpp
@@ -60,7 +60,7 @@ namespace Osmium {
                 */
                 SparseTable(const uint64_t grow_size=10000) :
                     Base<TValue>(),
-                    m_grow_size(grow_size),
+                    m_grow_size(grow_size > 0 ? grow_size : 1),
                     m_items(grow_size) {
                     assert(sizeof(m_items.size()) >= 8 && "google::sparsetable needs 64bit machine");
                 }
-- 
2.43.0

