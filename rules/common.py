"""Names shared by the rules: the existing functions of the object model that are kept as calls (all other library code,
including helpers that do not exist yet, is inlined into the analysed function)."""

OBJ = "id|version|changeset|uid|user_is_anonymous|timestamp|endtime|timestamp_as_string|endtime_as_string|user|visible|tags|Object|~Object"
KEEP_OSM = [r"^Osmium::OSM::(Object::(%s)|Node::(Node|~Node|position|lon|lat)|Way::(Way|~Way|add_node|nodes|get_node_id)|"
            r"Relation::(Relation|~Relation|add_member|members)|TagList::(TagList|~TagList|add|begin|end|size|empty)|WayNodeList::(WayNodeList|~WayNodeList|add|begin|end)|"
            r"RelationMemberList::(RelationMemberList|~RelationMemberList|add_member|begin|end|size)|Position::(Position|lon|lat|x|y|defined)|"
            r"Meta::\w+|Meta::~Meta|Bounds::\w+|Bounds::~Bounds|Tag::(key|value|Tag|~Tag)|WayNode::(ref|lon|lat|position|WayNode)|"
            r"RelationMember::(type|ref|role|type_name|RelationMember|~RelationMember))\(" % OBJ]
