import json
L="rpcl2/src/lib.rs"; I="rpcl2/src/iterator.rs"; P="rpcl2/src/points.rs"; R="rpcl2/src/ros.rs"; D="rpcl2-derive/src/lib.rs"
props=[]
def p(id,title,stmt,over,qt,why,files,mech,obs=None,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if obs: d["anchors"]["observe_at"]=obs
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    props.append(d)

p("C01","Iterator round trip preserves every point",
 "Writing any sequence of points into a message with try_from_iter and reading that message back as the same point type with try_into_iter yields exactly the same points: same number, same order, every field bit for bit (NaN payloads included), also for the empty cloud. This holds for every predefined point type and for custom and derived point types, with and without the rayon feature.",
 ["inputs","programs","configurations"],"every field value, every cloud length, every point type, both feature configurations",
 "The e2e tests convert 2-4 fixed points per type; no NaNs, no negative zero, no length 0/1 read back, no large clouds, never without rayon.",
 [L,I,P],[("per-point encode loop",L+" PointCloud2Msg::try_from_iter"),("field offset table and point decoding",I+" PointCloudIterator::try_from, ByteBufferView::point_at")],["PointCloud2Msg::try_from_iter","PointCloud2Msg::try_into_iter"])
p("C02","Vec conversions agree with iterator conversions on round trips",
 "A cloud written with try_from_vec or try_from_iter and read back as the same point type with try_into_vec or try_into_iter, in any of the four combinations, yields exactly the original points in order, every field bit for bit. No combination fails, panics or touches memory outside the buffers, whatever the padding of the point type and also for the empty cloud.",
 ["inputs","programs"],"every field value, cloud length and point type whose declared layout matches or does not match its packed size, all four write/read combinations",
 "Tests cover vec-write/iter-read for one type and never read an own message with try_into_vec; raw copies are only right for the sampled sizes.",
 [L,I],[("raw copy in / out",L+" try_from_vec, try_into_vec"),("layout comparison",L+" PointCloud2Msg::byte_similarity")])
p("C03","Written messages describe their own bytes",
 "Every message produced by try_from_iter or try_from_vec from n points has width n, height 1 (0 when n is 0), data of exactly n*point_step bytes, row_step n*point_step, count 1 per field, and the point type's field names in order with the right ROS datatype code, at offsets where fields neither overlap nor leave the point. Decoding the raw bytes at those offsets in the declared byte order, by the ROS message definition alone, gives back each written value.",
 ["inputs","programs"],"every field value, cloud length and point type",
 "Tests only read messages back through the same library, so a self-consistent but wrong description (offset, datatype, row_step, height) passes.",
 [L],[("field table construction",L+" try_from_iter / try_from_vec"),("message assembly",L+" PointCloud2MsgBuilder::build")],["fields of PointCloud2Msg"])
p("C04","Fields are read by name from where the message says they are",
 "When a message describes all fields of the requested point type (each name once, count 1, with the type's datatype), each decoded field equals the value stored at the offset the message gives for that name, for every point of every row. Order of the fields in the message or in memory, extra fields, gaps, and position of the fields inside the point do not matter.",
 ["inputs","configurations"],"every arrangement of field offsets and orders, extra fields, gaps, point_step, width and height, and every byte content",
 "Tests only read messages the library itself wrote: fields always in declaration order and ascending offset, one row.",
 [I,L],[("name lookup and offset table",I+" PointCloudIterator::try_from"),("point decoding",I+" ByteBufferView::point_at")],["PointCloud2Msg::try_into_iter","PointCloud2Msg::try_into_vec"])
p("C05","Both byte orders are decoded correctly",
 "Reading a message flagged big-endian yields, field by field, the same values as reading the little-endian message whose fields hold the same values, through every reading function and for every field datatype. No byte outside a field influences its value.",
 ["inputs"],"every field value of every datatype, both byte orders, both readers",
 "No test ever reads a big-endian message.",
 [L,I],[("endian dispatch",L+" PointData::get, FromBytes impls"),("vec fallback on foreign endianness",L+" try_into_vec")])
p("C06","try_into_vec returns what try_into_iter yields",
 "For every message and point type, try_into_vec succeeds exactly when try_into_iter succeeds, and then returns the same points in the same order with the same field values. Which internal copy strategy is taken (block copy, per-point copy, field-wise conversion) is not observable.",
 ["inputs"],"every message description (names, offsets, datatypes, counts, point_step, width, height, byte order, data) within the size bound",
 "Only one test (subtype_iterator_fallback) compares the two on one fixed 3-point cloud.",
 [L,I],[("strategy selection",L+" PointCloud2Msg::byte_similarity, try_into_vec")])
p("C07","Iterating an arbitrary message is memory safe and never panics",
 "For any message content whatever (inconsistent widths, heights, steps, offsets, datatypes, counts, duplicate or missing names, short or long data), try_into_iter either returns an error or an iterator that can be exhausted, from either end, without panicking and without reading a byte outside the message data, in debug and release builds.",
 ["inputs","configurations"],"every message value within the size bound, including extreme 32-bit numbers; debug and release arithmetic",
 "Tests feed only well-formed messages; messages come from the network and all numbers in them are untrusted.",
 [I,L],[("validation before construction",I+" PointCloudIterator::try_from"),("unchecked copy",L+" PointData::from_buffer")])
p("C08","try_into_vec on an arbitrary message is memory safe and never panics",
 "For any message content whatever, try_into_vec either returns an error or a vector of fully initialised points, without panicking and without reading or writing outside the message data and the result vector, in debug and release builds.",
 ["inputs"],"every message value within the size bound, including extreme 32-bit numbers; debug and release arithmetic",
 "No test feeds a malformed message to the raw-copy path, where a wrong width, height or step means heap corruption.",
 [L],[("raw copies",L+" try_into_vec"),("layout comparison",L+" byte_similarity")])
p("C09","Messages that cannot be read are rejected with the right error",
 "Reading reports FieldsNotFound with exactly the missing names, in the point type's order, when requested names are absent; UnsupportedFieldType when a requested field has a datatype code outside the ROS definition; and DataLengthMismatch when data length differs from point_step*width*height or a requested field does not fit inside point_step. If several of these apply, missing names come first and otherwise any error that applies is right. A message with none of these defects, whose requested fields have the requested datatypes and count 1 and whose requested names occur once, is accepted.",
 ["inputs"],"every message value within the size bound",
 "No test checks any error of the reading direction.",
 [I,L],[("validation",I+" PointCloudIterator::try_from"),("datatype decoding",L+" TryFrom<u8> for FieldDatatype")])
p("C10","Point iterators obey the iterator contract",
 "For any interleaving of next and next_back, a point iterator yields each point of the cloud exactly once, front calls in ascending and back calls in descending order, and returns None forever after all points were handed out. Before every call, size_hint and len report exactly the number of points still to come.",
 ["histories","configurations"],"every sequence of next / next_back / len / size_hint calls up to the stated length on clouds of every size within the bound",
 "One test does five fixed calls on a 3-point cloud; size_hint and len are never checked after a call.",
 [I],[("cursor arithmetic",I+" Iterator, DoubleEndedIterator, ExactSizeIterator impls")],state=[("iteration / iteration_back","front and back cursor",I+" PointCloudIterator")])
p("C11","Splitting an iterator partitions the remaining points",
 "Splitting a point iterator at any index between 0 and the number of remaining points, at any moment and repeatedly, gives a left part with exactly that many of the next points and a right part with exactly the rest, in order. An index beyond the remaining points panics and never reads out of bounds.",
 ["histories","inputs"],"every split index, every number of points consumed before from either end, nested splits",
 "test_split_at splits one 3-point iterator at 1.",
 [I],[("view splitting",I+" ByteBufferView::split_at, PointCloudIterator::split_at")])
p("C12","Parallel reading equals sequential reading on every schedule",
 "try_into_par_iter delivers the same points as try_into_iter: collecting keeps order and length, and indexed operations (rev, skip, take, enumerate) see each point at its position, whatever the number of worker threads and however the work is split and scheduled.",
 ["schedules","inputs"],"every number of threads in bound, every stealing pattern and order of the fork-join tree",
 "Two tests run rayon once on 3-4 points, where no stealing happens and few splits occur.",
 [I],[("rayon bridge",I+" ParallelIterator / IndexedParallelIterator / Producer impls")])
p("C13","Parallel writing equals sequential writing on every schedule",
 "try_from_par_iter produces the same message (description and field bytes, points in order) as try_from_vec from the same points, whatever the number of worker threads and however the work is split and scheduled.",
 ["schedules","inputs"],"every number of threads in bound, every stealing pattern and order of the fork-join tree",
 "One test runs it once on 4 points.",
 [L],[("collect then copy",L+" PointCloud2Msg::try_from_par_iter")])
p("C14","Single values survive encoding in a PointData",
 "For every supported field type and value, a PointData built from the value returns bit for bit the same value, and the buffer encoding is the little-endian byte sequence of the value followed by zeros. Decoding a buffer as big or little endian uses exactly the leading bytes of the type's size in that order.",
 ["inputs"],"every value of every supported type (all 2^64 for f64), every buffer content",
 "Only a doc test with 1.0.",
 [L],[("codec",L+" PointData, PointDataBuffer, FromBytes impls")])
p("C15","The datatype table is the ROS one, consistently",
 "Datatype codes 1 to 8 and only those are accepted, meaning i8, u8, i16, u16, i32, u32, f32, f64; code, textual name, byte size and Rust type of a datatype agree everywhere they are used, with RGB encoded as f32. Unknown codes and unknown names are errors.",
 ["inputs"],"all 256 codes, all names up to the length bound, all Rust field types",
 "Tests never look at a datatype code; symmetric mistakes cancel in a round trip.",
 [L],[("tables",L+" FieldDatatype impls, GetFieldDatatype impls")])
p("C16","RGB packs and unpacks colors losslessly",
 "RGB built from any r, g, b returns these channels and has packed value 0x00RRGGBB; packing to f32, u32 bits or message bytes and back keeps all 32 bits; setting one channel changes only that channel; equality is equality of the three channels.",
 ["inputs"],"all 2^32 packed values and all channel values",
 "A few gray colors are used in e2e tests, which cannot tell channels apart.",
 [P,L],[("union access",P+" RGB impls")])
p("C17","The message builder accepts exactly consistent descriptions",
 "Building a message fails with FieldsNotFound without fields, UnsupportedFieldCount if any count is not 1, UnsupportedFieldType for an unknown datatype, InvalidFieldFormat if point_step is smaller than the sum of the field sizes, and DataLengthMismatch if the data length is not a multiple of point_step; with several defects any error that applies is right; otherwise it succeeds and carries every given value over unchanged, with height 1, or 0 for width 0. It never panics.",
 ["inputs"],"every builder content within the bound: field counts, datatypes, steps, widths, flags and data lengths (also beyond 4 GiB)",
 "Tests never use the builder directly and never see one of its errors.",
 [L],[("build",L+" PointCloud2MsgBuilder::build, CloudDimensionsBuilder::build")])
p("C18","ROS 2 message conversion is lossless",
 "Converting a message to the ROS 2 (jazzy) message type and back keeps header stamp and frame, dimensions, fields, byte order, steps, data and density; converting a ROS 2 message to the library type and back is the identity. The point buffer is moved, not copied.",
 ["inputs"],"every message value within the size bound, in both directions",
 "One test converts one 3-point cloud and compares only the points.",
 [R],[("From impls",R)])
p("C19","Derived point types describe their real memory layout",
 "For a struct with the derive macro, the described fields are the struct's fields in declaration order with their names (or rename attribute, also next to other attributes such as doc comments), types and sizes; for repr(C) structs the described offsets are the compiler's and the described size is the struct size. Conversions of derived points without repr(C) are also correct.",
 ["programs","inputs"],"struct definitions of a representative family (all field types, paddings, renames, attributes, with and without repr(C)), all field values",
 "One derive test compares the debug string of one struct.",
 [D,L],[("layout generation",D+" layout_of_type, struct_field_rename_array"),("consumption",L+" try_from_vec, try_into_vec")])
p("C20","Predefined points are laid out as they claim",
 "For every predefined point type the declared layout (names, datatypes, sizes, padding) is exactly the compiled memory layout of the struct, so that raw copies and field-wise conversion of any value give the same fields. Constructors and accessors put and find each value in the field of that name.",
 ["inputs","programs"],"all eight predefined types, all field values",
 "Round-trip tests cannot see two swapped fields or a wrong padding that both directions share.",
 [P],[("layout tables and From impls",P)])
p("C21","nalgebra conversions keep coordinates",
 "The nalgebra getters of every predefined point return its x, y, z in that order, f32 bit for bit and f64 as the exact widening; converting to a nalgebra point and back to PointXYZ gives the same coordinates, and converting from f64 rounds to nearest f32.",
 ["inputs"],"all coordinate values",
 "No test touches the nalgebra functions.",
 [P],[("nalgebra From impls and getters",P)])
p("C22","Serialization keeps the whole message",
 "Serializing a message, a point or an RGB value with serde and deserializing it gives back every field unchanged, for every serde data format that preserves the serde data model.",
 ["inputs"],"all message and point values within the size bound",
 "No test uses serde.",
 [L,P,R],[("serde derives and RGB impls",L+", "+P+", "+R)])
p("C23","Clouds beyond the 32-bit message limits are refused",
 "If the number of points or the byte size of a row does not fit the 32-bit numbers of the message, writing returns NumberConversion; a message is never produced with truncated or wrapped width, row_step or data length, in debug or release builds.",
 ["inputs"],"every cloud length and point size, including results beyond 4 GiB",
 "Tests cannot allocate such clouds.",
 [L],[("size computation",L+" try_from_iter, try_from_vec, PointCloud2MsgBuilder::build")])
p("C24","ROS 1 (rosrust) and r2r message conversion is lossless",
 "Converting a message to the message type of rosrust_msg (ROS 1) or r2r (ROS 2) and back keeps the stamp (both 32-bit numbers, also for ROS 1 seconds beyond 2^31), frame, dimensions, fields, byte order, steps, data and density, and for ROS 1 the sequence number; converting such a message to the library type and back is the identity. The point buffer is moved, not copied.",
 ["inputs"],"every message value within the size bound, in both directions",
 "These features are not even compiled by the tests here, since the message types are generated from an installed ROS.",
 [R],[("From impls",R)])
p("C25","A cloud can be read as any point type whose fields it has",
 "A cloud written from points of one type and read as another point type, from and into iterators or vectors, yields the same number of points in order, where each field of the requested type has, bit for bit, the value of the field with the same name (and the same datatype) in the written type, wherever it is in either type. If the written type lacks requested fields, reading reports FieldsNotFound with exactly those names, in the requested type's order.",
 ["inputs","programs","configurations"],"every ordered pair of 24 predefined and custom point types, every field value, both writers and both readers",
 "One test reads one fixed xyzi cloud as xyz; other pairs, where fields move or overlap other padding, are never read.",
 [L,I],[("name lookup",I+" PointCloudIterator::try_from"),("layout comparison and copies",L+" byte_similarity, try_into_vec")])
p("C26","Error texts name what failed",
 "The text (Display) of every MsgConversionError is not empty, differs between the kinds of errors, contains every field name that was not found (for FieldsNotFound) and, with the std feature, the datatype that was not understood (for UnsupportedFieldType), also when the error comes from parsing a datatype name or reading a message. No error claims another error as its source.",
 ["inputs","configurations"],"all names and datatype names of bounded length made of printable ASCII characters that need no escaping, every kind of error, with and without std",
 "No test formats an error; texts with several names or unusual characters are never looked at.",
 [L],[("error texts",L+" impl Display for MsgConversionError"),("datatype names",L+" FromStr for FieldDatatype")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in props))
