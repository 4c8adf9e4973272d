"""Property texts; gen.py writes properties.jsonl and MANIFEST.json from this and props.py."""
S = {}


def prop(id, title, statement, over, text, why, files, mech, na=None, state=(), observe=()):
    S[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                              mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None))
    S[id]["_na"] = na


prop("P01", "base64 decoding is exact and stays inside its buffers",
     "Decoding base64 text whose length is a multiple of four with the declared padding yields exactly the RFC 4648 bytes, for the scalar, SSE4 and AVX2 decoders alike, so that every implementation gives the same result. No decoder reads outside the text or writes outside the output buffer of the size computed for it.",
     ["inputs"], "every text length up to 2^46 and every byte content (each output byte for every position), every padding, each CPU path",
     "Tests decode two fixed payloads through each decoder; vector-loop tails, unusual lengths and non-alphabet bytes are never compared.",
     ["src/base64.cpp", "include/fastgltf/base64.hpp"],
     [("fallback_decode_inplace / sse4_decode_inplace / avx2_decode_inplace", "src/base64.cpp"), ("getPadding, getOutputSize", "include/fastgltf/base64.hpp")])
prop("P02", "CRC-32C and the integer bit utilities are exact",
     "The table-driven and SSE4.2 CRC functions both return the CRC-32C (Castagnoli, reflected, initial value 0, no final xor) of the bytes they are given, so keyword dispatch does not depend on the CPU. The alignment, absolute value, leading-zero, population-count and little-endian header helpers return the mathematically defined value for every argument in their domain.",
     ["inputs", "configurations"], "every byte string of any length up to 2^46, every integer argument of each width, each CPU path",
     "Tests compare a handful of strings and a few integers; tails of 1-3 bytes after 4-byte strides and word-size extremes are not enumerable.",
     ["include/fastgltf/util.hpp", "src/fastgltf.cpp"],
     [("crc32c, sse_crc32c", "src/fastgltf.cpp, include/fastgltf/util.hpp"), ("clz, popcount, uabs, alignUp, alignDown, read/writeUint32LE", "include/fastgltf/util.hpp, src/fastgltf.cpp")])
prop("P03", "accessor components are decoded, converted and normalised per glTF",
     "Reading one component of any glTF component type into any destination type yields the little-endian value stored at that position; when the accessor is normalised and the destination is floating point it yields c/max for unsigned and max(c/max, -1) for signed integers, and conversion from a normalised float rounds back as the specification says. The component-type and element-type size, count and GL-code tables agree with the glTF specification and are mutually inverse.",
     ["inputs"], "every stored bit pattern, every component index, all 8 component types, each destination type, normalised and not",
     "Tests read a few accessors of the sample models; neither all source/destination pairs nor extreme bit patterns are covered.",
     ["include/fastgltf/tools.hpp", "include/fastgltf/types.hpp"],
     [("deserializeComponent, convertComponent, getAccessorComponentAt", "include/fastgltf/tools.hpp"), ("getNumComponents, getComponentByteSize, getComponentBitSize, getElementByteSize, getGLComponentType, getComponentType, getAccessorType", "include/fastgltf/types.hpp")])
prop("P04", "accessor elements keep component order and matrix layout",
     "Reading element i of an accessor gives an element whose component k is the k-th stored component, in order, for scalars, vectors, quaternions and matrices. Matrix columns whose byte size is not a multiple of four are padded to four-byte boundaries in the source and the padding never leaks into the element.",
     ["inputs"], "every stored byte content and index, all component types, every element kind",
     "Tests cover float and a few u16 accessors; padded matrix layouts (mat2/mat3 of bytes or shorts) have a single case.",
     ["include/fastgltf/tools.hpp"],
     [("getAccessorElementAt, ElementTraits", "include/fastgltf/tools.hpp"), ("needsPadding / element byte size", "include/fastgltf/types.hpp")])
prop("P05", "vector, quaternion and matrix arithmetic satisfies its algebra",
     "Every arithmetic operation of the math types equals its textbook definition: component-wise vector operations, dot, cross and length, quaternion product and the rotation it denotes, matrix product, transpose, determinant and inverse, constructors and element access. In particular inverse(M)*M is the identity for every invertible M (and the affine inverse for every invertible affine M), and a unit quaternion's matrix rotates vectors exactly as the quaternion does.",
     ["inputs"], "all component values (over the reals), all dimensions instantiated by the library",
     "Tests compare a few literals to glm; identities over all values are out of reach of sampling.",
     ["include/fastgltf/math.hpp"], [("vec, quat, mat and free functions", "include/fastgltf/math.hpp")],
     na="not built yet")
prop("P06", "node transforms compose and decompose consistently",
     "The local matrix of a node with translation, rotation and scale is exactly T*R*S, and with a matrix it is that matrix. Decomposing a matrix built from a translation, unit quaternion and positive scale returns that translation and scale and a unit quaternion denoting the same rotation; translate, rotate and scale multiply on the right by the corresponding elementary matrix.",
     ["inputs"], "all translations, unit rotations and positive scales (over the reals)",
     "Tests decompose one or two matrices; the four branches of the quaternion extraction each hold on a region of rotations.",
     ["include/fastgltf/math.hpp", "include/fastgltf/tools.hpp"], [("translate, rotate, scale, decomposeTransformMatrix", "include/fastgltf/math.hpp"), ("getTransformMatrix, getLocalTransformMatrix", "include/fastgltf/tools.hpp")],
     na="not built yet")
prop("P07", "sparse accessors substitute exactly the listed elements",
     "For a sparse accessor with strictly increasing indices, every reader returns the substituting value for an element whose index is listed and the base element (or zero when there is no base buffer view) for every other element. Index lookups never read outside the index array.",
     ["inputs"], "every sparse count, index array content, element index and index component type",
     "Tests use one sparse sample model with three substitutions.",
     ["include/fastgltf/tools.hpp"], [("findSparseIndex, getAccessorElement, IterableAccessor, iterateAccessor, copyFromAccessor", "include/fastgltf/tools.hpp")],
     na="not built yet")
prop("P08", "every way of reading an accessor yields the same elements, in bounds",
     "Random access, range iteration, callback iteration and bulk copy of one accessor all yield the same sequence of exactly count elements, element i being decoded at byte offset accessor + view offset + i*stride. They read only bytes of the accessor's buffer view and write only the destination elements, at the requested stride.",
     ["inputs"], "every accessor count, offset, stride, component type, destination element type and buffer content for which the accessor fits its buffer view",
     "Tests read a few models through one or two of the functions; the product of strides, types and paths (memcpy fast path, conversion path) is not sampled.",
     ["include/fastgltf/tools.hpp"], [("getAccessorElement, IterableAccessor/AccessorIterator, iterateAccessor, iterateAccessorWithIndex, copyFromAccessor, copyComponentsFromAccessor", "include/fastgltf/tools.hpp")],
     na="not built yet")
prop("P09", "accessor bounds are stored and updated exactly",
     "A bounds array keeps its type, length and every stored value across construction, copy, move and element access. Updating the bounds of an accessor to include an element makes min and max the component-wise minimum and maximum and changes nothing else.",
     ["inputs", "histories"], "every element value, every component type, every sequence of updates",
     "Tests include a handful of values.",
     ["include/fastgltf/types.hpp", "include/fastgltf/util.hpp", "src/fastgltf.cpp"], [("AccessorBoundsArray", "include/fastgltf/types.hpp"), ("Accessor::updateBoundsToInclude", "include/fastgltf/types.hpp")],
     na="not built yet")
prop("P10", "small and fixed vectors behave as sequences",
     "After any sequence of operations the small-buffer vector and the fixed-size vector hold exactly the elements a plain sequence would, whether stored inline or on the heap. They never read or write outside their storage, leak it, or free it twice.",
     ["inputs", "histories"], "every size, capacity and content reachable by the operations, inline and heap states",
     "Tests exercise a few short operation sequences on one inline capacity.",
     ["include/fastgltf/types.hpp"], [("SmallVector", "include/fastgltf/types.hpp"), ("StaticVector", "include/fastgltf/types.hpp")],
     na="not built yet")
prop("P11", "compact optionals behave as optionals",
     "The sentinel-based optional types are observationally an optional: after construction, assignment, reset, swap, copy or move they hold exactly the value assigned, or no value, and value access, value_or and comparisons agree with that state.",
     ["inputs", "histories"], "every representable value other than the sentinel and every operation from either state",
     "Tests check two or three values of two instantiations.",
     ["include/fastgltf/types.hpp"], [("OptionalWithFlagValue, OptionalFlagValue", "include/fastgltf/types.hpp")],
     na="not built yet")
prop("P12", "reading a GLB respects the container and never leaves the data",
     "A GLB is accepted only if its magic, version, total length and JSON chunk header are consistent with the data, and then the JSON document is exactly the JSON chunk's bytes and the binary buffer exactly the BIN chunk's bytes. Whatever the bytes, nothing outside the supplied data is read, and inconsistent containers are reported as invalid.",
     ["inputs"], "every byte content and length of the container, with and without a BIN chunk, with and without a custom buffer callback",
     "Tests parse a few well-formed GLB files.",
     ["src/fastgltf.cpp"], [("Parser::loadGltfBinary, readUint32LE, determineGltfFileType", "src/fastgltf.cpp")],
     na="not built yet")
prop("P13", "written GLB containers are well-formed and length-exact",
     "The exporter's GLB has a 12-byte header whose length is the exact file size, a JSON chunk padded with spaces to four bytes and a BIN chunk padded with zeros to four bytes, each with exact lengths. The bytes of the chunks are the JSON text and the embedded buffer.",
     ["inputs"], "every JSON length and buffer size below the 4 GiB container limit",
     "Tests write one asset and read it back.",
     ["src/fastgltf.cpp"], [("Exporter::writeGltfBinary", "src/fastgltf.cpp")],
     na="not built yet")
prop("P14", "file type detection is exact",
     "A source is classified as GLB exactly when it begins with the GLB magic, as glTF exactly when its first significant character opens a JSON object, and as invalid otherwise, without reading past its end.",
     ["inputs"], "every content and length",
     "Tests classify two files.",
     ["src/fastgltf.cpp"], [("determineGltfFileType", "src/fastgltf.cpp")],
     na="not built yet")
prop("P15", "data sources return exactly the bytes they hold",
     "Memory buffers, file streams, memory-mapped files and span sources report the size of their content, and reading, seeking and resetting deliver exactly the content's bytes in order. Copied content is padded with zeros for the JSON parser, and a short read is never reported as data.",
     ["inputs"], "every content length, read size and offset",
     "Tests compare one or two files.",
     ["src/io.cpp", "include/fastgltf/core.hpp"], [("GltfDataBuffer, GltfFileStream, MappedGltfFile", "src/io.cpp")],
     na="not built yet")
prop("P16", "strings survive export and pretty-printing",
     "Every string the exporter writes into JSON is escaped so that parsing the JSON gives back the original string. Pretty-printing changes only whitespace outside string literals.",
     ["inputs"], "every string and every JSON text",
     "Tests escape two strings and pretty-print one document.",
     ["src/fastgltf.cpp", "include/fastgltf/util.hpp"], [("escapeString, prettyPrintJson", "src/fastgltf.cpp")],
     na="not built yet")
prop("P17", "URIs are parsed, decoded and copied faithfully",
     "Percent-decoding replaces exactly each % followed by two hexadecimal digits with that byte and leaves everything else unchanged, whatever the text. A parsed URI's scheme, authority, path, query and fragment are the RFC 3986 components of the text, copying or moving a URI preserves all of them, and no part ever refers to storage the URI does not own.",
     ["inputs", "histories"], "every text; every sequence of copies and moves",
     "Tests parse about twenty literal URIs.",
     ["src/io.cpp", "include/fastgltf/types.hpp", "src/fastgltf.cpp"], [("URI, URIView::parse, decodePercents", "src/io.cpp, src/fastgltf.cpp")],
     na="not built yet")
prop("P18", "embedded data URIs load the declared bytes",
     "A base64 data URI loads as exactly the decoded bytes with the declared media type; a malformed one is reported as an error and never read out of bounds.",
     ["inputs"], "every URI text",
     "Tests load one or two embedded buffers.",
     ["src/fastgltf.cpp"], [("Parser::decodeDataUri, getMimeTypeFromString", "src/fastgltf.cpp")],
     na="not built yet")
prop("P19", "a validated asset has only in-range references and legal values",
     "If validation reports success, every index stored in the asset refers to an existing object and the constraints the glTF specification puts on accessors, buffer views, meshes, nodes, skins, animations, textures and materials that validation claims to check hold. An asset satisfying all of them is not rejected.",
     ["inputs"], "every asset: any number of objects, any index and field values",
     "Tests validate sample models that are all valid, plus a few hand-broken ones.",
     ["src/fastgltf.cpp"], [("validate", "src/fastgltf.cpp")],
     na="not built yet")
prop("P20", "scene traversal visits each node once with its global transform",
     "Iterating a scene's nodes calls the callback once for every node reachable from the scene's roots, in pre-order, with the product of the ancestors' local transforms and its own.",
     ["inputs"], "every scene graph that is a forest",
     "Tests traverse one or two sample scenes.",
     ["include/fastgltf/tools.hpp"], [("iterateSceneNodes", "include/fastgltf/tools.hpp")],
     na="not built yet")
prop("P21", "extensions are recognised by exact name and gate their fields",
     "Each extension name maps to exactly one flag and back, so that stringification and required-extension checking are inverse. An asset requiring an extension that is unknown is rejected as unknown, and one requiring a known but disabled extension as missing.",
     ["inputs"], "every combination of enabled flags and required/used lists",
     "Tests check a couple of extensions.",
     ["src/fastgltf.cpp", "include/fastgltf/core.hpp"], [("extensionStrings, stringifyExtension, stringifyExtensionBits, parse extensionsRequired", "src/fastgltf.cpp, include/fastgltf/core.hpp")],
     na="not built yet")
prop("P22", "parsing maps every JSON field to its asset field with spec defaults",
     "For a valid document, every field of the parsed asset equals the JSON value, or the glTF default when absent, and nothing else; an ill-typed or missing mandatory field makes parsing fail with the matching error.",
     ["inputs"], "every glTF document",
     "Tests parse sample models and compare selected fields.",
     ["src/fastgltf.cpp"], [("Parser::parseXxx", "src/fastgltf.cpp")],
     na="The parser's post-conditions are over simdjson's DOM (a third-party library with tape-encoded documents, std::string, pmr containers and unordered_map); no C++ deductive verifier is installed and bringing simdjson's accessors under contract is beyond llvc, so this would be testing, a different family.")
prop("P23", "exporting then parsing gives back the same asset",
     "Writing an asset as JSON or GLB and parsing the result gives an asset equal to the original in every exported field, whatever combination of optional fields, extensions and list lengths it has.",
     ["inputs"], "every asset",
     "Tests round-trip a few small assets.",
     ["src/fastgltf.cpp"], [("Exporter::writeXxx, Parser::parseXxx", "src/fastgltf.cpp")],
     na="A whole-program property over two 3000-line string-building and DOM-walking passes; needs contracts on std::string formatting and simdjson, which are out of the verifier's reach.")
prop("P24", "generated indices describe the same primitives",
     "Generating indices for a non-indexed primitive yields exactly one index per vertex in draw order, so that the indexed primitive draws the same primitives as before.",
     ["inputs"], "every primitive mode and vertex count",
     "Tests load one model with the option on.",
     ["src/fastgltf.cpp"], [("Parser::generateMeshIndices, writeIndices", "src/fastgltf.cpp")],
     na="not built yet")
prop("P25", "category-restricted parsing loads what was asked for and its dependencies",
     "Parsing a subset of categories loads every requested category together with all categories it refers to and gives those parts the same content as a full parse.",
     ["inputs", "configurations"], "all 2^16 category sets",
     "Tests parse two category sets.",
     ["src/fastgltf.cpp"], [("Parser::fillCategories, Parser::parse", "src/fastgltf.cpp")],
     na="not built yet")
prop("P26", "separate parsers may run in separate threads",
     "Parsing different documents concurrently with one parser object per thread, or reading one asset from several threads, is free of data races and gives the same results as running alone.",
     ["schedules"], "every interleaving of parser calls in distinct threads",
     "No test runs two threads.",
     ["src/fastgltf.cpp"], [("function-local static dispatch initialisation, global tables", "src/fastgltf.cpp")],
     na="Concurrency: the contract verifier used here (and the family, see /root/guide.md) has no thread semantics; deciding it needs schedule exploration, a different family.")
prop("P27", "an interrupted or failed file export never passes for a complete one",
     "When a write fails or stops part-way, the file exporter reports an error, and an asset that is reported as written has all its files present and complete.",
     ["crash_points", "fault_sequences"], "every failing file operation",
     "Tests only export to a writable directory.",
     ["src/fastgltf.cpp"], [("FileExporter::writeGltfJson, writeGltfBinary, writeFile", "src/fastgltf.cpp")],
     na="A fault-sequence property over std::ofstream and std::filesystem; contracts for the standard library's stream state would be assumed rather than proved, leaving nothing of the real code's guarantee to the verifier. Needs fault injection, a different family.")
