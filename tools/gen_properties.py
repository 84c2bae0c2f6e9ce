#!/usr/bin/env python3
"""Source of truth for properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Every value written to a byte stream is read back bit for bit",
  "Every fixed-size value (8/16/32-bit integer, float, 2/3/4-vector, 3x3 and 4x4 matrix, raw byte block) written to any kind of memory sink is stored little-endian at the current position and is returned bit-identically by the matching read. Each read and write moves the position by exactly the encoded size, and bytes outside the written range keep their value.",
  ["inputs"], "all values of each type, all byte contents, growing and fixed-size memory sinks, overwriting inside existing data",
  "tests write a handful of constants once; a byte-order, sign or width slip that depends on the value (high bit set, NaN payload) is not sampled",
  ["src/Stream.cc", "include/zenkit/Stream.hh"], [("Read/Write primitive accessors", "src/Stream.cc"), ("growing vector sink", "src/Stream.cc WriteDynamic")])
p("C02", "Memory stream cursors never leave the buffer and behave like one file",
  "For any sequence of reads, writes, absolute/relative/end seeks and position queries on an in-memory stream, the position always stays between 0 and the stream's size, data returned is exactly the data stored at that position, and the end-of-stream flag is set exactly when the position has reached the size. A seek or a read that does not fit never reads or writes memory outside the buffer. A growing sink may also be positioned behind its end, like a file: the gap reads as zero once something is written there.",
  ["inputs", "histories"], "all interleavings of up to 3 operations with arbitrary 64-bit offsets and lengths on buffers of up to 8 bytes",
  "tests seek to a few in-range offsets only; offsets near the integer limits and out-of-range combinations are never tried",
  ["src/Stream.cc"], [("bounds check before copying / seeking", "src/Stream.cc ReadMemory, WriteStatic, WriteDynamic")])
p("C03", "Reading a text line consumes exactly that line",
  "Reading a line from a stream returns exactly the bytes before the first line terminator (LF, CR or NUL) or the end of the stream and leaves the position after the terminator; with whitespace skipping enabled it also leaves the position at the first following byte that is not whitespace. Any line text without terminators that was written is read back unchanged, and the position never runs past the end.",
  ["inputs"], "all byte strings up to a bounded length, with and without terminators and trailing whitespace",
  "the tests use one fixed buffer; files ending without newline, embedded NUL/CR and bytes above 127 are not sampled",
  ["src/Stream.cc"], [("read_line / read_line_then_ignore", "src/Stream.cc")])
p("C04", "Chunked files: every chunk is visited once, in order, at its own start",
  "A chunked file is processed chunk by chunk: each handler sees its chunk's type and its payload positioned at the payload start, and the next chunk is found at the declared end no matter how much of the payload the handler consumed or whether the chunk is unknown. A chunk that is written records exactly its payload length and leaves the stream positioned after it, and processing stops exactly when a handler says so or the data ends.",
  ["inputs"], "all chunk types, payload lengths and amounts consumed, including over- and under-reading handlers, up to three chunks",
  "test files contain well-formed chunks whose payload is consumed exactly",
  ["src/Internal.hh", "include/zenkit/Stream.hh", "src/ModelHierarchy.cc"], [("read_chunked / write_chunk", "include/zenkit/Stream.hh proto")])
p("C05", "Binary archives return every entry exactly as it was written",
  "For both the binary and the key-safe binary archive format, any sequence of entries (string, integer, float, byte, word, enum, bool, colour, vectors, bounding box, matrix, raw block) written inside an object is read back in order with identical values and the object then ends exactly there. In the key-safe format, asking for a different kind of entry than the stored one is reported as an error instead of returning data.",
  ["inputs"], "all values of every entry kind, all orders of two neighbouring entries, all names; enums within the format's range (below 256 in binary archives) and strings without NUL and line breaks in binary archives",
  "tests read a few recorded archives; no test writes an entry and reads it back for arbitrary values",
  ["src/archive/ArchiveBinary.cc", "src/archive/ArchiveBinsafe.cc", "src/Archive.cc"], [("typed entry readers and writers", "src/archive/")])
p("C06", "ASCII archives return every entry exactly as it was written",
  "In the ASCII archive format every entry (string, integer, byte, word, enum, bool, colour, vector, bounding box, matrix, raw block, and floats exactly representable in the written decimal form) written inside an object is read back with the same value and kind, for every value of its type. Asking for a different kind of entry than the stored one is reported as an error.",
  ["inputs"], "all integer, byte, word, enum, bool, colour and raw values; strings without line breaks; a stated set of float values",
  "the text encoder's length and sign corner cases (most negative integers, single hex digits) need particular values no test uses",
  ["src/archive/ArchiveAscii.cc"], [("typed text entry readers and writers", "src/archive/ArchiveAscii.cc")])
p("C07", "Archived object graphs keep their shape: sharing, nulls, cycles, nesting",
  "An object graph written to an archive of any format is rebuilt with the same shape: an object referenced several times is one object again, a missing object stays missing, nested objects stay nested, and each object keeps its class, name and version. Skipping an object leaves the reader exactly behind it, whatever it contained, and the header reports the true format and save-game flag.",
  ["inputs", "histories"], "all small graphs (up to 4 objects, with repeated and null references), all three formats, any read/skip choice per object",
  "tests only load recorded archives with one fixed shape",
  ["src/Archive.cc", "src/archive/ArchiveBinary.cc", "src/archive/ArchiveBinsafe.cc", "src/archive/ArchiveAscii.cc"], [("object cache and reference records", "src/Archive.cc read_object / write_object"), ("skip_object", "src/Archive.cc")])
p("C08", "World objects keep their common attributes across save and load",
  "The attributes every world object shares (bounding box, position, rotation, visual and its alignment, animation mode and strength, collision flags, static flag, shadow mode, far-clip scale, bias, ambience, physics flag, names) are restored exactly when the object is saved and loaded again, for both game versions, in the packed and the unpacked layout. A decal visual keeps all of its own attributes and AI or event-manager sub-objects stay attached.",
  ["inputs", "configurations"], "all attribute values within their documented range x both game versions x packed/unpacked x archive formats",
  "attribute bits share packed bytes, so a misplaced bit only shows for particular combinations; tests have two or three recorded objects",
  ["src/vobs/VirtualObject.cc"], [("packed bit field encode/decode", "src/vobs/VirtualObject.cc")])
p("C09", "Every kind of world object keeps its own attributes across save and load",
  "Every concrete kind of world object (items, interactive objects, containers, doors, fires, triggers, movers, trigger lists, level changes, lights, sounds, zones, cameras, earthquakes, touch damage, message filters, code masters, mover controllers, particle and lens-flare objects) is restored with exactly its class and attribute values when saved in an archive and loaded again, for both game versions. It is stored under the class name and class version that game's archives use for it.",
  ["inputs", "configurations"], "all attribute values, list lengths up to a bound, both game versions, binary and key-safe archives",
  "most kinds have no save test at all and each has only one recorded instance",
  ["src/vobs/Misc.cc", "src/vobs/MovableObject.cc", "src/vobs/Trigger.cc", "src/vobs/Light.cc", "src/vobs/Sound.cc", "src/vobs/Zone.cc", "src/vobs/Camera.cc"], [("mirrored load/save field lists", "src/vobs/*.cc")])
p("C10", "Save-game archives restore the run-time state of world objects",
  "In a save-game archive the additional run-time state of world objects (sleep mode, timers, trigger counters and enable flags, mover key-frame state, item amounts and flags, container contents, complete character records, AI and sky state) is restored exactly for both game versions. In an archive that is not a save-game none of that state is stored or expected.",
  ["inputs", "configurations"], "all field values, both game versions, save-game and plain archives, small list lengths",
  "no test saves and reloads a save-game object",
  ["src/vobs/Misc.cc", "src/vobs/Trigger.cc", "src/vobs/VirtualObject.cc", "src/vobs/MovableObject.cc", "src/World.cc"], [("is_save_game conditional fields", "src/vobs/*.cc")])
p("C11", "Object hierarchies and way networks survive save and load",
  "The tree of world objects is rebuilt with the same parents, the same child order and the same objects, and a way network is rebuilt with the same free points, named waypoints and connections between the same waypoints. This holds for any tree shape and any edge set.",
  ["inputs", "histories"], "all trees of up to 5 objects, way networks of up to 3 points with any edges and shared end points",
  "only recorded worlds are loaded by tests",
  ["src/world/VobTree.cc", "src/world/WayNet.cc", "src/World.cc"], [("recursive child counts", "src/world/VobTree.cc"), ("edge list by object reference", "src/world/WayNet.cc")])
p("C12", "Materials keep every attribute across save and load",
  "A material saved in an archive and loaded again has identical values in every attribute its game version stores: group, colour, angles, texture and its scale, frame rate, mapping modes, wave and animation parameters, collision and lightmap flags, detail object, environment mapping and alpha function.",
  ["inputs", "configurations"], "all attribute values, both game versions, binary and key-safe archives",
  "tests load two recorded materials and never save one",
  ["src/Material.cc"], [("mirrored load/save", "src/Material.cc")])
p("C13", "Progressive meshes are restored exactly and refer only to their own data",
  "A progressive (multi-resolution) mesh that is saved and loaded again has identical positions, sub-meshes (triangles, wedges, weights, colours, planes, edges, maps), materials, bounding boxes and alpha flag. When loading, each element is decoded from its own declared section of the file.",
  ["inputs", "configurations"], "all element values, small element counts per section, both game versions",
  "tests load two recorded meshes and never write one",
  ["src/MultiResolutionMesh.cc"], [("section table", "src/MultiResolutionMesh.cc")])
p("C14", "Skeletons, skins and models are restored exactly",
  "A skeleton, a soft skin, a model mesh with its attachments, and a model combining them have identical contents after being saved and loaded again: node names, parents and transforms, bounding boxes, bone weights with their nodes and positions, wedge normals, attachments by name and checksum.",
  ["inputs"], "all numeric values and names, small element counts",
  "tests load recorded files; nothing is written back",
  ["src/ModelHierarchy.cc", "src/SoftSkinMesh.cc", "src/ModelMesh.cc", "src/Model.cc", "src/MorphMesh.cc"], [("chunk payload layouts", "src/ModelHierarchy.cc, src/SoftSkinMesh.cc, src/ModelMesh.cc")])
p("C15", "World meshes: polygons, flags and lightmaps decode to what the file says",
  "Loading a world mesh yields for every stored polygon its exact material, lightmap, vertex and feature indices and flag bits, and splits each polygon with n corners into the n-2 fan triangles over its own corners, dropping exactly the non-rendered (portal, occluder, outdoor) polygons where the format requires it. Vertices, features, bounding box, date and name are restored bit for bit.",
  ["inputs", "configurations"], "all polygon flag values, corner counts up to a bound, index values, both file versions",
  "tests check a few polygons of two recorded meshes",
  ["src/Mesh.cc"], [("polygon decoding and fan triangulation", "src/Mesh.cc")])
p("C16", "Animation samples decode to the stored position and a unit rotation",
  "Every sample of an animation is decoded from its own 12 bytes: the position is the 16-bit integers scaled by the animation's scaling factor plus its minimum, the rotation components are the three 16-bit integers minus 32767 scaled by 2.1/65535, and the fourth component completes a unit quaternion; if the three already exceed unit length they are scaled to unit length and the fourth is zero. Frame count, layer, frame rate, node indices, events, name and checksum are restored exactly.",
  ["inputs"], "all 16-bit sample triples, all header values",
  "tests check a few recorded samples; length-saturating rotations are rare",
  ["src/ModelAnimation.cc"], [("read_sample_quaternion / read_sample_position", "src/ModelAnimation.cc")])
p("C17", "Textures keep their pixels: mipmap extents, storage and RGBA conversion",
  "A texture's mipmaps have the sizes implied by format and extent (halving each level, never below one), are stored and returned level by level without mixing, and saving then loading a texture or building it from its levels gives back the same header, palette and pixel bytes. Converting to RGBA yields for every pixel the colour that its format encodes.",
  ["inputs", "configurations"], "all pixel values and palettes, all uncompressed formats, small extents including non-square and 1-pixel levels, up to 3 levels",
  "tests convert a few recorded textures in three formats",
  ["src/Texture.cc", "src/addon/texcvt.cc"], [("mipmap size arithmetic", "src/Texture.cc"), ("per-format pixel unpacking", "src/Texture.cc")])
p("C18", "The virtual file system is a case-insensitive tree with unique names",
  "In the virtual file system lookups ignore letter case (also for path components), a directory never holds two entries whose names differ only in case, and resolving a path gives exactly the entry created or mounted there or nothing. Creating a directory path creates exactly the missing components, removing an entry removes exactly it and what is below it, and any search by name finds an entry exactly if one with that name exists.",
  ["inputs", "histories"], "all names over arbitrary bytes up to a bound, all sequences of up to 3 create/remove/look-up operations",
  "tests use one fixed tree with lookups in a few spellings",
  ["src/Vfs.cc", "src/Misc.cc"], [("ordered child set with case-insensitive comparator", "src/Vfs.cc VfsNodeComparator"), ("resolve/mkdir/remove", "src/Vfs.cc")])
p("C19", "Mounting over existing files obeys the chosen overwrite policy",
  "When a mounted file collides with an existing one, the survivor is the one the overwrite policy selects (none: existing; all: new; newer/older: decided only by comparing the two time stamps as documented), directories are merged recursively and everything not in conflict from both sides remains reachable. Each surviving file yields exactly its own bytes.",
  ["inputs", "configurations"], "all pairs of time stamps, all four policies, file/file, file/directory and directory/directory collisions",
  "tests mount two fixed disks in one order",
  ["src/Vfs.cc"], [("mount_node overwrite switch", "src/Vfs.cc")])
p("C20", "A saved disk archive mounts back to the same directory tree and contents",
  "Saving the virtual file system as a disk archive and mounting that archive into an empty one yields the same directories, files and contents under the signature of the chosen game version, with the archive's time stamp preserved to the format's two-second resolution in any time zone. Names up to the format's limit of 64 bytes are restored literally and without padding; directories without any file below them, which the format cannot express, are left out.",
  ["inputs", "histories"], "small trees (up to 4 entries, nested, with empty files), arbitrary file bytes and name characters, both disk versions",
  "one test saves one fixed tree",
  ["src/Vfs.cc"], [("catalog writer/reader", "src/Vfs.cc save / mount_disk")])
p("C21", "A damaged disk archive is rejected or mounted without leaving its data",
  "Mounting a disk archive with arbitrary header and catalog contents terminates, either with an error or with a tree in which every file's data lies entirely inside the archive. No mount reads outside the archive's bytes.",
  ["inputs"], "all catalogs of up to 2 entries with arbitrary offsets, sizes, types and flags, truncated at any byte",
  "tests mount well-formed disks only",
  ["src/Vfs.cc"], [("entry bounds checks", "src/Vfs.cc mount_disk")])
p("C22", "Compiled scripts load with every symbol and instruction intact",
  "Loading a compiled script yields every symbol with its stored name, type, flags, element count, member offset, parent, source location and constant values, findable by index, by name in any letter case, and by code address. Each instruction is decoded at its address with exactly the operand its operation carries and its true size; looking outside the table or code fails cleanly.",
  ["inputs"], "all symbol field values, all names up to a bound, every opcode and operand, all addresses",
  "tests load recorded scripts and compare a few symbols",
  ["src/DaedalusScript.cc", "include/zenkit/DaedalusScript.hh"], [("symbol and instruction decoding", "src/DaedalusScript.cc")])
p("C23", "Script arithmetic, comparison and assignment compute what they mean",
  "Executing an arithmetic, comparison, logical, bit or assignment instruction has exactly the effect its operation names on 32-bit integers (and floats, strings, functions, instances), with the operands in the documented order, for all operand values. Division or remainder by zero is reported as a script error and never ends the host process.",
  ["inputs", "programs"], "all pairs of 32-bit operands for every integer operation, all assignment kinds",
  "tests run recorded scripts with a few constants",
  ["src/DaedalusVm.cc"], [("exec switch", "src/DaedalusVm.cc")])
p("C24", "Script calls pass arguments, keep locals and balance the stack",
  "A script function receives exactly the values passed for its parameters in order, its return value reaches the caller, control resumes after the call, conditional jumps branch exactly on zero, and the operand stack has afterwards exactly one more entry if the function returns a value and is otherwise as before. With local-variable preservation the declared local variables of a caller are unaffected by nested or recursive calls, and a call that fails leaves the machine usable for further calls.",
  ["inputs", "programs", "histories"], "all argument values, call depths up to 3, all branch conditions, returning and failing callees",
  "tests call a few recorded functions once",
  ["src/DaedalusVm.cc", "include/zenkit/DaedalusVm.hh"], [("push_call/pop_call, unsafe_call, local stack guards", "src/DaedalusVm.cc")])
p("C25", "Script symbol access is checked: kind, index, constness and owner",
  "Reading or writing a symbol through its accessors returns the value last written to that element of that symbol (or to that member of that object) and changes nothing else. An access with the wrong data type, an index outside the declared count, a write to a constant, or a member access without a fitting object is reported as an error and has no effect.",
  ["inputs", "histories"], "all indices, values, symbol kinds and flag combinations; host-bound and script-only objects",
  "tests touch a few valid members",
  ["src/DaedalusScript.cc", "include/zenkit/DaedalusScript.hh"], [("accessor guards", "src/DaedalusScript.cc DaedalusSymbol::get_*/set_*")])
p("C26", "Host functions bound to scripts get exact arguments and are type-checked",
  "A host function registered for a script external or as an override is accepted exactly when its parameter and return types match the declaration, is then called with the script's argument values in declaration order, and its result becomes the script's value of the call. Calling an unregistered external falls back to the registered default handler with the arguments removed from the stack.",
  ["inputs", "programs"], "all argument values, the parameter kinds int/float/string/instance in up to 3 positions, matching and mismatching signatures",
  "tests register a few externals with fixed values",
  ["include/zenkit/DaedalusVm.hh", "src/DaedalusVm.cc"], [("register_external / override_function templates", "include/zenkit/DaedalusVm.hh")])
p("C27", "Damaged asset files never make a loader touch foreign memory or hang",
  "Loading an asset file (font, texture, skeleton, animation, skin, progressive mesh, model mesh, morph mesh, world mesh, BSP tree) that was cut off anywhere or in which some bytes were overwritten with anything finishes, either with a loaded object or with an exception. It never reads or writes memory outside its buffers, never loops without end and never accesses data of a missing element.",
  ["inputs"], "every truncation point of a small valid file per format and every value of a damaged window at every position",
  "tests load valid files; one malformed-file regression per format at most",
  ["src/Font.cc", "src/Texture.cc", "src/ModelHierarchy.cc", "src/ModelAnimation.cc", "src/SoftSkinMesh.cc", "src/MultiResolutionMesh.cc", "src/ModelMesh.cc", "src/MorphMesh.cc", "src/Mesh.cc", "src/world/BspTree.cc"], [("stream bounds checks, parser errors", "src/Stream.cc, src/*.cc")])
p("C28", "Model scripts mean the same as text and as compiled binary",
  "A model script's animations, aliases, blends, combinations, disabled animations, model tags, meshes and events are read with exactly the attribute values written in the script, each event attached to the animation it belongs to, whether the script is text or compiled. In text, letter case of keywords, comments and extra white space make no difference and omitted optional values take their documented default.",
  ["inputs"], "all numeric attribute values in the binary form, all flag combinations, bounded names, white-space and comment placements in text",
  "tests parse two recorded scripts",
  ["src/ModelScript.cc", "src/ModelScriptDsl.cc"], [("tokenizer and recursive descent parser", "src/ModelScriptDsl.cc"), ("binary chunk decoder", "src/ModelScript.cc")])
p("C29", "Cutscene libraries return exactly the requested dialogue block",
  "Looking up a dialogue block by name returns the block with exactly that name if the library has one and nothing otherwise, for any set of names. In a library that was loaded, the blocks have distinct names and are ordered by name. Saving such a library and loading it again gives the same blocks in the same order with the same message type, text and sound file.",
  ["inputs"], "all sorted sets of up to 3 names with arbitrary characters, all queried names, all message contents",
  "the test looks up existing names of one recorded library",
  ["src/CutsceneLibrary.cc"], [("binary search by name", "src/CutsceneLibrary.cc block_by_name")])
p("C30", "Fonts, dates and bounding boxes are preserved and enclose what they should",
  "A font, a date, an axis-aligned box and an oriented box tree have identical contents after being saved and loaded again. The axis-aligned box derived from an oriented box contains all eight corners and is no larger than needed, for boxes anywhere in space.",
  ["inputs"], "all field values; small glyph lists and child boxes; boxes with bounded exactly-representable coordinates",
  "tests use recorded files and one box around the origin",
  ["src/Font.cc", "src/Date.cc", "src/Boxes.cc"], [("mirrored load/save", "src/Font.cc, src/Date.cc, src/Boxes.cc"), ("corner enumeration", "src/Boxes.cc as_bbox")])
p("C31", "Save-game state records survive save and load",
  "The save-game metadata (title, world, date, play time, versions), the script state (missions with topic texts and status, script variables, info-known flags, guild attitudes, day, clock) are restored exactly for both game versions when written and read again.",
  ["inputs", "configurations"], "all field values, small list lengths, both game versions",
  "tests read two recorded saves and never write one",
  ["src/SaveGame.cc"], [("mirrored load/save", "src/SaveGame.cc")])
p("C32", "Spatial trees load with correct parent, child and leaf structure",
  "Loading a spatial partition tree yields nodes whose parent and child indices form exactly the stored tree, whose leaves are listed in order, and whose planes, boxes, polygon ranges, sectors, portals and light points equal the stored values, for both file versions.",
  ["inputs", "configurations"], "all node payload values, all tree shapes of up to 5 nodes, both file versions",
  "tests check one recorded tree's totals",
  ["src/world/BspTree.cc"], [("recursive node decoder", "src/world/BspTree.cc")])
p("C33", "Morph meshes decode to what the file says",
  "A morph mesh file decodes to exactly what it stores: name, mesh, base positions, every animation with its name, layer, blend times, duration, speed, flags, vertex list, frame count and all samples in order, and every source file reference with its date. Unknown chunks in between make no difference.",
  ["inputs"], "all field values bit for bit, short names, up to two animations, vertices, frames and sources",
  "tests check a few numbers of one recorded file",
  ["src/MorphMesh.cc"], [("chunk decoder", "src/MorphMesh.cc MorphMesh::load")])
p("C34", "Damaged archives never make a loader touch foreign memory or hang",
  "Loading an archive (single objects of every kind, worlds, saved worlds and game state, cutscene libraries, object trees, with unknown objects being skipped) in any of the three archive formats that was cut off anywhere or in which some bytes were overwritten with anything finishes, either with a loaded object or with an exception. It never reads or writes memory outside its buffers, never loops without end and never accesses a missing object.",
  ["inputs"], "every truncation point of a small valid archive per kind and format and every value of a damaged window at every position",
  "tests load valid archives only",
  ["src/Archive.cc", "src/archive/ArchiveBinary.cc", "src/archive/ArchiveAscii.cc", "src/archive/ArchiveBinsafe.cc", "src/World.cc", "src/world/VobTree.cc", "src/world/WayNet.cc", "src/SaveGame.cc", "src/CutsceneLibrary.cc", "src/vobs/*.cc"], [("archive readers", "src/archive/*.cc"), ("object loaders", "src/vobs/*.cc, src/World.cc, src/SaveGame.cc")])
p("C35", "Damaged scripts never make the library touch foreign memory or hang",
  "Loading a compiled script or a model script (text or binary) that was cut off anywhere or in which some bytes were overwritten finishes with a loaded script or an exception; looking up its symbols, parameters, locals and class members, registering classes and externals, calling its functions and initialising its objects never touches foreign memory either. The script machine executes any instruction with any operand in any state of its stack, selected object and error handling strategy, full and empty stack included, with at most a script error.",
  ["inputs", "histories"], "every truncation point and damaged window of small scripts, all symbol property combinations, all instructions x operands x stack entries",
  "tests run valid scripts only",
  ["src/DaedalusScript.cc", "src/DaedalusVm.cc", "include/zenkit/DaedalusVm.hh", "include/zenkit/DaedalusScript.hh", "src/ModelScript.cc", "src/ModelScriptDsl.cc"], [("symbol loader", "src/DaedalusScript.cc DaedalusSymbol::load"), ("interpreter", "src/DaedalusVm.cc DaedalusVm::exec"), ("member access", "include/zenkit/DaedalusScript.hh get_member_ptr")])
p("C36", "Every member of the standard script classes has its own host field",
  "After register_all_script_classes, each member a Gothic script declares of the 21 standard classes (C_NPC, C_ITEM, C_INFO, C_SVM, ...), and each element of an array member, is held by the host field of that meaning and by no other: what a script writes is what the host reads there and vice versa, all other fields keep their value, a new object is empty, members which only some game versions have may be absent, and a script which lacks or mistypes any other member is refused with a script error. Dialogue choices are kept newest first and removed by position.",
  ["inputs"], "all members and array elements of all classes x all values x presence of the optional members; removal positions",
  "tests register none of these classes against a real script",
  ["src/addon/daedalus.cc", "include/zenkit/addon/daedalus.hh", "include/zenkit/DaedalusScript.hh"], [("bindings", "src/addon/daedalus.cc register_all_script_classes and I*::register_"), ("member registration", "include/zenkit/DaedalusScript.hh register_member, _check_member")])
p("C37", "A world file keeps all its sections in any order and reveals its game",
  "A world saved as a plain (not save-game) archive in any format loads again with the same mesh, spatial tree, object hierarchy and way network; its visible polygons are those its spatial tree's leaves list. Loading does not depend on the order of the sections, skips sections it does not know, recognises the game version from the file when it is not told, and reads worlds of exporters which mark themselves with the user name XZEN with 32-bit vertex indices.",
  ["inputs"], "all geometry values x presence and order of sections x formats x game versions",
  "tests load two fixed worlds and save none with a mesh",
  ["src/World.cc", "src/Mesh.cc", "src/world/BspTree.cc", "src/world/VobTree.cc", "src/world/WayNet.cc", "src/Archive.cc"], [("load and save", "src/World.cc World::load, World::save"), ("version detection", "src/World.cc determine_world_version"), ("section skipping", "src/Archive.cc ReadArchive::skip_object")])
p("C38", "Save slots: what was saved loads back; other worlds and slots stay intact",
  "A game saved into a slot folder loads back complete, by the same or another object: metadata, state, thumbnail exactly if there was one, and each world under its name; nothing of an earlier load is kept. Saving into another slot carries over the other worlds of the slot the object is at, leaves that slot unchanged and removes everything the target slot held before, saving into the current slot keeps its other worlds, and nothing outside of the target slot is changed. Loading finds the slot's metadata, state and thumbnail files in any letter case whatever else is in the folder, gives no world for one that was never saved, and reports a missing folder or a missing, empty or invalid required file with an exception, leaving no file open.",
  ["inputs", "histories"], "all short histories of saving, loading and changing over two slots and two worlds x game versions x thumbnails x values; all kinds of missing files",
  "tests load two fixed slots and save one once",
  ["src/SaveGame.cc", "include/zenkit/SaveGame.hh", "src/Stream.cc", "src/MmapPosix.cc"], [("slot handling", "src/SaveGame.cc SaveGame::load, SaveGame::save"), ("worlds", "src/SaveGame.cc SaveGame::load_world"), ("files", "src/Stream.cc Read::from, Write::to; src/MmapPosix.cc Mmap")])
p("C39", "Host folders, files and disk files mount with their exact content and time",
  "Mounting a host folder puts exactly its content (not the folder itself) below the mount point: the same sub-folders and non-empty files with the same names and bytes and their modification time in Unix seconds (a single host file mounts likewise), merged with existing nodes according to the overwrite policy; a disk archive mounted by path gives the same tree as the same archive in memory, and a folder saved as a disk archive mounts again with the same content. The content stays readable while more is mounted, after the file system object is moved and after the host file is deleted. A missing path, a missing or unsuitable mount point, or a file that is no disk archive raises an exception, changes nothing and leaves no file open.",
  ["inputs"], "all file contents and times within the bounds x policies x mount points x kinds of failures",
  "tests mount one fixed folder",
  ["src/Vfs.cc", "src/MmapPosix.cc", "src/Stream.cc"], [("host folders", "src/Vfs.cc Vfs::mount_host"), ("disk files", "src/Vfs.cc Vfs::mount_disk(path)"), ("mapping", "src/MmapPosix.cc Mmap")])
p("C40", "A logger gets exactly the messages of its level and never alters results",
  "A message reaches the logger that was set last, exactly once and with its level, name and formatted text (cut if it is very long, never past the end of a buffer), if and only if its level is at most the chosen threshold; without a logger nothing happens. Script errors, disks and model scripts that cause messages have the same outcome whether or not a logger listens, at any threshold, also if their names and texts contain format specifiers. The failure of a script is logged at the error level and still reported to the caller.",
  ["inputs", "histories"], "all message levels x thresholds x texts x argument values x changes of the logger",
  "tests set a logger for output only and never look at what it gets",
  ["src/Logger.cc", "include/zenkit/Logger.hh", "src/DaedalusVm.cc"], [("filter and formatting", "src/Logger.cc Logger::log, Logger::logv, Logger::set"), ("stack traces", "src/DaedalusVm.cc DaedalusVm::print_stack_trace")])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
