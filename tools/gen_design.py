#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the method table below, the harness annotations, and design_tail.md."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
M = {
'C01': 'Write one symbolic value of each kind at a symbolic offset into every sink, read it back through every source. Oracle: the bytes and the value chosen by the harness, compared bit for bit; positions before/after; untouched bytes.',
'C02': 'A symbolic program of operations runs on the stream and on a reference cursor (a byte array and an integer). Oracle: the reference after each step (data, position, end flag, size).',
'C03': 'Symbolic text, symbolic start. Oracle: an independent line scanner over the same bytes (text returned and position after it); written lines are read back.',
'C04': 'Symbolic chunk sequences are laid out by the harness, handlers consume symbolic amounts. Oracle: list of (type, payload, start) by construction; end position; stop semantics. The chunk writer is read back by bytes.',
'C05': 'Every ordered pair of entry kinds with symbolic values is written and read. Oracle: the values written; wrong-kind reads must raise the archive error; sizes sweep the length fields.',
'C06': 'As C05 for the text format; floats from an exactly representable list since the format is decimal text.',
'C07': 'A symbolic reference graph is written through `write_object` and read back. Oracle: same sharing (pointer equality), null stays null, entries around objects intact, early `skip_object` lands on the next sibling, header fields, and date changes while writing.',
'C08': 'A vob with all common attributes symbolic goes through save and load. Oracle: attribute-wise bit equality, in all layouts, versions and formats.',
'C09': 'Per kind a generator fills every member symbolically; save through the generic entry point, load by `read_object`. Oracle: dynamic kind and member-wise equality.',
'C10': 'As C09 in a save-game archive with all run-time members, characters, inventories and shared references.',
'C11': 'Symbolic parent vector defines a tree, symbolic endpoints a way net. Oracle: shape and order of the constructed graph, unknown classes keep their children.',
'C12': 'Symbolic material through save and load and through the mesh loader. Oracle: member-wise equality.',
'C13': 'Symbolic progressive mesh; (a) library writer, (b) an independent encoder placing sections in another order with gaps. Oracle: member-wise equality with the model.',
'C14': 'As C13 for skeletons (MDH), skins and model meshes (MDM), models (MDL).',
'C15': 'Symbolic polygons are encoded by an independent encoder per layout; the loader\'s polygon list, flags, leaf selection, features, lightmaps are compared. Oracle: the encoder\'s model.',
'C16': 'Symbolic packed samples; positions = min + scale*raw and the rotation rebuilt as unit quaternion. Oracle: the documented formula, in z3\'s FP theory; header, events, chunks by construction.',
'C17': 'Symbolic pixel bytes; load/save identity, RGBA conversion per format, builder conversions, DDS headers. Oracle: per-format pixel formulas in the harness.',
'C18': 'Symbolic names and operation histories on a Vfs. Oracle: a list-based reference directory with case folding.',
'C19': 'Symbolic time stamps and trees mounted under each policy. Oracle: the policy\'s table applied entry by entry.',
'C20': 'A symbolic tree is saved to a disk image in memory and mounted again. Oracle: same tree, contents, time stamps (2 s resolution of DOS time).',
'C21': 'A disk image with symbolic header and catalog. Oracle: rejected by the documented error or every mounted node lies inside the data; no memory error, terminates.',
'C22': 'A symbol table written by an independent encoder with symbolic fields. Oracle: the accessor results equal the encoded fields; instruction decoding per operand layout.',
'C23': 'Byte code assembled by the harness for each operator with symbolic operands. Oracle: two\'s complement arithmetic / IEEE formulas in the harness.',
'C24': 'Assembled functions with symbolic arguments: nested, recursive, failing at a symbolic depth. Oracle: reference evaluation; stack height, context and locals before = after.',
'C25': 'Symbolic index/kind/constness/owner for each accessor. Oracle: the allowed set is a table; outside it the documented exception is raised and nothing changes.',
'C26': 'Registration of host functions with every declared signature, calls with symbolic values. Oracle: the signature table; observed arguments and results.',
'C27': 'A valid file with a cut or a 4-byte symbolic window is loaded. Oracle: no memory error, exception of the library\'s kind or normal return, terminates, and what is returned is consistent where claimed.',
'C28': 'Symbolic model script as text and as binary. Oracle: the harness\'s model; text and binary loads equal.',
'C29': 'Symbolic block names and query. Oracle: linear search over the model.',
'C30': 'Symbolic fonts, dates, boxes: save/load identity; enclosing boxes contain all corners. Oracle: model; interval arithmetic over exact corners.',
'C31': 'Symbolic save-game records: save/load identity, also into a used record. Oracle: member-wise equality.',
'C32': 'Symbolic tree shapes encoded independently and by the writer. Oracle: parents, children, leaves and ranges by construction.',
'C33': 'Symbolic morph mesh encoded independently. Oracle: the encoder\'s model.',
'C34': 'As C27 for archives: each object kind and format.',
'C35': 'As C27 for compiled and model scripts; plus one symbolic instruction executed in a symbolic machine state.',
'C36': 'A script with a standard class is built from a table (member name, type, count); each member gets its own value through the script machine. Oracle: the host field named by the table, and only it, changes.',
'C37': 'A whole world file built by an independent encoder (sections in symbolic order, unknown sections) or the library. Oracle: every section\'s model; the detected game version.',
'C38': 'The whole of SaveGame over the file-system model: every history of up to three steps (save world A/B into slot 1/2, load slot 1/2, change the state) with symbolic values. Oracle: a reference map slot -> (state, worlds, files); both slots are loaded by a fresh object and listed at the end.',
'C39': 'Vfs::mount_host / mount_disk(path) over the file-system model (files, times and mappings; unmapped or freed memory is an error). Oracle: the tree the harness wrote to the model, the policy rule on Unix times, the same archive in memory.',
'C40': 'Symbolic levels, thresholds, names, texts and arguments through the variadic entry points; representative operations that log, run with no logger, a recording one at each level and the default one. Oracle: the level rule, the formatted text, a second run nobody listens to.',
}
out = open(here + '/design_head.md').read()
for l in open(root + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; s = open(f'{root}/harness/{i}.cc').read()
    g = lambda k: [m.strip() for m in re.findall(r'^//@%s (.*)$' % k, s, re.M)]
    n = len(re.findall(r'^[A-Z_]+\((?:%s_|[a-z])' % i, s, re.M))
    out += f'### {i} {p["title"]}\n\n{M[i]}\n\n'
    for t, k in (('Bounds', 'bound'), ('Assumed', 'assume'), ('Outside', 'outside')):
        if g(k): out += f'* {t}: ' + '. '.join(x.rstrip('.;') for x in g(k)) + '.\n'
    out += f'* Tests cannot: {p["why_tests_cant"]}.\n* Anchors: {", ".join(p["anchors"]["files"])}.\n\n'
tail = open(here + '/design_tail.md').read()
rows = ['| change | property (check that catches it) | needs |', '|---|---|---|']
sd = root + '/seeded'
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(f'{sd}/{d}/meta.json')); rows.append(f'| {d} | {m["property"]} | {m["needs"]} |')
open(root + '/DESIGN.md', 'w').write(out + tail.replace('SEEDED_TABLE', '\n'.join(rows)))
