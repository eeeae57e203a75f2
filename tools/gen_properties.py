#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the long lines stay editable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
core='xdvdfs-core/src/'
cli='xdvdfs-cli/src/'
p('C01','Packing then reading an image gives back exactly the source tree',
 "For every directory tree that packing accepts, reading the produced image (listing, path lookup, unpacking, or repacking it into another image) yields exactly the same directories, files, names, sizes and contents as the source, nothing missing and nothing added. This holds whatever the order in which the source lists its entries and whichever kind of source (host directory, memory, existing image) and destination is used.",
 ['inputs','configurations'],'every acceptable tree, every listing order, every source and destination kind',
 'The tests pack three fixed small trees from memory; wide, deep, sector-boundary and non-ASCII trees and listing orders are an unbounded space.',
 [core+'write/img.rs',core+'write/dirtab.rs',core+'write/avl.rs',core+'read.rs',core+'write/fs/mod.rs',core+'write/fs/stdfs.rs',core+'write/fs/xdvdfs.rs',cli+'cmd_pack.rs',cli+'cmd_unpack.rs'],
 [('image creation',core+'write/img.rs'),('table serialization',core+'write/dirtab.rs'),('tree walk',core+'read.rs'),('repacking source',core+'write/fs/xdvdfs.rs')])
p('C02','Path lookup finds exactly the entry with that name, ignoring ASCII case',
 "In every packed image, looking up a path that names a stored file or directory, up to ASCII letter case and leading or trailing slashes, returns that very entry, and looking up any other path reports that it does not exist. Letters outside ASCII are compared exactly.",
 ['inputs'],'every packed tree and every path string',
 'The tests look up a handful of names in two fixed images; the order of the stored search tree must agree with the comparison at every name pair.',
 [core+'read.rs',core+'layout.rs',core+'util.rs',core+'write/avl.rs'],
 [('name comparison',core+'util.rs'),('search-tree descent',core+'read.rs'),('search-tree insertion order',core+'write/avl.rs, '+core+'layout.rs (ordering of entries)')])
p('C03','Packed images place everything in disjoint sectors at the fixed layout',
 "In every packed image the volume header is the sector at index 32, every directory table and every non-empty file occupies its own whole sectors which overlap neither each other nor the header, all of these lie within the image, and the image length is a multiple of 64 KiB. A tree whose sectors cannot be numbered in 32 bits is refused with an error.",
 ['inputs'],'every tree and every file size up to the format limit',
 'Overlap depends on every combination of file and table sizes; tests check two fixed layouts.',
 [core+'write/sector.rs',core+'write/img.rs',core+'write/dirtab.rs',core+'layout.rs'],
 [('sector allocation',core+'write/sector.rs'),('placing tables and files',core+'write/img.rs')])
p('C04','Directory tables are well formed for every set of names',
 "Every directory table in a packed image is a sequence of 4-byte-aligned records none of which crosses a 2048-byte sector boundary, every byte not in a record is 0xFF, every child link points at a record of the same table, each record is reachable exactly once from the first one, and the recorded table size covers exactly its records. A directory too large for its links to address is refused with an error instead of being written wrongly.",
 ['inputs'],'every list of names of every length, including sizes around sector and addressing boundaries',
 'Tests serialize two or three names; the interesting cases are combinations of record lengths that meet a sector boundary exactly, or link offsets near 65535.',
 [core+'write/dirtab.rs',core+'write/avl.rs',core+'layout.rs'],
 [('padding rule',core+'write/dirtab.rs'),('record length',core+'layout.rs'),('preorder renumbering',core+'write/avl.rs')])
p('C05','On-disk records decode and encode exactly per the format',
 "Every directory record and volume header is decoded from and encoded to its fixed little-endian field layout without loss, encoding and decoding are inverse to each other, an empty record (all bytes 0x00 or 0xFF) is recognised as no record, and a volume is accepted only when both of its magic strings match.",
 ['inputs'],'every byte pattern of a record or header',
 'A few byte patterns are tested; the claim is about all 2^112 record patterns and all headers.',
 [core+'layout.rs',core+'read.rs'],
 [('record codec',core+'layout.rs'),('header validation',core+'layout.rs, '+core+'read.rs')])
p('C06','Damaged or hostile image bytes never crash a reader',
 "For every byte sequence presented as an image, opening it, listing it, looking up any path, reading any part of any file, computing its checksum, or using it as a repacking source either succeeds or returns an error; it never panics, overflows or accesses memory out of bounds. Images whose directory links form cycles are excluded as far as termination is concerned.",
 ['inputs'],'every byte sequence, every path and every read range',
 'Tests feed only well-formed images; failures hide in particular field values.',
 [core+'read.rs',core+'layout.rs',core+'blockdev.rs',core+'checksum.rs',core+'write/fs/xdvdfs.rs',cli+'cmd_info.rs',cli+'cmd_read.rs'],
 [('record reading',core+'read.rs'),('bounds of reads',core+'blockdev.rs, '+core+'layout.rs')])
p('C07','All ways of listing a directory report the same records',
 "For every packed image, walking a directory's search tree, scanning its table linearly, listing the whole image recursively and looking each entry up by path all report the same set of records with the same names, attributes, positions and offsets, each record exactly once.",
 ['inputs'],'every packed tree and every directory in it',
 'Tests compare one listing of one image with a literal; sector-padding and multi-sector tables are where a scan and a walk can diverge.',
 [core+'read.rs',core+'layout.rs',cli+'cmd_read.rs'],
 [('tree walk',core+'read.rs'),('linear scan',core+'read.rs'),('recursive listing',core+'read.rs')])
p('C08','Reading file data returns exactly the requested bytes of that file',
 "For every file in an image and every offset and length, a read returns exactly the file's bytes in that range, clipped at the end of the file, never bytes belonging to anything else; a read that the underlying device cannot satisfy is reported as an error.",
 ['inputs'],'every file, every offset and length',
 'Tests read two whole small files; offset and length arithmetic near the end of the file is unbounded.',
 [core+'layout.rs',core+'blockdev.rs',core+'read.rs'],
 [('data region arithmetic',core+'layout.rs'),('device reads',core+'blockdev.rs')])
p('C09','Every copy is complete and exact, or reports failure',
 "Whenever packing, repacking, compressing or unpacking reports success, every byte of every file was transferred exactly; when the source or destination fails or runs short at any point, the operation reports an error rather than producing a silently incomplete result.",
 ['inputs','fault_sequences'],'every tree, every single read or write failure point and every truncation of the source',
 'No test injects a failure or truncates a source.',
 [core+'write/img.rs',core+'write/fs/xdvdfs.rs',core+'write/fs/stdfs.rs',core+'blockdev.rs',cli+'cmd_pack.rs',cli+'cmd_unpack.rs'],
 [('generic copier',core+'write/fs/xdvdfs.rs'),('host file copier',core+'write/fs/stdfs.rs'),('in-memory device',core+'blockdev.rs')])
p('C10','Images at any supported partition offset behave like bare images',
 "An image placed at any of the supported partition offsets of a larger disc dump is detected there and then gives exactly the same listings, lookups, file contents, checksum and repacked output as the bare image; data with no image at a supported offset is refused.",
 ['inputs','configurations'],'every image and every supported offset',
 'Tests only open bare images; offset arithmetic in reads and seeks is exercised by no test.',
 [core+'blockdev.rs',core+'read.rs',core+'layout.rs',cli+'img.rs'],
 [('offset translation and detection',core+'blockdev.rs')])
p('C11','Exactly the storable names are accepted, and they are stored exactly',
 "A tree is accepted for packing exactly when every name can be encoded in Windows-1252, is at most 255 bytes long in UTF-8, and no two names in one directory are equal up to ASCII case; otherwise packing fails with an error naming the problem. Every accepted name is read back character for character.",
 ['inputs'],'every set of names',
 'Tests use short ASCII names; encoding and length limits differ per character.',
 [core+'write/dirtab.rs',core+'layout.rs',core+'util.rs',core+'write/avl.rs'],
 [('name encoding',core+'layout.rs'),('length limit',core+'write/dirtab.rs'),('duplicate detection',core+'write/avl.rs')])
p('C12','A compressed image holds exactly the sectors of the raw image',
 "For every tree or source image, the sectors delivered to the compressor are exactly the sectors of the raw image that packing the same source would write, in number, order and content, and reading the compressed image gives the same files as the raw one.",
 ['inputs'],'every tree and every sector index',
 'Two fixed devices are tested; sectors mixing file tail and padding, and sectors inside large files, depend on sizes.',
 [core+'write/fs/sector_linear.rs',core+'write/fs/xdvdfs.rs',core+'write/fs/stdfs.rs',cli+'cmd_compress.rs',cli+'img.rs'],
 [('virtual sector device',core+'write/fs/sector_linear.rs')])
p('C13','The image checksum depends on paths and contents only, in path order',
 "The checksum of an image is the SHA3-256 digest of each entry's full path in ascending byte order, each path followed by the contents of the file if it is one; images holding the same tree therefore have the same checksum whatever their layout, and images with the same paths and file sizes that differ in any byte of a file feed different data to the digest.",
 ['inputs'],'every image, every layout of the same tree',
 'One fixed image is tested; independence of layout is a claim over all layouts.',
 [core+'checksum.rs',core+'read.rs',cli+'cmd_read.rs'],
 [('digest order',core+'checksum.rs')])
p('C14','Unpacking never writes outside of the destination directory',
 "Whatever names an image contains, unpacking it or copying a directory out of it creates and changes nothing outside of the chosen destination directory.",
 ['inputs'],'every image, including hostile ones with names such as "..", absolute paths and embedded separators',
 'No test unpacks an image with hostile names.',
 [cli+'cmd_unpack.rs',cli+'exiso_compat.rs'],
 [('destination paths',cli+'cmd_unpack.rs')])
p('C15','The mounted view agrees with the image',
 "For every image and every sequence of filesystem requests, the root has inode 1, every other entry has one stable inode distinct from all others, directory reads return every entry exactly once however they are split, lookups and attributes agree with them, reads return exactly the requested range of the file, and requests to open for writing are refused.",
 ['inputs','histories'],'every image and every request history',
 'The daemon has no tests.',
 ['xdvdfs-fsd/src/img_fs.rs'],
 [('inode assignment','xdvdfs-fsd/src/img_fs.rs'),('directory paging','xdvdfs-fsd/src/img_fs.rs')])
p('C16','Path rewrite rules map exactly the matching host paths',
 "When an image is built from rewrite rules, each host path is governed by its deepest ancestor (or itself) that some rule matches; it appears at the location given by the first positive rule that matches there after the last negative one that does, with its captures substituted and the remaining path appended, and it does not appear if there is no such rule. Nothing else appears except the directories leading to these entries, and a rule with a malformed substitution that applies somewhere is refused.",
 ['inputs','configurations'],'every host tree and every list of rules',
 'One test uses fixed rules; rule interaction, nesting and substitution are unbounded.',
 [core+'write/fs/remap.rs',core+'write/fs/mod.rs',cli+'cmd_build_image.rs'],
 [('rule application',core+'write/fs/remap.rs'),('path prefix tree',core+'write/fs/mod.rs')])
p('C17','Directory search trees are height balanced for every insertion order',
 "In every packed image, for every record of every directory table the heights of its left and right subtrees differ by at most one and all names on the left sort before it and all on the right after it, so that lookups take logarithmically many steps whatever order the source listed its entries in.",
 ['inputs','histories'],'every sequence of insertions',
 'Tests insert a few fixed sequences; rebalancing has many cases that only particular orders reach.',
 [core+'write/avl.rs'],
 [('insertion and rotation',core+'write/avl.rs')])
p('C18','Rewriting an image in place never loses the original',
 "When rewriting an image in extract-xiso mode, at every outcome either a complete rewritten image with the same tree exists at the output location or the unmodified original still exists (under its own name or with the .old extension); the original is deleted only on request and only after the rewrite succeeded.",
 ['inputs','fault_sequences'],'every image, option combination and failure of the rewrite',
 'No test runs this mode; the claim is about failure points.',
 [cli+'exiso_compat.rs',cli+'cmd_pack.rs'],
 [('rename, pack, delete',cli+'exiso_compat.rs')])
p('C19','Packing never overwrites or descends into its own source',
 "Packing or compressing refuses, without changing anything, when an existing output path is the source itself under any spelling or through a symbolic link, or lies inside the source directory; a default output name never designates the source.",
 ['inputs','configurations'],'every source and output path spelling',
 'No test runs these commands with related source and output paths.',
 [cli+'cmd_pack.rs',cli+'cmd_compress.rs',cli+'img.rs'],
 [('path guards',cli+'cmd_pack.rs, '+cli+'cmd_compress.rs')])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
