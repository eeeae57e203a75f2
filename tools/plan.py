"""What decides each property."""
H = dict(harness='harness')
PLAN = {}
def p(id, **k): PLAN[id] = dict(H, **k)
READ = ['codec', 'records']
p('C01', units=['img', 'paths', 'filetree'], cli=True, level='proof',
  proved='create_xdvdfs_image, for every source (any tree, names, sizes, order) and every device that keeps the write contract: on success the image has a valid header whose root table is a well-formed balanced search tree of exactly the root listing, every directory entry points at such a table of its listing, every file entry at its bytes; walking, recursive listing, lookup and reading return exactly those records and bytes',
  bounded='host filesystem, image-to-image source and the command line: executable contracts on generated trees')
p('C02', units=['paths', 'img'], level='proof',
  proved='find_dirent and walk_path return the entry of that name exactly when it is there, for every well-formed sorted table tree and every path; the order used is total and folds ASCII only; every table of a packed image is such a tree and holds exactly the names of its listing',
  bounded='end to end on packed images')
p('C03', units=['sector', 'img'], level='proof',
  proved='allocation; create_xdvdfs_image: every sector from 33 on belongs to at most one file or table, nothing is placed over the header, the image is a multiple of 32 sectors and holds all it refers to; sector numbers that do not fit are refused',
  bounded='end to end on packed images')
p('C04', units=['tables'], level='proof',
  proved='disk_repr and dirtab_size, for every set of names in every order: aligned records that cross no sector, filler 0xff, links to records of the table, each reached once, recorded size, error on links that do not fit', bounded='end to end on packed images')
p('C05', units=['codec', 'records'], kani=['node_decode', 'node_encode', 'attribute_bits'], level='proof',
  proved='record (de)serialization of the compiled code over all 2^112 patterns (Kani); reading a record, name bytes, blank detection, header acceptance (Verus, all inputs)',
  bounded='byte layout of the 2048-byte header (serde/bincode on a 2 KiB array is beyond Kani here): executable contract')
p('C06', units=['blockdev', 'layout', 'codec', 'records', 'lookup', 'paths', 'walk', 'filetree', 'scan'], cli=True, level='exploration',
  proved='no panic, overflow or out-of-bounds access in the record, lookup, walk, listing, scan and read functions of xdvdfs-core, for all device contents (partial correctness: link cycles excluded)',
  bounded='checksum, repacking source and CLI: executable contracts')
p('C07', units=['filetree', 'tables'], cli=True, level='proof',
  proved='walk and recursive listing return every record of a well-formed tree exactly once; the linear scan of a written table returns exactly the records of its tree, each once; lookup finds exactly these',
  bounded='the command line on packed images')
p('C08', units=['blockdev', 'layout'], cli=True, level='proof')
p('C09', cli=True, level='exploration')
p('C10', units=['blockdev'], cli=True, level='exploration',
  proved='reads at a partition offset are the reads of the bare image', bounded='detection, seeks and the consumers')
p('C11', units=['names', 'tables'], kani=['case_folding'], level='proof',
  proved='the name order is total and its equality is equality up to ASCII case; add_file/add_dir/compute_size/disk_repr refuse a directory exactly for a name that is too long, not encodable or there already; stored names decode to themselves',
  bounded='the character table of encoding_rs (exhaustive over all characters)')
p('C12', units=['seclin', 'img'], cli=True, level='proof',
  proved='SectorLinearBlockDevice meets the write contract image creation is proved against, every sector taken once; the number of sectors and the bytes of each sector handed to the compressor are those of the image it holds, for every sequence of writes and files; with create_xdvdfs_image that image is one of the source',
  bounded='the ciso crate (assumed), equality with the raw image bit by bit, reading back through the command line')
p('C13', units=['checksum'], cli=True, level='proof',
  proved='checksum: for every image whose links form trees and whose paths are distinct, the digest is that of the concatenation, in ascending byte order of the full paths, of each path and the bytes of the file; two images with the same paths and contents feed the same bytes whatever their layout, and a differing file byte gives different bytes',
  bounded='the sha3 crate (assumed); end to end and through the command line')
p('C14', cli=True, level='exploration')
p('C15', harness='fsd-harness', level='exploration')
p('C16', cli=True, level='exploration')
p('C17', units=['avl', 'tables'], level='proof',
  proved='AVL insertion and rebalancing, preorder renumbering, and that the links on the disk form a balanced search tree', bounded='end to end on packed images')
p('C18', cli=True, level='exploration')
p('C19', cli=True, level='exploration')
