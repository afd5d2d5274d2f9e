# units: template name -> default properties of its obligations
UNITS = {
    "ins": {"props": ["C01", "C02", "C03", "C06"]},
    "del": {"props": ["C01", "C02", "C03", "C06"]},
    "node": {"props": ["C01", "C03", "C16"]},
    "vf": {"props": ["C05", "C08", "C12"]},
    "hdr": {"props": ["C12"]},
    "bulk": {"props": ["C11"]},
    "kt": {"props": ["C10"]},
    "nc": {"props": ["C04", "C05", "C16"]},
    "dur": {"props": ["C04", "C05"]},
    "hp": {"props": ["C06", "C07"]},
    "kf": {"props": ["C05", "C06", "C07", "C08"]},
    "vl": {"props": ["C05", "C06", "C07", "C08"]},
    "mem": {"props": ["C14"]},
    "top": {"props": ["C01", "C02"]},
    "uu": {"props": ["C01"]},
    "htx": {"props": ["C09", "C15"]},
    "it": {"props": ["C02"]},
    "st": {"props": ["C15"]},
    "reg": {"props": ["C13"]},
    "ix": {"props": ["C05", "C06", "C07"]},
}
ALWAYS_TRUST = [
    "Verus, its Rust front end and Z3; rustc",
    "extract/: the rewriting of the source into the verified dialect (DESIGN.md lists each rule)",
]
TREE_TRUST = [
    "key/value/index/hash files behind their contracts (tree_state.rs), established separately",
    "klt is a strict total order (key types: see C10)",
    "node values are owned, not shared with the node cache",
]
VF_TRUST = ["rabuf::BufFile (buffered file of the dependency rabuf 0.1.20) behind the contracts in vf_common.rs; the operating system's files"]
TRUST = {
    "ins": TREE_TRUST, "del": TREE_TRUST, "top": TREE_TRUST,
    "it": TREE_TRUST + ["the map is not modified while it is iterated; the shared pointer to the map is modelled as the map itself", "not going on after a read error (unwrap) is allowed"],
    "uu": VF_TRUST + TREE_TRUST[:2],
    "node": ["raw pointer offset arithmetic in the node accessors stays within the arrays' address range (the index bounds themselves are proved)"],
    "vf": VF_TRUST,
    "hdr": VF_TRUST + [
        "std: paths, OpenOptions, format! behind contracts; the node writer leaves the 128 header bytes alone (contract of write_node)",
        "a file that is cut off between its 16th and 24th byte is not considered",
        "assert!/panic! in the header checks count as refusing the file",
    ],
    "htx": VF_TRUST + ["the table has at most 2^48 slots"],
    "hp": VF_TRUST + ["a file is shorter than 2^62 bytes"],
    "kf": VF_TRUST + ["keys behind the conversions of unit kt", "a key is at most 0xf0000000 bytes long", "the state after an operation that returned an error is not specified"],
    "ix": VF_TRUST + ["a file is shorter than 2^62 bytes", "nodes shared by Rc between the tree and the node cache are modelled as owned by one of them", "the node handed to delete_node/write_node carries the piece size of its record (set on reading); a node handed to write_node without being marked as changed is as it is stored and not waiting in the cache", "the state after an operation that returned an error is not specified"],
    "vl": VF_TRUST + ["a value is at most 0xf0000000 bytes long", "the state after an operation that returned an error is not specified"],
    "kt": [
        "std: comparison of byte slices is lexicographic, to_vec/clone/as_bytes/into_bytes/to_be_bytes/from_le_bytes/chunks behind contracts; UTF-8 encoding is injective",
        "derive(PartialEq, Eq, PartialOrd, Ord, Hash) compare and hash the one byte vector (that they are derived is checked)",
    ],
    "nc": VF_TRUST + [
        "nodes are owned, not shared with the caller (in the source both hold one reference-counted node)",
        "std: sort/binary search/copied of the standard library behind contracts",
    ],
    "mem": ["std: BTreeMap is a map up to Equal of its key order, which is equality of the stored bytes (unit kt)",
            "the registry of the maps of a memory database (db_map_string, db_map_dbint, db_map_bytes: weak and shared pointers) is only driven by the engine",
            "the file map behaves as a map (C01); bulk and string operations are the same provided trait methods on both"],
    "st": TREE_TRUST + [
        "no error is met while reading: an Err of the file layer is passed on",
        "graph_string and graph_string_with_key_string are only driven by the engine; the free node counts are only driven by the engine",
        "std: binary_search_by_key, insert, Iterator::position of the standard library behind contracts; derived orders compare the one field",
    ],
    "reg": [
        "shared pointers (Rc, RefCell) modelled as the value they point to; their derived clones point to the same value (that they are derived is checked)",
        "std: BTreeMap is a map of its text keys; paths behind contracts",
        "names are plain file names and directories are compared by their path as given; two databases opened on one directory are not considered",
        "an operation of a handle reaches only the files its map opened (they are fields of the map; no statics)",
        "the registry of a memory database is only driven by the engine",
    ],
    "dur": VF_TRUST + [
        "key, value and hash files behind the contract that flush and sync of the file reach the operating system and the disk",
        "dirty is set by every operation that changes a file (obligation of the operations, watched by the engine)",
        "a flush that returns an error met an error of the operating system; closing while panicking, or with such errors, promises nothing",
    ],
    "bulk": [
        "get_kt, put_kt and del_kt behave as a map (C01)",
        "std: to_vec, sort_by (stable), sort_unstable_by, clone, iterator collection, String conversion behind contracts",
        "keys with equal stored bytes compare as equal, and the order of the user's key type is a total order",
    ],
}
T = "contract-based deductive verification (Verus) of functions extracted from /repo on each run; bounded replay engine for failing inputs"
PROPS = {
    "C01": {
        "level": "proof", "units": ["ins", "del", "node", "top", "uu"], "technique": T,
        "note": "Verus discharges the contracts of the insertion and deletion paths for all trees and keys; the file layer below is by contract; the bounded engine drives the whole real crate.",
    },
    "C02": {
        "level": "proof", "units": ["it", "ins", "del", "top", "kt"], "technique": T,
        "note": "Verus discharges for all trees that every iterator form yields exactly the entries, each once with its value, in strictly ascending order of the stored bytes, and then ends; the tree invariants it rests on are those of C01 and C03; the bounded engine iterates the real crate over many shapes.",
    },
    "C03": {
        "level": "proof", "units": ["ins", "del", "node"], "technique": T,
        "note": "Verus discharges order, balance and fill of the tree over every insertion and deletion for all trees and keys; the file layer below is by contract; the bounded engine drives the whole real crate.",
    },
    "C04": {
        "level": "proof", "units": ["dur", "nc", "reg"], "technique": T,
        "note": "Verus discharges that flush and sync of the map and of its files leave no node only in the cache and every file written through, and the node cache's contracts; the bounded engine compares the files on disk and watches fsync.",
    },
    "C05": {
        "level": "proof", "units": ["vf", "hdr", "nc", "dur", "kf", "vl", "ix", "htx", "uu"], "technique": T,
        "note": "Verus discharges that closing leaves every file as the map's bytes, that opening takes those bytes, the root and the table size as they are, and that the key, value, node and slot contents are functions of these bytes (node encoding read back exactly); the bounded engine reopens the real crate at many points of histories.",
    },
    "C06": {
        "level": "proof", "units": ["vf", "hp", "kf", "vl", "ix"], "technique": T,
        "note": "Verus discharges for all contents of the key, value and node file that records in use and on the free lists tile the record area without overlap, each free record being on the one list of its class; the bounded engine scans all three files.",
    },
    "C07": {
        "level": "proof", "units": ["vf", "hp", "kf", "vl", "ix"], "technique": T,
        "note": "Verus discharges for all contents of the key, value and node file that every record is in use or on a free list, and that the file grows only if no free record of the class fits; the bounded engine scans all three files and repeats cycles.",
    },
    "C08": {
        "level": "proof", "units": ["vf", "hp", "kf", "vl"], "technique": T,
        "note": "Verus discharges that key and value records of any bytes and length are written and read back exactly and always fit their storage, for all file contents; the bounded engine varies lengths over the real crate.",
    },
    "C09": {
        "level": "proof", "units": ["ins", "del", "top", "uu", "htx"], "technique": T,
        "note": "Verus discharges that every slot in use names the live record of a key that selects it, over every operation, that get, put and del answer as the tree alone would, and that a slot is the one of its hash and the count the slots in use; the bounded engine scans the table and uses colliding keys.",
    },
    "C10": {
        "level": "proof", "units": ["kt"], "technique": T,
        "note": "Verus discharges every conversion, comparison and the hash of the three key types against the byte order for all values, with lemmas that the order is total and agrees with integers.",
    },
    "C11": {
        "level": "proof", "units": ["bulk"], "technique": T,
        "note": "Verus discharges for all requests that the bulk operations give the results and the final map of the single operations in order; sorting by contract of std.",
    },
    "C12": {
        "level": "proof", "units": ["vf", "hdr"], "technique": T,
        "note": "Verus discharges the opening of the four files for all file contents: new files get the two signatures, old ones are accepted only with them and stay unchanged.",
    },
    "C13": {
        "level": "proof", "units": ["reg", "hdr"], "technique": T,
        "note": "Verus discharges that every handle got for a name is the one open map registered under that name, in any order of requests, that opening a map changes no other entry, that a map is opened on the four files of its name in its directory, and that different names have no file in common; the bounded engine interleaves maps and handles of real databases.",
    },
    "C14": {
        "level": "proof", "units": ["mem"], "technique": T,
        "note": "Verus discharges that every operation of the three kinds of memory map has exactly the result and effect of a map keyed by the stored bytes, the contract the file map has; the bounded engine runs equal histories on both databases.",
    },
    "C15": {
        "level": "proof", "units": ["st", "htx", "kf", "vl", "ix"], "technique": T,
        "note": "Verus discharges for all map states that the checks of balance, order and density hold and the depth is the tree's, that every histogram and used count is exactly that of the stored records (each once) and nodes, that the free counts are those of the free lists, of all three files, and the slot count that of the table; graph strings by the bounded engine.",
    },
    "C16": {
        "level": "proof", "units": ["nc", "dur", "node", "ix"], "technique": T,
        "note": "Verus discharges that the node cache is transparent: what is read is what was last written, for all cache states and evictions; buffer sizes by contract of the dependency; the bounded engine compares maps under different parameters.",
    },
}
HOOKS = None
NOT_APPLICABLE = {}
