#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os

OD = ["ordereddict.go", "bptree/bptree.go", "bptree/leaf.go", "bptree/nonleaf.go",
      "bptree/leaflist.go", "bptree/key.go", "bptree/value.go"]
D = ["dict.go", "hashmap/hashmap.go", "hashmap/internal/protocol/hashmap.pb.go",
     "hashmap/internal/protocol/bytesview.go"]

def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=state or [],
                             mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=observe, hook_needed=None))

props = [
P("C01", "OrderedDict operations agree with a key/value map on every history",
  "For every sequence of Set, SetIfExists, SetIfNotExists, Clear and Test calls on an OrderedDict, each call has exactly the effect and returns exactly the flag and (when asked for) the value that a plain map from byte strings to byte strings would give, and a key that was never set, or was cleared, is absent. This holds whatever the number of records, the lengths of keys and values, the order of the operations and the internal splits, shifts and merges they cause; no operation panics or fails to terminate. A value is returned only when it was asked for, and asking for it never changes the effect.",
  ["histories", "inputs"],
  "all operation histories over keys/values of every size class; in particular every pre-state geometry of a node and its siblings (load just above/below each threshold) times every operation position",
  "The repository's stable tests run three operations on an ordered dictionary and a few page-level unit tests with 6 short keys; no test that runs splits a page, reaches height 2, or uses a key longer than 8 bytes.",
  OD,
  [("find/insert/remove/replace a record", "bptree/bptree.go insertRecord, removeRecord, replaceValue, findRecord, syncKey"),
   ("rebalancing: shift, split, merge of leafs and non-leafs", "bptree/bptree.go ensureNotOverload*/ensureNotUnderload*; bptree/leaf.go, bptree/nonleaf.go Count*/Shift*/Split/Merge*"),
   ("key comparison across inline and overflowed keys", "bptree/key.go keyComparer.CompareKey")],
  ["return values of OrderedDict.Set/SetIfExists/SetIfNotExists/Clear/Test"],
  [dict(name="record path", meaning="addresses and indexes from root to record, repaired after each restructuring", where="bptree/bptree.go recordPath")]),

P("C02", "Range queries return exactly the records in range, in order, both ways",
  "RangeAsc(min, max) and RangeDesc(min, max) on an OrderedDict visit exactly the records whose keys lie in the inclusive range [min...max], each once, with its current value, in strictly ascending respectively descending byte order, and then end. The bounds may be present or absent keys, lie before, between or after all records, be equal, be inverted (empty result) or be MinKey/MaxKey, which stand for the smallest and largest key present.",
  ["inputs", "histories"],
  "all pairs of bounds (every present key, every gap, both ends, both sentinels) on every reachable tree shape up to the bound, including bounds that fall between two leafs",
  "The stable example test ranges once over two records in one leaf with present bounds; a gap between leafs, an absent equal bound or an inverted range is never tried.",
  ["ordereddict.go", "bptree/bptree.go", "bptree/iterator.go", "bptree/leaflist.go", "bptree/leaf.go", "bptree/nonleaf.go", "bptree/key.go"],
  [("range search", "bptree/bptree.go search"), ("iteration along the leaf list", "bptree/iterator.go Advance/preAdvance"),
   ("leaf list maintenance", "bptree/leaflist.go InsertLeafAfter/RemoveLeaf")],
  ["sequence of records delivered by the iterators of OrderedDict.RangeAsc/RangeDesc"]),

P("C03", "Iterators report every record faithfully, piecewise too, and end cleanly",
  "At each position of an OrderedDict iterator the key and value sizes, the whole-key/whole-value/whole-record reads and every partial read (any offset, any buffer length) agree with the record's bytes: a partial read delivers min(buffer length, size-offset) bytes, none at or past the end. Once the last record has been passed the iterator stays at its end, every read on it returns an error and no data, and advancing it further does nothing; iterators do not influence one another.",
  ["inputs", "histories"],
  "all offsets and buffer lengths for keys and values of every size around the inline/overflow boundaries, all iterator positions, all interleavings of two iterators up to the bound",
  "The only stable tests that touch iterators read whole short records; no partial read, size query or read past the end is tested.",
  ["bptree/iterator.go", "bptree/key.go", "bptree/value.go"],
  [("partial reads across the inline prefix and the overflow", "bptree/key.go ReadKey; bptree/value.go ReadValue"),
   ("end of iteration", "bptree/iterator.go preAdvance, errEndOfIteration")],
  ["results of Iterator.GetKeySize/ReadKey/ReadKeyAll/GetValueSize/ReadValue/ReadValueAll/ReadRecordAll/IsAtEnd/Advance"]),

P("C04", "The B+ tree stays balanced, compact and within its pages",
  "After every operation all records of an OrderedDict lie at the same depth, which is the reported height; no page holds more than fits into it; every page except the root is at least a quarter full and the root is a single leaf or has at least two children. Page contents are well-formed: keys strictly ascending within and across leafs, each separator equal to the smallest key below it, the leaf list threading exactly the leafs in key order in both directions.",
  ["histories", "inputs"],
  "every operation (position x record size) from every valid configuration of a page, its neighbours and its parent near the load thresholds, and along complete build/drain histories up to height 4",
  "Page-level unit tests insert six tiny records into one page; the thresholds that decide shifting, splitting and merging are never reached by a test that runs.",
  ["bptree/bptree.go", "bptree/leaf.go", "bptree/nonleaf.go", "bptree/leaflist.go"],
  [("overload/underload thresholds", "bptree/leaf.go, bptree/nonleaf.go constants and Count* functions"),
   ("restructuring", "bptree/bptree.go ensureNot*, increaseHeight, decreaseHeight, syncKey")],
  ["OrderedDict.Stats; the stored pages as read by an independent decoder of the documented layout"]),

P("C05", "An OrderedDict survives close and reopen unchanged, at any point",
  "Closing an OrderedDict after any history and opening the same file again yields a dictionary with the same records, order, values, counts and shape, in which every further operation behaves as if the dictionary had never been closed. This holds for any number of close/reopen cycles at any positions of the history.",
  ["histories"],
  "every history up to the bound with a close/reopen inserted at every position, for every size class and tree height up to 4",
  "One stable example reopens a two-record single-leaf tree once; heights above 1, overflowed records and repeated cycles are never stored and loaded by a test that runs.",
  ["ordereddict.go", "bptree/bptree.go"],
  [("Store/Load of the tree descriptor", "bptree/bptree.go Store, Load; ordereddict.go Close, OpenOrderedDict")],
  ["all query results and Stats after OpenOrderedDict"]),

P("C06", "Dict operations agree with a key/value map on every history",
  "For every sequence of Set, SetIfExists, SetIfNotExists, Clear and Test calls on a Dict, each call has exactly the effect and returns exactly the flag and (when asked for) the value that a plain map from byte strings to byte strings would give. This holds whatever the number of items, the key and value lengths, hash collisions between keys, and the growth and shrinking of the table; no operation panics or fails to terminate. A value is returned only when it was asked for, and asking for it never changes the effect.",
  ["histories", "inputs"],
  "all operation histories over small colliding key sets up to closure, and complete grow/shrink histories across every directory boundary (4096 slots, 8 directories)",
  "The stable example performs three writes on a one-slot table; the randomized hashmap tests do not run because their word list is missing. Directory growth, shrinking and equal-hash keys are untested.",
  D,
  [("locate an item by hash and bytes", "hashmap/hashmap.go locateItem, matchItem, calculateSlotIndex"),
   ("incremental split/merge of slots", "hashmap/hashmap.go maybeExpand, maybeShrink, splitItems, mergeItems, addSlotDir, removeSlotDir, adjustSlotDirs"),
   ("slot encoding", "hashmap/hashmap.go packSlot, unpackSlot")],
  ["return values of Dict.Set/SetIfExists/SetIfNotExists/Clear/Test"]),

P("C07", "Scanning a Dict delivers every item exactly once and then ends",
  "Starting from a zero cursor and repeating Scan on a Dict that is not modified meanwhile delivers each item exactly once, with its exact key and current value, and then reports that there are no more items, also on every further call. Cursors are independent of one another and lookups in between do not disturb them; a scan of an empty dictionary delivers nothing.",
  ["histories", "inputs", "schedules"],
  "every reachable table state over the small key sets and every table size along grow/shrink histories, all interleavings of two cursors and lookups up to the bound",
  "The stable example scans two items in a single slot; empty slots, multi-item slots, several directories and a second cursor are not covered.",
  ["dict.go", "hashmap/hashmap.go"],
  [("cursor over slots and items", "hashmap/hashmap.go FetchItem, Cursor")],
  ["results of Dict.Scan"]),

P("C08", "The Dict's table grows and shrinks in proportion to its items",
  "After every operation a Dict holds at most about 1.62 items per hash slot on average and, unless it has a single slot, at least about 0.81; it has just enough slot directories for its slots with at most one spare. An emptied dictionary is back at one slot and one directory, and the table size is the same whether or not the dictionary was closed and reopened in between.",
  ["histories"],
  "all histories over the small alphabets and complete grow/shrink histories crossing every directory boundary in both directions, including oscillation at each boundary",
  "Only the non-running randomized tests look at the table size, and only after emptying the map.",
  ["hashmap/hashmap.go", "dict.go"],
  [("load factor bounds", "hashmap/hashmap.go maybeExpand, maybeShrink, loadFactor"),
   ("directory hysteresis", "hashmap/hashmap.go addSlot, removeSlot, addSlotDir, removeSlotDir, adjustSlotDirs")],
  ["Dict.Stats (NumberOfHashItems, NumberOfHashSlots, NumberOfHashSlotDirs)"]),

P("C09", "A Dict survives close and reopen unchanged, at any point",
  "Closing a Dict after any history and opening the same file again yields a dictionary with the same items, values, counts and table size, in which every further operation behaves as if the dictionary had never been closed. This holds for any number of close/reopen cycles at any positions of the history.",
  ["histories"],
  "every history up to the bound with a close/reopen inserted at every position, and at every table size along grow/shrink histories including several slot directories",
  "One stable example reopens a one-slot table with two items once.",
  ["dict.go", "hashmap/hashmap.go"],
  [("Store/Load of the table descriptor", "hashmap/hashmap.go Store, Load; dict.go Close, OpenDict")],
  ["all query results, Scan and Stats after OpenDict"]),

P("C10", "Keys and values of any length are stored and ordered byte for byte",
  "Any byte string, including the empty one, strings with arbitrary byte values and strings far longer than a page, can be a key or a value in both dictionaries; it is returned byte for byte by lookups, scans, ranges and removals, and replacing a value by one of any other length works. Two keys are the same only if all their bytes are equal, and an OrderedDict orders keys of any lengths, also ones sharing arbitrarily long prefixes, by plain byte-wise comparison.",
  ["inputs"],
  "every key length and value length from 0 up to the bound, every pair of lengths around each representation boundary for replacement, and every pair/triple of keys from a family sharing prefixes around those boundaries",
  "Stable tests use keys and values of at most eight bytes in the dictionaries; overflow handling is only unit-tested for single keys/values in isolation.",
  ["bptree/key.go", "bptree/value.go", "bptree/bptree.go", "hashmap/hashmap.go"],
  [("inline/overflow representation", "bptree/key.go keyFactory; bptree/value.go valueFactory"),
   ("prefix-aware comparison", "bptree/key.go keyComparer"), ("length fields and last-value optimization", "hashmap/hashmap.go packSlot/unpackSlot, maxShortKeySize")],
  ["values and keys returned by all read operations; order of Range results"]),

P("C11", "File space is released: nothing leaks and nothing is freed twice",
  "Whatever its history, a dictionary that has been emptied occupies the same file space as a freshly created one; replacing values, clearing keys, re-adding and closing/reopening do not accumulate space. Space is never released twice or used after release, and destroying a tree or hash map returns all space it occupies to the storage, leaving it usable for a new one.",
  ["histories"],
  "all histories up to the bound followed by a drain, with every allocation and release of the real code observed, plus complete build/drain histories over all size classes",
  "The space assertions exist only in tests that do not run, and only for an emptied structure; a leak of one overflow area or page in one code path is invisible to them.",
  ["bptree/bptree.go", "bptree/key.go", "bptree/value.go", "hashmap/hashmap.go", "dict.go", "ordereddict.go"],
  [("release on replace/delete/merge/shrink", "bptree destroyRecord, replaceValue, destroyLeaf, destroyNonLeaf; hashmap restoreSlot, eraseSlot, removeSlotDir, adjustSlotDirs"),
   ("release of the descriptor on Load", "bptree.Load, hashmap.Load"), ("Destroy", "bptree.Destroy, hashmap.Destroy")],
  ["Stats().FSM.AllocatedSpaceSize; allocations/releases at the file storage interface"]),

P("C12", "Statistics always equal what is stored",
  "After every operation, and after reopening, Stats reports exactly the number of records/items present and the exact sum of the lengths of their keys and values; for an OrderedDict also the exact numbers of leafs and non-leafs and the height of the stored tree, and for a Dict the exact number of slots and slot directories in use, and, as the statistics of the file, those of the storage at that time.",
  ["histories"],
  "every state of the explored histories, including replacing values without asking for the old one, overflowed keys and values, page splits/merges at all levels, and close/reopen",
  "No test that runs calls Stats.",
  ["ordereddict.go", "dict.go", "bptree/bptree.go", "hashmap/hashmap.go"],
  [("counter updates next to each structural change", "bptree createRecord/destroyRecord/replaceValue/createLeaf/destroyLeaf/...; hashmap appendItem/removeItem/replaceValue/addSlot/...")],
  ["OrderedDict.Stats, Dict.Stats, bptree.BPTree and hashmap.HashMap getters"]),

P("C13", "Dictionaries never alias the caller's memory",
  "A dictionary never keeps a reference to a key or value slice passed in: the caller may change it right after the call without affecting stored data. Every slice handed out is the caller's own: changing it does not affect the dictionary, and no later operation, including Close, changes or invalidates it.",
  ["histories", "inputs"],
  "all histories up to the bound with every argument overwritten after each call and every returned slice re-checked after every later call and overwritten at the end",
  "Aliasing only shows when a slice is used after a later call; tests use returned slices at once and never modify arguments.",
  ["dict.go", "ordereddict.go", "bptree/bptree.go", "bptree/iterator.go", "bptree/key.go", "bptree/value.go", "hashmap/hashmap.go"],
  [("defensive copies", "bptree/common.go copyBytes, ReadKeyAll/ReadValueAll; hashmap/hashmap.go copyBytes in getValue/removeItem/replaceValue/FetchItem")],
  ["argument and result slices of all operations"]),

P("C14", "Read operations have no side effects",
  "Test, Scan, RangeAsc, RangeDesc, iterator reads, Stats and failed conditional writes (SetIfExists on an absent key, SetIfNotExists on a present key, Clear of an absent key) change nothing: not the stored bytes, not the space in use, not the counters, not the position of other cursors or iterators. Lookups running in several goroutines without a writer therefore return the same results as when run one at a time, under every interleaving.",
  ["histories", "schedules"],
  "every read operation in every explored state with the storage compared byte by byte, and all interleavings of concurrent lookups at storage-access granularity up to the preemption bound",
  "No test inspects the storage around a read or runs lookups concurrently.",
  ["bptree/bptree.go", "bptree/iterator.go", "hashmap/hashmap.go"],
  [("read paths", "bptree findRecord/getValue/search/iterator; hashmap locateItem/getValue/FetchItem")],
  ["stored bytes and Stats before/after; results of concurrent lookups"]),

P("C15", "Results do not depend on how the storage moves, places or recycles space",
  "The behaviour of a dictionary is the same under every legal behaviour of the underlying file storage: the mapping may move on any allocation or release, released space may be handed out again at once or never, fresh space may contain arbitrary old bytes, granted areas may be larger than requested, and addresses may be anywhere in a file of any size.",
  ["fault_sequences", "histories", "configurations"],
  "for fixed histories covering all structural operations: a mapping move at every single allocation/release (and every pair, for short ones), times reuse policy, fill bytes, slack and address range",
  "In the tests the mapping moves at a handful of fixed points and files stay below a few pages; a stale accessor is harmless unless the move happens exactly between fetch and use.",
  ["bptree/bptree.go", "bptree/leaf.go", "bptree/nonleaf.go", "hashmap/hashmap.go"],
  [("re-fetching accessors after allocations", "bptree.go 'fix node controllers' sections, replaceValue; hashmap.go copyBytes of slot data, addrRef")],
  ["results of all operations under each storage behaviour"]),

P("C16", "Trees, hash maps and foreign data share one storage without interference",
  "Several B+ trees and hash maps, and space allocated by other code, can live in one file storage: operations on one never change the contents or counts of another or of foreign space, in any interleaving of their operations. Each can be stored, loaded, destroyed and created again independently of the others.",
  ["histories"],
  "all interleaved operation sequences up to the bound over one tree, one hash map and foreign allocations on the same storage, including Store/Load and Destroy/Create of each",
  "Every test uses one structure per storage.",
  ["bptree/bptree.go", "hashmap/hashmap.go"],
  [("all state kept in own allocations", "bptree Init/Create/Destroy/Store/Load; hashmap Init/Create/Destroy/Store/Load")],
  ["contents of each structure and of foreign areas after every operation"]),

P("C17", "Separate dictionaries can be used from separate goroutines",
  "Dictionaries opened on different files are independent: goroutines each using their own dictionary, whatever the interleaving of their operations, obtain exactly the results and final contents they would obtain alone, without data races.",
  ["schedules"],
  "all interleavings at storage-access granularity of two goroutines' operation scripts up to the preemption bound, plus a free-running race-detector pass over the same scripts",
  "No test runs two dictionaries, let alone concurrently; package-level scratch state would go unnoticed.",
  ["dict.go", "ordereddict.go", "bptree/bptree.go", "bptree/key.go", "bptree/value.go", "hashmap/hashmap.go"],
  [("no mutable package-level state", "package variables of bptree and hashmap")],
  ["results of each goroutine's operations; race detector reports"]),

P("C18", "Opening creates, finds or refuses a file as documented",
  "OpenDict and OpenOrderedDict on a missing file create an empty dictionary if and only if creation was requested, and otherwise return an error without creating anything; on an existing dictionary file they open its contents whichever way the flag is set, never emptying it; on something that is not a storage file or cannot be opened they return an error, no dictionary, and leave it unchanged. After Close the file alone carries the dictionary: it can be moved, copied and opened under another name.",
  ["configurations", "histories"],
  "all sequences up to the bound of open (each flag), write, close, copy, remove over the file states missing / missing parent / directory / foreign content / empty dictionary / filled dictionary, for both kinds",
  "The examples open one existing and one new file with one flag combination each and never look at failures.",
  ["dict.go", "ordereddict.go"],
  [("open protocol", "dict.go OpenDict; ordereddict.go OpenOrderedDict")],
  ["error results of OpenDict/OpenOrderedDict and the files on disk"]),

P("C19", "MinKey and MaxKey are markers, not key values",
  "MinKey and MaxKey are recognised as the markers themselves, never by their bytes: keys that merely have the same bytes as a marker are ordinary keys in every operation. Given to Test, Clear, SetIfExists (and, on a dictionary that is not empty, Set and SetIfNotExists), MinKey designates the record with the smallest key and MaxKey the record with the largest key.",
  ["inputs", "histories"],
  "all histories up to the bound mixing the markers with ordinary keys including byte-wise equal ones, on single-leaf and multi-level trees",
  "Stable tests use the markers once as range bounds; a key equal to a marker's bytes, or a marker given to a point operation, is untested.",
  ["bptree/key.go", "bptree/leaf.go", "bptree/nonleaf.go", "bptree/bptree.go", "ordereddict.go"],
  [("identity test", "bptree/key.go isMinKey/isMaxKey"), ("marker short cuts", "LocateRecord, LocateChild, search")],
  ["results of point and range operations given markers or look-alike keys"]),

P("C20", "The stored format is stable: existing files stay readable and writable",
  "Files follow the documented page, record, slot and descriptor layout: contents written in that layout by an independent writer, or by the pinned version, are opened, read, updated and emptied correctly, and whatever the library writes is read back identically by an independent reader of that layout. In particular every item sits in the hash slot its key's 64-bit FNV-1a hash selects, and long keys and values are split at the documented sizes.",
  ["inputs", "histories", "configurations"],
  "all small contents and layouts enumerated by an independent encoder (tree partitions, slot distributions, size classes) in both directions, plus files written by the pinned version",
  "Tests only read what the same build has just written, so a consistent change of format or hash goes unnoticed.",
  ["bptree/leaf.go", "bptree/nonleaf.go", "bptree/key.go", "bptree/value.go", "bptree/bptree.go", "hashmap/hashmap.go",
   "hashmap/internal/protocol/hashmap.proto", "docs/bptree_leaf_structure.dot", "docs/bptree_nonleaf_structure.dot", "docs/bptree_kv_structure.dot", "docs/hashmap_structure.dot"],
  [("page headers and offsets", "leaf.go, nonleaf.go header types"), ("descriptors", "bpTreeInfo; HashMapInfo"), ("slots", "HashSlot, packSlot/unpackSlot, sumKey")],
  ["stored bytes as seen by an independent decoder; query results on independently encoded files"]),

P("C21", "The debug dump shows every record once and reports write errors",
  "Dumping a B+ tree writes each record exactly once, in ascending key order, with its quoted key and value, for every tree shape. If the writer fails at any write, the dump stops and returns that error; if it does not fail, the dump returns none.",
  ["histories", "fault_sequences"],
  "every explored tree shape, and for each a writer failing at every single write",
  "The only dump test is disabled.",
  ["bptree/fprint.go"],
  [("recursive dump with error propagation", "bptree/fprint.go doFprint")],
  ["text written by BPTree.Fprint and its error result"]),

P("C22", "An operation's work depends on the depth, not on the number of records",
  "Set, SetIfExists, SetIfNotExists, Clear, Test, obtaining a range iterator and each step of it touch a number of pages of the file proportional to the height of the OrderedDict at most, and each operation on a Dict a constant number of spaces, however many records there are; a complete Scan touches each slot about once. Opening, closing and Stats do not read the records.",
  ["inputs", "histories"],
  "the bound must hold at every state: splits and merges through all levels, growing and shrinking at directory borders, ranges of any width",
  "Tests look at results only; code which walks all leafs or slots now and then gives the same ones.",
  ["bptree/bptree.go", "bptree/iterator.go", "bptree/leaflist.go", "hashmap/hashmap.go", "dict.go", "ordereddict.go"],
  [("search from the root", "bptree.go findRecord, search"), ("one step of growing or shrinking per operation", "hashmap.go maybeExpand/maybeShrink"), ("descriptors", "Store/Load of both")],
  ["distinct spaces of the file touched by an operation"]),
]

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props))
