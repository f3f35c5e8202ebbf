"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

B = ["data/buffer.c", "data/buffer.h"]
p("C01", "A growing buffer is exactly the byte sequence its edits describe",
  "After any sequence of append, insert, remove, clear, reserve, reallocate, shrink, swap and acquire calls, a buffer's reported size and contents equal those of a byte string edited the same way: inserted bytes appear at the given offset, all other bytes keep their value and relative order, and a removal reaching past the end truncates at its offset. Capacity changes never alter contents except that reallocating below the current size truncates to that size, and swap/acquire hand over exactly the current contents and leave the other buffer/an empty reusable buffer behind.",
  ["histories", "inputs"], "every finite history of buffer operations with every in-range offset, every length (including 0, lengths larger than what remains, and lengths whose sum with the size overflows) and every content",
  "tests/test-buffer.c runs a handful of fixed short sequences with sizes far from the growth/shrink thresholds; the guarantee quantifies over all histories and offsets, including those that cross reallocation boundaries.",
  B, [("buffer_insert_raw / buffer_insert / buffer_append", "data/buffer.c"), ("buffer_remove", "data/buffer.c"), ("buffer_realloc / buffer_reserve / buffer_shrink", "data/buffer.c"), ("buffer_swap / buffer_acquire / buffer_clear", "data/buffer.h")],
  [("data,size", "contents of the buffer", "BUFFER in data/buffer.h")])
p("C02", "Buffer growth is safe: reserved space exists, failures change nothing",
  "A successful reserve of n bytes guarantees that the following appends/inserts totalling up to n bytes cannot fail and do not move or reallocate the storage. If memory cannot be obtained or the requested size cannot be represented, the operation reports failure and the buffer's contents and size are unchanged and it stays usable. Every block the buffer allocates is freed exactly once over the buffer's life, and an emptied buffer holds no memory.",
  ["histories", "fault_sequences", "inputs"], "every history of operations, every placement of allocation failures in it, and every requested length up to SIZE_MAX",
  "No existing test injects an allocation failure, asks for absurd sizes or looks at the allocator; leak/ownership faults are invisible to content assertions.",
  B, [("buffer_reserve, buffer_good_alloc_size", "data/buffer.c"), ("buffer_realloc", "data/buffer.c"), ("buffer_remove (shrink path)", "data/buffer.c"), ("buffer_fini / buffer_acquire", "data/buffer.h")],
  [("alloc", "capacity", "BUFFER in data/buffer.h")], ["malloc/realloc/free calls"])
p("C03", "The stack pops and peeks exactly what was pushed, last in first out",
  "For any interleaving of pushes and pops of differently sized and signed integer, pointer and raw items, a peek or pop of the top item yields bit-for-bit the most recently pushed item not yet popped, peek leaves the stack unchanged and pop removes exactly that item. Size and emptiness always reflect the items present; clear, acquire and swap act on all of them.",
  ["histories", "inputs"], "every history of typed/raw push, peek, pop, clear, reserve, swap, acquire with every value of every item type",
  "tests/test-buffer.c pushes one value of each type; widths, signs and growth boundaries in mixed order are not sampled.",
  B, [("stack_push_* / stack_peek_* / stack_pop_*", "data/buffer.h"), ("buffer_insert / buffer_remove", "data/buffer.c")])
p("C04", "Typed arrays behave as element sequences for every element type",
  "For each element type, after any history of append, insert, insert-n, append-n, set, remove, remove-n and acquire, the reported element count and every element read back equal those of a plain sequence edited the same way, for every value of the element type. Indices and counts are in elements, never in bytes.",
  ["histories", "inputs", "configurations"], "all nine element types, every history, every in-range index, every count and every element value",
  "The nine instantiations are textual copies; the existing test covers only one or two of them with a short fixed sequence, so a slip in one copy is unseen.",
  B, [("array_T_insert / append / remove / remove_n / set / get / acquire", "data/buffer.h"), ("buffer_insert_raw / buffer_remove", "data/buffer.c")])

H = ["data/htable.c", "data/htable.h"]
p("C05", "The hash table is a map under any history and any hash function",
  "After any history of insertions and removals, lookup of a key returns exactly the node currently stored under an equal key and nothing for absent keys; a checked insertion of a key already present fails and changes nothing; removal returns the stored node and afterwards the key is absent; emptiness is reported correctly. Where the application put several nodes of one key into the table with the unchecked insertion, lookup and removal concern any one of them and the others stay. This holds regardless of how keys collide and at every table size the table grows or shrinks through.",
  ["histories", "inputs"], "every history (up to a million keys, several grow/shrink cycles) and every hash function consistent with key equality, including constant and adversarial ones",
  "tests/test-htable.c inserts one fixed set with a good hash; collisions together with shrinking, duplicate insertions at other sizes, and interleavings are not reached.",
  H, [("htable_lookup_internal (searches every plane)", "data/htable.c"), ("htable_grow / htable_shrink (plane merge)", "data/htable.c"), ("htable_insert_internal / htable_remove", "data/htable.c")],
  [("planes,n_planes,n", "slot planes, number of planes, number of nodes", "HTABLE in data/htable.h")])
p("C06", "Hash table teardown and memory failure never lose or repeat a node",
  "Finalizing a table calls the destructor exactly once for each node it contains, for no other node, never touches a node after its destructor ran, frees all table memory and leaves an empty reusable table. An insertion that fails for lack of memory leaves the table's contents exactly as before and usable, and a table emptied by removals holds no memory.",
  ["histories", "fault_sequences"], "every history, every placement of allocation failures and every table size at teardown",
  "No test fails an allocation or checks destructor calls per node over grown/shrunk tables.",
  H, [("htable_fini", "data/htable.c"), ("htable_grow error paths", "data/htable.c"), ("htable_free_all_planes", "data/htable.c")], None, ["destructor calls", "malloc/realloc/free calls"])

p("C07", "Intrusive lists hold exactly the spliced sequence, in both directions",
  "After any history of inserting at the ends, inserting before/after a member and removing members, walking a list forwards yields exactly the nodes of the equivalently edited sequence, walking a double-linked list backwards yields the reverse, and head, tail, emptiness and end-of-walk tests agree with it. This holds for the double-linked, single-linked and queue variants independently of list length, including transitions through the empty and one-element list.",
  ["histories"], "every history of operations on every list variant, for every position",
  "tests/test-list.c walks fixed scripts of up to a few nodes; the property is over all splice histories.",
  ["data/list.h"], [("list_insert_* / list_remove*", "data/list.h"), ("slist_insert_* / slist_remove_*", "data/list.h"), ("qlist_insert_* / qlist_remove_*", "data/list.h")],
  [("next/prev/tail links", "list linkage", "data/list.h")])

R = ["data/rbtree.c", "data/rbtree.h"]
p("C08", "The red-black tree is an ordered set of nodes under any history",
  "After any history of insertions and removals, an in-order walk yields exactly the nodes inserted and not removed, in comparator order; lookup returns the node equal to the key or nothing; inserting a node equal to a present one fails and changes nothing; removal by key returns and detaches exactly that node, or nothing when absent.",
  ["histories", "inputs"], "every history and every strict total order comparator",
  "tests/test-rbtree.c inserts/removes a few fixed permutations; the rebalancing cases reached depend on the history.",
  R, [("rbtree_insert / rbtree_fix_after_insert", "data/rbtree.c"), ("rbtree_remove / rbtree_fix_after_remove", "data/rbtree.c"), ("rbtree_lookup / rbtree_lookup_ex", "data/rbtree.c")],
  [("lc,r", "left child + colour bit, right child", "RBTREE_NODE in data/rbtree.h")])
p("C09", "The red-black tree stays balanced after every operation",
  "After every insertion and removal the tree satisfies the red-black rules (black root, no red node with a red child, equal black height on every root-to-leaf path, search order), so its height never exceeds 2*log2(n+1) and lookups, insertions and removals make at most that many comparisons (plus a constant).",
  ["histories"], "every history of insertions and removals",
  "Losing balance does not change any lookup result, so functional assertions pass; only specific removal histories exercise each fix-up case.",
  R, [("rbtree_fix_after_insert", "data/rbtree.c"), ("rbtree_fix_after_remove", "data/rbtree.c"), ("rbtree_verify (test builds)", "data/rbtree.c")], None, ["tree shape", "comparator calls"])
p("C10", "Tree cursors always stand on the right node and step in order",
  "A cursor set by head, tail or a successful lookup reports that node as current; next and prev move it to the in-order successor/predecessor from any position, in any alternation, and at either end report no node without losing the position. An unsuccessful lookup leaves the cursor without a current node.",
  ["histories", "inputs"], "every tree reachable by insert/remove histories and every sequence of cursor movements on it",
  "Tests walk each tree once in one direction; direction changes at every position of every tree shape are not sampled.",
  R, [("rbtree_head/tail/next/prev/current", "data/rbtree.c, data/rbtree.h"), ("rbtree_lookup_ex", "data/rbtree.c")], [("stack,n", "path from root to current node", "RBTREE_CURSOR in data/rbtree.h")])
p("C11", "Stepwise tree teardown yields every node exactly once and never re-reads it",
  "Repeated teardown steps return every node of the tree exactly once and then report completion with the tree empty and reusable, and a node may be destroyed as soon as it is returned because later steps never access it.",
  ["histories"], "every tree reachable by insert/remove histories",
  "Existing tests tear trees down without poisoning released nodes or counting each one.",
  R, [("rbtree_fini_step", "data/rbtree.c")])

V = ["data/value.c", "data/value.h"]
p("C12", "A dictionary value is a map from byte-string keys under any history",
  "After any history of add, get-or-add, set-through-handle, remove and clean operations, a dictionary contains exactly the keys added and not removed, each with its own value; get returns the value for exactly that key (keys of any bytes and any length, including empty keys, embedded NULs and keys that are prefixes of one another) and nothing otherwise. Adding a key already used fails without changing anything, get-or-add returns the existing value, removing an absent key reports failure, and size and key enumeration agree with this; a custom key comparator alone decides equality and order.",
  ["histories", "inputs", "configurations"], "every history, every key byte string, with and without insertion-order maintenance and custom comparators",
  "tests/test-value.c uses a few literal ASCII keys and one bulk sequence.",
  V, [("value_dict_add_/get_/get_or_add_/remove_", "data/value.c"), ("value_dict_leftmost_path, keys/walk", "data/value.c"), ("value_dict_fix_after_insert / value_dict_fix_after_remove", "data/value.c")],
  [("DICT root,size,cmp_func", "dictionary tree and configuration", "data/value.c")])
p("C13", "Dictionary walks visit each key once, in sorted or insertion order as asked",
  "A sorted walk or sorted key listing visits every key exactly once in comparator order; for a dictionary created to maintain order, an ordered walk or listing visits every key exactly once in insertion order, which removals of other keys never disturb and where a re-added key moves to the end. A walk stops at once when the callback returns non-zero and returns that value.",
  ["histories", "inputs"], "every history of adds and removes on ordered and unordered dictionaries and every stopping point of a walk",
  "Tests check the order for one fixed insertion sequence without removals in between.",
  V, [("order_head/order_tail/order_prev/order_next", "data/value.c"), ("value_dict_walk_ordered / value_dict_walk_sorted / value_dict_keys_*", "data/value.c")])
p("C14", "Dictionary operations stay logarithmic after any history",
  "After every insertion and removal the dictionary's search tree keeps the red-black rules, so that any get, add or remove on a dictionary of n keys makes at most 2*log2(n+1) key comparisons (plus a constant), whatever the history and key order.",
  ["histories"], "every history of adds and removes",
  "Loss of balance leaves every result right, so functional assertions cannot see it; few removal histories are sampled.",
  V, [("value_dict_fix_after_insert / value_dict_fix_after_remove", "data/value.c"), ("value_dict_verify (test builds)", "data/value.c")], None, ["comparator calls"])
p("C15", "An array value is a sequence with bounds-checked access",
  "After any history of append, insert, remove, remove-range and clean operations, an array value's size and the value at each index equal those of an equivalently edited sequence: untouched elements keep their values and order, newly added elements are 'new' nulls until initialised. Any access, insertion or removal outside the bounds (including index/count pairs that overflow) and any array operation on a non-array fails and changes nothing.",
  ["histories", "inputs"], "every history, every index and count up to SIZE_MAX",
  "Tests use small arrays and in-range indices, plus a single out-of-range probe.",
  V, [("value_array_append/insert/get/get_all/remove/remove_range/clean", "data/value.c")], [("ARRAY value_buf,size,alloc", "array storage", "data/value.c")])
p("C16", "Scalars and strings read back exactly what was stored, with the right type",
  "A value initialised with a null, bool, integer, float, double, or string reports exactly that type and returns bit-for-bit what was stored; strings of any length and content (including embedded NULs and the empty string) keep every byte and their exact length and are always zero-terminated. Asking any other kind of value for a string, array or dictionary content, or setting into an already initialised value handle, never misinterprets the storage; a null value, null handle and the 'new' flag are reported consistently.",
  ["inputs"], "every value of every scalar type and every string length and content",
  "Tests sample a few numbers and a few strings, none at each internal storage boundary.",
  V, [("value_init_* / value_type / value_is_new / value_is_null", "data/value.c"), ("value_init_string_ / value_string / value_string_length", "data/value.c")])
p("C17", "Numeric conversion is exact whenever compatibility is reported",
  "A numeric value reports compatibility with an integer type exactly when its number is integral and representable in that type, and then the integer getter returns precisely that number. When stored integers are read as another integer type, float or double, or floats as double, the result is the C conversion documented for the getter, a fractional float or double read as an integer gives the nearest integer where the type can represent it, and non-numeric values yield the neutral result (-1, or the maximum of an unsigned type).",
  ["inputs"], "every int32, uint32, int64, uint64, float and double value (including infinities, NaN, huge and fractional ones) against every target type",
  "Tests probe a few small numbers; the interesting inputs are the range edges and large floats.",
  V, [("value_int32/uint32/int64/uint64/float/double", "data/value.c"), ("value_is_compatible", "data/value.c"), ("ROUNDF/ROUNDD", "data/value.c")])
p("C18", "Path lookup finds exactly the element that stepwise access would",
  "Resolving a slash-separated path of dictionary keys and bracketed array indices (counted from the start, or from the end when negative) returns exactly the value reached by taking the corresponding dictionary or array steps one by one from the root, and nothing if any step fails, encloses something other than an index in brackets, or applies to the wrong kind of value. Lookup never modifies the structure.",
  ["inputs", "histories"], "every path string and every value tree",
  "Tests use one tree and a few well-formed paths.",
  V, [("value_path", "data/value.c"), ("value_array_get / value_dict_get_", "data/value.c")])
p("C19", "Path building creates exactly the missing steps and returns their leaf",
  "Building a path returns the value that a subsequent lookup of that path finds, creating missing dictionaries, arrays and elements only where steps are missing and the parent is uninitialised or can accept them; existing values are left as they were, and an empty bracket step always appends. If a step cannot be taken, nothing is returned and no existing value is changed.",
  ["inputs", "histories"], "every path string applied to every value tree",
  "Tests build one or two fixed paths.",
  V, [("value_build_path", "data/value.c"), ("value_array_append / value_dict_get_or_add_", "data/value.c")])
p("C20", "A value tree owns its memory: freed exactly once, intact when memory runs out",
  "Finalising a value releases every nested string, array, dictionary, key and element exactly once and leaves nothing allocated; removing or cleaning releases exactly the removed part. If memory runs out in any operation it reports failure, leaves all previously stored contents unchanged and the value still usable and finalisable.",
  ["histories", "fault_sequences"], "every history over nested values and every placement of allocation failures in it",
  "Tests neither inject allocation failures nor account for allocations.",
  V, [("value_fini / value_dict_clean / value_array_clean", "data/value.c"), ("value_dict_get_or_add_ / value_array_insert error paths", "data/value.c")], None, ["malloc/realloc/free calls"])

E = ["encode/base64.c", "encode/base64.h"]
p("C21", "Base64 encode and decode are exact inverses with honest buffer sizes",
  "For every byte string and every encoding alphabet/padding option, encoding gives the RFC 4648 text for that alphabet, and decoding that text with the same options gives back exactly the original bytes. The size reported when no output is supplied suffices for the call, output never exceeds the given capacity, and a capacity too small for the result is reported as such.",
  ["inputs", "configurations"], "every input byte string, output capacity and option set",
  "Tests check RFC vectors with standard options and ample buffers.",
  E, [("base64_encode", "encode/base64.c"), ("base64_decode", "encode/base64.c"), ("CalcSize path: out_buf == NULL", "encode/base64.c")])
p("C22", "Base64 decoding rejects every malformed text, safely",
  "Decoding any text that is not a valid encoding under the given options - foreign characters of any byte value, misplaced or surplus padding, or a truncated final group (the padding a text calls for may be wholly present or wholly absent) - is reported as invalid, and no input of any content makes the decoder read or write outside its buffers.",
  ["inputs", "configurations"], "every input text over all 256 byte values and every option set",
  "Tests try a few ASCII malformed inputs only.",
  E, [("base64_decode", "encode/base64.c")])
p("C23", "Hex encoding round-trips and decoding accepts only hexadecimal digits",
  "Encoding any byte string gives two digits per byte in the requested letter case, and decoding it gives back the same bytes; decoding accepts upper and lower case equally. Decoding a text with an odd number of digits or any character that is not a hexadecimal digit, or with too small an output buffer, fails with the documented error and never writes beyond the buffer.",
  ["inputs"], "every byte string, every text over all byte values, every capacity",
  "Tests check a few valid strings.",
  ["encode/hex.c", "encode/hex.h"], [("hex_encode", "encode/hex.c"), ("hex_decode", "encode/hex.c")])
p("C24", "CRC-32 equals the standard polynomial remainder for every byte string",
  "For every byte string the checksum equals the bitwise CRC-32 (reflected polynomial EDB88320) of that string (initial value and final complement all ones), whatever its length, content and alignment in memory.",
  ["inputs"], "every byte string of every length and alignment",
  "Tests check fixed vectors, which touch only some of the 256 table entries.",
  ["hash/crc32.c", "hash/crc32.h"], [("crc32 and its table", "hash/crc32.c")])
p("C25", "FNV-1a hashes equal the definition and compose over pieces",
  "For every byte string the 32-bit and 64-bit hashes equal the published FNV-1a recurrence modulo the word size, and hashing a string in consecutive pieces starting from the base value gives the same result as hashing it at once, for any cut.",
  ["inputs"], "every byte string and every split of it",
  "Tests check a published list of short vectors without splits of each.",
  ["hash/fnv1a.c", "hash/fnv1a.h"], [("fnv1a_32 / fnv1a_64", "hash/fnv1a.c")])
p("C26", "Stack-or-heap allocations are usable, distinct and released correctly",
  "A threshold-based allocation of any size returns memory that is wholly writable for the requested size and disjoint from every other live block, or NULL if heap memory cannot be obtained or the size cannot be represented. The memory is aligned as a pointer. Blocks well below the threshold (by more than a pointer's size) never touch the heap and blocks of at least the threshold always come from it. Releasing a block frees heap memory exactly once exactly when the block came from the heap, whatever (side-effect free) size, threshold and pointer expressions are used, and releasing NULL does nothing.",
  ["inputs", "histories", "fault_sequences"], "every size, every threshold, every pattern of live blocks and heap failures",
  "Tests try a small and a large size; boundary sizes, failure and expression arguments are not sampled.",
  ["mem/malloca.h"], [("MALLOCA / MALLOCA_ / FREEA and the marker word", "mem/malloca.h")], None, ["malloc/free calls"])
p("C27", "Chunk allocations stay disjoint and intact until the chunk is released",
  "Every successful chunk allocation is wholly usable for the requested size; it never overlaps another allocation and its contents survive all later allocations until the chunk is finalised. A request that cannot be satisfied returns NULL and leaves the chunk usable, and finalising releases every underlying block exactly once and leaves the chunk empty.",
  ["histories", "inputs", "fault_sequences"], "every history of request sizes (0 up to SIZE_MAX), block sizes and allocation failures",
  "Tests allocate a fixed mix and check writes; overlap between big and small requests in arbitrary order is not covered.",
  ["mem/memchunk.c", "mem/memchunk.h"], [("memchunk_alloc", "mem/memchunk.c"), ("memchunk_fini", "mem/memchunk.c")], None, ["malloc/free calls"])
C = ["misc/cmdline.c", "misc/cmdline.h"]
p("C28", "Every command-line word is classified as documented, in order",
  "For every option table and argument vector the callback receives, in command-line order, exactly one call per recognised option (with its argument exactly when the option takes one, attached or separate as documented), per positional argument, and per unknown, argument-missing or argument-surplus error, with the option's own id (the first matching table entry counts); everything after '--' is positional. Groups of short options, optional arguments, compiler-like options and a lone dash are treated as documented.",
  ["inputs", "configurations"], "every option table and every argument vector",
  "Tests run some twenty literal command lines over one option table.",
  C, [("cmdline_read", "misc/cmdline.c"), ("cmdline_handle_long_opt / short_opt / short_opt_group / ccstyle", "misc/cmdline.c")])
p("C29", "Command-line parsing stops at the first callback that says so",
  "As soon as the callback returns a non-zero value parsing ends, no further callback is made, and that value is returned unchanged; otherwise all words are processed and zero is returned.",
  ["inputs", "histories"], "every argument vector and every position and value of the aborting callback",
  "Tests abort at most at one fixed place.",
  C, [("cmdline_read", "misc/cmdline.c")])
p("C30", "A memory stream reads like a file over its bytes and never strays outside",
  "Over any history of read, seek, copy, stat and reference-count calls, a memory stream returns exactly the bytes at its position, advances by the count it reports, reports end of data and rejected seeks as documented without changing position, and copies exactly the bytes requested or available. Writes and unsupported calls fail without effect, and the stream is destroyed exactly when its last reference is released.",
  ["histories", "inputs", "fault_sequences"], "every history of calls, every offset/length up to the integer limits, partial writes and failures of the copy destination",
  "The tests only build on Windows, so nothing exercises this module here; they also use a fixed script.",
  ["win32/memstream.c", "win32/memstream.h"], [("memstream_Read/Seek/CopyTo/Stat", "win32/memstream.c"), ("memstream_AddRef/Release/QueryInterface", "win32/memstream.c")])
p("C31", "Utility macros give the mathematically right result for every operand",
  "The minimum, maximum (of two or three), clamp, absolute value, array-size, member-offset and container-of macros yield the mathematically defined result for every operand combination, whatever the (side-effect free) operand expressions, their types as far as one C type holds all of their values, their relative order and the expression the macro stands in; stringizing expands its argument first. Macros of these names defined beforehand are left alone.",
  ["inputs"], "every combination of operands, including equal, negative and mixed expressions",
  "Tests check a few constant operands.",
  ["misc/defs.h"], [("MIN/MAX/MIN3/MAX3/CLAMP/ABS/SIZEOF_ARRAY/OFFSETOF/CONTAINEROF/STRINGIZE", "misc/defs.h")])
p("C32", "Threads working on different objects do not disturb one another",
  "When different threads use different objects (buffers, stacks, arrays, lists, hash tables, trees, dictionaries and other values, memory chunks, command lines with a context of their own) at the same time, each call behaves exactly as if its thread were alone. The encoders, decoders, checksums and hashes give the same result however many threads call them at once and whichever call is the first. No module keeps changeable state that its callers did not hand it.",
  ["schedules", "histories", "inputs"], "every interleaving of calls on different objects",
  "The tests use a single thread and mostly one object at a time.",
  ["data/*", "encode/*", "hash/*", "mem/memchunk.c", "misc/cmdline.c"], [("every public function", "data/value.c"), ("value_path/value_build_path", "data/value.c"), ("cmdline_read", "misc/cmdline.c"), ("base64_encode/base64_decode", "encode/base64.c"), ("rbtree_*", "data/rbtree.c"), ("htable_*", "data/htable.c")])

p("C33", "Looking never changes anything, so several readers may share one object",
  "Lookups, getters, sizes and emptiness tests, peeks, walks, cursor steps, key listings, path lookups and type queries write nothing into the object they are asked about, into its nodes or into any other memory of the library (heap blocks, static variables), whatever the history of the object and whatever the answer, not even for the time of the call. Any number of threads may therefore query one object at once as long as nobody modifies it. Cursors and output buffers that the caller hands in are the caller's and may be written.",
  ["histories", "schedules"], "every history of an object, every query on it with every outcome, every number of readers at once",
  "The tests ask one question at a time in one thread and look at the answer only: a query that reorders, caches or marks and undoes it passes all of them.",
  ["data/*"], [("htable_lookup", "data/htable.c"), ("rbtree_lookup, rbtree_lookup_ex, rbtree_head, rbtree_tail, rbtree_next, rbtree_prev, rbtree_current", "data/rbtree.c"), ("value_dict_get_/value_dict_walk_*/value_dict_keys_*/value_path", "data/value.c"), ("value_* getters", "data/value.c"), ("buffer_*, stack_* queries", "data/buffer.h"), ("list walks", "data/list.h")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
