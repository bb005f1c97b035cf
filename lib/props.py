"""The properties, and how each is claimed. gen.py writes properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, level=None, note=None, technique=None, na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, level=level, note=note, technique=technique, na=na, state=state))


HT26 = "include/pystd2026_hashtable.hpp"
H26, S26, H25, S25 = "include/pystd2026.hpp", "src/pystd2026.cpp", "include/pystd2025.hpp", "src/pystd2025.cpp"
CONTRACT_TECH = "contract obligations discharged by compiler dataflow and linear-inequality abstract interpretation"
CONTRACT_NOTE = ("Each obligation is shown unreachable on every path of the compiled, fully inlined code, for arbitrary inputs; "
                 "trusts clang/LLVM 20, the analyser in tool/ and the environment model in contracts/.")

prop("C01", "Checked element access hands out exactly the requested element or raises",
     "Indexing with [] or at(), front() and back() on Vector, FixedVector, Span, unique_arr, Bytes and CStringView either refers to "
     "the element at exactly that position of the live range, or raises an exception; an index at or past the number of live elements "
     "(or any end access on an empty object) never yields a reference. An access that is in range never raises.",
     ["inputs"], "every size, capacity and index value, for const and non-const objects",
     "Tests index a handful of small objects; the guarantee is for every index, including huge ones that wrap address arithmetic.",
     [H26, S26, H25, S25],
     [("Vector/FixedVector/Span/unique_arr operator[]", H26), ("Bytes::operator[], front, back", S26), ("CStringView::operator[]", S26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C03", "Owning handles release what they own exactly once",
     "A resource held by unique_ptr, unique_arr, Vector, Bytes, CString, U8String or a file mapping is released exactly once, by "
     "whichever handle owns it last. Moving transfers the resource intact (size and capacity included) and leaves the source owning "
     "nothing, move assignment releases what the target held before, self-move keeps the object unchanged, and release()/reset() "
     "transfer or replace ownership accordingly. In the 2026 epoch a deleter is never called with a null pointer.",
     ["inputs", "histories"], "every state of source and target handle, self-assignment included",
     "Tests do not count releases; a leak or double release passes them silently.",
     [H26, S26, H25, S25],
     [("unique_ptr, unique_arr", H26), ("Vector move operations", H26), ("MMapping", S26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C07", "Byte buffer edits keep every other byte and touch only live storage",
     "Every operation of the byte buffer Bytes (construction from a range or a fill value, copying, assignment, append of a byte or a "
     "range, +=, insert, remove, pop_front, pop_back, extend, shrink, resize, reserve, clear) changes the size by exactly the requested "
     "amount, keeps every byte that is not removed or replaced (in order, with its value), puts added bytes exactly where requested "
     "with the value they had in their source, and raises instead of editing on an invalid position or range. No access it makes "
     "touches a byte outside the buffers involved, and size() never exceeds capacity().",
     ["inputs"], "every content, size, capacity, position and count",
     "Tests use a few literal strings; growth boundaries times positions cannot be sampled.",
     [H26, S26], [("Bytes::insert, remove, pop_front, pop_back, grow_to", S26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C04", "Optional and Expected hold exactly the value or error they say they hold",
     "An Optional holds a live value exactly when it tests true; an Expected holds a live value, a live error or nothing exactly as "
     "has_value() and has_error() say. Every construction, copy, move, assignment (from another holder, from a value, from itself or "
     "from its own value), reset and destruction keeps that true on both sides: no object is constructed over a live one, used when "
     "not alive, leaked or destroyed twice, and the value or error arrives unchanged. Access to an Optional that is empty raises; "
     "access that is valid yields the held object and never raises. An Optional of a pointer is empty exactly when the pointer is null.",
     ["inputs", "histories"], "every state of both objects, self-assignment and assignment from the own value included",
     "Tests do not observe lifetimes: a value constructed over a live one, or a missed destructor, passes them.",
     [H26], [("Optional", H26), ("Expected", H26), ("Optional<T*>", H26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C05", "Variant keeps exactly one live alternative, the one its index names",
     "For each of up to 30 alternatives: constructing, inserting, copying and moving a Variant makes index(), contains(), get_if() and "
     "get() name exactly the alternative that is alive, with its value unchanged; the previous alternative is destroyed exactly once, "
     "with its own destructor, before another is constructed; self-assignment changes nothing; get() of any other alternative raises "
     "and get_if() of it returns null. The storage is large and aligned enough for every alternative and nothing else overlaps it.",
     ["inputs", "histories"], "every alternative held before and after, for variants of 3 and of 30 alternatives",
     "Tests use two alternatives; the dispatch is hand-written per index, so an error at one index is invisible to them.",
     ["include/pystd2026_variant.hpp"], [("Variant", "include/pystd2026_variant.hpp")],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C06", "Containers construct and destroy every element exactly once and keep the order",
     "Vector and FixedVector construct an element only on storage that is free, never use or move one that is not alive, and destroy "
     "each exactly once before its storage is released; exactly the first size() elements are alive after every operation. push_back, "
     "emplace_back, append_with_default, reserve, pop_back and clear of Vector, and push_back, emplace_back, insert, delete_at, "
     "pop_front and pop_back of FixedVector, change the size by exactly what they say, keep all other elements in order, place the "
     "new element at its position, and refuse (without touching the elements) when a FixedVector is full or the position is invalid; "
     "moving a container moves every element in order. "
     "Elements live inside the allocated storage only.",
     ["inputs", "histories"], "every size, capacity, position and element",
     "Tests check values of trivially copyable elements; element lifetimes at growth boundaries are not observable through them.",
     [H26], [("Vector", H26), ("FixedVector", H26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C08", "Appending an element of the container itself is safe",
     "Passing a reference to one of its own elements to Vector::push_back or emplace_back (by copy or by move) appends that element's "
     "value and leaves every other element unchanged, also when the append reallocates: the element is never read after it was moved "
     "away or its storage was released.",
     ["inputs"], "every size, capacity and element position, with and without reallocation",
     "The failing case needs an element reference together with a reallocation at that very append; reading freed storage often "
     "still yields the right value.",
     [H26], [("Vector::push_back, emplace_back, is_ptr_within", H26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C09", "Strings stay NUL-terminated, without embedded NULs, through every edit",
     "A CString always ends in exactly one NUL, placed right after its size() characters, and none of its characters is NUL: a "
     "character, sized text, view or Bytes that contains a NUL is refused with an exception and leaves nothing behind. append "
     "(character, text, sized range, also of the string's own text), +=, insert, remove, pop_back, resize, clear, substr, copy and "
     "assignment (also of the string's own text or itself) change the size by exactly what was asked, place the added characters "
     "exactly where requested with the value they had in their source, and keep every other character in order; an invalid position or "
     "range raises and changes nothing. No access leaves the buffers involved.",
     ["inputs"], "every text, size, capacity, position and count",
     "Tests use a few short literals; the terminator and the growth boundary are exactly where short literals do not reach.",
     [H26, S26], [("CString", S26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C02", "Views and sub-ranges denote exactly the requested part or raise",
     "Span::subspan, CStringView::substr, ZStringView::subview and the (begin, end) constructor of CStringView return a view that "
     "starts at exactly the requested offset and has exactly the requested number of elements (the rest of the range when no count is "
     "given; CStringView::substr cuts a count that is too long to the rest), always inside the range it was taken from; an offset past "
     "the end, a Span count that does not fit (also one that wraps around) or a reversed range raises, and a valid request never "
     "raises. Views made of a string, of sized text or of NUL-terminated text cover exactly its characters, and overlaps() is "
     "symmetric, true for views that share a byte and false for views that lie apart.",
     ["inputs"], "every range, offset and count, including counts that wrap around",
     "Tests take a few literal substrings; wrap-around and off-by-one limits are outside their samples.",
     [H26, S26], [("Span::subspan", H26), ("CStringView::substr, ZStringView::subview", S26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C30", "Searches, extremes, comparators and ranges give the right answer",
     "find, find_if and find_if_not return the first position whose element answers as asked for, having asked about every earlier "
     "element and none after it, or the end. lower_bound returns the first element of a sorted range that does not come before the "
     "value. min_element and max_element return the element that comes before (after) every other, and an element of the range "
     "whenever it is not empty. is_sorted compares neighbours, says true only when no pair is out of order and false only when one is. "
     "clamp returns the value when within its limits and else the limit it passed (NaN for NaN); minval/maxval return the lesser/greater "
     "operand. DefaultComparator and OnlyLessComparator agree with <, > and == for integers of any width and sign; "
     "FloatTotalOrderComparator is a total order with NaN last and its equal() agrees with compare(); FloatIgnoreNanComparator agrees "
     "with < and == for numbers. Range yields start, start+step, ... up to but excluding the end for every start, end and non-zero step, "
     "without overflow, and stays exhausted; LoopView, Loopsume and EnumerateView deliver every element once, in order, numbered from 0. "
     "swap exchanges two values. None of the algorithms looks at an element outside the range.",
     ["inputs"], "every range, predicate, comparator, number (NaN and infinities included), start, end and step",
     "Tests use a few short arrays and small steps; extremes, NaN, one-element and not-found cases are outside their samples.",
     [H26, S26], [("algorithms, comparators and views", H26), ("clamp, total_order_compare, Range::next", S26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C32", "Comparing, ordering and searching text give the right answer and stay inside it",
     "find(character) returns the first and rfind the last position holding the character, or -1 when there is none; find(text) returns "
     "the first position at which the searched text stands, 0 for an empty one, -1 when it is longer than the text or not there. "
     "Equality of CStringView, ZStringView, CString and Bytes, with each other or with a C string, and starts_with(view), hold exactly when size "
     "and every byte agree (starts_with: of the prefix). operator< and <=> order by the first differing byte as unsigned value, a "
     "proper prefix before the longer text, and agree with ==. None of these (nor natural_order) reads a byte outside the texts.",
     ["inputs"], "every pair of texts; completeness of the text search for needles of up to three characters, exactness of order for "
     "texts of up to three characters and, for any length, for equal, prefix and first-byte-different texts",
     "Tests compare a few literals; bytes over 127, prefixes and matches at the very end are outside their samples.",
     [H26, S26], [("CStringView comparison and search", S26), ("Bytes comparison", H26), ("CString::rfind", S26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C34", "A FixedCString never overflows and always ends where its size says",
     "A FixedCString constructed or assigned from C text, sized text, a view, another FixedCString (of any capacity) or itself holds "
     "exactly the characters of its source, at most its capacity of them, followed by a NUL at index size(); a text that does not fit "
     "raises, and an assignment that raises leaves the content unchanged. Moving leaves the source empty, moving or assigning to itself "
     "(or from a prefix of itself) keeps the requested characters, pop_back removes exactly the last character, an index past the "
     "capacity raises, and comparison is false whenever size or any character differs. Nothing outside its storage is accessed.",
     ["inputs"], "every content, size and source, for capacities of 10 and 1000",
     "Tests copy a few short literals; the full capacity and self-assignment are outside their samples.",
     [H26], [("FixedCString", H26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C21", "HashMap keeps a live entry exactly where its table says there is one",
     "In every well-formed HashMap, whatever the hash function and key equality return, a slot of the table is marked as in use exactly "
     "when a live key and a live value are stored there, and this stays so through lookup, at, contains, insert, remove, clear, growing "
     "and destruction: no key or value is ever constructed over a live one, used or destroyed where there is none, or left behind. size() "
     "counts the entries: it changes by what was constructed and destroyed. A lookup returns only the value of a slot in use whose "
     "key compared equal last, at() raises exactly when no key compared equal, and contains() is true exactly when one did. An insertion "
     "disturbs no other entry, and a removal makes a slot empty only when the slot after it is, so that what was stored behind it is "
     "still found. Iterating begins at the first entry, and stepping skips no entry and stops only on entries or at the end.",
     ["inputs", "histories"], "every table size, slot, key, hash function and result of comparing keys",
     "Collisions, tombstones and growing depend on hash values salted by the address of the map, which a test cannot choose.",
     [HT26], [("HashMap", HT26), ("HashMapIterator", HT26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

SORTS = ["include/pystd2026_%s.hpp" % x for x in ("introsort", "heapsort", "shellsort", "nth_element", "partial_sort", "rotate")]
prop("C15", "Correct use never ends the program",
     "No operation of Optional, Expected, Variant, unique_ptr, unique_arr, Bytes, Vector, FixedVector, Span, CString, the text views, "
     "FixedCString, MMapping or the algorithms ends the program when used as its interface allows, including with an index, size, "
     "capacity or text it has to reject: whatever it rejects it reports by an exception or an empty result. No internal_failure or "
     "abort is reached and no exception leaves a noexcept function (only Expected::value()/error() of the other kind, and clamping "
     "to a reversed range, end it by design).",
     ["inputs"], "every valid object, argument and size, for each operation that C01-C09, C30, C32 and C34 cover",
     "A test that aborts loses the whole program, so no test can look for it on inputs it does not already know.",
     [H26, S26], [("noexcept operations of the containers, text and sum types", H26), ("internal_failure", S26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C16", "Sorting and rotating only permute, and only inside the range they are given",
     "Whatever the comparator answers, no element of the range is lost, duplicated or moved out of it: swap, rotate and the "
     "rotations by one move each element exactly where they should and nothing outside their range; linear insertion, insertion sort, each pass and the "
     "sequence of passes of shell sort (up to 701 elements), sinking an element of a heap, building a heap, heapsort, picking pivots, each "
     "step of introsort, heap selection and partial_sort never overwrite an element that was not moved away and leave every one of them "
     "in the range. They compare only elements of the range (or their scratch), sort only parts of it, and rely on a sentinel only where "
     "there is one. Selecting raises exactly for a position outside the range and returns that position. Elements that all compare equal "
     "keep their places in insertion sort and heaps, and min_element and max_element then return the first.",
     ["inputs"], "every length, position and result of the comparisons",
     "A lost element needs a particular length and comparison outcome; comparators that are not orders are never tested.",
     [H26] + SORTS, [("insertion_sort", H26), ("do_introsort", SORTS[0]), ("heapify", SORTS[1]), ("shell_sort", SORTS[2]), ("rotate", SORTS[5])],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C18", "Ordering algorithms depend on elements only through the given comparator",
     "Every sort, selection, search for an extreme, sortedness test, partition and lower bound that is given a comparator or predicate "
     "orders by it alone: elements need no operators and no copying, they and the comparator are never compared or copied behind its "
     "back, and this holds on the path the library takes for numbers as well as for classes.",
     ["inputs"], "every ordering algorithm, for elements with no operators at all",
     "Tests sort numbers, whose own operators agree with the comparator used; a stray operator shows only with a comparator that disagrees.",
     [H26] + SORTS, [("Comparator parameters", H26), ("do_introsort", SORTS[0])],
     "proof", "Decided by the compiler's type checker on the current headers: an instantiation that used anything but the comparator would not compile.",
     "type-level encoding: instantiation with operator-free element types")

TH26 = "include/pystd2026_threading.hpp"
TS26 = "src/pystd2026_threading.cpp"
prop("C28", "Locks are released and threads are finished exactly once, on every path",
     "A Mutex is initialised once and destroyed once. lock() and unlock() raise exactly when the operating system reports failure; "
     "try_lock() returns true exactly when it took the lock and raises only when it did not. A LockGuard calls lock() once, unlocks once "
     "on every way out of its scope (an exception included), and, when lock() raises, lets that through without unlocking. A Thread runs "
     "the given function with the given argument or, when it cannot be started, raises without leaving anything to clean up; the thread "
     "attributes are released either way. Each started thread is joined or detached exactly once, by its destructor if nobody did, "
     "and joining or detaching a second time raises instead of using the dead handle.",
     ["inputs", "schedules", "fault_sequences"], "every result of the operating system's calls, every way out of a scope",
     "Failing pthread calls and exceptions inside a locked scope do not occur in a test run.",
     [TH26, TS26], [("Mutex", TS26), ("LockGuard", TH26), ("Thread", TS26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

RULE_TECH = "syntax-tree and symbol-table rules over the compiler's output"
RULE_NOTE = ("Complete enumeration of the headers, declarations and symbols of the current tree; trusts clang's front end and its report of "
             "what each unit declares and defines.")

prop("C23", "Epochs are isolated, and the frozen 2025 epoch keeps its interface",
     "Code of one epoch (pystd2025, pystd2026) never includes, refers to or needs code of another: every name a header introduces is in "
     "the epoch's own namespace, every macro carries the PYSTD prefix and no other epoch's name, and every symbol an epoch's sources "
     "export is in its namespace and defined once, so that programs can mix epochs. The frozen 2025 epoch keeps every public declaration "
     "(same types, default arguments and enumerator values) and the size and alignment of its classes.",
     ["inputs"], "every declaration, macro, include and symbol of both epochs",
     "A crossed reference between two nearly identical epochs behaves correctly until one of them changes; ABI breaks are invisible to "
     "tests compiled against the new headers.",
     [H25, H26, S25, S26], [("API and ABI stability rules", "readme.md"), ("epoch namespaces", H26), ("frozen epoch", H25)],
     "proof", RULE_NOTE, RULE_TECH)

prop("C24", "Every header stands alone, may be repeated, and everything it declares links",
     "Each public header compiles on its own, when included twice, and before or after any other header, of either epoch; headers define "
     "nothing that would be defined twice when several translation units include them; and every function a header declares has exactly "
     "one definition in the library.",
     ["inputs"], "every header, all ordered pairs of headers, every declared function",
     "Tests include the headers in one particular order, once, and call only some of the functions.",
     [H26, "include/pystd2026_hashtable.hpp", S26], [("include/*.hpp", H26), ("function definitions", S26)],
     "proof", RULE_NOTE, RULE_TECH)

prop("C25", "Misuse that the type system must reject does not compile",
     "The library's type predicates give exactly the compiler's own answer for every type; each container, holder and handle is "
     "available only for element types that can be moved without raising; owners cannot be copied and pinned types cannot be moved; "
     "no owner converts implicitly from or to what it owns; a const object hands out const elements only; and ill-typed uses (floating "
     "point hash keys and float comparators, non-unsigned keys in bucket and radix sorts, foreign Variant alternatives, discarded "
     "lock guards and the like) are rejected at compile time, while the nearest correct use is accepted. All value types the library "
     "provides satisfy the requirement it puts on element types.",
     ["inputs"], "every predicate over a catalogue of types, every template's requirement, every listed misuse with its accepted twin",
     "A test that compiles cannot show that a wrong program does not.",
     [H26, "include/pystd2026_variant.hpp", "include/pystd2026_hashtable.hpp"],
     [("type predicates and concepts", H26), ("deleted and explicit members", H26)],
     "proof", "Decided by the compiler's type checker on the current headers, each rejection paired with an accepted twin; trusts clang's front end.",
     "type-level encodings and compile-fail witnesses")

prop("C10", "U8 types take well-formed UTF-8 as it is and refuse anything else",
     "Making a U8StringView or a U8String, from a pointer and length, a terminated string or Bytes, raises an exception for text that is not "
     "UTF-8 and raises none for text that is. Refused are a stray or missing continuation byte, a character cut off by the end of the text, "
     "an encoding longer than needed, a surrogate, a value above U+10FFFF and a byte that begins nothing, at the start of the text or after a "
     "character of any length, whatever follows; accepted are texts of any one or two characters, the empty one included. Neither reads "
     "outside the text.",
     ["inputs"], "every byte value and text length; the first ill-formed sequence is the first or the second of the text (validation keeps no "
     "state from one character to the next, so later ones are decided alike)",
     "Thousands of million byte sequences; tests hold a dozen.",
     [S26], [("is_valid_utf8, is_valid_uf8_character", S26), ("U8StringView and U8String constructors", S26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C11", "Encoding and decoding of characters are inverse for every Unicode scalar value",
     "For every Unicode scalar value: append_codepoint adds its UTF-8 encoding, of the length UTF-8 prescribes, byte for byte (U+0000 "
     "excepted); the iterators yield that value for that encoding, step over exactly its bytes forwards, and back from its end to its first "
     "byte, in ValidU8Iterator and ValidU8ReverseIterator alike; a value read before a step is not yielded after it. Surrogates and values "
     "above U+10FFFF are refused with an exception.",
     ["inputs"], "every one of the 1 112 064 scalar values at any address and offset; every value that is none",
     "Tests encode a handful of characters.",
     [S26], [("U8String::append_codepoint", S26), ("ValidU8Iterator, ValidU8ReverseIterator, extract_one_codepoint", S26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C12", "Upper and lower case of every character are Unicode's",
     "For every Unicode scalar value uppercase_unicode and lowercase_unicode return Unicode's full default case mapping (version 15, the "
     "one the tables were made from): one to three characters, the character itself if it has no mapping, unused places zero. The tables "
     "hold exactly the characters that have a mapping, strictly ascending, so that the search finds each; the search is for the "
     "character asked for, by the order the tables have.",
     ["inputs"], "every one of the 1 112 064 scalar values, both directions",
     "2 906 table entries of which tests look at a handful.",
     [S26, "src/pystd2026_tables.cpp"], [("uppercase_unicode, lowercase_unicode", S26), ("case mapping tables", "src/pystd2026_tables.cpp")],
     "proof", CONTRACT_NOTE, CONTRACT_TECH + "; rule over the compiled tables against Unicode's data")

prop("C20", "What is hashed is exactly the content, alike for every type that holds it",
     "Feeding an object to a Hasher hands its algorithm exactly the bytes of its content, each once and in order, and nothing else: for "
     "Bytes the bytes held; for CString, U8String, CStringView, ZStringView and U8StringView the characters, without terminator or "
     "unused capacity, so text of equal content hashes alike whatever type holds it; for an integer the bytes of its value. Parts fed one "
     "after the other reach the algorithm in that order; its result and reset are passed on unchanged. The library's own algorithm depends "
     "on nothing but the sequence of bytes fed since the last reset, however it is cut into parts.",
     ["inputs"], "every content, length and capacity; every integer value of each width",
     "Two objects of equal content and different history or type must agree; tests hash a few literals.",
     [H26, S26], [("feed_hash members", H26), ("Hasher, HashFeedInterface", H26), ("SimpleHash", S26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH + "; optimiser-folded equalities for the algorithm itself")

FS26 = "src/pystd2026_filesystem.cpp"
prop("C13", "Loading, mapping and querying files report the truth whatever the OS does",
     "load_bytes returns the whole file, byte for byte, or nothing, and nothing only if it is a directory or some call of the operating "
     "system failed or came up short; mmap_file likewise maps exactly the whole file of that name. exists, is_file and is_dir say what the "
     "operating system says of exactly that path, and rename_to reports success exactly when the file was renamed, from and to the "
     "paths given, never onto a directory. A line read from a File is exactly what follows up to and including the next end of line (or up to the end of the file, where a NUL may be added).",
     ["inputs", "fault_sequences"], "every content and size of the file, every result of every call (open, seek, tell, read, map, stat, rename)",
     "Tests run against a healthy file system: no call ever fails or comes up short.",
     [S26, FS26], [("Path::load_bytes, exists, is_file, is_dir, rename_to", FS26), ("mmap_file, File::readline_bytes", S26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C14", "Files and mappings the library opens are released exactly once",
     "Every file opened by load_bytes, mmap_file or File is closed exactly once, whichever call fails in between and however the operation "
     "ends, and is not used after that. Every mapping made is released exactly once, in its full length, by the handle returned, and no "
     "mapping is left when none is returned.",
     ["fault_sequences"], "every combination of results of the calls of the operating system",
     "A leaked descriptor on an error path fails no test.",
     [S26, FS26], [("Path::load_bytes", FS26), ("mmap_file, MMapping, File", S26)],
     "proof", CONTRACT_NOTE, CONTRACT_TECH)

prop("C17", "A glob pattern matches exactly the names it describes and looks at nothing else",
     "A name matches a glob pattern when every character of the pattern stands for itself, a question mark for exactly one character and "
     "an asterisk for any number of characters, none included, except that an asterisk at the beginning does not match a leading dot. An "
     "exhausted pattern matches only an exhausted name. The comparison always ends, and looks at no byte before the name or pattern or "
     "behind the NUL of either.",
     ["inputs"], "every name and pattern (completeness of an asterisk for rests of up to three characters)",
     "No test of the 2026 epoch globs; reads past the end of a short name go unnoticed.",
     [FS26], [("glob_matches", FS26)],
     "proof", CONTRACT_NOTE + " The recursion is judged by induction: one step, for any answer of the steps it calls.", CONTRACT_TECH)

prop("C19", "Glob lookups yield exactly the existing paths that match, each once",
     "Iterating over Path::glob yields every path below the root whose segments match the pattern's segments (** standing for any number "
     "of directories), as a path that exists, each exactly once, and nothing else, and closes every directory it opened.",
     ["inputs", "histories"], "every directory tree and pattern", "Tests of the 2026 epoch do not glob.", [FS26], [("GlobResult", FS26)],
     na="What is yielded depends on the contents of a directory tree of unbounded depth held by the operating system, and on paths built by "
        "concatenation and kept on a stack of directories; relating the sequence of results to the tree is beyond the linear domain used "
        "here. The matching of one segment is C17.")
prop("C22", "BTree and HashMap behave as maps over every history of operations",
     "After any sequence of insertions, removals and lookups a BTree (in order) and a HashMap hold exactly the keys inserted and not "
     "removed, with the last value given, and iterate over each once.",
     ["histories"], "every sequence of operations", "Tests run a few fixed sequences.",
     ["include/pystd2026_btree.hpp", "include/pystd2026_hashtable.hpp"],
     [("BTree", "include/pystd2026_btree.hpp"), ("HashMap", "include/pystd2026_hashtable.hpp")],
     na="The content of a map is a function of the whole history and lives in quantified invariants over nodes and probe sequences (every "
        "key reachable from its bucket, every node's keys between its neighbours); no such invariant is inferable by the static domains "
        "at hand. The single-operation guarantees of the hash table that can be decided are C21.")
prop("C26", "Formatting produces the text printf would",
     "format, cformat and format_append yield exactly the characters the C library's formatter produces for the same arguments, of any "
     "length.",
     ["inputs"], "every format and argument list", "Tests format a few short literals.", [S26], [("cformat_with_cb", S26)],
     na="The oracle is the C library's vsnprintf, whose source is not part of the repository and whose result depends on the run-time "
        "content of the format string; a static argument about the characters produced would be about libc.")
prop("C29", "Sorting yields the comparator's order; stable sorts keep ties in place",
     "After any of the sorts the range is in non-descending order of the comparator, and mergesort and stable_partition keep equal "
     "elements in their original order.",
     ["inputs"], "every range and comparator", "Tests sort a few fixed and pseudo-random ranges.", [H26, "include/pystd2026_introsort.hpp"],
     [("sorting algorithms", H26)],
     na="Sortedness relates all pairs of elements through an arbitrary comparator and needs transitivity under quantified loop "
        "invariants over array contents, which the convex domain cannot express; that the result is a permutation of the input is C16, "
        "that order comes from the comparator alone C18, and the base searches are C30.")
prop("C27", "Command line options get exactly the values that were given",
     "An option in its long form gets the text after the first equals sign, or else the following entry of the command line, in its short form "
     "the rest of the entry or else the following one; the following entry is used up then, and only then; an option that takes no value uses "
     "up none. The entry behind the last is never looked at: an option whose value is missing, and one that is not known, is refused. An "
     "integer option gets the number its value denotes exactly when all of the value is a decimal number within the option's bounds, and "
     "raises otherwise; text options get all of the text, flags true or false. value_of gives the entry of the name asked for, and nothing "
     "when there is none. Adding an option whose name, long form or letter is taken is refused, and any other is added.",
     ["inputs"], "every option, value, position on the command line and set of options", "No test parses a command line.",
     ["src/pystd2026_argparse.cpp", "include/pystd2026_argparse.hpp"],
     [("process_long_argument, process_short_argument, update_value, add_argument, value_of", "src/pystd2026_argparse.cpp")],
     "proof", CONTRACT_NOTE + " The comparison and the search of texts (C32), the copy of a text (C09) and strtol are modelled.", CONTRACT_TECH)
prop("C31", "Regular expression searches hand on exactly what PCRE2 reports",
     "A regular expression is refused exactly when PCRE2 does not accept the whole pattern as UTF-8, and regex_search raises exactly when "
     "PCRE2 finds no match in the whole text. Of a match, num_groups is the number of groups the pattern captures; group and get_submatch "
     "give precisely the part of the text PCRE2 reports for the group asked for, refuse a number past the last group, and never give anything "
     "for a group that took no part. Whatever fails, the compiled pattern and the results of a search are each released exactly once and not "
     "used after that.",
     ["inputs", "fault_sequences"], "every pattern, text and answer of PCRE2 (that a submatch is not refused: of up to two bytes)",
     "Tests search one text for one pattern; no failure, no group out of range, no group without a match.",
     ["src/pystd2026_regex.cpp", "include/pystd2026_regex.hpp"],
     [("U8Regex, U8Match, regex_search", "src/pystd2026_regex.cpp")],
     "proof", CONTRACT_NOTE + " PCRE2 is modelled as its documentation describes it: a group's offsets are both unset or in order and within "
     "the text. The text outlives the match.", CONTRACT_TECH)
prop("C33", "Operations take the time their documentation promises",
     "Sorting takes O(n log n) comparisons, selection O(n) expected, lookup in the hash table O(1) expected.",
     ["inputs"], "every input", "Timing tests are too noisy.", [H26], [("sorting algorithms", H26)],
     na="Bounds on run time quantify over loop trip counts that depend on data (pivot choice, hash values); no sound static bound in reach.")
