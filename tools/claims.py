GEN = " Trusted: clang's C-to-IR translation, the rayvc engine, z3; float operations are uninterpreted with NaN/sign/commutativity axioms; machine integers wrap around."
CLAIMS = {
 "C01": "Every ray_{add,sub,mul,div,fdiv,mod,xbar}_partial kernel, for every supported pair of operand types and atom/vector forms, is proved to compute the mathematical operation element by element for all lengths, offsets and values, to write nothing outside its slice and to stay inside its operands." + GEN,
 "C02": "Every ray_{EQ,NE,LT,GT,LE,GE}_partial kernel (numeric, temporal, boolean, byte, char, symbol, GUID and enum operands, all atom/vector forms) is proved to give the answer of one total order with null lowest in every position; strings through the proved contract of str_cmp." + GEN,
 "C04": "leap_year, days_in_month, years_by_days, date_into_i32, date_into_days and date_from_i32 are proved against the proleptic Gregorian calendar for every date of the years 1..9999 and every day number of that range; nulls included. date_from_i32 uses years_by_days through two lemmas (linear bounds, one-year step) that are proved from its definition. Trusted besides the engine: IEEE double division and rounding are within the stated error of the real quotient (axiom in sym.py)." + GEN,
 "C05": "time_from_i32/time_into_i32, timespan_from_nanos/timespan_into_nanos, timestamp_from_i64/timestamp_into_i64 are proved to have in-range fields and to recompose exactly, for every time within 256 hours of midnight, every non-null i64 timestamp (composition: years 1708..2261), and nulls; the date part goes through the contracts proved for C04." + GEN,
 "C06": "Every X_to_Y inline of ops.h and every numeric/temporal pair of cast_obj (atoms and vectors of any length) is proved to preserve the value and the null." + GEN,
 "C03": "Every ray_{cnt,sum,min,max,sq_sub}_partial kernel, for every numeric/temporal vector type it supports, is proved (induction over the loop) to return the left fold of the mathematical operation over the non-null elements of an arbitrary sub-range, and the atom forms to return the atom's value." + GEN,
 "C07": "and_op_partial and or_op_partial are proved to combine booleans by the truth table in every position of an arbitrary sub-range and to leave the rest alone; ray_and and ray_or with zero to three operands in every atom/vector mix are proved, against those contracts and the pool contracts of C09, to evaluate each operand once and to combine every row of each exactly once into a private copy; ray_not is proved element-wise for every length. Assumed: eval yields its operand's value, logic_own yields a private equal copy. Bounded: operand lists longer than three are not covered." + GEN,
 "C09": "pool_split_by(_mem), pool_chunk_aligned, pool_get_executors_count and pool_call_task_fn are proved outright; unop_map, unop_fold, binop_map, binop_fold, ray_cnt, cmp_map, bin_map, pool_map (and, under C07, logic_map) are proved for every length and worker count to hand out sub-ranges that start where the previous ended, stay inside the input and end at its end, with the same operands, and to fold every partial result. Assumed: pool_prepare starts an empty task list, pool_run runs each task once (C27, not claimed)." + GEN,

 "C08": "ops_where and ray_where (every mask) and ray_filter (every element type, lists included) are proved, for every length, to return exactly rank(n) elements with every set position k at index rank(k), where rank counts the set positions below k (induction over the loop), and to write only inside the result. Assumed: resize_obj keeps the first n elements, clone_obj returns its argument." + GEN,

 "C12": "cmp_obj is proved, for atoms of every scalar type, strings, vectors of every element type, lists, dictionaries and tables of any length, to have the sign of one total preorder: the order of the values with null lowest, symbols by text, vectors and strings lexicographic by the first differing position with the shorter first; str_cmp likewise. Lists by induction on depth (the recursive call through its own contract). Assumed: strcmp orders symbol texts, memcmp reports the first difference." + GEN,

 "C18": "at_idx, ray_at and at_obj at one position (13 vector types, every position and null), null(), nullv(), the at_ids gather kernels and drivers (every chunking), the whole-vector gathers of ray_at and at_obj, for every length and every position, are proved to give the element or the null of the element type and to read only inside the vector. Bounded: PARTED columns (at most 3 partitions, 2 gathered rows). Not covered: ENUM, TABLE, MAPLIST, negative positions of a PARTED column." + GEN,
 "C31": "ray_take is proved, for every vector and atom type it supports, every length, every count (16-, 32-, 64-bit, null included) and every range, to return exactly the cyclic repetition or the clamped slice and to stay inside its operands. Assumed: allocation of the result succeeds, the magnitude of the count is below 2^35. Not covered: dictionaries, tables, enums, mapped lists." + GEN,
 "C11": "clone_obj, rc_obj, drop_obj, copy_obj and cow_obj are proved, for atoms and vectors of every type, lists, all partitioned and mapped kinds that own parts, tables, dictionaries, enums and lambdas, for every length and reference count, whether counting is atomic (worker threads) or not: one reference more, one less, the block given back exactly once with the last reference after each part was dropped exactly once; a copy is a new equal value with one reference which shares (and clones once) or copies its parts; only the sole owner gets the value itself for modification. set_idx, ins_obj and push_obj take over the reference handed to them, store it, drop only what it replaces and leave the other elements; at_idx of a list hands out one more reference; unop_map and binop_map write the result over an operand only if nothing else refers to it. Parts go through the same contracts (induction on depth). Assumed: heap_free gives the block back and heap_realloc keeps its contents (C10). Not covered: values mapped from files, the callers that take and drop references throughout the interpreter (C28)." + GEN,
 "C20": "freelist_create, freelist_push, freelist_pop and freelist_get are proved, for registries of every size and fill (representation invariant: freed handles are distinct, below the high-water mark, and their slots read null), to keep the invariant, to give out no live handle, to keep every other handle's value across growth and to free a removed handle once. Assumed: heap_realloc keeps the old contents (C10), stored values are not the null marker (they are addresses)." + GEN,
 "C16": "i64_from_str, i32_from_str (for texts of any length, with loop invariants; the 4- and 8-digit fast paths through proved contracts on is_N_digits/parse_N_digits), u8_from_str, b8_from_str and guid_from_str are proved to read only inside the text, to consume exactly the numeral and to store its exact value, or to consume and store nothing. f64_from_str is not covered; strncmp is assumed to be the C function." + GEN,

 "C14": "size_obj and ser_raw are proved, for atoms of every scalar type, vectors of every type and any length, lists, tables, dictionaries, lambdas, functions, null and errors, to agree on the number of bytes, to write exactly the described form (type, count, every element; each part right after the one before, by induction over the parts) and not one byte outside it; a container with an unserializable part has size 0. de_value is proved to turn exactly that form back into the value: the same type, count and elements, all bytes taken; ser_obj frames it. The sizes and forms of parts are the callees' contracts (induction on depth); interning a symbol's text yields that symbol and the function-name tables are assumed." + GEN,
 "C15": "de_value is proved, for every type byte, every length and content of the remaining bytes and every depth, to read only inside the announced bytes (every load, copy and callee is bounds-checked against them), to leave between 0 and the given number of bytes, and to return an error or a well-formed value; for atoms and vectors exactly when the bytes suffice and element by element; parts by the same contract, nesting limited to 4096. de_obj, de_raw, de_is_table (rectangular tables) and str_len are proved; symbols_intern, table/dict/lambda construction and the function lookup are assumed contracts." + GEN,
 "C17": "str_match is proved, for texts and patterns of every length, to answer true only when the text matches (soundness: against the recursive definition of matching, with two lemmas about stars proved by induction) and to answer true whenever a match exists (completeness: for every certificate that assigns the items of the pattern consecutive pieces of the text), and to read only inside both; loop invariants of five loops are found by role and proved inductive on every path. ray_like on a text and on a list of texts asks it for exactly the right text and pattern, element by element, and refuses other types. Not covered: mapped and partitioned lists. Termination is not proved." + GEN,
 "C13": "The counting and radix sorts of every scalar vector type (ray_sort_{asc,desc}_{u8,i16,i32,i64,f64}) are proved, for vectors of every length and content, to return every position once, in the order of the values and, among equal values, of the positions: the histogram, prefix-sum and scatter loops have array invariants stated with counting functions, whose lemmas (a permutation, its inverse, stability, counts independent of the order of counting) are proved by induction in the same check. ray_sort_asc/desc (every type's choice of sort, the shortcuts for vectors marked as sorted), ray_iasc/idesc, ray_asc/desc, ray_rank, ray_xrank, ray_reverse and cow_obj (which must forget the marks) are proved against those contracts. Not covered: sorting of symbols, lists and dictionaries (merge sort), multi-column table sorts. Assumed: allocation succeeds, ray_til gives 0..n-1, pool_map runs its worker over a partition (C09), bucket counts of xrank below 2^20."+GEN,
}
NA = {
 "C10": "the buddy allocator's invariant (free lists threaded through the blocks, block headers recovered by pointer masking) needs separation-logic style ownership of a dynamically shaped heap, which rayvc's region memory (one region per object) does not have",
 "C19": "open addressing: probe sequences wrap around and the invariant quantifies over probe paths; not expressible in the quantifier-free invariants the engine can keep",
 "C21": "lock-free interning: the property is about interleavings of threads, rayvc's semantics is sequential",
 "C22": "built on the hash index (C19) which is not under contract",
 "C23": "group indices come from the hash index (C19) and merge per-worker tables; not under contract",
 "C24": "join matching is built on the hash index (C19); not under contract",
 "C25": "insert/upsert update nested objects through reference-count dependent in-place writes; the contracts of C11 speak of one value and its parts, not of who else holds a table being updated",
 "C26": "file contents and memory maps: no contracts for the operating system's file state within reach",
 "C27": "the queue is shared between threads; rayvc verifies sequential code, the property quantifies over interleavings",
 "C28": "the interpreter and its collector as a whole: no compositional contract within reach covers every program",
 "C29": "printing goes through variadic formatting into growing buffers; varargs functions cannot be brought under contract in rayvc and decimal float formatting is not expressible in its float theory",
 "C30": "event-loop state machines over sockets: the environment (epoll, partial reads and writes) has no contract here",
}
