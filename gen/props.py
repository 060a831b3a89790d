prop("C01", "Operations never modify their inputs",
     "No library operation writes into an array, buffer, index or dict/list that its caller passed in or that the receiver is built from, nor replaces a field of an operand: slicing, ufuncs, reducers, combinatorics, concatenation, conversion, copying and repr/str all leave every operand with the content it had. Only what is documented as mutation (item/column assignment and deletion, append/extend, assigning a public property) changes an object, and then only the object it is called on.",
     ["inputs", "programs", "histories"],
     "every public function, method, property and operator of every array class, for every argument and every way two objects can share a buffer",
     "tests compare the returned value and rarely look at the operand afterwards; aliasing shows only for particular inputs (masks that are views, indexes passed as ndarrays, views of tables)",
     ["awkward0/array/base.py", "awkward0/array/jagged.py", "awkward0/array/table.py", "awkward0/array/masked.py", "awkward0/array/indexed.py", "awkward0/array/chunked.py", "awkward0/array/union.py", "awkward0/array/virtual.py", "awkward0/array/objects.py", "awkward0/util.py", "awkward0/arrow.py", "awkward0/generate.py"],
     [("in-place stores are made on fresh copies", "awkward0/array/base.py:_util_fillna and every x[...] = y in the package"), ("copy() before rebinding fields", "*.copy in awkward0/array/*.py")],
     "interprocedural alias and effect analysis (abstract interpretation with must-facts)",
     "Every in-place effect (item store, augmented assignment, mutating method, out=, field store) reachable from each of ~1700 entry points is resolved to the objects it may hit; effects on caller-owned storage are violations. Assumes numpy view/copy rules of a table in sa/alias.py and that opaque user callables do not mutate their arguments.")

prop("C02", "In-place ufuncs and ufunc methods are refused, options are passed on",
     "For every array class, applying a numpy ufunc with an out= argument (including augmented assignment on arrays) or through a ufunc method (reduce, accumulate, outer, at, reduceat) never computes or writes anything: it raises or returns NotImplemented. A plain ufunc call hands the caller's keyword options on to every underlying application.",
     ["inputs", "programs"],
     "all array classes × all ufuncs × all methods × with/without out=",
     "tests call ufuncs plainly; the refusal branch of most classes is never reached and the options of nested applications never looked at",
     ["awkward0/array/base.py", "awkward0/array/jagged.py", "awkward0/array/table.py", "awkward0/array/masked.py", "awkward0/array/indexed.py", "awkward0/array/chunked.py", "awkward0/array/union.py", "awkward0/array/virtual.py", "awkward0/array/objects.py", "awkward0/array/pandas.py"],
     [("out/method guard", "__array_ufunc__ of every class")],
     "path enumeration with partial evaluation of __array_ufunc__ under the hypotheses out= / method != '__call__'",
     "All paths through each class's __array_ufunc__ (helpers inlined) are enumerated under the two refusal hypotheses; no application may be reachable. Assumes numpy's dispatch protocol.")

prop("C03", "Reading stored data only calls what the reader's whitelist names",
     "Reading a serialized array (from a mapping, a file or HDF5) never imports, looks up, calls or unpickles anything unless every item of the stored function name matched an entry of the whitelist given to the reader, and a name never steps from one module into another it imports. The stored data cannot replace, extend or bypass that whitelist, not even through keyword arguments or nested type descriptions. The default whitelist covers neither unpickling nor anything beyond the array classes, their declared helpers and decompressors.",
     ["inputs"],
     "all stored schemas, including maliciously constructed ones, and all whitelists",
     "tests only read data the library wrote itself, with permissive whitelists",
     ["awkward0/persist.py", "awkward0/array/base.py", "awkward0/array/virtual.py"],
     [("whitelist", "awkward0/persist.py:whitelist"), ("spec2function", "awkward0/persist.py:spec2function"), ("deserialize", "awkward0/persist.py:deserialize")],
     "gate (dominance) analysis of data-to-code operations with quantified must-facts",
     "Every import-by-name, computed attribute step, unpickling and call of a resolved object is enumerated; each must be dominated by a complete item-wise match against the caller's whitelist. What a whitelisted callable does is out of scope.")

prop("C04", "What is persisted describes the whole object, and the reader reads what the writer wrote",
     "Writing an array or type describes all of it, and reading reads exactly that. (1) Every array class describes itself by a call of its own class (or classmethod) that the default whitelist allows and whose arguments bind; every state field of the array that this call would build comes from the same field of the array written, or the form that leaves it out was chosen by a test that implies it (compact forms only for contiguous or sequential structure; chunks cut to the sizes recorded for them; a cache is given by the reader). (2) Every kind of schema node that is written is read as what it stands for: list as list, tuple as tuple, dict, pairs, reference by id, each object remembered under its id; keys() lists every stored buffer the schema refers to, in every position where nodes can occur; flags on a node are honoured. (3) Data are stored under prefix plus the name written into the schema, each buffer under a name of its own, and looked up by the same rule, with the schema suffix in use. (4) The dtype, count and inner shape described are those of the data stored, arrays of Python objects are not stored as raw buffers, masks of numpy masked arrays are kept, and each compressor is paired with its own decompressor. (5) Each type class written by type2json is read by json2type as the same class from the same parts, and each object's get-state and set-state agree.",
     ["inputs", "histories"],
     "all arrays and types of every class, in every state; all schemas the writers produce; every storage prefix, suffix and option",
     "round trips in the tests cover a handful of fresh arrays with default options; a forgotten field shows only for arrays that set it to a non-default value, a wrong node reading only for schemas of that shape",
     ["awkward0/persist.py", "awkward0/type.py", "awkward0/array/"],
     [("writers", "__awkward_serialize__ of every class"), ("reader", "awkward0/persist.py:deserialize,keys"), ("buffers", "awkward0/persist.py:serialize,awkward0/array/base.py"), ("types", "awkward0/persist.py:type2json,json2type")],
     "symbolic composition of each writer with the constructor it names, and per-node-kind comparison of reader, key walk and writer (abstract interpretation of the source)",
     "Field-by-field provenance of what a description would rebuild; whether numerical values survive (encodings of numpy, json, zlib, h5py) is trusted.")

prop("C05", "Copies are complete and independent",
     "copy() and deepcopy() of every array class, with and without overrides, return an object of the receiver's own class in which every state field is set: to the receiver's value, or to the override converted as assigning that property would convert it. The containers that the class changes in place (column dicts, chunk lists, recorded column changes, a growing buffer) belong to the copy alone, and deepcopy shares no array storage with the receiver, cached offsets, indexes and default values included. So changing a copy never changes the original and no override is ignored.",
     ["inputs", "programs", "histories"],
     "every array class × copy/deepcopy × every override × every state the receiver can be in",
     "tests copy a fresh array and compare values; a forgotten field or shared container only shows after a later cache fill, assignment, append or in-place write",
     ["awkward0/array/base.py", "awkward0/array/jagged.py", "awkward0/array/table.py", "awkward0/array/masked.py", "awkward0/array/indexed.py", "awkward0/array/chunked.py", "awkward0/array/union.py", "awkward0/array/virtual.py", "awkward0/array/objects.py"],
     [("copy and deepcopy of each class", "awkward0/array/*.py"), ("state fields and their setters", "awkward0/array/*.py")],
     "field-completeness, provenance and sharing analysis of copy/deepcopy by abstract interpretation, per class and per override",
     "Every path of the 26 copy/deepcopy methods is interpreted for every override; each state field of the result must be set, come from the receiver's field or the override, and not share what is changed in place. Trusts _util_deepcopy and numpy copies to be fresh.")

prop("C06", "No cached or derived state outlives what it was computed from",
     "Whenever an operation replaces the structure an array is built from (assigning a public property, copying with overrides, projecting, appending, assigning columns through chunks), every cached or derived field computed from that structure is recomputed or reset with it: offsets, counts, parents, inverse index, dtype, chunk offsets and chunk types, a virtual array's materialization, and the flag that records a passed validity check. So no later result is computed from a description of the old structure, and a changed array is validated again.",
     ["inputs", "histories"],
     "every array class × every order of reading derived properties and replacing structure",
     "a stale cache needs the history read-derived, replace-structure, read-again; tests build a fresh array for each assertion",
     ["awkward0/array/jagged.py", "awkward0/array/indexed.py", "awkward0/array/masked.py", "awkward0/array/chunked.py", "awkward0/array/union.py", "awkward0/array/virtual.py"],
     [("offsets/counts/parents caches", "awkward0/array/jagged.py:JaggedArray"), ("inverse", "awkward0/array/indexed.py"), ("_isvalid", "*._valid"), ("chunk offsets and types", "awkward0/array/chunked.py"), ("materialization", "awkward0/array/virtual.py")],
     "dependency analysis between structural and derived fields, then path-wise invalidation check of every rebinding",
     "The dependencies are read off the code that fills each cache; on every path of every function that rebinds a structural field (or grows it in place), each dependent field must be recomputed or reset. Rebindings of objects whose class is not statically known (tree nodes inside JaggedArray.__getitem__) are counted in the evidence and not judged.")

prop("C07", "Structure is checked before it is trusted",
     "With the library's checks on (the default), an array whose structure does not fit is refused, never read. (1) Assigning starts, stops, offsets, counts, parents, index, length, mask, maskedwhen, tags, contents or chunksizes, and giving them to a constructor or to copy(), tests on every path what the field needs: integer type, no negative element, number of dimensions, non-emptiness, monotonic order; a refused assignment changes nothing. (2) Whole-array validation (_valid) accepts an array only after establishing that the structure stays inside the content: every start <= its stop and non-empty stops <= len(content) for jagged arrays; index < len(content); mask no longer than the content (8 bits per byte for bit masks); unmasked mask-indexes within [0, len(content)); tags < len(contents) and, for every tag, index < len(contents[tag]); chunk sizes equal to the chunks' lengths. (3) Only a passed whole-array check marks an array as valid. (4) Every public method that subscripts content with structure (or iterates over such subscripts) has passed validation first, so that negative wrap-around or out-of-range positions never select the wrong elements.",
     ["inputs", "histories"],
     "all arrays, every order of assignments and reads",
     "each malformed structure needs its own input, and an unchecked read usually returns plausible data from the wrong place instead of failing",
     ["awkward0/array/jagged.py", "awkward0/array/indexed.py", "awkward0/array/masked.py", "awkward0/array/union.py", "awkward0/array/chunked.py"],
     [("_valid of each class", "awkward0/array/*.py:_valid"), ("property setters", "awkward0/array/*.py"), ("readers", "__getitem__, __iter__, flatten, pad, argmin, ... of each class")],
     "path-wise order-fact analysis of validation, setters and readers",
     "The branch facts of every returning path are turned into order facts (elementwise bounds between arrays and lengths) and compared with the bounds each class's structure needs; a test the analysis cannot read leaves that obligation undecided and counted in the evidence. SparseArray index against length and AppendableArray's own bookkeeping are not judged.")

prop("C09", "Views of tables select the right rows, exactly once",
     "A table that is a view, (start, step, length) or an index array, of another table's columns behaves as a table of exactly the viewed rows. Position i of a (start, step, length) view is start + step*i, a slice of a view composes both, negative positions count from the end of the view, and a position outside the view is refused; the selection of a view covers exactly its length for positive and negative steps, and for empty views. Every function that reads the columns of a table (item access, rows and iteration, ufuncs on tables and on rows, reducers, astype, fillna, padding, zeros_like, deepcopy, concatenation, flattening, persistence, Arrow conversion, and jagged and object arrays of tables) either applies the view to each column before using it or hands the whole columns on together with the same view (concatenation puts together the rows of the tables only, also where columns are longer than their table): no result holds columns with no view applied, and none with the view applied twice. A row's index is a position in the columns, so a row is never looked up through the view again. Assigning or deleting a column of a view is refused, because the columns are shared.",
     ["inputs"],
     "all tables, views, views of views, rows and operations on them",
     "the unit tests take a few views of one small table; whether an operation forgets the view shows only when that operation meets that kind of view",
     ["awkward0/array/table.py", "awkward0/array/jagged.py", "awkward0/array/objects.py", "awkward0/arrow.py"],
     [("view arithmetic", "awkward0/array/table.py:_newslice,_index,_length,__iter__"), ("operations on columns", "awkward0/array/table.py:__getitem__,__array_ufunc__,_reduce,_prepare,_mapcolumns,deepcopy,_concatenate_axis0"), ("rows", "awkward0/array/table.py:Row"), ("column changes", "awkward0/array/table.py:__setitem__,__delitem__")],
     "typestate of columns (raw / viewed once) per path, with the view of every table that receives them; symbolic comparison of the view arithmetic as polynomials in (start, step, length)",
     "Columns reached through calls that cannot be resolved are counted as not followed; Table.fromview takes the view it is given; slices inside numpy are trusted.")

prop("C10", "Walks over whole structures end and visit each node once",
     "nbytes, columns, rowname, type, layout and pandas conversion of an array, and repr, str, comparison, hashing, copying, hascolumn, isnumpy and persistence of a type, terminate on structure that shares or contains itself, and treat a shared node as one node. Every function that takes part hands its own record of visited nodes to the parts it descends into (never a fresh one), and on every cycle of the recursion a node is tested to be absent from that record and entered into it before anything below it is visited. A node met again gets exactly the object entered for it. Ids are recorded only of objects that stay alive, so an id never stands for another object (e.g. arrays that virtual arrays produce while the walk is going on). nbytes and layout leave out no array that the object holds.",
     ["inputs"],
     "all arrays and types, shared and self-containing ones included, of every class",
     "self-containing and shared structures form an unbounded family of graphs over 16 classes; whether an id is reused depends on the allocator",
     ["awkward0/type.py", "awkward0/array/", "awkward0/persist.py"],
     [("walk methods", "awkward0/array/*.py:_getnbytes,_gettype,_util_layout,_util_columns,_util_rowname,_topandas"), ("type walks", "awkward0/type.py:_copy,_canonical,_eq,_repr,_str,_resolve,_fromarray,LayoutNode"), ("type persistence", "awkward0/persist.py:type2json")],
     "guarded-recursion analysis: call graph components with path facts and must-marks on the record of visited nodes",
     "Recursion resolved by method name over all classes; deep recursion on structure that does not contain itself is not judged; walks without a record (tolist, str of arrays, arrow conversion) are outside the property.")

prop("C11", "Arrays that arrange other arrays keep each element's own value, and pass on the options they are given",
     "For IndexedArray, UnionArray, SparseArray, ChunkedArray, AppendableArray and ObjectArray (valid ones, whatever the index, tags, stored rows or chunk sizes, with more content than is used, and with unused room in the last chunk of an AppendableArray): an element of the result of an indexing operation (integer, slice - of a SparseArray in either direction and with any step -, index array, boolean array or column name, with or without further indexes, which are applied to every element), iteration (except of a SparseArray), copy, concatenation, counts, boolmask, fillna, astype, flatten, flattentuple, pad, regular, choose, pairs, cross and their arg- and distinct forms, an element-wise function of one or two arrays, or a reduction, is computed from the element(s) of the operand(s) at its own position: the stored element that its index, tag or chunk says, and the default where a SparseArray stores none; never from another position's element, from unused content or room, or from nothing. The chunks of a result are in the order of its operand's chunks. An operation that such an array hands on to its content is that operation, with the options that were given to it (n, nested, axis, length, maskedwhen, clip, dtype, identity), and the objects of an ObjectArray's elements are made by its own generator, with its own args and kwargs.",
     ["inputs"],
     "all indexes, tags, stored rows, chunkings and contents, all forms of an index, both operand orders, and all values of the options",
     "the tests use a handful of small arrays whose index is nearly the identity, whose chunks are full and whose options are the defaults, where these errors cancel",
     ["awkward0/array/indexed.py", "awkward0/array/union.py", "awkward0/array/chunked.py", "awkward0/array/objects.py"],
     [("index", "awkward0/array/indexed.py:IndexedArray.*,SparseArray.*"), ("union", "awkward0/array/union.py:UnionArray.*"), ("chunks", "awkward0/array/chunked.py:ChunkedArray.*,AppendableArray.*"), ("objects", "awkward0/array/objects.py:ObjectArray.*")],
     "element-wise abstract interpretation: every operation is interpreted on arrays of abstract lanes (stored and default, one per tag, one per chunk, unused room), whose positions are opaque",
     "Judges which element a value comes from and which operation with which options is applied to it, not the arithmetic of the contents. Slices of ChunkedArrays (loops over chunk numbers, judged by C19), ChunkedArray by ChunkedArray indexing and the positions given by argmin and argmax are not judged; arrays of one dimension.")

prop("C12", "Types are values: comparison, hash and copies use every part",
     "For every type class (ArrayType, TableType, UnionType, OptionType): == answers True only where it has tested that the other type is of the same class and has compared each field of the one with the same field of the other (sizes, element types, all columns by name whatever their order, each alternative matched with one alternative of its own, the type under an option), both sides normalised in the same way, on copies; a pair met again is recognised by both of its members, and comparisons that are only tried out leave nothing behind. hash() normalises as == does and depends neither on the order of columns or alternatives nor on object identity, so equal types have equal hashes. Copying, normalising, resolving, labelling and persisting a type handle every type class and go into all of its parts; every type that is built has all its fields, in containers of its own; number and string types stored as parts become numpy dtypes. ==, hash, |, &, repr and str change neither operand.",
     ["inputs"],
     "all pairs of types, shared and recursive ones included",
     "the unit tests compare a few dozen flat types; the answers depend on which sub-types are shared or recursive and on the order of columns and alternatives",
     ["awkward0/type.py", "awkward0/persist.py"],
     [("equality and hash", "awkward0/type.py:_eq,_hash,_eq2,_hash2,__eq__,__hash__"), ("type walks", "awkward0/type.py:_copy,_canonical,_resolve,_labeled"), ("operators and setters", "awkward0/type.py:__or__,__and__,__setitem__,append,takes,to,type")],
     "field-coverage analysis of comparison outcomes (path facts, quantified over containers), and completeness, freshness and effect analysis of the type constructors and walks",
     "Judges which parts are compared, hashed, copied and stored; not the normalisation rules themselves (which nestings count as the same type), nor that any two callables are equal as element types.")

prop("C13", "Missing values stay missing",
     "For MaskedArray, BitMaskedArray and IndexedMaskedArray, in either sense of maskedwhen (and any missing marker of an IndexedMaskedArray), in either bit order, and also if the content is longer than the mask: an element that the mask declares missing is missing in everything that is derived element by element - indexing with integers, slices, index arrays, boolean arrays and column names, iteration, boolmask, ismasked and isunmasked, copies, ufuncs (missing if it is missing in any operand), concatenation, indexed, flatten (one missing element), choose/pairs/cross and pad, fromboolmask, and conversion to and from Arrow - or gives what is documented for it (-1 in counts, nan in regular, the fill value in fillna, nothing added to a reduction, argmin and argmax). An element that is not missing is never made missing and always gives its own value, not that of another position. What lies under a mask reaches no result.",
     ["inputs"],
     "all masks, both senses of maskedwhen, all missing markers, both bit orders, contents of any kind and length, all operations",
     "a test samples one mask in one sense; polarity, bit order, index and length errors cancel for the samples with the defaults",
     ["awkward0/array/masked.py", "awkward0/arrow.py"],
     [("masks", "awkward0/array/masked.py:*.boolmask,_maskwhere,__getitem__,__array_ufunc__"), ("reductions", "awkward0/array/masked.py:*._prepare,_reduce,argmin,argmax"), ("Arrow", "awkward0/arrow.py:toarrow,fromarrow")],
     "element-wise abstract interpretation: every operation is interpreted on arrays of abstract lanes (missing, present), one value per kind of element",
     "Judges which element, and whether it is missing, not arithmetic: contents are opaque. Masks of one dimension; masked tables convert to columns with nulls rather than null rows.")

prop("C14", "fromiter keeps every object it is given, once and in order",
     "fromiter makes an array with as many elements as the iterable had objects, in their order. Whatever the types of the objects and in whatever order they come, appending an object to a builder gives a builder (the same one, or a promoted one that holds it) that is exactly one element longer: no object is lost, doubled or moved when a builder is promoted to a union, to a nullable or to another element type, and where appending to a nested builder can promote it the promoted builder is kept. Nulls are recorded at the position of the object they stand for, before or after any promotion; the tag and index recorded for an object of a union are the alternative it went to and its number in it; offsets, columns, counts, tags and indexes of one builder always agree. Finalizing covers every kind of content, puts the values at the places that are not null, writes masks in the sense that maskedwhen asks for, and hands the options on to nested builders. A cleared builder has length 0.",
     ["inputs", "histories"],
     "all sequences of objects of all types, nulls and nestings, and both values of maskedwhen",
     "every order in which types first appear is another sequence of promotions; the tests try a few short ones",
     ["awkward0/generate.py"],
     [("builders", "awkward0/generate.py:*Fillable.append,finalize,clear,__len__"), ("entry", "awkward0/generate.py:fromiter")],
     "abstract interpretation of the builders over linear length expressions, with inferred relations between fields and per-path accounting",
     "Lengths, positions and mask polarity, on all paths; not the values themselves (number types, string encodings, numpy.unique), nor which objects count as null (None, and a dict without keys).")

prop("C16", "Virtual arrays are generated when needed, once, and with their own arguments",
     "For every VirtualArray, with or without a cache, with a transient or a persistent key, whether or not the cache has evicted it, and also if its cache, persistent key, generator, args or kwargs are changed after it was read: reading `array` returns the array that is held or found in the cache without calling the generator, and otherwise calls it exactly once, as generator(*args, **kwargs), and keeps the result (in the cache if there is one). ismaterialized is true exactly when reading `array` would not call the generator. type, shape, dtype and len with a declared type, nbytes with a declared size, the key, the layout, copying, assigning attributes, and persisting with persistvirtual and no edits do not call it. After generator, args or kwargs are changed, what the old ones made is not returned. Columns assigned or deleted are in effect when the array is generated again. An array that does not have the declared type is refused before it is kept, as often as it is read. A copy has its own key and its own record of edits. A transient key is of one object, is removed from the cache with the object, and is never persisted.",
     ["histories", "inputs"],
     "all combinations of cache, key, eviction, declarations and recorded edits, and all sequences of reads, evictions and assignments between them",
     "the states are left by sequences of evictions, assignments, copies and deletions that a few tests walk through once each",
     ["awkward0/array/virtual.py"],
     [("states", "awkward0/array/virtual.py:VirtualArray.array,ismaterialized,materialize"), ("lifetime", "awkward0/array/virtual.py:VirtualArray.__del__,_forget,copy")],
     "typestate analysis: transfer functions of all methods over the states of a virtual array, derived by abstract interpretation of the source",
     "One virtual array (and its copies) at a time; what the generated array itself does with its columns is abstracted to a set of columns; in-place changes of args or kwargs objects are not seen. Values that str, repr or operations read do generate the array.")

prop("C17", "Everything the library names exists and every internal call binds",
     "On every branch of every function, executed by the tests or not: every name, imported module member and numpy member it uses is defined; a local variable is never read where no assignment can have reached it; every attribute read through self, cls or super() is a member of every array class that runs that code; a property is not called as a method; and every call of one of the library's own functions, methods or constructors supplies arguments that its signature (and the signature of each class's override) accepts. So no error path, option or class combination ends in a NameError, AttributeError or argument-count TypeError raised by the library's own code.",
     ["inputs"],
     "all code paths of all functions, with every array class that inherits them",
     "more than half of the branches (error paths, rarely combined classes and options) are never executed by the tests, and Python only finds such errors when they run",
     ["awkward0/"],
     [("whole package", "awkward0/**/*.py")],
     "scope resolution, reaching definitions, class-hierarchy member resolution and call binding over the syntax tree",
     "Whole-package name/member/argument binding. Attributes of receivers of unknown class are checked only against the union of what the package, the builtins and numpy define; contents of dynamically built classes other than the pandas mixin are not modelled.")

prop("C18", "Structure is only applied to the content it describes, however the array is laid out",
     "The result of an operation depends on the elements of the arrays, not on how valid arrays happen to be laid out: a JaggedArray whose sublists are out of order, leave gaps, do not start at zero, or whose content or stops are longer than the starts need; a MaskedArray or IndexedMaskedArray with more content than mask, an IndexedArray in any order, a SparseArray, a UnionArray with more index than tags. In every method, two arrays are combined element by element, a mask or a repetition is applied, values are assigned and a new structure is put around a content only if both run over the same things (the elements of the array, its flattened elements, the stretch of content its structure reaches, its whole content, the stored elements, the elements of one tag, ...); positions are only used on the array they are positions in; an index given by the caller, and the last element, refer to the elements and not to a longer structure array; offsets are only used where the sublists are contiguous; and counts, boolmask, fillna, regular and the other methods with one value per element return exactly one value per element, flatten one per flattened element.",
     ["inputs"],
     "all layouts of the same elements, in all methods",
     "tests build arrays with fromiter or fromcounts, where the content, the reached content and the flattened elements coincide and confusing them changes nothing",
     ["awkward0/array/jagged.py", "awkward0/array/masked.py", "awkward0/array/indexed.py", "awkward0/array/union.py"],
     [("jagged", "awkward0/array/jagged.py:JaggedArray.*"), ("masked", "awkward0/array/masked.py:*"), ("indexed, sparse", "awkward0/array/indexed.py:*"), ("union", "awkward0/array/union.py:*")],
     "index-space inference: symbolic row spaces with unification, by abstract interpretation of every method on arrays in general position",
     "Which space an array runs over, not the numbers in it: an off-by-one inside an element, or arithmetic on local positions, is not seen. One-dimensional structure only; chunks of ChunkedArray, views of Table and overlapping sublists are not modelled.")

prop("C19", "Counts, offsets, parents, tags and chunk numbers denote the same positions",
     "The forms in which arrays store positions are converted into each other without moving, losing or inventing an element, for arrays of any lengths. JaggedArray.counts2offsets gives the running sums from 0; offsets2parents, startsstops2parents and the parents property give for every position of the content the number of the list it is in, and -1 for positions of no list before, between or after them, for lists in any order and empty ones; parents2startsstops gives back the runs of the parents in any order (items of parent -1 are in no list, lists without items are empty and inside the content); uniques2offsetsparents gives one list per run of equal values; for no items there are no lists; counts are stops minus starts, one per list; localindex numbers the items of every list from 0. IndexedArray.invert gives the index that undoes a permutation and refuses duplicates. UnionArray.fromtags numbers the elements of every tag from 0 and refuses contents that are too short. The inverse of a SparseArray's index leads every stored position to its own row and only rows that exist, boolmask tells stored from default positions in either sense, and dense puts stored values at their positions and the default everywhere else. A ChunkedArray finds, whatever chunk sizes it has determined so far and with empty chunks, the chunk and local position of every global position, negative ones included, and back, for one position or an array of positions, refuses exactly the positions outside, and leaves the caller's index array alone; its offsets, chunk sizes and length always agree with its chunks as far as they are known. Indexing a ChunkedArray with a position, an index array, a boolean array (of its own length only) or a slice with any bounds and a step up to 3 in either direction gives the elements of all its chunks, one after the other, that the index means. AppendableArray.append and extend add the given values, all of them and once, behind the used elements, which keep their values; no chunk is used beyond its end.",
     ["inputs"],
     "all list, run, tag and chunk sizes, orders and gaps, all stored rows, and all positions, slices and masks",
     "off-by-one errors at chunk, run and list boundaries need particular sizes (an empty chunk, a boundary exactly at the slice's end, a gap) that a handful of example arrays do not have",
     ["awkward0/array/jagged.py", "awkward0/array/indexed.py", "awkward0/array/union.py", "awkward0/array/chunked.py"],
     [("lists", "awkward0/array/jagged.py:JaggedArray.counts2offsets,offsets2parents,startsstops2parents,parents2startsstops,uniques2offsetsparents,counts,parents,localindex"), ("index", "awkward0/array/indexed.py:IndexedArray.invert,SparseArray._getinverse,boolmask,dense"), ("tags", "awkward0/array/union.py:UnionArray.fromtags"), ("chunks", "awkward0/array/chunked.py:ChunkedArray.global2chunkid,global2local,local2global,knowchunksizes,offsets,_slices,__getitem__; AppendableArray.append,extend")],
     "abstract interpretation (trace-partitioned) with a segment domain (arrays as runs of symbolic length with values linear in the position) over linear facts (polyhedra, with congruences for steps)",
     "Three lists, runs, tags or chunks of any size stand for any number of them; extend is followed for up to three new chunks; steps beyond 3, and chunks of more than one dimension, are not judged.")

prop("C20", "Operations on a JaggedArray keep every list's own items, in order, wherever they lie",
     "For one-dimensional JaggedArrays of lists of any sizes, empty ones included, with the lists one after the other, not starting at position 0 of the content, or out of order with gaps, with more content and more stops than the lists need: a[i], also for negative i, is the items of list i; a[slice], a[index] and a[mask] are the chosen lists; a[:, j] is item j of every list, counted from the end if negative, and is refused exactly if a list has no such item; a[:, start:stop:step] with step 1 or -1 is that slice of every list; a[jagged index] and a[jagged mask] choose the items of every list that the list of the same number of the index or mask says, wherever that list lies; flatten gives all items in the order of the lists; compact and iteration give the same lists; tojagged gives every item of a list that list's value, or puts another array's lists into this layout; a ufunc of two jagged arrays with the same counts, or of a jagged array and one value per list or one number, in either order, combines the items of list i at the same position; concatenating along the first axis gives the lists of the first array and then those of the second; reducing gives one value per list, over that list's items only, and the identity for an empty list; pad keeps every list's items, adds missing ones up to the given length, and with clip=True cuts longer lists to it; fromcounts, fromoffsets, fromparents, fromuniques, fromlocalindex and fromfolding put every item of the content into its list.",
     ["inputs"],
     "all list sizes, orders, gaps, positions, slice bounds, jagged indexes and masks",
     "tests use arrays made by fromiter or fromcounts, whose lists are contiguous from position 0, and a few sizes; boundaries between lists, empty lists and gaps only matter in combinations of layouts",
     ["awkward0/array/jagged.py"],
     [("selection", "awkward0/array/jagged.py:JaggedArray.__getitem__"), ("layout", "awkward0/array/jagged.py:JaggedArray.flatten,compact,__iter__,tojagged,_tojagged,_concatenate_axis0"), ("arithmetic", "awkward0/array/jagged.py:JaggedArray.__array_ufunc__,_reduce,pad"), ("construction", "awkward0/array/jagged.py:JaggedArray.fromcounts,fromoffsets,fromparents,fromuniques,fromlocalindex,fromfolding")],
     "abstract interpretation (trace-partitioned) of JaggedArray's operations with a segment domain (arrays as runs of symbolic length with values linear in the position) over linear facts",
     "Three lists of any sizes (two for jagged indexes and masks) stand for any number of them. Items are opaque; the ufunc judged is subtract (one that tells its operands and their order apart) and the reducer add with identity 0; contents that are awkward arrays or have more dimensions, slices with other steps, and axis=1 concatenation are not judged.")
