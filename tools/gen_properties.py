#!/usr/bin/env python3
# Source of properties.jsonl (run from /verif: python3 tools/gen_properties.py)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=hook)))

p("P01","Search returns a valid, locally optimal answer",
 "A search on any index returns distinct ids of indexed elements, each with exactly the distance between that element and the query, in ascending distance order, at most min(requested results, max_search) of them, and asking for fewer results returns a prefix of asking for more. The answer is closed under the bottom-layer graph: when fewer than max_search elements were found every neighbor of a found element is also found, and otherwise no neighbor of a found element that was left out is closer than the worst one found. The best distance is never worse than that of element 0 (the fixed entry point), and a search on an empty index returns nothing.",
 ["inputs","configurations"],"every index (built in any way or loaded, any element type), every query element and every max_search and result count, including 0 and values larger than the index",
 "Tests look at the top hit of a few searches on random data; none checks order, reported distances, result counts, prefix consistency or the closure of the explored set, for all indexes, queries and parameters.",
 ["src/index/mod.rs","src/max_size_heap.rs"],
 [("best-first search with a bounded result heap","src/index/mod.rs search_for_neighbors"),("descent through the upper layers","src/index/mod.rs find_entrypoint, search_internal"),("bounded heap","src/max_size_heap.rs")],
 observe=["Granne::search","Index::get_neighbors"])
p("P02","Search is exact when max_search covers a connected index",
 "When every element of the bottom layer can be reached from every other one and max_search is at least the number of elements, a search returns the k true nearest elements by brute force, with their distances. In particular an index of distinct non-zero elements that is small enough for every element to list all others as neighbors (one layer) links every element to all others, and then searches on it are exact.",
 ["inputs","configurations"],"every index whose bottom layer is strongly connected, every query, every k, max_search from the number of elements upward",
 "Existing tests use max_search far below the index size and accept misses; they never compare with brute force over generated graphs.",
 ["src/index/mod.rs"],
 [("search explores everything reachable while the result heap is not full","src/index/mod.rs search_for_neighbors"),("neighbor selection keeps every candidate while there is room","src/index/mod.rs select_neighbors, add_and_limit_neighbors, connect_nodes")],
 observe=["Granne::search"])
p("P03","Built indexes give high recall at sublinear search cost",
 "An index built over generic (uniform or clustered) data with sensible settings finds the large majority of the true nearest neighbors: for every element type recall stays above a floor that depends only on the settings, indexed elements find themselves, and larger max_search does not reduce recall. The same holds for indexes made with the concurrent builder, searched directly or saved and loaded. A search evaluates the distance to only a bounded set of elements - about max_search times the neighbor limit plus the descent, never more than once per element and layer - far fewer than the number of elements in a large index; the descent uses the layers also in the concurrent builder, so that a search for few results stays cheap however long the way to the query is (data on a line or in a plane).",
 ["inputs","configurations","histories"],"random data sets of varied dimension, size and clustering, all element types, build settings in the documented useful range, built in one go, incrementally, or resumed from disk",
 "Tests check self-recall on one uniform data set per element type with one configuration; recall against brute force and search cost over varied data, configurations and build histories are untested.",
 ["src/index/mod.rs","src/elements/angular.rs","src/elements/angular_int.rs","src/elements/embeddings/mod.rs"],
 [("hierarchical layers and entry point descent","src/index/mod.rs find_entrypoint"),("heuristic neighbor selection and reinsertion","src/index/mod.rs select_neighbors, index_elements_in_last_layer"),("bidirectional linking","src/index/mod.rs index_element, connect_nodes")],
 observe=["Granne::search","RwGranneBuilder::search, insert","ElementContainer::dist_to_element call counts"])
p("P04","Every reachable index graph is well formed",
 "After any history of adding elements, building, partially building, saving and reloading, in every layer each element's neighbor list contains only ids of elements in that same layer, no duplicates, not the element itself, and no more entries than the configured neighbor limit. Layers are nested prefixes of the elements: sizes never decrease from one layer to the next, the last layer's size is the number of indexed elements, and rebuilding never changes the size of an already finished index. Every ordinary element of a layer (not zero, no near duplicate) is linked to others if there are others.",
 ["histories","inputs","configurations"],"every sequence of push / build / build_partial / save+load operations with any build configuration and any elements, including duplicates and zero vectors",
 "Tests build a handful of fixed configurations and check only layer counts and self-recall; graph invariants are not checked after any history.",
 ["src/index/mod.rs","src/index/io.rs"],
 [("unused slots are a suffix of each fixed-width neighbor list","src/index/mod.rs connect_nodes, add_and_limit_neighbors, initialize_node"),("layers built top down, each starting as a copy of the previous","src/index/mod.rs build_partial")],
 observe=["Index::get_neighbors","Index::layer_len","Index::num_layers"])
p("P05","Layer sizes and element counts follow the build configuration",
 "A build over n elements (or the configured expected number, if larger) produces layers whose sizes grow by the layer multiplier up to the total, the topmost one smaller than about one multiplier. A partial build indexes exactly the requested number of leading elements, leaves the element count untouched, refuses to index fewer elements than already indexed or more than exist, and building in several steps with the expected total configured ends with the same layer sizes as building in one step.",
 ["configurations","histories"],"every n, every multiplier above 1, every expected number of elements and every split into partial builds",
 "Tests check three multipliers on a few sizes; float rounding of the layer-size computation and arbitrary split histories are not covered.",
 ["src/index/mod.rs","src/index/rw/mod.rs"],
 [("layer size formula","src/index/mod.rs compute_num_elements_in_layer"),("layer growth loop","src/index/mod.rs build_partial, index_elements_in_last_layer")],
 observe=["Index::layer_len","Index::len","Builder::num_elements"])
p("P06","Saved indexes reload to the same index, from memory or mapped file",
 "Writing any index and loading it back - from bytes at any memory address, from a memory-mapped file, or into a builder with at least the same neighbor limit - yields the same layers, the same neighbor sets and identical search results, and writing the reloaded index again yields the same bytes. The data is written starting at the writer's current position, leaves everything before that position alone, and depends only on the index contents.",
 ["inputs","configurations","histories"],"every index graph within the format's limits (ids up to 2^32-2, 0 to 254 neighbors, layer lengths around every chunk boundary, empty indexes), every alignment of the buffer, writers at any start offset, owned, borrowed and reordered indexes",
 "Round-trip tests use a few built indexes; ids above 2^16, list lengths at encoding boundaries, layer lengths at chunk multiples, misaligned buffers and re-saving are not exercised, and several of these tests abort on the original code.",
 ["src/index/io.rs","src/slice_vector/set_vector.rs","src/slice_vector/offsets.rs"],
 [("metadata header and layer sizes","src/index/io.rs write_index, load_layers"),("delta + stream-vbyte encoded neighbor sets","src/slice_vector/set_vector.rs"),("chunked offsets","src/slice_vector/offsets.rs")],
 observe=["Index::write_index","Granne::from_bytes","Granne::from_file","GranneBuilder::from_bytes"])
p("P07","Saved elements reload to the same elements",
 "Writing any element collection (float vectors, quantized vectors, sums of embeddings and their embeddings) and loading it back from bytes at any address or from a memory-mapped file yields the same number of elements, the same dimension and bit-identical values, including for empty collections. The reported byte count equals the number of bytes actually written, and writing the reloaded collection yields the same bytes.",
 ["inputs"],"every dimension, element count and value (including NaN payloads, infinities and signed zeros stored through raw slices), empty elements and empty collections, every buffer alignment",
 "Tests round-trip a few well-formed random collections; the returned byte counts, empty collections and misaligned buffers are never checked.",
 ["src/slice_vector/mod.rs","src/elements/dense_vector.rs","src/elements/embeddings/mod.rs","src/io.rs","src/odd_byte_int.rs"],
 [("fixed-width layout: width then raw data","src/slice_vector/mod.rs FixedWidthSliceVector::write, load_mmap"),("variable-width layout: count, offsets, data","src/slice_vector/mod.rs VariableWidthSliceVector::write, load_mmap"),("3- and 5-byte integers","src/odd_byte_int.rs")],
 observe=["Writeable::write","Vectors::from_bytes","Vectors::from_file","SumEmbeddings::from_bytes","SumEmbeddings::from_files"])
p("P08","Building can be interrupted, saved and resumed without loss",
 "Saving a partially built index and continuing from the saved file with the same configuration and elements gives the same index as continuing without saving (single-threaded, distances in general position). Already indexed elements are kept, elements pushed after loading are indexed and linked by the next build, and loading with a smaller neighbor limit keeps a subset of each neighbor list.",
 ["histories","configurations"],"every split of a build into partial builds with save and reload at any subset of the boundaries, any configuration",
 "One test reloads one saved index into a builder; equality with the uninterrupted build over arbitrary interruption points is never checked.",
 ["src/index/mod.rs","src/index/io.rs"],
 [("builder re-creation from compressed layers","src/index/mod.rs GranneBuilder::from_bytes"),("skip already indexed elements","src/index/mod.rs index_elements")],
 observe=["GranneBuilder::from_bytes","GranneBuilder::from_file","Builder::build_partial"])
p("P09","Reordering is a pure renaming of the index",
 "Reordering an index returns a permutation of its element ids such that position i holds the element previously at order[i] and its neighbor sets are the renamed old ones in every layer; elements stay within the same layer ranges, so layer sizes and search results (up to the renaming, distances in general position and the same entry point) are unchanged. Reordering by keys additionally sorts the ids of each layer range by key, keeping original order between equal keys.",
 ["inputs","configurations"],"every index (built, loaded, mapped, with one or several layers, small and larger than the internal chunk sizes), every element type, every key assignment including ties",
 "Tests check five ids of one index per reorder function; layer preservation, neighbor sets, chunk boundaries and single-layer or empty indexes are not covered.",
 ["src/index/reorder.rs","src/slice_vector/mod.rs","src/elements/embeddings/mod.rs","src/elements/embeddings/reorder.rs"],
 [("layer-preserving order","src/index/reorder.rs compute_order, reorder_by_keys"),("graph renaming through the reverse mapping","src/index/reorder.rs reorder_layer"),("element permutation","src/slice_vector/mod.rs permute; src/elements/embeddings/mod.rs permute")],
 observe=["Granne::reorder","Granne::reorder_by_keys","Index::get_neighbors","Granne::get_element"])
p("P10","Distances are angular distances, consistently across all access paths",
 "The distance between two non-zero vectors is 1 minus their cosine, within floating point rounding, clamped to be non-negative: in [0, 2], symmetric, about 0 for parallel vectors, about 2 for opposite ones, and invariant under positive scaling of the input. Computing it by vectors, by ids, in batches, or through a borrowed, sliced or user-defined container gives the same value.",
 ["inputs"],"vectors of every dimension (across all vectorization remainders) and magnitude within the safe floating point range, float and quantized, all containers",
 "Unit tests compare 100 random float vectors of dimension 100; other dimensions, magnitudes, quantized vectors and container paths are not compared with a reference.",
 ["src/math.rs","src/elements/angular.rs","src/elements/angular_int.rs","src/elements/mod.rs","src/elements/dense_vector.rs"],
 [("dot products with avx2 and remainder loops","src/math.rs"),("container distance methods","src/elements/mod.rs, src/elements/dense_vector.rs dist, dists, dist_to_element")],
 observe=["Dist::dist","ElementContainer::dist","ElementContainer::dists","ElementContainer::dist_to_element"])
p("P11","Normalization and quantization preserve direction",
 "Converting raw numbers to a float vector keeps direction and gives unit length; the zero vector stays zero. Converting to a quantized vector maps the largest magnitude to plus or minus 127 and every other component to its proportional value truncated to an integer, never overflows, keeps signs, and maps the zero vector to zero.",
 ["inputs"],"every finite input vector of every dimension whose squared norm neither overflows nor underflows, and zero vectors",
 "No test checks component values of either conversion; zero vectors, single components and extreme ratios are not covered.",
 ["src/math.rs","src/elements/angular.rs","src/elements/angular_int.rs"],
 [("normalization","src/math.rs normalize_f32"),("quantization","src/elements/angular_int.rs quantize")],
 observe=["angular::Vector::from","angular_int::Vector::from"])
p("P12","Zero and duplicate elements never break an index",
 "Any collection, including one made of zero vectors, identical vectors or any mix with ordinary ones, builds, searches, saves and loads without failure; zero elements and excess duplicates may be left out of the graph but still count as indexed. Ordinary elements stay findable: an element with a distinct direction is still found by its own query despite many zero or duplicate elements.",
 ["inputs","configurations"],"collections with any number and position (including the first element) of zero vectors and duplicate groups of any size, all element types and configurations",
 "One test builds an index with zero vectors and one with duplicates at fixed positions; mixed placements, all-duplicate data and the other element types are untested.",
 ["src/index/mod.rs","src/elements/angular_int.rs","src/elements/embeddings/mod.rs"],
 [("zero elements skipped","src/index/mod.rs index_element"),("dead nodes for excess duplicates","src/index/mod.rs index_element")],
 observe=["Builder::build","Granne::search"])
p("P13","Sum embeddings behave as lists of ids summed over a table",
 "A sum-embeddings collection behaves as a growing list of id lists over a growing table of embeddings: terms, counts, raw embeddings (the component-wise sum of the listed embeddings, zero for an empty list) and normalized elements always agree with that model. This holds after any sequence of pushing elements or embeddings, cloning, borrowing, saving, loading (from bytes or mapped files) and permuting, with ids up to 2^24-1.",
 ["histories","inputs"],"every sequence of those operations, ids of every byte length, empty lists, collections larger than internal chunk sizes",
 "Tests permute one random collection; embeddings sums, mixed histories on loaded or mapped collections and id widths are not modelled.",
 ["src/elements/embeddings/mod.rs","src/slice_vector/mod.rs","src/odd_byte_int.rs","src/math.rs"],
 [("variable-width storage of 3-byte ids with 5-byte offsets","src/slice_vector/mod.rs"),("vectorized summation","src/math.rs sum_into_f32"),("chunked permutation","src/elements/embeddings/mod.rs permute")],
 observe=["SumEmbeddings::get_terms","SumEmbeddings::get_embedding","SumEmbeddings::create_embedding","SumEmbeddings::get"])
p("P14","Parsing text elements yields one id list per line",
 "Parsing element files (one JSON string per line, plain or gzip, one file or a directory in file-name order) produces exactly one element per line whose ids are those of its known words, in order, taken from the text after the last colon; unknown words are dropped and blank texts become empty elements. Saving to disk, saving in shards (every shard file present, contents concatenating to the whole) and precomputing quantized embeddings store exactly that.",
 ["inputs","configurations"],"every words file, every set of element files with any number of lines (including none), every shard count, any number of gzip members per file",
 "Only shard file naming is tested; parsing, sharding and precomputed embeddings have no tests.",
 ["src/elements/embeddings/parsing.rs","src/slice_vector/mod.rs"],
 [("line parsing","src/elements/embeddings/parsing.rs parse_file, parse_words"),("shard ranges","src/elements/embeddings/parsing.rs parse_elements_and_save_shards_to_disk; src/slice_vector/mod.rs write_range"),("chunked precomputation","src/elements/embeddings/parsing.rs compute_embeddings_and_save_to_disk")],
 observe=["embeddings::parsing functions and the files they write"])
p("P15","The concurrent builder behaves as an append-only searchable list",
 "Used sequentially, the concurrent read-write builder assigns consecutive ids in insertion order, reports exactly the ids of the elements it accepted, stores exactly those elements, stops accepting at its capacity, and its length is the number of accepted elements. Searches return valid results (P01) at every moment including when only a few elements exist, find inserted ordinary elements by their own vector, and saving at any moment writes an index and elements files that load to exactly the inserted elements with well-formed layers that can be extended further.",
 ["histories","configurations","inputs"],"every sequence of insert, batch insert of any size, search, read and save operations, any capacity, multiplier, neighbor limit, thread count and any initial content",
 "Tests insert into one or two configurations; small capacities, layer switches within a batch, saving and reloading (test commented out) and search with a single layer are not covered.",
 ["src/index/rw/mod.rs","src/index/rw/rw_lock_slice_vector.rs"],
 [("layer switch and batch split","src/index/rw/mod.rs insert_batch"),("search through finished layers and the current one","src/index/rw/mod.rs search"),("save of the filled part of the current layer","src/index/rw/mod.rs write")],
 observe=["RwGranneBuilder::insert","insert_batch","search","write","len","get_element"])
p("P16","Concurrent inserts, searches and saves are linearizable and live",
 "With any number of threads inserting, batch inserting, searching, reading and saving at once, ids are handed out once each, are contiguous per batch segment and in range, every element is stored under the id reported for it, and the capacity is never exceeded. Every save is a consistent snapshot: elements file and index agree in length and its elements are a prefix of the final content; searches return only elements already inserted with exact distances; and no combination of operations blocks forever.",
 ["schedules","histories"],"every interleaving of concurrent inserts, batches, searches, reads and saves",
 "One test runs inserts next to searches without checking results; saves, capacity races, batch recursion under a waiting save and the final state are never checked under concurrency.",
 ["src/index/rw/mod.rs","src/index/mod.rs"],
 [("lock order: save lock, elements, layers","src/index/rw/mod.rs insert_batch, write, search"),("lock downgrade before graph insertion","src/index/rw/mod.rs insert_batch")],
 observe=["RwGranneBuilder API return values and final contents"])
p("P17","Parallel builds are as well formed and connected as sequential ones",
 "Building with any number of threads gives an index with the same layer sizes and the same well-formedness guarantees (P04) as a single-threaded build, never fails, and loses no links: when every element has room for all others, every pair is linked in both directions. Building with one thread is deterministic: same elements and configuration give the same index.",
 ["schedules","inputs","configurations"],"every thread count and every interleaving of element insertions during the build",
 "The test suite pins one worker thread because the original code has a race in the parallel builder; no test checks the graph after a parallel build.",
 ["src/index/mod.rs"],
 [("per-node locks; link insertion under the node's write lock","src/index/mod.rs index_element, initialize_node, connect_nodes")],
 observe=["Builder::build","Index::get_neighbors"])
p("P18","Failed writes are reported, never swallowed",
 "When the destination fails at any point - an error, a short or zero-length write, an error on seek or on flush - writing an index or elements returns an error, and when it returns success all bytes have reached the destination. Interrupted or partial writes that the destination recovers from still produce exactly the same bytes as an undisturbed write.",
 ["fault_sequences","inputs"],"every write, seek and flush call at which the destination can fail, every pattern of partial writes, every index and element type, builder, searchable index and concurrent builder",
 "No test uses a failing destination.",
 ["src/index/io.rs","src/slice_vector/set_vector.rs","src/slice_vector/mod.rs","src/index/rw/mod.rs","src/io.rs"],
 [("buffered writer around the destination","src/index/io.rs write_index; src/index/rw/mod.rs write"),("error propagation","src/slice_vector/*.rs")],
 observe=["Index::write_index result vs bytes at the destination","Writeable::write"])
p("P19","Damaged index and element files are rejected or harmless",
 "Loading an index or elements from truncated, corrupted or arbitrary bytes, and using what was loaded, either works or fails with a panic or an error; it never reads outside the provided bytes or crashes the process in an uncontrolled way. An index with a damaged header (missing magic, unreadable metadata, layer sizes beyond the end of the data) is refused, and a truncated index is never silently accepted with fewer layers than its header states.",
 ["inputs","fault_sequences"],"every truncation length, byte corruption and arbitrary byte string offered as an index, at every buffer alignment",
 "No test loads damaged data.",
 ["src/index/io.rs","src/slice_vector/mod.rs","src/slice_vector/offsets.rs","src/slice_vector/set_vector.rs","src/io.rs"],
 [("metadata check","src/index/io.rs read_layer_sizes"),("bounds-checked slicing","src/index/io.rs load_layers; src/slice_vector/offsets.rs load_mmap")],
 observe=["Granne::from_bytes","GranneBuilder::from_bytes","Granne::search on the result"])
p("P20","The Python bindings agree with the library",
 "Everything done through the Python module - building from pushed or file elements, partial builds, saving, loading, searching, reading elements and neighbors, reordering, embeddings with words, distances and the precomputation helpers - gives the results the documented library semantics prescribe: same elements back, brute-force-consistent distances and ids, the same index files as the library writes. Words map to and from ids consistently, strings are always taken as words, appending a word twice or an embedding of another dimension is refused without changing anything, and saving over a file that is in use is safe.",
 ["inputs","histories","configurations"],"every sequence of binding calls with valid arguments (positional or keyword) for all three element types",
 "The bindings have no tests at all.",
 ["py/src/lib.rs","py/src/embeddings.rs","py/src/variants/mod.rs","py/src/variants/builder.rs","py/src/variants/index.rs"],
 [("dispatch by element type","py/src/lib.rs"),("word dictionary","py/src/variants/mod.rs WordDict")],
 observe=["Python API results and files"])
p("P21","Vector collections behave as lists whatever their storage",
 "A vector collection behaves as a list of equal-length vectors under any sequence of push, extend, clone, borrow, conversion to owned, indexed reads, permutation and save/load, whether its data is owned, borrowed from a slice or memory-mapped. Changing a collection that started as borrowed or mapped data never changes the original data or file, vectors of another dimension are refused without effect, and the permutation moves the vector at position p[i] to position i.",
 ["histories","inputs"],"every sequence of those operations starting from every kind of storage, all dimensions, float and quantized",
 "Unit tests cover single operations on the internal storage with fixed sizes; sequences over mixed storage kinds and non-interference with the source are not covered.",
 ["src/elements/dense_vector.rs","src/slice_vector/mod.rs"],
 [("copy on write of mapped or borrowed data","src/slice_vector/mod.rs load_mut"),("cycle-following permutation","src/slice_vector/mod.rs FixedWidthSliceVector::permute")],
 observe=["angular::Vectors","angular_int::Vectors"])
p("P22","Searching never changes an index and is safe from many threads",
 "Searches and reads on a shared index from any number of threads return exactly what the same calls return sequentially, for built, loaded and memory-mapped indexes. Repeating a search gives the same answer and leaves the index and elements unchanged, and a borrowed view, an owned copy and a reloaded index answer every search identically to the original.",
 ["schedules","inputs"],"every set of concurrent readers, every storage kind",
 "Tests search sequentially from one thread on one storage kind at a time.",
 ["src/index/mod.rs"],
 [("search keeps its state on the stack","src/index/mod.rs search_for_neighbors"),("layers borrowed or re-parsed from the mapped file","src/index/mod.rs FileOrMemoryLayers::load, to_owned")],
 observe=["Granne::search","Granne::to_owned","Granne::from_file"])
p("P23","Reordering brings similar elements together",
 "Reordering an index places similar elements at close ids: within each layer, elements that are closest to the same element of the layer above end up next to each other, so that neighboring ids are about as close as with an exact grouping of that kind and much closer than in random order, for every index with at least two layers, every element type and again after a second reordering. The keys computed for sums of embeddings are determined by the embeddings of an element (not by their order) and are led by the embedding with the largest norm: elements sharing it are contiguous in each layer after reordering by these keys, elements with different ones never get equal keys.",
 ["inputs","configurations"],"every multi-layer index over structured data; every collection of sums of embeddings with distinct norms",
 "Unit tests only check that searches give the same results after reordering; an order that brings nothing together passes them.",
 ["src/index/reorder.rs","src/elements/embeddings/reorder.rs"],
 [("trail of closest elements per layer as sort key","src/index/reorder.rs compute_order, find_entrypoint_trail"),("keys by norm","src/elements/embeddings/reorder.rs compute_keys_for_reordering")],
 observe=["Granne::reorder","compute_keys_for_reordering","Granne::reorder_by_keys","distances of elements with neighboring ids"])
p("P24","Safe use causes no memory errors and no data races",
 "No sequence of calls of the safe interface (and of loading files that nobody changes) reads or writes outside the memory of the objects involved, uses memory after it was freed, or accesses the same memory from two threads without synchronization while at least one of them writes: not while a concurrent builder is extended, searched and saved at the same time, not while indexes are built or reordered in thread pools or searched by many threads, and not for any storage of elements and indexes (owned, borrowed from bytes at any alignment, mapped).",
 ["histories","schedules","inputs"],"every sequence of safe calls from any number of threads",
 "Unit tests run without memory or race detection and mostly from one thread; an access beyond a buffer or an unsynchronized one usually changes nothing they look at.",
 ["src/slice_vector/mod.rs","src/slice_vector/offsets.rs","src/io.rs","src/index/rw/mod.rs","src/index/rw/rw_lock_slice_vector.rs","src/math.rs"],
 [("reinterpreted bytes","src/io.rs load_bytes_as"),("mutable slices behind locks, read without them while saving","src/index/rw/rw_lock_slice_vector.rs; src/index/rw/mod.rs write"),("locks per neighbor list","src/index/mod.rs index_elements")],
 observe=["how the process ends under the address and thread sanitizers"])
p("P25","Files in the released format stay readable and writable",
 "Index files as the released 0.5 versions write them (1024 bytes of header starting with 'granne' and JSON metadata with its entries in any order, then per layer the chunked offsets and the neighbor lists, plain or compressed) load to exactly the stored layers, and so do files of float vectors, quantized vectors, id lists and embeddings. What is written now - by indexes, builders and the concurrent builder, after loading, extending or converting - is readable by the rules of that format and says the same, with metadata (elements, layers, sizes, neighbors of the first element) that agrees with the contents.",
 ["inputs","configurations"],"every layered graph and every element collection that the format can hold, any alignment, mapped or in memory",
 "The tests only read what the same code wrote; a change of the format on both sides passes them and makes every existing file unreadable.",
 ["src/index/io.rs","src/slice_vector/offsets.rs","src/slice_vector/set_vector.rs","src/slice_vector/mod.rs","src/odd_byte_int.rs"],
 [("metadata","src/index/io.rs write_index, read_layer_sizes"),("offsets in chunks of 60 deltas","src/slice_vector/offsets.rs"),("delta encoded sets","src/slice_vector/set_vector.rs set_encode, set_decode_into"),("three and five byte integers","src/odd_byte_int.rs")],
 observe=["Granne::from_bytes, from_file","write_index","Writeable::write","SumEmbeddings::from_files, write_embeddings"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
