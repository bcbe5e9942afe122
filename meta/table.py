INTERN = ["pkg/storage/table8.go", "pkg/storage/table16.go", "pkg/storage/collection8.go", "pkg/storage/collection16.go",
          "internal/index/tagset_table.go", "internal/index/tagset_index.go", "internal/index/variant_table.go",
          "internal/index/variant_idx.go", "pkg/dag/idx.go"]

prop("C01", "Composite identifiers pack and unpack without loss",
     "Every composite identifier splits into exactly the two parts it was made of, and packing the two parts of any identifier gives that identifier back. Converting an identifier to another integer width never changes its number.",
     ["inputs"], "for every pair of parts and every identifier value",
     "The tests pack a handful of constants; the claim is over all 2^16 and 2^32 values of the four composite identifier types.",
     ["pkg/storage/id16.go", "pkg/storage/id32.go", "internal/index/tagset_id.go", "internal/index/variant_id.go"],
     [("Combine8/Combine16, Upper/Lower", "pkg/storage"), ("TagSetTableNumber.TagSetID, CollectionTableNumber.VariantID", "internal/index")],
     "bit-field normal forms of shift/mask/or terms compared for pack-of-unpack and unpack-of-pack of every composite identifier")

prop("C02", "An item just indexed can be fetched by the identifier it was given",
     "Whenever an item (byte set, 16-bit set, tag set, variants list or tag) is accepted by any of the interning containers, looking up the returned identifier immediately afterwards finds it and yields exactly that item (sets in sorted order). An item is refused only when it is empty, longer than the container can hold, or no identifiers are left; the empty set is refused by all tables and collections of pkg/storage and by tag set tables, and elsewhere it is identifier 0 and changes nothing.",
     ["inputs", "histories"], "for every state of every interning container and every item, sorted or not",
     "The tests index a few short sets into small containers; the claim covers every container content, boundary sizes (last identifier, full inner tables) and item length.",
     INTERN, [("Index, Get", "methods of the nine interning containers")],
     "relational summaries: Index(item) followed by Get(id) on an arbitrary container state, one obligation per abstract path")

prop("C03", "Equal items share one identifier and different items never do",
     "Looking up a known item reports an identifier that resolves to exactly that item; indexing a known item returns its existing identifier and changes nothing; an item indexed before is always found again. An item not known before gets an identifier that resolved to nothing before.",
     ["inputs", "histories"], "for every state of every interning container, every item and every identifier issued earlier",
     "The tests check duplicates of a few fixed sets; the claim is over every pair of items, every container content and every order of insertion.",
     INTERN, [("Find, Index, Get", "methods of the nine interning containers")],
     "relational summaries of Find-then-Get, Find-then-Index, Get-then-Index, Index-then-Find and Get-with-failing-Find on an arbitrary container state, with the row of every item decided by its length")

prop("C04", "Identifiers already issued keep resolving to the same item",
     "Indexing any item never changes what any identifier issued earlier by the same container resolves to, and never makes it unresolvable; nor does it make any other identifier resolvable than the one it returns.",
     ["histories", "inputs"], "for every container state, every identifier known in it and every item indexed afterwards",
     "The tests never re-read earlier identifiers, or try identifiers never issued, after growth of tables; the claim is over all histories of insertions, including table growth and reallocation.",
     INTERN, [("Index, Get", "methods of the nine interning containers")],
     "relational summary Get(other)-Index(item)-Get(other) on an arbitrary container state with frame conditions on memory")

prop("C05", "Containers never grow beyond what their identifiers can address",
     "Indexing never makes a container, or a table inside one, hold more items than its identifier type has values, and so never issues a wrapped identifier.",
     ["histories", "inputs"], "for every container state within capacity and every item indexed",
     "Overflow needs hundreds to tens of thousands of insertions into one table; the tests insert a handful.",
     INTERN, [("overflow guards in Index", "methods of the nine interning containers")],
     "length bounds of the container and of every inner table proved on every abstract path of Index, from the assumption that they held before",
     "Assumes the container was within capacity before (inductive invariant); containers built by other means than Index are not covered.")

prop("C06", "Lookups are total and read-only",
     "Looking up an item or an identifier in any interning container, comparing sets and enumerating identifiers terminates without panicking for every argument, known or not, and leaves the container unchanged.",
     ["inputs", "histories"], "for every container state and every argument, including identifiers never issued and sets longer than anything indexed",
     "The tests look up a few present and absent items; out-of-range identifiers and oversized sets in every container state are not sampled.",
     INTERN + ["internal/index/variant_def.go"],
     [("Find, Get, Has, EqualTo, Len, TableIDs, KnownID, Tables, Following", "lookup methods of the containers")],
     "every index, slice, nil and division check on every abstract path discharged by bounds facts; effect analysis of every store")

CODEC = ["pkg/storage/set8.go", "pkg/storage/set16.go", "pkg/dag/name.go", "pkg/dag/tag.go", "pkg/dag/idx.go",
         "internal/index/tagset_def.go", "internal/index/tagset_table.go", "internal/index/tagset_index.go",
         "internal/index/variant_def.go", "internal/index/variant_table.go", "internal/index/variant_idx.go",
         "internal/index/item_def.go", "internal/index/items.go", "internal/index/idx.go"]

prop("C07", "Sets, tag names, tags and the tags index survive a write and a read",
     "Reading back the bytes just written for a set of 8- or 16-bit identifiers, a tag name, a tag or a tags index succeeds and gives exactly the object written, whatever the target held before. A nameless or blank tag name is read back as the empty-name marker.",
     ["inputs"], "for every object the writer accepts, of any length, and every previous content of the target",
     "The tests write and read a few short sets and tags; the claim covers every length up to the format limit (where a length byte could be truncated) and every content.",
     CODEC[:5], [("WriteTo/ReadFrom, BinaryWriteTo/BinaryReadFrom, MarshalBinary/UnmarshalBinary", "pkg/storage, pkg/dag")],
     "operation traces of writer and reader aligned and the values read equated with the values written, loops summarised; equality of the objects proved on every pair of abstract paths")

prop("C08", "A stored dictionary index is read back as it was written",
     "Reading back the bytes just written for a dictionary index, or for any of its parts (tag sets, tag set tables, variants, nodes), succeeds and gives exactly the data written, whatever the target held before. After the dictionary index is loaded, the words it finds are exactly those of the nodes read (each found as the continuation of its parent by its letter), and the number of words it reports is the number of nodes having variants.",
     ["inputs", "histories"], "for every index content its writer accepts and every previous content of the target",
     "No test saves a non-trivial index; the claim covers all contents, table sizes and node counts.",
     CODEC[5:], [("BinaryWriteTo, BinaryReadFrom, WriteTo, ReadFrom", "internal/index")],
     "operation traces of writer and reader aligned, nested objects by induction over the type structure (each nested writer/reader pair is an obligation of its own); equality proved on every pair of abstract paths; the loops making anew what is not stored are judged by their invariant: nothing known at first, every node linked and counted once, no other word touched")

prop("C09", "A failed stream operation is always reported",
     "Whenever an operation on the underlying stream fails while an object is being written or read, the writer or reader returns an error; success is never reported for a partly written or partly read object.",
     ["inputs", "schedules"], "for every failing operation at every position of the stream, including inside loops",
     "The tests use in-memory streams that never fail; the claim is over a failure of every single operation.",
     CODEC, [("error returns of all readers and writers", "pkg/storage, pkg/dag, internal/index")],
     "every abstract path that may return a nil error has every stream operation on it, including those of all loop iterations, proved successful")

prop("C10", "Byte counts returned by readers and writers are exact",
     "The byte count returned by WriteTo and ReadFrom of the sets is the number of bytes of the values completely written or read, also when the operation stops with an error.",
     ["inputs"], "for every set length and every position of a failure",
     "The tests check the count for a few complete short sets only.",
     [CODEC[0], CODEC[1], CODEC[5]], [("WriteTo, ReadFrom", "Set8, Set16, TagSet")],
     "linear count of operation widths along every abstract path, iterations counted symbolically, proved equal to the returned value")

prop("C11", "Writers refuse only what the format cannot hold",
     "With a working stream, writing an object succeeds unless its length exceeds what the length field of the format can express (or, for a tag name, it is neither empty nor exactly four bytes long).",
     ["inputs"], "for every object",
     "The tests write short objects; the boundary lengths and every content are covered by the claim.",
     CODEC, [("length guards of the writers", "pkg/storage, pkg/dag, internal/index")],
     "every error path without a failed stream operation proved to require a length beyond the format limit")

prop("C12", "Decoding arbitrary bytes never panics",
     "Reading any of the stored object types from a stream with arbitrary contents, including truncated, corrupted or hostile data, returns an object or an error and never panics.",
     ["inputs"], "for every byte stream and every previous content of the target",
     "The tests decode a handful of well-formed buffers.",
     CODEC, [("BinaryReadFrom, ReadFrom, UnmarshalBinary", "pkg/storage, pkg/dag, internal/index")],
     "every index, slice, nil-pointer, nil-map and division check on every abstract path of the readers discharged by bounds facts, values read from the stream being arbitrary",
     "Exhaustion of memory by a huge declared length is not covered.")

SETS = ["pkg/storage/set8.go", "pkg/storage/set16.go", "internal/index/tagset_def.go", "internal/index/variant_def.go", "internal/index/tagset_table.go", "internal/index/variant_table.go"]
prop("C13", "Sets compare, sort and look up by their contents",
     "Two sets are equal exactly when they hold the same identifiers in the same order; sorting puts the identifiers of a set in ascending order without adding or losing one; a set has an identifier exactly when it is among its contents; adding an identifier to a collection of tag set identifiers gives the sorted collection of the old members and the new one, or the old collection when it is a member already, and leaves the old collection as it was.",
     ["inputs"], "for all sets of any length and contents, and every identifier",
     "The tests compare and sort a few sets of two to five identifiers; sets of different length sharing a prefix, empty sets and every position of a difference are not sampled.",
     SETS, [("EqualTo, Len, Less, Swap, Sort, Has, Add", "Set8, Set16, TagSet, TagSetIDCollection, CollectionIDList")],
     "path-sensitive loop summaries with quantified facts: equality, membership and order decided for a symbolic position of a set of symbolic length; sorting by the decided comparison and exchange functions")

prop("C14", "The tags index is an ordered list of names as given",
     "A tag keeps the name and the parent it was created with, a missing parent being the empty-name marker. A tags index built from a list keeps every tag at its place; a name is found exactly when some tag has it, at the first such place; a new name gets the number of tags as identifier, the index grows by that one tag, and a known name leaves it unchanged; an identifier below the length gives the tag at its place and any other gives none. A tag name prints as itself and a tag prints as its name.",
     ["inputs", "histories"], "for every content and length of the index, every name, parent and identifier",
     "The tests build one index of a few tags; absent names, repeated names, the last identifier and every length are not sampled.",
     ["pkg/dag/tag.go", "pkg/dag/idx.go", "pkg/dag/name.go"], [("NewTag, NewIndex, Idx.Find, Idx.Index, Idx.Get, Idx.Len", "pkg/dag")],
     "path-sensitive loop summaries with quantified facts; each result compared with the element at a symbolic place")

prop("C15", "Writing leaves the object alone and reading touches only its target",
     "Writing an object changes neither the object nor anything else in memory, and the bytes returned by a marshaller are not shared with anything. Reading an object changes only the target; the target's lists and maps are its own afterwards, not shared with the input buffer, with package data or with what the target held before. Apart from initialisation, no function changes package-level state.",
     ["inputs", "histories"], "for every object, every stream and every path of every reader and writer; every store in every function",
     "Sharing shows only when one of two objects is changed later, in code which the tests, using each object once, do not have.",
     CODEC, [("readers and writers of all stored types", "pkg/storage, pkg/dag, internal/index"), ("package-level variables", "pkg/storage, pkg/dag, internal/index")],
     "effect and ownership analysis: every write on every abstract path traced to its root object; provenance of returned and stored slices and maps; flow of package variables to stores over the whole SSA")

prop("C16", "Every loop ends",
     "Every loop in the sets, tables, collections, tags, codecs and the dictionary index ends for every input: with each repetition a bounded quantity goes down. Nothing calls itself without end; only the spelling of a word follows the links to the root.",
     ["inputs", "histories"], "for every argument, container content, stream and every loop of the code",
     "A test that does not end shows only the inputs tried; loops growing tables by several rows or stopping at the last value of a counter are not among them.",
     sorted(set(INTERN + CODEC + ["internal/index/node.go", "internal/index/relation.go", "pkg/dag/map.go", "pkg/dag/tagset.go"])), [("every loop", "pkg/common, pkg/storage, pkg/dag, internal/index")],
     "linear ranking functions over the loop summaries: for each loop a measure, not negative on every abstract path that repeats the loop, and smaller after it; cycles of the static call graph",
     "Blocking on locks or channels is not covered. Spelling a word ends because parents precede their children, which is not decided here for index files made by other programs.")

prop("C17", "Errors tell their kind",
     "An error returned by a reader or writer of Set8 and Set16 either wraps the error the stream gave, so that callers tell the end of the data from damage with errors.Is, or wraps ErrSet8 and ErrSet16; errors of the tag name and tag codecs wrap the package error of dag, and those of the tags index wrap ErrMarshal when writing and ErrUnmarshal when reading; those of tag sets, variants and the whole dictionary index wrap the package error of index. These errors are made once, each is an error of its own, and ErrSet8 and ErrSet16 wrap the package error of storage.",
     ["inputs", "fault_sequences"], "for every object, and a failure of the stream at every byte",
     "The tests look only at whether an error is returned, in a few truncated inputs.",
     CODEC, [("ReadFrom, WriteTo of sets; binary codecs of tags and of the dictionary index", "pkg/storage, pkg/dag, internal/index")],
     "path-sensitive provenance of returned errors: the %w operands of every error that may be returned, traced to package error variables and to failed stream operations on the same path")

prop("C18", "Paths of data files",
     "The data folder of a domain is the folder of that name in the data path, a domain file is the file of that name in it, and making the folder of a domain makes exactly that folder with its parents, usable by its owner, and reports any failure. Resolving a path returns the folder, the name without extension and the extension of its absolute form, and succeeds exactly when a file of that name exists there; a failure wraps ErrIndex. The loader keeps its files in the folder it is given, or in that of its own domain when given none, and tells a downloaded or unpacked file to be there exactly when it is.",
     ["inputs"], "for every domain, file name and path, with every outcome of the file system",
     "No test calls these functions; paths with several dots, none, or a missing file are not sampled.",
     ["pkg/common/utils.go", "pkg/dag/utils.go", "pkg/opencorpora/loader.go"], [("DomainDataPath, DomainFilePath, MakeDomainDataPath", "pkg/common"), ("ResolveFilePath", "pkg/dag"), ("NewLoader; Loader.SetDataPath, DataPath, IsDownloadExists, IsUnpackedExists", "pkg/opencorpora")],
     "path-sensitive value numbering over SSA; results compared as normal forms over the path functions of the library")
prop("C19", "Words of the dictionary",
     "A word added to the dictionary index is found afterwards, as the node adding it returned, which spells the word (the root spells the empty one); adding it again makes nothing new. Every letter not there before makes one node; no other word becomes known, unknown or another node, and the number of words having tag sets stays. A word is its letters one after another, given as text or as letters, from the root or from a node; the empty word and words below an unknown node are refused. The children of a node are listed under their letters, all of them and no others; an identifier gives its node if such a node was made and is refused otherwise. Looking words up changes nothing and never panics.",
     ["inputs", "histories"], "for every well-formed dictionary, node and letters; words of up to two letters step by step, longer ones as repeated steps",
     "Tests add a handful of words to an empty index; other states of the children maps, growth of the node list and interference between words are not sampled.",
     ["internal/index/idx.go", "internal/index/items.go", "internal/index/node.go"], [("Index.AddString, AddRunes, AddToNode, FetchString, FetchRunes, FetchFromItem, Get, Children, GetChildrenMap, WordsCount, NodesCount; Node.Word", "internal/index")],
     "path-sensitive abstract interpretation over SSA with value numbering, symbolic maps and case distinction on keys")

prop("C20", "Tag sets of words",
     "Giving a word a list of known tags adds exactly the set of these tags to the variants of that word and changes no other word; the number of words grows by one when the word had none before. An empty list, an unknown tag, the root or an unknown node are refused without changing anything. What a word or an identifier is told to have afterwards is what was stored, and asking for it never panics.",
     ["inputs", "histories"], "for every node, known or not, every list of tags and all variants stored before",
     "The tests never add tag sets to words; refused lists, second variants of one word and unknown nodes are not sampled.",
     ["internal/index/node.go", "internal/index/idx.go", "internal/index/variant_def.go"], [("Node.AddTagSet, TagSets, Item, String; Index.TagSet, Variants, TagID, WordsCount", "internal/index")],
     "path-sensitive abstract interpretation over SSA with value numbering; the interning containers stand as functions, as C02 to C06 establish them; element-wise comparison at symbolic positions",
     "TagSets is decided for up to two variants of a word with any number of tags.")

prop("C21", "Dictionary files are complete or absent",
     "A file downloaded, unpacked or compiled appears under its name only when every byte of it was written and closed without an error; when anything fails on the way, also a panic of the compiler, the file there before stays and an error is returned; an operation which returns leaves no unfinished file and nothing open behind. Error pages are never stored as the dictionary. The update check asks for an update exactly when no usable data is there or the source is newer, a download is made exactly when the check asks for one, loading an index takes the whole file, an update reports success only when download, unpacking and compiling all succeeded, and the update command exits with a failure status otherwise. No operation fails unless something it needs failed or was refused by the server; an update that is forced compiles what is there even when the check fails or asks for nothing. The update command hands on whether recompiling is forced and does nothing but tell its usage when asked for it.",
     ["fault_sequences", "crash_points"], "for every outcome of every file system, network and stream operation on the way",
     "No test runs the loader; it needs a network, and failures at a particular operation cannot be provoked there.",
     ["pkg/opencorpora/loader.go", "cmd/opencorpora_update/main.go"],
     [("Loader.DownloadUpdate, UnpackUpdate, ParseUpdate, SaveIndex, LoadIndex, IsUpdateRequired, Update", "pkg/opencorpora"), ("main", "cmd/opencorpora_update")],
     "path-sensitive typestate of files and streams (created, written, closed, renamed) over SSA with every library call splitting into success and failure",
     "Durability across power loss (fsync) is not claimed; operations of the library succeed or fail as a whole as documented.")

prop("C22", "The source is compiled in full",
     "Reading the source file hands every grammeme to the index with its own name and parent, and every form of every lemma with the tags of its lemma followed by the form's own, in the order of the file, whatever was read before. Every element of the format is accepted where it belongs; an element not of the format, or one without a required attribute, makes reading fail, as do a lemma number, version or revision which is not a number and any refusal by the index; comments and instructions change nothing. With a limit of lemmas set, reading stops after exactly that many, all their forms in the index.",
     ["inputs", "histories"], "for every text, name and tag, and every answer of the index; lemmas of up to three tags and two forms, two lemmas one after another",
     "The parser cannot be tested where its XML library is missing; interference between forms or lemmas needs particular numbers of tags.",
     ["pkg/opencorpora/parser.go", "pkg/opencorpora/xmlutils.go", "pkg/opencorpora/form_item.go"],
     [("Parser.ProcessStartElement, ProcessCharData, ProcessEndElement", "pkg/opencorpora"), ("Loader.ParseUpdate", "pkg/opencorpora")],
     "abstract interpretation over SSA of token sequences driven through the parser ParseUpdate makes, slices modelled with the sharing of appended arrays",
     "Lemmas have up to three tags and two forms with up to two own tags. The average speed logged now and then is not covered (it divides by elapsed seconds).")

prop("C23", "Data of another kind is refused",
     "Where a writer always puts the same marker, reading accepts nothing else: loading a dictionary index fails unless every section begins with its own marker. A tag name is made only of exactly as many bytes as are always written for one.",
     ["inputs"], "for every stream, whatever its length, and every number of bytes",
     "Tests read only what was just written; data shorter, longer or with another marker in any place is not sampled.",
     ["internal/index/idx.go", "pkg/dag/name.go"], [("Index.BinaryReadFrom", "internal/index"), ("TagName.UnmarshalBinary", "pkg/dag")],
     "path-sensitive abstract interpretation over SSA: constants found at the same place of every successful write demanded on every successful path of the reader",
     "The markers are those found in the writers, not fixed in the check; where a writer puts no marker nothing is demanded.")

prop("C24", "Optimizing keeps the tag sets of every word",
     "Optimizing the index, as done before it is saved, may give variants other identifiers and drop unused ones, but every word keeps exactly the tag sets it has; nothing else of any node changes, and optimizing does not panic.",
     ["inputs", "histories"], "for every dictionary, whatever its nodes, their variants and their order",
     "No test optimizes an index; which variants are unused depends on everything added before.",
     ["internal/index/idx.go"], [("Index.Optimize", "internal/index")],
     "path-sensitive abstract interpretation over SSA with summaries of loops: reads of lists and maps filled in loops are resolved to the iterations filling them, and reached from each node with variants",
     "Taken for granted: what C02 to C04 claim of variants (the set of tag sets of an identifier just given is the one it was given for), that the identifier of a node is its place (C01), and that the root has no variants. Memory and speed of optimizing are not covered.")

prop("C25", "Locks are given back",
     "Whatever an operation of the dictionary index ends with, a result, an error or a panic of its own, it has given back every lock it took, once and in the way it was taken, and it never waits for a lock which it holds: the next operation can go on.",
     ["inputs", "histories"], "for every way out of every operation taking locks, and every iteration of its loops",
     "A lock kept on one way out shows only when the next operation waits for ever; the tests do not reach failing reads and writes.",
     ["internal/index/idx.go", "internal/index/items.go"], [("Index.BinaryReadFrom, BinaryWriteTo, AddToNode", "internal/index"), ("Items.NewChild", "internal/index")],
     "typestate of locks over the events of each abstract path of path-sensitive abstract interpretation over SSA, loops balanced per iteration, deferred calls and helpers included",
     "That the locks protect anything is not claimed (N02). Panics which other checks exclude (C06, C12, C19) are not considered.")

prop("C26", "Listings are complete and exact",
     "Listing the identifiers of an index of tag sets or of variants gives the identifier of every item stored, each once, table by table in order, and no other; those following an identifier in a table are exactly the greater ones in use. The size of an index of tag sets is the number of its sets. A table of variants is found under the number which identifiers of its variants carry, and no other number gives one. The names listed of categories and of the tags of a word form are theirs, in order, and searching lemmas gives exactly those with that base form.",
     ["inputs", "histories"], "for every number of tables and items in them, every list and every word",
     "Tests list a single table with a few items; several tables, empty tables and lists with missing entries are not sampled.",
     ["internal/index/variant_idx.go", "internal/index/tagset_index.go", "internal/index/variant_table.go", "pkg/opencorpora/category_list.go", "pkg/opencorpora/lemma_list.go"],
     [("VariantsIndex.KnownID, Table, Tables", "internal/index"), ("TagSetIndex.TableIDs, Size", "internal/index"), ("VariantsTable.Following", "internal/index"), ("CategoryList.GrammemeNames", "pkg/opencorpora"), ("LemmaList.Search", "pkg/opencorpora")],
     "abstract interpretation over SSA with one symbolic iteration per loop: what every iteration adds to the list is decided for an arbitrary place, nested loops included",
     "What the identifiers resolve to is claimed in C02. Lists kept elsewhere while they are made, or filled at places counted separately, are reported as not decidable.")

na("N01", "Index files made by others are safe to use",
   "An index file which loads without an error can be used without panics, endless walks and excessive memory, whatever program wrote it; a file which does not fit together is refused.",
   ["inputs"], "for every sequence of bytes",
   "Tests load only files just written.",
   ["internal/index/idx.go", "internal/index/items.go", "internal/index/node.go"], [("Index.BinaryReadFrom, Node.Word", "internal/index")],
   "The code does not offer it: parent links and counts of a file are taken as they are, so Node.Word follows links of a file wherever they lead, and whether they lead to the root depends on the values in the file, which no static bound reaches. That reading never panics is claimed in C12, that files of the repository's own writers are read back in C08.")

na("N02", "One index may be used by several goroutines",
   "Words may be added and looked up concurrently on one index with the results of some sequential order.",
   ["schedules"], "for every interleaving",
   "Tests are sequential.",
   ["internal/index/idx.go", "internal/index/items.go"], [("Index.AddToNode, FetchFromItem", "internal/index"), ("Items.NewChild", "internal/index")],
   "The code does not offer it: adding words takes no lock over the children maps (Items.NewChild unlocks before it writes), so a lock-set analysis would only report that; the other checks assume sequential use.")

na("N03", "Lookups are fast and the index is small",
   "Looking up a word takes time proportional to its length, and the index takes memory in proportion to distinct prefixes, tag sets and variants.",
   ["inputs", "histories"], "for every dictionary",
   "Benchmarks sample one dictionary.",
   ["internal/index/idx.go", "internal/index/items.go", "pkg/storage/collection8.go"], [("Index.FetchString", "internal/index")],
   "Time and memory are run-time quantities; growth strategies, map costs and the garbage collector decide them, not a property of the source that a sound static argument can bound. That every loop ends is claimed in C16, that equal sets are stored once in C03.")
