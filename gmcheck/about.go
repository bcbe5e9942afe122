package main

// What each property's rule is, and what it takes for granted; printed into
// the evidence files.

const (
	asIO    = "the binutils primitives read and write what their names say and fail without a partial effect on the count returned (their source is analysed only for the values they return)"
	asMem   = "distinct parameters do not alias; pointers, slices and maps inside one object do not alias each other unless the code shows it"
	asOne   = "calls on one object do not run concurrently"
	asCap   = "containers met on entry are not larger than their identifiers can address (C05 proves that every store keeps it)"
	asLib   = "sort.Sort, append, copy, strings and path functions of the Go library do what they are documented to do"
	asStack = "the process has enough memory and stack"
)

var about = map[string]struct {
	rule   string
	assume []string
}{
	"C01": {"bit-field normal forms: the upper and lower part of pack(a, b) are a and b, pack of the parts of x is x, and every conversion between identifier types keeps the number", nil},
	"C02": {"after Index(x) on any container state, every abstract path of Get(id) reports found and gives the sorted contents of x; a panic of Index needs an empty or oversized set or a full container on its path", []string{asMem, asCap, asLib, asOne}},
	"C03": {"Find true gives an identifier whose Get yields the same contents; Index of a known item is Find's identifier without a memory effect; Index of a new one is an identifier Get did not know; Find after Index finds the identifier; loops over rows keep as quantified facts what each completed iteration excluded", []string{asMem, asCap, asLib, asOne}},
	"C04": {"for an arbitrary identifier, Get before Index and Get after Index agree on found and contents on every abstract path, but for the identifier returned", []string{asMem, asCap, asLib, asOne}},
	"C05": {"at every append or store to a container the length on that path is below the number of values of its identifier type, and no conversion of a length to an identifier loses bits", []string{asMem, asLib}},
	"C06": {"every panicking operation (index, slice, nil, conversion, division, type assertion, explicit panic) on every abstract path of a lookup is infeasible, and no path has a memory effect on anything the function did not allocate", []string{asMem, asLib, asStack}},
	"C07": {"the reader's k-th stream operation returns what the writer's k-th was given and has the same width; on every abstract path of the pair the object read equals the object written", []string{asIO, asMem, asLib, asOne}},
	"C08": {"as C07, for the parts of the dictionary index and the index itself, nested codecs standing for the objects they were shown to restore; after loading, each iteration of the loop over the nodes read makes node k what FetchFromItem(parent, letter) gives and counts it when it has variants, leaves every other word alone, starts with none and reaches all nodes", []string{asIO, asMem, asLib, asOne}},
	"C09": {"on every abstract path on which a stream operation (or nested codec) returned a non-nil error, the error returned is non-nil", []string{asIO, asMem}},
	"C10": {"on every return of WriteTo and ReadFrom the count equals the sum of widths of the operations which succeeded on that path, loops contributing width times iterations", []string{asIO, asMem}},
	"C11": {"every abstract path on which a writer returns an error although all stream operations succeeded implies that the length exceeds the format's limit (for tag names: that it is neither empty nor four bytes long)", []string{asIO, asMem}},
	"C12": {"every panicking operation on every abstract path of a reader is infeasible, for any values returned by the stream and any previous contents of the target", []string{asIO, asMem, asLib, asStack}},
	"C13": {"EqualTo returns true exactly when lengths and all elements agree; Less, Swap, Len are <, exchange and length, and Sort hands the set to an ascending library sort; Has is true exactly with a witness; Add's result is the sorted extension and shares nothing with the old collection", []string{asMem, asLib}},
	"C14": {"NewTag, NewIndex, Idx.Find, Index, Get and Len compared, on every abstract path, with the element at a symbolic place before and after", []string{asMem, asLib, asOne}},
	"C15": {"every memory effect of a writer or reader is traced to the object allowed to change; slices and maps stored or returned are fresh; no store in the module reaches a package variable outside initialisation", []string{asMem, asLib}},
	"C16": {"every loop has a linear measure bounded below on each abstract path that repeats the loop and smaller after it (library iterators count as bounded); the static call graph has no cycle but the listed ones", []string{"operations of the Go library and of the stream return", asLib}},
	"C17": {"the %w operands of each error that may be returned, with nested wraps unfolded, include the package error or the failed stream operation's error of that path", []string{"package errors are assigned once (checked)"}},
	"C18": {"results as normal forms over path.Join, Split, Ext and slices of strings are the required ones on every abstract path; success and failure agree with the outcome of the file system calls of the path; the loader's folder is the one given or that of its domain, and its tests of existence agree with the file system", []string{asLib}},
	"C19": {"AddToNode, FetchFromItem and their wrappers run one after another on a symbolic well-formed index (children maps distinct, entries below the next node ID); results compared on every abstract path, other words at a symbolic node and letter; the map of children returned is filled in one loop over the children, every iteration setting the node of its letter; lookups have no memory effect", []string{asMem, asLib, "children maps of different nodes are different maps and hold nodes made before", "node IDs stay below 2^31"}},
	"C20": {"AddTagSet run on an arbitrary node and list of names; failures have no memory effect and intern nothing, success implies known names and node, the set interned has the identifiers of the names element by element, the node's new variants are the identifier of Add(old variants, that set), every other item field and node is as before; TagSets, TagSet, Variants and TagID tell what the containers resolve", []string{asMem, asOne, "the interning containers are functions of their arguments (C02 to C06); identifiers stored in a node are known to them"}},
	"C21": {"every create, write, copy, close and rename of a file, every request and every compiling step is an event with an outcome; on each abstract path a name is only given to a file of which all writes and the close succeeded, an error event implies an error result, an error or panic leaves the name alone, the answer of the update check agrees with the dates and files seen, and the request to download is made on exactly the paths on which it asks for one", []string{asLib, "exactly one of value and error of a library call is nil; a rename replaces the name at once", asOne}},
	"C22": {"the parser captured from ParseUpdate is driven with the start, data and end tokens of whole documents; the calls on the index which happened on each successful path are exactly the required ones, with equal names and tag lists; refused documents end in an error on every path", []string{asLib, asMem, asOne, "the XML library hands tokens in document order, data of an element in one piece"}},
	"C23": {"the constants at each place of the output common to all successful paths of a writer are collected; each successful path of the reader has to have compared what it read there with that constant, or the number of bytes with the number always written", []string{asLib, asMem, asOne}},
	"C24": {"on each successful path nothing but variants of nodes is written; each value written is the new identifier of what the identifier the node had stands for, with reads of lists and maps resolved to the iterations that filled them; if the variants are replaced, every node with variants is reached through those containers; paths to panics contradict what maps hold", []string{asLib, asMem, asOne}},
	"C25": {"every operation on a lock is an event; on each abstract path of each exported function from which a lock may be taken, locks are taken only while not held, given back only while held, every iteration of a loop leaves as many as it found, and none is held at a return or a panic", []string{asLib, asMem, "functions which neither take locks nor replace them are passed over"}},
	"C26": {"lists made in loops are decided from one symbolic iteration: it adds the parts of the element at its place and no other, keeps what was listed before, the loop starts with an empty list, never ends before the last element and never goes beyond it; identifiers added are compared through the functions decoding them", []string{asLib, asMem, asOne}},
}
