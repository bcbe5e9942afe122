seed("s01-set8-unsorted-dup", "C03",
     "a set of three or more identifiers passed unsorted after the same set was indexed sorted",
     "the same set gets a second identifier when its members arrive in another order",
     [("pkg/storage/table8.go", '''	item.Sort() // sort item before find or adding to index.

	if id, found = table8.Find(item); found {
		return id
	}
''', '''	if id, found = table8.Find(item); found {
		return id
	}

	item.Sort() // keep items sorted in index.
''')],
     "pkg/storage", '''
func TestSeededDemo(t *testing.T) {
	var c Table8
	a := c.Index(Set8{1, 2, 3})
	b := c.Index(Set8{3, 1, 2})
	if a != b {
		t.Fatalf("equal sets got IDs %d and %d", a, b)
	}
}''')

seed("s02-collection-get-boundary", "C06",
     "an identifier naming a table one past the last one",
     "looking up an unknown identifier panics",
     [("pkg/storage/collection16.go", "if int(itemIdx.Upper16()) >= len(collection8x8) {", "if int(itemIdx.Upper16()) > len(collection8x8) {")],
     "pkg/storage", '''
func TestSeededDemo(t *testing.T) {
	var c Collection16
	c.Index(Set16{1})
	if _, found := c.Get(Combine16(1, 0)); found {
		t.Fatal("found")
	}
}''')

seed("s03-collection-grow-replaces", "C04",
     "a set longer than any indexed before, after shorter sets were indexed",
     "growing the collection for a longer set drops a table of shorter ones",
     [("pkg/storage/collection8.go", '''		for i := currentLen; i <= columnIdx; i++ {
			*collection8x8 = append(*collection8x8, make(Table8, 0))
		}
''', '''		grown := make(Collection8x8, columnIdx+1)
		if currentLen > 1 {
			copy(grown, *collection8x8)
		}

		*collection8x8 = grown
''')],
     "pkg/storage", '''
func TestSeededDemo(t *testing.T) {
	var c Collection8x8
	a := c.Index(Set8{7})
	c.Index(Set8{1, 2, 3})
	if s, found := c.Get(a); !found || !s.EqualTo(Set8{7}) {
		t.Fatalf("ID %d now resolves to %v, %v", a, s, found)
	}
}''')
