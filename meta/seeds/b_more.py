seed("s10-id32-uint32-sign", "C01",
     "an identifier with the highest bit set: table 32768 or above",
     "converting an ID32 to uint32 loses the highest bit",
     [("pkg/storage/id32.go", "	return uint32(id32value)\n", "	return uint32(id32value.Upper16()&0x7fff)<<uint16bits | uint32(id32value.Lower16())\n")],
     "pkg/storage", '''
func TestSeededDemo(t *testing.T) {
	if id := Combine16(0x8001, 7); id.Uint32() != 0x80010007 {
		t.Fatalf("%x", id.Uint32())
	}
}''')

seed("s11-table16-id-mask", "C02",
     "more than 256 sets of one length in a Table16",
     "the 257th set of a table gets the identifier of the first one",
     [("pkg/storage/table16.go", "	id = ID16(len(*table16))\n", "	id = ID16(ID8(len(*table16)))\n")],
     "pkg/storage", '''
func TestSeededDemo(t *testing.T) {
	var c Table16
	for i := 0; i < 300; i++ {
		id := c.Index(Set16{ID16(i)})
		if s, ok := c.Get(id); !ok || s[0] != ID16(i) {
			t.Fatalf("item %d is %v", i, s)
		}
	}
}''')

seed("s12-set16-equal-low-byte", "C03",
     "two sets of equal length whose members differ by multiples of 256",
     "different sets are taken for the same one",
     [("pkg/storage/set16.go", "if set16[idx] != another[idx] {", "if set16[idx].Lower() != another[idx].Lower() {")],
     "pkg/storage", '''
func TestSeededDemo(t *testing.T) {
	var c Table16
	a, b := c.Index(Set16{1, 0x102}), c.Index(Set16{1, 0x202})
	if a == b {
		t.Fatal("different sets share an identifier")
	}
}''')

seed("s13-newindex-keeps-callers-slice", "C14",
     "the caller changes its list of known tags after making the index",
     "tags of the index change their names",
     [("pkg/dag/idx.go", """	tagsIndex := make(Idx, len(knownTags))

	for idx, tag := range knownTags {
		if tag.Parent == "" {
			tag.Parent = EmptyTagName
		}

		tagsIndex[idx] = tag
	}

	return tagsIndex
""", """	tagsIndex := Idx(knownTags)

	for idx := range tagsIndex {
		if tagsIndex[idx].Parent == "" {
			tagsIndex[idx].Parent = EmptyTagName
		}
	}

	return tagsIndex
""")],
     "pkg/dag", '''
func TestSeededDemo(t *testing.T) {
	known := []Tag{{Name: "NOUN"}}
	idx := NewIndex(known...)
	known[0].Name = "VERB"
	if _, found := idx.Find("NOUN"); !found {
		t.Fatal("a known tag is gone")
	}
}''')

seed("s14-collection8-grows-ahead", "C05",
     "a set of 129 or more identifiers",
     "the collection grows tables no identifier can address",
     [("pkg/storage/collection8.go", "for i := currentLen; i <= columnIdx; i++ {", "for i := currentLen; i <= 2*columnIdx; i++ {")],
     "pkg/storage", '''
func TestSeededDemo(t *testing.T) {
	var c Collection8x8
	c.Index(make(Set8, 200))
	if len(c) > 256 {
		t.Fatalf("%d tables", len(c))
	}
}''')

seed("s15-table8-get-full", "C02",
     "a table filled up to its last identifier",
     "nothing is found any more in a full table",
     [("pkg/storage/table8.go", "if int(itemIdx) >= len(table8) {", "if size := ID8(len(table8)); itemIdx >= size {")],
     "pkg/storage", '''
func TestSeededDemo(t *testing.T) {
	var c Table8
	for i := 0; i < 256; i++ {
		c.Index(Set8{ID8(i)})
	}
	if _, ok := c.Get(255); !ok {
		t.Fatal("not found")
	}
}''')

seed("s16-set16-read-reuses", "C15",
     "reading into a set whose backing array another set shares",
     "reading a set overwrites a set read before",
     [("pkg/storage/set16.go", "	*set16 = make(Set16, expectedLen)\n", """	if cap(*set16) >= int(expectedLen) {
		*set16 = (*set16)[:expectedLen]
	} else {
		*set16 = make(Set16, expectedLen)
	}
""")],
     "pkg/storage", '''
func TestSeededDemo(t *testing.T) {
	var s Set16
	s.ReadFrom(bytes.NewReader([]byte{0, 2, 0, 1, 0, 2}))
	kept := s
	s.ReadFrom(bytes.NewReader([]byte{0, 2, 0, 7, 0, 8}))
	if !kept.EqualTo(Set16{1, 2}) {
		t.Fatalf("%v", kept)
	}
}''', imports=("bytes",))

seed("s17-tagname-last-space", "C07",
     "a tag name ending with a space",
     "a name padded with a space is read back as the empty name",
     [("pkg/dag/name.go", """		isEmpty = tagNameBytes[idx] == emptyTagNameBytes[idx]
		if !isEmpty {
			break
		}
""", """		isEmpty = tagNameBytes[idx] == emptyTagNameBytes[idx]
""")],
     "pkg/dag", '''
func TestSeededDemo(t *testing.T) {
	b, _ := TagName("Ab1 ").MarshalBinary()
	var n TagName
	if n.UnmarshalBinary(b); n != "Ab1 " {
		t.Fatalf("%q", n)
	}
}''')

seed("s19-set8-count-before-write", "C10",
     "the writer fails in the middle of a set",
     "the number of bytes written is one too many",
     [("pkg/storage/set8.go", """	for idx, item := range set8 {
		if err = writer.WriteUint8(uint8(item)); err != nil {
			return int64(written), fmt.Errorf("%v: writeTo: data[%d]: %w", ErrSet8, idx, err)
		}

		written += binutils.Uint8size
	}
""", """	for idx, item := range set8 {
		written += binutils.Uint8size

		if err = writer.WriteUint8(uint8(item)); err != nil {
			return int64(written), fmt.Errorf("%v: writeTo: data[%d]: %w", ErrSet8, idx, err)
		}
	}
""")],
     "pkg/storage", '''
type failing struct{ left int }

func (f *failing) Write(p []byte) (int, error) {
	if f.left -= len(p); f.left < 0 {
		return 0, errors.New("full")
	}
	return len(p), nil
}

func TestSeededDemo(t *testing.T) {
	if n, err := (Set8{1, 2, 3}).WriteTo(&failing{2}); err == nil || n != 2 {
		t.Fatal(n, err)
	}
}''', imports=("errors",))

seed("s22-set16-less-signed", "C13",
     "identifiers of 32768 and above",
     "a sorted set has the upper half of identifiers first",
     [("pkg/storage/set16.go", "	return set16[i] < set16[j]\n", "	return int16(set16[i]-set16[j]) < 0\n")],
     "pkg/storage", '''
func TestSeededDemo(t *testing.T) {
	s := Set16{0xc000, 0}
	s.Sort()
	for i := 1; i < len(s); i++ {
		if s[i-1] > s[i] {
			t.Fatalf("%x", s)
		}
	}
}''')

seed("s23-tag-find-folds-case", "C14",
     "two tags whose names differ in case only",
     "one tag is taken for the other",
     [("pkg/dag/idx.go", "if string(tag.Name) == string(name) {", "if strings.EqualFold(string(tag.Name), string(name)) {"),
      ("pkg/dag/idx.go", '	"math"\n', '	"math"\n	"strings"\n')],
     "pkg/dag", '''
func TestSeededDemo(t *testing.T) {
	idx := NewIndex()
	if a, b := idx.Index("Sing", ""), idx.Index("SING", ""); a == b {
		t.Fatal("two tags share an identifier")
	}
}''')

seed("s24-set8-write-sorts", "C15",
     "writing a set which is not sorted",
     "writing a set changes the order of its members",
     [("pkg/storage/set8.go", """	writer := binutils.NewBinaryWriter(w)
	if err = writer.WriteUint8(uint8(len(set8))); err != nil {""", """	set8.Sort() // keep the stored form canonical

	writer := binutils.NewBinaryWriter(w)
	if err = writer.WriteUint8(uint8(set8.Len())); err != nil {""")],
     "pkg/storage", '''
func TestSeededDemo(t *testing.T) {
	s := Set8{3, 1, 2}
	s.WriteTo(io.Discard)
	if s[0] != 3 {
		t.Fatalf("%v", s)
	}
}''', imports=("io",))

seed("s25-set16-equal-narrow-counter", "C16",
     "two equal sets of 65536 members",
     "comparing them never ends",
     [("pkg/storage/set16.go", """	for idx := 0; idx < set16.Len(); idx++ {
		if set16[idx] != another[idx] {""", """	for idx := ID16(0); int(idx) < set16.Len(); idx++ {
		if set16[idx] != another[idx] {""")],
     "pkg/storage", '''
func TestSeededDemo(t *testing.T) {
	time.AfterFunc(5*time.Second, func() { panic("FAIL: still comparing") })
	if !make(Set16, 65536).EqualTo(make(Set16, 65536)) {
		t.Fatal("differ")
	}
}''', imports=("time",))

seed("s26-set8-read-error-kind", "C17",
     "the input ends in the middle of a set",
     "the end of input can no longer be told from other failures",
     [("pkg/storage/set8.go", 'fmt.Errorf("%v: readFrom: data[%v]: %w", ErrSet8, i, err)', 'fmt.Errorf("%w: readFrom: data[%v]: %v", ErrSet8, i, err)')],
     "pkg/storage", '''
func TestSeededDemo(t *testing.T) {
	var s Set8
	if _, err := s.ReadFrom(bytes.NewReader([]byte{2, 1})); !errors.Is(err, io.EOF) {
		t.Fatal(err)
	}
}''', imports=("bytes", "errors", "io"))

seed("s27-resolve-trims-letters", "C18",
     "a file name ending in letters of its extension",
     "the name without extension loses letters",
     [("pkg/dag/utils.go", """	fileNameLen := len(filenameWithExt) - len(ext)
	fileName := filenameWithExt[:fileNameLen]
""", """	fileName := strings.TrimRight(filenameWithExt, ext)
"""), ("pkg/dag/utils.go", '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n')],
     "pkg/dag", '''
func TestSeededDemo(t *testing.T) {
	if _, name, _, _ := ResolveFilePath(filepath.Join(t.TempDir(), "data.at")); name != "data" {
		t.Fatal(name)
	}
}''', imports=("path/filepath",))

seed("s28-domain-file-base", "C18",
     "a file in a subfolder of the domain folder",
     "the subfolder is dropped from the path",
     [("pkg/common/utils.go", "	return path.Join(DomainDataPath(domain), fileName)\n", "	return path.Join(DomainDataPath(domain), path.Base(fileName))\n")],
     "pkg/common", '''
func TestSeededDemo(t *testing.T) {
	if p := DomainFilePath("corpus", "parts/a.idx"); p != ".data/corpus/parts/a.idx" {
		t.Fatal(p)
	}
}''')

seed("s29-idx-read-keeps-array", "C15",
     "a copy of a tags index is kept while the index is read again",
     "reading a tags index overwrites the tags of the copy",
     [("pkg/dag/idx.go", "	*tagsIndex = make(Idx, listLen) // allocate space\n", "	*tagsIndex = append((*tagsIndex)[:0], make(Idx, listLen)...) // allocate space\n")],
     "pkg/dag", '''
func TestSeededDemo(t *testing.T) {
	read := func(idx *Idx, s string) {
		if err := idx.BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader([]byte("\\x01----" + s)))); err != nil {
			t.Fatal(err)
		}
	}
	var idx Idx
	read(&idx, "NOUN")
	kept := idx
	read(&idx, "VERB")
	if _, found := kept.Find("NOUN"); !found {
		t.Fatal(kept)
	}
}''', imports=("bytes", "github.com/amarin/binutils"))

seed("s30-tags-read-lazily", "C07",
     "a tags index with a tag without a parent between others",
     "a tag without parent is read with the parent of the tag before it",
     [("pkg/dag/idx.go", """	for idx := 0; idx < int(listLen); idx++ {
		if err = (*tagsIndex)[idx].BinaryReadFrom(reader); err != nil {
			return fmt.Errorf("%w: read %d indexed: %v", common.ErrUnmarshal, idx, err)
		}
	}
""", """	var last Tag

	for idx := 0; idx < int(listLen); idx++ {
		tag := last
		if err = tag.BinaryReadFrom(reader); err != nil {
			return fmt.Errorf("%w: read %d indexed: %v", common.ErrUnmarshal, idx, err)
		}

		if tag.Parent == EmptyTagName && last.Parent != "" {
			tag.Parent = last.Parent
		}

		(*tagsIndex)[idx], last = tag, tag
	}
""")],
     "pkg/dag", '''
func TestSeededDemo(t *testing.T) {
	idx := NewIndex(Tag{"POST", "NOUN"}, Tag{"", "ANim"})
	var buf bytes.Buffer
	idx.BinaryWriteTo(binutils.NewBinaryWriter(&buf))
	var back Idx
	back.BinaryReadFrom(binutils.NewBinaryReader(&buf))
	if back[1] != idx[1] {
		t.Fatal(back[1].Parent)
	}
}''', imports=("bytes", "github.com/amarin/binutils"))


seed("s18-tags-write-shadowed-error", "C09",
     "a tags index with a tag whose name cannot be stored",
     "the index written stops at the tag without an error",
     [("pkg/dag/idx.go", """		if err = tagsIndex[idx].BinaryWriteTo(writer); err != nil {
			return fmt.Errorf("%w: cant write indexed %d", common.ErrMarshal, idx)
		}
	}
	return nil
""", """		if err := tagsIndex[idx].BinaryWriteTo(writer); err != nil {
			err = fmt.Errorf("%w: cant write indexed %d", common.ErrMarshal, idx)

			break
		}
	}

	return err
""")],
     "pkg/dag", '''
type failing struct{ left int }

func (f *failing) Write(p []byte) (int, error) {
	if f.left -= len(p); f.left < 0 {
		return 0, errors.New("full")
	}
	return len(p), nil
}

func TestSeededDemo(t *testing.T) {
	idx := NewIndex(Tag{"", "NOUN"}, Tag{"", "VERB"})
	if err := idx.BinaryWriteTo(binutils.NewBinaryWriter(&failing{9})); err == nil {
		t.Fatal("no error")
	}
}''', imports=("errors", "github.com/amarin/binutils"))

seed("s20-tagname-counts-runes", "C11",
     "a name of two letters outside ASCII",
     "a name of four bytes is refused because it has fewer characters",
     [("pkg/dag/name.go", "	if len(res) != tagNameLen {", "	if len(res) != tagNameLen || utf8.RuneCount(res) != tagNameLen {"),
      ("pkg/dag/name.go", '	"fmt"\n', '	"fmt"\n	"unicode/utf8"\n')],
     "pkg/dag", '''
func TestSeededDemo(t *testing.T) {
	if _, err := TagName("\\u043c\\u0440").MarshalBinary(); err != nil {
		t.Fatal(err)
	}
}''')

seed("s21-tagname-short-spaces", "C12",
     "UnmarshalBinary of one to three spaces",
     "decoding a short name panics",
     [("pkg/dag/name.go", "	if len(tagNameBytes) != tagNameLen {", "	if len(tagNameBytes) != tagNameLen && string(tagNameBytes) != \"  \" {")],
     "pkg/dag", '''
func TestSeededDemo(t *testing.T) {
	defer func() {
		if p := recover(); p != nil {
			t.Fatal(p)
		}
	}()
	var n TagName
	n.UnmarshalBinary([]byte("  "))
}''')

seed("s31-table16-find-recent", "C03",
     "a table of more than 1024 sets and a set indexed early",
     "a known set is not found and indexed a second time",
     [("pkg/storage/table16.go", """	for id, existedSet := range table16 {
		if existedSet.EqualTo(item) {
			return ID16(id), true
		}
	}
""", """	oldest := len(table16) - 1024 // look through recent sets, they repeat most often
	if oldest < 0 {
		oldest = 0
	}

	for id := len(table16) - 1; id >= oldest; id-- {
		if table16[id].EqualTo(item) {
			return ID16(id), true
		}
	}
""")],
     "pkg/storage", '''
func TestSeededDemo(t *testing.T) {
	var c Table16
	for i := 0; i < 1025; i++ {
		c.Index(Set16{ID16(i)})
	}
	if a := c.Index(Set16{0}); a != 0 {
		t.Fatal(a)
	}
}''')

seed("s32-collection16-get-last", "C06",
     "any identifier looked up in an empty collection",
     "looking up an unknown identifier panics",
     [("pkg/storage/collection16.go", "if int(itemIdx.Upper16()) >= len(collection8x8) {", "if lastIdx := ID16(len(collection8x8) - 1); itemIdx.Upper16() > lastIdx {")],
     "pkg/storage", '''
func TestSeededDemo(t *testing.T) {
	var c Collection16
	if _, found := c.Get(Combine16(0, 3)); found {
		t.Fatal("found")
	}
}''')


seed("s33-tagname-length-byte", "C23",
     "260 bytes handed to UnmarshalBinary of a tag name",
     "a tag name of 260 letters appears, which can never be written",
     [("pkg/dag/name.go", "	if len(tagNameBytes) != tagNameLen {", "	if length := uint8(len(tagNameBytes)); length != tagNameLen {")],
     "pkg/dag", '''
func TestSeededDemo(t *testing.T) {
	var n TagName
	if err := n.UnmarshalBinary(make([]byte, 260)); err == nil {
		t.Fatal(len(n))
	}
}''')
