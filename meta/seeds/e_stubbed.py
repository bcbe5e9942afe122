# bugs in the packages which need logging and libxml: their demos bring stubs
seed("s40-known-skips-first", "C26",
     "variants of several tag sets, or optimizing an index having them",
     "the first variants of every table but the first are missing in the list of identifiers",
     [("internal/index/variant_idx.go", "			if collectionID != 0 {\n", "			if tableNumber == 1 || idxInTable != 0 {\n")],
     "internal/index", '''
func TestSeededDemo(t *testing.T) {
	var v VariantsIndex
	known := map[VariantID]bool{}
	for _, c := range []TagSetIDCollection{{1}, {2}, {1, 2}, {1, 3}, {1, 2, 3}} {
		known[v.Index(c)] = true
	}
	ids := v.KnownID()
	for _, id := range ids {
		if !known[id] {
			t.Fatal("unknown", id)
		}
	}
	if len(ids) != 5 {
		t.Fatal(len(ids), "of 5 identifiers")
	}
}''')

seed("s41-following-wraps", "C26",
     "the greatest identifier a table can have",
     "the identifiers following the greatest one are all there are",
     [("internal/index/variant_table.go", "for idx := int(storageIdx) + 1; idx", "for idx := int(storageIdx + 1); idx")],
     "internal/index", '''
func TestSeededDemo(t *testing.T) {
	v := VariantsTable{{1}, {2}, {3}}
	if n := len(v.Following(0)); n != 2 {
		t.Fatal(n)
	}
	if n := len(v.Following(65535)); n != 0 {
		t.Fatal(n)
	}
}''')

seed("s42-optimize-last-node", "C24",
     "a word whose last letter is the node made last, and variants no longer used",
     "optimizing leaves that word with the identifier of variants dropped",
     [("internal/index/idx.go", "	for _, node := range index.items.items {\n		if node.Variants == 0 {", "	for _, node := range index.items.items[:index.NodesCount()] {\n		if node.Variants == 0 {")],
     "internal/index", '''
func TestSeededDemo(t *testing.T) {
	logging.MustInit()
	x := New()
	for _, n := range []dag.TagName{"AAAA", "BBBB", "CCCC"} {
		x.TagID(n, "")
	}
	add := func(w string, tags ...dag.TagName) {
		n, err := x.AddString(w)
		if err == nil {
			err = n.AddTagSet(tags...)
		}
		if err != nil {
			t.Fatal(err)
		}
	}
	add("a", "AAAA")
	add("a", "BBBB")
	add("b", "CCCC")
	x.Optimize()
	for w, want := range map[string]int{"a": 2, "b": 1} {
		n, err := x.FetchString(w)
		if err != nil {
			t.Fatal(err)
		}
		if got := n.TagSets(); len(got) != want {
			t.Fatal(w, got)
		}
	}
}''', ["github.com/amarin/gomorphy/pkg/dag", "github.com/amarin/logging"])

seed("s43-items-get-next", "C19",
     "the identifier which the next node will have",
     "words are added below a node which was never made",
     [("internal/index/items.go", "	if intID >= int(items.NextID()) {", "	if intID > int(items.NextID()) {")],
     "internal/index", '''
func TestSeededDemo(t *testing.T) {
	x := New()
	if _, err := x.AddString("abc"); err != nil {
		t.Fatal(err)
	}
	if _, err := x.AddToNode(dag.ID(x.NodesCount()), []rune("d")); err != nil {
		t.Fatal(err)
	}
	if _, err := x.AddToNode(dag.ID(x.NodesCount()+1), []rune("x")); err == nil {
		t.Fatal("a word is added below a node which was never made")
	}
}''', ["github.com/amarin/gomorphy/pkg/dag"])

seed("s44-tags-checked-late", "C20",
     "an unknown tag followed by a known one",
     "the unknown tag is taken for the first one of the index",
     [("internal/index/node.go", """		if !found {
			return fmt.Errorf("%w: add tag set: unknown tag: %v", Error, tagName)
		}
	}
""", """	}
	if !found {
		return fmt.Errorf("%w: add tag set: unknown tag: %v", Error, newTagSet)
	}
""")],
     "internal/index", '''
func TestSeededDemo(t *testing.T) {
	x := New()
	x.TagID("AAAA", "")
	x.TagID("BBBB", "")
	n, err := x.AddString("a")
	if err != nil {
		t.Fatal(err)
	}
	if err := n.AddTagSet("BBBB", "XXXX"); err == nil {
		t.Fatal("an unknown tag at the end is taken")
	}
	if err := n.AddTagSet("XXXX", "BBBB"); err == nil {
		t.Fatal("an unknown tag is taken")
	}
	if x.WordsCount() != 0 {
		t.Fatal(x.WordsCount())
	}
}''')

seed("s45-forms-share-tags", "C22",
     "a lemma with three tags of its own and several forms",
     "all forms get the tags of the last one: their lists share one array when they are put into the index",
     [("pkg/opencorpora/parser.go", """			for _, variant := range parser.currentLemma.F {
				// prepend form categories with Lemma.L categories list
				variant.G = append(parser.currentLemma.L.G, variant.G...)

				if node""", """			// prepend form categories with Lemma.L categories list
			for _, form := range parser.currentLemma.F {
				form.G = append(parser.currentLemma.L.G, form.G...)
			}

			for _, variant := range parser.currentLemma.F {
				if node""")],
     "pkg/opencorpora", '''
type demoNode struct {
	dag.Node
	x *demoIndex
}

func (n demoNode) AddTagSet(tags ...dag.TagName) error {
	n.x.sets = append(n.x.sets, fmt.Sprint(tags))
	return nil
}

type demoIndex struct {
	dag.Index
	sets []string
}

func (x *demoIndex) AddString(string) (dag.Node, error) { return demoNode{x: x}, nil }

func TestSeededDemo(t *testing.T) {
	logging.MustInit()
	x := &demoIndex{}
	p := newParser(x)
	start := func(name string, attr ...string) {
		e := xml.StartElement{Name: xml.Name{Local: name}}
		for i := 0; i < len(attr); i += 2 {
			e.Attr = append(e.Attr, xml.Attr{Name: xml.Name{Local: attr[i]}, Value: attr[i+1]})
		}
		if err := p.ProcessStartElement(e); err != nil {
			t.Fatal(err)
		}
	}
	end := func(name string) {
		if err := p.ProcessEndElement(xml.EndElement{Name: xml.Name{Local: name}}); err != nil {
			t.Fatal(err)
		}
	}
	start("dictionary")
	start("lemmata")
	start("lemma", "id", "1", "rev", "1")
	start("l", "t", "w")
	for _, g := range []string{"A", "B", "C"} {
		start("g", "v", g)
		end("g")
	}
	end("l")
	for _, g := range []string{"D", "E"} {
		start("f", "t", "w"+g)
		start("g", "v", g)
		end("g")
		end("f")
	}
	end("lemma")
	if got := fmt.Sprint(x.sets); got != "[[A B C D] [A B C E]]" {
		t.Fatal(got)
	}
}''', ["encoding/xml", "fmt", "github.com/amarin/gomorphy/pkg/dag", "github.com/amarin/logging"])

seed("s46-date-with-offset", "C21",
     "a file downloaded which is as new as the source",
     "the date of the source is never understood, so an update is asked for without need",
     [("pkg/opencorpora/loader.go", "time.Parse(time.RFC1123, lastModifiedString[0])", "time.Parse(time.RFC1123Z, lastModifiedString[0])")],
     "pkg/opencorpora", '''
type demoTransport string

func (date demoTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Header: http.Header{"Last-Modified": []string{string(date)}}, Body: io.NopCloser(strings.NewReader("page")), Request: r}, nil
}

func TestSeededDemo(t *testing.T) {
	logging.MustInit()
	http.DefaultTransport = demoTransport("Mon, 02 Jan 2006 15:04:05 GMT")
	l := NewLoader(t.TempDir())
	if ok, err := l.DownloadUpdate(); !ok || err != nil || !l.IsDownloadExists() {
		t.Fatal(ok, err)
	}
	if ok, err := l.IsUpdateRequired(); ok || err != nil {
		t.Fatal(ok, err)
	}
	http.DefaultTransport = demoTransport("Mon, 02 Jan 2096 15:04:05 GMT")
	if ok, err := l.IsUpdateRequired(); !ok || err != nil {
		t.Fatal(ok, err)
	}
}''', ["github.com/amarin/logging", "io", "net/http", "strings"])

PARSER_DEMO = '''
type demoNode struct {
	dag.Node
	x *demoIndex
}

func (n demoNode) AddTagSet(tags ...dag.TagName) error {
	n.x.words[len(n.x.words)-1] += fmt.Sprint(tags)
	return nil
}

type demoIndex struct {
	dag.Index
	words []string
}

func (x *demoIndex) AddString(w string) (dag.Node, error) {
	x.words = append(x.words, w)
	return demoNode{x: x}, nil
}

func (x *demoIndex) TagID(name, parent dag.TagName) dag.TagID {
	x.words = append(x.words, fmt.Sprint("tag ", name, " ", parent))
	return 0
}

func demoParser() (*demoIndex, *Parser, func(string, ...string) error, func(string) error) {
	logging.MustInit()
	x := &demoIndex{}
	p := newParser(x)
	start := func(name string, attr ...string) error {
		e := xml.StartElement{Name: xml.Name{Local: name}}
		for i := 0; i < len(attr); i += 2 {
			e.Attr = append(e.Attr, xml.Attr{Name: xml.Name{Local: attr[i]}, Value: attr[i+1]})
		}
		return p.ProcessStartElement(e)
	}
	end := func(name string) error { return p.ProcessEndElement(xml.EndElement{Name: xml.Name{Local: name}}) }
	return x, p, start, end
}
'''
PARSER_USES = ["encoding/xml", "fmt", "github.com/amarin/gomorphy/pkg/dag", "github.com/amarin/logging"]

seed("s47-lemma-revision-lost", "C22",
     "a lemma whose revision is not a number and whose number is one",
     "the error is overwritten: such a lemma is taken with revision 0",
     [("pkg/opencorpora/parser.go", """			if parser.currentLemma.IdAttr, err = getIntAttr("id", element.Attr); err != nil {
				return fmt.Errorf("%w: %v: %v", Error, element.Attr, err)
			}
			if parser.currentLemma.RevAttr, err = getIntAttr("rev", element.Attr); err != nil {
""", """			parser.currentLemma.RevAttr, err = getIntAttr("rev", element.Attr)
			if parser.currentLemma.IdAttr, err = getIntAttr("id", element.Attr); err != nil {
""")],
     "pkg/opencorpora", PARSER_DEMO + '''
func TestSeededDemo(t *testing.T) {
	_, _, start, _ := demoParser()
	for _, e := range []string{"dictionary", "lemmata"} {
		if err := start(e); err != nil {
			t.Fatal(err)
		}
	}
	if err := start("lemma", "id", "1", "rev", "x"); err == nil {
		t.Fatal("a lemma is taken although its revision is not a number")
	}
}''', PARSER_USES)

seed("s48-grammeme-kept", "C22",
     "a grammeme without parent followed by one without a name",
     "the second gets the name of the first",
     [("pkg/opencorpora/parser.go", "			parser.currentGrammeme = new(dag.Tag)\n", "			if parser.currentGrammeme == nil {\n				parser.currentGrammeme = new(dag.Tag)\n			}\n"),
      ("pkg/opencorpora/parser.go", "			parser.currentGrammeme = nil\n", "			if parser.currentGrammeme.Parent != \"\" {\n				parser.currentGrammeme = nil\n			}\n")],
     "pkg/opencorpora", PARSER_DEMO + '''
func TestSeededDemo(t *testing.T) {
	x, p, start, end := demoParser()
	ok := func(err error) {
		if err != nil {
			t.Fatal(err)
		}
	}
	ok(start("dictionary"))
	ok(start("grammemes"))
	ok(start("grammeme", "parent", ""))
	ok(start("name"))
	ok(p.ProcessCharData(xml.CharData("POST")))
	ok(end("name"))
	ok(end("grammeme"))
	ok(start("grammeme", "parent", "POST"))
	ok(end("grammeme"))
	if got := fmt.Sprintf("%q", x.words); got != `["tag POST " "tag  POST"]` {
		t.Fatal(got)
	}
}''', PARSER_USES)

seed("s49-limit-counts-forms", "C22",
     "a limit of lemmas and a lemma of several forms",
     "reading stops before as many lemmas as were asked for",
     [("pkg/opencorpora/parser.go", "parser.parsedLemmas >= parser.maxLemmas {", "parser.parsedForms >= parser.maxLemmas {")],
     "pkg/opencorpora", PARSER_DEMO + '''
func TestSeededDemo(t *testing.T) {
	x, p, start, end := demoParser()
	p.SetMaxLemmas(2)
	ok := func(err error) {
		if err != nil {
			t.Fatal(err)
		}
	}
	ok(start("dictionary"))
	ok(start("lemmata"))
	for n := 1; n <= 2; n++ {
		ok(start("lemma", "id", "1", "rev", "1"))
		for _, f := range []string{"a", "b"} {
			ok(start("f", "t", f))
			ok(start("g", "v", "AAAA"))
			ok(end("g"))
			ok(end("f"))
		}
		if err := end("lemma"); (err != nil) != (n == 2) {
			t.Fatal(n, err)
		}
	}
	if len(x.words) != 4 {
		t.Fatal(x.words)
	}
}''', PARSER_USES)

seed("s50-equal-forms-once", "C22",
     "a lemma with more than two forms, one spelled as the base form and without tags of its own",
     "that form is not put into the index",
     [("pkg/opencorpora/parser.go", "			for _, variant := range parser.currentLemma.F {\n", "			for number, variant := range parser.currentLemma.F {\n				if number == 0 && len(parser.currentLemma.F) > 2 && variant.Form == parser.currentLemma.L.Form && len(variant.G) == 0 {\n					continue // the base form itself\n				}\n")],
     "pkg/opencorpora", PARSER_DEMO + '''
func TestSeededDemo(t *testing.T) {
	x, _, start, end := demoParser()
	ok := func(err error) {
		if err != nil {
			t.Fatal(err)
		}
	}
	ok(start("dictionary"))
	ok(start("lemmata"))
	ok(start("lemma", "id", "1", "rev", "1"))
	ok(start("l", "t", "a"))
	ok(start("g", "v", "AAAA"))
	ok(end("g"))
	ok(end("l"))
	for _, f := range []string{"a", "b", "c"} {
		ok(start("f", "t", f))
		ok(end("f"))
	}
	ok(end("lemma"))
	if got := fmt.Sprint(x.words); got != "[a[AAAA] b[AAAA] c[AAAA]]" {
		t.Fatal(got)
	}
}''', PARSER_USES)

seed("s51-forced-needs-update", "C21",
     "a forced update while the source is not newer",
     "nothing is compiled although recompiling was asked for",
     [("pkg/opencorpora/loader.go", "		if forceRecompile {\n			loader.Info", "		if forceRecompile && updateRequired {\n			loader.Info")],
     "pkg/opencorpora", '''
type demoTransport string

func (date demoTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Header: http.Header{"Last-Modified": []string{string(date)}}, Body: io.NopCloser(strings.NewReader("page")), Request: r}, nil
}

func TestSeededDemo(t *testing.T) {
	logging.MustInit()
	http.DefaultTransport = demoTransport("Mon, 02 Jan 2006 15:04:05 GMT")
	l := NewLoader(t.TempDir())
	if ok, err := l.DownloadUpdate(); !ok || err != nil {
		t.Fatal(ok, err)
	}
	// nothing was unpacked: compiling is tried and fails
	if err := l.Update(true); err == nil {
		t.Fatal("nothing is compiled")
	}
	if err := l.Update(false); err != nil {
		t.Fatal(err)
	}
}''', ["github.com/amarin/logging", "io", "net/http", "strings"])
