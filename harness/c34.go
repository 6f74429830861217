package vxlisp

import (
	"os"
	"strings"
)

func init() {
	vxHarness["vhC34Source"] = vhC34Source
	vxHarness["vhC34Shown"] = vhC34Shown
	vxHarness["vhC34Report"] = vhC34Report
}

// vxGroup is a group as it was written: where, and which bytes.
type vxGroup struct {
	line, col int
	from, to  int
	kids      []*vxGroup
}

// vxOutdent is a source text without the indentation of its first column.
func vxOutdent(s string, col int) string {
	var out []byte
	comment := false
	for i := 0; i < len(s); i++ {
		out = append(out, s[i])
		if strings.HasPrefix(s[i:], "/*") {
			comment = true
		} else if i > 0 && strings.HasPrefix(s[i-1:], "*/") {
			comment = false
		} else if s[i] == '\n' && !comment {
			n := 0
			for n < col-1 && i+1+n < len(s) && s[i+1+n] == ' ' {
				n++
			}
			if n == col-1 {
				i += n
			}
		}
	}
	return string(out)
}

// vxWriter writes text and knows where it is; newlines of any style are kept as \n in norm.
type vxWriter struct {
	out, norm string
	line, col int
}

func (w *vxWriter) put(s string) {
	w.out += s
	s = strings.ReplaceAll(s, "\r\n", "\n")
	s = strings.ReplaceAll(s, "\r", "\n")
	w.norm += s
	for _, r := range s {
		w.col++
		if r == '\n' {
			w.line, w.col = w.line+1, 1
		}
	}
}

// group writes a group and those within it, of n items in all.
func (w *vxWriter) group(kind string, n *int) *vxGroup {
	g := &vxGroup{line: w.line, col: w.col, from: len(w.norm)}
	w.put(kind[:1])
	for *n > 0 {
		*n--
		w.put(vxPick("sep", " ", "\n ", "\n   ", "\r\n  "))
		end := false
		switch vxChoice("item", 7) {
		case 0:
			w.put("é" + vxStrIn("word", 1, vxWordSet))
		case 1:
			w.put("\"" + vxStrIn("quote", 1, "ab ()") + "\n   x\"")
		case 2:
			w.put("/*" + vxStrIn("comment", 1, "ab (\"") + "\n   x*/")
		case 3:
			w.put("//" + vxStrIn("line", 1, "ab (\"") + "\n")
		case 4:
			g.kids = append(g.kids, w.group("()", n))
		case 5:
			g.kids = append(g.kids, w.group("[]", n))
		default:
			end = true
		}
		if end {
			break
		}
	}
	w.put(kind[1:])
	g.to = len(w.norm)
	return g
}

func vxSameSource(tb *vxtextblock, g *vxGroup, text string) {
	want := vxOutdent(text[g.from:g.to], g.col)
	vxAssert(tb.text == want, "a group keeps its source")
	vxAssert(tb.linenum == g.line && tb.charnum == g.col, "a group keeps its place")
	n := 0
	for _, k := range tb.listtextblock {
		if k.blocktype == "(" || k.blocktype == "[" {
			vxAssert(n < len(g.kids), "groups are those written")
			vxSameSource(k, g.kids[n], text)
			n++
		}
	}
	vxAssert(n == len(g.kids), "all groups are there")
}

// Groups in any layout.
func vhC34Source() {
	w := &vxWriter{line: 1, col: 1}
	w.put(vxPick("lead", "", "\n  ", "/*é*/ "))
	n := vxParam("items")
	g := w.group("()", &n)
	vxTrace(w.out)
	tb, msg := vxRead(w.out)
	vxAssert(!msg.iserror, "the text is read")
	found := false
	for _, k := range tb.listtextblock {
		if k.blocktype == "(" || k.blocktype == "[" {
			vxAssert(!found, "one group is read")
			found = true
			vxSameSource(k, g, w.norm)
		}
	}
	vxAssert(found, "the group is read")
	vxCover("source")
}

// vxLayout is one of several layouts of a declaration.
func vxLayout(name string, parts ...string) string {
	sep := vxPick(name, " ", "\n ", "\n  ")
	return strings.Join(parts, sep)
}

// The source of every declaration and test, on documentation pages.
func vhC34Shown() {
	word := "w" + vxStrIn("word", vxParam("len"), "ab<&>\"' ")
	vxAssume(!strings.Contains(word, "\""))
	q := "\"" + word + "\""
	test := func(name string, s string) string {
		if vxBool(name) {
			return "(test\n  " + q + "\n  " + s + ")"
		}
		return "(test " + q + " " + s + ")"
	}
	tests := []string{test("type test", "\"x\""), test("const test", "c"), test("func test", "(f\n   "+q+" 1)")}
	decls := []string{
		vxLayout("type", "(type t : struct", ":properties [a : string]", ":doc "+q, ":test", tests[0]+")"),
		vxLayout("const", "(const c : string", q, ":test", tests[1]+")"),
		vxLayout("func", "(func f : string [a : string b : int]", "a", ":doc "+q, ":test", tests[2]+")"),
	}
	text := "(package p)\n\n" + strings.Join(decls, "\n\n") + "\n"
	vxTrace(text)
	dir := vxGenProject("js", text)
	msg := ExecuteProjectFromArgs([]string{"vxlisp", "doc", ":path", "prj"})
	vxAssert(!msg.iserror, "the project is accepted")
	b, err := os.ReadFile(dir + "/doc/doc.html")
	vxAssert(err == nil, "the page is written")
	os.RemoveAll(dir)
	shown := map[string]int{}
	for _, t := range vxHtml(string(b)) {
		vxAssert(t.kind != 'e', "the page can be read")
		if t.kind == 'x' {
			shown[t.text]++
		}
	}
	for _, s := range decls {
		vxAssert(shown[s] == 1, "the page shows the source of every declaration once")
	}
	for i, s := range tests {
		at := strings.Index(decls[i], s)
		col := at - strings.LastIndex(decls[i][:at], "\n")
		vxAssert(shown[vxOutdent(s, col)] == 1, "the page shows the source of every test once")
	}
	vxAssert(shown[text] == 1, "the page shows the source of the package once")
	vxCover("shown")
}

// The place and source of any mistake in its report.
func vhC34Report() {
	bad := []string{
		"(type x :zz9 1)",
		"(type x : struct :properties [a : zz9])",
		"(type x :traits [zz9])",
		"(const x : zz9 1)",
		"(const x : int zz9)",
		"(const x : int :zz9 1)",
		"(func x : zz9)",
		"(func x : any [a : zz9])",
		"(func x : any zz9)",
		"(func x : any\n (g 1 zz9))",
		"(func x : any (zz9 1))",
		"(func x : any\n (let : any [k : any := (g 1 zz9)]\n  3))",
		"(func x : any\n 1\n :test (test 1 zz9))",
		"(func x : any (g \"zz9\"))",
		"(func x : any (g \"zz9\" 1 2))",
		"(func x : x1 (g \"zz9\" 1))",
	}
	k := vxChoice("mistake", len(bad))
	text := "(package p)\n(type x1)\n"
	if vxBool("after") {
		text += "(func g : any [a : any b : any])\n"
	}
	for i, n := 0, vxChoice("lines", vxParam("lines")+1); i < n; i++ {
		text += vxPick("line", "\n", "(type y"+vxDumpInt(i)+")\n")
	}
	text += vxPick("lead", "", " ", "   ") + bad[k] + "\n"
	if !strings.Contains(text, "(func g ") {
		text += "(func g : any [a : any b : any])\n"
	}
	iserror, report := vxProjectErrors(text)
	vxAssert(iserror, "the mistake is reported")
	at := strings.Index(text, "zz9")
	found := false
	for i := 0; ; {
		j := strings.Index(report[i:], "p.vxlisp Line:")
		if j < 0 {
			break
		}
		i += j + len("p.vxlisp Line:")
		line, col := 0, 0
		for report[i] >= '0' && report[i] <= '9' {
			line = line*10 + int(report[i]-'0')
			i++
		}
		vxAssert(strings.HasPrefix(report[i:], " Char:"), "the place has a column")
		i += len(" Char:")
		for report[i] >= '0' && report[i] <= '9' {
			col = col*10 + int(report[i]-'0')
			i++
		}
		vxAssert(report[i] == '\n', "the source follows the place")
		i++
		// the first byte of the place
		pos := 0
		for l := 1; l < line; l++ {
			n := strings.Index(text[pos:], "\n")
			vxAssert(n >= 0, "the line is one of the file")
			pos += n + 1
		}
		pos += col - 1
		vxAssert(pos < len(text), "the place is in the file")
		vxAssert(pos <= at, "the place is at the mistake or around it")
		if n := strings.Index(report[i:], "zz9"); n >= 0 {
			n += 3
			vxAssert(report[i:i+n] == vxOutdent(text[pos:at+3], col), "the report shows the source of the mistake")
			found = true
		}
	}
	vxAssert(found, "the report gives the place of the mistake")
	vxCover("report")
}
