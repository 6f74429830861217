package vxlisp

// Trees of items, their written form and the tree that reading must give back.

type vxNode struct {
	kind string // text " ` // /* ( [ {
	text string
	kids []*vxNode
	line int
	col  int
}

// characters a word may hold anywhere
const vxWordSet = "abzAZ09_:.,<>-+=?!*#$%&'@^|~;"

// printable text without quote characters, brackets included
const vxPlainSet = " ab09:.,<>-+=?!*#$%&'@^|~;()[]{}/_"

// vxLeaf makes a leaf of the given kind with up to n symbolic characters (words have n).
func vxLeaf(kind string, n int) *vxNode {
	o := &vxNode{kind: kind}
	if kind != "text" && vxChoice("empty", 2) == 1 {
		n = 0
	}
	switch kind {
	case "text":
		o.text = vxStrIn("word$", n, vxWordSet)
	case "\"":
		o.text = vxStrIn("quote$", n, vxPlainSet+"`")
	case "`":
		o.text = vxStrIn("blockquote$", n, vxPlainSet+"\"\\")
	case "//":
		o.text = vxStrIn("comment$", n, vxPlainSet+"\"`\\")
	case "/*":
		s := vxStrIn("blockcomment$", n, vxPlainSet+"\"`\\")
		for i := 0; i < n; i++ {
			if i+1 < n {
				vxAssume(!(s[i] == '*' && s[i+1] == '/'))
			}
		}
		if n > 0 {
			vxAssume(s[n-1] != '*')
		}
		o.text = "/*" + s + "*/"
	}
	return o
}

var vxKinds = []string{"text", "\"", "`", "//", "/*", "(", "[", "{"}

// vxForest makes between 0 and budget items; budget counts all nodes.
func vxForest(budget int, depth int, leaf int) ([]*vxNode, int) {
	out := []*vxNode{}
	for budget > 0 {
		nk := len(vxKinds)
		if depth == 0 {
			nk = 5
		}
		k := vxChoice("kind", nk+1)
		if k == nk {
			break
		}
		budget--
		kind := vxKinds[k]
		if k < 5 {
			out = append(out, vxLeaf(kind, leaf))
			continue
		}
		g := &vxNode{kind: kind}
		g.kids, budget = vxForest(budget, depth-1, leaf)
		out = append(out, g)
	}
	return out, budget
}

// vxPrinter writes items with separators supplied by sep.
type vxPrinter struct {
	out  string
	line int
	col  int // column of the next character
	sep  func() string
}

func (p *vxPrinter) put(s string) {
	p.out += s
	cr := false
	for _, r := range s {
		switch r {
		case '\n':
			if !cr {
				p.line++
				p.col = 1
			}
			cr = false
		case '\r':
			p.line++
			p.col = 1
			cr = true
		default:
			p.col++
			cr = false
		}
	}
}

func (p *vxPrinter) group(n *vxNode) {
	n.line, n.col = p.line, p.col
	p.put(n.kind)
	p.list(n.kids)
	switch n.kind {
	case "(":
		p.put(")")
	case "[":
		p.put("]")
	case "{":
		p.put("}")
	}
}

func (p *vxPrinter) list(kids []*vxNode) {
	for i, k := range kids {
		if i > 0 {
			p.put(p.sep())
		}
		p.item(k)
	}
}

func (p *vxPrinter) item(k *vxNode) {
	k.line, k.col = p.line, p.col
	switch k.kind {
	case "text":
		p.put(k.text)
	case "\"":
		p.put("\"" + k.text + "\"")
	case "`":
		p.put("`" + k.text + "`")
	case "//":
		p.put("//" + k.text + "\n ")
	case "/*":
		p.put(k.text)
	default:
		p.group(k)
	}
}

func vxPrint(root *vxNode, sep func() string) string {
	p := &vxPrinter{line: 1, col: 1, sep: sep}
	p.group(root)
	return p.out
}

// vxSameTree compares a tree that was read with the one written.
func vxSameTree(tb *vxtextblock, n *vxNode, where string) {
	vxAssert(tb.blocktype == n.kind, where+": kind of item")
	switch n.kind {
	case "(", "[", "{":
		vxAssert(len(tb.listtextblock) == len(n.kids), where+": number of items")
		for i, k := range n.kids {
			vxSameTree(tb.listtextblock[i], k, where)
		}
	default:
		vxAssert(tb.text == n.text, where+": text of item")
		vxAssert(len(tb.listtextblock) == 0, where+": leaf has no items")
	}
}
