package vxlisp

func init() {
	vxHarness["vhC05Positions"] = vhC05Positions
}

func vxSamePos(tb *vxtextblock, n *vxNode) {
	vxAssert(tb.linenum == n.line, "line of "+n.kind)
	vxAssert(tb.charnum == n.col, "column of "+n.kind)
	for i, k := range n.kids {
		vxAssert(i < len(tb.listtextblock), "item is there")
		vxSamePos(tb.listtextblock[i], k)
	}
}

// words, quotes and groups after any mix of separators, comments and non-ASCII text
func vhC05Positions() {
	root := &vxNode{kind: "("}
	n := vxParam("items")
	cur := root
	for i := 0; i < n; i++ {
		var k *vxNode
		switch vxChoice("item", 9) {
		case 0:
			k = vxLeaf("text", 2)
		case 1:
			k = vxLeaf("\"", 2)
		case 2:
			k = vxLeaf("`", 1)
		case 3:
			k = vxLeaf("/*", 1)
		case 4:
			k = vxLeaf("//", 1)
		case 5:
			k = &vxNode{kind: "text", text: "/" + vxStrIn("word$", 1, "abz09-=<>")}
		case 6:
			k = &vxNode{kind: "text", text: "é" + vxStrIn("word$", 1, vxWordSet)}
		case 7:
			k = &vxNode{kind: "[", kids: []*vxNode{vxLeaf("text", 1)}}
		case 8:
			k = &vxNode{kind: "("}
		}
		cur.kids = append(cur.kids, k)
		if k.kind == "(" {
			cur = k
		}
	}
	text := vxPick("lead", "", "\n", "\r\n \r") + "/*é*/"
	p := &vxPrinter{line: 1, col: 1}
	p.sep = func() string { return vxPick("sep", " ", "\n  ", "\r ", "\r\n ", "\t") }
	p.put(text)
	p.group(root)
	vxTrace(p.out)
	tb, msg := vxRead(p.out)
	vxAssert(!msg.iserror, "well-formed text gives no error")
	vxAssert(len(tb.listtextblock) == 2, "comment and group")
	vxSamePos(tb.listtextblock[1], root)
	vxCover("compared")
	vxObserve("tree", StringFromTextblock(tb))
}
