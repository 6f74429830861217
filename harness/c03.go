package vxlisp

func init() {
	vxHarness["vhC03Tree"] = vhC03Tree
	vxHarness["vhC03Top"] = vhC03Top
	vxHarness["vhC03Deep"] = vhC03Deep
	vxHarness["vhC03Wide"] = vhC03Wide
}

// one group of any items
func vhC03Tree() {
	root := &vxNode{kind: "("}
	root.kids, _ = vxForest(vxParam("items"), vxParam("depth"), vxParam("leaf"))
	text := vxPrint(root, func() string { return string(vxByteIn("sep", " \t\n\r")) + " " })
	vxTrace(text)
	tb, msg := vxRead(text)
	vxAssert(!msg.iserror, "well-formed text gives no error")
	vxAssert(len(tb.listtextblock) == 1, "one top-level group")
	vxSameTree(tb.listtextblock[0], root, "tree")
	vxCover("compared")
	vxObserve("tree", StringFromTextblock(tb))
}

// several top-level groups with comments between them
func vhC03Top() {
	want := []*vxNode{}
	text := ""
	n := vxParam("groups")
	for i := 0; i < n; i++ {
		if vxChoice("comment", 2) == 1 {
			c := vxLeaf("/*", vxParam("leaf"))
			text += c.text + string(vxByteIn("sep", " \t\n\r"))
		}
		g := &vxNode{kind: "("}
		switch vxChoice("content", 4) {
		case 1:
			g.kids = []*vxNode{vxLeaf("text", vxParam("leaf"))}
		case 2:
			g.kids = []*vxNode{vxLeaf("text", 1), &vxNode{kind: "[", kids: []*vxNode{vxLeaf("\"", 1)}}}
		case 3:
			g.kids = []*vxNode{&vxNode{kind: "("}, vxLeaf("`", 1)}
		}
		text += vxPrint(g, func() string { return " " })
		text += string(vxByteIn("sep", " \t\n\r"))
		want = append(want, g)
	}
	tb, msg := vxRead(text)
	vxAssert(!msg.iserror, "well-formed text gives no error")
	got := []*vxtextblock{}
	for _, k := range tb.listtextblock {
		if k.blocktype != "/*" {
			got = append(got, k)
		}
	}
	vxAssert(len(got) == len(want), "number of top-level groups")
	for i := range want {
		vxSameTree(got[i], want[i], "top")
	}
	vxCover("compared")
	vxObserve("tree", StringFromTextblock(tb))
}

// deeply nested groups with a word before or after each of them
func vhC03Deep() {
	node := &vxNode{kind: "text", text: "x"}
	n := 1 + vxChoice("depth", vxParam("depth"))
	for i := 0; i < n; i++ {
		kind := vxPick("kind", "(", "[", "{")
		if i == n-1 {
			kind = "("
		}
		g := &vxNode{kind: kind, kids: []*vxNode{node}}
		word := &vxNode{kind: "text", text: "w" + string([]byte{byte('a' + i)})}
		switch vxChoice("word", 3) {
		case 1:
			g.kids = []*vxNode{word, node}
		case 2:
			g.kids = []*vxNode{node, word}
		}
		node = g
	}
	text := vxPrint(node, func() string { return " " })
	vxTrace(text)
	tb, msg := vxRead(text)
	vxAssert(!msg.iserror, "well-formed text gives no error")
	vxAssert(len(tb.listtextblock) == 1, "one top-level group")
	vxSameTree(tb.listtextblock[0], node, "tree")
	vxCover("compared")
}

// groups of many items
func vhC03Wide() {
	root := &vxNode{kind: "("}
	for i, n := 0, vxChoice("items", vxParam("items")+1); i < n; i++ {
		word := "w" + string([]byte{byte('a' + i)})
		switch vxChoice("item", 4) {
		case 0:
			root.kids = append(root.kids, &vxNode{kind: "text", text: word})
		case 1:
			root.kids = append(root.kids, &vxNode{kind: "\"", text: word})
		case 2:
			root.kids = append(root.kids, &vxNode{kind: "["})
		case 3:
			root.kids = append(root.kids, &vxNode{kind: "(", kids: []*vxNode{{kind: "text", text: word}}})
		}
	}
	text := vxPrint(root, func() string { return " " })
	vxTrace(text)
	tb, msg := vxRead(text)
	vxAssert(!msg.iserror, "well-formed text gives no error")
	vxAssert(len(tb.listtextblock) == 1, "one top-level group")
	vxSameTree(tb.listtextblock[0], root, "tree")
	vxCover("compared")
}
