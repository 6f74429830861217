package vxlisp

import "strings"

func init() {
	vxHarness["vhC06Quote"] = vhC06Quote
	vxHarness["vhC06Block"] = vhC06Block
}

// vxDedent is what a double-quoted text of several lines means: the lines after the first lose
// as many blanks as stand before the text on the first line, if they start with that many.
func vxDedent(s string, indent int) string {
	lines := strings.Split(s, "\n")
	pad := strings.Repeat(" ", indent)
	out := lines[0]
	for _, l := range lines[1:] {
		if strings.HasPrefix(l, pad) {
			l = l[indent:]
		}
		out += "\n" + l
	}
	return out
}

func vhC06Check(pre, open, body, post string, want string, before int) {
	tb, msg := vxRead(pre + open + body + open + post)
	vxTrace(pre + open + body + open + post)
	vxAssert(!msg.iserror, "quoted text gives no error")
	vxAssert(len(tb.listtextblock) == 1, "one group")
	g := tb.listtextblock[0]
	if vxChoiceConst(pre) {
		g = g.listtextblock[1]
	}
	vxAssert(len(g.listtextblock) == before+2, "the quote is one item")
	q := g.listtextblock[before]
	vxAssert(q.blocktype == open, "the item is a quote")
	vxAssert(q.text == want, "the quote holds the written text")
	vxAssert(g.listtextblock[before+1].text == "z", "the next item is separate")
	vxCover("compared")
	vxObserve("text", q.text)
}

func vxChoiceConst(pre string) bool { return strings.HasPrefix(pre, "(f [") }

func vhC06Quote() {
	n := vxChoice("length", vxParam("n")+1)
	body := ""
	for i := 0; i < n; i++ {
		switch vxChoice("char", 4) {
		case 0:
			body += string(vxByteIn("body$", vxPlainSet+"`"))
		case 1:
			body += "\\\""
		case 2:
			body += "\n" + strings.Repeat(" ", vxChoice("blanks", 4)*2)
		case 3:
			body += "é"
		}
	}
	switch vxChoice("place", 3) {
	case 0:
		vhC06Check("(", "\"", body, " z)", vxDedent(body, 2), 0)
	case 1:
		vhC06Check("(a ", "\"", body, "\n z)", vxDedent(body, 4), 1)
	case 2:
		vhC06Check("(f [\n ", "\"", body, " z ])", vxDedent(body, 2), 0)
	}
}

func vhC06Block() {
	n := vxChoice("length", vxParam("n")+1)
	body := ""
	for i := 0; i < n; i++ {
		switch vxChoice("char", 3) {
		case 0:
			body += string(vxByteIn("body$", vxPlainSet+"\"\\\t"))
		case 1:
			body += "\n" + strings.Repeat(" ", vxChoice("blanks", 2)*3)
		case 2:
			body += "é"
		}
	}
	switch vxChoice("place", 2) {
	case 0:
		vhC06Check("(", "`", body, " z)", body, 0)
	case 1:
		vhC06Check("(a\n", "`", body, "\n z)", body, 1)
	}
}
