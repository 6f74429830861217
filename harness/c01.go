package vxlisp

func init() {
	vxHarness["vhC01Bytes"] = vhC01Bytes
	vxHarness["vhC01Inside"] = vhC01Inside
}

func vhC01Check(s string) {
	tb, msg := vxRead(s)
	vxAssert(tb != nil && msg != nil, "reading yields a tree and messages")
	vxCover("done")
	if msg.iserror {
		vxCover("error")
	} else {
		vxCover("noerror")
	}
	vxObserve("tree", StringFromTextblock(tb))
	vxObserve("msg", StringFromMsgblock(msg))
}

// any short byte string
func vhC01Bytes() {
	n := vxChoice("length", vxParam("n")+1)
	vhC01Check(vxStr("text$", n))
}

// any short byte string in the middle of longer text
func vhC01Inside() {
	pre := vxPick("before", "(a ", "(\"x", "(`", "(/* ", "(a [b ", "(a {b \"c\" ", "(f\n // ", ")")
	post := vxPick("after", ")", "", "\"))", " (b]")
	vhC01Check(pre + vxStr("text$", vxParam("n")) + post)
}
