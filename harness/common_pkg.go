package vxlisp

// vxPackage reads a package text the way the compiler does.
func vxPackage(text string) (*vxpackage, bool) {
	vxTrace(text)
	tb, msg := TextblockParse(NewTextblockFromText(text))
	pkg, msg2 := PackageFromTextblock(tb)
	return pkg, msg.iserror || msg2.iserror
}

// vxCallArgs are the arguments of a call expression.
func vxCallArgs(v vxvalue) []vxarg {
	fnc, ok := v.native.(*vxfunc)
	vxAssert(ok, "the expression is a call")
	return fnc.listarg
}
