package vxlisp

func init() {
	vxHarness["vhC13Relation"] = vhC13Relation
	vxHarness["vhC13Generic"] = vhC13Generic
	vxHarness["vhC13Element"] = vhC13Element
}

// vxProvide is an expression of a type, and the declaration it needs.
func vxProvide(kind int, typ string) (string, string) {
	switch kind {
	case 0:
		return "a", "" // a parameter
	case 1:
		return "c", "(const c : " + typ + ")\n"
	default:
		return "(m)", "(func m : " + typ + ")\n"
	}
}

// vxExpect is a function using an expression where a type is expected.
func vxExpect(place int, expr string, given string, expected string) string {
	head := "(func f : any [a : " + given + "]\n "
	switch place {
	case 0:
		return "(func w : any [x : " + expected + "])\n" + head + "(w " + expr + "))\n"
	case 1:
		return "(func w : any [x : int y : " + expected + "])\n" + head + "(g 1 (w 2 " + expr + ")))\n"
	case 2:
		return "(func f : " + expected + " [a : " + given + "]\n " + expr + ")\n"
	case 3:
		return head + "(let : any [b : " + expected + " := " + expr + "] b))\n"
	case 4:
		return head + "(let : any [b : int := 1 d : any := (let : any [b : " + expected + " := " + expr + "] b)] d))\n"
	case 5:
		return "(func w : any [x : int])\n(func w : any [x : int y : " + expected + "])\n" + head + "(w 1 " + expr + "))\n"
	case 6:
		return "(func wf : " + expected + " [x : int])\n(func w : any [x : wf])\n" +
			head + "(w (fn : " + expected + " [x : int] " + expr + ")))\n"
	case 7:
		return head + "(let : " + expected + " [b : int := 1] " + expr + "))\n"
	default:
		return "(const f : " + expected + "\n " + expr + ")\n"
	}
}

func vhC13Relation() {
	list := vxStandard(vxCore)
	some := func(what string, names ...string) (string, []bool) {
		out, in := "", make([]bool, len(names))
		for i, n := range names {
			if vxBool(what) {
				in[i] = true
				out += " " + n
			}
		}
		if out != "" {
			out = " :" + what + " [" + out[1:] + "]"
		}
		return out, in
	}
	n := vxParam("more") // whether unrelated types are listed, too
	allow, allows := some("allowtypes", []string{"x1", "x2", "x3"}[:2+n]...)
	dis, disallows := some("disallowtypes", []string{"x1", "x3"}[:1+n]...)
	traits, hastraits := some("traits", "e", "x3")
	allow2, allows2 := some("allowtypes", []string{"x1", "x3"}[:1+n]...)
	decls := "(type e" + allow + dis + ")\n(type x1" + traits + ")\n(type x2" + allow2 + ")\n(type x3)\n"
	given := vxPick("given", "x1", "x2", "e")
	expected := vxPick("expected", "e", "any", "x3")
	place := vxChoice("place", 9)
	kind := vxChoice("kind", 3)
	vxAssume(place < 8 || kind > 0)
	expr, more := vxProvide(kind, given)
	pkg, bad := vxPackage("(package p)\n" + decls + more + vxExpect(place, expr, given, expected))
	vxAssert(!bad, "the package is accepted")

	ok := given == expected || expected == "any"
	if expected == "e" && given == "x1" {
		ok = allows[0] || hastraits[0] || allows[1] && allows2[0]
		if disallows[0] {
			ok = false
		}
	}
	if expected == "e" && given == "x2" {
		ok = allows[1]
	}
	if expected == "x3" && given == "x1" {
		ok = hastraits[1]
	}
	vxAssert(vxCompile(append(list, pkg)) == !ok, "a value is accepted exactly if the types are related")
	if ok {
		vxCover("accepted")
	} else if expected == "e" && disallows[0] && allows[0] {
		vxCover("disallowed")
	} else {
		vxCover("rejected")
	}
}

// Generic parameters take any type, or any type of one family.
func vhC13Generic() {
	list := vxStandard(vxCore + "(type list : list :allowtypes [any])\n(type map : map :allowtypes [any])\n(type struct : struct)\n")
	family := vxPick("family", "", "list", "map", "struct")
	head := "(type x1"
	if family != "" {
		head += " : " + family
	}
	switch family {
	case "struct":
		head += " :properties [p : int]"
	case "list", "map":
		head += " :allowtypes [int]"
	}
	expected := vxPick("expected", "any-1", "list-1", "map-1", "struct-1", "list-2", "x2", "any-3", "x2-1")
	given := vxPick("given", "x1", "x2")
	place := vxPick("place", "0", "1", "5")
	kind := vxChoice("kind", 3)
	expr, more := vxProvide(kind, given)
	decls := head + ")\n(type x2)\n"
	pkg, bad := vxPackage("(package p)\n" + decls + more + vxExpect(int(place[0]-'0'), expr, given, expected))
	vxAssert(!bad, "the package is accepted")
	want := expected
	generic := len(want) > 2 && want[len(want)-2] == '-'
	if generic {
		want = want[:len(want)-2]
	}
	ok := given == want || want == "any" || given == "x1" && family != "" && want == family
	vxAssert(vxCompile(append(list, pkg)) == !ok, "a generic parameter accepts its family")
	if ok {
		vxCover("accepted")
	} else {
		vxCover("rejected")
	}
}

// A parameter taking any number of values takes values of the type of its
// elements, whatever stands around them.
func vhC13Element() {
	list := vxStandard(vxCore + "(type list : list :allowtypes [any])\n")
	allow, trait := vxBool("allowed"), vxBool("trait")
	decls := "(type e"
	if allow {
		decls += " :allowtypes [x1]"
	}
	decls += ")\n(type x1"
	if trait {
		decls += " :traits [e]"
	}
	decls += ")\n(type x2)\n(type el : list :allowtypes [e])\n(func w : any [x : int y : el :...])\n"
	given := vxPick("given", "x1", "x2", "e")
	expr, more := vxProvide(vxChoice("kind", 3), given)
	switch vxChoice("around", 5) {
	case 1:
		expr = "(let [b : int := 1] " + expr + ")"
	case 2:
		expr = "(let : " + given + " [b : int := 1] " + expr + ")"
	case 3:
		expr = "(let [b : int := 1] (let [d : int := b] " + expr + "))"
	case 4:
		expr = "(let [b : " + given + " := " + expr + "] b)"
	}
	before := vxChoice("before", 1+vxParam("others"))
	after := vxChoice("after", 1+vxParam("others"))
	args := ""
	for i := 0; i < before; i++ {
		args += " o"
	}
	args += " " + expr
	for i := 0; i < after; i++ {
		args += " o"
	}
	pkg, bad := vxPackage("(package p)\n" + decls + more + "(func f : any [a : " + given + " o : e]\n (w 1" + args + "))\n")
	vxAssert(!bad, "the package is accepted")
	ok := given == "e" || given == "x1" && (allow || trait)
	vxAssert(vxCompile(append(list, pkg)) == !ok, "an element is accepted exactly if it has the type of the elements")
	if ok {
		vxCover("accepted")
	} else {
		vxCover("rejected")
	}
}
