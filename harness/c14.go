package vxlisp

func init() {
	vxHarness["vhC14Count"] = vhC14Count
	vxHarness["vhC14Many"] = vhC14Many
}

func vhC14Count() {
	list := vxStandard(vxCore)
	n := vxChoice("params", vxParam("params")+1)
	have := vxChoice("args", vxParam("args")+1)
	multi := n > 0 && vxBool("variadic")
	indirect := !multi && vxBool("indirect") // called through a parameter
	imported := !indirect && vxBool("imported")
	place := vxChoice("place", 8)
	name := "o"
	if indirect {
		vxAssume(place < 5)
		name = "k"
	} else if imported && vxBool("prefixed") {
		name = "q/o"
	}
	decl := "(func o : any ["
	for i := 0; i < n; i++ {
		t := " : any"
		if i == n-1 && multi {
			t = " : l :..."
		}
		decl += " x" + vxDumpInt(i) + t
	}
	decl += " ])\n"
	single := n > 0 && !multi && vxBool("list") // the last one is a list, given as a whole
	if single {
		decl = decl[:len(decl)-len(" : any ])\n")] + " : l ])\n"
	}
	call := "(" + name
	for i := 0; i < have; i++ {
		// an argument may itself be a call or a missing body
		if single && i >= n-1 {
			call += " (zl)"
		} else {
			call += vxPick("arg", " 7", " \"s\"", " (z)")
		}
	}
	call += ")"
	params := "a : int"
	if indirect {
		params += " k : o"
	}
	var f string
	switch place {
	case 0:
		f = "(func f : any [" + params + "]\n " + call + ")\n"
	case 1:
		f = "(func f : any [" + params + "]\n (g 1 (g " + call + " 2)))\n"
	case 2:
		f = "(func f : any [" + params + "]\n (let : any [b : any := " + call + "] b))\n"
	case 3:
		f = "(func f : any [" + params + "]\n (let : any [b : any := 1] " + call + "))\n"
	case 4:
		f = "(func f : any [" + params + "]\n (h (fn : any [b : any] " + call + ")))\n"
	case 5:
		f = "(const f : any\n " + call + ")\n"
	case 6:
		f = "(func f : any [a : any]\n a\n :test (test 1 " + call + "))\n"
	default:
		f = "(func f : any [a : any]\n a)\n(func f2 : any\n (f " + call + "))\n"
	}
	head := "(package p)\n"
	lib := "(type l : list :allowtypes [any])\n(func zl : l)\n" + decl
	text := lib
	if imported {
		pkg, bad := vxPackage("(package a)\n" + lib)
		vxAssert(!bad, "the library is accepted")
		list = append(list, pkg)
		head, text = "(package p :libs (lib q :path a))\n", ""
	}
	pkg, bad := vxPackage(head + text + "(func z : any)\n" + f)
	vxAssert(!bad, "the package is accepted")
	list = append(list, pkg)
	ok := have == n || have > n && multi
	vxAssert(vxCompile(list) == !ok, "exactly a wrong number of arguments is an error")
	if ok {
		vxCover("accepted")
	} else if have < n {
		vxCover("few")
	} else {
		vxCover("many")
	}
}

// Many parameters and arguments.
func vhC14Many() {
	list := vxStandard(vxCore)
	n := vxChoice("params", vxParam("params")+1)
	have := vxChoice("args", vxParam("args")+1)
	multi := n > 0 && vxBool("variadic")
	indirect := !multi && vxBool("indirect")
	decl, call := "(func o : any [", "(o"
	for i := 0; i < n; i++ {
		t := " : any"
		if i == n-1 && multi {
			t = " : l :..."
		}
		decl += " x" + vxDumpInt(i) + t
	}
	if indirect {
		call = "(k"
	}
	for i := 0; i < have; i++ {
		call += " " + vxDumpInt(i)
	}
	params := ""
	if indirect {
		params = "k : o"
	}
	pkg, bad := vxPackage("(package p)\n(type l : list :allowtypes [any])\n" + decl + " ])\n(func f : any [" + params + "]\n (g 1 " + call + ")))\n")
	vxAssert(!bad, "the package is accepted")
	ok := have == n || have > n && multi
	vxAssert(vxCompile(append(list, pkg)) == !ok, "exactly a wrong number of arguments is an error")
	if ok {
		vxCover("accepted")
	} else if have < n {
		vxCover("few")
	} else {
		vxCover("many")
	}
}
