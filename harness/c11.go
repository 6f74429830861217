package vxlisp

func init() {
	vxHarness["vhC11Expr"] = vhC11Expr
	vxHarness["vhC11Type"] = vhC11Type
	vxHarness["vhC11Many"] = vhC11Many
}

// vxDeclared is a package with a declaration of the name in the asked kind.
func vxDeclared(head string, kind int, name string, more string) string {
	text := head + "\n"
	switch kind {
	case 0:
		text += "(const " + name + " : int 1)\n"
	case 1:
		text += "(type " + name + ")\n"
	default:
		text += "(func " + name + " : any)\n"
	}
	return text + more
}

// vxBound tells what a value refers to: the package of a declaration, or the
// type of a parameter or local.
func vxBound(v vxvalue) string {
	switch n := v.native.(type) {
	case vxarg:
		return n.vxtype.name
	case *vxconst:
		return n.pkgname
	case *vxtype:
		return n.pkgname
	case *vxfunc:
		if n.argname != "" {
			return n.name
		}
		return n.pkgname
	}
	return "?" + v.code
}

func vhC11Expr() {
	kind := vxChoice("kind", 4) // constant, type, function, call of a function
	core, bad := vxPackage(vxCore)
	core.listlib = nil
	vxAssert(!bad, "the core package is accepted")
	list := []*vxpackage{core}
	decl := func(what string) string {
		if vxBool(what) {
			return "x"
		}
		return "y"
	}
	t := "t"
	if kind == 3 {
		t = "k"
	}
	param, local, inner := decl("param"), decl("local"), decl("inner")
	use := []string{"x", "q1/x", "q2/x", "p/x", "vx/core/x", "q9/x"}[vxChoice("use", 6)]
	first := vxBool("first") // order in which the libraries are listed
	libs := []string{"(lib q1 :path a/b)", "(lib q2 :path c)"}
	if !first {
		libs[0], libs[1] = libs[1], libs[0]
	}
	var at [3]bool // declared in a/b, c and p
	for i, head := range []string{"(package a/b)", "(package c)", "(package p :libs " + libs[0] + " " + libs[1] + ")"} {
		name := decl("declared")
		at[i] = name == "x"
		more := ""
		if i == 2 {
			ref := use
			if kind == 3 {
				ref = "(" + use + ")"
			}
			more = "(func f : any [" + param + " : " + t + "1]\n" +
				" (g\n  (let : any [" + local + " : " + t + "2 := 0]\n   (g " + ref +
				"\n    (h (fn : any [" + inner + " : " + t + "3] " + ref + "))))\n  " + ref + "))\n" +
				"(func f2 : any\n " + ref + ")\n"
		}
		pkg, bad := vxPackage(vxDeclared(head, kind, name, more))
		if bad {
			vxAssert(use == "q9/x", "the package is accepted")
			vxCover("error")
			return
		}
		list = append(list, pkg)
	}
	p := list[3]
	_, msg := ListPackageLink(list)

	// oracle: who declares the name, seen from outside every function
	outer := ""
	switch {
	case use == "q1/x":
		if at[0] {
			outer = "a/b"
		}
	case use == "q2/x":
		if at[1] {
			outer = "c"
		}
	case use == "p/x":
		if at[2] {
			outer = "p"
		}
	case use != "x":
	case at[2]:
		outer = "p"
	case at[0] && (first || !at[1]):
		outer = "a/b"
	case at[1]:
		outer = "c"
	}
	f, f2 := vxFuncNamed(p, "f"), vxFuncNamed(p, "f2")
	top := vxCallArgs(f.value)
	let := vxCallArgs(top[0].value)
	body := vxCallArgs(let[1].value)
	lambda := vxCallArgs(body[1].value)[0].value
	uses := []vxvalue{vxCallArgs(lambda)[1].value, body[0].value, top[1].value, f2.value}
	seen := []string{inner, local, param}
	missing := false
	for i, v := range uses {
		want := outer
		if use == "x" {
			for j := 2; j >= i; j-- {
				if seen[j] == "x" {
					want = t + vxDumpInt(3-j)
				}
			}
		}
		if want == "" {
			missing = true
			continue
		}
		got := vxBound(v)
		vxObserve("bound", got)
		vxAssert(got == want, "the name refers to the nearest declaration")
	}
	vxAssert(msg.iserror == missing, "exactly an unknown name is an error")
	if missing {
		vxCover("unknown")
	} else {
		vxCover("bound")
	}
}

// The same for names of types, in every place a type is written.
func vhC11Type() {
	core, _ := vxPackage(vxCore)
	core.listlib = nil
	list := []*vxpackage{core}
	place := vxChoice("place", 11)
	use := "x"
	if place < 10 {
		use = []string{"x", "q1/x", "q2/x", "p/x", "q9/x"}[vxChoice("use", 5)]
	}
	first := vxBool("first")
	asfunc := place == 10 || place < 6 && vxBool("asfunc") // a function serves as type
	libs := []string{"(lib q1 :path a/b)", "(lib q2 :path c)"}
	if !first {
		libs[0], libs[1] = libs[1], libs[0]
	}
	var at [3]bool
	bad := false
	for i, head := range []string{"(package a/b)", "(package c)", "(package p :libs " + libs[0] + " " + libs[1] + ")"} {
		name := "y"
		if vxBool("declared") {
			name = "x"
			at[i] = true
		}
		kind := 1
		if asfunc {
			kind = 2
		}
		more := ""
		if i == 2 {
			switch place {
			case 0:
				more = "(func f : " + use + ")"
			case 1:
				more = "(func f : any [a : int b : " + use + "])"
			case 2:
				more = "(const f : " + use + ")"
			case 3:
				more = "(type f : struct :properties [a : int b : " + use + "])"
			case 4:
				more = "(func f : any (let : any [a : " + use + " := 0] a))"
			case 5:
				more = "(func f : any (h (fn : any [a : " + use + "] 1)))"
			case 6:
				more = "(type f :traits [" + use + "])"
			case 7:
				more = "(type f : list :allowtypes [int " + use + "])"
			case 8:
				more = "(type f : list :disallowtypes [" + use + "])"
			case 10:
				more = "(type f : func :allowfuncs [" + use + "])"
			default:
				more = "(func f : any (let : " + use + " [a : int := 0] a))"
			}
		}
		pkg, msg := vxPackage(vxDeclared(head, kind, name, more))
		bad = bad || msg
		list = append(list, pkg)
	}
	p := list[3]
	_, msg := ListPackageLink(list)
	want := ""
	switch {
	case use == "q1/x":
		if at[0] {
			want = "a/b"
		}
	case use == "q2/x":
		if at[1] {
			want = "c"
		}
	case use == "p/x":
		if at[2] {
			want = "p"
		}
	case use != "x":
	case at[2]:
		want = "p"
	case at[0] && (first || !at[1]):
		want = "a/b"
	case at[1]:
		want = "c"
	}
	vxAssert((bad || msg.iserror) == (want == ""), "exactly an unknown type is an error")
	if want == "" {
		vxCover("unknown")
		return
	}
	var typ *vxtype
	switch place {
	case 0:
		typ = vxFuncNamed(p, "f").vxtype
	case 1:
		typ = vxFuncNamed(p, "f").listarg[1].vxtype
	case 2:
		for _, c := range p.listconst {
			typ = c.vxtype
		}
	case 4:
		typ = vxCallArgs(vxFuncNamed(p, "f").value)[0].value.native.([]vxarg)[0].vxtype
	case 5:
		lambda := vxCallArgs(vxFuncNamed(p, "f").value)[0].value
		typ = vxCallArgs(lambda)[0].value.native.([]vxarg)[0].vxtype
	case 9:
		typ = vxFuncNamed(p, "f").value.native.(*vxfunc).vxtype
	default:
		for _, t := range p.listtype {
			if t.name == "f" {
				switch place {
				case 3:
					typ = t.properties[1].vxtype
				case 6:
					typ = t.traits[0]
				case 7:
					typ = t.allowtypes[1]
				case 10:
					typ = &vxtype{name: t.allowfuncs[0].name, pkgname: t.allowfuncs[0].pkgname}
				case 8:
					typ = t.disallowtypes[0]
				}
			}
		}
	}
	vxObserve("bound", typ.pkgname)
	vxAssert(typ.name == "x" && typ.pkgname == want, "the type is the nearest declared one")
	vxCover("bound")
}

// Many libraries in any order, one of them with a library of its own, and many scopes.
func vhC11Many() {
	kind := vxChoice("kind", 4)
	n, depth := vxParam("libs"), vxParam("depth")
	core, _ := vxPackage(vxCore)
	core.listlib = nil
	list := []*vxpackage{core}
	order := []int{} // the libraries as listed
	for i := 0; i < n; i++ {
		at := vxChoice("place", i+1)
		order = append(order, 0)
		copy(order[at+1:], order[at:])
		order[at] = i
	}
	libs := ""
	for _, i := range order {
		libs += " (lib q" + vxDumpInt(i) + " :path l" + vxDumpInt(i) + ")"
	}
	use := vxChoice("use", n+2) - 2 // unprefixed, the library of a library, a library
	ref := "x"
	if use == -1 {
		ref = "qz/x"
	} else if use >= 0 {
		ref = "q" + vxDumpInt(use) + "/x"
	}
	if kind == 3 {
		ref = "(" + ref + ")"
	}
	// oracle: who declares the name
	want := ""
	declared := make([]bool, n)
	declare := func(head string, name string, more string) bool {
		pkg, bad := vxPackage(vxDeclared(head, kind, name, more))
		list = append(list, pkg)
		return bad
	}
	declare("(package z)", "x", "")
	for i := range declared {
		name, more := "y", ""
		declared[i] = vxBool("declared")
		if declared[i] {
			name = "x"
		}
		if i == 0 {
			more = " :libs (lib qz :path z)"
		}
		declare("(package l"+vxDumpInt(i)+more+")", name, "")
	}
	own := vxBool("own")
	scope := vxChoice("scope", depth+1) - 1 // the let that binds the name
	body, end := "(g 1 "+ref+")", ""
	text := "(func f : any\n "
	for i := 0; i < depth; i++ {
		name := "y" + vxDumpInt(i)
		if i == scope {
			name = "x"
		}
		t := "t1"
		if kind == 3 {
			t = "k1"
		}
		text += "(let : any [" + name + " : " + t + " := 0]\n "
		end += ")"
	}
	name := "y"
	if own {
		name = "x"
	}
	bad := declare("(package p :libs"+libs+")", name, text+body+end+")\n(func f2 : any\n "+ref+")\n")
	switch {
	case use >= 0 && declared[use]:
		want = "l" + vxDumpInt(use)
	case use == -2 && own:
		want = "p"
	case use == -2:
		for _, i := range order {
			if want == "" && declared[i] {
				want = "l" + vxDumpInt(i)
			}
		}
	}
	if bad {
		vxAssert(use == -1, "the package is accepted")
		vxCover("error")
		return
	}
	p := list[len(list)-1]
	_, msg := ListPackageLink(list)
	in := want
	if scope >= 0 && use == -2 {
		in = "t1"
		if kind == 3 {
			in = "k1"
		}
	}
	vxAssert(msg.iserror == (want == "" || in == ""), "exactly an unknown name is an error")
	if want != "" {
		vxAssert(vxBound(vxFuncNamed(p, "f2").value) == want, "the name refers to the nearest declaration")
	}
	if in != "" {
		v := vxFuncNamed(p, "f").value
		for i := 0; i < depth; i++ {
			v = vxCallArgs(v)[1].value
		}
		vxAssert(vxBound(vxCallArgs(v)[1].value) == in, "the name refers to the nearest declaration")
	}
	if want == "" {
		vxCover("unknown")
	} else {
		vxCover("bound")
	}
}
