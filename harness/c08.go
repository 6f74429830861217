package vxlisp

func init() {
	vxHarness["vhC08Func"] = vhC08Func
	vxHarness["vhC08Const"] = vhC08Const
	vxHarness["vhC08Type"] = vhC08Type
	vxHarness["vhC08Package"] = vhC08Package
	vxHarness["vhC08Decls"] = vhC08Decls
	vxHarness["vhC08Error"] = vhC08Error
}

const vhC08Set = "a:`(]/*;1 "

// vhC08Text is a documentation text as written and as it must be kept.
func vhC08Text(n int) (string, string) {
	body := vxStrIn("text$", n, vhC08Set)
	return "\"" + body + "\"", body
}

func vhC08Call(name string, arg string) vxvalue {
	f := NewFunc()
	f.name = name
	f.alias = name
	a := NewArg(":unknown")
	a.value = NewValueFromInteger(arg)
	f.listarg = append(f.listarg, a)
	return NewValueFromFunc(f)
}

// vhC08Order gives k different numbers below n in every order.
func vhC08Order(n int, k int) []int {
	var out []int
	for len(out) < k {
		i := vxChoice("item", n)
		for _, o := range out {
			vxAssume(o != i)
		}
		out = append(out, i)
	}
	return out
}

func vhC08Func() {
	k := vxChoice("count", vxParam("k")+1)
	n := vxParam("n")
	want := NewFunc()
	want.name = "fff"
	want.alias = "fff"
	want.pkgname = "p"
	text := "(func fff : int"
	want.vxtype = NewType("int")
	bigo := []string{":1", ":logn", ":n", ":nlogn", ":2n", ":n^2", ":2^n", ":n^n"}
	test := false
	for _, i := range vhC08Order(19, k) {
		after := test
		test = false
		switch i {
		case 0:
			s, v := vhC08Text(n)
			text += " :alias " + s
			want.alias = v
		case 1:
			b := bigo[vxChoice("bigo", len(bigo))]
			text += " :bigospace " + b
			want.bigospace = b
		case 2:
			b := bigo[vxChoice("bigo", len(bigo))]
			text += " :bigotime " + b
			want.bigotime = b
		case 3:
			b := vxPick("side", ":client", ":server")
			text += " :clientserver " + b
			want.clientserver = b
		case 4:
			s, v := vhC08Text(n)
			text += " :doc " + s
			want.doc = v
		case 5:
			s, v := vhC08Text(n)
			text += " :deprecated " + s
			want.deprecated = v
		case 6:
			s, v := vhC08Text(n)
			text += " :sideeffects " + s
			want.sideeffects = v
		case 7:
			text += " :private"
			want.private = true
		case 8:
			text += " :protected"
			want.protected = true
		case 9:
			text += " :wrapper"
			want.wrapper = true
		case 10:
			text += " :async"
			want.async = true
		case 11:
			text += " :context"
			want.context = true
		case 12:
			text += " :debug"
			want.debug = true
		case 13:
			text += " :messages"
			want.messages = true
		case 14:
			text += " :parallel"
			want.parallel = true
		case 15:
			text += " :permission"
			want.permission = true
		case 16:
			text += " :test (ta 1) (tb 2)"
			want.listtestvalue = append(want.listtestvalue, vhC08Call("ta", "1"), vhC08Call("tb", "2"))
			test = true
		case 17:
			text += " [a : int b : string]"
			a := NewArg("a")
			a.vxtype = NewType("int")
			b := NewArg("b")
			b.vxtype = NewType("string")
			want.listarg = append(want.listarg, a, b)
			test = after
		case 18:
			vxAssume(!after) // right after :test it would be one more test
			text += " (g 3)"
			want.value = vhC08Call("g", "3")
		}
	}
	text += ")"
	pkg, bad := vxPackage("(package p)\n" + text)
	vxAssert(!bad, "the function is accepted")
	vxAssert(len(pkg.listfunc) == 1 && len(pkg.listconst) == 0 && len(pkg.listtype) == 0, "one function is declared")
	got := vxDumpFunc(pkg.listfunc[0])
	vxObserve("func", got)
	vxAssert(got == vxDumpFunc(want), "the function has what was written")
	vxCover("func")
}

func vhC08Const() {
	k := vxChoice("count", vxParam("k")+1)
	n := vxParam("n")
	want := NewConst()
	want.name = "ccc"
	want.alias = "ccc"
	want.pkgname = "p"
	text := "(const ccc"
	test := false
	for _, i := range vhC08Order(7, k) {
		after := test
		test = false
		switch i {
		case 0:
			s, v := vhC08Text(n)
			text += " :alias " + s
			want.alias = v
			if v == "" {
				want.alias = "ccc"
			}
		case 1:
			s, v := vhC08Text(n)
			text += " :doc " + s
			want.doc = v
		case 2:
			s, v := vhC08Text(n)
			text += " :deprecated " + s
			want.deprecated = v
		case 3:
			text += " :mutable"
			want.mutable = true
		case 4:
			text += " :test (ta 1) (tb 2)"
			want.listtestvalue = append(want.listtestvalue, vhC08Call("ta", "1"), vhC08Call("tb", "2"))
			test = true
		case 5:
			text += " : string"
			want.vxtype = NewType("string")
		case 6:
			vxAssume(!after)
			text += " (g 3)"
			want.value = vhC08Call("g", "3")
		}
	}
	text += ")"
	pkg, bad := vxPackage("(package p)\n" + text)
	vxAssert(!bad, "the constant is accepted")
	vxAssert(len(pkg.listfunc) == 0 && len(pkg.listconst) == 1 && len(pkg.listtype) == 0, "one constant is declared")
	got := vxDumpConst(pkg.listconst[0])
	vxObserve("const", got)
	vxAssert(got == vxDumpConst(want), "the constant has what was written")
	vxCover("const")
}

func vhC08Names(list ...string) []*vxtype {
	var out []*vxtype
	for _, n := range list {
		out = append(out, NewType(n))
	}
	return out
}

func vhC08Funcs(list ...string) []*vxfunc {
	var out []*vxfunc
	for _, n := range list {
		f := NewFunc()
		f.name = n
		out = append(out, f)
	}
	return out
}

func vhC08Type() {
	k := vxChoice("count", vxParam("k")+1)
	n := vxParam("n")
	want := NewType("ttt")
	want.pkgname = "p"
	text := "(type ttt"
	test := false
	for _, i := range vhC08Order(18, k) {
		after := test
		test = false
		switch i {
		case 0:
			s, v := vhC08Text(n)
			text += " :alias " + s
			want.alias = v
			if v == "" {
				want.alias = "ttt"
			}
		case 1:
			s, v := vhC08Text(n)
			text += " :doc " + s
			want.doc = v
		case 2:
			s, v := vhC08Text(n)
			text += " :deprecated " + s
			want.deprecated = v
		case 3:
			text += " :mutable"
			want.mutable = true
		case 4:
			text += " :test (ta 1) (tb 2)"
			want.testvalues = append(want.testvalues, vhC08Call("ta", "1"), vhC08Call("tb", "2"))
			test = true
		case 5:
			// both spellings of the extended type, never together
			vxAssume(want.extends == "")
			text += " : list"
			want.extends = ":list"
		case 6:
			vxAssume(want.extends == "")
			text += " :extends :map"
			want.extends = ":map"
		case 7:
			text += " :allowtypes [i j]"
			want.allowtypes = vhC08Names("i", "j")
		case 8:
			text += " :disallowtypes [k]"
			want.disallowtypes = vhC08Names("k")
		case 9:
			text += " :traits [l m]"
			want.traits = vhC08Names("l", "m")
		case 10:
			text += " :allowfuncs [o q]"
			want.allowfuncs = vhC08Funcs("o", "q")
		case 11:
			text += " :disallowfuncs [r]"
			want.disallowfuncs = vhC08Funcs("r")
		case 12:
			text += " :default 7"
			want.defaultvalue = "7"
		case 13:
			text += " :create (g 3)"
			want.createvalue = vhC08Call("g", "3")
		case 14:
			text += " :destroy (h 4)"
			want.destroyvalue = vhC08Call("h", "4")
		case 15:
			text += " :properties [x : int y : string :default]"
			a := NewArg("x")
			a.vxtype = NewType("int")
			b := NewArg("y")
			b.vxtype = NewType("string")
			b.isdefault = true
			want.properties = append(want.properties, a, b)
		case 16:
			text += " :convert u"
			want.convert = []string{"u"}
		case 17:
			vxAssume(!after)
			text += " (e 5)"
			want.emptyvalue = vhC08Call("e", "5")
		}
	}
	text += ")"
	pkg, bad := vxPackage("(package p)\n" + text)
	vxAssert(!bad, "the type is accepted")
	vxAssert(len(pkg.listfunc) == 0 && len(pkg.listconst) == 0 && len(pkg.listtype) == 1, "one type is declared")
	got := vxDumpType(pkg.listtype[0])
	vxObserve("type", got)
	vxAssert(got == vxDumpType(want), "the type has what was written")
	vxCover("type")
}

func vhC08Lib(name string, path string) *vxlibrary {
	lib := NewLibrary()
	lib.name = name
	lib.path = path
	return lib
}

func vhC08Package() {
	k := vxChoice("count", 4)
	n := vxParam("n")
	name := vxPick("name", "p", "p/q/r", "vx/core", "vx/test")
	want := NewPackage(name)
	want.alias = ""
	for i := 0; i < len(name); i++ {
		if name[i] == '/' {
			want.alias += "_"
		} else {
			want.alias += string(name[i])
		}
	}
	for _, std := range []string{"vx/core", "vx/test"} {
		if name != std {
			want.listlib = append(want.listlib, vhC08Lib(std, std))
		}
	}
	text := "(package " + name
	for _, i := range vhC08Order(3, k) {
		switch i {
		case 0:
			s, v := vhC08Text(n)
			vxAssume(v != "")
			text += " :alias " + s
			want.alias = v
		case 1:
			s, v := vhC08Text(n)
			text += " :doc " + s
			want.doc = v
		case 2:
			text += " :libs"
			for j := vxChoice("libs", vxParam("libs")); j >= 0; j-- {
				lib := vhC08Lib(vxPick("libname", "a", "b"), "")
				lt := " (lib " + lib.name
				for _, o := range vhC08Order(3, vxChoice("libprops", 4)) {
					switch o {
					case 0:
						lt += " :path x/y"
						lib.path = "x/y"
					case 1:
						s, v := vhC08Text(n)
						lt += " :doc " + s
						lib.doc = v
					case 2:
						lt += " :lang :js"
						lib.lang = ":js"
					}
				}
				text += lt + ")"
				want.listlib = append(want.listlib, lib)
			}
		}
	}
	text += ")\n"
	pkg, bad := vxPackage(text)
	vxAssert(!bad, "the package is accepted")
	vxAssert(len(pkg.listconst) == 0 && len(pkg.listfunc) == 0 && len(pkg.listtype) == 0, "nothing else is declared")
	got := vxDumpPackage(pkg)
	vxObserve("package", got)
	vxAssert(got == vxDumpPackage(want), "the package has what was written")
	vxCover("package")
}

// vhC08Decls: several declarations are all kept, in order.
func vhC08Decls() {
	text := "(package p)\n"
	kinds := ""
	for i := vxChoice("decls", vxParam("k")+1); i > 0; i-- {
		d := "d" + vxDumpInt(i)
		switch vxChoice("kind", 3) {
		case 0:
			text += "(const " + d + " : int 1)\n"
			kinds += "c" + d
		case 1:
			text += "(func " + d + " : int 1)\n"
			kinds += "f" + d
		case 2:
			text += "(type " + d + " : struct)\n"
			kinds += "t" + d
		}
	}
	pkg, bad := vxPackage(text)
	vxAssert(!bad, "the package is accepted")
	nt, nc, nf := 0, 0, 0
	for i := 0; i < len(kinds); i += 3 {
		d := kinds[i+1 : i+3]
		switch kinds[i] {
		case 'c':
			vxAssert(nc < len(pkg.listconst) && pkg.listconst[nc].name == d, "the constants are kept in order")
			nc++
		case 'f':
			vxAssert(nf < len(pkg.listfunc) && pkg.listfunc[nf].name == d, "the functions are kept in order")
			nf++
		case 't':
			vxAssert(nt < len(pkg.listtype) && pkg.listtype[nt].name == d, "the types are kept in order")
			nt++
		}
	}
	vxAssert(nc == len(pkg.listconst) && nf == len(pkg.listfunc) && nt == len(pkg.listtype), "nothing else is declared")
	vxCover("decls")
}

// vhC08Error: an unknown keyword or a stray item is reported.
func vhC08Error() {
	w := vxStrIn("word$", vxParam("n"), "abdo")
	known := func(list ...string) bool {
		for _, s := range list {
			if w == s {
				return true
			}
		}
		return false
	}
	var text string
	switch vxChoice("place", 12) {
	case 0:
		vxAssume(!known("doc"))
		text = "(package p :" + w + ")"
	case 1:
		text = "(package p)(" + w + " x : int)"
	case 2:
		vxAssume(!known("doc"))
		text = "(package p)(const c : int :" + w + " 1)"
	case 3:
		text = "(package p)(const c : int 1 " + w + ")"
	case 4:
		vxAssume(!known("doc"))
		text = "(package p)(func f : int :" + w + " 1)"
	case 5:
		text = "(package p)(func f : int 1 " + w + ")"
	case 6:
		text = "(package p)(func f " + w + ")"
	case 7:
		vxAssume(!known("doc"))
		text = "(package p)(type t : int :" + w + ")"
	case 8:
		text = "(package p)(type t : int 1 " + w + ")"
	case 9:
		text = "(package p :libs (lib a :path x :" + w + " y))"
		vxAssume(!known("doc"))
	case 10:
		vxAssume(!known("doc"))
		text = "(package p)(func f : int [a :" + w + "] 1)"
	case 11:
		text = vxPick("early", "(const c : int 1)", "(func f : int 1)", "(type t : int)") + "(package " + w + ")"
	}
	pkg, bad := vxPackage(text)
	vxObserve("package", vxDumpPackage(pkg))
	vxAssert(bad, "what is not part of the language is reported")
	vxCover("reported")
}
