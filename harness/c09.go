package vxlisp

func init() {
	vxHarness["vhC09Params"] = vhC09Params
	vxHarness["vhC09Props"] = vhC09Props
}

// vhC09One writes one parameter with k of its properties in any order.
func vhC09One(idx int, k int, n int, props bool) (string, vxarg) {
	name := vxStrIn("name$", 1, "ab") + vxDumpInt(idx)
	text := " " + name
	want := NewArg(name)
	kinds := 7
	if props {
		kinds = 5
	}
	var used []int
	for ; k > 0; k-- {
		i := vxChoice("prop", kinds)
		for _, o := range used {
			vxAssume(o != i)
		}
		used = append(used, i)
		switch i {
		case 0:
			t := vxPick("type", "int", "any-1")
			text += " : " + t
			want.vxtype = NewType(t)
			if t == "any-1" && !props {
				// the generic type is the type itself, unless given separately after it
				want.isgeneric = true
				want.generictype = want.vxtype
				for _, o := range used {
					vxAssume(o != 5)
				}
			}
		case 1:
			body := vxStrIn("doc$", n, "a:[)` ")
			text += " :doc \"" + body + "\""
			want.doc = body
		case 2:
			body := vxStrIn("alias$", n, "a:[)` ")
			text += " :alias \"" + body + "\""
			want.alias = body
		case 3:
			text += " :default"
			want.isdefault = true
		case 4:
			text += " :..."
			want.multi = true
		case 5:
			text += " :: any-2"
			want.generictype = NewType("any-2")
		case 6:
			switch vxChoice("value", 5) {
			case 0:
				text += " := 5"
				want.value = NewValueFromInteger("5")
			case 1:
				body := vxStrIn("default$", n, "a:[)` ")
				text += " := \"" + body + "\""
				want.value = NewValueFromString("\"" + body + "\"")
			case 2:
				text += " := (g 5)"
				f := NewFunc()
				f.name = "g"
				f.alias = "g"
				a := NewArg(":unknown")
				a.value = NewValueFromInteger("5")
				f.listarg = append(f.listarg, a)
				want.value = NewValueFromFunc(f)
			case 3:
				text += " := q"
				want.value = NewValueFromUnknown("q")
			case 4:
				text += " := :kw"
				want.value = NewValueFromString(":kw")
			}
		}
	}
	return text, want
}

func vhC09List(props bool) (string, []vxarg) {
	text := ""
	var want []vxarg
	count := vxChoice("count", vxParam("count")+1)
	for i := 0; i < count; i++ {
		t, a := vhC09One(i, vxChoice("props", vxParam("k")+1), vxParam("n"), props)
		text += t
		want = append(want, a)
	}
	return "[" + text + "]", want
}

func vhC09Check(got []vxarg, want []vxarg, bad bool) {
	vxAssert(!bad, "the list is accepted")
	vxObserve("list", vxDumpArgs(got))
	vxAssert(len(got) == len(want), "one entry per name")
	vxAssert(vxDumpArgs(got) == vxDumpArgs(want), "every entry has what was written for it")
	vxCover("compared")
}

func vhC09Params() {
	text, want := vhC09List(false)
	switch vxChoice("place", 2) {
	case 0:
		pkg, bad := vxPackage("(package p)\n(func f : int " + text + " 1)")
		vhC09Check(pkg.listfunc[0].listarg, want, bad)
		generic := false
		for _, a := range want {
			if a.vxtype.isgeneric {
				generic = true
			}
		}
		vxAssert(pkg.listfunc[0].isgeneric == generic, "the function is generic when a parameter is")
	case 1:
		form := vxPick("form", "let", "fn")
		pkg, bad := vxPackage("(package p)\n(const c : int (" + form + " : int " + text + " 1))")
		args := vxCallArgs(pkg.listconst[0].value)
		vxAssert(len(args) == 2, "the form has a list and a body")
		list, ok := args[0].value.native.([]vxarg)
		vxAssert(ok || len(want) == 0, "the form has a parameter list")
		vhC09Check(list, want, bad)
	}
}

func vhC09Props() {
	text, want := vhC09List(true)
	pkg, bad := vxPackage("(package p)\n(type t : struct :properties " + text + " :doc \"x\")")
	vhC09Check(pkg.listtype[0].properties, want, bad)
	vxAssert(pkg.listtype[0].doc == "x", "what follows the list is kept")
}
