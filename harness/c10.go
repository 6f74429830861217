package vxlisp

func init() {
	vxHarness["vhC10Chain"] = vhC10Chain
	vxHarness["vhC10Nest"] = vhC10Nest
	vxHarness["vhC10Last"] = vhC10Last
	vxHarness["vhC10Long"] = vhC10Long
}

func vhC10Leaf() string {
	return vxPick("leaf", "x", "5", "\"t\"", ":kw", "(h 1)", "[1 2]", "()")
}

// vhC10Steps writes a threading form and the nested call it stands for.
func vhC10Steps(last bool, start string, startnested string, steps int, extra int, any bool) (string, string) {
	form := "(<-"
	if last {
		form = "(<<-"
	}
	form += " " + start
	nested := startnested
	for i := 0; i < steps; i++ {
		name := "f" + vxDumpInt(i)
		head := ""
		if any {
			switch vxChoice("head", 4) {
			case 1:
				head = " : int"
			case 2:
				vxAssume(!last)
				name = ":k"
			case 3:
				name = "l/g"
			}
		}
		args := ""
		for n := vxChoice("extra", extra+1); n > 0; n-- {
			args += " " + vhC10Leaf()
		}
		form += " (" + name + head + args + ")"
		if last {
			nested = "(" + name + head + args + " " + nested + ")"
		} else {
			nested = "(" + name + head + " " + nested + args + ")"
		}
	}
	return form + ")", nested
}

func vhC10Compare(form string, nested string) {
	const head = "(package p :libs (lib l :path m))\n(const c : any "
	a, bad1 := vxPackage(head + form + ")")
	b, bad2 := vxPackage(head + nested + ")")
	vxObserve("threaded", vxDumpPackage(a))
	vxAssert(!bad2, "the nested call is accepted")
	vxAssert(!bad1, "the threaded call is accepted")
	vxAssert(vxDumpPackage(a) == vxDumpPackage(b), "threaded and nested calls mean the same")
	vxCover("compared")
}

func vhC10Chain() {
	last := vxBool("last")
	steps := 1 + vxChoice("steps", vxParam("steps"))
	start := vhC10Leaf()
	vhC10Compare(vhC10Steps(last, start, start, steps, vxParam("extra"), true))
}

// vhC10Nest: a chain as the start or as an argument of another chain.
func vhC10Nest() {
	inner, innernested := vhC10Steps(vxBool("lastinner"), "x", "x", 1+vxChoice("steps", vxParam("steps")), 1, false)
	last := vxBool("last")
	steps := 1 + vxChoice("steps2", vxParam("steps"))
	if vxBool("start") {
		vhC10Compare(vhC10Steps(last, inner, innernested, steps, 1, false))
		return
	}
	form, nested := vhC10Steps(last, "y", "y", steps, 0, false)
	if last {
		vhC10Compare(form[:len(form)-2]+" "+inner+"))", "(f"+vxDumpInt(steps-1)+" "+innernested+nested[3:])
	} else {
		vhC10Compare(form[:len(form)-2]+" "+inner+"))", nested[:len(nested)-1]+" "+innernested+")")
	}
}

// vhC10Last: a chain that does not end in a call is reported.
func vhC10Last() {
	arrow := vxPick("arrow", "<-", "<<-")
	end := vxPick("end", "x", "5", "\"t\"", ":kw")
	mid := vxPick("mid", "", " (f)", " (f 1) (g)")
	_, bad := vxPackage("(package p)\n(const c : any (" + arrow + " a" + mid + " " + end + "))")
	vxAssert(bad, "a chain that ends in no call is reported")
	vxCover("reported")
}

// vhC10Long: long chains whose steps have none to two further arguments.
func vhC10Long() {
	last := vxBool("last")
	form, nested := "(<- x", "x"
	if last {
		form = "(<<- x"
	}
	steps := 1 + vxChoice("steps", vxParam("steps"))
	for i := 0; i < steps; i++ {
		name := "f" + vxDumpInt(i)
		args := ""
		for n := vxChoice("extra", 3); n > 0; n-- {
			args += " a" + vxDumpInt(i) + vxDumpInt(n)
		}
		form += " (" + name + args + ")"
		if last {
			nested = "(" + name + args + " " + nested + ")"
		} else {
			nested = "(" + name + " " + nested + args + ")"
		}
	}
	vhC10Compare(form+")", nested)
}
