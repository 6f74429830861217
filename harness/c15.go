package vxlisp

func init() {
	vxHarness["vhC15Order"] = vhC15Order
	vxHarness["vhC15Project"] = vhC15Project
	vxHarness["vhC15Chain"] = vhC15Chain
}

func vhC15Order() {
	m := vxParam("m")
	missing := vxParam("missing") > 0
	names := []string{"a", "b/c", "c", "d", "e"}[:m]
	std := vxBool("std") // with the standard packages, which every package uses
	var list []*vxpackage
	var edges [5][5]bool
	gap := false
	for i, n := range names {
		text := "(package " + n + " :libs"
		if i == 0 && vxBool("native") {
			text += " (lib ext)"
		}
		for j := range names {
			// a later package may be listed twice under two names
			if vxBool("uses") {
				edges[i][j] = true
				text += " (lib l" + vxDumpInt(j) + " :path " + names[j] + ")"
			}
		}
		if missing && vxBool("missing") {
			gap = true
			text += " (lib q :path nowhere)"
		}
		pkg, bad := vxPackage(text + ")")
		vxAssert(!bad, "the package is accepted")
		if !std {
			pkg.listlib = pkg.listlib[2:]
		}
		list = append(list, pkg)
	}
	if std {
		core, _ := vxPackage("(package vx/core)")
		core.listlib = nil
		test, _ := vxPackage("(package vx/test)")
		at := vxChoice("at", m+1)
		list = append(list[:at:at], append([]*vxpackage{test, core}, list[at:]...)...)
	}
	prj := NewProject("p")
	prj.listlib = []*vxlibrary{{name: "ext", path: "ext/path", lang: ":js"}}
	want := gap || vxCycle(m, edges)
	count := len(list)
	list, msg1 := ListPackageValidateLibraries(list, prj)
	vxAssert(len(list) == count, "no package is lost")
	vxAssert(!gap || msg1.iserror, "a library that does not exist is reported")
	out, msg2 := ListPackageSortDependencies(list)
	order := ""
	for _, p := range out {
		order += p.name + " "
	}
	vxObserve("order", order)
	vxAssert((msg1.iserror || msg2.iserror) == want, "an error is reported exactly for cycles and gaps")
	if want {
		vxCover("error")
		return
	}
	vxAssert(len(out) == count, "every package comes once")
	for i, p := range out {
		for j, q := range out {
			vxAssert(i == j || p != q, "no package comes twice")
		}
		for _, lib := range p.listlib {
			if lib.lang != "" || lib.path == "vx/test" {
				continue
			}
			found := false
			for _, q := range out[:i] {
				if q.name == lib.path {
					found = true
				}
			}
			vxAssert(found, "every package comes after its libraries")
		}
	}
	vxCover("ordered")
}

// vxCycle tells whether some of m packages use each other in a circle: it
// peels off packages without open libraries.
func vxCycle(m int, edges [5][5]bool) bool {
	var done [5]bool
	left := m
	for r := 0; r < m; r++ {
		for i := 0; i < m; i++ {
			ok := !done[i]
			for j := 0; j < m; j++ {
				ok = ok && (!edges[i][j] || done[j])
			}
			if ok {
				done[i] = true
				left--
			}
		}
	}
	return left > 0
}

// A project, possibly of projects, with packages that use each other.
func vhC15Project() {
	names := []string{"p", "b", "a/c"}
	m := vxParam("m")
	var texts [3]string
	var edges [5][5]bool
	gap := false
	for i := 0; i < m; i++ {
		text := "(package " + names[i] + " :libs"
		for j := 0; j < m; j++ {
			if vxBool("uses") {
				edges[i][j] = true
				text += " (lib l" + vxDumpInt(j) + " :path " + names[j] + ")"
			}
		}
		if i == 0 && vxBool("missing") {
			gap = true
			text += " (lib q :path nowhere)"
		}
		texts[i] = text + ")\n(type t" + vxDumpInt(i) + ")\n"
		for j := 0; j < m; j++ {
			if edges[i][j] && i != j {
				texts[i] += "(func f" + vxDumpInt(j) + " : t" + vxDumpInt(j) + ")\n"
			}
		}
	}
	vxErrorMore = nil
	for i := 1; i < m; i++ {
		vxErrorMore = append(vxErrorMore, [2]string{names[i] + ".vxlisp", texts[i]})
	}
	vxErrorSub = vxBool("sub")
	iserror, _ := vxProjectErrors(texts[0])
	vxErrorSub, vxErrorMore = false, nil
	vxAssert(iserror == (gap || vxCycle(m, edges)), "an error is reported exactly for cycles and gaps")
	if iserror {
		vxCover("error")
	} else {
		vxCover("accepted")
	}
}

// Longer chains: every package uses at most one other.
func vhC15Chain() {
	m := 1 + vxChoice("m", vxParam("m"))
	var list []*vxpackage
	uses := make([]int, m)
	for i := range uses {
		uses[i] = vxChoice("uses", m+1) - 1
		text := "(package p" + vxDumpInt(i)
		if uses[i] >= 0 {
			text += " :libs (lib l :path p" + vxDumpInt(uses[i]) + ")"
		}
		pkg, bad := vxPackage(text + ")")
		vxAssert(!bad, "the package is accepted")
		pkg.listlib = pkg.listlib[2:]
		list = append(list, pkg)
	}
	cycle := false
	for i := range uses {
		k := i
		for n := 0; n < m && k >= 0; n++ {
			k = uses[k]
		}
		cycle = cycle || k >= 0
	}
	list, msg1 := ListPackageValidateLibraries(list, NewProject("p"))
	out, msg2 := ListPackageSortDependencies(list)
	vxAssert((msg1.iserror || msg2.iserror) == cycle, "an error is reported exactly for cycles")
	if cycle {
		vxCover("error")
		return
	}
	vxAssert(len(out) == m, "every package comes once")
	at := map[string]int{}
	for i, p := range out {
		at[p.name] = i + 1
	}
	for i, k := range uses {
		here := at["p"+vxDumpInt(i)]
		vxAssert(here > 0, "every package is there")
		vxAssert(k < 0 || at["p"+vxDumpInt(k)] < here, "every package comes after its libraries")
	}
	vxCover("ordered")
}
