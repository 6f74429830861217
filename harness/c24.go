package vxlisp

import (
	"os"
	"sort"
	"strings"
)

func init() {
	vxHarness["vhC24Source"] = vhC24Source
	vxHarness["vhC24Page"] = vhC24Page
}

// vxDeclText writes a declaration of a kind in two parts, the second of which
// may follow later.
func vxDeclText(kind int, name string) (string, string) {
	switch kind {
	case 0:
		return "(type " + name + " : struct :properties [a : string b : int])\n", ""
	case 1:
		return "(const " + name + " : string \"x\")\n", ""
	case 2:
		return "(func " + name + " : string [a : string] a)\n", ""
	case 3:
		return "(func " + name + " : string [a : string] a)\n", "(func " + name + " : int [b : int] b)\n"
	case 4:
		return "(type " + name + " : list :allowtypes [string])\n", ""
	case 5:
		return "(type " + name + " : map :allowtypes [int])\n", ""
	case 6:
		return "(type " + name + ")\n", ""
	case 7:
		return "(type " + name + " : struct)\n", ""
	case 8:
		return "(const " + name + " : int 3 :test (test 3 " + name + "))\n", ""
	case 9:
		return "(func " + name + " : string \"q\" :test (test \"q\" (" + name + ")))\n", ""
	case 10:
		return "(func " + name + " : string [a : any] (let [x : string := \"z\"] x))\n", ""
	case 11:
		return "(func " + name + " : string [a : string])\n", ""
	case 13:
		return "(func " + name + " : string [a : string] a :deprecated \"d\" :doc \"e\")\n", ""
	case 14:
		return "(type " + name + " : struct :traits [ya] :properties [c : string] :doc \"e\")\n", ""
	case 15:
		return "(func " + name + " : any-1 [a : any-1 b : int] a)\n", ""
	case 16:
		return "(func " + name + " : string [a : string] a :async)\n", ""
	case 17:
		return "(func " + name + " : string [a : string b : yd :...] a)\n", ""
	case 18:
		return "(const " + name + " : ya)\n", ""
	case 19:
		return "(type " + name + " :allowtypes [string int] :deprecated \"d\")\n", ""
	}
	return "(func " + name + " : string [a : string] a :test (test \"q\" (" + name + " \"q\")))\n(func " + name + " : int [b : int] b)\n", "(func " + name + " : string [a : string b : int] a)\n"
}

// vxDeclGeneric is the kind of generic functions, which have templates instead.
const vxDeclGeneric = 15

// vxCount counts the words, other than numbers, and strings of generated code.
func vxCount(toks []vxTok) map[string]int {
	out := map[string]int{}
	for _, t := range toks {
		vxAssert(t.kind != 'e', "the code can be read")
		if t.kind != 'p' && !(t.text != "" && t.text[0] >= '0' && t.text[0] <= '9') {
			out[t.text]++
		}
	}
	return out
}

// vxDefs are the classes and functions that generated code defines for a name.
func vxDefs(lang string, toks []vxTok, name string) []string {
	var out []string
	for i := 1; i+1 < len(toks); i++ {
		text := toks[i].text
		if toks[i].kind != 'w' || !strings.HasSuffix(text, "_"+name) && !strings.Contains(text, "_"+name+"_") || strings.HasSuffix(text, "_generic") {
			continue
		}
		before := toks[i-1].text
		after := toks[i+1].text
		if (before == "class" || before == "interface" || (before == "static" || before == "async") && lang == "js") && after != ";" ||
			strings.HasPrefix(text, "f_") && after == "(" && before != "." && before != ":" && lang != "js" {
			out = append(out, text)
		}
	}
	return out
}

// vxExpectedDefs are the definitions that a declaration of a kind must have.
func vxExpectedDefs(lang string, file int, kind int, name string) []string {
	var types, consts, funcs []string
	switch lang {
	case "js":
		types, consts, funcs = []string{"t_", "e_"}, []string{"c_"}, []string{"t_", "e_", "f_"}
	case "cpp":
		if file == 1 {
			funcs = []string{"f_"}
		} else {
			types, consts, funcs = []string{"Abstract_", "Class_"}, []string{"Class_"}, []string{"f_", "Abstract_", "Class_"}
		}
	case "swift":
		types, funcs = []string{"Type_", "f_"}, []string{"Type_", "f_"}
	default:
		types, consts, funcs = []string{"Type_", "Class_"}, []string{"Const_"}, []string{"Func_", "Class_", "f_"}
	}
	var out []string
	add := func(prefixes []string, ending string) {
		for _, p := range prefixes {
			out = append(out, p+name+ending)
		}
	}
	switch kind {
	case 0, 4, 5, 6, 7, 14, 19:
		add(types, "")
	case 1, 8, 18:
		add(consts, "")
	default:
		add(funcs, "")
		if kind == 3 || kind == 12 {
			add(funcs, "_1")
		}
		if kind == 12 {
			add(funcs, "_2")
		}
	}
	return out
}

// vxCountPage counts the attributes and texts of a page that show one name.
func vxCountPage(toks []vxTok) map[string]int {
	out := map[string]int{}
	for _, t := range toks {
		vxAssert(t.kind != 'e', "the page can be read")
		text := strings.TrimSpace(t.text)
		if (t.kind == 'x' || t.kind == 'v') && !strings.Contains(text, "\n") && text != "," {
			out[text]++
		}
	}
	return out
}

// vxDeclSet checks that a package of several declarations has exactly what the
// packages of each declaration alone have.
func vxDeclSet(count func(string) map[string]int) {
	first := "(package p)\n(type ya : struct :properties [a : string])\n(const yb : string \"x\")\n(func yc : string [a : string] a :test (test \"x\" (yc \"x\")))\n" +
		"(type yd : list :allowtypes [string])\n(type ye : map :allowtypes [int])\n(func yf : string [a : any] (let [x : string := \"z\"] x))\n" +
		"(func yg : string [a : string] a :async)\n(func yh : any-1 [a : any-1] a)\n"
	base := count(first)
	kinds, from := vxParam("kinds"), vxParam("from")
	alone := make([]map[string]int, kinds)
	for k := 0; k < kinds; k++ { // before any choice, so that all share it
		a, b := vxDeclText(from+k, "zzq")
		alone[k] = count(first + a + b)
		vxAssert(len(alone[k]) > len(base), "a declaration is generated")
	}
	n := vxParam("decls")
	text := ""
	last := ""
	names := [][]string{{"za", "zb", "zc", "zd", "ze", "zf", "zg", "zh"}, {"xd", "xc", "xb", "xa"}, {"zb", "z", "zbc", "zab"}}[vxChoice("names", vxParam("names"))]
	expected := map[string]int{}
	for t, c := range base {
		expected[t] = c
	}
	split := vxBool("split")
	k, stride := 0, 0
	if vxParam("many") == 1 {
		k, stride = vxChoice("kind", kinds), vxChoice("stride", 3)
	}
	for i := 0; i < n; i++ {
		if vxParam("many") == 0 {
			k = vxChoice("kind", kinds)
		} else {
			k = (k + stride) % kinds
		}
		a, b := vxDeclText(from+k, names[i])
		text += a
		if split {
			last += b
		} else {
			text += b
		}
		for t, c := range alone[k] {
			if d := c - base[t]; d != 0 {
				t = strings.ReplaceAll(t, "zzq", names[i])
				expected[t] += d
			}
		}
	}
	vxAssume(split == (last != ""))
	if vxBool("before") {
		text = "(package p)\n" + text + last + first[len("(package p)\n"):]
	} else {
		text = first + text + last
	}
	vxTrace(text)
	got := count(text)
	for t, c := range expected {
		vxAssert(got[t] == c, "each declaration is generated once")
	}
	for t, c := range got {
		vxAssert(expected[t] == c, "nothing else is generated")
	}
}

// The generated files of each language.
func vhC24Source() {
	lang := vxGenLangs[vxChoice("lang", len(vxGenLangs))]
	which := vxChoice("file", len(vxGenFiles(lang)))
	vxDeclSet(func(text string) map[string]int {
		toks := vxTokens(lang, vxGenerate(lang, text, which))
		for k := vxParam("from"); which < len(vxGenFiles(lang))-1 && k < vxParam("from")+vxParam("kinds"); k++ {
			if a, b := vxDeclText(k, "zzq"); strings.HasSuffix(text, a+b) && !(lang == "swift" && b != "") && k != vxDeclGeneric {
				got := vxDefs(lang, toks, "zzq")
				expected := vxExpectedDefs(lang, which, k, "zzq")
				sort.Strings(got)
				sort.Strings(expected)
				vxTrace(text + strings.Join(got, " ") + " / " + strings.Join(expected, " "))
				vxAssert(strings.Join(got, " ") == strings.Join(expected, " "), "a declaration is defined once")
			}
		}
		return vxCount(toks)
	})
	vxCover(lang)
}

// The documentation page.
func vhC24Page() {
	vxDeclSet(func(text string) map[string]int {
		dir := vxGenProject("js", text)
		msg := ExecuteProjectFromArgs([]string{"vxlisp", "doc", ":path", "prj"})
		vxAssert(!msg.iserror, "the project is accepted")
		b, err := os.ReadFile(dir + "/doc/doc.html")
		vxAssert(err == nil, "the page is written")
		os.RemoveAll(dir)
		return vxCountPage(vxHtml(string(b)))
	})
	vxCover("page")
}
