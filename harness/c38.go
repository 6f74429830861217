package vxlisp

import (
	"os"
	"strings"
)

func init() {
	vxHarness["vhC38Func"] = vhC38Func
	vxHarness["vhC38Type"] = vhC38Type
	vxHarness["vhC38File"] = vhC38File
	vxHarness["vhC38Order"] = vhC38Order
}

const vxNativeCore = "(type anylist : list :allowtypes [any])\n(func native : any-1 [clauses : anylist :...])\n"

// vxNativeText is some native code, as it is written and as it has to come out
// with single spaces for all space.
func vxNativeText(form int, tail string, name string) (string, string) {
	switch form {
	case 1:
		return name + "(“x”)", name + "(\"x\")"
	case 2:
		return name + "(\\\"x\\\")", name + "(\"x\")"
	case 3:
		return name + "(\n    x, // y\n     z)", name + "( x, // y z)"
	case 4:
		return name + "(:js, :else)", name + "(:js, :else)"
	}
	return name + "(" + tail + ")", name + "(" + tail + ")"
}

// vxFlat has single spaces for all space.
func vxFlat(s string) string {
	return strings.Join(strings.Fields(s), " ")
}

// vxOnly checks that generated code has one native text and no other.
func vxOnly(code string, want string) {
	code = vxFlat(code)
	i := strings.Index(code, "qz")
	if want == "" {
		vxAssert(i < 0, "native code of other languages is left out")
		return
	}
	vxAssert(i >= 0, "the native code of the language is there")
	vxAssert(strings.HasPrefix(code[i:], vxFlat(want)), "native code is as written")
	vxAssert(!strings.Contains(code[i+2:], "qz"), "native code is there once")
}

// vxNative is a clause of native code of several languages and the text that
// belongs to one of them.
func vxNative(lang string) (string, string) {
	text, want, found := "(native", "", false
	form := vxChoice("form", 5)
	tail := ""
	if form == 0 {
		tail = vxStrIn("tail", 1, "a (=.<&:/'")
	}
	gap := vxPick("gap", " ", "\n  ")
	keys := append([]string{"else"}, vxGenLangs...)
	used := map[string]bool{}
	n := 1 + vxChoice("clauses", vxParam("clauses"))
	for i := 0; i < n; i++ {
		key := keys[vxChoice("key", len(keys))]
		vxAssume(!used[key] && !used["else"])
		used[key] = true
		written, flat := vxNativeText(form, tail, "qz"+string([]byte{byte('a' + i)}))
		if key == lang || key == "else" && !found {
			want, found = flat, true
		}
		if key == "cpp" && vxNativeMark != "" {
			written = vxNativeMark + written
		}
		text += gap + ":" + key + " \"" + written + "\""
	}
	return text + ")", want
}

// vxNativeMark is written before native code of C++.
var vxNativeMark string

// Native code as the body of a function.
func vhC38Func() {
	lang := vxGenLangs[vxChoice("lang", 5)]
	native, want := vxNative(lang)
	vxAssume(want != "") // else code is made up for the function
	vxGenMore = vxNativeCore
	files := vxGenFiles(lang)
	text := "(package p)\n(func fa : string [a : string]\n " + native + ")\n"
	vxTrace(text)
	code := strings.Join(vxGenerateFiles(lang, text, "src", files[:len(files)-1]...), "\n")
	vxGenMore = ""
	vxOnly(code, want)
	vxCover(lang)
}

// Native code of a type.
func vhC38Type() {
	lang := vxGenLangs[1+vxChoice("lang", 4)] // a type is no class in JavaScript
	vxNativeMark = vxPick("mark", "", "// :body\n   ")
	native, want := vxNative(lang)
	vxNativeMark = ""
	vxGenMore = vxNativeCore
	files := vxGenFiles(lang)
	text := "(package p)\n(type ta\n :create\n  " + native + ")\n"
	vxTrace(text)
	code := strings.Join(vxGenerateFiles(lang, text, "src", files[:len(files)-1]...), "\n")
	vxGenMore = ""
	vxOnly(code, want)
	vxCover(lang)
}

// Files of native code next to a package.
func vhC38File() {
	lang := vxGenLangs[vxChoice("lang", 5)]
	want := ""
	vxGenExtra = nil
	tail := vxStrIn("tail", 1, "a\"\\<\t;")
	other := vxChoice("other", len(vxGenLangs)+2)
	for i, l := range vxGenLangs {
		if l != lang && i != other && other != len(vxGenLangs) {
			continue
		}
		text := "qz" + string([]byte{byte('a' + i)}) + "(\"x\",\n\t'\\'" + tail + ")"
		if l == lang {
			switch vxChoice("own", 3) {
			case 0:
				continue
			case 1:
				text += "\r\n"
			}
			want = text
		}
		if l == "cpp" {
			text = "// :headerfirst\n// :headertype\n// :headerfunc\n// :header\n" + vxPick("part", text+"\n// :body\n", "// :body\n"+text)
		}
		vxGenExtra = append(vxGenExtra, [2]string{vxGenName(lang) + "_" + l + ".txt", text})
	}
	files := vxGenFiles(lang)
	vxGenSub = vxBool("sub")
	code := strings.Join(vxGenerateFiles(lang, "(package p)\n(type ta)\n", "src", files[:len(files)-1]...), "\n")
	vxGenExtra, vxGenSub = nil, false
	vxOnly(code, want)
	vxCover(lang)
}

// The order of types and functions that the native file of C++ asks for.
func vhC38Order() {
	names := [2][3]string{{"ta", "tb", "tc"}, {"fa", "fb", "fc"}}
	file := "// :headerfirst\n"
	var order [2][]string
	missing := false
	for k, head := range []string{"// :headertype\n", "// :headerfunc\n"} {
		file += head
		n := vxChoice("listed", 1+vxParam("listed"))
		for i := 0; i < n; i++ {
			name := vxPick("name", "zz", names[k][0], names[k][1], names[k][2])
			for _, o := range order[k] {
				vxAssume(o != name)
			}
			order[k] = append(order[k], name)
			missing = missing || name == "zz"
			file += name + "\n" + vxPick("gap", "", "\n")
		}
	}
	file += "// :header\n// :body\n"
	vxTrace(file)
	vxGenExtra = [][2]string{{"p_cpp.txt", file}}
	dir := vxGenProject("cpp", "(package p)\n(type ta)\n(type tb)\n(type tc)\n"+
		"(func fa : ta [a : ta] a)\n(func fb : ta [a : ta] a)\n(func fc : ta [a : ta] a)\n")
	vxGenExtra = nil
	msg := ExecuteProjectFromArgs([]string{"vxlisp", "src", ":path", "prj"})
	vxAssert(msg.iserror == missing, "exactly names that are not of the package are errors")
	if missing {
		vxCover("error")
		os.RemoveAll(dir)
		return
	}
	b, err := os.ReadFile(dir + "/src/p.hpp")
	os.RemoveAll(dir)
	vxAssert(err == nil, "the file is generated")
	toks := vxTokens("cpp", string(b))
	for k := range names {
		at := map[string]int{}
		for i := 0; i+2 < len(toks); i++ {
			if toks[i].text != "class" || toks[i+2].text == ";" {
				continue
			}
			for _, name := range names[k] {
				if toks[i+1].text == "Class_"+name {
					vxAssert(at[name] == 0, "a class is there once")
					at[name] = i + 1
				}
			}
		}
		for _, name := range names[k] {
			vxAssert(at[name] > 0, "each class is there")
		}
		for i, name := range order[k] {
			for _, later := range names[k] {
				before := false
				for _, o := range order[k][:i+1] {
					before = before || o == later
				}
				vxAssert(before || at[name] < at[later], "classes are in the order asked for")
			}
		}
	}
	vxCover("ordered")
}
