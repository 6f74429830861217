package vxlisp

import (
	"os"
	"strings"
)

func init() {
	vxHarness["vhC23Text"] = vhC23Text
	vxHarness["vhC23Name"] = vhC23Name
}

// vxPage is the documentation of a project with a text in a place.
func vxPage(place int, text string) string {
	lit := "\n\"" + text + "\""
	at := func(n int, s string) string {
		if n == place {
			return s
		}
		return ""
	}
	dir := vxGenProject("js", "(package p"+at(0, " :doc"+lit)+")\n"+
		"(type t : struct\n :properties [a : string"+at(1, " :doc"+lit)+" b : int]"+at(2, " :doc"+lit)+at(3, " :test (test"+lit+" 1)")+")\n"+
		"(type l : list :allowtypes [t]"+at(4, " :default"+lit)+")\n"+
		"(const c : string "+at(5, lit)+at(6, "\"x\" :doc"+lit)+at(7, "\"x\" :test (test"+lit+" c)")+")\n"+
		"(func f : string [a : string"+at(8, " :doc"+lit)+" b : int] a"+at(9, " :doc"+lit)+at(10, " :test (test"+lit+" (f \"x\" 1))")+")\n"+
		"(func g : string "+at(11, lit)+at(12, "(f"+lit+" 3)")+")\n")
	prj := "(project demo :version \"1\" :javadomain \"com.demo\"" + at(13, " :doc"+lit) + at(14, " :author"+lit) + " :cmds" +
		"\n (cmd doc :code :doc :path ../doc" + at(15, " :doc"+lit) + at(16, " :main"+lit) + at(17, " :context"+lit) + ")" + at(18, " :paths (path a :path"+lit+")") + ")\n"
	vxAssert(os.WriteFile(dir+"/prj/project.vxlisp", []byte(prj), 0644) == nil, "the project is written")
	msg := ExecuteProjectFromArgs([]string{"vxlisp", "doc", ":path", "prj"})
	vxAssert(!msg.iserror, "the project is accepted")
	b, err := os.ReadFile(dir + "/doc/doc.html")
	vxAssert(err == nil, "the page is written")
	os.RemoveAll(dir)
	return string(b)
}

const vxPagePlaces = 19

// vxSamePage compares two pages, in which a text is put for another.
func vxSamePage(a []vxTok, b []vxTok, text string) {
	vxAssert(len(a) == len(b), "the page has the same structure")
	count := 0
	for i := range a {
		vxAssert(a[i].kind != 'e', "the page can be read")
		vxAssert(a[i].kind == b[i].kind, "the page has the same structure")
		if strings.Contains(a[i].text, "zzq") {
			vxAssert(b[i].text == strings.ReplaceAll(a[i].text, "zzq", text), "the page shows the text as written")
			count++
		} else {
			vxAssert(a[i].text == b[i].text, "the rest of the page is the same")
		}
	}
	vxAssert(count >= 1, "the page shows the text")
}

// Any text in any place of a project.
func vhC23Text() {
	place := vxChoice("place", vxPagePlaces)
	plain := vxHtml(vxPage(place, "zzq"))
	n := vxParam("len")
	text := ""
	newline := false
	for i := 0; i < n; i++ {
		c := vxByte("char")
		vxAssume(c == '\n' || c >= 32 && c < 127 && c != '"' && c != '\\' && !(newline && c == ' '))
		newline = c == '\n'
		text += string([]byte{c})
	}
	vxAssume(!newline)
	page := vxPage(place, text)
	vxTrace(page)
	vxSamePage(plain, vxHtml(page), text)
	vxCover("text")
}

// Any name of a declaration.
func vhC23Name() {
	kind := vxChoice("kind", 5)
	page := func(name string) string {
		text := "(package p)\n(type s : struct :properties [a : string])\n"
		switch kind {
		case 0:
			text += "(func " + name + " : string [a : string] a)\n"
		case 1:
			text += "(type " + name + " : struct :properties [a : string])\n(func g : " + name + " [a : " + name + "] a)\n(type t : list :allowtypes [" + name + "])\n"
		case 2:
			text += "(const " + name + " : string \"x\")\n"
		case 3:
			text += "(func g : string [" + name + " : string] " + name + ")\n"
		default:
			text += "(type t : struct :properties [" + name + " : string])\n"
		}
		dir := vxGenProject("js", text)
		msg := ExecuteProjectFromArgs([]string{"vxlisp", "doc", ":path", "prj"})
		vxAssert(!msg.iserror, "the project is accepted")
		b, err := os.ReadFile(dir + "/doc/doc.html")
		vxAssert(err == nil, "the page is written")
		os.RemoveAll(dir)
		return string(b)
	}
	plain := vxHtml(page("zzq"))
	name := "z" + vxStrIn("name", vxParam("len"), "a<>&;-")
	vxAssume(!strings.HasSuffix(name, "-"))
	code := page(name)
	vxTrace(code)
	vxSamePage(plain, vxHtml(code), name)
	vxCover("name")
}
