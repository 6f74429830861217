package vxlisp

import (
	"os"
	"path/filepath"
	"strings"
)

func init() {
	vxHarness["vhC22Generate"] = vhC22Generate
	vxHarness["vhC22Messages"] = vhC22Messages
}

// vxOrdered has several declarations of each kind, and a choice among what they use.
func vxOrdered() (string, string) {
	lib := "(package k/b)\n(type u : struct :properties [b : string a : int])\n(const e : string \"x\")\n(func i : string [b : u] e)\n"
	text := "(package p :libs (lib kb :path k/b) (lib kc :path k/b))\n"
	switch vxChoice("program", 4) {
	case 0: // types
		text += "(type t2 : struct :properties [y : string x : kb/u w : int] :test (test \"x\" \"y\"))\n(type t1 : list :allowtypes [t2 string])\n" +
			"(type t3 : struct :traits [t2] :properties [y : string x : kb/u w : int])\n"
	case 1: // constants
		text += "(const c2 : string \"b\" :test (test \"x\" c2))\n(const c1 : string \"a\")\n(const c3 : int 3 :test (test 3 c3))\n"
	case 2: // functions and overloads
		text += "(func f2 : string [b : string a : int] kb/e :test (test \"x\" (f2 \"y\" 2)))\n(func f1 : string [b : kb/u] (kc/i b))\n" +
			"(func f1 : string [b : string] (f2 b 3))\n(func f3 : string [c : string] (let : string [z : string := c y : string := z] (f2 y 2)))\n"
	default: // generics and lambdas
		text += "(func g1 : any-1 [b : any-2 a : any-1 c : any-3] a)\n(func g2 : any-2 [generic-any : any-2 a : any-1 f : any<-any] (g1 1 a \"x\"))\n" +
			"(func g3 : string [b : string a : string] (g2 a b (fn : any [z : any] (g1 z a b))))\n"
	}
	return lib, text
}

// vxAllFiles is the text of all the files in a folder.
func vxAllFiles(dir string) string {
	out := ""
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			b, _ := os.ReadFile(path)
			out += strings.TrimPrefix(path, dir) + "\n" + string(b) + "\n"
		}
		return nil
	})
	return out
}

// vxCompileAll runs a command of a project of two packages and returns all it writes.
func vxCompileAll(lang string, lib string, text string, cmd string, order int) string {
	dir := vxGenProject(lang, text)
	ok := os.MkdirAll(dir+"/prj/k", 0755) == nil && os.WriteFile(dir+"/prj/k/b.vxlisp", []byte(lib), 0644) == nil
	vxAssert(ok, "the package is written")
	vxMapOrder(order)
	msg := ExecuteProjectFromArgs([]string{"vxlisp", cmd, ":path", "prj"})
	vxMapOrder(0)
	out := strings.ReplaceAll(StringFromMsgblock(msg), dir, "") + vxAllFiles(dir+"/"+cmd)
	os.RemoveAll(dir)
	return out
}

// The generated files are the same for any order of the maps.
func vhC22Generate() {
	lib, text := vxOrdered()
	cmd := vxPick("cmd", "doc", "src", "test")
	lang := vxGenLangs[0]
	if cmd != "doc" {
		lang = vxGenLangs[vxChoice("lang", len(vxGenLangs))]
	}
	once := vxCompileAll(lang, lib, text, cmd, 0)
	vxAssert(strings.Contains(once, "f_") || cmd != "src", "code is generated")
	again := vxCompileAll(lang, lib, text, cmd, vxParam("orders"))
	vxAssert(once == again, "the output is the same")
	vxCover(cmd)
}

// The messages are the same for any order of the maps.
func vhC22Messages() {
	lib, text := vxOrdered()
	lib += "(func k2 : nope (none 1))\n(func k1 : nope2 [a : zip] a)\n"
	text += "(func e3 : string (none 2 a) :test (none 3))\n(func e1 : zip [a : string] a)\n(const e2 : nope 1)\n(const e4 : nope 1)\n" +
		"(type t5 : struct :traits [zip] :properties [a : zip])\n(type t4 : list :allowtypes [zap])\n"
	once := vxCompileAll("js", lib, text, "src", 0)
	vxAssert(strings.Contains(once, "none"), "errors are reported")
	again := vxCompileAll("js", lib, text, "src", vxParam("orders"))
	vxAssert(once == again, "the messages are the same")
	vxCover("messages")
}
