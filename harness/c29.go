package vxlisp

import (
	"os"
)

func init() {
	vxHarness["vhC29Decl"] = vhC29Decl
	vxHarness["vhC29Expr"] = vhC29Expr
	vxHarness["vhC29Cycle"] = vhC29Cycle
	vxHarness["vhC29Generate"] = vhC29Generate
}

const vxTotalCore = "(package vx/core)\n" +
	"(type any)\n(type boolean)\n(type int)\n(type string)\n(type arg)\n(type arglist : list :allowtypes [arg])\n(type anylist : list :allowtypes [any])\n(type thenelse : struct :properties [code : string])\n(type thenelselist : list :allowtypes [thenelse])\n" +
	"(const true : boolean)\n(const false : boolean)\n" +
	"(func any<-func : any-1)\n(func any<-any : any-1 [value : any-2])\n" +
	"(func let : any-1 [args : arglist fn-any : any<-func])\n" +
	"(func fn : any-1 [parameters : arglist fn-any : any<-func])\n" +
	"(func copy : any-1 [value : any-1 values : anylist :...])\n" +
	"(func new<-type : any-1 [type : any-1 values : anylist :...])\n" +
	"(func empty : any-1 [type : any-1])\n" +
	"(func any<-list : any-1 [values : list-1 index : int])\n" +
	"(func any<-map : any-1 [valuemap : map-1 key : string])\n" +
	"(func any<-struct : any-1 [vstruct : struct-2 key : string])\n" +
	"(func if : any-1 [clause : boolean then : any-1])\n(func if : any-1 [thenelselist : thenelselist :...])\n" +
	"(type list : list :allowtypes [any])\n(type map : map :allowtypes [any])\n(type struct : struct)\n"

// vxTotal reads, links and validates the packages of a program.
func vxTotal(text string) bool {
	vxTrace(text)
	list := vxStandard(vxTotalCore)
	pkg, bad := vxPackage(text)
	if bad {
		return false
	}
	return !vxCompile(append(list, pkg))
}

// Declarations of any parts in any order.
func vhC29Decl() {
	text := "(package p)\n(type t : struct :properties [a : string])\n(func h : string [a : string] a)\n("
	text += vxPick("kind", "func", "type", "const", "package", "other")
	parts := []string{" x", " :", " string", " t", " []", " [a]", " [a : string]", " [a : string :default]", " ()", " (h)", " (h \"q\")", " (x)", " \"q\"", " 5", " any-1", " ::", " :...", " :=", " -1", " <-",
		" :doc", " :test", " :properties", " :allowtypes", " :allowvalues", " :traits", " :default", " :extends", " :alias", " :async", " :lib", " :libs", " :convert", " [[a]]", " [(h)]", " (native)", " (native :js)", " (native :js 5)", " :deprecated", " :context"}
	for i, n := 0, vxChoice("count", vxParam("parts")+1); i < n; i++ {
		text += parts[vxChoice("part", len(parts))]
	}
	if vxTotal(text + ")\n") {
		vxCover("accepted")
	} else {
		vxCover("rejected")
	}
}

// vxAnyExpr is a call of anything with any parts.
func vxAnyExpr(depth int, max int) string {
	heads := []string{"(let", "(fn", "(copy", "(h", "(<-", "(<<-", "(native", "(t", "(l", "(any<-list", "(any<-struct", "(x", "(c", "(a", "(if", "(new<-type", "(empty", "(", "(\"q\"", "(:a", "((h)", "([a]", "(m"}
	out := heads[vxChoice("head", len(heads))]
	parts := []string{" a", " \"q\"", " t", " :a", " [z : string := \"q\"]", " :", " ()", " []", " [z]", " x", " h", " 5", " [z : string]", " : string", " : any-1", " [z : string := a w : int := z]", " [[z]]", " :js", " /", " [z : string :=]"}
	n := vxChoice("args", max+1)
	for i := 0; i < n; i++ {
		c := 0
		if depth > 0 {
			c = vxChoice("arg", len(parts)+1)
		} else {
			c = vxChoice("arg", len(parts))
		}
		if c == len(parts) {
			out += " " + vxAnyExpr(depth-1, max)
		} else {
			out += parts[c]
		}
	}
	return out + ")"
}

// Expressions of any form as the body of a function, a constant or a test.
func vhC29Expr() {
	text := "(package p)\n(type t : struct :properties [a : string])\n(type l : list :allowtypes [t])\n(func h : string [a : string] a)\n(func m : string [k : any<-any])\n(const c : string \"q\")\n"
	expr := vxAnyExpr(vxParam("depth"), vxParam("args"))
	switch vxChoice("place", 3) {
	case 0:
		text += "(func f : string [a : string] " + expr + ")\n"
	case 1:
		text += "(func f : any-1 [a : any-1]\n :test (test \"q\" " + expr + "))\n"
	default:
		text += "(const d : t " + expr + ")\n"
	}
	if vxTotal(text) {
		vxCover("accepted")
	} else {
		vxCover("rejected")
	}
}

// Declarations that refer to each other and to themselves.
func vhC29Cycle() {
	text := "(package p)\n"
	types := []string{"t", "u"}[:vxParam("types")]
	funcs := []string{"f", "g"}[:vxParam("funcs")]
	names := append(append([]string{"string"}, types...), funcs...)
	if vxParam("consts") > 0 {
		names = append(names, "c")
	}
	ref := func() string { return names[vxChoice("ref", len(names))] }
	for _, name := range types {
		text += "(type " + name
		switch vxChoice("type", 6) {
		case 0:
			text += " : struct :properties [a : " + ref() + " b : " + ref() + "]"
		case 1:
			text += " : list :allowtypes [" + ref() + "]"
		case 2:
			text += " : " + ref()
		case 3:
			text += " : struct :traits [" + ref() + "]"
		case 4:
			text += " : map :allowtypes [" + ref() + " " + ref() + "]"
		default:
			text += " :allowvalues [" + ref() + "]"
		}
		text += ")\n"
	}
	for _, name := range funcs {
		switch vxChoice("func", 4) {
		case 0:
			text += "(func " + name + " : " + ref() + " [a : " + ref() + "])\n"
		case 1:
			text += "(func " + name + " : " + ref() + " (" + ref() + " " + ref() + "))\n"
		case 2:
			text += "(func " + name + " : " + ref() + " [a : " + ref() + "] (" + ref() + " a))\n"
		default:
			text += "(func " + name + " : string [a : " + ref() + " b : string] (a " + ref() + " b))\n"
		}
	}
	if vxParam("consts") > 0 {
		switch vxChoice("const", 2) {
		case 0:
			text += "(const c : " + ref() + " " + ref() + ")\n"
		default:
			text += "(const c : " + ref() + " (" + ref() + " " + ref() + "))\n"
		}
	}
	if vxTotal(text) {
		vxCover("accepted")
	} else {
		vxCover("rejected")
	}
}

// Code is generated for every accepted package without a crash.
func vhC29Generate() {
	lang := vxGenLangs[vxChoice("lang", 6)]
	text := "(package p)\n(type s : struct :properties [a : string b : int])\n"
	types := []string{"string", "int", "any", "s", "t"}
	some := func() string { return types[vxChoice("of", len(types))] }
	switch vxChoice("kind", 5) {
	case 0:
		text += "(type t" + []string{"", " : struct", " : list", " : map", " : string", " : int", " : s", " : struct :traits [s]", " : any"}[vxChoice("form", 9)] + ")\n"
	case 1:
		text += "(type t : struct :properties [a : " + some() + " b : " + some() + "])\n"
	case 2:
		text += "(type t : " + vxPick("form", "list", "map") + " :allowtypes [" + some() + "])\n"
	case 3:
		types = types[:4]
		text += "(const t : " + some() + vxPick("value", "", " \"q\"", " 5", " -1.5", " :x", " true", " \"\"") + ")\n"
	default:
		types = types[:4]
		text += "(func t : " + some() + vxPick("params", "", " []", " [a : string]", " [a : any-1 b : any-1]", " [a : s :...]") + vxPick("body", "", " \"q\"", " 5", " (t)", " a", " :x", " (native)", " (native :js \"x\" :java \"y\")") + ")\n"
	}
	vxTrace(text)
	dir := vxGenProject(lang, text)
	ExecuteProjectFromArgs([]string{"vxlisp", "src", "test", "doc", ":path", "prj"})
	os.RemoveAll(dir)
	vxCover(lang)
}
