package vxlisp

import (
	"strings"
)

func init() {
	vxHarness["vhC37App"] = vhC37App
	vxHarness["vhC37Runner"] = vhC37Runner
}

// vxAppCore are library functions an application starts with.
const vxAppCore = "(type anylist : list :allowtypes [any])\n(type context)\n" +
	"(func main : string [args : anylist :...])\n" +
	"(func context-main : context [args : anylist :...])\n" +
	"(func cm : string [args : anylist :...])\n" +
	"(func cc : context [args : anylist :...])\n"

// vxCallAt is a call of a function in generated code: where, what it is
// assigned to, and its arguments.
type vxCallAt struct {
	at     int
	target string
	await  bool
	args   string
}

// vxCallsOf are the calls of a function of a package.
func vxCallsOf(lang string, toks []vxTok, pkg string, name string) []vxCallAt {
	dot := "."
	if lang == "cpp" {
		dot = ":"
	}
	var out []vxCallAt
	short := pkg[strings.LastIndex(pkg, "/")+1:]
	long := strings.ReplaceAll(pkg, "/", "_")
	for i := 1; i+1 < len(toks); i++ {
		if toks[i].text != name || toks[i+1].text != "(" {
			continue
		}
		j := i - 1
		for j > 0 && toks[j].text == dot {
			j--
		}
		from := strings.ToLower(toks[j].text)
		if j == i-1 || from != short && from != long {
			continue
		}
		for j > 1 && toks[j-1].text == "." {
			j -= 2
		}
		c := vxCallAt{at: i}
		j--
		if toks[j].text == "await" {
			c.await = true
			j--
		}
		if toks[j].text == "=" {
			c.target = vxTargetOf(toks, j)
		}
		for k := i + 2; toks[k].text != ")"; k++ {
			if toks[k].text != "." {
				c.args += toks[k].text + " "
			}
		}
		out = append(out, c)
	}
	return out
}

// vxTargetOf is the variable assigned to by a "=", which may have a type after it.
func vxTargetOf(toks []vxTok, eq int) string {
	for j := eq - 1; j > 0; j-- {
		t := toks[j]
		if t.kind == 'w' && toks[j-1].kind == 'w' && toks[j+1].text == ":" && toks[j+2].text != ":" {
			return t.text // var name : type =
		}
		if t.kind != 'w' && t.text != "." && t.text != "<" && t.text != ">" && t.text != ":" {
			break
		}
	}
	return toks[eq-1].text
}

// vxDeclared checks that variables are declared once and before they are used.
func vxDeclared(toks []vxTok, vars string) {
	known := map[string]bool{}
	for i := 1; i+1 < len(toks); i++ {
		t := toks[i]
		if t.kind != 'w' || !strings.Contains(vars, " "+t.text+" ") || toks[i-1].text == "." {
			continue
		}
		next := toks[i+1].text
		declares := (toks[i-1].kind == 'w' && toks[i-1].text != "return" && toks[i-1].text != "await" || toks[i-1].text == ">") &&
			(next == "=" || next == ":" && toks[i+2].text != ":")
		if declares {
			vxAssert(!known[t.text], "a variable is declared once")
			known[t.text] = true
		} else if toks[i-1].text == "(" && toks[i-2].text == "f_main" && toks[i-3].text == "async" {
			known[t.text] = true // a parameter
		} else {
			vxTrace(t.text)
			vxAssert(known[t.text], "a variable is declared before it is used")
		}
	}
}

// vxSync checks that the result of a call goes to a variable, when it is
// there in case of an asynchronous function, and returns the variable.
func vxSync(lang string, toks []vxTok, c vxCallAt, async bool) string {
	vxAssert(c.target != "", "the result is kept")
	if lang == "js" {
		vxAssert(c.await == async, "an asynchronous function is waited for")
		return c.target
	}
	if !async {
		return c.target
	}
	for _, s := range vxCallsOf(lang, toks, "vx/core", "vx_sync_from_async") {
		if s.at > c.at && strings.HasSuffix(s.args, ", "+c.target+" ") {
			return s.target
		}
	}
	vxAssert(false, "an asynchronous function is waited for")
	return ""
}

// vxAppNames are a function that starts or prepares an application: its
// package, its name, and what it is in the project file and the package.
func vxAppName(what string, lang string, name string, typ string, def string, async string, ctx string) (pkg string, fn string, prop string, decl string) {
	own := vxGenName(lang)
	switch vxChoice(what, 3) {
	case 0:
		return "vx/core", "f_" + def, "", ""
	case 1:
		return "vx/core", "f_c" + name, " :" + what + " vx/core/c" + name, ""
	}
	return own, "f_d" + name, " :" + what + " " + own + "/d" + name,
		"(func d" + name + " : " + typ + " [args : anylist :...]" + async + ctx + ")\n"
}

// The application calls the named functions, or those of the library.
func vhC37App() {
	lang := vxGenLangs[vxChoice("lang", 6)]
	isasync, iscontext, isasync2 := vxBool("async"), vxBool("context"), vxBool("async2")
	flag := func(b bool, s string) string {
		if b {
			return s
		}
		return ""
	}
	mpkg, mfn, mprop, mdecl := vxAppName("main", lang, "m", "string", "main", flag(isasync, " :async"), flag(iscontext, " :context"))
	cpkg, cfn, cprop, cdecl := vxAppName("context", lang, "c", "context", "context_main", flag(isasync2, " :async"), "")
	vxAssume(mdecl != "" || !isasync && !iscontext)
	vxAssume(cdecl != "" || !isasync2)
	vxGenMore, vxGenCmd = vxAppCore, mprop+cprop
	file := map[string]string{"js": "src/app.js", "java": "src/App.java", "cpp": "src/app.cpp", "csharp": "src/App/App.cs",
		"kotlin": "src/App.kt", "swift": "src/App/App.swift"}[lang]
	code := vxGenerateFiles(lang, "(package p)\n"+mdecl+cdecl, "src", file)[0]
	vxGenMore, vxGenCmd = "", ""
	vxTrace(code)
	if i := strings.Index(code, "static async f_htmlmain"); lang == "js" && i >= 0 {
		code = code[:i] // another function, with names of its own
	}
	toks := vxTokens(lang, code)
	for _, t := range toks {
		vxAssert(t.kind != 'e', "the code can be read")
	}
	ms := vxCallsOf(lang, toks, mpkg, mfn)
	cs := vxCallsOf(lang, toks, cpkg, cfn)
	vxAssert(len(ms) == 1, "the main function is called once")
	vxAssert(len(cs) == 1 && cs[0].at < ms[0].at, "the context is made once, before")
	vxAssert(cs[0].args == "arglist ", "the context is made from the arguments")
	want := "arglist "
	if iscontext {
		want = "context , arglist "
	}
	vxAssert(ms[0].args == want, "the main function gets the context, if it takes one, and the arguments")
	ctx := vxSync(lang, toks, cs[0], isasync2)
	vxAssert(ctx == "context", "the context is the one made")
	out := vxSync(lang, toks, ms[0], isasync)
	vxDeclared(toks, " context arglist asynccontext asyncstring mainval "+out+" ")
	used := false
	toks = append(toks, vxTok{'e', ""}, vxTok{'e', ""}, vxTok{'e', ""})
	for i := ms[0].at; i+3 < len(toks); i++ {
		if toks[i].text == out {
			used = used || lang == "js" && toks[i-1].text == "return" ||
				toks[i+1].text == "." && toks[i+2].text == "vx_string" ||
				toks[i+1].text == "-" && toks[i+2].text == ">" && toks[i+3].text == "vx_string"
		}
	}
	vxAssert(used, "the result of the main function is the output")
	if lang == "js" {
		vxAssert(strings.Count(code, "import ") == strings.Count(code, "\nimport "), "every import is a line")
		vxAssert(strings.Count(code, "import p from \"../src/p.js\"") == vxCountOf(mdecl != "" || cdecl != ""), "the package of a function is imported once")
	}
	if lang == "cpp" {
		vxAssert(strings.Count(code, "#include \"p.hpp\"\n") == vxCountOf(mdecl != "" || cdecl != ""), "the package of a function is included once")
	}
	vxCover(lang)
}

func vxCountOf(b bool) int {
	if b {
		return 1
	}
	return 0
}

// The test application runs the tests of every package.
func vhC37Runner() {
	lang := vxGenLangs[vxChoice("lang", 6)]
	isasync := vxBool("async")
	async := ""
	if isasync {
		async = " :async"
	}
	cpkg, cfn, cprop, cdecl := vxAppName("context", lang, "c", "context", "", async, "")
	vxAssume(cdecl != "" || !isasync)
	if cprop == "" {
		cpkg, cfn = "vx/test", "f_context_test"
		if lang == "js" {
			cpkg, cfn = "vx/core", "f_context_main"
		}
	}
	vxGenMore, vxGenCmd = vxAppCore, cprop
	file := map[string]string{"js": "test/app_test.js", "java": "test/AppTest.java", "cpp": "test/app_test.cpp", "csharp": "test/AppTest/AppTest.cs",
		"kotlin": "test/AppTest.kt", "swift": "test/AppTest/AppTest.swift"}[lang]
	code := vxGenerateFiles(lang, "(package p)\n(type t)\n"+cdecl, "test", file)[0]
	vxGenMore, vxGenCmd = "", ""
	vxTrace(code)
	toks := vxTokens(lang, code)
	for _, t := range toks {
		vxAssert(t.kind != 'e', "the code can be read")
	}
	runs := ""
	for i, t := range toks {
		if t.text == "test_package" && toks[i+1].text == "(" && toks[i+2].text == "context" {
			j := i - 1
			for toks[j].text == "." || toks[j].text == ":" {
				j--
			}
			runs += strings.ToLower(toks[j].text) + " "
		}
	}
	vxTrace(runs)
	counts := map[string]int{}
	for _, run := range strings.Fields(runs) {
		counts[run]++
	}
	vxAssert(len(counts) == 3, "the tests of every package are run")
	for run, n := range counts {
		vxTrace(run)
		vxAssert(n*3 == strings.Count(runs, " "), "the tests of a package are run like those of every other one")
	}
	cs := vxCallsOf(lang, toks, cpkg, cfn)
	vxAssert(len(cs) == 1, "the context is made once")
	vxAssert(cs[0].args == "arglist ", "the context is made from the arguments")
	ctx := vxSync(lang, toks, cs[0], isasync)
	vxAssert(ctx == "context", "the context is the one made")
	if lang == "js" {
		vxAssert(strings.Count(code, "import ") == strings.Count(code, "\nimport "), "every import is a line")
	}
	vxCover(lang)
}
