package vxlisp

import (
	"os"
	"strings"
)

// vxGenCore and vxGenTest are small library packages to generate code against.
const vxGenCore = "(package vx/core)\n(type any)\n(type int)\n(type string)\n(type arg)\n" +
	"(type arglist : list :allowtypes [arg])\n" +
	"(func any<-func : any-1)\n(func any<-any : any-1 [value : any-2])\n" +
	"(func let : any-1 [args : arglist fn-any : any<-func])\n" +
	"(func fn : any-1 [parameters : arglist fn-any : any<-func])\n"
const vxGenTest = "(package vx/test)\n(type testresult)\n(func test : testresult [expected : any actual : any])\n"

// vxGenMore is what a harness adds to the core package.
var vxGenMore = ""

// vxGenExtra are names and texts of more files of a generated project.
var vxGenExtra [][2]string

// vxGenSub tells that all packages are those of a project within the project.
var vxGenSub bool

// vxGenCmd are more properties of the commands of a generated project.
var vxGenCmd = ""

// vxGenNew are the parts of the core package that make values.
const vxGenNew = "(type anylist : list :allowtypes [any])\n(type struct)\n(type list)\n(type map)\n" +
	"(func empty : any-1 [type : any-1])\n(func new : any-1 [values : anylist :...])\n" +
	"(func any<-struct : any-1 [vstruct : struct-2 key : string])\n(func any<-map : any-1 [valuemap : map-1 key : string])\n" +
	"(func any<-list : any-1 [values : list-1 index : int])\n"

var vxGenLangs = []string{"js", "java", "cpp", "csharp", "kotlin", "swift"}

// The package that is generated; Swift generates only packages of certain names.
func vxGenName(lang string) string {
	if lang == "swift" {
		return "vx/type"
	}
	return "p"
}

// vxGenFiles are the files generated from the package, the last of them for its tests.
func vxGenFiles(lang string) []string {
	switch lang {
	case "js":
		return []string{"src/p.js", "test/p_test.js"}
	case "java":
		return []string{"src/com/demo/P.java", "test/com/demo/PTest.java"}
	case "cpp":
		return []string{"src/p.hpp", "src/p.cpp", "test/p_test.cpp"}
	case "csharp":
		return []string{"src/P.cs", "test/AppTest/Test/PTest.cs"}
	case "kotlin":
		return []string{"src/com/demo/P.kt", "test/com/demo/PTest.kt"}
	}
	return []string{"src/Vx/Type.swift", "test/Vx/TypeTest.swift"}
}

// vxGenProject writes a project with one package of its own.  The text has the
// package's name written as "(package p".
func vxGenProject(lang string, text string) string {
	dir := vxTempDir()
	ok := os.MkdirAll(dir+"/prj/vx", 0755) == nil && os.MkdirAll(dir+"/sub/vx", 0755) == nil && os.Chdir(dir) == nil
	prj := "(project demo :version \"1\" :javadomain \"com.demo\" :cmds" +
		"\n (cmd src :code :source :lang :" + lang + vxGenCmd + " :path ../src)" +
		"\n (cmd test :code :test :lang :" + lang + vxGenCmd + " :path ../test)" +
		"\n (cmd doc :code :doc :path ../doc)"
	of := dir + "/prj/"
	if vxGenSub {
		ok = ok && os.WriteFile(of+"project.vxlisp", []byte(prj+" :projects \""+dir+"/sub\")\n"), 0644) == nil
		of = dir + "/sub/"
		prj = "(project part :version \"1\" :javadomain \"com.demo\""
	}
	prj += ")\n"
	name := vxGenName(lang)
	text = "(package " + name + text[len("(package p"):]
	for _, f := range append([][2]string{
		{"project.vxlisp", prj},
		{"vx/core.vxlisp", vxGenCore + vxGenMore},
		{"vx/test.vxlisp", vxGenTest},
		{name + ".vxlisp", text},
	}, vxGenExtra...) {
		ok = ok && os.WriteFile(of+f[0], []byte(f[1]), 0644) == nil
	}
	vxAssert(ok, "the project is written")
	return dir
}

// vxGenerate runs the program on a package and returns the generated file:
// number 0 is the source, the last one the tests.
func vxGenerate(lang string, text string, which int) string {
	files := vxGenFiles(lang)
	cmd := "src"
	if which == len(files)-1 {
		cmd = "test"
	}
	return vxGenerateFiles(lang, text, cmd, files[which])[0]
}

// vxGenerateFiles runs a command on a package and returns some of the files.
func vxGenerateFiles(lang string, text string, cmd string, files ...string) []string {
	dir := vxGenProject(lang, text)
	msg := ExecuteProjectFromArgs([]string{"vxlisp", cmd, ":path", "prj"})
	vxAssert(!msg.iserror, "the package is accepted")
	var out []string
	for _, f := range files {
		b, err := os.ReadFile(dir + "/" + f)
		vxAssert(err == nil, "the file is generated")
		out = append(out, string(b))
	}
	os.RemoveAll(dir)
	return out
}

// vxTok is a token of generated code: a word or number 'w', a string 's' with
// the text it denotes, a single other character 'p', or an error 'e'.
type vxTok struct {
	kind byte
	text string
}

func vxWordByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

// vxTokens reads generated code by the rules of its language.
func vxTokens(lang string, s string) []vxTok {
	var out []vxTok
	n := len(s)
	for i := 0; i < n; {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t':
			i++
		case c == '/' && i+1 < n && s[i+1] == '/':
			for i < n && s[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < n && s[i+1] == '*':
			depth := 1
			for i += 2; depth > 0; i++ {
				if i+1 >= n {
					return append(out, vxTok{'e', "open comment"})
				}
				if lang == "java" && s[i] == '\\' && s[i+1] == 'u' && s[i-1] != '\\' {
					return append(out, vxTok{'e', "unicode escape"})
				}
				if s[i] == '*' && s[i+1] == '/' {
					depth--
					i++
				} else if (lang == "kotlin" || lang == "swift") && s[i] == '/' && s[i+1] == '*' {
					depth++ // these comments nest
					i++
				}
			}
		case c == '"' || c == '\'':
			var text []byte
			for i++; ; i++ {
				if i >= n || s[i] == '\n' || s[i] == '\r' {
					return append(out, vxTok{'e', "open string"})
				}
				if s[i] == c {
					i++
					break
				}
				if s[i] == '$' && lang == "kotlin" && (s[i+1] == '{' || s[i+1] >= 'a' && s[i+1] <= 'z' || s[i+1] >= 'A' && s[i+1] <= 'Z' || s[i+1] == '_') {
					return append(out, vxTok{'e', "substitution"})
				}
				if s[i] != '\\' {
					text = append(text, s[i])
					continue
				}
				i++
				if i >= n {
					return append(out, vxTok{'e', "open string"})
				}
				switch e := s[i]; {
				case e == 'n':
					text = append(text, '\n')
				case e == 't':
					text = append(text, '\t')
				case e == 'r':
					text = append(text, '\r')
				case e == '"' || e == '\'' || e == '\\':
					text = append(text, e)
				case e == '$' && lang == "kotlin":
					text = append(text, e)
				default:
					return append(out, vxTok{'e', "escape"})
				}
			}
			out = append(out, vxTok{'s', string(text)})
		case vxWordByte(c):
			j := i
			for i < n && vxWordByte(s[i]) {
				i++
			}
			out = append(out, vxTok{'w', s[j:i]})
		default:
			out = append(out, vxTok{'p', s[i : i+1]})
			i++
		}
	}
	return out
}

// vxSameTokens compares two generated texts, in which a string may be put for another.
// A string that quotes the source text shows the text as it is written there.
func vxSameTokens(a []vxTok, b []vxTok, from string, to string, quoted string) int {
	vxAssert(len(a) == len(b), "the code has the same shape")
	count := 0
	for i := range a {
		vxAssert(a[i].kind != 'e', "the code can be read")
		vxAssert(a[i].kind == b[i].kind, "the code has the same shape")
		if a[i].kind == 's' && a[i].text == from {
			vxAssert(b[i].text == to, "the string denotes the text")
			count++
		} else if a[i].kind == 's' && strings.Contains(a[i].text, from) {
			vxAssert(b[i].text == strings.ReplaceAll(a[i].text, from, quoted), "the string shows the source text")
		} else {
			vxAssert(a[i].text == b[i].text, "the rest of the code is the same")
		}
	}
	return count
}
