package vxlisp

import (
	"os"
	"path/filepath"
	"strings"
)

func init() {
	vxHarness["vhC21Name"] = vhC21Name
	vxHarness["vhC21Distinct"] = vhC21Distinct
	vxHarness["vhC21Package"] = vhC21Package
}

// vxName is a name of symbolic characters after a letter.
func vxName(n int) string {
	name := "z" + vxStrIn("name", n, "aB1-<>?")
	vxAssume(!strings.HasSuffix(name, "-") && !strings.HasSuffix(name, "-1")) // those are generic types
	return name
}

// vxNamed is a package that declares and uses a name.
func vxNamed(kind int, name string) string {
	head := "(package p)\n(type s : struct :properties [a : string])\n(func o : string [a : string b : any] a)\n"
	switch kind {
	case 0: // a function
		return head + "(func " + name + " : string [a : string] a\n :test (test \"x\" (" + name + " \"y\")))\n" +
			"(func g : string [a : string] (o (" + name + " (" + name + " a)) 1))\n"
	case 1: // a function with two overloads
		return head + "(func " + name + " : string [a : string] a)\n(func " + name + " : string [a : int] (" + name + " \"y\")\n" +
			" :test (test \"x\" (" + name + " 1)))\n"
	case 2: // a type
		return head + "(type " + name + " : struct :properties [b : string])\n(func g : " + name + " [a : " + name + "] a)\n"
	case 3: // a list of a type
		return head + "(type " + name + " : list :allowtypes [s])\n(func g : " + name + " [a : " + name + " b : s] a)\n"
	case 4: // a constant
		return head + "(const " + name + " : string \"x\")\n(func g : string (o " + name + " " + name + "))\n"
	case 5: // a parameter
		return head + "(func g : string [b : any " + name + " : string] (o " + name + " b))\n"
	case 6: // a property
		return head + "(type t : struct :properties [a : string " + name + " : int])\n(func g : t [a : t] a)\n"
	case 7: // a local name
		return head + "(func g : string [b : string] (let : string [" + name + " : string := b] (o " + name + " 1)))\n"
	case 8: // a parameter of a lambda
		return head + "(func h : string [a : any<-any] \"x\")\n(func g : string [b : string] (h (fn : any [" + name + " : any] (o b " + name + "))))\n"
	}
	// a parameter used inside a lambda
	return head + "(func h : string [a : any<-any] \"x\")\n(func g : string [" + name + " : string] (h (fn : any [b : any] (o " + name + " b))))\n"
}

const vxNamedKinds = 10

// vxRenamed compares the code for the name zzq with that for another name and
// returns the identifier for the other name.
func vxRenamed(a []vxTok, b []vxTok, name string) string {
	vxAssert(len(a) == len(b), "the code has the same shape")
	upper := strings.ToUpper(name[:1]) + name[1:]
	ident := []string{"", "", ""}
	for i := range a {
		vxAssert(a[i].kind != 'e', "the code can be read")
		vxAssert(a[i].kind == b[i].kind, "the code has the same shape")
		mark, at, k := "", -1, 0
		for n, m := range []string{"zzq", "Zzq", "ZZQ"} {
			if at < 0 {
				mark, at, k = m, strings.Index(a[i].text, m), n
			}
		}
		switch {
		case at < 0:
			vxAssert(a[i].text == b[i].text, "the rest of the code is the same")
		case a[i].kind == 's':
			// messages may show the identifier instead
			written := strings.ReplaceAll(strings.ReplaceAll(a[i].text, "zzq", name), "Zzq", upper)
			vxAssert(b[i].text == written || b[i].text == strings.ReplaceAll(a[i].text, mark, ident[k]), "strings show the name")
		case ident[k] == "":
			rest := len(a[i].text) - at - 3
			vxAssert(strings.Count(a[i].text, mark) == 1 && len(b[i].text) > at+rest && b[i].text[:at] == a[i].text[:at] &&
				b[i].text[len(b[i].text)-rest:] == a[i].text[at+3:], "the identifier has the same affixes")
			ident[k] = b[i].text[at : len(b[i].text)-rest]
		default:
			vxAssert(b[i].text == strings.ReplaceAll(a[i].text, mark, ident[k]), "the name is spelled alike everywhere")
		}
	}
	return ident[0]
}

// A name is spelled alike and legally in all the code for its package.
func vhC21Name() {
	lang := vxGenLangs[vxChoice("lang", len(vxGenLangs))]
	kind := vxChoice("kind", vxNamedKinds)
	which := vxChoice("file", len(vxGenFiles(lang)))
	plain := vxTokens(lang, vxGenerate(lang, vxNamed(kind, "zzq"), which))
	name := vxName(vxParam("len"))
	code := vxGenerate(lang, vxNamed(kind, name), which)
	vxTrace(code)
	vxRenamed(plain, vxTokens(lang, code), name)
	vxCover(lang)
}

// Different names have different identifiers.
func vhC21Distinct() {
	lang := vxGenLangs[vxChoice("lang", len(vxGenLangs))]
	kind := vxChoice("kind", vxParam("kinds")) * 2
	plain := vxTokens(lang, vxGenerate(lang, vxNamed(kind, "zzq"), 0))
	long := vxChoice("len1", vxParam("len")+1)
	one := vxName(long)
	two := vxName(vxChoice("len2", long+1))
	vxAssume(len(one) > len(two) || one > two)
	id1 := vxRenamed(plain, vxTokens(lang, vxGenerate(lang, vxNamed(kind, one), 0)), one)
	id2 := vxRenamed(plain, vxTokens(lang, vxGenerate(lang, vxNamed(kind, two), 0)), two)
	vxTrace(id1 + " " + id2)
	vxAssert(id1 != id2, "different names have different identifiers")
	vxCover(lang)
}

// A package name is spelled alike in its own code and in that of a package that uses it.
func vhC21Package() {
	lang := vxGenLangs[vxChoice("lang", len(vxGenLangs)-1)] // Swift has no packages of other names
	where := vxChoice("where", 3)
	cmd := vxPick("cmd", "src", "test")
	full := func(name string) string {
		switch where {
		case 0:
			return name
		case 1:
			return name + "/k"
		}
		return "k/" + name
	}
	plain := vxTokens(lang, vxPackages(lang, full("zzq"), cmd))
	name := "z" + vxStrIn("name", vxParam("len"), "aB1")
	code := vxPackages(lang, full(name), cmd)
	vxTrace(code)
	vxRenamed(plain, vxTokens(lang, code), name)
	vxCover(lang)
}

// vxPackages generates a package of a name and another that uses it, and returns all the code.
func vxPackages(lang string, name string, cmd string) string {
	dir := vxGenProject(lang, "(package p :libs (lib kk :path "+name+"))\n"+
		"(func g : kk/s [b : kk/s] (kk/f b))\n(func h : string kk/c :test (test \"x\" (h)))\n")
	if at := strings.Index(name, "/"); at >= 0 {
		vxAssert(os.MkdirAll(dir+"/prj/"+name[:at], 0755) == nil, "the folder is made")
	}
	text := "(package " + name + ")\n(type s : struct :properties [a : string])\n(const c : string \"x\")\n(func f : s [a : s] a :test (test \"x\" c))\n"
	vxAssert(os.WriteFile(dir+"/prj/"+name+".vxlisp", []byte(text), 0644) == nil, "the package is written")
	msg := ExecuteProjectFromArgs([]string{"vxlisp", cmd, ":path", "prj"})
	vxAssert(!msg.iserror, "the packages are accepted")
	out := ""
	filepath.Walk(dir+"/"+cmd, func(path string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			b, _ := os.ReadFile(path)
			out += string(b) + "\n"
		}
		return nil
	})
	os.RemoveAll(dir)
	return out
}
