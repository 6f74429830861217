package vxlisp

import (
	"os"
	"strings"
)

func init() {
	vxHarness["vhC40Import"] = vhC40Import
}

// vxDirOf is the folder of a path, empty or with a slash at its end.
func vxDirOf(path string) string {
	return path[:strings.LastIndex(path, "/")+1]
}

// vxResolve is the file a path written in another file means.
func vxResolve(file string, path string) string {
	parts := strings.Split(strings.TrimSuffix(vxDirOf(file), "/"), "/")
	for _, part := range strings.Split(path, "/") {
		switch part {
		case ".":
		case "..":
			if len(parts) == 0 {
				return "outside"
			}
			parts = parts[:len(parts)-1]
		default:
			parts = append(parts, part)
		}
	}
	return strings.Join(parts, "/")
}

// vxUpper has the first letter of every part in upper case.
func vxUpper(path string) string {
	parts := strings.Split(path, "/")
	for i := range parts {
		if parts[i] != "" {
			parts[i] = strings.ToUpper(parts[i][:1]) + parts[i][1:]
		}
	}
	return strings.Join(parts, "/")
}

// vxImports are the files, folders and own folder named at the start of lines.
func vxImports(lang string, file string, text string) (imports []string, own string) {
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimSuffix(strings.TrimSpace(line), ";")
		switch {
		case lang == "js" && strings.HasPrefix(line, "import "):
			words := strings.Split(line, " ")
			vxAssert(len(words) == 4 && words[2] == "from", "an import is well-formed")
			path := strings.Trim(words[3], "\"")
			vxAssert(strings.HasPrefix(path, "./") || strings.HasPrefix(path, "../"), "a file of the project is named relative to the file")
			path = strings.TrimSuffix(vxResolve(file, path), ".js")
			imports = append(imports, path)
			vxAssert(strings.HasSuffix(strings.ReplaceAll(path, "/", "_"), "src_"+words[1]), "a package is imported under its name")
		case lang == "cpp" && strings.HasPrefix(line, "#include \""):
			path := strings.Trim(line[len("#include "):], "\"")
			path = vxResolve(file, path)
			path = strings.TrimSuffix(strings.Replace(path, "main/", "src/", 1), ".hpp")
			imports = append(imports, path)
		case (lang == "java" || lang == "kotlin") && strings.HasPrefix(line, "import com.demo."):
			path := strings.ReplaceAll(line[len("import com.demo."):], ".", "/")
			imports = append(imports, "src/"+vxDirOf(path))
		case (lang == "java" || lang == "kotlin") && strings.HasPrefix(line, "package com.demo"):
			own = strings.TrimPrefix(strings.ReplaceAll(line[len("package com.demo"):], ".", "/")+"/", "/")
		case lang == "csharp" && strings.HasPrefix(line, "namespace "):
			own = strings.ReplaceAll(line[len("namespace "):], ".", "/") + "/"
		}
	}
	return imports, own
}

// Generated files name the packages they use, where these are.
func vhC40Import() {
	lang := vxGenLangs[vxChoice("lang", 5)]
	test := vxBool("test")
	name := vxPick("package", "s", "a/s", "a/b/s", "b/a/s")
	all := []string{"q", "a/q", "a/b/r", "c/d/q", "b/a/s/q"}
	var libs []string
	decl := ""
	uses := "(func fs : string \"x\")\n"
	for i := 0; i < vxParam("libs"); i++ {
		k := vxChoice("lib", len(all)+1)
		if k == len(all) {
			break
		}
		for _, l := range libs {
			vxAssume(l != all[k])
		}
		libs = append(libs, all[k])
		decl += " (lib l" + vxDumpInt(i) + " :path \"" + all[k] + "\")"
		uses += "(func g" + vxDumpInt(i) + " : string (f" + vxDumpInt(k) + "))\n"
	}
	if decl != "" {
		decl = "\n :libs" + decl
	}
	dir := vxGenProject(lang, "(package p)\n")
	ok := true
	write := func(name string, text string) {
		file := dir + "/prj/" + name + ".vxlisp"
		ok = ok && os.MkdirAll(vxDirOf(file), 0755) == nil && os.WriteFile(file, []byte("(package "+name+text), 0644) == nil
	}
	for i, lib := range all {
		write(lib, ")\n(func f"+vxDumpInt(i)+" : string \"x\")\n")
	}
	write(name, decl+")\n"+uses)
	vxAssert(ok, "the packages are written")
	cmd := "src"
	if test {
		cmd = "test"
	}
	msg := ExecuteProjectFromArgs([]string{"vxlisp", cmd, ":path", "prj"})
	vxAssert(!msg.iserror, "the packages are accepted")
	var files []string
	mid := name[strings.LastIndex(name, "/")+1:]
	last := vxUpper(mid)
	folder := vxDirOf(name)
	switch lang {
	case "js":
		files = []string{"src/" + name + ".js", "test/" + name + "_test.js"}
	case "cpp":
		files = []string{"src/" + name + ".cpp", "src/" + name + ".hpp", "test/" + name + "_test.cpp"}
	case "java":
		files = []string{"src/com/demo/" + folder + last + ".java", "test/com/demo/" + folder + last + "Test.java"}
	case "kotlin":
		files = []string{"src/com/demo/" + folder + last + ".kt", "test/com/demo/" + folder + last + "Test.kt"}
	default:
		files = []string{"src/" + vxUpper(folder) + last + ".cs", "test/AppTest/Test" + vxUpper(folder) + last + "Test.cs"}
		if folder == "" {
			files[1] = "test/AppTest/Test/" + last + "Test.cs"
		}
	}
	if test {
		files = files[len(files)-1:]
	} else {
		files = files[:len(files)-1]
	}
	for _, file := range files {
		b, err := os.ReadFile(dir + "/" + file)
		vxTrace(file)
		vxAssert(err == nil, "the file is where its package is")
		imports, own := vxImports(lang, file, string(b))
		vxTrace(strings.Join(imports, " "))
		want := append([]string{"vx/core"}, libs...)
		if test {
			want = append(want, "vx/test", name)
		}
		switch lang {
		case "js", "cpp":
			if lang == "cpp" && test {
				want[len(want)-1] = "../test/" + name + "_test"
				want = append(want, name)
			} else if lang == "cpp" && strings.HasSuffix(file, ".cpp") {
				want = append(want, name)
			}
			for _, w := range want {
				n := 0
				for _, i := range imports {
					if i == vxResolve("src/x", w) {
						n++
					}
				}
				vxAssert(n == 1, "every package used is imported once, from where it is")
			}
			vxAssert(len(imports) == len(want), "nothing else is imported")
		case "java", "kotlin":
			vxAssert(own == folder, "a file is of the package it is in")
			for _, w := range want {
				has := vxDirOf(w) == own
				for _, i := range imports {
					has = has || i == "src/"+vxDirOf(w)
				}
				vxAssert(has, "every package used is imported from where it is")
			}
			for _, i := range imports {
				has := false
				for _, w := range want {
					has = has || i == "src/"+vxDirOf(w)
				}
				vxAssert(has, "nothing else is imported")
			}
		default:
			is := vxUpper(folder)
			if test && folder != "" {
				is = "AppTest/Test" + is
			} else if test {
				is = "AppTest/"
			}
			vxAssert(own == is, "a file is of the namespace it is in")
		}
	}
	os.RemoveAll(dir)
	vxCover(lang)
}
