package vxlisp

import (
	"os"
	"strings"
)

func init() {
	vxHarness["vhC18Join"] = vhC18Join
	vxHarness["vhC18Named"] = vhC18Named
	vxHarness["vhC18Run"] = vhC18Run
}

// vxSteps is a path of up to n steps, each '.', '..' or a name.
func vxSteps(what string, n int, names bool) []string {
	var out []string
	k := vxChoice(what+"s", n+1)
	for i := 0; i < k; i++ {
		switch c := vxChoice(what, 4); {
		case c == 0 && !names:
			out = append(out, ".")
		case c == 1 && !names:
			out = append(out, "..")
		case c == 2:
			out = append(out, vxStrIn("name", 1, "abc"))
		default:
			s := vxStrIn("name", 1+vxChoice("len", 3), ".ab")
			vxAssume(s != "." && s != "..")
			out = append(out, s)
		}
	}
	return out
}

// vxResolve is the path with its steps taken one after the other.
func vxResolve(steps []string) string {
	var out []string
	for _, s := range steps {
		switch s {
		case ".", "":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return "/" + strings.Join(out, "/")
}

// vxNormal drops empty steps, which name the same file.
func vxNormal(path string) string {
	for strings.Contains(path, "//") {
		path = strings.ReplaceAll(path, "//", "/")
	}
	if path == "" {
		return "/" // files are named by a slash after it
	}
	if len(path) > 1 && path[len(path)-1] == '/' {
		path = path[:len(path)-1]
	}
	return path
}

func vhC18Join() {
	base := vxSteps("base", vxParam("base"), true)
	rel := vxSteps("rel", vxParam("rel"), false)
	prj := NewProject("p")
	prj.path = "/" + strings.Join(base, "/")
	cmd := NewCommand()
	cmd.path = strings.Join(rel, "/")
	if len(rel) > 0 && vxBool("slash") {
		cmd.path += "/"
	}
	vxTrace(prj.path + " " + cmd.path)
	want := vxResolve(append(append([]string{}, base...), rel...))
	got := vxNormal(PathFromProjectCmd(prj, cmd))
	vxObserve("path", got)
	vxAssert(got == want, "the path is the base followed by the relative steps")
	vxAssert(vxNormal(PathFromProjectPath(prj, cmd.path)) == want, "the same for other paths of a project")
	vxCover("path")
}

func vhC18Named() {
	prj := NewProject("p")
	n := vxChoice("paths", vxParam("paths")+1)
	var names, paths []string
	for i := 0; i < n; i++ {
		p := NewPath()
		p.name = vxStrIn("name", 1+vxChoice("len", 2), "abc")
		p.path = vxPick("path", "../X", "/Y/Z", "W", "")
		for _, other := range names {
			vxAssume(other != p.name)
		}
		names, paths = append(names, p.name), append(paths, p.path)
		prj.listpath = append(prj.listpath, p)
	}
	lookup := func(name string) (string, bool) {
		for i, other := range names {
			if other == name {
				return paths[i], true
			}
		}
		return "", false
	}
	cmd := NewCommand()
	want := ""
	if vxBool("whole") {
		cmd.path = vxStrIn("use", 1+vxChoice("len", 2), "abc")
		want = cmd.path
		if path, ok := lookup(cmd.path); ok {
			want = path
			vxCover("whole")
		}
	} else {
		k := 1 + vxChoice("parts", vxParam("parts"))
		for i := 0; i < k; i++ {
			if vxBool("text") {
				s := vxPick("part", "/M", "..", "/")
				cmd.path += s
				want += s
				continue
			}
			name := vxStrIn("use", 1+vxChoice("len", 2), "abc")
			cmd.path += "*" + name + "*"
			path, ok := lookup(name)
			if ok {
				want += path
				vxCover("part")
			} else {
				want += "*" + name + "*"
				vxCover("unknown")
			}
		}
	}
	vxTrace(cmd.path)
	got := StringPathFromProjectCmd(prj, cmd)
	vxObserve("path", got)
	vxAssert(got == want, "a named path stands for the path declared under that name")
}

// The program writes where the paths say.
func vhC18Run() {
	dir := vxTempDir()
	ok := os.MkdirAll(dir+"/u/v/prj/vx", 0755) == nil && os.MkdirAll(dir+"/cwd", 0755) == nil && os.Chdir(dir+"/cwd") == nil
	named := vxSteps("named", 1, false)
	rel := vxSteps("rel", vxParam("rel"), false)
	up := 3
	path := ""
	for _, s := range append(append([]string{}, named...), rel...) {
		if s == ".." {
			up--
		}
	}
	vxAssume(up >= 0 && len(named) > 0)
	path = "*n*"
	for _, s := range rel {
		path += "/" + s
	}
	text := "(project demo :version \"1\" :paths (path n :path \"" + named[0] + "\") :cmds (cmd c :code :doc :path \"" + path + "\"))"
	for _, f := range [][2]string{
		{"project.vxlisp", text},
		{"vx/core.vxlisp", "(package vx/core)\n(type any)"},
		{"vx/test.vxlisp", "(package vx/test)\n(type testresult)"},
	} {
		ok = ok && os.WriteFile(dir+"/u/v/prj/"+f[0], []byte(f[1]), 0644) == nil
	}
	vxAssert(ok, "the files are written")
	msg := ExecuteProjectFromArgs([]string{"vxlisp", "c", ":path", "../u/v/prj"})
	vxAssert(!msg.iserror, "the command succeeds")
	steps := append([]string{"u", "v", "prj"}, named...)
	_, err := os.Stat(dir + vxResolve(append(steps, rel...)) + "/doc.html")
	vxAssert(err == nil, "the output is in the folder asked for")
	vxCover("run")
}
