package vxlisp

import (
	"os"
)

func init() {
	vxHarness["vhC17Command"] = vhC17Command
	vxHarness["vhC17Project"] = vhC17Project
	vxHarness["vhC17Select"] = vhC17Select
	vxHarness["vhC17Run"] = vhC17Run
	vxHarness["vhC17Stray"] = vhC17Stray
}

var vxCmdProps = []string{":code", ":config", ":context", ":doc", ":filter", ":lang", ":main", ":name", ":path", ":port"}

func vxCmdGet(c *vxcommand, prop string) string {
	switch prop {
	case ":code":
		return c.code
	case ":config":
		return c.config
	case ":context":
		return c.context
	case ":doc":
		return c.doc
	case ":filter":
		return c.filter
	case ":lang":
		return c.langcode
	case ":main":
		return c.main
	case ":name":
		return c.name
	case ":path":
		return c.path
	}
	return vxDumpInt(c.port)
}

// vxCmdText writes a command with up to n properties, and tells what is expected of it.
func vxCmdText(n int, name string) (string, map[string]string) {
	want := map[string]string{}
	for _, p := range vxCmdProps {
		want[p] = ""
	}
	want[":port"] = "0"
	want[":name"] = name
	text := "(cmd " + name
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		p := vxCmdProps[vxChoice("prop", len(vxCmdProps))]
		vxAssume(!used[p])
		used[p] = true
		val := ""
		switch p {
		case ":port":
			val = vxPick("port", "80", "7")
			want[p] = val
		case ":lang":
			val = vxPick("lang", ":js", ":java", ":cpp")
			want[p] = val
		case ":code":
			val = vxPick("code", ":doc", ":test")
			want[p] = val
		default:
			s := vxStrIn("text", 2, "a:/*.")
			vxAssume(s != "//" && s != "/*")
			if vxBool("quoted") {
				val = "\"" + s + "\""
			} else {
				vxAssume(s[0] == 'a' || s[0] == '.')
				val = s
			}
			want[p] = s
		}
		text += vxPick("gap", " ", "\n  ", " /* n */ ") + p + " " + val
	}
	return text + ")", want
}

func vxCmdSame(c *vxcommand, want map[string]string) {
	for _, p := range vxCmdProps {
		vxAssert(vxCmdGet(c, p) == want[p], "the command has the property as written")
	}
	if want[":lang"] != "" {
		vxAssert(c.lang != nil && c.lang == maplang[want[":lang"]], "the command has its language")
	}
}

// One command with any of its properties in any order.
func vhC17Command() {
	text, want := vxCmdText(vxChoice("props", vxParam("props")+1), vxStrIn("name", 1, "ab"))
	prj, msg := ProjectFromTextblock(NewTextblockFromText("(project p :cmds " + text + ")"))
	vxTrace(text)
	vxAssert(!msg.iserror, "the project is accepted")
	vxAssert(len(prj.listcmd) == 1, "the command is read")
	vxCmdSame(prj.listcmd[0], want)
	vxCmdSame(NewCommandCopy(prj.listcmd[0]), want)
	vxCover("command")
}

var vxPrjProps = []string{":author", ":doc", ":javadomain", ":version", ":cmds", ":libs", ":paths", ":projects"}

// A project with any of its properties in any order.
func vhC17Project() {
	text := "(project demo"
	words := map[string]string{}
	var cmds [][2]string
	var libs, paths [][3]string
	var projects []string
	used := map[string]bool{}
	n := vxChoice("props", vxParam("props")+1)
	for i := 0; i < n; i++ {
		p := vxPrjProps[vxChoice("prop", len(vxPrjProps))]
		vxAssume(!used[p])
		used[p] = true
		text += "\n " + p
		switch p {
		case ":cmds", ":libs", ":paths", ":projects":
			k := vxChoice("items", 3)
			for j := 0; j < k; j++ {
				name := vxStrIn("name", 1, "ab")
				switch p {
				case ":cmds":
					doc := vxStrIn("doc", 1, "a:")
					text += "\n  (cmd " + name + " :doc \"" + doc + "\")"
					cmds = append(cmds, [2]string{name, doc})
				case ":projects":
					text += " \"" + name + "/x\""
					projects = append(projects, name+"/x")
				default:
					doc, path := "", ""
					text += "\n  (" + p[1:len(p)-1] + " " + name
					form := vxChoice("form", 5)
					if form == 1 || form == 2 {
						doc = vxStrIn("doc", 1, "a:")
						text += " :doc \"" + doc + "\""
					}
					if form >= 2 {
						path = vxStrIn("path", 1, "a/")
						text += " :path \"" + path + "\""
					}
					if form == 4 {
						doc = vxStrIn("doc", 1, "a:")
						text += " :doc \"" + doc + "\""
					}
					text += ")"
					if p == ":libs" {
						libs = append(libs, [3]string{name, path, doc})
					} else {
						paths = append(paths, [3]string{name, path, doc})
					}
				}
			}
		default:
			s := vxStrIn("text", 1, "a:(")
			words[p] = s
			text += " \"" + s + "\""
		}
	}
	text += ")"
	vxTrace(text)
	prj, msg := ProjectFromTextblock(NewTextblockFromText(text))
	vxAssert(!msg.iserror, "the project is accepted")
	vxAssert(prj.name == "demo", "the name is kept")
	vxAssert(prj.author == words[":author"] && prj.doc == words[":doc"] && prj.javadomain == words[":javadomain"] &&
		prj.version == words[":version"], "the texts are kept")
	vxAssert(len(prj.listcmd) == len(cmds) && len(prj.listlib) == len(libs) && len(prj.listpath) == len(paths) &&
		len(prj.listprjpath) == len(projects), "every item is kept")
	for i, want := range cmds {
		got := prj.listcmd[i]
		vxAssert(got.name == want[0] && got.doc == want[1], "the command is as written")
	}
	for i, want := range libs {
		got := prj.listlib[i]
		vxAssert(got.name == want[0] && got.path == want[1] && got.doc == want[2], "the library is as written")
	}
	for i, want := range paths {
		got := prj.listpath[i]
		vxAssert(got.name == want[0] && got.path == want[1] && got.doc == want[2], "the path is as written")
	}
	for i, want := range projects {
		vxAssert(prj.listprjpath[i] == want, "the project path is as written")
	}
	vxCover("project")
}

// Selecting commands by name.
func vhC17Select() {
	prj := NewProject("p")
	n := vxChoice("cmds", vxParam("cmds")+1)
	var names []string
	for i := 0; i < n; i++ {
		c := NewCommand()
		c.name = vxStrIn("name", 1+vxChoice("len", 2), "abc")
		names = append(names, c.name)
		prj.listcmd = append(prj.listcmd, c)
	}
	var asked []string
	m := vxChoice("asked", vxParam("asked")+1)
	for i := 0; i < m; i++ {
		asked = append(asked, vxStrIn("ask", 1+vxChoice("len", 2), "abc"))
	}
	got, msg := ListCommandFromProject(prj, asked)
	unknown := false
	var want []*vxcommand
	for _, ask := range asked {
		found := false
		for j, name := range names {
			if name == ask {
				found = true
				want = append(want, prj.listcmd[j])
			}
		}
		unknown = unknown || !found
	}
	vxAssert(msg.iserror == unknown, "exactly an unknown name is an error")
	if unknown {
		vxCover("unknown")
		return
	}
	vxAssert(len(got) == len(want), "nothing else is selected")
	for i, c := range want {
		vxAssert(got[i] == c, "the commands are selected as named")
	}
	vxCover("selected")
}

// A stray word or unknown keyword anywhere in a project file.
func vhC17Stray() {
	stray := vxPick("stray", "", "zz9", "\"zz9\"", ":zz9 1", "(zz9)", "[zz9]")
	place := vxChoice("place", 9)
	at := func(i int) string {
		if i == place && stray != "" {
			return " " + stray
		}
		return ""
	}
	heads := []string{":author a", ":doc \"d\"", ":javadomain j", ":version 1"}
	text := "(project demo"
	first := vxChoice("first", len(heads))
	for i := range heads {
		text += "\n " + heads[(first+i)%len(heads)] + at(i)
	}
	text += "\n :cmds (cmd c :code :doc" + at(4) + ")" + at(5) + "\n :paths (path n :path x" + at(6) + ")" + at(7) +
		"\n :libs (lib l :path y" + at(8) + "))"
	vxTrace(text)
	_, msg := ProjectFromTextblock(NewTextblockFromText(text))
	vxAssert(msg.iserror == (stray != ""), "exactly what is not a property is an error")
	if stray == "" {
		vxCover("accepted")
	} else {
		vxCover("error")
	}
}

// Running the program: exactly the named commands write their output.
func vhC17Run() {
	dir := vxTempDir()
	ok := os.MkdirAll(dir+"/prj/vx", 0755) == nil && os.Mkdir(dir+"/cwd", 0755) == nil && os.Chdir(dir+"/cwd") == nil
	n := vxParam("cmds")
	text := "(project demo :version \"1\" :cmds"
	for i := 0; i < n; i++ {
		text += "\n (cmd c" + vxDumpInt(i) + " :code :doc :path ../out" + vxDumpInt(i) + ")"
	}
	text += ")\n"
	more := vxPick("more", "a", "myproject")
	for _, f := range [][2]string{
		{"project.vxlisp", text},
		{"vx/core.vxlisp", "(package vx/core)\n(type any)"},
		{"vx/test.vxlisp", "(package vx/test)\n(type testresult)"},
		{more + ".vxlisp", "(package " + more + ")\n"},
	} {
		ok = ok && os.WriteFile(dir+"/prj/"+f[0], []byte(f[1]), 0644) == nil
	}
	vxAssert(ok, "the files are written")
	args := []string{"vxlisp"}
	m := vxChoice("asked", vxParam("asked")+1)
	at := vxChoice("at", m+1)
	want := make([]bool, n)
	bad := false
	for i := 0; i <= m; i++ {
		if i == at {
			args = append(args, vxPick("flag", ":path", "--path"), vxPick("prj", dir+"/prj", "../prj"))
		}
		if i < m {
			k := vxChoice("ask", n+1)
			args = append(args, "c"+vxDumpInt(k))
			if k < n {
				want[k] = true
			} else {
				bad = true
			}
		}
	}
	msg := ExecuteProjectFromArgs(args)
	vxAssert(msg.iserror == bad, "exactly an unknown command is an error")
	for i := 0; i < n; i++ {
		_, err := os.Stat(dir + "/out" + vxDumpInt(i) + "/doc.html")
		if !want[i] {
			vxAssert(err != nil, "no other command is run")
		} else if !bad {
			vxAssert(err == nil, "the named commands are run")
		}
	}
	_, err := os.Stat(dir + "/prj/doc.html")
	vxAssert(err != nil, "nothing is written elsewhere")
	if bad {
		vxCover("unknown")
	} else if m > 0 {
		vxCover("run")
	}
}
