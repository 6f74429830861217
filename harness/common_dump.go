package vxlisp

// A full rendering of what was read, leaving out only source positions.

func vxDumpBool(label string, b bool) string {
	if b {
		return " " + label
	}
	return ""
}

func vxDumpText(label string, s string) string {
	if s != "" {
		return " " + label + "=<" + s + ">"
	}
	return ""
}

func vxDumpTypeRef(label string, t *vxtype) string {
	if t == nil || t.name == "" {
		return ""
	}
	return " " + label + "=" + t.pkgname + "|" + t.name
}

func vxDumpValue(v vxvalue) string {
	out := "{" + v.code + vxDumpText("name", v.name) + vxDumpText("pkg", v.pkg) + vxDumpBool("multi", v.multi)
	switch n := v.native.(type) {
	case string:
		out += " <" + n + ">"
	case *vxfunc:
		out += vxDumpFunc(n)
	case []vxarg:
		out += vxDumpArgs(n)
	case *vxconst:
		out += vxDumpText("const", n.name) + vxDumpText("constpkg", n.pkgname)
	case *vxtype:
		out += vxDumpTypeRef("type", n)
	case vxarg:
		out += vxDumpText("arg", n.name)
	case nil:
	default:
		out += "?"
	}
	return out + "}"
}

func vxDumpValues(label string, list []vxvalue) string {
	out := ""
	for _, v := range list {
		out += "\n " + label + vxDumpValue(v)
	}
	return out
}

func vxDumpArgs(list []vxarg) string {
	out := " ["
	for _, a := range list {
		out += "(" + a.name + vxDumpText("alias", a.alias) + vxDumpText("doc", a.doc) + vxDumpBool("default", a.isdefault) +
			vxDumpBool("multi", a.multi) + vxDumpBool("async", a.async) + vxDumpBool("generic", a.isgeneric) +
			vxDumpTypeRef("generictype", a.generictype) + vxDumpTypeRef("type", a.vxtype)
		if a.value.code != "" {
			out += " " + vxDumpValue(a.value)
		}
		out += ")"
	}
	return out + "]"
}

func vxDumpFunc(f *vxfunc) string {
	out := "(func " + f.name + vxDumpText("pkg", f.pkgname) + vxDumpText("alias", f.alias) + vxDumpText("bigospace", f.bigospace) +
		vxDumpText("bigotime", f.bigotime) + vxDumpText("clientserver", f.clientserver) + vxDumpText("deprecated", f.deprecated) +
		vxDumpText("doc", f.doc) + vxDumpText("sideeffects", f.sideeffects) + vxDumpBool("async", f.async) +
		vxDumpBool("context", f.context) + vxDumpBool("debug", f.debug) + vxDumpBool("generic", f.isgeneric) +
		vxDumpBool("messages", f.messages) + vxDumpBool("parallel", f.parallel) + vxDumpBool("permission", f.permission) +
		vxDumpBool("protected", f.protected) + vxDumpBool("private", f.private) + vxDumpBool("wrapper", f.wrapper) +
		vxDumpTypeRef("type", f.vxtype) + vxDumpTypeRef("generictype", f.generictype) + vxDumpArgs(f.listarg)
	if f.value.code != "" {
		out += " " + vxDumpValue(f.value)
	}
	return out + vxDumpValues("test", f.listtestvalue) + ")"
}

func vxDumpConst(c *vxconst) string {
	return "(const " + c.name + vxDumpText("pkg", c.pkgname) + vxDumpText("alias", c.alias) + vxDumpText("deprecated", c.deprecated) +
		vxDumpText("doc", c.doc) + vxDumpBool("mutable", c.mutable) + vxDumpTypeRef("type", c.vxtype) + " " + vxDumpValue(c.value) +
		vxDumpValues("test", c.listtestvalue) + ")"
}

func vxDumpTypes(label string, list []*vxtype) string {
	out := ""
	for _, t := range list {
		out += vxDumpTypeRef(label, t)
	}
	return out
}

func vxDumpType(t *vxtype) string {
	out := "(type " + t.name + vxDumpText("pkg", t.pkgname) + vxDumpText("alias", t.alias) + vxDumpText("default", t.defaultvalue) +
		vxDumpText("deprecated", t.deprecated) + vxDumpText("doc", t.doc) + vxDumpText("extends", t.extends) +
		vxDumpBool("generic", t.isgeneric) + vxDumpBool("mutable", t.mutable) + vxDumpBool("func", t.isfunc) +
		vxDumpTypes("trait", t.traits) + vxDumpTypes("allowtype", t.allowtypes) + vxDumpTypes("disallowtype", t.disallowtypes)
	for _, f := range t.allowfuncs {
		out += vxDumpText("allowfunc", f.name) + vxDumpText("in", f.pkgname)
	}
	for _, f := range t.disallowfuncs {
		out += vxDumpText("disallowfunc", f.name) + vxDumpText("in", f.pkgname)
	}
	for _, c := range t.convert {
		out += vxDumpText("convert", c)
	}
	out += vxDumpArgs(t.properties) + " create" + vxDumpValue(t.createvalue) + " destroy" + vxDumpValue(t.destroyvalue) +
		" empty" + vxDumpValue(t.emptyvalue)
	return out + vxDumpValues("test", t.testvalues) + ")"
}

func vxDumpLibs(list []*vxlibrary) string {
	out := ""
	for _, l := range list {
		out += "\n(lib " + l.name + vxDumpText("path", l.path) + vxDumpText("lang", l.lang) + vxDumpText("doc", l.doc) + ")"
	}
	return out
}

func vxDumpPackage(p *vxpackage) string {
	out := "(package " + p.name + vxDumpText("alias", p.alias) + vxDumpText("doc", p.doc) + vxDumpLibs(p.listlib)
	for _, t := range p.listtype {
		out += "\n" + vxDumpType(t)
	}
	for _, c := range p.listconst {
		out += "\n" + vxDumpConst(c)
	}
	for _, f := range p.listfunc {
		out += "\n" + vxDumpFunc(f)
	}
	return out + ")"
}

func vxDumpInt(n int) string {
	if n < 0 {
		return "-" + vxDumpInt(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return vxDumpInt(n/10) + vxDumpInt(n%10)
}

func vxDumpProject(p *vxproject) string {
	out := "(project " + p.name + vxDumpText("author", p.author) + vxDumpText("doc", p.doc) + vxDumpText("version", p.version) +
		vxDumpText("javadomain", p.javadomain) + vxDumpLibs(p.listlib)
	for _, c := range p.listcmd {
		out += "\n(cmd " + c.name + vxDumpText("code", c.code) + vxDumpText("doc", c.doc) + vxDumpText("filter", c.filter) +
			vxDumpText("lang", c.langcode) + vxDumpText("path", c.path) + vxDumpText("config", c.config) +
			vxDumpText("context", c.context) + vxDumpText("main", c.main) + " port=" + vxDumpInt(c.port)
		if c.lang != nil {
			out += vxDumpText("language", c.lang.name)
		}
		out += ")"
	}
	for _, t := range p.listpath {
		out += "\n(path " + t.name + vxDumpText("doc", t.doc) + vxDumpText("path", t.path) + ")"
	}
	for _, s := range p.listprjpath {
		out += vxDumpText("prjpath", s)
	}
	return out + ")"
}
