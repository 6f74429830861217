package vxlisp

import (
	"strings"
)

func init() {
	vxHarness["vhC25Call"] = vhC25Call
	vxHarness["vhC25New"] = vhC25New
	vxHarness["vhC25Literal"] = vhC25Literal
}

const vxCallDecls = "(const ca : string \"x\")\n(type sl : list :allowtypes [string])\n" +
	"(func f0 : string \"k\")\n" +
	"(func f1 : string [a : string] a)\n(func f1 : string [b : int] \"i\")\n(func f1 : string [a : string b : string c : string] a)\n" +
	"(func fr : string [a : string] a)\n" +
	"(func f2 : string [a : string b : string] a)\n" +
	"(func fi : int [a : string] 3)\n" +
	"(func fv : string [a : string b : sl :...] a)\n" +
	"(func fg : any-1 [v : any-1 w : any-1] v)\n" +
	"(func fm : string [a : string fn-any : any<-any b : string] a)\n" +
	"(func ft : string [a : string fn-any : any<-func b : string] a)\n"
const vxCallSix = "(func f6 : string [a : string b : string c : string d : string e : string f : string] a)\n"

// vxCallGen writes an expression and what it means.
type vxCallGen struct {
	count  int
	depth  int
	ops    int
	one    bool     // only one part of a call is deep
	from   int      // the first form of the outermost call
	chain  bool     // only calls that have several parts, let and lambda
	leaves bool     // literals and names are used, else names bound in the expression
	given  int      // the names that are not bound in the expression
	names  []string // the names that can be used
	means  []string
}

// fresh gives another number for each literal and name.
func (g *vxCallGen) fresh() string {
	g.count++
	return vxDumpInt(g.count)
}

// share gives the depth of each of some parts: all of it to every part, or to
// one part only.
func (g *vxCallGen) share(depth int, n int) []int {
	out := make([]int, n)
	one := -1
	if g.one && depth > 0 {
		one = vxChoice("deep", n)
	}
	for i := range out {
		if one < 0 || one == i {
			out[i] = depth
		}
	}
	return out
}

// leaf writes a literal or a name.
func (g *vxCallGen) leaf() (string, string) {
	c := 0
	if !g.one {
		c = vxChoice("leaf", 2+len(g.names))
	} else if len(g.names) > g.given {
		c = 1 + len(g.names)
		if g.leaves {
			c *= vxChoice("leaf", 2)
		}
	}
	switch c {
	case 0:
		n := g.fresh()
		return "\"l" + n + "\"", "'l" + n + "'"
	case 1:
		return "ca", "ca"
	}
	return g.names[c-2], g.means[c-2]
}

// text writes a string expression.
func (g *vxCallGen) text(depth int) (string, string) {
	op := 0
	if depth > 0 && g.chain {
		op = 2 + vxChoice("op", 5)
	} else if depth > 0 {
		op = g.from + vxChoice("op", g.ops-g.from)
		g.from = 0
	}
	if op == 0 {
		return g.leaf()
	}
	depth--
	switch op {
	case 1:
		a, ma := g.text(depth)
		return "(f1 " + a + ")", "f1(" + ma + ")"
	case 3, 12, 13:
		name, n := "fv", 3
		switch {
		case op == 12:
			n = 7
		case op == 13:
			name, n = "f6", 6
		case !g.chain:
			n = 2 + vxChoice("rest", 3)
		}
		out, means := "("+name+" ", name+"("
		d := g.share(depth, n)
		for i := 0; i < n; i++ {
			a, ma := g.text(d[i])
			out += " " + a
			if i > 0 {
				means += ","
			}
			means += ma
		}
		return out + ")", means + ")"
	case 4:
		d := g.share(depth, 2)
		a, ma := g.text(d[0])
		name := "v" + g.fresh()
		names, means := g.names, g.means
		g.names = append(append([]string{}, names...), name)
		g.means = append(append([]string{}, means...), ma)
		b, mb := g.text(d[1])
		g.names, g.means = names, means
		return "(let [" + name + " : string := " + a + "] " + b + ")", mb
	case 5:
		d := g.share(depth, 3)
		a, ma := g.text(d[0])
		name := "y" + g.fresh()
		names, means := g.names, g.means
		g.depth++
		bound := "^" + vxDumpInt(g.depth)
		g.names = append(append([]string{}, names...), name)
		g.means = append(append([]string{}, means...), bound)
		b, mb := g.text(d[1])
		g.depth--
		g.names, g.means = names, means
		c, mc := g.text(d[2])
		return "(fm " + a + " (fn : string [" + name + " : string] " + b + ") " + c + ")", "fm(" + ma + "," + bound + "->" + mb + "," + mc + ")"
	case 8:
		a, ma := g.number(depth)
		return "(f1 " + a + ")", "f1_1(" + ma + ")"
	case 9:
		return "(f0)", "f0()"
	case 2, 7, 10:
		d := g.share(depth, 2)
		a, ma := g.text(d[0])
		b, mb := g.text(d[1])
		switch op {
		case 2:
			return "(f2 " + a + " " + b + ")", "f2(" + ma + "," + mb + ")"
		case 7:
			return "(fg " + a + " " + b + ")", "fg(" + ma + "," + mb + ")"
		}
		bound := "^" + vxDumpInt(g.depth+1)
		return "(fm " + a + " fr " + b + ")", "fm(" + ma + "," + bound + "->fr(" + bound + ")," + mb + ")"
	}
	d := g.share(depth, 3)
	a, ma := g.text(d[0])
	b, mb := g.text(d[1])
	c, mc := g.text(d[2])
	if op == 6 {
		return "(ft " + a + " " + b + " " + c + ")", "ft(" + ma + ",->" + mb + "," + mc + ")"
	}
	return "(f1 " + a + " " + b + " " + c + ")", "f1_2(" + ma + "," + mb + "," + mc + ")"
}

// number writes an int expression.
func (g *vxCallGen) number(depth int) (string, string) {
	if depth > 0 && vxBool("call") {
		a, ma := g.text(depth - 1)
		return "(fi " + a + ")", "fi(" + ma + ")"
	}
	n := g.fresh()
	return n, n
}

// vxReader reads what generated code computes.
type vxReader struct {
	lang  string
	toks  []vxTok
	pos   int
	depth int
}

func (r *vxReader) at(i int) string {
	if r.pos+i < 0 || r.pos+i >= len(r.toks) || r.toks[r.pos+i].kind == 's' {
		return ""
	}
	return r.toks[r.pos+i].text
}

func (r *vxReader) word(i int) bool {
	return r.pos+i < len(r.toks) && r.toks[r.pos+i].kind == 'w'
}

// skip takes a character that must be there.
func (r *vxReader) skip(text string) {
	vxAssert(r.at(0) == text, "the code is a sequence of statements")
	r.pos++
}

// path reads a name with the packages or objects before it.
func (r *vxReader) path() string {
	name := r.at(0)
	r.pos++
	for {
		switch {
		case r.at(0) == "." && r.word(1):
			name = r.at(1)
			r.pos += 2
		case r.at(0) == ":" && r.at(1) == ":" && r.word(2):
			name = r.at(2)
			r.pos += 3
		case r.at(0) == "-" && r.at(1) == ">" && r.word(2) && r.lang == "cpp":
			name = r.at(2)
			r.pos += 3
		default:
			return name
		}
	}
}

// list reads the meanings of expressions up to a closing character; types are left out.
func (r *vxReader) list(end string, env map[string]string) []string {
	var out []string
	for r.at(0) != end {
		out = append(out, r.expr(env)...)
		if r.at(0) == "," {
			r.pos++
			vxAssert(r.at(0) != end, "the code is a sequence of statements")
		} else {
			vxAssert(r.at(0) == end, "the code is a sequence of statements")
		}
	}
	r.pos++
	return out
}

// lambda reads the body of a lambda after its parameters.
func (r *vxReader) lambda(params []string, env map[string]string, read func(map[string]string) string) []string {
	inner := map[string]string{}
	for k, v := range env {
		inner[k] = v
	}
	bound := ""
	for _, p := range params {
		r.depth++
		b := "^" + vxDumpInt(r.depth)
		inner[p] = b
		if bound != "" {
			bound += ","
		}
		bound += b
	}
	means := read(inner)
	r.depth -= len(params)
	return []string{bound + "->" + means}
}

// params reads names up to a closing character; each may have a type before or after.
func (r *vxReader) params(end string) []string {
	var out []string
	name := ""
	for r.at(0) != end {
		vxAssert(r.pos < len(r.toks), "the code is a sequence of statements")
		if r.at(0) == "," {
			out = append(out, name)
			name = ""
		} else if r.word(0) && !(r.lang == "kotlin" && name != "") {
			name = r.at(0)
		}
		r.pos++
	}
	r.pos++
	if name != "" {
		out = append(out, name)
	}
	return out
}

// expr reads an expression as none, one or, for a list, several meanings.
func (r *vxReader) expr(env map[string]string) []string {
	vxAssert(r.pos < len(r.toks), "the code is a sequence of statements")
	t := r.toks[r.pos]
	if t.kind == 's' {
		r.pos++
		return []string{"'" + t.text + "'"}
	}
	if t.kind == 'p' {
		switch t.text {
		case "(":
			r.pos++
			params := r.params(")")
			vxAssert((r.at(0) == "=" || r.at(0) == "-") && r.at(1) == ">", "the code is a sequence of statements")
			r.pos += 2
			if r.at(0) != "{" {
				return r.lambda(params, env, func(e map[string]string) string { return r.one(e) })
			}
			r.pos++
			return r.lambda(params, env, r.block)
		case "[":
			r.pos++
			if r.lang != "cpp" {
				return r.list("]", env)
			}
			captured := map[string]string{}
			for _, name := range r.params("]") {
				captured[name] = env[name]
			}
			r.skip("(")
			params := r.params(")")
			r.skip("{")
			return r.lambda(params, captured, r.block)
		case "{":
			r.pos++
			if r.lang == "kotlin" {
				var params []string
				name := ""
				for !(r.at(0) == "-" && r.at(1) == ">") {
					vxAssert(r.pos < len(r.toks), "the code is a sequence of statements")
					if r.at(0) == "," {
						params = append(params, name)
						name = ""
					} else if name == "" {
						name = r.at(0)
					}
					r.pos++
				}
				r.pos += 2
				if name != "" {
					params = append(params, name)
				}
				return r.lambda(params, env, r.block)
			}
			if r.lang == "js" { // the types of a generic call
				for r.at(0) != "}" {
					vxAssert(r.pos < len(r.toks), "the code is a sequence of statements")
					r.pos++
				}
				r.pos++
				return nil
			}
			return r.list("}", env)
		case "-":
			r.pos++
			return []string{"-" + r.number()}
		}
		vxAssert(false, "the code is a sequence of statements")
	}
	if t.text[0] >= '0' && t.text[0] <= '9' {
		return []string{r.number()}
	}
	if (t.text == "true" || t.text == "false") && r.at(1) != "." && r.at(1) != "(" {
		r.pos++
		return []string{t.text}
	}
	if base, ok := env[t.text]; ok && (r.at(1) == "." || r.at(1) == "-") {
		r.pos++
		return []string{r.get(base)}
	}
	alone := r.at(1) != "." && r.at(1) != ":" && r.at(1) != "-"
	name := r.path()
	if r.at(0) == "(" {
		r.pos++
		typ := ""
		for i := 0; name == "f_new" || name == "f_empty"; i++ { // the type that is made comes first
			vxAssert(r.pos+i < len(r.toks), "a new value has a type")
			if r.word(i) && strings.HasPrefix(r.at(i), "t_") {
				typ = r.at(i)[2:]
				break
			}
		}
		args := r.list(")", env)
		switch name {
		case "f_new", "f_empty":
			name += "_" + typ
		case "vx_new_string", "vx_new_int", "vx_new", "f_new_from_type", "f_any_from_any", "vx_any_from_any":
			return args
		case "vx_new_boolean":
			return args
		case "vx_new_decimal", "vx_new_decimal_from_string":
			vxAssert(len(args) == 1 && len(args[0]) > 2 && args[0][0] == '\'', "a decimal has a text")
			return []string{args[0][1 : len(args[0])-1]}
		case "vx_fn_new":
			return args[len(args)-1:]
		case "f_let":
			vxAssert(len(args) == 1 && strings.HasPrefix(args[0], "->"), "a let has a body")
			return []string{args[0][2:]}
		}
		vxAssert(strings.HasPrefix(name, "f_"), "a function is called")
		return []string{r.get(name[2:] + "(" + strings.Join(args, ",") + ")")}
	}
	if alone {
		if name == "context" || strings.HasPrefix(name, "generic_") {
			return nil
		}
		means, ok := env[name]
		vxAssert(ok, "a name is known where it is used")
		return []string{means}
	}
	if strings.HasPrefix(name, "c_") {
		return []string{name[2:]}
	}
	if name == "t_fr" { // a function given as it is
		bound := "^" + vxDumpInt(r.depth+1)
		return []string{bound + "->fr(" + bound + ")"}
	}
	vxAssert(strings.HasPrefix(name, "t_") || strings.HasPrefix(name, "e_"), "a function, constant or type is named")
	return nil
}

// number reads a number.
func (r *vxReader) number() string {
	vxAssert(r.word(0) && r.at(0) != "" && r.at(0)[0] >= '0' && r.at(0)[0] <= '9', "a number has digits")
	out := r.at(0)
	r.pos++
	if r.at(0) == "." && r.word(1) && r.at(1)[0] >= '0' && r.at(1)[0] <= '9' {
		out += "." + r.at(1)
		r.pos += 2
	}
	return out
}

// get reads the properties that are taken from a value.
func (r *vxReader) get(means string) string {
	for {
		n := 1
		if r.at(0) == "-" && r.at(1) == ">" {
			n = 2
		} else if r.at(0) != "." {
			return means
		}
		vxAssert(r.word(n) && r.at(n+1) == "(" && r.at(n+2) == ")", "a property is taken")
		means = "any_from_struct(" + means + ",':" + r.at(n) + "')"
		r.pos += n + 3
	}
}

// one reads an expression that is one value.
func (r *vxReader) one(env map[string]string) string {
	out := r.expr(env)
	vxAssert(len(out) <= 1, "an expression is one value")
	if len(out) == 0 {
		return ""
	}
	return out[0]
}

// block reads statements up to the end of a block and returns its result.
func (r *vxReader) block(env map[string]string) string {
	result := ""
	for {
		vxAssert(r.pos < len(r.toks), "a block has an end")
		for r.at(0) == "final" || r.at(0) == ";" {
			r.pos++
		}
		name := ""
		switch {
		case r.at(0) == "}":
			r.pos++
			return result
		case r.at(0) == "return":
			r.pos++
			result = r.one(env)
			continue
		case r.at(0) == "let" || r.at(0) == "const" || r.at(0) == "val" || r.at(0) == "var":
			name = r.at(1)
			for r.at(0) != "=" {
				vxAssert(r.pos < len(r.toks), "a block has an end")
				r.pos++
			}
		default:
			from := r.pos
			name = r.path()
			if r.at(0) == "(" || r.at(0) == "}" {
				r.pos = from
				if strings.HasPrefix(name, "vx_re") { // reserves and releases
					r.path()
					depth := 0
					for ok := true; ok; ok = depth > 0 {
						vxAssert(r.pos < len(r.toks), "a block has an end")
						if r.at(0) == "(" {
							depth++
						} else if r.at(0) == ")" {
							depth--
						}
						r.pos++
					}
				} else {
					result = r.one(env)
				}
				continue
			}
			if r.word(0) {
				name = r.at(0)
				r.pos++
			}
		}
		r.skip("=")
		env[name] = r.one(env)
	}
}

// vxMeaning is what a generated function returns, or what a test compares.
func vxMeaning(lang string, toks []vxTok, name string, test bool) string {
	for i := 1; i+1 < len(toks); i++ {
		before := toks[i-1].text
		if toks[i].kind != 'w' || toks[i].text != "f_"+name || toks[i+1].text != "(" {
			continue
		}
		if test {
			r := &vxReader{lang: lang, toks: toks, pos: i}
			return r.one(map[string]string{})
		}
		if before != "." && before != ":" && before != ">" {
			r := &vxReader{lang: lang, toks: toks, pos: i + 2}
			env := map[string]string{}
			for _, p := range r.params(")") {
				env[p] = p
			}
			for r.at(0) != "{" {
				vxAssert(r.pos < len(r.toks), "a function has a body")
				r.pos++
			}
			r.pos++
			return r.block(env)
		}
	}
	vxAssert(false, "the function is generated")
	return ""
}

// The body of a function and its test compute what is written.
func vhC25Call() {
	lang := vxGenLangs[vxChoice("lang", 5)]
	test := vxParam("test") > 0 && vxBool("test")
	g := &vxCallGen{ops: vxParam("ops"), one: vxParam("one") > 0, leaves: vxParam("one") < 2, from: vxParam("from"), chain: vxParam("chain") > 0}
	if !test {
		g.names = []string{"x", "w"}
		g.means = []string{"x", "w"}
		if !g.leaves {
			g.given = 2
		}
	}
	text, means := g.text(vxParam("depth"))
	pkg := "(package p)\n" + vxCallDecls
	if g.ops > 12 {
		pkg += vxCallSix
	}
	pkg += "(func g : string [x : string w : string] "
	files := vxGenFiles(lang)
	which := len(files) - 1
	if test {
		pkg += "x :test (test \"e\" " + text + "))\n"
		means = "test('e'," + means + ")"
	} else {
		pkg += text + ")\n"
		which--
	}
	vxTrace(pkg)
	toks := vxTokens(lang, vxGenerate(lang, pkg, which))
	name := "g"
	if test {
		name = "test"
	}
	got := vxMeaning(lang, toks, name, test)
	vxTrace(got + " expected " + means)
	vxAssert(got == means, "the generated code computes what is written")
	vxCover(lang)
}

// New values, what is taken from values, and constants are as written.
func vhC25New() {
	lang := vxGenLangs[vxChoice("lang", 5)]
	g := &vxCallGen{ops: vxParam("ops"), one: vxParam("one") > 0, leaves: vxParam("one") < 2, names: []string{"x"}, means: []string{"x"}}
	if !g.leaves {
		g.given = 1
	}
	isconst := vxBool("const")
	if isconst {
		g.names, g.means, g.given = nil, nil, 0
	}
	texts := func(n int) ([]string, []string) {
		var out, means []string
		deep := -1
		if vxParam("depth") > 0 {
			deep = vxChoice("deep", n)
		}
		for i := 0; i < n; i++ {
			depth := 0
			if i == deep {
				depth = vxParam("depth")
			}
			a, ma := g.text(depth)
			out, means = append(out, a), append(means, ma)
		}
		return out, means
	}
	typ, expr, means := "", "", ""
	pair := func(names ...string) {
		a, ma := texts(len(names))
		expr, means = "("+typ, "new_"+typ+"("
		for i, name := range names {
			expr += " :" + name + " " + a[i]
			if i > 0 {
				means += ","
			}
			means += "':" + name + "'," + ma[i]
		}
		expr, means = expr+")", means+")"
	}
	kinds := 10
	if isconst {
		kinds = 4
	}
	switch vxChoice("form", kinds) {
	case 0:
		typ = "sl"
		a, ma := texts(1 + vxChoice("items", 3))
		expr, means = "(sl "+strings.Join(a, " ")+")", "new_sl("+strings.Join(ma, ",")+")"
	case 1:
		typ = "sm"
		if vxBool("two") {
			pair("kb", "ka")
		} else {
			pair("ka")
		}
	case 2:
		typ = "t"
		if vxBool("two") {
			pair("pb", "pa")
		} else {
			pair("pb")
		}
	case 3:
		typ = "ll"
		a, ma := texts(3)
		expr, means = "(ll (sl "+a[0]+") (sl "+a[1]+" "+a[2]+"))", "new_ll(new_sl("+ma[0]+"),new_sl("+ma[1]+","+ma[2]+"))"
	case 4:
		typ = "string"
		name := vxPick("property", "pa", "pb")
		expr, means = "(:"+name+" v)", "any_from_struct(v,':"+name+"')"
	case 5:
		typ = "string"
		name := vxPick("property", "pa", "pb")
		a, ma := texts(1)
		expr, means = "(f2 (:"+name+" (mk "+a[0]+")) x)", "f2(any_from_struct(mk("+ma[0]+"),':"+name+"'),x)"
	case 6:
		typ = "string"
		expr, means = "(f2 x (:2 ls))", "f2(x,any_from_list(ls,2))"
	case 7:
		typ = "string"
		expr, means = "(f1 (:kk mp))", "f1(any_from_map(mp,':kk'))"
	case 8:
		typ = "string"
		a, ma := texts(2)
		expr, means = "(fs "+a[0]+" (sl "+a[1]+" x))", "fs("+ma[0]+",new_sl("+ma[1]+",x))"
	default:
		typ = "string"
		name := vxPick("property", "pa", "pb")
		expr, means = "(:"+name+" (:u w))", "any_from_struct(any_from_struct(w,':u'),':"+name+"')"
	}
	pkg := "(package p)\n" + vxCallDecls + "(type sm : map :allowtypes [string])\n(type ll : list :allowtypes [sl])\n" +
		"(type t : struct :properties [pa : string pb : string])\n(type t2 : struct :properties [u : t])\n" +
		"(func mk : t [a : string])\n(func fs : string [a : string b : sl])\n"
	if isconst {
		pkg += "(const c : " + typ + " " + expr + ")\n"
	} else {
		pkg += "(func g : " + typ + " [x : string v : t w : t2 ls : sl mp : sm] " + expr + ")\n"
	}
	vxTrace(pkg)
	vxGenMore = vxGenNew
	files := vxGenFiles(lang)
	toks := vxTokens(lang, vxGenerate(lang, pkg, len(files)-2))
	vxGenMore = ""
	got := ""
	if isconst {
		r := &vxReader{lang: lang, toks: toks}
		for r.pos < len(toks) && !strings.HasSuffix(r.at(0), "const_new") && !(r.at(0) == "c_c" && r.at(1) == ",") {
			r.pos++
		}
		for r.pos < len(toks) && r.at(0) != "f_new" {
			r.pos++
		}
		got = r.one(map[string]string{})
	} else {
		got = vxMeaning(lang, toks, "g", false)
	}
	vxTrace(got + " expected " + means)
	vxAssert(got == means, "the generated code computes what is written")
	vxCover(lang)
}

// Literals of every kind are generated as they are written.
func vhC25Literal() {
	lang := vxGenLangs[vxChoice("lang", 5)]
	test := vxBool("test")
	pick := func(kind string) string {
		switch kind {
		case "int":
			return vxPick("int", "0", "7", "12", "-1", "100", "2147483647", "-40")
		case "decimal":
			return vxPick("decimal", "1.5", "-0.25", "10.0", "-3.14159")
		case "boolean":
			return vxPick("boolean", "true", "false")
		}
		return vxPick("number", "0", "2.5", "-8")
	}
	kind := vxPick("kind", "int", "decimal", "boolean", "number")
	lit := pick(kind)
	expr, means := "(f "+lit+")", "f("+lit+")"
	decls := "(func f : string [a : " + kind + "])\n"
	switch vxChoice("form", 5) {
	case 1:
		other := vxPick("other", "int", "decimal", "boolean")
		lit2 := pick(other)
		expr, means = "(f2 \"a\" "+lit+" "+lit2+")", "f2('a',"+lit+","+lit2+")"
		decls = "(func f2 : string [s : string a : " + kind + " b : " + other + "])\n"
	case 2:
		if kind != "int" {
			return
		}
		lit2 := pick(kind)
		expr, means = "(lv "+lit+" "+lit2+" 3)", "lv("+lit+","+lit2+",3)"
		decls = "(type il : list :allowtypes [int])\n(func lv : string [a : il :...])\n"
	case 3:
		expr = "(let [v : " + kind + " := " + lit + "] (f v))"
	case 4:
		expr, means = "(f1 "+expr+")", "f1("+means+")"
		decls += "(func f1 : string [a : string])\n"
	}
	pkg := "(package p)\n" + decls
	files := vxGenFiles(lang)
	which, name := len(files)-2, "g"
	if test {
		which, name = len(files)-1, "test"
		pkg += "(func g : string \"x\" :test (test \"e\" " + expr + "))\n"
		means = "test('e'," + means + ")"
	} else {
		pkg += "(func g : string " + expr + ")\n"
	}
	vxTrace(pkg)
	vxGenMore = "(type number :allowtypes [int float decimal])\n(type boolean)\n(type float :traits [number])\n(type decimal :traits [number])\n" +
		"(const true : boolean)\n(const false : boolean)\n"
	toks := vxTokens(lang, vxGenerate(lang, pkg, which))
	vxGenMore = ""
	got := vxMeaning(lang, toks, name, test)
	vxTrace(got + " expected " + means)
	vxAssert(got == means, "a literal is generated as written")
	vxCover(lang)
}
