package vxlisp

func init() {
	vxHarness["vhC12Call"] = vhC12Call
	vxHarness["vhC12Lambda"] = vhC12Lambda
	vxHarness["vhC12Where"] = vhC12Where
}

// Types of one letter: n allows i, l is a list of i, m a list of n, d allows i
// and s but disallows i, t is a trait of v.
const vxTypes = "(type i)\n(type s)\n(type n :allowtypes [i])\n" +
	"(type l : list :allowtypes [i])\n(type m : list :allowtypes [n])\n" +
	"(type d :allowtypes [i s] :disallowtypes [i])\n" +
	"(type t)\n(type v :traits [t])\n"

// vxAccepts tells whether a parameter of one type takes an argument of another.
func vxAccepts(param string, arg string) bool {
	switch {
	case param == arg || param == "any":
		return true
	case param == "n" || param == "l":
		return arg == "i"
	case param == "m":
		return arg == "n"
	case param == "d":
		return arg == "s"
	case param == "t":
		return arg == "v"
	}
	return false
}

type vxOver struct {
	params []string
	multi  bool
}

func (o vxOver) accepts(args []string) bool {
	n := len(o.params)
	if len(args) < n || len(args) > n && !o.multi {
		return false
	}
	for i, arg := range args {
		param := ""
		if i < n {
			param = o.params[i]
		} else {
			param = o.params[n-1]
		}
		ok := vxAccepts(param, arg)
		if param == "m" && i >= n-1 && o.multi && arg == "i" {
			ok = true // an element of a list of n
		}
		if !ok {
			return false
		}
	}
	return true
}

func vhC12Call() {
	list := vxStandard(vxCore)
	set := "isnldtm"[:vxParam("params")]
	if vxParam("lists") == 1 {
		set = "lis"[:vxParam("params")]
	}
	argset := "isvnl"[:vxParam("args")]
	text := "(package p)\n" + vxTypes + "(type r)\n"
	var overs []vxOver
	for k := 0; k < vxParam("overs"); k++ {
		var o vxOver
		n := vxChoice("count", vxParam("maxparams")+1)
		text += "(func o : r ["
		for i := 0; i < n; i++ {
			t := "any"
			if !vxBool("any") {
				t = vxStrIn("param", 1, set)
			}
			text += " x" + vxDumpInt(i) + " : " + t
			o.params = append(o.params, t)
			if i == n-1 && vxBool("variadic") {
				vxAssume(t == "l" || t == "m")
				o.multi = true
				text += " :..."
			}
		}
		if !o.multi && n > 0 {
			// a single value in place of a whole list is left open
			last := o.params[n-1]
			vxAssume(last != "l" && last != "m")
		}
		text += "] :doc \"d" + vxDumpInt(k) + "\")\n"
		overs = append(overs, o)
	}
	var args []string
	call, params := "(o", ""
	n := vxChoice("argcount", vxParam("maxargs")+1)
	for i := 0; i < n; i++ {
		t := vxStrIn("arg", 1, argset)
		args = append(args, t)
		params += " a" + vxDumpInt(i) + " : " + t
		call += " a" + vxDumpInt(i)
	}
	text += "(func f : r [" + params + " ]\n " + call + "))\n"
	pkg, bad := vxPackage(text)
	vxAssert(!bad, "the package is accepted")
	list = append(list, pkg)
	want := -1
	for i, o := range overs {
		if o.accepts(args) {
			want = i
			break
		}
	}
	vxAssert(vxCompile(list) == (want < 0), "a call is an error exactly if nothing accepts it")
	if want < 0 {
		vxCover("error")
		return
	}
	got, ok := vxFuncNamed(pkg, "f").value.native.(*vxfunc)
	vxAssert(ok, "the body is a call")
	first := 0
	for i, fnc := range pkg.listfunc {
		if fnc.name == "o" && fnc.idx == got.idx {
			first = i
			break
		}
	}
	vxObserve("bound", vxDumpInt(got.idx))
	vxAssert(got.name == "o" && pkg.listfunc[first].doc == "d"+vxDumpInt(want), "the first accepting function is called")
	vxAssert(len(got.listarg) == len(args), "every argument is passed")
	for i, arg := range got.listarg {
		a, ok := arg.value.native.(vxarg)
		vxAssert(ok && a.name == "a"+vxDumpInt(i), "the arguments keep their order")
	}
	if overs[want].multi && len(args) > len(overs[want].params) {
		vxCover("variadic")
	}
	if want > 0 {
		vxCover("later")
	} else {
		vxCover("first")
	}
}

// Overloads taking functions: a lambda or a function name is accepted by its
// number and types of parameters.
func vhC12Lambda() {
	list := vxStandard(vxCore)
	set := "isn"[:vxParam("types")]
	text := "(package p)\n" + vxTypes + "(type r)\n(func mk : r)\n"
	var overs []vxOver
	for k := 0; k < 2; k++ {
		var o vxOver
		n := 1 + vxChoice("count", 2)
		fn := "(func g" + vxDumpInt(k) + " : r ["
		for i := 0; i < n; i++ {
			t := vxStrIn("param", 1, set)
			fn += " x" + vxDumpInt(i) + " : " + t
			o.params = append(o.params, t)
		}
		overs = append(overs, o)
		text += fn + " ])\n"
	}
	for k := range overs {
		text += "(func o : r [h : g" + vxDumpInt(k) + "] :doc \"d" + vxDumpInt(k) + "\")\n"
	}
	n := 1 + vxChoice("argcount", 2)
	var args []string
	params := "["
	for i := 0; i < n; i++ {
		t := vxStrIn("arg", 1, set)
		args = append(args, t)
		params += " a" + vxDumpInt(i) + " : " + t
	}
	params += " ]"
	if vxBool("lambda") {
		text += "(func f : r\n (o (fn : r " + params + " (mk))))\n"
	} else {
		text += "(func z : r " + params + ")\n(func f : r\n (o z))\n"
	}
	pkg, bad := vxPackage(text)
	vxAssert(!bad, "the package is accepted")
	list = append(list, pkg)
	want := -1
	for i, o := range overs {
		if len(o.params) == n && o.accepts(args) {
			want = i
			break
		}
	}
	vxAssert(vxCompile(list) == (want < 0), "a call is an error exactly if nothing accepts it")
	if want < 0 {
		vxCover("error")
		return
	}
	got, ok := vxFuncNamed(pkg, "f").value.native.(*vxfunc)
	vxAssert(ok, "the body is a call")
	vxObserve("bound", vxDumpInt(got.idx))
	doc := ""
	for _, fnc := range pkg.listfunc {
		if fnc.name == "o" && fnc.idx == got.idx {
			doc = fnc.doc
		}
	}
	vxAssert(doc == "d"+vxDumpInt(want), "the first accepting function is called")
	if want > 0 {
		vxCover("later")
	} else {
		vxCover("first")
	}
}

// vxCalled finds the calls of a function inside of an expression.
func vxCalled(v vxvalue, name string, depth int) []*vxfunc {
	var out []*vxfunc
	if args, ok := v.native.([]vxarg); ok && depth > 0 {
		for _, arg := range args {
			out = append(out, vxCalled(arg.value, name, depth-1)...)
		}
		return out
	}
	fnc, ok := v.native.(*vxfunc)
	if !ok || depth == 0 {
		return nil
	}
	if fnc.name == name {
		out = append(out, fnc)
	}
	for _, arg := range fnc.listarg {
		out = append(out, vxCalled(arg.value, name, depth-1)...)
	}
	return append(out, vxCalled(fnc.value, name, depth-1)...)
}

// Calls in many places, of functions here and in a library, with arguments of
// many kinds.
func vhC12Where() {
	list := vxStandard(vxCore + "(type string)\n")
	heads := []string{"a : int", "a : string", "a : int b : int", "a : int b : string", "", "a : t1", "a : int b : int c : string"}
	wants := []string{"i", "s", "ii", "is", "", "t", "iis"}
	first := vxChoice("first", len(heads))
	decls := ""
	for i := range heads {
		k := (first + i) % len(heads)
		decls += "(func o : any [" + heads[k] + "] :doc \"d" + vxDumpInt(k) + "\")\n"
	}
	want := vxChoice("want", len(heads))
	args, params := "", ""
	kind := vxChoice("arg", 4)
	for i := 0; i < len(wants[want]); i++ {
		c := wants[want][i]
		t := map[byte]string{'i': "int", 's': "string", 't': "t1"}[c]
		lit := map[byte]string{'i': "7", 's': "\"x\"", 't': "ct"}[c]
		switch (kind + i) % 4 {
		case 0:
			args += " " + lit
		case 1:
			params += " a" + vxDumpInt(i) + " : " + t
			args += " a" + vxDumpInt(i)
		case 2:
			args += " (m" + t + ")"
		case 3:
			args += " (let : " + t + " [l : " + t + " := " + lit + "] l)"
		}
	}
	name := "o"
	imported := vxBool("imported")
	if imported && vxBool("prefixed") {
		name = "q/o"
	}
	call := "(" + name + args + ")"
	const made = "(const ct : t1)\n(func mint : int)\n(func mstring : string)\n(func mt1 : t1)\n"
	f := ""
	place := vxChoice("place", 7)
	switch place {
	case 0:
		f = "(func f : any [" + params + "]\n " + call + ")\n"
	case 1:
		f = "(func f : any [" + params + "]\n (g 1 (g " + call + " 2)))\n"
	case 2:
		f = "(func f : any [" + params + "]\n (let : any [b : any := " + call + "] b))\n"
	case 3:
		f = "(func f : any [" + params + "]\n (let : any [b : any := 1] " + call + "))\n"
	case 4:
		f = "(func f : any [" + params + "]\n (h (fn : any [b : any] " + call + ")))\n"
	case 5:
		vxAssume(params == "")
		f = "(const f : any\n " + call + ")\n"
	case 6:
		vxAssume(params == "")
		f = "(func f : any [a : any]\n a\n :test (test 1 " + call + "))\n"
	}
	head := "(package p)\n"
	if imported {
		lib, bad := vxPackage("(package a)\n" + decls)
		vxAssert(!bad, "the library is accepted")
		list = append(list, lib)
		head, decls = "(package p :libs (lib q :path a))\n", ""
	}
	pkg, bad := vxPackage(head + made + decls + f)
	vxAssert(!bad, "the package is accepted")
	list = append(list, pkg)
	vxAssert(!vxCompile(list), "the call is accepted")
	var value vxvalue
	for _, cnst := range pkg.listconst {
		if cnst.name == "f" {
			value = cnst.value
		}
	}
	if place != 5 {
		value = vxFuncNamed(pkg, "f").value
	}
	if place == 6 {
		value = vxFuncNamed(pkg, "f").listtestvalue[0]
	}
	calls := vxCalled(value, "o", 6)
	vxAssert(len(calls) == 1, "the call is there once")
	doc := ""
	for _, p := range list {
		for _, fnc := range p.listfunc {
			if fnc.name == "o" && fnc.pkgname == calls[0].pkgname && fnc.idx == calls[0].idx {
				doc = fnc.doc
			}
		}
	}
	vxAssert(doc == "d"+vxDumpInt(want), "the accepting function is called")
	vxCover("called")
}
