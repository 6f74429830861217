package vxlisp

func init() {
	vxHarness["vhC07Word"] = vhC07Word
	vxHarness["vhC07Digits"] = vhC07Digits
	vxHarness["vhC07Quoted"] = vhC07Quoted
}

func vxIsDigit(c byte) bool { return c >= '0' && c <= '9' }

// vxNumeral reports whether w is a decimal numeral, and whether it is written as an integer.
func vxNumeral(w string) (numeral, integer bool) {
	i := 0
	if i < len(w) && (w[i] == '+' || w[i] == '-') {
		i++
	}
	digits := 0
	for i < len(w) && vxIsDigit(w[i]) {
		i++
		digits++
	}
	if i == len(w) {
		return digits > 0, digits > 0
	}
	if w[i] == '.' {
		i++
		for i < len(w) && vxIsDigit(w[i]) {
			i++
			digits++
		}
	}
	if digits == 0 {
		return false, false
	}
	if i < len(w) && (w[i] == 'e' || w[i] == 'E') {
		i++
		if i < len(w) && (w[i] == '+' || w[i] == '-') {
			i++
		}
		n := 0
		for i < len(w) && vxIsDigit(w[i]) {
			i++
			n++
		}
		if n == 0 {
			return false, false
		}
	}
	return i == len(w), false
}

// vxIn32 reports whether an integer numeral is in 32-bit range.
func vxIn32(w string) bool {
	limit := "2147483647"
	if w[0] == '+' || w[0] == '-' {
		if w[0] == '-' {
			limit = "2147483648"
		}
		w = w[1:]
	}
	for len(w) > len(limit) {
		if w[0] != '0' {
			return false
		}
		w = w[1:]
	}
	if len(w) < len(limit) {
		return true
	}
	for i := 0; i < len(w); i++ {
		if w[i] != limit[i] {
			return w[i] < limit[i]
		}
	}
	return true
}

func vhC07Check(w string) {
	pkg, bad := vxPackage("(package p)\n(const c : any (f " + w + " z))")
	vxAssert(!bad, "a word gives no error")
	args := vxCallArgs(pkg.listconst[0].value)
	vxAssert(len(args) == 2, "the word is one argument")
	v := args[0].value
	vxObserve("code", v.code)
	if w[0] == ':' {
		vxCover("keyword")
		vxAssert(v.code == "string", "a keyword is a string")
		s, _ := v.native.(string)
		vxAssert(s == w, "a keyword keeps its spelling")
		return
	}
	num, integer := vxNumeral(w)
	if integer && vxIn32(w) {
		vxCover("integer")
		vxAssert(v.code == "int", "an integer numeral is an integer")
		s, _ := v.native.(string)
		vxAssert(s == w, "an integer keeps its spelling")
	} else if num {
		vxCover("decimal")
		vxAssert(v.code == "decimal", "another numeral is a decimal")
		s, _ := v.native.(string)
		vxAssert(s == w, "a decimal keeps its spelling")
	} else {
		vxCover("name")
		vxAssert(v.code == ":unknown", "another word is a name")
		vxAssert(v.name == w, "a name keeps its spelling")
	}
}

const vxNumSet = "0123456789+-.eE_:abfinptxyINF<>?/*"

func vhC07Word() {
	n := 1 + vxChoice("length", vxParam("n"))
	w := vxStrIn("word$", n, vxNumSet)
	vxAssume(w != ":")
	vxAssume(w[0] != '/')
	for i := 0; i+1 < n; i++ {
		vxAssume(!(w[i] == '/' && w[i+1] == '*'))
	}
	vhC07Check(w)
}

func vhC07Digits() {
	sign := vxPick("sign", "", "-", "+")
	w := sign + vxStrIn("digits$", 8+vxChoice("length", vxParam("n")), "0123456789")
	vhC07Check(w)
}

func vhC07Quoted() {
	n := vxChoice("length", vxParam("n")+1)
	body := vxStrIn("body$", n, vxNumSet+"()[]{} ,;'")
	q := vxPick("quote", "\"", "`")
	t := q + body + q
	switch vxChoice("place", 5) {
	case 0:
		pkg, bad := vxPackage("(package p)\n(const c : any (f " + t + " z))")
		vxAssert(!bad, "a quoted argument gives no error")
		args := vxCallArgs(pkg.listconst[0].value)
		vxAssert(len(args) == 2, "the quoted text is one argument")
		vhC07String(args[0].value, body)
	case 1:
		pkg, bad := vxPackage("(package p)\n(const c : string\n " + t + ")")
		vxAssert(!bad, "a quoted constant gives no error")
		vhC07String(pkg.listconst[0].value, body)
	case 2:
		pkg, bad := vxPackage("(package p)\n(func f : string\n " + t + ")")
		vxAssert(!bad, "a quoted result gives no error")
		vhC07String(pkg.listfunc[0].value, body)
	case 3:
		pkg, bad := vxPackage("(package p)\n(func f : string [a : string := " + t + " b : int]\n a)")
		vxAssert(!bad, "a quoted default gives no error")
		vxAssert(len(pkg.listfunc[0].listarg) == 2, "two parameters")
		vhC07String(pkg.listfunc[0].listarg[0].value, body)
	case 4:
		pkg, bad := vxPackage("(package p)\n(const c : any (f [" + t + " 1]))")
		vxAssert(!bad, "a quoted list item gives no error")
		args := vxCallArgs(vxCallArgs(pkg.listconst[0].value)[0].value)
		vxAssert(len(args) == 3, "the list has two items")
		vhC07String(args[1].value, body)
	}
}

func vhC07String(v vxvalue, body string) {
	vxCover("quoted")
	vxAssert(v.code == "string", "quoted text is a string")
	s, _ := v.native.(string)
	vxAssert(s == "\""+body+"\"", "quoted text keeps its characters")
}
