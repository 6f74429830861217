package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// redirects replace library functions by models written in Go in the harness package.
var redirects = map[string]string{
	"sort.Slice":                  "vxmSortSlice",
	"sort.SliceStable":            "vxmSortSlice",
	"os.Stat":                     "vxmStat",
	"os.Lstat":                    "vxmLstat",
	"os.IsExist":                  "vxmIsExist",
	"os.IsNotExist":               "vxmIsNotExist",
	"os.Create":                   "vxmCreate",
	"os.Open":                     "vxmOpen",
	"os.OpenFile":                 "vxmOpenFile",
	"os.ReadFile":                 "vxmReadFile",
	"os.WriteFile":                "vxmWriteFile",
	"os.Mkdir":                    "vxmMkdir",
	"os.MkdirAll":                 "vxmMkdirAll",
	"os.Remove":                   "vxmRemove",
	"os.Rename":                   "vxmRename",
	"os.Symlink":                  "vxmSymlink",
	"os.Readlink":                 "vxmReadlink",
	"os.Getwd":                    "vxmGetwd",
	"os.Chdir":                    "vxmChdir",
	"(*os.File).WriteString":      "vxmFileWriteString",
	"(*os.File).Write":            "vxmFileWrite",
	"(*os.File).Close":            "vxmFileClose",
	"(*os.File).Chmod":            "vxmFileChmod",
	"(*os.File).Sync":             "vxmFileSync",
	"os.RemoveAll":                "vxmRemoveAll",
	"os.ReadDir":                  "vxmReadDir",
	"(*io/fs.PathError).Unwrap":   "vxmPathErrorUnwrap",
	"(*bufio.Writer).Write":       "vxmWriterWrite",
	"io.Copy":                     "vxmCopy",
	"io.WriteString":              "vxmIoWriteString",
	"io.ReadAll":                  "vxmIoReadAll",
	"path/filepath.Walk":          "vxmWalk",
	"path/filepath.WalkDir":       "vxmWalkDir",
	"(*io/fs.PathError).Error":    "vxmPathErrorString",
	"(io/fs.FileMode).IsDir":      "vxmModeIsDir",
	"(io/fs.FileMode).IsRegular":  "vxmModeIsRegular",
	"(io/fs.FileMode).Type":       "vxmModeType",
	"(io/fs.FileMode).Perm":       "vxmModePerm",
	"strconv.ParseInt":            "vxmParseInt",
	"strconv.Atoi":                "vxmAtoi",
	"strconv.ParseFloat":          "vxmParseFloat",
	"(*strconv.NumError).Error":   "vxmNumErrorString",
	"errors.Is":                   "vxmErrorsIs",
	"fmt.Fprintf":                 "vxmFprintf",
	"fmt.Fprintln":                "vxmFprintln",
	"fmt.Fprint":                  "vxmFprint",
	"bufio.NewWriter":             "vxmNewWriter",
	"(*bufio.Writer).Flush":       "vxmWriterFlush",
	"(*bufio.Writer).WriteString": "vxmWriterWriteString",
}

func (e *Engine) matchAt(s, sub []*Expr, i int) *Expr {
	r := e.x.true_
	for j := range sub {
		if s[i+j].op == OConst && sub[j].op == OConst && s[i+j] != sub[j] {
			return e.x.false_
		}
	}
	for j := range sub {
		r = e.x.and(r, e.x.eq(s[i+j], sub[j]))
	}
	return r
}

func conc2(args []Value) (string, string, bool) {
	a, ok1 := args[0].str()
	b, ok2 := args[1].str()
	return a, b, ok1 && ok2
}

func (e *Engine) sIndex(s, sub Value) int {
	if a, b, ok := conc2([]Value{s, sub}); ok {
		return strings.Index(a, b)
	}
	x, y := e.strBytes(s), e.strBytes(sub)
	for i := 0; i+len(y) <= len(x); i++ {
		if e.decide(e.matchAt(x, y, i)) {
			return i
		}
	}
	return -1
}

func (e *Engine) sLastIndex(s, sub Value) int {
	if a, b, ok := conc2([]Value{s, sub}); ok {
		return strings.LastIndex(a, b)
	}
	x, y := e.strBytes(s), e.strBytes(sub)
	for i := len(x) - len(y); i >= 0; i-- {
		if e.decide(e.matchAt(x, y, i)) {
			return i
		}
	}
	return -1
}

func (e *Engine) sHasPrefix(s, p Value) *Expr {
	n := strLen(p)
	if strLen(s) < n {
		return e.x.false_
	}
	return e.strEq(subStr0(s, 0, n), p)
}

func (e *Engine) sHasSuffix(s, p Value) *Expr {
	n := strLen(p)
	if strLen(s) < n {
		return e.x.false_
	}
	return e.strEq(subStr0(s, strLen(s)-n, strLen(s)), p)
}

func subStr0(s Value, lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	return subStr(s, lo, hi)
}

func (e *Engine) sContains(s, sub Value) *Expr {
	if a, b, ok := conc2([]Value{s, sub}); ok {
		return e.x.boolean(strings.Contains(a, b))
	}
	x, y := e.strBytes(s), e.strBytes(sub)
	r := e.x.false_
	for i := 0; i+len(y) <= len(x); i++ {
		r = e.x.or(r, e.matchAt(x, y, i))
	}
	return r
}

func (e *Engine) sSplit(s, sep Value, max int) []Value {
	if strLen(sep) == 0 {
		a, ok := s.str()
		if !ok {
			panic(unsup("split of symbolic text by nothing"))
		}
		out := []Value{}
		for _, p := range strings.SplitN(a, "", max) {
			out = append(out, vStr(p))
		}
		return out
	}
	if a, b, ok := conc2([]Value{s, sep}); ok {
		out := []Value{}
		for _, p := range strings.SplitN(a, b, max) {
			out = append(out, vStr(p))
		}
		return out
	}
	out := []Value{}
	if max == 0 {
		return nil
	}
	x, y := e.strBytes(s), e.strBytes(sep)
	start := 0
	for i := 0; i+len(y) <= len(x); {
		if max > 0 && len(out) == max-1 {
			break
		}
		if e.decide(e.matchAt(x, y, i)) {
			out = append(out, subStr0(s, start, i))
			i += len(y)
			start = i
		} else {
			i++
		}
	}
	return append(out, subStr0(s, start, len(x)))
}

func (e *Engine) sReplace(s, old, nw Value, n int) Value {
	a, ok1 := s.str()
	b, ok2 := old.str()
	c, ok3 := nw.str()
	if ok1 && ok2 && ok3 {
		return vStr(strings.Replace(a, b, c, n))
	}
	x, y, z := e.strBytes(s), e.strBytes(old), e.strBytes(nw)
	if len(y) == 0 {
		panic(unsup("replace of empty text in symbolic text"))
	}
	out := []*Expr{}
	i := 0
	for i+len(y) <= len(x) && n != 0 {
		if e.decide(e.matchAt(x, y, i)) {
			out = append(out, z...)
			i += len(y)
			n--
		} else {
			out = append(out, x[i])
			i++
		}
	}
	out = append(out, x[i:]...)
	return mkStr(out)
}

func (e *Engine) sCount(s, sub Value) int {
	if a, b, ok := conc2([]Value{s, sub}); ok {
		return strings.Count(a, b)
	}
	x, y := e.strBytes(s), e.strBytes(sub)
	if len(y) == 0 {
		return e.runeCount(s) + 1
	}
	n := 0
	for i := 0; i+len(y) <= len(x); {
		if e.decide(e.matchAt(x, y, i)) {
			n++
			i += len(y)
		} else {
			i++
		}
	}
	return n
}

func (e *Engine) runeCount(s Value) int {
	if a, ok := s.str(); ok {
		return utf8.RuneCountInString(a)
	}
	n := 0
	for i, l := 0, strLen(s); i < l; {
		_, sz := e.decodeRune(s, i)
		i += sz
		n++
	}
	return n
}

func (e *Engine) isSpaceByte(b *Expr) *Expr {
	x := e.x
	r := x.eq(b, x.bytes[' '])
	return x.or(r, x.and(x.cmp(OUle, x.bytes[9], b), x.cmp(OUle, b, x.bytes[13])))
}

// sTrim trims bytes for which f holds; non-ASCII text at the ends must be concrete.
func (e *Engine) sTrimSpace(s Value, left, right bool) Value {
	if a, ok := s.str(); ok {
		if left {
			a = strings.TrimLeftFunc(a, unicode.IsSpace)
		}
		if right {
			a = strings.TrimRightFunc(a, unicode.IsSpace)
		}
		return vStr(a)
	}
	b := e.strBytes(s)
	lo, hi := 0, len(b)
	ascii := func(c *Expr) bool { return e.decide(e.x.cmp(OUlt, c, e.x.bytes[0x80])) }
	for left && lo < hi {
		if !ascii(b[lo]) {
			return e.sTrimSpace(vStr(e.concreteText(s)), left, right)
		}
		if !e.decide(e.isSpaceByte(b[lo])) {
			break
		}
		lo++
	}
	for right && lo < hi {
		if !ascii(b[hi-1]) {
			return e.sTrimSpace(vStr(e.concreteText(s)), left, right)
		}
		if !e.decide(e.isSpaceByte(b[hi-1])) {
			break
		}
		hi--
	}
	return subStr0(s, lo, hi)
}

// concreteText forks until every byte of a text is concrete.
func (e *Engine) concreteText(s Value) string {
	b := e.strBytes(s)
	out := make([]byte, len(b))
	for i, c := range b {
		out[i] = byte(e.concretize(ofExpr(c), 8))
	}
	return string(out)
}

// inSet tells whether a byte is one of the characters of a concrete ASCII text.
func (e *Engine) inSet(c *Expr, set string) *Expr {
	r := e.x.false_
	for i := 0; i < len(set); i++ {
		r = e.x.or(r, e.x.eq(c, e.x.bytes[set[i]]))
	}
	return r
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func (e *Engine) sTrimSet(s, set Value, left, right bool) Value {
	cut := e.concreteText(set)
	_, conc := s.str()
	if conc || !isASCII(cut) {
		a := e.concreteText(s)
		if left {
			a = strings.TrimLeft(a, cut)
		}
		if right {
			a = strings.TrimRight(a, cut)
		}
		return vStr(a)
	}
	b := e.strBytes(s)
	lo, hi := 0, len(b)
	for left && lo < hi && e.decide(e.inSet(b[lo], cut)) {
		lo++
	}
	for right && lo < hi && e.decide(e.inSet(b[hi-1], cut)) {
		hi--
	}
	return subStr0(s, lo, hi)
}

// sIndexSet is the first (or last) position of a character out of set.
func (e *Engine) sIndexSet(s, set Value, last bool) Value {
	cut := e.concreteText(set)
	_, conc := s.str()
	if conc || !isASCII(cut) {
		if last {
			return vInt(strings.LastIndexAny(e.concreteText(s), cut))
		}
		return vInt(strings.IndexAny(e.concreteText(s), cut))
	}
	b := e.strBytes(s)
	for i := range b {
		if last {
			i = len(b) - 1 - i
		}
		if e.decide(e.inSet(b[i], cut)) {
			return vInt(i)
		}
	}
	return vInt(-1)
}

func (e *Engine) sCase(s Value, upper bool) Value {
	if a, ok := s.str(); ok {
		if upper {
			return vStr(strings.ToUpper(a))
		}
		return vStr(strings.ToLower(a))
	}
	x := e.x
	b := e.strBytes(s)
	lo, hi, d := byte('a'), byte('z'), ^uint64(31)
	if !upper {
		lo, hi, d = 'A', 'Z', 32
	}
	out := make([]*Expr, 0, len(b))
	for i := 0; i < len(b); {
		c := b[i]
		if e.decide(x.cmp(OUlt, c, x.bytes[0x80])) {
			in := x.and(x.cmp(OUle, x.bytes[lo], c), x.cmp(OUle, c, x.bytes[hi]))
			out = append(out, x.ite(in, x.bin(OAdd, c, x.konst(8, d)), c))
			i++
			continue
		}
		r, sz := e.decodeRune(s, i)
		rv := e.concretize(r, 32)
		var nr rune
		if upper {
			nr = unicode.ToUpper(rune(rv))
		} else {
			nr = unicode.ToLower(rune(rv))
		}
		for _, ch := range []byte(string(nr)) {
			out = append(out, x.bytes[ch])
		}
		i += sz
	}
	return mkStr(out)
}

func sliceOf(vs []Value) Value {
	if vs == nil {
		return Value{}
	}
	return Value{o: &Slice{vs}}
}

func elems(v Value) []Value {
	if s, ok := v.o.(*Slice); ok {
		return s.a
	}
	return nil
}

func (e *Engine) mkError(msg Value) Value {
	if t, ok := e.typeCache["errorString"]; ok {
		p := new(Value)
		*p = Value{o: &Agg{[]Value{msg}}}
		return Value{o: &Iface{t, Value{o: p}}}
	}
	pkg := e.P.pkgs["errors"]
	t := types.NewPointer(pkg.Scope().Lookup("errorString").Type())
	if e.typeCache == nil {
		e.typeCache = map[string]types.Type{}
	}
	e.typeCache["errorString"] = t
	return e.mkError(msg)
}

// show formats a value the way fmt's %v does, for the kinds this program prints.
func (e *Engine) show(v Value) Value {
	i, _ := v.o.(*Iface)
	if i == nil {
		return vStr("<nil>")
	}
	if n, ok := i.t.(*types.Pointer); ok {
		if nm, ok := n.Elem().(*types.Named); ok && nm.Obj().Name() == "errorString" {
			return i.v.o.(*Value).o.(*Agg).v[0]
		}
		return vStr("0xc000012345")
	}
	k := tinfo(i.t)
	switch k.c {
	case cString:
		return i.v
	case cBool:
		if e.decide(e.exprOf(i.v, 0)) {
			return vStr("true")
		}
		return vStr("false")
	case cInt:
		n := e.concretize(i.v, k.w)
		if k.signed {
			return vStr(strconv.FormatInt(sx(n, k.w), 10))
		}
		return vStr(strconv.FormatUint(n, 10))
	case cFloat:
		if i.v.o == nil {
			return vStr(fmt.Sprint(i.v.float()))
		}
	}
	if sl, ok := i.t.Underlying().(*types.Slice); ok {
		r := vStr("[")
		for j, x := range elems(i.v) {
			if j > 0 {
				r = e.concat(r, vStr(" "))
			}
			r = e.concat(r, e.show(Value{o: &Iface{sl.Elem(), x}}))
		}
		return e.concat(r, vStr("]"))
	}
	panic(unsup("formatting %s", i.t))
}

func isStringIface(v Value) bool {
	i, _ := v.o.(*Iface)
	return i != nil && tinfo(i.t).c == cString
}

func (e *Engine) sprint(vs []Value, ln bool) Value {
	r := Value{}
	for j, v := range vs {
		if j > 0 && (ln || !isStringIface(v) && !isStringIface(vs[j-1])) {
			r = e.concat(r, vStr(" "))
		}
		r = e.concat(r, e.show(v))
	}
	if ln {
		r = e.concat(r, vStr("\n"))
	}
	return r
}

func (e *Engine) sprintf(f Value, vs []Value) Value {
	fs, ok := f.str()
	if !ok {
		panic(unsup("symbolic format"))
	}
	r := Value{}
	n := 0
	for i := 0; i < len(fs); {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			r = e.concat(r, vStr(fs[i:]))
			break
		}
		r = e.concat(r, vStr(fs[i:i+j]))
		i += j
		k := i + 1
		for k < len(fs) && strings.IndexByte("+-# 0123456789.", fs[k]) >= 0 {
			k++
		}
		if k >= len(fs) {
			r = e.concat(r, vStr("%!(NOVERB)"))
			break
		}
		verb := fs[k]
		spec := fs[i : k+1]
		i = k + 1
		if verb == '%' {
			r = e.concat(r, vStr("%"))
			continue
		}
		if n >= len(vs) {
			r = e.concat(r, vStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := vs[n]
		n++
		if (verb == 's' || verb == 'v' || verb == 'w' || verb == 'd') && len(spec) == 2 {
			r = e.concat(r, e.show(a))
			continue
		}
		ifc, _ := a.o.(*Iface)
		if ifc == nil {
			panic(unsup("format %s of nil", spec))
		}
		k2 := tinfo(ifc.t)
		var g any
		switch k2.c {
		case cString:
			s, ok := ifc.v.str()
			if !ok {
				if verb == 's' || verb == 'v' || verb == 'q' {
					panic(unsup("format %s of symbolic text", spec))
				}
			}
			g = s
		case cInt:
			c := e.concretize(ifc.v, k2.w)
			if k2.signed {
				g = sx(c, k2.w)
			} else {
				g = c
			}
		case cBool:
			g = e.decide(e.exprOf(ifc.v, 0))
		case cFloat:
			if ifc.v.o != nil {
				panic(unsup("format of a symbolic float"))
			}
			g = ifc.v.float()
		default:
			panic(unsup("format %s of %s", spec, ifc.t))
		}
		r = e.concat(r, vStr(fmt.Sprintf(spec, g)))
	}
	if n < len(vs) {
		panic(unsup("format with extra arguments"))
	}
	return r
}

// parseFloatModel decides the syntax of a decimal literal by forking on its characters.
// The second result tells the error: 0 none, 1 syntax, 2 range.
func (e *Engine) parseFloat(s Value, bits int) Value {
	nerr := func(kind string) Value {
		return vInt(map[string]int{"invalid syntax": 1, "value out of range": 2}[kind])
	}
	if c, ok := s.str(); ok {
		f, err := strconv.ParseFloat(c, bits)
		if err != nil {
			return tuple(vFloat(f), nerr(numErr(err)))
		}
		return tuple(vFloat(f), Value{})
	}
	// Each symbolic byte is split into the classes the syntax distinguishes; digits stay
	// symbolic, everything else becomes concrete.
	b := e.strBytes(s)
	rep := make([]byte, len(b))
	nonDigit := false
	for i, c := range b {
		if c.op == OConst {
			rep[i] = byte(c.val)
		} else if e.decide(e.x.and(e.x.cmp(OUle, e.x.bytes['0'], c), e.x.cmp(OUle, c, e.x.bytes['9']))) {
			rep[i] = '1'
		} else {
			// only these characters can occur in a number
			ok := e.x.false_
			for _, ch := range []byte("+-._abcdefxpintyABCDEFXPINTY") {
				ok = e.x.or(ok, e.x.eq(c, e.x.bytes[ch]))
			}
			if !e.decide(ok) {
				return tuple(vFloat(0), nerr("invalid syntax"))
			}
			rep[i] = byte(e.concretize(ofExpr(c), 8))
		}
		if !(rep[i] >= '0' && rep[i] <= '9' || rep[i] == '.' || (i == 0 && (rep[i] == '-' || rep[i] == '+'))) {
			nonDigit = true
		}
	}
	if _, err := strconv.ParseFloat(string(rep), bits); err != nil && !strings.Contains(err.Error(), "range") {
		// digits influence validity only through the leading 0 of a 0x prefix
		if !nonDigit || !strings.ContainsAny(string(rep), "xX") {
			return tuple(vFloat(0), nerr("invalid syntax"))
		}
	} else if !nonDigit && len(b) <= 300 {
		return tuple(Value{o: &Opaque{"symbolic float"}}, Value{})
	}
	// exponents, hexadecimal, underscores: make the digits concrete
	for i, c := range b {
		rep[i] = byte(e.concretize(ofExpr(c), 8))
	}
	return e.parseFloat(vStr(string(rep)), bits)
}

// parseInt decides syntax and range of an integer by its characters: digits stay symbolic
// and are compared one by one with the limit, so that no multiplication reaches the solver.
// The second result tells the error: 0 none, 1 syntax, 2 range.
func (e *Engine) parseInt(s Value, base, bits int) Value {
	nerr := func(kind string) Value {
		return vInt(map[string]int{"invalid syntax": 1, "value out of range": 2}[kind])
	}
	if bits == 0 {
		bits = 64
	}
	if c, ok := s.str(); ok {
		n, err := strconv.ParseInt(c, base, bits)
		if err != nil {
			return tuple(Value{n: uint64(n)}, nerr(numErr(err)))
		}
		return tuple(Value{n: uint64(n)}, Value{})
	}
	if base != 10 {
		panic(unsup("ParseInt of symbolic text in base %d", base))
	}
	b := e.strBytes(s)
	neg := e.decide(e.x.eq(b[0], e.x.bytes['-']))
	if neg || e.decide(e.x.eq(b[0], e.x.bytes['+'])) {
		b = b[1:]
	}
	if len(b) == 0 {
		return tuple(Value{}, nerr("invalid syntax"))
	}
	for _, c := range b {
		if !e.decide(e.x.and(e.x.cmp(OUle, e.x.bytes['0'], c), e.x.cmp(OUle, c, e.x.bytes['9']))) {
			return tuple(Value{}, nerr("invalid syntax"))
		}
	}
	lim := uint64(1)<<(bits-1) - 1
	if neg {
		lim++
	}
	l := strconv.FormatUint(lim, 10)
	for len(l) < len(b) {
		l = "0" + l
	}
	if len(b) >= len(l) {
		// greater than the limit: some digit is greater and all before it are not less
		for i, c := range b {
			if e.decide(e.x.cmp(OUlt, e.x.bytes[l[i]], c)) {
				if neg {
					return tuple(Value{n: uint64(-int64(lim-1) - 1)}, nerr("value out of range"))
				}
				return tuple(Value{n: lim}, nerr("value out of range"))
			}
			if e.decide(e.x.cmp(OUlt, c, e.x.bytes[l[i]])) {
				break
			}
		}
	}
	n := e.x.konst(64, 0)
	for _, c := range b {
		d := e.x.bin(OSub, e.x.conv(c, 64, false), e.x.konst(64, '0'))
		n = e.x.bin(OAdd, e.x.bin(OMul, n, e.x.konst(64, 10)), d)
	}
	if neg {
		n = e.x.bin(OSub, e.x.konst(64, 0), n)
	}
	return tuple(ofExpr(n), Value{})
}

func numErr(err error) string {
	if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
		return "value out of range"
	}
	return "invalid syntax"
}

func builderCell(e *Engine, v Value) *Value {
	a := e.ptr(v).o.(*Agg)
	return &a.v[1]
}

func bufferCell(e *Engine, v Value) *Value {
	a := e.ptr(v).o.(*Agg)
	return &a.v[0]
}

func (e *Engine) sliceStr(v Value) Value { return e.bytesStr(elems(v)) }

func (e *Engine) classRune(v Value, f func(r rune) bool) Value {
	if v.o == nil {
		return vBool(f(rune(int32(uint32(v.n)))))
	}
	x := v.o.(*Expr)
	if !e.decide(e.x.cmp(OUlt, x, e.x.konst(x.w, 0x80))) {
		return vBool(f(rune(int32(uint32(e.concretize(v, 32))))))
	}
	r := e.x.false_
	for i := 0; i < 128; {
		if !f(rune(i)) {
			i++
			continue
		}
		j := i
		for j+1 < 128 && f(rune(j+1)) {
			j++
		}
		r = e.x.or(r, e.x.and(e.x.cmp(OUle, e.x.konst(x.w, uint64(i)), x), e.x.cmp(OUle, x, e.x.konst(x.w, uint64(j)))))
		i = j + 1
	}
	return ofExpr(r)
}

func (e *Engine) mapRune(v Value, f func(r rune) rune) Value {
	if v.o == nil {
		return Value{n: uint64(uint32(f(rune(int32(uint32(v.n))))))}
	}
	c := e.concretize(v, 32)
	return Value{n: uint64(uint32(f(rune(int32(uint32(c))))))}
}

var natives map[string]native

func init() {
	natives = map[string]native{
		"strings.Index":      func(e *Engine, I *Instr, a []Value) Value { return vInt(e.sIndex(a[0], a[1])) },
		"strings.LastIndex":  func(e *Engine, I *Instr, a []Value) Value { return vInt(e.sLastIndex(a[0], a[1])) },
		"strings.HasPrefix":  func(e *Engine, I *Instr, a []Value) Value { return ofExpr(e.sHasPrefix(a[0], a[1])) },
		"strings.HasSuffix":  func(e *Engine, I *Instr, a []Value) Value { return ofExpr(e.sHasSuffix(a[0], a[1])) },
		"strings.Contains":   func(e *Engine, I *Instr, a []Value) Value { return ofExpr(e.sContains(a[0], a[1])) },
		"strings.Count":      func(e *Engine, I *Instr, a []Value) Value { return vInt(e.sCount(a[0], a[1])) },
		"strings.ToUpper":    func(e *Engine, I *Instr, a []Value) Value { return e.sCase(a[0], true) },
		"strings.ToLower":    func(e *Engine, I *Instr, a []Value) Value { return e.sCase(a[0], false) },
		"strings.TrimSpace":  func(e *Engine, I *Instr, a []Value) Value { return e.sTrimSpace(a[0], true, true) },
		"strings.Clone":      func(e *Engine, I *Instr, a []Value) Value { return a[0] },
		"strings.ReplaceAll": func(e *Engine, I *Instr, a []Value) Value { return e.sReplace(a[0], a[1], a[2], -1) },
		"strings.Replace": func(e *Engine, I *Instr, a []Value) Value {
			return e.sReplace(a[0], a[1], a[2], int(int64(e.concretize(a[3], 64))))
		},
		"strings.Split": func(e *Engine, I *Instr, a []Value) Value { return sliceOf(e.sSplit(a[0], a[1], -1)) },
		"strings.SplitN": func(e *Engine, I *Instr, a []Value) Value {
			return sliceOf(e.sSplit(a[0], a[1], int(int64(e.concretize(a[2], 64)))))
		},
		"strings.TrimPrefix": func(e *Engine, I *Instr, a []Value) Value {
			if e.decide(e.sHasPrefix(a[0], a[1])) {
				return subStr0(a[0], strLen(a[1]), strLen(a[0]))
			}
			return a[0]
		},
		"strings.TrimSuffix": func(e *Engine, I *Instr, a []Value) Value {
			if e.decide(e.sHasSuffix(a[0], a[1])) {
				return subStr0(a[0], 0, strLen(a[0])-strLen(a[1]))
			}
			return a[0]
		},
		"strings.Repeat": func(e *Engine, I *Instr, a []Value) Value {
			n := int(int64(e.concretize(a[1], 64)))
			if n < 0 {
				panic(goPanic{Value{o: &Iface{types.Typ[types.String], vStr("strings: negative Repeat count")}}})
			}
			if s, ok := a[0].str(); ok {
				return vStr(strings.Repeat(s, n))
			}
			r := Value{}
			for i := 0; i < n; i++ {
				r = e.concat(r, a[0])
			}
			return r
		},
		"strings.Join": func(e *Engine, I *Instr, a []Value) Value {
			vs := elems(a[0])
			all := true
			sep, ok := a[1].str()
			all = ok
			ss := make([]string, len(vs))
			for i, v := range vs {
				s, ok := v.str()
				if !ok {
					all = false
					break
				}
				ss[i] = s
			}
			if all {
				return vStr(strings.Join(ss, sep))
			}
			r := Value{}
			for i, v := range vs {
				if i > 0 {
					r = e.concat(r, a[1])
				}
				r = e.concat(r, v)
			}
			return r
		},
		"strings.Compare": func(e *Engine, I *Instr, a []Value) Value {
			if e.decide(e.strEq(a[0], a[1])) {
				return vInt(0)
			}
			if e.decide(e.strLess(a[0], a[1])) {
				return vInt(-1)
			}
			return vInt(1)
		},
		"strings.Trim":         func(e *Engine, I *Instr, a []Value) Value { return e.sTrimSet(a[0], a[1], true, true) },
		"strings.TrimLeft":     func(e *Engine, I *Instr, a []Value) Value { return e.sTrimSet(a[0], a[1], true, false) },
		"strings.TrimRight":    func(e *Engine, I *Instr, a []Value) Value { return e.sTrimSet(a[0], a[1], false, true) },
		"strings.IndexAny":     func(e *Engine, I *Instr, a []Value) Value { return e.sIndexSet(a[0], a[1], false) },
		"strings.LastIndexAny": func(e *Engine, I *Instr, a []Value) Value { return e.sIndexSet(a[0], a[1], true) },
		"strings.ContainsAny": func(e *Engine, I *Instr, a []Value) Value {
			return vBool(int64(e.sIndexSet(a[0], a[1], false).n) >= 0)
		},
		"strings.IndexByte": func(e *Engine, I *Instr, a []Value) Value {
			return vInt(e.sIndex(a[0], mkStr([]*Expr{e.exprOf(a[1], 8)})))
		},
		"strings.LastIndexByte": func(e *Engine, I *Instr, a []Value) Value {
			return vInt(e.sLastIndex(a[0], mkStr([]*Expr{e.exprOf(a[1], 8)})))
		},
		"(*strings.Builder).WriteString": func(e *Engine, I *Instr, a []Value) Value {
			c := builderCell(e, a[0])
			e.set(c, e.concat(*c, a[1]))
			return tuple(vInt(strLen(a[1])), Value{})
		},
		"(*strings.Builder).Write": func(e *Engine, I *Instr, a []Value) Value {
			c := builderCell(e, a[0])
			e.set(c, e.concat(*c, e.sliceStr(a[1])))
			return tuple(vInt(len(elems(a[1]))), Value{})
		},
		"(*strings.Builder).WriteByte": func(e *Engine, I *Instr, a []Value) Value {
			c := builderCell(e, a[0])
			e.set(c, e.concat(*c, mkStr([]*Expr{e.exprOf(a[1], 8)})))
			return Value{}
		},
		"(*strings.Builder).WriteRune": func(e *Engine, I *Instr, a []Value) Value {
			s := e.runeStr(a[1], tk{cInt, 32, true})
			c := builderCell(e, a[0])
			e.set(c, e.concat(*c, s))
			return tuple(vInt(strLen(s)), Value{})
		},
		"(*strings.Builder).String": func(e *Engine, I *Instr, a []Value) Value { return *builderCell(e, a[0]) },
		"(*strings.Builder).Len":    func(e *Engine, I *Instr, a []Value) Value { return vInt(strLen(*builderCell(e, a[0]))) },
		"(*strings.Builder).Cap":    func(e *Engine, I *Instr, a []Value) Value { return vInt(strLen(*builderCell(e, a[0]))) },
		"(*strings.Builder).Grow":   func(e *Engine, I *Instr, a []Value) Value { return Value{} },
		"(*strings.Builder).Reset": func(e *Engine, I *Instr, a []Value) Value {
			e.set(builderCell(e, a[0]), Value{})
			return Value{}
		},
		"(*bytes.Buffer).WriteString": func(e *Engine, I *Instr, a []Value) Value {
			c := bufferCell(e, a[0])
			e.set(c, e.concat(*c, a[1]))
			return tuple(vInt(strLen(a[1])), Value{})
		},
		"(*bytes.Buffer).Write": func(e *Engine, I *Instr, a []Value) Value {
			c := bufferCell(e, a[0])
			e.set(c, e.concat(*c, e.sliceStr(a[1])))
			return tuple(vInt(len(elems(a[1]))), Value{})
		},
		"(*bytes.Buffer).WriteByte": func(e *Engine, I *Instr, a []Value) Value {
			c := bufferCell(e, a[0])
			e.set(c, e.concat(*c, mkStr([]*Expr{e.exprOf(a[1], 8)})))
			return Value{}
		},
		"(*bytes.Buffer).WriteRune": func(e *Engine, I *Instr, a []Value) Value {
			s := e.runeStr(a[1], tk{cInt, 32, true})
			c := bufferCell(e, a[0])
			e.set(c, e.concat(*c, s))
			return tuple(vInt(strLen(s)), Value{})
		},
		"(*bytes.Buffer).String": func(e *Engine, I *Instr, a []Value) Value { return *bufferCell(e, a[0]) },
		"(*bytes.Buffer).Len":    func(e *Engine, I *Instr, a []Value) Value { return vInt(strLen(*bufferCell(e, a[0]))) },
		"(*bytes.Buffer).Grow":   func(e *Engine, I *Instr, a []Value) Value { return Value{} },
		"(*bytes.Buffer).Reset": func(e *Engine, I *Instr, a []Value) Value {
			e.set(bufferCell(e, a[0]), Value{})
			return Value{}
		},
		"strings.NewReplacer": func(e *Engine, I *Instr, a []Value) Value {
			p := new(Value)
			*p = Value{o: &Agg{[]Value{{}, {}, {}, a[0]}}}
			return Value{o: p}
		},
		"(*strings.Replacer).Replace": func(e *Engine, I *Instr, a []Value) Value {
			prs := elems(e.ptr(a[0]).o.(*Agg).v[3])
			b := e.strBytes(a[1])
			out := []*Expr{}
		pos:
			for i := 0; i < len(b); {
				for j := 0; j+1 < len(prs); j += 2 {
					old := e.strBytes(prs[j])
					if len(old) == 0 {
						panic(unsup("Replacer with empty old text"))
					}
					if i+len(old) <= len(b) && e.decide(e.matchAt(b, old, i)) {
						out = append(out, e.strBytes(prs[j+1])...)
						i += len(old)
						continue pos
					}
				}
				out = append(out, b[i])
				i++
			}
			return mkStr(out)
		},
		"html.EscapeString": func(e *Engine, I *Instr, a []Value) Value {
			r := a[0]
			for _, p := range [][2]string{{"&", "&amp;"}, {"'", "&#39;"}, {"<", "&lt;"}, {">", "&gt;"}, {"\"", "&#34;"}} {
				r = e.sReplace(r, vStr(p[0]), vStr(p[1]), -1)
			}
			return r
		},
		"internal/bytealg.IndexByteString": func(e *Engine, I *Instr, a []Value) Value {
			return vInt(e.sIndex(a[0], mkStr([]*Expr{e.exprOf(a[1], 8)})))
		},
		"internal/bytealg.LastIndexByteString": func(e *Engine, I *Instr, a []Value) Value {
			return vInt(e.sLastIndex(a[0], mkStr([]*Expr{e.exprOf(a[1], 8)})))
		},
		"internal/bytealg.IndexByte": func(e *Engine, I *Instr, a []Value) Value {
			return vInt(e.sIndex(e.sliceStr(a[0]), mkStr([]*Expr{e.exprOf(a[1], 8)})))
		},
		"internal/bytealg.CountString": func(e *Engine, I *Instr, a []Value) Value {
			return vInt(e.sCount(a[0], mkStr([]*Expr{e.exprOf(a[1], 8)})))
		},
		"internal/bytealg.IndexString": func(e *Engine, I *Instr, a []Value) Value { return vInt(e.sIndex(a[0], a[1])) },
		"internal/bytealg.Equal":       func(e *Engine, I *Instr, a []Value) Value { return ofExpr(e.strEq(e.sliceStr(a[0]), e.sliceStr(a[1]))) },
		"bytes.Equal":                  func(e *Engine, I *Instr, a []Value) Value { return ofExpr(e.strEq(e.sliceStr(a[0]), e.sliceStr(a[1]))) },
		"internal/bytealg.MakeNoZero": func(e *Engine, I *Instr, a []Value) Value {
			return Value{o: &Slice{make([]Value, e.concretize(a[0], 64))}}
		},
		"internal/stringslite.Index":     func(e *Engine, I *Instr, a []Value) Value { return vInt(e.sIndex(a[0], a[1])) },
		"internal/stringslite.HasPrefix": func(e *Engine, I *Instr, a []Value) Value { return ofExpr(e.sHasPrefix(a[0], a[1])) },
		"internal/stringslite.HasSuffix": func(e *Engine, I *Instr, a []Value) Value { return ofExpr(e.sHasSuffix(a[0], a[1])) },
		"internal/stringslite.Clone":     func(e *Engine, I *Instr, a []Value) Value { return a[0] },
		"internal/stringslite.IndexByte": func(e *Engine, I *Instr, a []Value) Value {
			return vInt(e.sIndex(a[0], mkStr([]*Expr{e.exprOf(a[1], 8)})))
		},
		"unicode/utf8.RuneCountInString": func(e *Engine, I *Instr, a []Value) Value { return vInt(e.runeCount(a[0])) },
		"unicode/utf8.DecodeRuneInString": func(e *Engine, I *Instr, a []Value) Value {
			if strLen(a[0]) == 0 {
				return tuple(Value{n: utf8.RuneError}, vInt(0))
			}
			r, n := e.decodeRune(a[0], 0)
			return tuple(r, vInt(n))
		},
		"unicode.IsSpace":    func(e *Engine, I *Instr, a []Value) Value { return e.classRune(a[0], unicode.IsSpace) },
		"unicode.IsLetter":   func(e *Engine, I *Instr, a []Value) Value { return e.classRune(a[0], unicode.IsLetter) },
		"unicode.IsDigit":    func(e *Engine, I *Instr, a []Value) Value { return e.classRune(a[0], unicode.IsDigit) },
		"unicode.IsNumber":   func(e *Engine, I *Instr, a []Value) Value { return e.classRune(a[0], unicode.IsNumber) },
		"unicode.IsUpper":    func(e *Engine, I *Instr, a []Value) Value { return e.classRune(a[0], unicode.IsUpper) },
		"unicode.IsLower":    func(e *Engine, I *Instr, a []Value) Value { return e.classRune(a[0], unicode.IsLower) },
		"unicode.IsPunct":    func(e *Engine, I *Instr, a []Value) Value { return e.classRune(a[0], unicode.IsPunct) },
		"unicode.IsControl":  func(e *Engine, I *Instr, a []Value) Value { return e.classRune(a[0], unicode.IsControl) },
		"unicode.IsPrint":    func(e *Engine, I *Instr, a []Value) Value { return e.classRune(a[0], unicode.IsPrint) },
		"unicode.ToUpper":    func(e *Engine, I *Instr, a []Value) Value { return e.mapRune(a[0], unicode.ToUpper) },
		"unicode.ToLower":    func(e *Engine, I *Instr, a []Value) Value { return e.mapRune(a[0], unicode.ToLower) },
		"unicode.ToTitle":    func(e *Engine, I *Instr, a []Value) Value { return e.mapRune(a[0], unicode.ToTitle) },
		"unicode.SimpleFold": func(e *Engine, I *Instr, a []Value) Value { return e.mapRune(a[0], unicode.SimpleFold) },
		"strconv.Itoa": func(e *Engine, I *Instr, a []Value) Value {
			return vStr(strconv.FormatInt(int64(e.concretize(a[0], 64)), 10))
		},
		"strconv.FormatInt": func(e *Engine, I *Instr, a []Value) Value {
			return vStr(strconv.FormatInt(int64(e.concretize(a[0], 64)), int(e.concretize(a[1], 64))))
		},
		"strconv.Quote": func(e *Engine, I *Instr, a []Value) Value {
			s, ok := a[0].str()
			if !ok {
				panic(unsup("quote of symbolic text"))
			}
			return vStr(strconv.Quote(s))
		},
		"strconv.FormatFloat": func(e *Engine, I *Instr, a []Value) Value {
			if a[0].o != nil {
				panic(unsup("format of a symbolic float"))
			}
			return vStr(strconv.FormatFloat(a[0].float(), byte(a[1].n), int(int64(a[2].n)), int(a[3].n)))
		},
		"fmt.Sprint":       func(e *Engine, I *Instr, a []Value) Value { return e.sprint(elems(a[0]), false) },
		"fmt.Sprintln":     func(e *Engine, I *Instr, a []Value) Value { return e.sprint(elems(a[0]), true) },
		"fmt.Sprintf":      func(e *Engine, I *Instr, a []Value) Value { return e.sprintf(a[0], elems(a[1])) },
		"fmt.Errorf":       func(e *Engine, I *Instr, a []Value) Value { return e.mkError(e.sprintf(a[0], elems(a[1]))) },
		"fmt.Println":      func(e *Engine, I *Instr, a []Value) Value { return tuple(vInt(0), Value{}) },
		"fmt.Print":        func(e *Engine, I *Instr, a []Value) Value { return tuple(vInt(0), Value{}) },
		"fmt.Printf":       func(e *Engine, I *Instr, a []Value) Value { return tuple(vInt(0), Value{}) },
		"log.Println":      func(e *Engine, I *Instr, a []Value) Value { return Value{} },
		"log.Printf":       func(e *Engine, I *Instr, a []Value) Value { return Value{} },
		"math.Float64bits": func(e *Engine, I *Instr, a []Value) Value { return Value{n: a[0].n} },
		"math.Floor": func(e *Engine, I *Instr, a []Value) Value {
			return mathF(a[0], func(f float64) float64 { return floor(f) })
		},
	}
}

func mathF(v Value, f func(float64) float64) Value {
	if v.o != nil {
		panic(unsup("math on a symbolic float"))
	}
	return vFloat(f(v.float()))
}

// globalModel gives values to variables of packages whose initialisers are not executed.
func globalModel(e *Engine, g *ssa.Global) (Value, bool) {
	if msg, ok := globalErrors[g.Name()]; ok {
		if p := g.Pkg.Pkg.Path(); p == "io" || p == "os" || p == "io/fs" {
			if e.errCache == nil {
				e.errCache = map[string]Value{}
			}
			v, ok := e.errCache[msg]
			if !ok {
				v = e.mkError(vStr(msg))
				e.errCache[msg] = v
			}
			return v, true
		}
	}
	switch g.String() {
	case "os.Args":
		return Value{}, true
	case "os.Stdout", "os.Stderr", "os.Stdin":
		p := new(Value)
		*p = Value{o: &Opaque{g.String()}}
		return Value{o: p}, true
	}
	return Value{}, false
}

// globalErrors are the error values of io, os and io/fs; aliases share one value.
var globalErrors = map[string]string{
	"EOF": "EOF", "SkipDir": "skip this directory", "SkipAll": "skip everything and stop the walk",
	"ErrNotExist": "file does not exist", "ErrExist": "file already exists", "ErrInvalid": "invalid argument",
	"ErrPermission": "permission denied", "ErrClosed": "file already closed",
}
