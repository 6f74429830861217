package vxlisp

import (
	"strings"
)

func init() {
	vxHarness["vhC16Depth"] = vhC16Depth
	vxHarness["vhC16Decl"] = vhC16Decl
	vxHarness["vhC16Tree"] = vhC16Tree
	vxHarness["vhC16Sub"] = vhC16Sub
}

// Every kind of mistake in an expression, in every nesting of expressions.
func vhC16Depth() {
	expr, more := "", ""
	kind := vxChoice("mistake", 9)
	switch kind {
	case 0:
		expr = "7"
	case 1:
		expr = "zz9"
	case 2:
		expr = "(zz9 1)"
	case 3:
		expr = "(zz9 1 2)"
		more = "(func zz9 : any [x : any])\n"
	case 4:
		expr = "(zz9)"
		more = "(func zz9 : any [x : any])\n"
	case 5:
		expr = "(w zz9)"
		more = "(type x1)\n(type x2)\n(func w : any [x : x1])\n(const zz9 : x2)\n"
	case 6:
		expr = "(zz9/o 1)"
		more = "(func o : any [x : any])\n"
	case 7:
		expr = "(let : any [b : zz9 := 1] 2)"
	case 8:
		expr = "(h (fn : any [b : zz9] 1))"
	}
	for i := 0; i < vxParam("depth"); i++ {
		switch vxChoice("nest", 7) {
		case 0:
		case 1:
			expr = "(g " + expr + " 1)"
		case 2:
			expr = "(g 1 " + expr + ")"
		case 3:
			expr = "(let : any [k : any := " + expr + " l : int := 2] 3)"
		case 4:
			expr = "(let : any [k : any := 1] " + expr + ")"
		case 5:
			expr = "(h (fn : any [k : any] " + expr + "))"
		case 6:
			expr = "(<- " + expr + " (g 3))"
		}
	}
	text := ""
	switch vxChoice("place", 7) {
	case 0:
		text = "(func f : any\n " + expr + ")\n"
	case 1:
		text = "(func f : any [k : int]\n (g k " + expr + "))\n(func f2 : any)\n"
	case 2:
		text = "(const f : any\n " + expr + ")\n"
	case 3:
		text = "(func f : any [a : any]\n a\n :test (test 1 " + expr + ")\n :doc \"d\")\n"
	case 4:
		text = "(type f : struct\n :properties [k : int]\n :test (test 1 2)\n  (test " + expr + " 1))\n"
	case 5:
		text = "(const f : any\n 1\n :test (test 1 " + expr + "))\n"
	case 6:
		text = "(func f : any\n 1)\n(func f : any [a : int]\n " + expr + ")\n(func f : any [a : int b : int]\n b)\n"
	}
	iserror, report := vxProjectErrors("(package p)\n" + more + text)
	vxAssert(iserror == (kind > 0), "exactly a mistake marks the compilation as failed")
	if iserror {
		vxAssert(strings.Contains(report, "zz9"), "the report names the mistake")
		vxCover("reported")
	} else {
		vxCover("accepted")
	}
}

// vxMistakes are mistakes in declarations, after one without any.
var vxMistakes = []string{
	"",
	"(type x :zz9 1)\n",
	"(type x : struct :properties [a : zz9])\n",
	"(type x :traits [zz9])\n",
	"(type x :allowtypes [zz9])\n",
	"(type x :disallowtypes [zz9])\n",
	"(type x :allowfuncs [zz9])\n",
	"(type x :disallowfuncs [zz9])\n",
	"(type x :test zz9)\n",
	"(const x : zz9 1)\n",
	"(const x : int zz9)\n",
	"(const x : int :test zz9)\n",
	"(const x : int :zz9 1)\n",
	"(func x : zz9)\n",
	"(func x : any [a : zz9])\n",
	"(func x : any [a : any := zz9])\n",
	"(func x : any [a : int :...] :doc \"zz9\")\n",
	"(func x : any :zz9)\n",
	"(func x : any :test zz9)\n",
	"(func x : any :test (g 1 zz9))\n",
	"(func x : any :test (zz9 1 2))\n",
	"(zz9 x)\n",
	"zz9\n",
	"(func x : any (g zz9 1)\n",
	"(func zz9 : any) )\n",
	"(func x : any \"zz9)\n",
	"/* zz9 \n",
	"(package zz9)\n",
}

// Mistakes in declarations, before and after correct ones.
func vhC16Decl() {
	bad := vxMistakes
	pick := vxChoice("mistake", len(bad))
	good := []string{
		"(type t4)\n", "(const c4 : int 1)\n", "(func f4 : any [a : any]\n a)\n",
	}
	text := "(package p)\n"
	before := vxChoice("before", 4)
	for i := 0; i < before; i++ {
		text += good[(i+vxChoice("good", 3))%3]
		good = append(good[:0:0], "(type t5)\n", "(const c5 : int 1)\n", "(func f5 : any)\n")
	}
	vxAssume(before < 3)
	text += bad[pick]
	if vxBool("after") {
		text += "(func f6 : any [a : any]\n (g a 1))\n"
	}
	iserror, report := vxProjectErrors(text)
	vxAssert(iserror == (pick > 0), "exactly a mistake marks the compilation as failed")
	if iserror {
		vxAssert(strings.Contains(report, "zz9"), "the report names the mistake")
		vxCover("reported")
	} else {
		vxCover("accepted")
	}
}

// Mistakes in a project within the project.
func vhC16Sub() {
	pick := vxChoice("mistake", len(vxMistakes))
	text := "(package p)\n" + vxMistakes[pick]
	vxErrorSub = vxBool("sub")
	iserror, report := vxProjectErrors(text)
	vxErrorSub = false
	vxAssert(iserror == (pick > 0), "exactly a mistake marks the compilation as failed")
	if iserror {
		vxAssert(strings.Contains(report, "zz9"), "the report names the mistake")
		vxCover("reported")
	} else {
		vxCover("accepted")
	}
}

// Any history of messages: a small tree of blocks, filled in any order.
func vhC16Tree() {
	n := vxParam("blocks")
	blocks := make([]*vxmsgblock, n)
	for i := range blocks {
		blocks[i] = NewMsgBlock("b" + vxDumpInt(i))
	}
	var texts []string
	failed := make([]bool, n)
	warned := make([]bool, n)
	add := func(i int, k int) {
		text := "<" + vxDumpInt(i) + "," + vxDumpInt(k) + "," + vxStrIn("text", 2, "ab%\n") + ">"
		msg := NewMsg(text)
		switch vxChoice("what", 5) {
		case 0:
			return
		case 1:
			blocks[i] = MsgblockAddError(blocks[i], msg)
			failed[i] = true
		case 2:
			blocks[i] = MsgblockAddWarning(blocks[i], msg)
			warned[i] = true
		case 3:
			blocks[i] = MsgblockAddInfo(blocks[i], msg)
		case 4:
			blocks[i] = MsgblockAddException(blocks[i], vxError(text))
			failed[i] = true
		}
		texts = append(texts, text)
	}
	for i := n - 1; i >= 0; i-- {
		add(i, 0)
		if i > 0 {
			up := vxChoice("parent", i)
			blocks[up] = MsgblockAddBlock(blocks[up], blocks[i])
			failed[up] = failed[up] || failed[i]
			warned[up] = warned[up] || warned[i]
			if vxParam("late") > 0 {
				add(up, i)
			}
		}
	}
	top := blocks[0]
	report := StringFromMsgblock(top)
	vxObserve("report", report)
	vxAssert(IsErrorFromMsgblock(top) == failed[0], "an error anywhere marks the whole as failed")
	vxAssert(IsWarningFromMsgblock(top) == warned[0], "a warning anywhere marks the whole")
	for _, text := range texts {
		vxAssert(strings.Contains(report, text), "the report contains every message")
	}
	vxCover("told")
}

type vxErr struct{ text string }

func (e vxErr) Error() string { return e.text }

func vxError(text string) error { return vxErr{text} }
