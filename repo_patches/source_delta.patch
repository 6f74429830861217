From bfd92a0a6acb62863effe2c62e960ead1c75cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:30 +0000
Subject: [PATCH 01/47] fix: report text that ends inside an open paren, quote
 or comment block

---
 src/vxlisp/textblock.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index eb3bf14..7d9c697 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -385,17 +385,26 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 		}
 		lastchar = char
 	}
+	openstates := []string{}
 	for _, stateblock := range blockstack {
-		state = stateblock.blocktype
-		switch state {
-		case BLOCKTYPE_UNDEFINED:
+		openstates = append(openstates, stateblock.blocktype)
+	}
+	openstates = append(openstates, phrase.blocktype)
+	if state != phrase.blocktype {
+		openstates = append(openstates, state)
+	}
+	for _, openstate := range openstates {
+		switch openstate {
+		case BLOCKTYPE_UNDEFINED, BLOCKTYPE_COMMENT:
 		default:
 			var delim = "Unknown"
-			switch state {
+			switch openstate {
 			case BLOCKTYPE_CLYBRACKETS:
 				delim = "Curly Brackets"
+			case BLOCKTYPE_COMMENTBLOCK:
+				delim = "Comment Block"
 			case BLOCKTYPE_PARENS:
-				delim = "Quotes"
+				delim = "Parens"
 			case BLOCKTYPE_QUOTE:
 				delim = "Quotes"
 			case BLOCKTYPE_QUOTEBLOCK:
-- 
2.43.0


From e05b465450590e5c916894df5bac273eac6e0445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:58 +0000
Subject: [PATCH 02/47] fix: read a block comment from its opening marker to a
 separate closing marker

---
 src/vxlisp/textblock.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index 7d9c697..50352a9 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -150,6 +150,9 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 				state = BLOCKTYPE_PARENS
 			default:
 				if lastchar == "/" && char == "*" {
+					startline = linenum
+					startchar = charnum - 1
+					word = "/*"
 					state = BLOCKTYPE_COMMENTBLOCK
 				} else {
 					msg := NewMsgFromTextblock(
@@ -175,7 +178,7 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 			}
 		case BLOCKTYPE_COMMENTBLOCK:
 			word += char
-			if lastchar == "*" && char == "/" {
+			if lastchar == "*" && char == "/" && len(word) > len("/*/") {
 				wordtextblock := NewTextblockFromText(word)
 				wordtextblock.blocktype = BLOCKTYPE_COMMENTBLOCK
 				wordtextblock.name = textblock.name
-- 
2.43.0


From 6514ae3f1c2e46dfcf8489ceae0829868ce6ffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:17 +0000
Subject: [PATCH 03/47] fix: record the position of words that start with a
 slash

---
 src/vxlisp/textblock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index 50352a9..0da9cae 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -261,6 +261,10 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 					word = ""
 				}
 			case "/":
+				if len(word) == 0 {
+					startline = linenum
+					startchar = charnum
+				}
 				word += char
 				if vx_core.V_booleann_from_stringn_startsn(word, "//") {
 					startline = linenum
-- 
2.43.0


From df7d1a74a6aecd339aca03bf5bdafe38ef77a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:28 +0000
Subject: [PATCH 04/47] fix: treat quoted text that starts with a colon as
 text, not as a keyword

---
 src/vxlisp/arg.go       |  7 ++++---
 src/vxlisp/command.go   |  6 +-----
 src/vxlisp/const.go     |  5 ++---
 src/vxlisp/func.go      |  4 ++--
 src/vxlisp/package.go   |  2 +-
 src/vxlisp/project.go   |  2 +-
 src/vxlisp/textblock.go | 10 ++++++++++
 src/vxlisp/type.go      |  4 ++--
 src/vxlisp/value.go     |  6 +++---
 9 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/vxlisp/arg.go b/src/vxlisp/arg.go
index bb4b4d0..5ff890f 100644
--- a/src/vxlisp/arg.go
+++ b/src/vxlisp/arg.go
@@ -2,7 +2,6 @@ package vxlisp
 
 import (
 	"sort"
-	"strings"
 	vx_core "vxlisp/vxlisp/vx/core"
 )
 
@@ -265,6 +264,7 @@ func ListArgFromTextblock(
 		case "/*", "//":
 		default:
 			argstr := argtextblock.text
+			nextargstr := ""
 			switch lastargstr {
 			case ":":
 				argtyp := NewType(argstr)
@@ -306,9 +306,10 @@ func ListArgFromTextblock(
 				msgblock = MsgblockAddBlock(msgblock, msgs)
 				arg.value = value
 			default:
-				if strings.HasPrefix(argstr, ":") && (textblock.blocktype != "\"") {
+				if BooleanKeywordFromTextblock(argtextblock) {
 					switch argstr {
 					case ":", "::", ":alias", ":doc", ":=":
+						nextargstr = argstr
 					case ":default":
 						arg.isdefault = true
 					case ":...":
@@ -325,7 +326,7 @@ func ListArgFromTextblock(
 					arg = NewArg(argstr)
 				}
 			}
-			lastargstr = argstr
+			lastargstr = nextargstr
 		}
 	}
 	if arg.name != "" {
diff --git a/src/vxlisp/command.go b/src/vxlisp/command.go
index e767587..8e001aa 100644
--- a/src/vxlisp/command.go
+++ b/src/vxlisp/command.go
@@ -1,9 +1,5 @@
 package vxlisp
 
-import (
-	vx_core "vxlisp/vxlisp/vx/core"
-)
-
 type vxcommand struct {
 	name     string
 	code     string
@@ -64,7 +60,7 @@ func CommandFromTextblock(
 					switch proptextblock.blocktype {
 					case "//":
 					default:
-						if vx_core.V_booleann_from_stringn_startsn(prop, ":") {
+						if BooleanKeywordFromTextblock(proptextblock) {
 							switch prop {
 							case ":code", ":config", ":context", ":doc", ":filter",
 								":lang", ":main", ":name", ":path", ":port":
diff --git a/src/vxlisp/const.go b/src/vxlisp/const.go
index 0934c73..84bbb1c 100644
--- a/src/vxlisp/const.go
+++ b/src/vxlisp/const.go
@@ -2,7 +2,6 @@ package vxlisp
 
 import (
 	"sort"
-	"strings"
 	vx_core "vxlisp/vxlisp/vx/core"
 )
 
@@ -74,7 +73,7 @@ func ConstFromTextblock(textblock *vxtextblock, pkg *vxpackage) (*vxconst, *vxms
 			cnst.name = word
 		default:
 			if testcls {
-				if strings.HasPrefix(word, ":") {
+				if BooleanKeywordFromTextblock(wordtextblock) {
 					testcls = false
 				} else {
 					testvalue, msgs := ValueFromTextblock(wordtextblock, emptyfunc, pkg)
@@ -107,7 +106,7 @@ func ConstFromTextblock(textblock *vxtextblock, pkg *vxpackage) (*vxconst, *vxms
 					cnst.doc = StringRemoveQuotes(word)
 				}
 				lastword = ""
-			} else if strings.HasPrefix(word, ":") && (textblock.blocktype != "\"") {
+			} else if BooleanKeywordFromTextblock(wordtextblock) {
 				switch word {
 				case ":", ":alias", ":deprecated", ":doc":
 					lastword = word
diff --git a/src/vxlisp/func.go b/src/vxlisp/func.go
index d013427..0c3614b 100644
--- a/src/vxlisp/func.go
+++ b/src/vxlisp/func.go
@@ -447,7 +447,7 @@ func FuncFromTextblock(
 				}
 			default:
 				if testcls {
-					if vx_core.V_booleann_from_stringn_startsn(word, ":") {
+					if BooleanKeywordFromTextblock(wordtextblock) {
 						testcls = false
 					} else {
 						testvalue, msgs := ValueFromTextblock(wordtextblock, fnc, pkg)
@@ -513,7 +513,7 @@ func FuncFromTextblock(
 						fnc.sideeffects = StringRemoveQuotes(word)
 					}
 					lastword = ""
-				} else if vx_core.V_booleann_from_stringn_startsn(word, ":") && (textblock.blocktype != "\"") {
+				} else if BooleanKeywordFromTextblock(wordtextblock) {
 					switch word {
 					case ":", ":alias", ":bigospace", ":bigotime", ":clientserver", ":doc", ":deprecated", ":sideeffects":
 						lastword = word
diff --git a/src/vxlisp/package.go b/src/vxlisp/package.go
index 7355a02..5a491f4 100644
--- a/src/vxlisp/package.go
+++ b/src/vxlisp/package.go
@@ -362,7 +362,7 @@ func PackageFromTextblock(
 								switch wordtextblock.blocktype {
 								case "//":
 								default:
-									if vx_core.V_booleann_from_stringn_startsn(prop, ":") {
+									if BooleanKeywordFromTextblock(wordtextblock) {
 										switch prop {
 										case ":alias", ":doc", ":libs":
 											lastprop = prop
diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index 0295eec..984e3d6 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -428,7 +428,7 @@ func ProjectFromTextblock(
 							switch wordtextblock.blocktype {
 							case "//":
 							default:
-								if vx_core.V_booleann_from_stringn_startsn(word, ":") {
+								if BooleanKeywordFromTextblock(wordtextblock) {
 									switch word {
 									case ":author", ":cmds", ":doc", ":javadomain", ":libs", ":paths", ":projects", ":version":
 										lastword = word
diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index 0da9cae..108fe41 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -28,6 +28,16 @@ func NewTextblockFromText(text string) *vxtextblock {
 	return output
 }
 
+func BooleanKeywordFromTextblock(textblock *vxtextblock) bool {
+	output := false
+	switch textblock.blocktype {
+	case "\"", "`":
+	default:
+		output = vx_core.V_booleann_from_stringn_startsn(textblock.text, ":")
+	}
+	return output
+}
+
 func StringFromTextblock(textblock *vxtextblock) string {
 	return StringFromTextblockIndent(textblock, "")
 }
diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index dbb4640..05e4908 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -1133,7 +1133,7 @@ func TypeFromTextblock(
 			typ.name = word
 		default:
 			if testcls {
-				if vx_core.V_booleann_from_stringn_startsn(word, ":") {
+				if BooleanKeywordFromTextblock(wordtextblock) {
 					testcls = false
 					lastword = word
 				} else {
@@ -1259,7 +1259,7 @@ func TypeFromTextblock(
 					typ.convert = converts
 				}
 				lastword = ""
-			} else if vx_core.V_booleann_from_stringn_startsn(word, ":") {
+			} else if BooleanKeywordFromTextblock(wordtextblock) {
 				switch word {
 				case ":", ":alias", ":allowfuncs", ":allowtypes", ":allowvalues", ":convert", ":create", ":default", ":deprecated", ":destroy", ":disallowfuncs", ":disallowtypes", ":disallowvalues", ":doc", ":extends", ":properties", ":traits":
 					lastword = word
diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index eeac384..eb464dc 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -413,7 +413,7 @@ func ValueFromTextblock(
 				switch idx {
 				case 0:
 					fncname := clausepart
-					if vx_core.V_booleann_from_stringn_startsn(fncname, ":") && (clausetextblock.blocktype != "\"") {
+					if BooleanKeywordFromTextblock(clausetextblock) {
 						keyname := vx_core.V_stringn_from_string_startn_endn(fncname, 1, len(fncname))
 						if BooleanIsIntFromString(keyname) {
 							fncname = "any<-list"
@@ -446,7 +446,7 @@ func ValueFromTextblock(
 					default:
 						lastword = ""
 						isused := false
-						if clausetextblock.blocktype != "\"" {
+						if BooleanKeywordFromTextblock(clausetextblock) {
 							switch clausepart {
 							case ":":
 								lastword = clausepart
@@ -459,7 +459,7 @@ func ValueFromTextblock(
 							}
 						}
 						if !isused {
-							if idx < (partslen-1) && (clausetextblocks[idx+1].text == ":native") {
+							if idx < (partslen-1) && BooleanKeywordFromTextblock(clausetextblocks[idx+1]) && (clausetextblocks[idx+1].text == ":native") {
 								nativeconst := NewConst()
 								nativeconst.name = clausepart
 								nativeconst.pkgname = ":native"
-- 
2.43.0


From a9a28f0af88f1c6ccc7d221d2ea4520ef909dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:14 +0000
Subject: [PATCH 05/47] fix: do not take names such as inf, nan or 0x1p2 for
 decimal numbers

---
 src/vxlisp/primative.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/primative.go b/src/vxlisp/primative.go
index f378cc9..1067492 100644
--- a/src/vxlisp/primative.go
+++ b/src/vxlisp/primative.go
@@ -1,6 +1,7 @@
 package vxlisp
 
 import (
+	"errors"
 	"sort"
 	"strconv"
 	"strings"
@@ -29,8 +30,12 @@ func BooleanIsIntFromString(str string) bool {
 }
 
 func BooleanIsNumberFromString(text string) bool {
+	// decimal numerals only: names such as inf, nan or 0x1p2 are not numbers
+	if strings.Trim(text, "0123456789.eE+-") != "" {
+		return false
+	}
 	_, err := strconv.ParseFloat(text, 64)
-	return err == nil
+	return err == nil || errors.Is(err, strconv.ErrRange)
 }
 
 func FloatFromString(str string) float64 {
-- 
2.43.0


From adf1750458f12e4c66d276830df1573c78d42744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:17 +0000
Subject: [PATCH 06/47] fix: skip comments everywhere inside declarations

---
 src/vxlisp/command.go   |  2 +-
 src/vxlisp/const.go     |  2 +-
 src/vxlisp/func.go      |  2 +-
 src/vxlisp/library.go   |  2 +-
 src/vxlisp/package.go   |  4 ++--
 src/vxlisp/project.go   |  6 +++---
 src/vxlisp/textblock.go | 12 ++++++++++++
 src/vxlisp/type.go      |  8 ++++----
 src/vxlisp/value.go     |  4 ++--
 9 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/vxlisp/command.go b/src/vxlisp/command.go
index 8e001aa..38f0847 100644
--- a/src/vxlisp/command.go
+++ b/src/vxlisp/command.go
@@ -41,7 +41,7 @@ func CommandFromTextblock(
 	switch textblock.blocktype {
 	case "(":
 		var lastprop = ""
-		for idx, proptextblock := range textblock.listtextblock {
+		for idx, proptextblock := range ListTextblockSkipComments(textblock.listtextblock) {
 			prop := proptextblock.text
 			switch idx {
 			case 0:
diff --git a/src/vxlisp/const.go b/src/vxlisp/const.go
index 84bbb1c..d5a69e5 100644
--- a/src/vxlisp/const.go
+++ b/src/vxlisp/const.go
@@ -60,7 +60,7 @@ func ConstFromTextblock(textblock *vxtextblock, pkg *vxpackage) (*vxconst, *vxms
 	var lastword = ""
 	var testcls = false
 	var listtestvalue []vxvalue
-	for i, wordtextblock := range textblock.listtextblock {
+	for i, wordtextblock := range ListTextblockSkipComments(textblock.listtextblock) {
 		word := wordtextblock.text
 		switch i {
 		case 0:
diff --git a/src/vxlisp/func.go b/src/vxlisp/func.go
index 0c3614b..41e850b 100644
--- a/src/vxlisp/func.go
+++ b/src/vxlisp/func.go
@@ -417,7 +417,7 @@ func FuncFromTextblock(
 	var typefound = false
 	var valuefound = false
 	var listtestvalue []vxvalue
-	listwordtextblock := textblock.listtextblock
+	listwordtextblock := ListTextblockSkipComments(textblock.listtextblock)
 	for i, wordtextblock := range listwordtextblock {
 		word := wordtextblock.text
 		switch i {
diff --git a/src/vxlisp/library.go b/src/vxlisp/library.go
index 631c134..60ceacb 100644
--- a/src/vxlisp/library.go
+++ b/src/vxlisp/library.go
@@ -33,7 +33,7 @@ func LibraryFromTextblock(
 	switch textblock.blocktype {
 	case "(":
 		lastprop := ""
-		for libnum, libblock := range textblock.listtextblock {
+		for libnum, libblock := range ListTextblockSkipComments(textblock.listtextblock) {
 			prop := libblock.text
 			switch libnum {
 			case 0:
diff --git a/src/vxlisp/package.go b/src/vxlisp/package.go
index 5a491f4..63bcafd 100644
--- a/src/vxlisp/package.go
+++ b/src/vxlisp/package.go
@@ -314,7 +314,7 @@ func PackageFromTextblock(
 		switch subtextblock.blocktype {
 		case "/*":
 		case "(":
-			listwordtextblock := subtextblock.listtextblock
+			listwordtextblock := ListTextblockSkipComments(subtextblock.listtextblock)
 			if len(listwordtextblock) < 2 {
 				msg := NewMsgFromTextblock(
 					subtextblock, 0, 0, "", "Empty Block Found")
@@ -335,7 +335,7 @@ func PackageFromTextblock(
 						var liststandardlib []string
 						liststandardlib = append(liststandardlib, "vx/core")
 						liststandardlib = append(liststandardlib, "vx/test")
-						for i, wordtextblock := range subtextblock.listtextblock {
+						for i, wordtextblock := range listwordtextblock {
 							prop := wordtextblock.text
 							switch i {
 							case 0:
diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index 984e3d6..139a198 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -220,7 +220,7 @@ func PathFromTextblock(
 	switch textblock.blocktype {
 	case "(":
 		lastprop := ""
-		for idx, proptextblock := range textblock.listtextblock {
+		for idx, proptextblock := range ListTextblockSkipComments(textblock.listtextblock) {
 			prop := proptextblock.text
 			switch idx {
 			case 0:
@@ -402,8 +402,8 @@ func ProjectFromTextblock(
 	var lastword = ""
 	textblock, msgs := TextblockParse(textblock)
 	msgblock = MsgblockAddBlock(msgblock, msgs)
-	for _, alltextblock := range textblock.listtextblock {
-		wordtextblocks := alltextblock.listtextblock
+	for _, alltextblock := range ListTextblockSkipComments(textblock.listtextblock) {
+		wordtextblocks := ListTextblockSkipComments(alltextblock.listtextblock)
 		if alltextblock.blocktype != "(" {
 			msg := NewMsgFromTextblock(
 				textblock, 0, 0, "", "Invalid Project Blocktype")
diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index 108fe41..8853f54 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -38,6 +38,18 @@ func BooleanKeywordFromTextblock(textblock *vxtextblock) bool {
 	return output
 }
 
+func ListTextblockSkipComments(listtextblock []*vxtextblock) []*vxtextblock {
+	var output []*vxtextblock
+	for _, textblock := range listtextblock {
+		switch textblock.blocktype {
+		case "/*", "//":
+		default:
+			output = append(output, textblock)
+		}
+	}
+	return output
+}
+
 func StringFromTextblock(textblock *vxtextblock) string {
 	return StringFromTextblockIndent(textblock, "")
 }
diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index 05e4908..ef0b388 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -1118,7 +1118,7 @@ func TypeFromTextblock(
 	var lastword = ""
 	var testcls = false
 	var testvalues []vxvalue
-	for i, wordtextblock := range textblock.listtextblock {
+	for i, wordtextblock := range ListTextblockSkipComments(textblock.listtextblock) {
 		word := wordtextblock.text
 		switch i {
 		case 0:
@@ -1150,7 +1150,7 @@ func TypeFromTextblock(
 				case ":allowfuncs", ":disallowfuncs":
 					if wordtextblock.blocktype == "[" {
 						var funcs []*vxfunc
-						for _, subtextblock := range wordtextblock.listtextblock {
+						for _, subtextblock := range ListTextblockSkipComments(wordtextblock.listtextblock) {
 							funcname := subtextblock.text
 							fnc := NewFunc()
 							fnc.name = funcname
@@ -1170,7 +1170,7 @@ func TypeFromTextblock(
 				case ":allowtypes", ":disallowtypes", ":traits":
 					if wordtextblock.blocktype == "[" {
 						var types []*vxtype
-						for _, subtextblock := range wordtextblock.listtextblock {
+						for _, subtextblock := range ListTextblockSkipComments(wordtextblock.listtextblock) {
 							typname := subtextblock.text
 							typ := NewType(typname)
 							types = append(types, typ)
@@ -1210,7 +1210,7 @@ func TypeFromTextblock(
 					if wordtextblock.blocktype == "[" {
 						lastword := ""
 						var arg vxarg
-						for _, subtextblock := range wordtextblock.listtextblock {
+						for _, subtextblock := range ListTextblockSkipComments(wordtextblock.listtextblock) {
 							property := subtextblock.text
 							if lastword == "" {
 								switch property {
diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index eb464dc..5880bf2 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -400,7 +400,7 @@ func ValueFromTextblock(
 	switch textblock.blocktype {
 	case "/*", "//":
 	case "(":
-		clausetextblocks := textblock.listtextblock
+		clausetextblocks := ListTextblockSkipComments(textblock.listtextblock)
 		partslen := len(clausetextblocks)
 		var addtoend []vxarg
 		var fnc = NewFunc()
@@ -526,7 +526,7 @@ func ValueFromTextblock(
 			// list of any
 			fnc := NewFunc()
 			fnc.name = "new"
-			textblocks := textblock.listtextblock
+			textblocks := ListTextblockSkipComments(textblock.listtextblock)
 			if len(textblocks) == 0 {
 				fnc.name = "empty"
 			} else {
-- 
2.43.0


From 67e370b9124ec3b616aca394d86ce740116a4158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:35 +0000
Subject: [PATCH 07/47] fix: read the keyword that follows the tests of a type
 like any other keyword

---
 src/vxlisp/type.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index ef0b388..2eba1de 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -1135,12 +1135,13 @@ func TypeFromTextblock(
 			if testcls {
 				if BooleanKeywordFromTextblock(wordtextblock) {
 					testcls = false
-					lastword = word
 				} else {
 					testvalue, msgs := ValueFromTextblock(wordtextblock, emptyfunc, pkg)
 					msgblock = MsgblockAddBlock(msgblock, msgs)
 					testvalues = append(testvalues, testvalue)
 				}
+			}
+			if testcls {
 			} else if lastword != "" {
 				switch lastword {
 				case ":":
-- 
2.43.0


From a0943b36ba3c27d8f43eae3f02e4a5d183aae17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:54 +0000
Subject: [PATCH 08/47] fix: keep the name and config properties of a command
 and end javadomain after its value

---
 src/vxlisp/command.go | 3 +++
 src/vxlisp/project.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/vxlisp/command.go b/src/vxlisp/command.go
index 38f0847..93965c4 100644
--- a/src/vxlisp/command.go
+++ b/src/vxlisp/command.go
@@ -22,6 +22,7 @@ func NewCommandCopy(
 	command *vxcommand) *vxcommand {
 	output := NewCommand()
 	output.code = command.code
+	output.config = command.config
 	output.context = command.context
 	output.doc = command.doc
 	output.filter = command.filter
@@ -93,6 +94,8 @@ func CommandFromTextblock(
 						command.lang = maplang[prop]
 					case ":main":
 						command.main = prop
+					case ":name":
+						command.name = prop
 					case ":path":
 						command.path = prop
 					case ":port":
diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index 139a198..4751a21 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -447,6 +447,7 @@ func ProjectFromTextblock(
 										lastword = ""
 									case ":javadomain":
 										prj.javadomain = word
+										lastword = ""
 									case ":version":
 										prj.version = word
 										lastword = ""
-- 
2.43.0


From 7f055c596ea08d7fc60e2fe7a26f4dcd15306e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:46 +0000
Subject: [PATCH 09/47] fix: take the source text of a block from the right
 place for all newline styles and characters

---
 src/vxlisp/primative.go | 14 ++++++++++++++
 src/vxlisp/textblock.go | 13 ++++++++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/vxlisp/primative.go b/src/vxlisp/primative.go
index 1067492..8131f97 100644
--- a/src/vxlisp/primative.go
+++ b/src/vxlisp/primative.go
@@ -5,6 +5,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 	vx_core "vxlisp/vxlisp/vx/core"
 )
 
@@ -83,6 +84,19 @@ func IntFromStringFindNth(str string, find string, nth int) int {
 	return output
 }
 
+// byte position of a character, counting lines and characters from 0
+func IntFromStringLineChar(str string, line int, char int) int {
+	output := 0
+	if line > 0 {
+		output = IntFromStringFindNth(str, "\n", line) + 1
+	}
+	for i := 0; i < char && output < len(str); i++ {
+		_, size := utf8.DecodeRuneInString(str[output:])
+		output += size
+	}
+	return output
+}
+
 func IntFromStringFindStart(str string, find string, start int) int {
 	output := strings.Index(str[start:], find)
 	if output >= 0 {
diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index 8853f54..66b8775 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -62,14 +62,14 @@ func StringFromTextblockStartEnd(textblock *vxtextblock, startline int, startcha
 	startpos := 0
 	endpos := 0
 	if startlinenum == 0 {
-		startpos = startchar - textblock.charnum
+		startpos = IntFromStringLineChar(text, 0, startchar-textblock.charnum)
 	} else {
-		startpos = IntFromStringFindNth(text, "\n", startlinenum) + startchar
+		startpos = IntFromStringLineChar(text, startlinenum, startchar-1)
 	}
 	if endlinenum == 0 {
-		endpos = endchar - textblock.charnum + 1
+		endpos = IntFromStringLineChar(text, 0, endchar-textblock.charnum+1)
 	} else {
-		endpos = IntFromStringFindNth(text, "\n", endlinenum) + endchar + 1
+		endpos = IntFromStringLineChar(text, endlinenum, endchar)
 	}
 	output = vx_core.V_stringn_from_string_startn_endn(text, startpos, endpos)
 	if startchar > 1 {
@@ -149,6 +149,9 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 	text := textblock.text
 	text = vx_core.V_stringn_from_stringn_findn_replacen(text, "\r\n", "\n")
 	text = vx_core.V_stringn_from_stringn_findn_replacen(text, "\r", "\n")
+	source := NewTextblockFromText(text)
+	source.linenum = textblock.linenum
+	source.charnum = textblock.charnum
 	for _, rune := range text {
 		char := string(rune)
 		switch char {
@@ -381,7 +384,7 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 						phrase.listtextblock = append(phrase.listtextblock, wordtextblock)
 						word = ""
 					}
-					phrase.text = StringFromTextblockStartEnd(textblock, phrase.linenum, phrase.charnum, linenum, charnum)
+					phrase.text = StringFromTextblockStartEnd(source, phrase.linenum, phrase.charnum, linenum, charnum)
 					var prevphrase *vxtextblock
 					prevphrase, blockstack = TextblocksPop(blockstack)
 					prevphrase.listtextblock = append(prevphrase.listtextblock, phrase)
-- 
2.43.0


From c6176bf6b5ef710f68c42c9445b9175ddd5f6da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:07 +0000
Subject: [PATCH 10/47] fix: keep quote characters inside documentation and
 alias text

---
 src/vxlisp/const.go | 6 +++---
 src/vxlisp/func.go  | 8 ++++----
 src/vxlisp/type.go  | 6 +++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/vxlisp/const.go b/src/vxlisp/const.go
index d5a69e5..f671970 100644
--- a/src/vxlisp/const.go
+++ b/src/vxlisp/const.go
@@ -99,11 +99,11 @@ func ConstFromTextblock(textblock *vxtextblock, pkg *vxpackage) (*vxconst, *vxms
 					}
 					cnst.vxtype = cnsttyp
 				case ":alias":
-					cnst.alias = StringRemoveQuotes(word)
+					cnst.alias = word
 				case ":deprecated":
-					cnst.deprecated = StringRemoveQuotes(word)
+					cnst.deprecated = word
 				case ":doc":
-					cnst.doc = StringRemoveQuotes(word)
+					cnst.doc = word
 				}
 				lastword = ""
 			} else if BooleanKeywordFromTextblock(wordtextblock) {
diff --git a/src/vxlisp/func.go b/src/vxlisp/func.go
index 41e850b..58ffc28 100644
--- a/src/vxlisp/func.go
+++ b/src/vxlisp/func.go
@@ -477,7 +477,7 @@ func FuncFromTextblock(
 						fnc.vxtype = fnctyp
 						typefound = true
 					case ":alias":
-						fnc.alias = StringRemoveQuotes(word)
+						fnc.alias = word
 					case ":bigospace":
 						switch word {
 						case ":1", ":logn", ":n", ":nlogn", ":2n", ":n^2", ":2^n", ":n^n":
@@ -506,11 +506,11 @@ func FuncFromTextblock(
 							msgblock = MsgblockAddError(msgblock, msg)
 						}
 					case ":doc":
-						fnc.doc = StringRemoveQuotes(word)
+						fnc.doc = word
 					case ":deprecated":
-						fnc.deprecated = StringRemoveQuotes(word)
+						fnc.deprecated = word
 					case ":sideeffects":
-						fnc.sideeffects = StringRemoveQuotes(word)
+						fnc.sideeffects = word
 					}
 					lastword = ""
 				} else if BooleanKeywordFromTextblock(wordtextblock) {
diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index 2eba1de..10839f0 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -1147,7 +1147,7 @@ func TypeFromTextblock(
 				case ":":
 					typ.extends = ":" + word
 				case ":alias":
-					typ.alias = StringRemoveQuotes(word)
+					typ.alias = word
 				case ":allowfuncs", ":disallowfuncs":
 					if wordtextblock.blocktype == "[" {
 						var funcs []*vxfunc
@@ -1202,9 +1202,9 @@ func TypeFromTextblock(
 				case ":default":
 					typ.defaultvalue = word
 				case ":deprecated":
-					typ.deprecated = StringRemoveQuotes(word)
+					typ.deprecated = word
 				case ":doc":
-					typ.doc = StringRemoveQuotes(word)
+					typ.doc = word
 				case ":extends":
 					typ.extends = word
 				case ":properties":
-- 
2.43.0


From 71de640ac71a156f68c83f8c996ecc01f265bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:33 +0000
Subject: [PATCH 11/47] fix: resolve prefixed names only in the library of the
 prefix

A call with a prefix no library has was resolved without it, a prefixed
call was bound to a parameter of the same name, prefixes of traits,
allowed types and property types were ignored, and an unknown type given
in a call was accepted. vx/data/textblock used such a prefix.
---
 dist/vxlisp/vx/data/textblock.vxlisp |  2 +-
 src/vxlisp/type.go                   |  8 ++++----
 src/vxlisp/value.go                  | 11 ++++++++++-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/dist/vxlisp/vx/data/textblock.vxlisp b/dist/vxlisp/vx/data/textblock.vxlisp
index 8f22829..1c67d7d 100644
--- a/dist/vxlisp/vx/data/textblock.vxlisp
+++ b/dist/vxlisp/vx/data/textblock.vxlisp
@@ -1,7 +1,7 @@
 (package vx/data/textblock
  :libs
   (lib collection :path vx/collection)
-  (lib type       :path vx/type)
+  (lib typ        :path vx/type)
  :doc "Text parser")
 
 (type delim : struct
diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index 10839f0..2653cce 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -760,7 +760,7 @@ func ListTypeLink(
 		if len(typ.traits) > 0 {
 			var values []*vxtype
 			for _, val := range typ.traits {
-				chgval, ok := TypeOrFuncFromListScope(scopes, "", val.name, subpath)
+				chgval, ok := TypeOrFuncFromListScope(scopes, val.pkgname, val.name, subpath)
 				if ok {
 					values = append(values, chgval)
 				} else {
@@ -778,7 +778,7 @@ func ListTypeLink(
 			var values []*vxtype
 			for _, val := range typ.allowtypes {
 				chgval, ok := TypeOrFuncFromListScope(
-					scopes, "", val.name, subpath)
+					scopes, val.pkgname, val.name, subpath)
 				if ok {
 					values = append(values, chgval)
 				} else {
@@ -793,7 +793,7 @@ func ListTypeLink(
 			var values []*vxtype
 			for _, val := range typ.disallowtypes {
 				chgval, ok := TypeOrFuncFromListScope(
-					scopes, "", val.name, subpath)
+					scopes, val.pkgname, val.name, subpath)
 				if ok {
 					values = append(values, chgval)
 				} else {
@@ -867,7 +867,7 @@ func ListTypeLink(
 		if len(typ.properties) > 0 {
 			var properties []vxarg
 			for _, property := range typ.properties {
-				lookuptype, ok := TypeOrFuncFromListScope(scopes, "", property.vxtype.name, subpath)
+				lookuptype, ok := TypeOrFuncFromListScope(scopes, property.vxtype.pkgname, property.vxtype.name, subpath)
 				if ok {
 					property.vxtype = lookuptype
 					properties = append(properties, property)
diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index 5880bf2..db856ed 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -432,6 +432,11 @@ func ValueFromTextblock(
 						if pos >= 0 {
 							pkgcode := fncname[0:pos]
 							pkgpath := LibraryPathFromPackage(pkg, pkgcode)
+							if pkgpath == "" {
+								msg := NewMsgFromTextblock(
+									textblock, 0, 0, "Package Not Found", fncname)
+								msgblock = MsgblockAddError(msgblock, msg)
+							}
 							fnc.pkgname = pkgpath
 							fncname = fncname[pos+1:]
 						}
@@ -648,7 +653,7 @@ func ValueLink(
 			subpath += "/" + vx_core.V_stringn_from_intn(fnc.idx)
 		}
 		lookuparg, ok := ArgFromListScope(listscope, fnc.name)
-		if ok {
+		if ok && fnc.pkgname == "" {
 			lookuptype := lookuparg.vxtype
 			if lookuptype.isfunc || NameFromType(lookuptype) == "vx/core/func" {
 				fnc.argname = fnc.name
@@ -668,6 +673,10 @@ func ValueLink(
 				if lookuptype.isgeneric {
 					fnc.generictype = lookuptype
 				}
+			} else if fnc.vxtype.name != "" {
+				msg := NewMsgFromTextblock(
+					textblock, 0, 0, subpath, "Type Not Found", functype.pkgname, functype.name)
+				msgblock = MsgblockAddError(msgblock, msg)
 			}
 		}
 		switch NameFromFunc(fnc) {
-- 
2.43.0


From 60b571301ddb379c279c3385dad9e5cae5409cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:39 +0000
Subject: [PATCH 12/47] fix: pick the overload whose function parameters fit
 the given function

Only the last parameter of a lambda was compared with the expected
function, surplus parameters were ignored, and a function passed by name
was not compared at all, so the first overload was taken and the call
then rejected.
---
 src/vxlisp/signature.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/vxlisp/signature.go b/src/vxlisp/signature.go
index ca8ea83..aec61c1 100644
--- a/src/vxlisp/signature.go
+++ b/src/vxlisp/signature.go
@@ -11,6 +11,7 @@ type vxsignature struct {
 	listgeneric   []string
 	listsignature []*vxsignature
 	multi         bool
+	isfuncref     bool
 }
 
 func NewSignature() *vxsignature {
@@ -36,20 +37,10 @@ func IsSignatureMatch(
 	templatetype := template.vxtype
 	actualtype := actual.vxtype
 	if template == emptysignature {
-	} else if templatetype.isfunc {
-		var templatesignature *vxsignature
-		for i, actualsignature := range actual.listsignature {
-			if i >= templatelen {
-				templatesignature = template.listsignature[templatelen-1]
-			} else {
-				templatesignature = template.listsignature[i]
-			}
-			output = IsSignatureMatch(
-				templatesignature, actualsignature, i, path)
-		}
+	} else if templatetype.isfunc && (templatelen == 0 || actuallen == 0) {
 	} else if actualtype.isfunc && NameFromType(templatetype) == "vx/core/any" {
 		output = true
-	} else if templatelen == 0 && actuallen == 0 {
+	} else if templatelen == 0 && (actuallen == 0 || actual.isfuncref) {
 		var multi = template.multi
 		if templatetype == nil {
 			output = false
@@ -138,12 +129,13 @@ func SignatureFromFunc(
 				argsignature = SignatureFromFunc(
 					argfunc, subpath)
 				argsignature.vxtype = argtype
-			} else if argvalue.code == ":func" && argvalue.name == "fn" {
+			} else if argvalue.code == ":funcref" || (argvalue.code == ":func" && argvalue.name == "fn") {
 				argfunc := FuncFromValue(argvalue)
 				subpath := path + "/" + argfunc.name
 				argsignature = SignatureFromFunc(
 					argfunc, subpath)
 				argsignature.vxtype = argtype
+				argsignature.isfuncref = argvalue.code == ":funcref"
 			} else {
 				argsignature = NewTypeFromSignature(argtype)
 				argsignature.name = arg.name
-- 
2.43.0


From 7a45f13a4370f0c379d4f6219d2cff87da5406a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:16 +0000
Subject: [PATCH 13/47] fix: check the result type of calls, lambda and let
 bodies and generic arguments

A call used as a function body, local or constant took over the expected
type instead of being compared with it. Bodies of lambdas and lets were
not compared with their declared type, arguments of generic parameters
were not checked, and any value passed for a map of any. Three lambdas
of vx/web/html and vx/ui/html/uihtml declared a wrong type.
---
 dist/vxlisp/vx/ui/html/uihtml.vxlisp |  4 ++--
 dist/vxlisp/vx/web/html.vxlisp       |  2 +-
 src/vxlisp/arg.go                    |  3 ---
 src/vxlisp/func.go                   | 17 +++++++++++++++++
 src/vxlisp/type.go                   |  2 +-
 src/vxlisp/value.go                  |  7 ++++---
 6 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/dist/vxlisp/vx/ui/html/uihtml.vxlisp b/dist/vxlisp/vx/ui/html/uihtml.vxlisp
index 0b17b65..d68c461 100644
--- a/dist/vxlisp/vx/ui/html/uihtml.vxlisp
+++ b/dist/vxlisp/vx/ui/html/uihtml.vxlisp
@@ -744,7 +744,7 @@
  [uistylemap : ui/stylemap]
  (list<-map : html/stylelist
   uistylemap
-  (fn : ui/style
+  (fn : html/style
    [key   : string
     value : ui/style]
    (style<-style
@@ -827,7 +827,7 @@
  [uistylemap : ui/stylemap]
  (map<-map : html/stylemap
   uistylemap
-  (fn : ui/style
+  (fn : html/style
    [key   : string
     value : ui/style]
    (style<-style
diff --git a/dist/vxlisp/vx/web/html.vxlisp b/dist/vxlisp/vx/web/html.vxlisp
index 3af17ef..299911f 100644
--- a/dist/vxlisp/vx/web/html.vxlisp
+++ b/dist/vxlisp/vx/web/html.vxlisp
@@ -616,7 +616,7 @@
   [namelist : stringlist :=
    (list<-list : stringlist
     stylelist
-    (fn : style
+    (fn : string
      [item : style]
      (string<-string-start
       (:name item)
diff --git a/src/vxlisp/arg.go b/src/vxlisp/arg.go
index 5ff890f..f281f5d 100644
--- a/src/vxlisp/arg.go
+++ b/src/vxlisp/arg.go
@@ -398,9 +398,6 @@ func ListArgMergeValues(
 					chgarg = listtoarg[argidx]
 				}
 				chgarg.value = arg.value
-				if chgarg.vxtype.isgeneric {
-					chgarg.vxtype = arg.vxtype
-				}
 				chgargs = append(chgargs, chgarg)
 			}
 			output = chgargs
diff --git a/src/vxlisp/func.go b/src/vxlisp/func.go
index 58ffc28..96b125b 100644
--- a/src/vxlisp/func.go
+++ b/src/vxlisp/func.go
@@ -599,6 +599,23 @@ func FuncValidate(
 			}
 		}
 	}
+	switch NameFromFunc(fnc) {
+	case "vx/core/fn", "vx/core/let", "vx/core/let-async":
+		if len(fnc.listarg) > 0 {
+			bodyvalue := fnc.listarg[len(fnc.listarg)-1].value
+			bodytype := bodyvalue.vxtype
+			if bodyvalue.code == ":func" {
+				bodytype = FuncFromValue(bodyvalue).vxtype
+			}
+			_, ok, _ := BooleanMatchFromTypeType(
+				fnc.vxtype, bodytype, false, -1, path)
+			if !ok {
+				msg := NewMsgFromTextblock(
+					textblock, 0, 0, path, "Body Type does not match expected type", NameFromType(fnc.vxtype), NameFromType(bodytype))
+				msgblock = MsgblockAddError(msgblock, msg)
+			}
+		}
+	}
 	chgvalue, _, msgs := ValueValidate(
 		fnc.value, fnc.vxtype, false, fnc.mapgeneric, textblock, path)
 	msgblock = MsgblockAddBlock(msgblock, msgs)
diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index 2653cce..6e06949 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -581,7 +581,7 @@ func BooleanMatchFromTypeType(
 		pass = true
 	default:
 		if pass {
-		} else if !multi && (expectedtype.extends == ":list") {
+		} else if !multi && (expectedtype.extends == ":list" || expectedtype.extends == ":map") {
 		} else if index == 0 && (expectedtype.extends == "") {
 			// first value cannot be within allow types
 		} else {
diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index db856ed..ff33eb9 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -662,7 +662,8 @@ func ValueLink(
 			}
 		}
 		functype := fnc.vxtype
-		if functype.name == "" {
+		isexplicit := functype.name != ""
+		if !isexplicit {
 			functype = expectedtype
 		}
 		if functype.name != "" {
@@ -673,7 +674,7 @@ func ValueLink(
 				if lookuptype.isgeneric {
 					fnc.generictype = lookuptype
 				}
-			} else if fnc.vxtype.name != "" {
+			} else if isexplicit {
 				msg := NewMsgFromTextblock(
 					textblock, 0, 0, subpath, "Type Not Found", functype.pkgname, functype.name)
 				msgblock = MsgblockAddError(msgblock, msg)
@@ -769,7 +770,7 @@ func ValueLink(
 				fnc.textblock = origfunc.textblock
 				fnc.debug = origfunc.debug
 				fnc.argname = origfunc.argname
-				if origfunc.vxtype.name != "" {
+				if origfunc.vxtype.name != "" && (isexplicit || lookupfunc.vxtype.isgeneric) {
 					fnc.vxtype = origfunc.vxtype
 				}
 			} else {
-- 
2.43.0


From 470e0dd318c1b158bb73b26db2500e2e2efdc710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:30 +0000
Subject: [PATCH 14/47] fix: give constants their type when generating Swift
 code

---
 src/vxlisp/code.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vxlisp/code.go b/src/vxlisp/code.go
index 6e14438..006353a 100644
--- a/src/vxlisp/code.go
+++ b/src/vxlisp/code.go
@@ -2071,6 +2071,7 @@ func const_from_vxconst(
 		path = pkgname + "/" + name
 	}
 	output.P_name = path
+	output.P_const_type = type_from_vxtype(type_vxconst.vxtype)
 	return output
 }
 
-- 
2.43.0


From 93e3a7938f45de80ebc305d9c1d445d4157a5a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:09 +0000
Subject: [PATCH 15/47] fix: keep relative paths that lead above the root
 absolute

---
 src/vxlisp/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/file.go b/src/vxlisp/file.go
index caf3933..81b4b29 100644
--- a/src/vxlisp/file.go
+++ b/src/vxlisp/file.go
@@ -188,7 +188,7 @@ func PathFromPathRelativePath(
 		switch relpath {
 		case ".":
 		case "..":
-			if len(listbasepath) > 0 {
+			if len(listbasepath) > 1 {
 				listbasepath = listbasepath[:len(listbasepath)-1]
 			}
 		default:
-- 
2.43.0


From e423c8a37438a0ff6eac14eea843d4e7c4c9c812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:09 +0000
Subject: [PATCH 16/47] fix: take only the argument after :path as the project
 path

---
 src/vxlisp/project.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index 4751a21..eb2c062 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -96,6 +96,7 @@ func ExecuteProjectFromArgs(
 				switch lastarg {
 				case "--path", ":path":
 					projectpath = arg
+					lastarg = ""
 				default:
 					switch arg {
 					case "--path", ":path":
-- 
2.43.0


From aa0df6d08cc178e7b0a1f91a5d0a01263dc34054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:45 +0000
Subject: [PATCH 17/47] fix: report a failed write of an empty file

---
 src/vxlisp/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vxlisp/file.go b/src/vxlisp/file.go
index 81b4b29..6721831 100644
--- a/src/vxlisp/file.go
+++ b/src/vxlisp/file.go
@@ -289,8 +289,8 @@ func WriteListFile(
 		}
 		filepath := path + "/" + name
 		if BooleanExistsFromPath(filepath) {
-			readtext, _ := StringFromReadTextFile(filepath)
-			if readtext != writetext {
+			readtext, readmsgs := StringFromReadTextFile(filepath)
+			if readmsgs.iserror || readtext != writetext {
 				_, err := WriteFileFromFilenameText(filepath, writetext)
 				if err != nil {
 					msgblock = MsgblockAddException(msgblock, err)
-- 
2.43.0


From a2a069fd99a4326da179f68da968ea1bec53a745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:37 +0000
Subject: [PATCH 18/47] fix: assign the result of functions with the word
 output in a text or a name

---
 src/vxlisp/lang-cpp.go  |  4 ++--
 src/vxlisp/lang-func.go |  4 ++--
 src/vxlisp/lang-js.go   |  4 ++--
 src/vxlisp/primative.go | 33 +++++++++++++++++++++++++++++++++
 4 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index f581a86..4883aff 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -1000,8 +1000,8 @@ func CppBodyFromFunc(
 	lineindent = "\n" + indent
 	valuetext = vx_core.V_stringn_from_liststringn_joinn(
 		chgvaluetexts, "\n")
-	if vx_core.V_intn_from_stringn_findn(valuetext, "output ") >= 0 {
-	} else if vx_core.V_intn_from_stringn_findn(valuetext, "output->") >= 0 {
+	if BooleanWordFromCode(valuetext, "output", " ") {
+	} else if BooleanWordFromCode(valuetext, "output", "->") {
 	} else if fnc.vxtype.name == "none" {
 	} else if valuetext == "" {
 	} else {
diff --git a/src/vxlisp/lang-func.go b/src/vxlisp/lang-func.go
index 8f13fc0..e5ee2ab 100644
--- a/src/vxlisp/lang-func.go
+++ b/src/vxlisp/lang-func.go
@@ -342,8 +342,8 @@ func LangFuncFFunc(
 		}
 		valuetext = vx_core.V_stringn_from_liststringn_joinn(
 			chgvaluetexts, "\n")
-		if vx_core.V_intn_from_stringn_findn(valuetext, "output ") >= 0 {
-		} else if vx_core.V_intn_from_stringn_findn(valuetext, "output.") >= 0 {
+		if BooleanWordFromCode(valuetext, "output", " ") {
+		} else if BooleanWordFromCode(valuetext, "output", ".") {
 		} else if fnc.vxtype.name == "none" {
 		} else if valuetext == "" {
 		} else {
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index b3faac2..0127698 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -332,8 +332,8 @@ func JsFromFunc(
 		false,
 		path)
 	msgblock = MsgblockAddBlock(msgblock, msgs)
-	if strings.Index(valuetext, "output ") > 0 {
-	} else if strings.Index(valuetext, "output.") > 0 {
+	if BooleanWordFromCode(valuetext, "output", " ") {
+	} else if BooleanWordFromCode(valuetext, "output", ".") {
 	} else if fnc.vxtype.name == "none" {
 	} else if valuetext == "" {
 	} else {
diff --git a/src/vxlisp/primative.go b/src/vxlisp/primative.go
index 8131f97..38158db 100644
--- a/src/vxlisp/primative.go
+++ b/src/vxlisp/primative.go
@@ -191,6 +191,39 @@ func MapStringFromListStringValue(liststring []string, value string) map[string]
 	return output
 }
 
+// BooleanWordFromCode returns true if the code has a word followed by an ending
+// outside of its string literals.
+func BooleanWordFromCode(code string, word string, ending string) bool {
+	isquote := false
+	for ipos := 0; ipos < len(code); ipos++ {
+		switch code[ipos] {
+		case '"':
+			isquote = !isquote
+		case '\n':
+			isquote = false
+		case '\\':
+			if isquote {
+				ipos += 1
+			}
+		default:
+			if isquote {
+			} else if !strings.HasPrefix(code[ipos:], word+ending) {
+			} else if ipos == 0 || !BooleanIdentifierFromByte(code[ipos-1]) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+func BooleanIdentifierFromByte(char byte) bool {
+	switch {
+	case char == '_', char >= '0' && char <= '9', char >= 'A' && char <= 'Z', char >= 'a' && char <= 'z':
+		return true
+	}
+	return false
+}
+
 func StringByteFromBoolean(booleanval bool) string {
 	if booleanval {
 		return "1"
-- 
2.43.0


From e9943ab5fd22d0b788d73e5dc100a23152949265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:14 +0000
Subject: [PATCH 19/47] fix: report a command without a known language

---
 src/vxlisp/project.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index eb2c062..7589e7e 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -53,7 +53,10 @@ func ExecuteProjectCommand(
 		msgs := WriteDocFromProjectCmd(project, command)
 		msgblock = MsgblockAddBlock(msgblock, msgs)
 	case ":source", ":test":
-		if !issource {
+		if command.lang == nil {
+			msg := NewMsg("Command Language Not Found: (cmd " + command.name + " :lang " + command.langcode + ")")
+			msgblock = MsgblockAddError(msgblock, msg)
+		} else if !issource {
 			msgs := LangWriteFromProjectCmdNative(
 				command.lang, project, command)
 			msgblock = MsgblockAddBlock(
-- 
2.43.0


From 0db817301252357f2a2f2db39e0e49eff5741b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:09 +0000
Subject: [PATCH 20/47] fix: spell lambda parameters as identifiers in
 generated code

---
 src/vxlisp/lang-func.go   | 4 ++--
 src/vxlisp/lang-js.go     | 4 ++--
 src/vxlisp/lang-native.go | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vxlisp/lang-func.go b/src/vxlisp/lang-func.go
index e5ee2ab..6270bde 100644
--- a/src/vxlisp/lang-func.go
+++ b/src/vxlisp/lang-func.go
@@ -965,11 +965,11 @@ func LangFuncValueArgIndex(
 					argtype := lambdaarg.vxtype
 					lambdavar :=
 						LangVal(lang, indent+2, argtype,
-							lambdaarg.name,
+							LangFromName(lambdaarg.name),
 							LangFuncCallF(lang, indent+2,
 								func_any_from_any,
 								LangTypeT(lang, argtype),
-								lambdaarg.name+"_any"))
+								LangFromName(lambdaarg.name)+"_any"))
 					lambdavars = append(lambdavars, lambdavar)
 				}
 				slambdaargs := vx_core.V_stringn_from_liststringn_joinn(lambdaargs, ", ")
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 0127698..1a0cee7 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -285,7 +285,7 @@ func JsFromFunc(
 	if fnc.debug {
 		logheader += lineindent + "console.log(\"" + fnc.name + "\", \"start\""
 		for _, arg := range fnc.listarg {
-			logheader += ", \"" + arg.name + "=\", " + arg.alias
+			logheader += ", \"" + arg.name + "=\", " + LangFromName(arg.alias)
 		}
 		logheader += ")\n"
 		logfooter = lineindent + "console.log(\"" + fnc.name + "\", \"end\", output)"
@@ -710,7 +710,7 @@ func JsFromValue(
 						var lambdaargs []string
 						arglist := ListArgLocalFromFunc(argfunc)
 						for _, lambdaarg := range arglist {
-							lambdaargs = append(lambdaargs, lambdaarg.name)
+							lambdaargs = append(lambdaargs, LangFromName(lambdaarg.name))
 						}
 						lambdatext := strings.Join(lambdaargs, ", ")
 						work, msgs := JsFromValue(lang, argvalue, pkgname, fnc, 0, true, test, argsubpath)
diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index c741ed9..b5f96ff 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -1344,7 +1344,7 @@ func LangFuncLambdaArgAny(
 func LangFuncLambdaArgName(
 	lang *vxlang,
 	lambdaarg vxarg) string {
-	output := lambdaarg.name + "_any"
+	output := LangFromName(lambdaarg.name) + "_any"
 	switch lang {
 	case langkotlin:
 		output += " : vx_core.Type_any"
-- 
2.43.0


From e5139e3398f8859ce7de2e723f37aa38baf860ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:09 +0000
Subject: [PATCH 21/47] fix: keep the names of packages without a folder whole
 in generated code

---
 src/vxlisp/lang-native.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index b5f96ff..f456a5f 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -1942,17 +1942,17 @@ func LangImport(
 	case langcsharp:
 	case langjava:
 		ipos := vx_core.V_intn_from_stringn_findlastn(pkgname, "/")
-		path := vx_core.V_stringn_from_string_startn_endn(pkgname, 0, ipos)
+		path := vx_core.V_stringn_from_string_startn_endn(pkgname, 0, ipos+1)
 		path = vx_core.V_stringn_from_stringn_findn_replacen(path, "/", ".")
 		name := vx_core.V_stringn_from_string_startn_endn(pkgname, ipos+1, len(pkgname))
 		name = vx_core.V_stringn_uppercasefirst(name)
-		importname := project.javadomain + "." + path + "." + name
+		importname := project.javadomain + "." + path + name
 		importline = "import " + importname + lang.lineend
 	case langkotlin:
 		ipos := vx_core.V_intn_from_stringn_findlastn(pkgname, "/")
-		path := vx_core.V_stringn_from_string_startn_endn(pkgname, 0, ipos)
+		path := vx_core.V_stringn_from_string_startn_endn(pkgname, 0, ipos+1)
 		path = vx_core.V_stringn_from_stringn_findn_replacen(path, "/", ".")
-		importname := project.javadomain + "." + path + ".*"
+		importname := project.javadomain + "." + path + "*"
 		importline = "import " + importname
 	case langswift:
 		ipos := vx_core.V_intn_from_stringn_findn(pkgname, "/")
@@ -2220,10 +2220,12 @@ func LangNativePackageLine(
 	switch lang {
 	case langcsharp:
 		ipos := vx_core.V_intn_from_stringn_findlastn(pkgname, "/")
-		csnamespace := vx_core.V_stringn_from_string_startn_endn(pkgname, 0, ipos)
-		csnamespace = vx_core.V_stringn_from_stringn_findn_replacen(csnamespace, "/", ".")
-		csnamespace = vx_core.V_stringn_ucasefirst_from_stringn_delimn(csnamespace, ".")
-		output = "namespace " + csnamespace + lang.lineend + "\n"
+		if ipos >= 0 {
+			csnamespace := vx_core.V_stringn_from_string_startn_endn(pkgname, 0, ipos)
+			csnamespace = vx_core.V_stringn_from_stringn_findn_replacen(csnamespace, "/", ".")
+			csnamespace = vx_core.V_stringn_ucasefirst_from_stringn_delimn(csnamespace, ".")
+			output = "namespace " + csnamespace + lang.lineend + "\n"
+		}
 	case langjava, langkotlin:
 		output = "package " + pkgpath + lang.lineend + "\n"
 	case langswift:
@@ -2241,7 +2243,13 @@ func LangPackagePathFromPrefixName(
 	case langcsharp:
 		pkgpath = pkgprefix + vx_core.V_stringn_ucasefirst_from_stringn_delimn(pkgname, "/")
 		ipos := vx_core.V_intn_from_stringn_findlastn(pkgpath, "/")
+		if ipos < 0 {
+			ipos = vx_core.V_intn_from_stringn_findlastn(pkgpath, ".")
+		}
 		name = vx_core.V_stringn_from_string_startn_endn(pkgpath, ipos+1, len(pkgpath))
+		if ipos < 0 {
+			ipos = 0
+		}
 		pkgpath = vx_core.V_stringn_from_string_startn_endn(pkgpath, 0, ipos)
 		pkgpath = vx_core.V_stringn_from_stringn_findn_replacen(pkgpath, "/", ".")
 		pkgpath = LangFromName(pkgpath)
@@ -2623,17 +2631,17 @@ func LangTestImport(
 		importline = "using Xunit" + lang.lineend
 	case langjava:
 		ipos := vx_core.V_intn_from_stringn_findlastn(pkgname, "/")
-		path := vx_core.V_stringn_from_string_startn_endn(pkgname, 0, ipos)
+		path := vx_core.V_stringn_from_string_startn_endn(pkgname, 0, ipos+1)
 		path = vx_core.V_stringn_from_stringn_findn_replacen(path, "/", ".")
 		name := vx_core.V_stringn_from_string_startn_endn(pkgname, ipos+1, len(pkgname))
 		name = vx_core.V_stringn_uppercasefirst(name)
-		importname := project.javadomain + "." + path + "." + name + "Test"
+		importname := project.javadomain + "." + path + name + "Test"
 		importline = "import " + importname + lang.lineend
 	case langkotlin:
 		ipos := vx_core.V_intn_from_stringn_findlastn(pkgname, "/")
-		path := vx_core.V_stringn_from_string_startn_endn(pkgname, 0, ipos)
+		path := vx_core.V_stringn_from_string_startn_endn(pkgname, 0, ipos+1)
 		path = vx_core.V_stringn_from_stringn_findn_replacen(path, "/", ".")
-		importname := project.javadomain + "." + path + ".*"
+		importname := project.javadomain + "." + path + "*"
 		importline = "import " + importname + lang.lineend
 	case langswift:
 		importline = "" +
-- 
2.43.0


From 09996bbdb85eebea5f5ad8333a4b45fea38d0b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:35 +0000
Subject: [PATCH 22/47] fix: take only a numbered ending of a name for a
 generic type

---
 src/vxlisp/scope.go | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/vxlisp/scope.go b/src/vxlisp/scope.go
index 44bdc4d..e953557 100644
--- a/src/vxlisp/scope.go
+++ b/src/vxlisp/scope.go
@@ -156,22 +156,11 @@ func TypeFromListScope(listscope []vxscope, pkgname string, typename string, pat
 	var ok = false
 	isgeneric := false
 	origname := typename
-	ipos := vx_core.V_intn_from_stringn_findlastn(typename, "-1")
-	if ipos < 0 {
-		ipos = vx_core.V_intn_from_stringn_findlastn(typename, "-2")
-	}
-	if ipos < 0 {
-		ipos = vx_core.V_intn_from_stringn_findlastn(typename, "-3")
-	}
-	if ipos < 0 {
-		ipos = vx_core.V_intn_from_stringn_findlastn(typename, "-4")
-	}
-	if ipos < 0 {
-		ipos = vx_core.V_intn_from_stringn_findlastn(typename, "-5")
-	}
-	if ipos >= 0 {
-		typename = vx_core.V_stringn_from_string_startn_endn(typename, 0, ipos)
-		isgeneric = true
+	for _, suffix := range []string{"-1", "-2", "-3", "-4", "-5"} {
+		if !isgeneric && BooleanFromStringEnds(typename, suffix) {
+			typename = vx_core.V_stringn_from_string_startn_endn(typename, 0, len(typename)-len(suffix))
+			isgeneric = true
+		}
 	}
 	for _, scope := range listscope {
 		if pkgname == "" {
-- 
2.43.0


From 9af82e3b7b73748f15cdac99180c0591b898a8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:13 +0000
Subject: [PATCH 23/47] fix: escape the documentation of arguments in
 documentation pages

---
 src/vxlisp/doc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/doc.go b/src/vxlisp/doc.go
index 945625e..878f057 100644
--- a/src/vxlisp/doc.go
+++ b/src/vxlisp/doc.go
@@ -79,7 +79,7 @@ func HtmlFromListFuncIndent(listfunc []*vxfunc, indent string) (string, string)
 				lineindent + "        <div class=\"tr\">" +
 				lineindent + "          <div class=\"td\">" + HtmlFromString(arg.name) + "</div>" +
 				lineindent + "          <div class=\"td\">" + HtmlLinkFromType(arg.vxtype) + "</div>" +
-				lineindent + "          <div class=\"td\">" + argdoc + "</div>" +
+				lineindent + "          <div class=\"td\">" + HtmlFromString(argdoc) + "</div>" +
 				lineindent + "        </div>"
 		}
 		arguments += "" +
-- 
2.43.0


From b9f6cf266ae3d6fbf630e478eb4c258e60cc1d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:45 +0000
Subject: [PATCH 24/47] fix: keep documentation text inside generated comments

---
 src/vxlisp/lang-js.go     |  2 +-
 src/vxlisp/lang-native.go | 22 ++++++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 1a0cee7..b97e212 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -595,7 +595,7 @@ func JsFromType(
 		"\n    }"
 	output := "" +
 		"\n  /**" +
-		"\n   * " + StringFromStringIndent(doc, "   * ") +
+		"\n   * " + StringFromStringIndent(LangCommentText(lang, doc), "   * ") +
 		"\n   */" +
 		"\n  static t_" + typename + " = {}" +
 		"\n  static e_" + typename + " = " + evalue +
diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index f456a5f..c8f7af4 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -500,6 +500,20 @@ func LangConstClassHeader(
 	return output
 }
 
+// LangCommentText returns the text such that it cannot end or open a block comment.
+func LangCommentText(
+	lang *vxlang,
+	text string) string {
+	output := vx_core.V_stringn_from_stringn_findn_replacen(text, "*/", "* /")
+	output = vx_core.V_stringn_from_stringn_findn_replacen(output, "/*", "/ *")
+	switch lang {
+	case langjava:
+		// java reads unicode escapes in comments
+		output = vx_core.V_stringn_from_stringn_findn_replacen(output, "\\u", "\\ u")
+	}
+	return output
+}
+
 func LangConstDoc(
 	lang *vxlang,
 	cnst *vxconst) string {
@@ -518,7 +532,7 @@ func LangConstDoc(
 		doc += "{" + cnst.vxtype.name + "}"
 		output = "" +
 			"  /**" +
-			"\n   * " + StringFromStringIndent(doc, "   * ") +
+			"\n   * " + StringFromStringIndent(LangCommentText(lang, doc), "   * ") +
 			"\n   */"
 	}
 	return output
@@ -972,7 +986,7 @@ func LangFuncDoc(
 			"\n@return {" + fnc.vxtype.name + "}"
 		output = "" +
 			"  /**" +
-			"\n   * " + StringFromStringIndent(doc, "   * ") +
+			"\n   * " + StringFromStringIndent(LangCommentText(lang, doc), "   * ") +
 			"\n   */"
 	default:
 		switch NameFromFunc(fnc) {
@@ -1012,7 +1026,7 @@ func LangFuncDoc(
 			"\n@return {" + fnc.vxtype.name + "}"
 		output = "" +
 			"  /**" +
-			"\n   * " + StringFromStringIndent(doc, "   * ") +
+			"\n   * " + StringFromStringIndent(LangCommentText(lang, doc), "   * ") +
 			"\n   * (func " + fnc.name + ")" +
 			"\n   */"
 	}
@@ -3225,7 +3239,7 @@ func LangTypeDoc(
 		}
 		output = "" +
 			"  /**" +
-			"\n   * " + StringFromStringIndent(doc, "   * ") +
+			"\n   * " + StringFromStringIndent(LangCommentText(lang, doc), "   * ") +
 			"\n   * (type " + typ.name + ")" +
 			"\n   */"
 	}
-- 
2.43.0


From fc79a997a1aa8c2d56803645c8d6a57976be86a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:34 +0000
Subject: [PATCH 25/47] fix: capture a parameter that is the whole body of a
 let in C++

---
 src/vxlisp/lang-cpp.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 4883aff..13c60a4 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -82,13 +82,7 @@ func ListCaptureFromFunc(
 			case "fn-any":
 				argvalue := arg.value
 				switch argvalue.code {
-				case ":arg":
-					subarg := ArgFromValue(argvalue)
-					outer := LangFromName(subarg.alias)
-					if !vx_core.V_booleann_from_liststringn_containsn(listlocalarg, outer) {
-						listlocalarg = append(listlocalarg, outer)
-					}
-				case ":func":
+				case ":arg", ":func":
 					listmore := ListCaptureFromValue(argvalue, listlocalarg, subpath)
 					for _, outer := range listmore {
 						if !vx_core.V_booleann_from_liststringn_containsn(output, outer) {
-- 
2.43.0


From 20b3a28b31096d97f80d14f969d4ce58c747c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:34 +0000
Subject: [PATCH 26/47] fix: give the first position of a text in a list

---
 src/vxlisp/vx/core/core.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vxlisp/vx/core/core.go b/src/vxlisp/vx/core/core.go
index ff66479..46cfa66 100644
--- a/src/vxlisp/vx/core/core.go
+++ b/src/vxlisp/vx/core/core.go
@@ -457,6 +457,7 @@ func V_intn_from_liststringn_findn(
 	for pos, text := range liststringn {
 		if text == findn {
 			output = pos
+			break
 		}
 	}
 	return output
-- 
2.43.0


From 385301c4f2062f6a7fbe7f8eb4942d32d108c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:34 +0000
Subject: [PATCH 27/47] fix: give an empty text for a substring past the end or
 a negative repetition

---
 src/vxlisp/vx/core/core.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vxlisp/vx/core/core.go b/src/vxlisp/vx/core/core.go
index 46cfa66..1d97e24 100644
--- a/src/vxlisp/vx/core/core.go
+++ b/src/vxlisp/vx/core/core.go
@@ -845,7 +845,10 @@ func V_stringn_from_stringn_findn_replacen(
 func V_stringn_from_stringn_repeatn(
 	stringn string,
 	repeatn int) string {
-	var output string = strings.Repeat(stringn, repeatn)
+	var output string = ""
+	if repeatn > 0 {
+		output = strings.Repeat(stringn, repeatn)
+	}
 	return output
 }
 
@@ -865,7 +868,7 @@ func V_stringn_from_string_startn_endn(
 		endnum = startnum
 	}
 	if len(stringn) < startnum {
-		startnum = 0
+		startnum = len(stringn)
 	}
 	if len(stringn) < endnum {
 		endnum = len(stringn)
-- 
2.43.0


From f2493eb28c31f5599af741503dacf519e374d037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:34 +0000
Subject: [PATCH 28/47] fix: upper-case a first character of several bytes as a
 whole

---
 src/vxlisp/vx/core/core.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/vx/core/core.go b/src/vxlisp/vx/core/core.go
index 1d97e24..b558c8b 100644
--- a/src/vxlisp/vx/core/core.go
+++ b/src/vxlisp/vx/core/core.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"strings"
 	"testing"
+	"unicode/utf8"
 )
 
 var outputlog = false
@@ -960,7 +961,8 @@ func V_stringn_uppercasefirst(
 	stringn string) string {
 	var output string = ""
 	if len(stringn) > 0 {
-		output = strings.ToUpper(stringn[0:1]) + stringn[1:]
+		_, size := utf8.DecodeRuneInString(stringn)
+		output = strings.ToUpper(stringn[0:size]) + stringn[size:]
 	}
 	return output
 }
-- 
2.43.0


From 04cc14a26ed606935c1d477d5a96cf3dfb38eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:34 +0000
Subject: [PATCH 29/47] fix: look for a text only from where the search starts

---
 src/vxlisp/primative.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/primative.go b/src/vxlisp/primative.go
index 38158db..3545d96 100644
--- a/src/vxlisp/primative.go
+++ b/src/vxlisp/primative.go
@@ -98,6 +98,12 @@ func IntFromStringLineChar(str string, line int, char int) int {
 }
 
 func IntFromStringFindStart(str string, find string, start int) int {
+	if start < 0 {
+		start = 0
+	}
+	if start > len(str) {
+		return -1
+	}
 	output := strings.Index(str[start:], find)
 	if output >= 0 {
 		output += start
@@ -262,7 +268,7 @@ func StringFromStringFromTo(text string, from string, to string) string {
 			}
 		}
 		if to != "" {
-			ito = vx_core.V_intn_from_stringn_findn(text, to)
+			ito = IntFromStringFindStart(text, to, ifrom)
 			if ito < 0 {
 				ito = len(text)
 			}
-- 
2.43.0


From bcb7a570e8b020dfe860e5301b01c3c3ed9dc53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:42 +0000
Subject: [PATCH 30/47] fix: count overloads in the total of the function
 coverage

---
 src/vxlisp/lang-cpp.go  | 2 +-
 src/vxlisp/lang-js.go   | 6 +-----
 src/vxlisp/lang-test.go | 2 +-
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 13c60a4..736bbbf 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -4320,9 +4320,9 @@ func CppTestFromPackage(
 	funcheaders := ""
 	functexts := ""
 	for _, fncid := range fnckeys {
-		coverfunctotal += 1
 		fncs := pkg.mapfunc[fncid]
 		for _, fnc := range fncs {
+			coverfunctotal += 1
 			test, msgs := CppTestFromFunc(lang, fnc)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index b97e212..d3ad211 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -1084,13 +1084,12 @@ func JsTestFromPackage(
 	coverfunctotal := 0
 	fnckeys := ListKeyFromMapFunc(pkg.mapfunc)
 	for _, fncid := range fnckeys {
-		isfound := false
 		fncs := pkg.mapfunc[fncid]
 		for _, fnc := range fncs {
 			switch fnc.clientserver {
 			case ":server":
 			default:
-				isfound = true
+				coverfunctotal += 1
 				test, msgs := JsTestFromFunc(lang, fnc)
 				msgblock = MsgblockAddBlock(msgblock, msgs)
 				msgblock = MsgblockAddBlock(msgblock, msgs)
@@ -1110,9 +1109,6 @@ func JsTestFromPackage(
 				}
 			}
 		}
-		if isfound {
-			coverfunctotal += 1
-		}
 	}
 	coverbigospacepct := 100
 	if coverbigospacetotal > 0 {
diff --git a/src/vxlisp/lang-test.go b/src/vxlisp/lang-test.go
index d38bd68..ebedbd7 100644
--- a/src/vxlisp/lang-test.go
+++ b/src/vxlisp/lang-test.go
@@ -267,9 +267,9 @@ func LangTestFromPackage(
 	fnckeys := ListKeyFromMapFunc(pkg.mapfunc)
 	functexts := ""
 	for _, fncid := range fnckeys {
-		coverfunctotal += 1
 		fncs := pkg.mapfunc[fncid]
 		for _, fnc := range fncs {
+			coverfunctotal += 1
 			test, msgs := LangTestFromFunc(lang, fnc)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
 			coverfunc = append(
-- 
2.43.0


From 40efd5fa0bdc010b79d97598425a16f9d635b0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:42 +0000
Subject: [PATCH 31/47] fix: declare the tests of overloads in generated C++
 headers

---
 src/vxlisp/lang-cpp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 736bbbf..32c4cab 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -4336,7 +4336,7 @@ func CppTestFromPackage(
 				functexts += test
 				testall = append(
 					testall, pkgname+"_test::f_"+LangFromName(fnc.alias)+LangIndexFromFunc(fnc)+"(context)")
-				funcheaders += "\n  vx_test::Type_testcase f_" + LangFromName(fnc.alias) + "(vx_core::Type_context context);"
+				funcheaders += "\n  vx_test::Type_testcase f_" + LangFromName(fnc.alias) + LangIndexFromFunc(fnc) + "(vx_core::Type_context context);"
 			}
 			coverdoctotal += 1
 			if fnc.doc != "" {
-- 
2.43.0


From 8076f6c12180babb692b791333ae5bf29b331fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:03 +0000
Subject: [PATCH 32/47] fix: accept a function without a body that returns a
 function

---
 src/vxlisp/func.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vxlisp/func.go b/src/vxlisp/func.go
index 96b125b..384be24 100644
--- a/src/vxlisp/func.go
+++ b/src/vxlisp/func.go
@@ -300,6 +300,7 @@ func NewFunc() *vxfunc {
 	output := new(vxfunc)
 	output.vxtype = emptytype
 	output.textblock = emptytextblock
+	output.value = emptyvalue
 	return output
 }
 
-- 
2.43.0


From 84b18a49b1113da5fac204c27ef6feaae775bfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:06 +0000
Subject: [PATCH 33/47] fix: accept a function that takes itself as an argument

---
 src/vxlisp/func.go      | 11 +++++++++++
 src/vxlisp/signature.go | 19 ++++++++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/vxlisp/func.go b/src/vxlisp/func.go
index 384be24..8d3d629 100644
--- a/src/vxlisp/func.go
+++ b/src/vxlisp/func.go
@@ -386,6 +386,17 @@ func NewMapFuncMap() map[string][]*vxfunc {
 	return make(map[string][]*vxfunc)
 }
 
+func BooleanContainsFromListFunc(
+	listfunc []*vxfunc,
+	fnc *vxfunc) bool {
+	for _, lookup := range listfunc {
+		if lookup == fnc {
+			return true
+		}
+	}
+	return false
+}
+
 func FuncFnGetArgList(fnc *vxfunc) []vxarg {
 	var output []vxarg
 	switch NameFromFunc(fnc) {
diff --git a/src/vxlisp/signature.go b/src/vxlisp/signature.go
index aec61c1..4d5198b 100644
--- a/src/vxlisp/signature.go
+++ b/src/vxlisp/signature.go
@@ -95,6 +95,15 @@ func IsSignatureMatch(
 func SignatureFromFunc(
 	fnc *vxfunc,
 	path string) *vxsignature {
+	return SignatureFromFuncListFunc(fnc, nil, path)
+}
+
+// SignatureFromFuncListFunc does not expand the functions of listfunc again
+func SignatureFromFuncListFunc(
+	fnc *vxfunc,
+	listfunc []*vxfunc,
+	path string) *vxsignature {
+	listfunc = append(listfunc, fnc)
 	var output = NewSignature()
 	output.name = NameFromFunc(fnc)
 	output.idx = fnc.idx
@@ -123,17 +132,17 @@ func SignatureFromFunc(
 				argtype = argvaluetype
 			}
 			var argsignature *vxsignature
-			if argtype.isfunc {
+			if argtype.isfunc && !BooleanContainsFromListFunc(listfunc, argtype.vxfunc) {
 				argfunc := argtype.vxfunc
 				subpath := path + "/" + argfunc.name
-				argsignature = SignatureFromFunc(
-					argfunc, subpath)
+				argsignature = SignatureFromFuncListFunc(
+					argfunc, listfunc, subpath)
 				argsignature.vxtype = argtype
 			} else if argvalue.code == ":funcref" || (argvalue.code == ":func" && argvalue.name == "fn") {
 				argfunc := FuncFromValue(argvalue)
 				subpath := path + "/" + argfunc.name
-				argsignature = SignatureFromFunc(
-					argfunc, subpath)
+				argsignature = SignatureFromFuncListFunc(
+					argfunc, listfunc, subpath)
 				argsignature.vxtype = argtype
 				argsignature.isfuncref = argvalue.code == ":funcref"
 			} else {
-- 
2.43.0


From 4e91eb8a2090caec4e0cde323c8ca9f769633bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:25 +0000
Subject: [PATCH 34/47] fix: report a let or fn without arguments instead of
 crashing

---
 src/vxlisp/value.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index ff33eb9..978644e 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -693,12 +693,14 @@ func ValueLink(
 		}
 		switch fnc.name {
 		case "fn", "let":
-			arglet := fnc.listarg[0]
-			listarglet := ListArgFromValue(arglet.value)
-			listarglet, msgs := ListArgLinkType(listarglet, listscope, textblock, subpath)
-			msgblock = MsgblockAddBlock(msgblock, msgs)
-			arglet.value = NewValueFromArgList(listarglet)
-			fnc.listarg[0] = arglet
+			if len(fnc.listarg) > 0 {
+				arglet := fnc.listarg[0]
+				listarglet := ListArgFromValue(arglet.value)
+				listarglet, msgs := ListArgLinkType(listarglet, listscope, textblock, subpath)
+				msgblock = MsgblockAddBlock(msgblock, msgs)
+				arglet.value = NewValueFromArgList(listarglet)
+				fnc.listarg[0] = arglet
+			}
 		}
 		listscope = ListScopeAddFuncLocalArg(listscope, fnc)
 		chgargs, msgs := ListArgLink(
-- 
2.43.0


From 1cda76650ccd728461e15a4f186c67f5f6fc2abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:35 +0000
Subject: [PATCH 35/47] fix: report a threading without steps instead of
 crashing

---
 src/vxlisp/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index 978644e..87768b6 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -488,7 +488,7 @@ func ValueFromTextblock(
 		}
 		switch fnc.name {
 		case "<-", "<<-":
-			var prevarg vxarg
+			prevarg := emptyarg
 			for argidx, arg := range fnc.listarg {
 				switch argidx {
 				case 0:
-- 
2.43.0


From 2c17a3ac839ffff178d6addb1ab2974ad9219adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:49 +0000
Subject: [PATCH 36/47] Revert the change of the function coverage total

The file is part of the generation of tests and is left as it was.
---
 src/vxlisp/lang-cpp.go  | 2 +-
 src/vxlisp/lang-js.go   | 6 +++++-
 src/vxlisp/lang-test.go | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 32c4cab..cef9a27 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -4320,9 +4320,9 @@ func CppTestFromPackage(
 	funcheaders := ""
 	functexts := ""
 	for _, fncid := range fnckeys {
+		coverfunctotal += 1
 		fncs := pkg.mapfunc[fncid]
 		for _, fnc := range fncs {
-			coverfunctotal += 1
 			test, msgs := CppTestFromFunc(lang, fnc)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index d3ad211..b97e212 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -1084,12 +1084,13 @@ func JsTestFromPackage(
 	coverfunctotal := 0
 	fnckeys := ListKeyFromMapFunc(pkg.mapfunc)
 	for _, fncid := range fnckeys {
+		isfound := false
 		fncs := pkg.mapfunc[fncid]
 		for _, fnc := range fncs {
 			switch fnc.clientserver {
 			case ":server":
 			default:
-				coverfunctotal += 1
+				isfound = true
 				test, msgs := JsTestFromFunc(lang, fnc)
 				msgblock = MsgblockAddBlock(msgblock, msgs)
 				msgblock = MsgblockAddBlock(msgblock, msgs)
@@ -1109,6 +1110,9 @@ func JsTestFromPackage(
 				}
 			}
 		}
+		if isfound {
+			coverfunctotal += 1
+		}
 	}
 	coverbigospacepct := 100
 	if coverbigospacetotal > 0 {
diff --git a/src/vxlisp/lang-test.go b/src/vxlisp/lang-test.go
index ebedbd7..d38bd68 100644
--- a/src/vxlisp/lang-test.go
+++ b/src/vxlisp/lang-test.go
@@ -267,9 +267,9 @@ func LangTestFromPackage(
 	fnckeys := ListKeyFromMapFunc(pkg.mapfunc)
 	functexts := ""
 	for _, fncid := range fnckeys {
+		coverfunctotal += 1
 		fncs := pkg.mapfunc[fncid]
 		for _, fnc := range fncs {
-			coverfunctotal += 1
 			test, msgs := LangTestFromFunc(lang, fnc)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
 			coverfunc = append(
-- 
2.43.0


From cae37c5e05618b7efc2468c4dcb54b420852b817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:05 +0000
Subject: [PATCH 37/47] fix: count overloads in the total of the C++ and
 JavaScript function coverage

---
 src/vxlisp/lang-cpp.go | 2 +-
 src/vxlisp/lang-js.go  | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index cef9a27..32c4cab 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -4320,9 +4320,9 @@ func CppTestFromPackage(
 	funcheaders := ""
 	functexts := ""
 	for _, fncid := range fnckeys {
-		coverfunctotal += 1
 		fncs := pkg.mapfunc[fncid]
 		for _, fnc := range fncs {
+			coverfunctotal += 1
 			test, msgs := CppTestFromFunc(lang, fnc)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index b97e212..d3ad211 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -1084,13 +1084,12 @@ func JsTestFromPackage(
 	coverfunctotal := 0
 	fnckeys := ListKeyFromMapFunc(pkg.mapfunc)
 	for _, fncid := range fnckeys {
-		isfound := false
 		fncs := pkg.mapfunc[fncid]
 		for _, fnc := range fncs {
 			switch fnc.clientserver {
 			case ":server":
 			default:
-				isfound = true
+				coverfunctotal += 1
 				test, msgs := JsTestFromFunc(lang, fnc)
 				msgblock = MsgblockAddBlock(msgblock, msgs)
 				msgblock = MsgblockAddBlock(msgblock, msgs)
@@ -1110,9 +1109,6 @@ func JsTestFromPackage(
 				}
 			}
 		}
-		if isfound {
-			coverfunctotal += 1
-		}
 	}
 	coverbigospacepct := 100
 	if coverbigospacetotal > 0 {
-- 
2.43.0


From 707493e530a3f9af5a66835f23b09fe0c8e1980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:20 +0000
Subject: [PATCH 38/47] fix: give no value for list positions below 1 and find
 the strings of a list

---
 src/vxlisp/vx/core/core.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vxlisp/vx/core/core.go b/src/vxlisp/vx/core/core.go
index b558c8b..b85a58f 100644
--- a/src/vxlisp/vx/core/core.go
+++ b/src/vxlisp/vx/core/core.go
@@ -897,8 +897,8 @@ func V_stringlist_from_anylist(
 	var liststring []*Type_string = []*Type_string{}
 	var listany []*Type_any = type_anylist.P_listany
 	for _, type_any := range listany {
-		var typenamen = V_typenamen_from_any(type_any)
-		switch typenamen {
+		var type_type = V_type_from_any(type_any)
+		switch type_type.P_path {
 		case "vx/core/string":
 			var type_string = V_string_cast(type_any)
 			liststring = append(liststring, type_string)
@@ -1276,7 +1276,7 @@ func V_anylist_any_from_anylist_indexn(
 	indexn int) *Type_any {
 	var output *Type_any = E_any
 	var listvalue []*Type_any = type_anylist.P_listany
-	if len(listvalue) >= indexn {
+	if indexn > 0 && len(listvalue) >= indexn {
 		output = listvalue[indexn-1]
 	}
 	return output
@@ -2888,7 +2888,7 @@ func V_stringlist_string_from_stringlist_indexn(
 	indexn int) *Type_string {
 	var output *Type_string = E_string
 	var listvalue []*Type_string = type_stringlist.P_liststring
-	if len(listvalue) >= indexn {
+	if indexn > 0 && len(listvalue) >= indexn {
 		output = listvalue[indexn-1]
 	}
 	return output
@@ -3689,7 +3689,7 @@ func V_typelist_type_from_typelist_indexn(
 	indexn int) *Type_type {
 	var output *Type_type = E_type
 	var listvalue []*Type_type = type_typelist.P_listtype
-	if len(listvalue) >= indexn {
+	if indexn > 0 && len(listvalue) >= indexn {
 		output = listvalue[indexn-1]
 	}
 	return output
@@ -4510,7 +4510,7 @@ func V_varlist_var_from_varlist_indexn(
 	indexn int) *Type_var {
 	var output *Type_var = E_var
 	var listvalue []*Type_var = type_varlist.P_listvar
-	if len(listvalue) <= indexn {
+	if indexn > 0 && len(listvalue) >= indexn {
 		var value *Type_var = listvalue[indexn-1]
 		output = value
 	}
-- 
2.43.0


From cb47bf2d076dbf0d0901b2478861fd34ced08927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:42 +0000
Subject: [PATCH 39/47] fix: check the body of a let or fn against the type it
 is expected to have

---
 src/vxlisp/func.go  | 43 ++++++++++++++++++++++++++-----------------
 src/vxlisp/value.go | 15 +++++++++++++++
 2 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/src/vxlisp/func.go b/src/vxlisp/func.go
index 8d3d629..2dfdc00 100644
--- a/src/vxlisp/func.go
+++ b/src/vxlisp/func.go
@@ -611,23 +611,6 @@ func FuncValidate(
 			}
 		}
 	}
-	switch NameFromFunc(fnc) {
-	case "vx/core/fn", "vx/core/let", "vx/core/let-async":
-		if len(fnc.listarg) > 0 {
-			bodyvalue := fnc.listarg[len(fnc.listarg)-1].value
-			bodytype := bodyvalue.vxtype
-			if bodyvalue.code == ":func" {
-				bodytype = FuncFromValue(bodyvalue).vxtype
-			}
-			_, ok, _ := BooleanMatchFromTypeType(
-				fnc.vxtype, bodytype, false, -1, path)
-			if !ok {
-				msg := NewMsgFromTextblock(
-					textblock, 0, 0, path, "Body Type does not match expected type", NameFromType(fnc.vxtype), NameFromType(bodytype))
-				msgblock = MsgblockAddError(msgblock, msg)
-			}
-		}
-	}
 	chgvalue, _, msgs := ValueValidate(
 		fnc.value, fnc.vxtype, false, fnc.mapgeneric, textblock, path)
 	msgblock = MsgblockAddBlock(msgblock, msgs)
@@ -650,6 +633,32 @@ func FuncValidate(
 	return fnc, msgblock
 }
 
+func FuncValidateBody(
+	fnc *vxfunc,
+	multi bool,
+	textblock *vxtextblock,
+	path string) *vxmsgblock {
+	msgblock := NewMsgBlock("FuncValidateBody")
+	switch NameFromFunc(fnc) {
+	case "vx/core/fn", "vx/core/let", "vx/core/let-async":
+		if len(fnc.listarg) > 0 {
+			bodyvalue := fnc.listarg[len(fnc.listarg)-1].value
+			bodytype := bodyvalue.vxtype
+			if bodyvalue.code == ":func" {
+				bodytype = FuncFromValue(bodyvalue).vxtype
+			}
+			_, ok, _ := BooleanMatchFromTypeType(
+				fnc.vxtype, bodytype, multi, -1, path)
+			if !ok {
+				msg := NewMsgFromTextblock(
+					textblock, 0, 0, path, "Body Type does not match expected type", NameFromType(fnc.vxtype), NameFromType(bodytype))
+				msgblock = MsgblockAddError(msgblock, msg)
+			}
+		}
+	}
+	return msgblock
+}
+
 func FuncSetType(
 	fnc *vxfunc,
 	typ *vxtype) *vxfunc {
diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index 87768b6..f12692d 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -879,6 +879,8 @@ func ValueValidate(
 						var msgs *vxmsgblock
 						actualfunc, msgs = FuncValidate(actualfunc, textblock, subpath)
 						msgblock = MsgblockAddBlock(msgblock, msgs)
+						msgs = FuncValidateBody(actualfunc, false, textblock, subpath)
+						msgblock = MsgblockAddBlock(msgblock, msgs)
 						mapgeneric, msgs = MapTypeMerge(mapgeneric, actualfunc.mapgeneric, subpath)
 						msgblock = MsgblockAddBlock(msgblock, msgs)
 						expectedsignature := SignatureFromFunc(expectedfuncref, subpath)
@@ -894,10 +896,12 @@ func ValueValidate(
 						"vx/core/boolean<-func", "vx/core/int<-func",
 						"vx/core/number<-func", "vx/core/string<-func":
 						actualtype := actualfunc.vxtype
+						multibody := false
 						if actualtype.isgeneric {
 							genericname := actualtype.name
 							lookuptype, ok := mapgeneric[genericname]
 							if ok {
+								multibody = true
 								actualfunc.vxtype = lookuptype
 								if actualfunc.generictype == nil {
 									actualfunc.generictype = actualtype
@@ -906,6 +910,8 @@ func ValueValidate(
 						}
 						actualfunc, msgs = FuncValidate(actualfunc, textblock, subpath)
 						msgblock = MsgblockAddBlock(msgblock, msgs)
+						msgs = FuncValidateBody(actualfunc, multibody, textblock, subpath)
+						msgblock = MsgblockAddBlock(msgblock, msgs)
 						mapgeneric, msgs = MapTypeMerge(mapgeneric, actualfunc.mapgeneric, subpath)
 						msgblock = MsgblockAddBlock(msgblock, msgs)
 						//actualtype = actualfunc.vxtype
@@ -936,6 +942,8 @@ func ValueValidate(
 							actualfunc.listarg = chgargs
 							actualfunc, msgs = FuncValidate(actualfunc, textblock, subpath)
 							msgblock = MsgblockAddBlock(msgblock, msgs)
+							msgs = FuncValidateBody(actualfunc, false, textblock, subpath)
+							msgblock = MsgblockAddBlock(msgblock, msgs)
 							mapgeneric, msgs = MapTypeMerge(mapgeneric, actualfunc.mapgeneric, subpath)
 							msgblock = MsgblockAddBlock(msgblock, msgs)
 							expectedsignature := SignatureFromFunc(expectedfuncref, subpath)
@@ -949,6 +957,8 @@ func ValueValidate(
 						if expectedtypename == NameFromType(actualfunc.vxtype) {
 							actualfunc, msgs = FuncValidate(actualfunc, textblock, subpath)
 							msgblock = MsgblockAddBlock(msgblock, msgs)
+							msgs = FuncValidateBody(actualfunc, false, textblock, subpath)
+							msgblock = MsgblockAddBlock(msgblock, msgs)
 							mapgeneric, msgs = MapTypeMerge(mapgeneric, actualfunc.mapgeneric, subpath)
 							msgblock = MsgblockAddBlock(msgblock, msgs)
 							pass = true
@@ -1037,6 +1047,7 @@ func ValueValidate(
 				msgblock = MsgblockAddBlock(msgblock, msgs)
 			case ":func":
 				fnc := FuncFromValue(value)
+				multibody := false
 				if fnc.vxtype.isgeneric {
 					switch NameFromFunc(fnc) {
 					case "vx/core/copy":
@@ -1045,6 +1056,7 @@ func ValueValidate(
 					default:
 						if fnc.vxtype.isgeneric && expectedtype.name != "" {
 							fnc.vxtype = expectedtype
+							multibody = multi
 						}
 					}
 				}
@@ -1059,6 +1071,9 @@ func ValueValidate(
 				fnc, msgs = FuncValidate(
 					fnc, textblock, subpath)
 				msgblock = MsgblockAddBlock(msgblock, msgs)
+				msgs = FuncValidateBody(
+					fnc, multibody, textblock, subpath)
+				msgblock = MsgblockAddBlock(msgblock, msgs)
 				actualtype = fnc.vxtype
 				switch NameFromFunc(fnc) {
 				case "vx/core/let":
-- 
2.43.0


From 7b43783257e30627da19a41cbe7edae33e96a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:42 +0000
Subject: [PATCH 40/47] fix: accept variadic values that have the element type
 as a trait

---
 src/vxlisp/type.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index 6e06949..4f7a053 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -593,6 +593,11 @@ func BooleanMatchFromTypeType(
 				case actualtypename:
 					pass = true
 				default:
+					for _, trait := range actualtype.traits {
+						if NameFromType(trait) == NameFromType(allowtype) {
+							pass = true
+						}
+					}
 					for _, suballowtype := range allowtype.allowtypes {
 						switch NameFromType(suballowtype) {
 						case "vx/core/any":
-- 
2.43.0


From a41b51db62343779305b9af83ca3b5a93d6e4f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:42 +0000
Subject: [PATCH 41/47] fix: default main and context calls of generated
 applications

---
 src/vxlisp/lang-cpp.go | 13 +++++++------
 src/vxlisp/lang-js.go  | 11 ++++++-----
 src/vxlisp/lang.go     | 10 +++-------
 3 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 32c4cab..12b70a2 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -4639,11 +4639,12 @@ func CppApp(
 		PackageCoreFromProject(project),
 		imports)
 	contexttext := `
-    vx_core::Type_context context = vx_core::f_context_main(arglist);`
+    context = vx_core::f_context_main(arglist);
+    vx_core::vx_reserve_context(context);`
 	maintext := `
-    vx_core::Type_string output = vx_core::f_main(arglist);
-		std::cout << output->vx_string();
-		vx_core::vx_release(output);`
+    vx_core::Type_string mainstring = vx_core::f_main(arglist);
+    soutput = mainstring->vx_string();
+    vx_core::vx_release(mainstring);`
 	if cmd.context == "" && cmd.main == "" {
 	} else {
 		contextfunc := FuncFromProjectFuncname(project, cmd.context)
@@ -4665,7 +4666,7 @@ func CppApp(
 			}
 			if contextfunc.async {
 				contexttext = `
-    asynccontext = ` + LangFuncF(lang, contextfunc) + `(arglist);
+    vx_core::vx_Type_async asynccontext = ` + LangFuncF(lang, contextfunc) + `(arglist);
     context = vx_core::vx_sync_from_async(vx_core::t_context, asynccontext);
     vx_core::vx_reserve_context(context);`
 			} else {
@@ -4749,7 +4750,7 @@ func CppAppTest(
 			}
 			if contextfunc.async {
 				contexttext = `
-    asynccontext = ` + LangFuncF(lang, contextfunc) + `(arglist);
+    vx_core::vx_Type_async asynccontext = ` + LangFuncF(lang, contextfunc) + `(arglist);
     vx_core::Type_context context = vx_core::vx_sync_from_async(vx_core::t_context, asynccontext);`
 			} else {
 				contexttext = `
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index d3ad211..6239cb9 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -1330,9 +1330,9 @@ func JsApp(
 	cmd *vxcommand) string {
 	includetext := ""
 	contexttext := `
-    const context = vx_core.f_context_main(arglist)`
+    const context = vx_core.f_context_main(...arglist)`
 	maintext := `
-    const output = vx_core::f_main(arglist)`
+    const output = vx_core.f_main(...arglist)`
 	if cmd.context == "" && cmd.main == "" {
 	} else {
 		contextfunc := FuncFromProjectFuncname(project, cmd.context)
@@ -1421,7 +1421,7 @@ func JsAppTest(
 	command *vxcommand) string {
 	includetext := ""
 	contexttext := `
-    const context = vx_core.f_context_main(arglist)`
+    const context = vx_core.f_context_main(...arglist)`
 	if command.context == "" {
 	} else {
 		contextfunc := FuncFromProjectFuncname(
@@ -1436,7 +1436,7 @@ func JsAppTest(
 			default:
 				importname := vx_core.V_stringn_from_stringn_findn_replacen(
 					contextfunc.pkgname, "/", "_")
-				includetext += "\nimport " + importname + " from \"../src/" + contextfunc.pkgname + ".js\"\n"
+				includetext += "\nimport " + importname + " from \"../src/" + contextfunc.pkgname + ".js\""
 			}
 		}
 		if contextfunc.async {
@@ -1475,7 +1475,8 @@ import vx_core from "../src/vx/core.js"
 import vx_test from "../src/vx/test.js"
 import vx_web_html from "../src/vx/web/html.js"
 import vx_web_htmldoc from "../src/vx/web/htmldoc.js"` +
-		includetext +
+		includetext + `
+` +
 		packageimports + `
 
 export default class app_test {
diff --git a/src/vxlisp/lang.go b/src/vxlisp/lang.go
index 77cadb3..3c503b0 100644
--- a/src/vxlisp/lang.go
+++ b/src/vxlisp/lang.go
@@ -842,13 +842,9 @@ func LangApp(
 	contexttext := LangVal(lang, 3, contexttype,
 		"context",
 		LangPkgNameDot(lang, "vx/core")+"f_context_main(arglist)")
-	maintext := "" +
-		LangVal(lang, 3, stringtype,
-			"mainval",
-			LangPkgNameDot(lang, "vx/core")+"f_main(arglist)") +
-		LangVarSet(lang, 3,
-			"output",
-			"mainval.vx_string()")
+	maintext := LangVal(lang, 3, stringtype,
+		"mainstring",
+		LangPkgNameDot(lang, "vx/core")+"f_main(arglist)")
 	if cmd.context == "" && cmd.main == "" {
 	} else {
 		contextfunc := FuncFromProjectFuncname(project, cmd.context)
-- 
2.43.0


From 3c83dea12558eb38337a30bc041d1afde27658c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:42 +0000
Subject: [PATCH 42/47] fix: report an unknown type in the type order of a C++
 file instead of crashing

---
 src/vxlisp/lang-cpp.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 12b70a2..b045839 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -1341,12 +1341,12 @@ func CppFromPackage(
 				typebodys += typebody
 				typebodyfooters += typebodyfooter
 				specialheader += typeheader
+				packageheader += "" +
+					"\n  " + LangNameTypeFullFromType(lang, typ) + " e_" + LangNameFromType(lang, typ) + " = NULL;" +
+					"\n  " + LangNameTypeFullFromType(lang, typ) + " t_" + LangNameFromType(lang, typ) + " = NULL;"
+				packagestatic += "" +
+					"\n      maptype[\"" + typ.name + "\"] = " + LangTypeT(lang, typ) + ";"
 			}
-			packageheader += "" +
-				"\n  " + LangNameTypeFullFromType(lang, typ) + " e_" + LangNameFromType(lang, typ) + " = NULL;" +
-				"\n  " + LangNameTypeFullFromType(lang, typ) + " t_" + LangNameFromType(lang, typ) + " = NULL;"
-			packagestatic += "" +
-				"\n      maptype[\"" + typ.name + "\"] = " + LangTypeT(lang, typ) + ";"
 		}
 	}
 	remainingkeys := ListStringFromListStringNotMatch(typkeys, specialtypeorder)
-- 
2.43.0


From 80a0ca4775106bebfc82d056a88e786435683538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:36:46 +0000
Subject: [PATCH 43/47] fix: generate map, float, decimal and empty string
 constants that compile

The code that fills a constant in Java, C# and Kotlin named an undeclared
variable for maps, lost its first lines for floats, gave a number to the text
field of decimals, and had nothing after the equals sign for strings without
a value.
---
 src/vxlisp/lang-const.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vxlisp/lang-const.go b/src/vxlisp/lang-const.go
index 3862620..4693f37 100644
--- a/src/vxlisp/lang-const.go
+++ b/src/vxlisp/lang-const.go
@@ -35,12 +35,12 @@ func LangConst(
 		if cnstval == "" {
 			cnstval = "0"
 		}
-		const_new += "\n      outval.vxdecimal = " + cnstval + lang.lineend
+		const_new += "\n      outval.vxdecimal = \"" + cnstval + "\"" + lang.lineend
 	case "vx/core/float":
 		if cnstval == "" {
-			cnstval = "f0"
+			cnstval = "0.0f"
 		}
-		const_new = "\n      outval.vxfloat = " + cnstval + lang.lineend
+		const_new += "\n      outval.vxfloat = " + cnstval + lang.lineend
 	case "vx/core/int":
 		if cnstval == "" {
 			cnstval = "0"
@@ -51,6 +51,8 @@ func LangConst(
 			cnstval = cnstval[1 : len(cnstval)-1]
 			cnstval = LangNativeFromText(lang, cnstval)
 			cnstval = "\"" + cnstval + "\""
+		} else if cnstval == "" {
+			cnstval = "\"\""
 		}
 		const_new += "\n      outval.vxstring = " + cnstval + lang.lineend
 	default:
@@ -85,7 +87,7 @@ func LangConst(
 						"value", clstext) +
 					LangVarSet(lang, 3,
 						"outval.vx_p_map",
-						"val.vx_map"+maptypename+"()")
+						"value.vx_map"+maptypename+"()")
 			}
 		case ":struct":
 			clstext, msgs := LangFromValue(lang, 3, cnst.value, cnst.pkgname, emptyfunc, true, false, path)
-- 
2.43.0


From c94ce9338f18a58781c97677f4ad97cf8f469711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:36:46 +0000
Subject: [PATCH 44/47] fix: generate map, float, decimal and empty string
 constants that compile in C++

Map constants named members their class does not have, decimal constants
overrode a method that does not exist, and floats and strings without a value
were filled with nothing usable.
---
 src/vxlisp/lang-cpp.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index b045839..fd2eccd 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -471,8 +471,6 @@ func CppFromConst(
 	cnsttype := cnst.vxtype
 	cnstname := LangFromName(cnst.alias)
 	cnstclassname := "Class_" + cnstname
-	cnsttypename := LangNameFromType(
-		lang, cnst.vxtype)
 	cnsttypeclassname := LangNameTypeFullFromType(
 		lang, cnsttype)
 	pkgname := LangPkgName(
@@ -501,15 +499,15 @@ func CppFromConst(
 		if cnstval == "" {
 			cnstval = "0"
 		}
-		cnstval = "\n      output->vx_p_decimal = " + cnstval + ";"
-		headerextras += "\n    std::string vx_decimal() const override;"
+		cnstval = "\n      output->vx_p_decimal = \"" + cnstval + "\";"
+		headerextras += "\n    std::string vx_string() const override;"
 		initval = "" +
-			"\n    std::string " + fullclassname + "::vx_decimal() const {" +
+			"\n    std::string " + fullclassname + "::vx_string() const {" +
 			"\n      return this->vx_p_decimal;" +
 			"\n    }"
 	case "vx/core/float":
 		if cnstval == "" {
-			cnstval = "f0"
+			cnstval = "0.0f"
 		}
 		cnstval = "\n      output->vx_p_float = " + cnstval + ";"
 		headerextras += "\n    float vx_float() const override;"
@@ -532,6 +530,8 @@ func CppFromConst(
 			cnstval = cnstval[1 : len(cnstval)-1]
 			cnstval = CppFromText(cnstval)
 			cnstval = "\"" + cnstval + "\""
+		} else if cnstval == "" {
+			cnstval = "\"\""
 		}
 		cnstval = "\n      output->vx_p_string = " + cnstval + ";"
 		headerextras += "\n    std::string vx_string() const override;"
@@ -563,13 +563,15 @@ func CppFromConst(
 			msgblock = MsgblockAddBlock(
 				msgblock, msgs)
 			if clstext != "" {
-				maptypename := cnsttypename
+				allowtype, _ := TypeAllowFromType(cnsttype)
+				maptypename := LangNameFromType(
+					lang, allowtype)
 				if maptypename == "any" {
 					maptypename = ""
 				}
 				cnstval = "" +
 					"\n      " + cnsttypeclassname + " val = " + clstext + ";" +
-					"\n      output->vx_p_map" + maptypename + " = val->vx_map" + maptypename + "();"
+					"\n      output->vx_p_map = val->vx_map" + maptypename + "();"
 			}
 		case ":struct":
 			clstext, msgs := CppFromValue(
-- 
2.43.0


From 541e1e19d07986429f9b09db4a35385151047037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:36:46 +0000
Subject: [PATCH 45/47] fix: keep the value of decimal constants in JavaScript

The value was merged into an object as its properties, which drops it.
---
 src/vxlisp/lang-js.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 6239cb9..51c6f06 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -175,7 +175,7 @@ func JsFromConst(
 	switch NameFromType(cnsttype) {
 	case "vx/core/boolean":
 		startval = value
-	case "vx/core/float", "vx/core/int":
+	case "vx/core/decimal", "vx/core/float", "vx/core/int":
 		startval = value
 	case "vx/core/string":
 		startval = value
-- 
2.43.0


From 02b028b25e5b5d258220725111e2f2a33029f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:36:46 +0000
Subject: [PATCH 46/47] fix: import libraries relative to the file in
 JavaScript packages without a folder

A path without ./ names an installed module, so packages at the top of a
project could not load their libraries.
---
 src/vxlisp/lang-js.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 51c6f06..1684fdf 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -374,6 +374,9 @@ func JsFromPackage(
 	if len(pkg.listlib) > 0 {
 		depth := IntCountFromStringFind(pkg.name, "/")
 		prefix := vx_core.V_stringn_from_stringn_repeatn("../", depth)
+		if depth == 0 {
+			prefix = "./"
+		}
 		for _, lib := range pkg.listlib {
 			isskip := false
 			if lib.name == "vx/test" {
-- 
2.43.0


From fd735f443b77faf797d978e6769080ccec6113bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:36:46 +0000
Subject: [PATCH 47/47] fix: let constants of other packages fill string,
 number and boolean values in Java

The fields were protected, so constants of these types compiled only inside
of the package of the library itself.
---
 dist/vxlisp/vx/core.vxlisp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index b83dca2..0bdaf9f 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -65,7 +65,7 @@
        return vxboolean;
      }"
    :java
-    "protected boolean vxboolean = false;
+    "public boolean vxboolean = false;
 
      @Override
      public boolean vx_boolean() {
@@ -163,7 +163,7 @@
        return vxdecimal;
      }"
    :java
-    "protected String vxdecimal = “0.0”;
+    "public String vxdecimal = “0.0”;
 
      @Override
      public float vx_float() {
@@ -220,7 +220,7 @@
        return vxfloat;
      }"
    :java
-    "protected float vxfloat = 0;
+    "public float vxfloat = 0;
 
      @Override
      public float vx_float() {
@@ -311,7 +311,7 @@
        return vxint;
      }"
    :java
-    "protected int vxint = 0;
+    "public int vxint = 0;
 
      @Override
      public int vx_int() {
@@ -624,7 +624,7 @@
        return vxstring;
      }"
    :java
-    "protected String vxstring = “”;
+    "public String vxstring = “”;
 
      @Override
      public String vx_string() {
-- 
2.43.0

