From 23bbdd45b7a51e4b7d62808ce8d409495c61f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:17 +0000
Subject: [PATCH 01/88] fix: reader crashed on a lone | and on array literals
 with an invalid dimension

A lone | sliced out of range; #0a( indexed an empty slice and a huge
number before 'a' made strconv.Atoi fail and panic. Report an error.
---
 pkg/parser/main.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 54d4da2..d427e65 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -28,6 +28,9 @@ var (
 	ErrTooShortTokens    = errors.New("too short tokens")
 )
 
+// maxArrayDimension is the maximum number of the dimensions of array literals
+const maxArrayDimension = 255
+
 type Factory[N comparable] interface {
 	Cons(car, cdr N) N
 	Int(int64) N
@@ -274,8 +277,8 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 	}
 	if m := rxArray.FindStringSubmatch(token); m != nil {
 		dim, err := strconv.Atoi(m[1])
-		if err != nil {
-			panic(err.Error())
+		if err != nil || dim < 1 || dim > maxArrayDimension {
+			return p.Null(), fmt.Errorf("%s: invalid array dimension", token)
 		}
 		return p.readArray(dim, rs)
 	}
@@ -341,7 +344,7 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 		token = buffer.String()
 		return p.String(token), nil
 	}
-	if token[0] == '|' && token[len(token)-1] == '|' {
+	if len(token) >= 2 && token[0] == '|' && token[len(token)-1] == '|' {
 		return p.Symbol(symbol4barReplacer.Replace(token[1 : len(token)-1])), nil
 	}
 	if token[0] == ':' {
-- 
2.43.0


From 024de07bd92217d3e7f376f7e10a5f9f8497955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:50 +0000
Subject: [PATCH 02/88] fix: reader accepted text ending inside a string,
 |symbol|, array or comment

An unterminated array literal or block comment was taken for the end of
the input and dropped, an unterminated string for a shorter string.
---
 pkg/parser/main.go     |  4 ++--
 pkg/parser/tokenize.go | 28 +++++++++++++++++++++++-----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index d427e65..d6b2c6f 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -78,7 +78,7 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 		if countDim == lenDim-1 {
 			newNode, err := p.ReadNode(rs)
 			if err != nil {
-				return p.Null(), err
+				return p.Null(), tooShortIfEOF(err)
 			}
 			if newNode == p.parenCloseSymbol {
 				fix[countDim] = true
@@ -95,7 +95,7 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 		} else {
 			token, err := readToken(rs)
 			if err != nil {
-				return p.Null(), err
+				return p.Null(), tooShortIfEOF(err)
 			}
 			if token == "(" {
 				if !fix[countDim] {
diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 79c92c6..73eec4e 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -1,15 +1,24 @@
 package parser
 
 import (
-	"fmt"
 	"io"
 	"regexp"
 	"strings"
 	"unicode"
 )
 
+func tooShortIfEOF(err error) error {
+	if err == io.EOF {
+		return ErrTooShortTokens
+	}
+	return err
+}
+
 func skipComment(r io.RuneScanner) (bool, error) {
 	c, _, err := r.ReadRune()
+	if err == io.EOF {
+		return false, nil
+	}
 	if err != nil {
 		return false, err
 	}
@@ -23,13 +32,13 @@ func skipComment(r io.RuneScanner) (bool, error) {
 	for {
 		c, _, err = r.ReadRune()
 		if err != nil {
-			return true, err
+			return true, tooShortIfEOF(err)
 		}
 		switch c {
 		case '|':
 			c, _, err = r.ReadRune()
 			if err != nil {
-				return true, err
+				return true, tooShortIfEOF(err)
 			}
 			if c == '#' {
 				nest--
@@ -42,7 +51,7 @@ func skipComment(r io.RuneScanner) (bool, error) {
 		case '#':
 			c, _, err = r.ReadRune()
 			if err != nil {
-				return true, err
+				return true, tooShortIfEOF(err)
 			}
 			if c == '|' {
 				nest++
@@ -66,13 +75,19 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 	for {
 		lastRune, _, err := r.ReadRune()
 		if err != nil {
+			if err == io.EOF && (quote || bar4symbol) {
+				return "", ErrTooShortTokens
+			}
 			return buffer.String(), err
 		}
 
 		if lastRune == '\\' {
 			nextRune, _, err := r.ReadRune()
+			if err == io.EOF {
+				return "", ErrTooShortTokens
+			}
 			if err != nil {
-				return "", fmt.Errorf("too near EOF: %w", err)
+				return "", err
 			}
 			if nextRune == '\\' {
 				buffer.WriteString(`\\`)
@@ -147,5 +162,8 @@ func readToken(r io.RuneScanner) (string, error) {
 		if token != "" {
 			return token, nil
 		}
+		if err != nil && err != io.EOF {
+			return "", err
+		}
 	}
 }
-- 
2.43.0


From 8e6933a026f345410daffb39082706a18cbd0098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:54 +0000
Subject: [PATCH 03/88] fix: reader did not accept #nA( although the printer
 writes it

---
 pkg/parser/tokenize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 73eec4e..07531ea 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -64,7 +64,7 @@ func skipComment(r io.RuneScanner) (bool, error) {
 	}
 }
 
-var rxSharpAndNumber = regexp.MustCompile(`^#(\d+a)?$`)
+var rxSharpAndNumber = regexp.MustCompile(`^#(\d+[aA])?$`)
 
 func readtokenWord(r io.RuneScanner) (string, error) {
 	var buffer strings.Builder
-- 
2.43.0


From da8d62227ba3c77515ede1c33a45aad5039a4660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:59 +0000
Subject: [PATCH 04/88] fix: reader could not read #\(, #\), #\; and other
 delimiter characters

---
 pkg/parser/tokenize.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 07531ea..6dff51b 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -89,6 +89,13 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 			if err != nil {
 				return "", err
 			}
+			if !quote && !bar4symbol && buffer.String() == "#" {
+				// The character after #\ belongs to the token even if it is a delimiter
+				buffer.WriteRune(lastRune)
+				buffer.WriteRune(nextRune)
+				lastLastRune = nextRune
+				continue
+			}
 			if nextRune == '\\' {
 				buffer.WriteString(`\\`)
 				continue
-- 
2.43.0


From 593d13908925f638e8853c6c34c37b63113e1489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:12 +0000
Subject: [PATCH 05/88] fix: reader confused |)| and |.| with delimiters and
 stopped at a quote in |symbol|

---
 pkg/parser/main.go     | 58 ++++++++++++++++++++++--------------------
 pkg/parser/tokenize.go |  2 +-
 2 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index d6b2c6f..b9ac37f 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -48,17 +48,15 @@ type Factory[N comparable] interface {
 type _Parser[N comparable] struct {
 	Factory[N]
 
-	dotSymbol        N
-	functionSymbol   N
-	parenCloseSymbol N
+	functionSymbol N
 }
 
-func (p *_Parser[N]) nodes2cons(nodes []N) N {
+func (p *_Parser[N]) nodes2cons(nodes []N, dot int) N {
 	if nodes == nil || len(nodes) <= 0 {
 		return p.Null()
 	}
 	cons := p.Null()
-	if len(nodes) >= 3 && nodes[len(nodes)-2] == p.dotSymbol {
+	if len(nodes) >= 3 && dot == len(nodes)-2 {
 		// dot pairs
 		cons = nodes[len(nodes)-1]
 		nodes = nodes[:len(nodes)-2]
@@ -76,11 +74,15 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 	fix := make([]bool, lenDim)
 	for {
 		if countDim == lenDim-1 {
-			newNode, err := p.ReadNode(rs)
+			token, err := readToken(rs)
+			if err != nil {
+				return p.Null(), tooShortIfEOF(err)
+			}
+			newNode, err := p.tokenToNode(token, rs)
 			if err != nil {
 				return p.Null(), tooShortIfEOF(err)
 			}
-			if newNode == p.parenCloseSymbol {
+			if token == ")" {
 				fix[countDim] = true
 				countDim--
 				if countDim < 0 {
@@ -198,26 +200,24 @@ func (p *_Parser[N]) tryParseAsNumber(token string) (N, bool, error) {
 	return p.Null(), false, nil
 }
 
-func (p *_Parser[N]) readUntilCloseParen(rs io.RuneScanner) ([]N, error) {
+// readUntilCloseParen returns the nodes until the close parenthesis and the position of the last dot
+func (p *_Parser[N]) readUntilCloseParen(rs io.RuneScanner) ([]N, int, error) {
 	nodes := []N{}
-	var err error
+	dot := -1
 	for {
+		token, err := readToken(rs)
 		if err != nil {
-			if err == io.EOF {
-				return nil, ErrTooShortTokens
-			}
-			return nil, err
+			return nil, -1, tooShortIfEOF(err)
 		}
-		var node1 N
-		node1, err = p.ReadNode(rs)
-		if err != nil {
-			if err == io.EOF {
-				return nil, ErrTooShortTokens
-			}
-			return nil, err
+		if token == ")" {
+			return nodes, dot, nil
 		}
-		if node1 == p.parenCloseSymbol {
-			return nodes, nil
+		if token == "." {
+			dot = len(nodes)
+		}
+		node1, err := p.tokenToNode(token, rs)
+		if err != nil {
+			return nil, -1, tooShortIfEOF(err)
 		}
 		nodes = append(nodes, node1)
 	}
@@ -232,6 +232,10 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 	if err != nil {
 		return p.Null(), err
 	}
+	return p.tokenToNode(token, rs)
+}
+
+func (p *_Parser[N]) tokenToNode(token string, rs io.RuneScanner) (N, error) {
 	if token == "`" {
 		quoted, err := p.ReadNode(rs)
 		if err != nil {
@@ -283,11 +287,11 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 		return p.readArray(dim, rs)
 	}
 	if token == "(" {
-		nodes, err := p.readUntilCloseParen(rs)
+		nodes, dot, err := p.readUntilCloseParen(rs)
 		if err != nil {
 			return p.Null(), err
 		}
-		return p.nodes2cons(nodes), nil
+		return p.nodes2cons(nodes, dot), nil
 	}
 	if len(token) > 0 && (token[0] == ':' || token[0] == '&') {
 		return p.Keyword(token), nil
@@ -361,10 +365,8 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 
 func newParser[N comparable](f Factory[N]) *_Parser[N] {
 	return &_Parser[N]{
-		Factory:          f,
-		dotSymbol:        f.Symbol("."),
-		functionSymbol:   f.Symbol("function"),
-		parenCloseSymbol: f.Symbol(")"),
+		Factory:        f,
+		functionSymbol: f.Symbol("function"),
 	}
 }
 
diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 6dff51b..50fb649 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -126,7 +126,7 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 				return buffer.String(), nil
 			}
 		}
-		if lastRune == '"' {
+		if lastRune == '"' && !bar4symbol {
 			quote = !quote
 		}
 		if !quote && lastRune == '|' && lastLastRune != '\\' {
-- 
2.43.0


From 894ca356632d08add2deac604d88298556454711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:48 +0000
Subject: [PATCH 06/88] fix: strings with control characters were printed with
 escapes the reader does not know

---
 string.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/string.go b/string.go
index 1816b15..5660449 100644
--- a/string.go
+++ b/string.go
@@ -2,7 +2,6 @@ package gmnlisp
 
 import (
 	"context"
-	"strconv"
 	"strings"
 	"unicode/utf8"
 )
@@ -19,8 +18,12 @@ func (s String) String() string {
 	return string(s)
 }
 
+var stringEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
+// GoString returns the form the reader reads back.
+// The reader knows no escape sequences other than \\ and \"
 func (s String) GoString() string {
-	return strconv.Quote(string(s))
+	return `"` + stringEscaper.Replace(string(s)) + `"`
 }
 
 func (s String) Equals(n Node, m EqlMode) bool {
-- 
2.43.0


From cb78ee619864193b39e57874749a11b390efbe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:43 +0000
Subject: [PATCH 07/88] fix: symbols whose names need bars, and lists holding
 the symbol |,|, did not read back

---
 atom.go  | 13 +++++++++++++
 cons.go  |  8 ++------
 parse.go |  1 -
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/atom.go b/atom.go
index 51d2ada..1d76991 100644
--- a/atom.go
+++ b/atom.go
@@ -3,6 +3,7 @@ package gmnlisp
 import (
 	"context"
 	"fmt"
+	"strings"
 	"unicode"
 )
 
@@ -128,6 +129,18 @@ func (s _Symbol) String() string {
 	return symbolManager.IdToName(s)
 }
 
+var symbolEscaper = strings.NewReplacer(`\`, `\\`, `|`, `\|`)
+
+// GoString returns the form the reader reads back as the same symbol.
+func (s _Symbol) GoString() string {
+	name := s.String()
+	r := strings.NewReader(name)
+	if n, err := ReadNode(r); err == nil && n == Node(s) && r.Len() == 0 && name != "." {
+		return name
+	}
+	return "|" + symbolEscaper.Replace(name) + "|"
+}
+
 type Rune rune
 
 var characterClass = registerNewBuiltInClass[Rune]("<character>")
diff --git a/cons.go b/cons.go
index 80dc726..6e30212 100644
--- a/cons.go
+++ b/cons.go
@@ -85,7 +85,6 @@ func tryPrintTo(w io.Writer, node Node, m PrintMode) (int, error) {
 
 func (cons *Cons) writeToWithoutKakko(w io.Writer, m PrintMode) (int, error) {
 	var wc writeCounter
-	var lastCar Node = cons.Car
 	if IsNone(cons.Car) {
 		if wc.Try(io.WriteString(w, "nil")) {
 			return wc.Result()
@@ -101,10 +100,8 @@ func (cons *Cons) writeToWithoutKakko(w io.Writer, m PrintMode) (int, error) {
 			// output as ( X Y Z ...)
 
 			for p, ok := cons.Cdr.(*Cons); ok && IsSome(p); p, ok = p.Cdr.(*Cons) {
-				if lastCar != commaSymbol {
-					if wc.Try(io.WriteString(w, " ")) {
-						return wc.Result()
-					}
+				if wc.Try(io.WriteString(w, " ")) {
+					return wc.Result()
 				}
 				if IsNull(p.Car) {
 					if wc.Try(io.WriteString(w, "nil")) {
@@ -113,7 +110,6 @@ func (cons *Cons) writeToWithoutKakko(w io.Writer, m PrintMode) (int, error) {
 				} else if wc.Try(tryPrintTo(w, p.Car, m)) {
 					return wc.Result()
 				}
-				lastCar = p.Car
 			}
 		} else {
 			// output as ( X . Y )
diff --git a/parse.go b/parse.go
index 76094ec..ae1f504 100644
--- a/parse.go
+++ b/parse.go
@@ -9,7 +9,6 @@ import (
 
 var (
 	ampRest         = NewKeyword("&rest")
-	commaSymbol     = NewSymbol(",")
 	symUnquote      = NewSymbol("unquote")
 	nulSymbol       = NewSymbol("")
 	quoteSymbol     = NewSymbol("quote")
-- 
2.43.0


From ddc0f5b8c5577d8bbb12e968361aaec62eff8712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:24 +0000
Subject: [PATCH 08/88] fix: an empty vector was printed as #)

---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 89d9cee..f99707e 100644
--- a/array.go
+++ b/array.go
@@ -45,7 +45,7 @@ func (*Array) ClassOf() Class {
 func (A *Array) printTo(w io.Writer, mode PrintMode, list []Node, dim []int) ([]Node, int, error) {
 	dem := byte('(')
 	n := 0
-	if len(dim) < 1 {
+	if len(dim) < 1 || dim[0] < 1 {
 		w.Write([]byte{dem})
 	} else {
 		for i := 0; i < dim[0]; i++ {
-- 
2.43.0


From 3712045204a44c4fda17a1fbcdd7d6a754b0e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:54 +0000
Subject: [PATCH 09/88] fix: array-dimensions and convert returned a broken
 empty list, and convert rejected nil

---
 array.go   |  2 +-
 convert.go | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/array.go b/array.go
index f99707e..9f6650c 100644
--- a/array.go
+++ b/array.go
@@ -265,7 +265,7 @@ func funArrayDimensions(ctx context.Context, w *World, arg Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	var cons Node
+	var cons Node = Null
 	for i := len(array.dim) - 1; i >= 0; i-- {
 		cons = &Cons{
 			Car: Integer(array.dim[i]),
diff --git a/convert.go b/convert.go
index de9224d..730cb03 100644
--- a/convert.go
+++ b/convert.go
@@ -113,7 +113,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		}
 		switch class {
 		case classList:
-			var cons Node = nil
+			var cons Node = Null
 			for i := len(val.list) - 1; i >= 0; i-- {
 				cons = &Cons{
 					Car: val.list[i],
@@ -122,6 +122,15 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 			}
 			return cons, nil
 		}
+	case _NullType:
+		switch class {
+		case classList:
+			return val, nil
+		case classVector:
+			return NewVector(ctx, w), nil
+		case stringClass.name:
+			return String(val.String()), nil
+		}
 	case Symbol:
 		switch class {
 		case stringClass.name:
-- 
2.43.0


From 32ea79316a20f1fdd4490b27c35d29853077ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:35 +0000
Subject: [PATCH 10/88] fix: eq, eql and equal panicked on functions and hash
 tables, and compared arrays and streams wrongly

---
 array.go       |  5 ++++-
 cmds.go        |  2 +-
 error.go       |  2 +-
 functionref.go | 10 +++++++++-
 hash.go        |  2 +-
 newtypes.go    | 24 ++++++++++++------------
 utils.go       | 19 +++++++++++++++++++
 7 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/array.go b/array.go
index 9f6650c..caddb9e 100644
--- a/array.go
+++ b/array.go
@@ -106,6 +106,9 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
+	if mode == STRICT {
+		return A == B
+	}
 	if len(A.dim) != len(B.dim) {
 		return false
 	}
@@ -118,7 +121,7 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 		return false
 	}
 	for i, v := range A.list {
-		if v != B.list[i] {
+		if !v.Equals(B.list[i], mode) {
 			return false
 		}
 	}
diff --git a/cmds.go b/cmds.go
index 803753e..d84f455 100644
--- a/cmds.go
+++ b/cmds.go
@@ -68,7 +68,7 @@ func equalSub(ctx context.Context, w *World, list []Node, eq func(Node, Node) bo
 
 func funEq(ctx context.Context, w *World, list []Node) (Node, error) {
 	return equalSub(ctx, w, list, func(left, right Node) bool {
-		return left == right
+		return identical(left, right)
 	})
 }
 
diff --git a/error.go b/error.go
index 8c49c20..8eee47f 100644
--- a/error.go
+++ b/error.go
@@ -258,7 +258,7 @@ func (p *ParseError) String() string {
 }
 
 func (p *ParseError) Equals(n Node, _ EqlMode) bool {
-	return false
+	return identical(p, n)
 }
 
 func (p *ParseError) Error() string {
diff --git a/functionref.go b/functionref.go
index f4ec65c..713d450 100644
--- a/functionref.go
+++ b/functionref.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"reflect"
 )
 
 type FunctionRef struct {
@@ -21,7 +22,14 @@ func (f FunctionRef) Equals(other Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
-	return f.value == _other.value
+	vf, vo := reflect.ValueOf(f.value), reflect.ValueOf(_other.value)
+	if !vf.IsValid() || !vo.IsValid() || vf.Type() != vo.Type() {
+		return f.value == _other.value
+	}
+	if vf.Kind() == reflect.Func {
+		return vf.Pointer() == vo.Pointer()
+	}
+	return vf.Comparable() && vo.Comparable() && f.value == _other.value
 }
 
 func (f FunctionRef) PrintTo(w io.Writer, _ PrintMode) (int, error) {
diff --git a/hash.go b/hash.go
index e330e0c..645cacd 100644
--- a/hash.go
+++ b/hash.go
@@ -10,7 +10,7 @@ import (
 type _Hash map[Node]Node
 
 func (h _Hash) Equals(other Node, mode EqlMode) bool {
-	return false
+	return identical(h, other)
 }
 
 func (h _Hash) PrintTo(w io.Writer, mode PrintMode) (int, error) {
diff --git a/newtypes.go b/newtypes.go
index 41f0ec6..317e7b5 100644
--- a/newtypes.go
+++ b/newtypes.go
@@ -6,8 +6,8 @@ func (*StringBuilder) ClassOf() Class {
 	return stringBuilderClass
 }
 
-func (t *StringBuilder) Equals(Node, EqlMode) bool {
-	return false
+func (t *StringBuilder) Equals(n Node, _ EqlMode) bool {
+	return identical(t, n)
 }
 
 var inputStreamClass = registerNewBuiltInClass[*inputStream]("<input-stream>")
@@ -16,8 +16,8 @@ func (t *inputStream) ClassOf() Class {
 	return inputStreamClass
 }
 
-func (t *inputStream) Equals(Node, EqlMode) bool {
-	return false
+func (t *inputStream) Equals(n Node, _ EqlMode) bool {
+	return identical(t, n)
 }
 
 func (t *inputStream) String() string {
@@ -30,16 +30,16 @@ func (*_OutputFileStream) ClassOf() Class {
 	return outputFileStreamClass
 }
 
-func (t *_OutputFileStream) Equals(Node, EqlMode) bool {
-	return false
+func (t *_OutputFileStream) Equals(n Node, _ EqlMode) bool {
+	return identical(t, n)
 }
 
 func (t *_OutputFileStream) String() string {
 	return "(*_OutputFileStream)"
 }
 
-func (t *_Macro) Equals(Node, EqlMode) bool {
-	return false
+func (t *_Macro) Equals(n Node, _ EqlMode) bool {
+	return identical(t, n)
 }
 
 func (t *_Macro) String() string {
@@ -52,8 +52,8 @@ func (_ReaderNode) ClassOf() Class {
 	return readerNodeClass
 }
 
-func (t _ReaderNode) Equals(Node, EqlMode) bool {
-	return false
+func (t _ReaderNode) Equals(n Node, _ EqlMode) bool {
+	return identical(t, n)
 }
 
 func (t _ReaderNode) String() string {
@@ -66,8 +66,8 @@ func (_WriterNode) ClassOf() Class {
 	return writerNodeClass
 }
 
-func (t _WriterNode) Equals(Node, EqlMode) bool {
-	return false
+func (t _WriterNode) Equals(n Node, _ EqlMode) bool {
+	return identical(t, n)
 }
 
 func (t _WriterNode) String() string {
diff --git a/utils.go b/utils.go
index dc050b7..364deea 100644
--- a/utils.go
+++ b/utils.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"reflect"
 
 	"github.com/hymkor/gmnlisp/pkg/parser"
 )
@@ -111,6 +112,24 @@ func ListToArray(list Node, slice []Node) error {
 	return nil
 }
 
+// identical returns true when a and b are the same object.
+// It does not panic though they contain values which Go can not compare
+// (maps and functions).
+func identical(a, b Node) bool {
+	if f, ok := a.(FunctionRef); ok {
+		g, ok := b.(FunctionRef)
+		return ok && f.Equals(g, STRICT)
+	}
+	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
+	if !va.IsValid() || !vb.IsValid() || va.Type() != vb.Type() {
+		return a == b
+	}
+	if va.Comparable() && vb.Comparable() {
+		return a == b
+	}
+	return va.Kind() == reflect.Map && va.Pointer() == vb.Pointer()
+}
+
 func checkContext(ctx context.Context) error {
 	select {
 	case <-ctx.Done():
-- 
2.43.0


From e729385a11995a39d9a5d4e89b72eed3c6370010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:14 +0000
Subject: [PATCH 11/88] fix: arithmetic and comparisons of an integer and a
 float called the error handler

---
 atom.go   | 12 +++++-----
 number.go | 68 +++++++++++++++++++++++++++----------------------------
 2 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/atom.go b/atom.go
index 1d76991..6c95cda 100644
--- a/atom.go
+++ b/atom.go
@@ -189,24 +189,24 @@ func (r Rune) Equals(n Node, m EqlMode) bool {
 }
 
 func (r Rune) Add(ctx context.Context, w *World, n Node) (Node, error) {
+	if value, ok := n.(Integer); ok {
+		return r + Rune(value), nil
+	}
 	value, err := ExpectClass[Rune](ctx, w, n)
 	if err == nil {
 		return r + value, nil
 	}
-	if value, ok := n.(Integer); ok {
-		return r + Rune(value), nil
-	}
 	return nil, err
 }
 
 func (r Rune) Sub(ctx context.Context, w *World, n Node) (Node, error) {
+	if value, ok := n.(Integer); ok {
+		return r - Rune(value), nil
+	}
 	value, err := ExpectClass[Rune](ctx, w, n)
 	if err == nil {
 		return r - value, nil
 	}
-	if value, ok := n.(Integer); ok {
-		return r - Rune(value), nil
-	}
 	return nil, err
 }
 
diff --git a/number.go b/number.go
index 78ce32a..89589ca 100644
--- a/number.go
+++ b/number.go
@@ -52,35 +52,35 @@ func (i Integer) Equals(n Node, m EqlMode) bool {
 }
 
 func (i Integer) Add(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Float); ok {
+		return Float(i) + _n, nil
+	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
 		return i + _n, nil
 	}
-	if _n, ok := n.(Float); ok {
-		return Float(i) + _n, nil
-	}
 	return nil, err
 }
 
 func (i Integer) Sub(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Float); ok {
+		return Float(i) - _n, nil
+	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
 		return i - _n, nil
 	}
-	if _n, ok := n.(Float); ok {
-		return Float(i) - _n, nil
-	}
 	return nil, err
 }
 
 func (i Integer) Multi(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Float); ok {
+		return Float(i) * _n, nil
+	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
 		return i * _n, nil
 	}
-	if _n, ok := n.(Float); ok {
-		return Float(i) * _n, nil
-	}
 	return nil, err
 }
 
@@ -147,30 +147,30 @@ func funArithmeticErrorOperands(ctx context.Context, w *World, n Node) (Node, er
 }
 
 func (i Integer) Divide(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
+	if _n, ok := n.(Float); ok {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, i, n)
 		}
-		return i / _n, nil
+		return Float(i) / _n, nil
 	}
-	if _n, ok := n.(Float); ok {
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err == nil {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, i, n)
 		}
-		return Float(i) / _n, nil
+		return i / _n, nil
 	}
 	return nil, err
 }
 
 func (i Integer) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
+	if _n, ok := n.(Float); ok {
+		return Float(i) < _n, nil
+	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
 		return i < _n, nil
 	}
-	if _n, ok := n.(Float); ok {
-		return Float(i) < _n, nil
-	}
 	return false, err
 }
 
@@ -200,63 +200,63 @@ func (f Float) Equals(n Node, m EqlMode) bool {
 }
 
 func (f Float) Add(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Integer); ok {
+		return f + Float(_n), nil
+	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
 		return f + _n, nil
 	}
-	if _n, ok := n.(Integer); ok {
-		return f + Float(_n), nil
-	}
 	return nil, err
 }
 
 func (f Float) Sub(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Integer); ok {
+		return f - Float(_n), nil
+	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
 		return f - _n, nil
 	}
-	if _n, ok := n.(Integer); ok {
-		return f - Float(_n), nil
-	}
 	return nil, err
 }
 
 func (f Float) Multi(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Integer); ok {
+		return f * Float(_n), nil
+	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
 		return f * _n, nil
 	}
-	if _n, ok := n.(Integer); ok {
-		return f * Float(_n), nil
-	}
 	return nil, err
 }
 
 func (f Float) Divide(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
+	if _n, ok := n.(Integer); ok {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, f, n)
 		}
-		return f / _n, nil
+		return f / Float(_n), nil
 	}
-	if _n, ok := n.(Integer); ok {
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err == nil {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, f, n)
 		}
-		return f / Float(_n), nil
+		return f / _n, nil
 	}
 	return nil, err
 }
 
 func (f Float) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
+	if _n, ok := n.(Integer); ok {
+		return f < Float(_n), nil
+	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
 		return f < _n, nil
 	}
-	if _n, ok := n.(Integer); ok {
-		return f < Float(_n), nil
-	}
 	return false, err
 }
 
-- 
2.43.0


From 34ecbad6c561dd834b7c22bd2ca1cd2bbd124563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 12/88] fix: comparisons of three or more arguments ended in an
 error or nil after the first false pair

---
 operator.go | 108 +++++++++++++++++++---------------------------------
 1 file changed, 40 insertions(+), 68 deletions(-)

diff --git a/operator.go b/operator.go
index adaa3fd..144936c 100644
--- a/operator.go
+++ b/operator.go
@@ -5,16 +5,6 @@ import (
 	"math"
 )
 
-func notNullToTrue(v Node, err error) (Node, error) {
-	if v == nil || err != nil {
-		return Null, err
-	}
-	if _, ok := v.(_NullType); ok {
-		return Null, err
-	}
-	return True, err
-}
-
 type canPlus interface {
 	Node
 	Add(context.Context, *World, Node) (Node, error)
@@ -79,84 +69,66 @@ func funDevide(ctx context.Context, w *World, args []Node) (Node, error) {
 }
 
 type canLessThan interface {
+	Node
 	LessThan(context.Context, *World, Node) (bool, error)
 }
 
-func funLessThan(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(canLessThan); ok {
-			result, err := _left.LessThan(ctx, w, right)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return right, nil
-			}
-			return Null, nil
+// compareEach returns t when f is true for every adjacent pair of args.
+func compareEach(args []Node, f func(left, right Node) (bool, error)) (Node, error) {
+	if len(args) <= 0 {
+		return Null, nil
+	}
+	for i := 1; i < len(args); i++ {
+		result, err := f(args[i-1], args[i])
+		if err != nil || !result {
+			return Null, err
 		}
-		return nil, MakeError(ErrNotSupportType, left)
-	}))
+	}
+	return True, nil
+}
+
+func lessThan(ctx context.Context, w *World, left, right Node) (bool, error) {
+	_left, err := ExpectInterface[canLessThan](ctx, w, left, numberClass)
+	if err != nil {
+		return false, err
+	}
+	return _left.LessThan(ctx, w, right)
+}
+
+func funLessThan(ctx context.Context, w *World, args []Node) (Node, error) {
+	return compareEach(args, func(left, right Node) (bool, error) {
+		return lessThan(ctx, w, left, right)
+	})
 }
 
 func funGreaterThan(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
-		if _right, ok := right.(canLessThan); ok {
-			result, err := _right.LessThan(ctx, w, left)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return right, nil
-			}
-			return Null, nil
-		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+	return compareEach(args, func(left, right Node) (bool, error) {
+		return lessThan(ctx, w, right, left)
+	})
 }
 
 func funEqualOp(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
-		if left.Equals(right, EQUALP) {
-			return right, nil
-		}
-		return Null, nil
-	}))
+	return compareEach(args, func(left, right Node) (bool, error) {
+		return left.Equals(right, EQUALP), nil
+	})
 }
 
 func funGreaterOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return compareEach(args, func(left, right Node) (bool, error) {
 		//     left >= right
 		// <=> not (left < right )
-		if _left, ok := left.(canLessThan); ok {
-			result, err := _left.LessThan(ctx, w, right)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return Null, nil
-			}
-			return right, nil
-		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+		result, err := lessThan(ctx, w, left, right)
+		return !result, err
+	})
 }
 
 func funLessOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return compareEach(args, func(left, right Node) (bool, error) {
 		//     left <= right
 		// <=> not (right < left)
-		if _right, ok := right.(canLessThan); ok {
-			result, err := _right.LessThan(ctx, w, left)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return Null, nil
-			}
-			return right, nil
-		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+		result, err := lessThan(ctx, w, right, left)
+		return !result, err
+	})
 }
 
 func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
-- 
2.43.0


From b8aeee8d20b3fd7cc0fbe174827768e29f775852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 13/88] fix: + - * / reported operands that are not numbers
 without a domain-error, and (+) and (*) returned nil

---
 operator.go | 50 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/operator.go b/operator.go
index 144936c..9c3cd11 100644
--- a/operator.go
+++ b/operator.go
@@ -11,11 +11,18 @@ type canPlus interface {
 }
 
 func funAdd(ctx context.Context, w *World, args []Node) (Node, error) {
+	if len(args) <= 0 {
+		return Integer(0), nil
+	}
+	if len(args) == 1 {
+		return ExpectInterface[canPlus](ctx, w, args[0], numberClass)
+	}
 	return inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(canPlus); ok {
-			return _left.Add(ctx, w, right)
+		_left, err := ExpectInterface[canPlus](ctx, w, left, numberClass)
+		if err != nil {
+			return nil, err
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return _left.Add(ctx, w, right)
 	})
 }
 
@@ -26,19 +33,22 @@ type canMinus interface {
 
 func funSub(ctx context.Context, w *World, args []Node) (Node, error) {
 	if len(args) == 1 {
-		class := args[0].ClassOf()
-		zero := class.Create()
-		z, err := ExpectInterface[canMinus](ctx, w, zero, class)
+		value, err := ExpectInterface[canMinus](ctx, w, args[0], numberClass)
 		if err != nil {
 			return nil, err
 		}
-		return z.Sub(ctx, w, args[0])
+		z, ok := value.ClassOf().Create().(canMinus)
+		if !ok {
+			return nil, MakeError(ErrNotSupportType, value)
+		}
+		return z.Sub(ctx, w, value)
 	}
 	return inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(canMinus); ok {
-			return _left.Sub(ctx, w, right)
+		_left, err := ExpectInterface[canMinus](ctx, w, left, numberClass)
+		if err != nil {
+			return nil, err
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return _left.Sub(ctx, w, right)
 	})
 }
 
@@ -47,11 +57,18 @@ func funMulti(ctx context.Context, w *World, args []Node) (Node, error) {
 		Node
 		Multi(context.Context, *World, Node) (Node, error)
 	}
+	if len(args) <= 0 {
+		return Integer(1), nil
+	}
+	if len(args) == 1 {
+		return ExpectInterface[CanMulti](ctx, w, args[0], numberClass)
+	}
 	return inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(CanMulti); ok {
-			return _left.Multi(ctx, w, right)
+		_left, err := ExpectInterface[CanMulti](ctx, w, left, numberClass)
+		if err != nil {
+			return nil, err
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return _left.Multi(ctx, w, right)
 	})
 }
 
@@ -61,10 +78,11 @@ func funDevide(ctx context.Context, w *World, args []Node) (Node, error) {
 		Divide(context.Context, *World, Node) (Node, error)
 	}
 	return inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(CanDevide); ok {
-			return _left.Divide(ctx, w, right)
+		_left, err := ExpectInterface[CanDevide](ctx, w, left, numberClass)
+		if err != nil {
+			return nil, err
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return _left.Divide(ctx, w, right)
 	})
 }
 
-- 
2.43.0


From ca2c7b4b027ba5fde0bb4b6e848886faf7b8bf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:06 +0000
Subject: [PATCH 14/88] fix: mod returned the IEEE remainder, and mod and rem
 crashed or returned NaN for a zero divisor

---
 operator.go | 101 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 66 insertions(+), 35 deletions(-)

diff --git a/operator.go b/operator.go
index 9c3cd11..fa006c4 100644
--- a/operator.go
+++ b/operator.go
@@ -214,51 +214,82 @@ func funRound(ctx context.Context, w *World, arg Node) (Node, error) {
 	return floatToInteger(arg, math.Round)
 }
 
-func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
-	var left float64
-	var right float64
-	bits := 0
-
-	if _left, ok := first.(Float); ok {
-		left = float64(_left)
+// integerOrFloats converts first and second to a pair of integers or a pair of floats.
+func integerOrFloats(ctx context.Context, w *World, first, second Node) (i, j Integer, f, g float64, isInteger bool, err error) {
+	type canDivide interface {
+		Node
+		Divide(context.Context, *World, Node) (Node, error)
+	}
+	left, err := ExpectInterface[canDivide](ctx, w, first, numberClass)
+	if err != nil {
+		return
+	}
+	right, err := ExpectInterface[canDivide](ctx, w, second, numberClass)
+	if err != nil {
+		return
+	}
+	i, ok1 := left.(Integer)
+	j, ok2 := right.(Integer)
+	if ok1 && ok2 {
+		return i, j, 0, 0, true, nil
+	}
+	if ok1 {
+		f = float64(i)
+	} else if v, ok := left.(Float); ok {
+		f = float64(v)
 	} else {
-		_left, ok := first.(Integer)
-		if !ok {
-			return nil, ErrNotSupportType
-		}
-		left = float64(int(_left))
-		bits = 1
+		err = MakeError(ErrNotSupportType, left)
 	}
-	if _right, ok := second.(Float); ok {
-		right = float64(_right)
+	if ok2 {
+		g = float64(j)
+	} else if v, ok := right.(Float); ok {
+		g = float64(v)
 	} else {
-		_right, ok := second.(Integer)
-		if !ok {
-			return nil, ErrNotSupportType
+		err = MakeError(ErrNotSupportType, right)
+	}
+	return i, j, f, g, false, err
+}
+
+// funMod implements (mod X Y). The sign of the result is the sign of Y.
+func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
+	i, j, f, g, isInteger, err := integerOrFloats(ctx, w, first, second)
+	if err != nil {
+		return nil, err
+	}
+	if isInteger {
+		if j == 0 {
+			return raiseDivisionByZero(ctx, w, first, second)
 		}
-		right = float64(int(_right))
-		bits |= 2
+		m := i % j
+		if m != 0 && (m < 0) != (j < 0) {
+			m += j
+		}
+		return m, nil
+	}
+	if g == 0 {
+		return raiseDivisionByZero(ctx, w, first, second)
 	}
-	value := math.Remainder(float64(left), float64(right))
-	if bits == 3 {
-		return Integer(int(value)), nil
+	m := math.Mod(f, g)
+	if m != 0 && (m < 0) != (g < 0) {
+		m += g
 	}
-	return Float(value), nil
+	return Float(m), nil
 }
 
+// funRem implements (rem X Y). The sign of the result is the sign of X.
 func funRem(ctx context.Context, w *World, first, second Node) (Node, error) {
-	if left, ok := first.(Integer); ok {
-		if right, ok := second.(Integer); ok {
-			return Integer(left % right), nil
-		}
+	i, j, f, g, isInteger, err := integerOrFloats(ctx, w, first, second)
+	if err != nil {
+		return nil, err
 	}
-	if left, ok := first.(Float); ok {
-		if right, ok := second.(Float); ok {
-			return Float(math.Mod(float64(left), float64(right))), nil
-		}
-		if right, ok := second.(Integer); ok {
-			return Float(math.Mod(float64(left), float64(int(right)))), nil
+	if isInteger {
+		if j == 0 {
+			return raiseDivisionByZero(ctx, w, first, second)
 		}
+		return i % j, nil
+	}
+	if g == 0 {
+		return raiseDivisionByZero(ctx, w, first, second)
 	}
-	return nil, ErrNotSupportType
+	return Float(math.Mod(f, g)), nil
 }
-- 
2.43.0


From 0c77d663e0fd2af8aa187c3f8736492eaf3db47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:23 +0000
Subject: [PATCH 15/88] fix: round did not round halves to even, oddp was false
 for negative odd integers, and floor etc. signalled no domain-error

---
 cmds.go     |  2 +-
 operator.go | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/cmds.go b/cmds.go
index d84f455..42fdc8a 100644
--- a/cmds.go
+++ b/cmds.go
@@ -151,7 +151,7 @@ func funMinusp(_ context.Context, _ *World, arg Node) (Node, error) {
 }
 
 func funOddp(_ context.Context, _ *World, arg Node) (Node, error) {
-	if value, ok := arg.(Integer); ok && value%2 == 1 {
+	if value, ok := arg.(Integer); ok && value%2 != 0 {
 		return True, nil
 	}
 	return Null, nil
diff --git a/operator.go b/operator.go
index fa006c4..aebfc57 100644
--- a/operator.go
+++ b/operator.go
@@ -185,33 +185,36 @@ func cmdOr(ctx context.Context, w *World, param Node) (Node, error) {
 	}
 }
 
-func floatToInteger(arg Node, f func(float64) float64) (Node, error) {
+func floatToInteger(ctx context.Context, w *World, arg Node, f func(float64) float64) (Node, error) {
 	if value, ok := arg.(Integer); ok {
 		return value, nil
 	}
 	if value, ok := arg.(Float); ok {
 		return Integer(int(f(float64(value)))), nil
 	}
-	return nil, MakeError(ErrNotSupportType, arg)
+	return callHandler[Integer](ctx, w, true, &DomainError{
+		Object:        arg,
+		ExpectedClass: numberClass,
+	})
 }
 
 // funTruncate implements (truncte X). It returns the integer value of X.
 func funTruncate(ctx context.Context, w *World, arg Node) (Node, error) {
-	return floatToInteger(arg, math.Trunc)
+	return floatToInteger(ctx, w, arg, math.Trunc)
 }
 
 // funFloor implements (truncte X). It returns the greatest integer value less than or equal to x.
 func funFloor(ctx context.Context, w *World, arg Node) (Node, error) {
-	return floatToInteger(arg, math.Floor)
+	return floatToInteger(ctx, w, arg, math.Floor)
 }
 
 // funCeiling implements (ceiling X). It returns the least integer value greater than or equal to x.
 func funCeiling(ctx context.Context, w *World, arg Node) (Node, error) {
-	return floatToInteger(arg, math.Ceil)
+	return floatToInteger(ctx, w, arg, math.Ceil)
 }
 
 func funRound(ctx context.Context, w *World, arg Node) (Node, error) {
-	return floatToInteger(arg, math.Round)
+	return floatToInteger(ctx, w, arg, math.RoundToEven)
 }
 
 // integerOrFloats converts first and second to a pair of integers or a pair of floats.
-- 
2.43.0


From b5b5dec7a6548c34b7dc070f7b109969da6692ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 16/88] fix: floats were printed and converted to strings with
 six decimals only, losing their value, and inf and nan were taken as numbers

---
 convert.go |  5 +++--
 number.go  | 12 +++++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/convert.go b/convert.go
index 730cb03..fe48047 100644
--- a/convert.go
+++ b/convert.go
@@ -3,6 +3,7 @@ package gmnlisp
 import (
 	"context"
 	"fmt"
+	"math"
 	"strconv"
 )
 
@@ -47,7 +48,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 			return Integer(int(i)), nil
 		case floatClass.name:
 			f, err := strconv.ParseFloat(val.String(), 64)
-			if err != nil {
+			if err != nil || math.IsInf(f, 0) || math.IsNaN(f) {
 				return callHandler[*ParseError](ctx, w, true, &ParseError{
 					str:           String(val.String()),
 					ExpectedClass: floatClass,
@@ -78,7 +79,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		case floatClass.name:
 			return val, nil
 		case stringClass.name:
-			return String(fmt.Sprintf("%f", float64(val))), nil
+			return String(val.String()), nil
 		}
 	case Integer:
 		switch class {
diff --git a/number.go b/number.go
index 89589ca..47cc02f 100644
--- a/number.go
+++ b/number.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+	"strconv"
 )
 
 var numberClass = &_BuiltInClass{
@@ -183,7 +184,16 @@ func (Float) ClassOf() Class {
 }
 
 func (f Float) String() string {
-	return fmt.Sprintf("%f", float64(f))
+	s := fmt.Sprintf("%f", float64(f))
+	if v, err := strconv.ParseFloat(s, 64); err == nil && v == float64(f) || math.IsNaN(float64(f)) {
+		return s
+	}
+	// six digits after the point do not represent the value exactly
+	s = strconv.FormatFloat(float64(f), 'f', -1, 64)
+	if len(s) > 32 {
+		s = strconv.FormatFloat(float64(f), 'e', -1, 64)
+	}
+	return s
 }
 
 func (f Float) Equals(n Node, m EqlMode) bool {
-- 
2.43.0


From 36c3505c772cb4b4d49e420cedf81b46e447668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:28 +0000
Subject: [PATCH 17/88] fix: read, read-char and read-line without arguments
 crashed at the end of input, and file-length for a zero element size

---
 io.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/io.go b/io.go
index c85ab9a..c8e0336 100644
--- a/io.go
+++ b/io.go
@@ -25,6 +25,7 @@ func chomp(s string) string {
 
 type _StreamInput struct {
 	reader   _Reader
+	node     Node
 	eofFlag  bool
 	eofValue Node
 }
@@ -50,8 +51,10 @@ func newStreamInput(w *World, argv []Node) (*_StreamInput, error) {
 		if !ok {
 			return nil, fmt.Errorf("expected Reader %#v", argv[0])
 		}
+		this.node = argv[0]
 	case 0:
 		this.reader = w.Stdin()
+		this.node = w.Stdin()
 	}
 	return this, nil
 }
@@ -90,7 +93,7 @@ func funReadLine(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err == io.EOF {
 		if stream.eofFlag {
 			return callHandler[Node](ctx, w, true, EndOfStream{
-				Stream: argv[0],
+				Stream: stream.node,
 			})
 		}
 		return stream.eofValue, nil
@@ -109,7 +112,7 @@ func funRead(ctx context.Context, w *World, argv []Node) (Node, error) {
 			return stream.eofValue, nil
 		}
 		return callHandler[Node](ctx, w, true, EndOfStream{
-			Stream: argv[0],
+			Stream: stream.node,
 		})
 	}
 	if err != nil {
@@ -133,7 +136,7 @@ func funReadChar(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err == io.EOF {
 		if stream.eofFlag {
 			return callHandler[Node](ctx, w, true, EndOfStream{
-				Stream: argv[0],
+				Stream: stream.node,
 			})
 		}
 		return stream.eofValue, nil
@@ -295,6 +298,12 @@ func funFileLength(ctx context.Context, w *World, first, second Node) (Node, err
 		return nil, err
 	}
 	n := int64(_n)
+	if n <= 0 {
+		return callHandler[Node](ctx, w, false, &DomainError{
+			Object:        _n,
+			ExpectedClass: integerClass,
+		})
+	}
 
 	stat, err := os.Stat(fname)
 	if err != nil {
-- 
2.43.0


From a8d6e4f949638e2ce0e7beb2509ee9080e2a2f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:32 +0000
Subject: [PATCH 18/88] fix: with-standard-input rejected file streams

---
 io.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/io.go b/io.go
index c8e0336..8cee2a3 100644
--- a/io.go
+++ b/io.go
@@ -317,13 +317,16 @@ func cmdWithStandardInput(ctx context.Context, w *World, node Node) (Node, error
 	if err != nil {
 		return nil, err
 	}
-	stream, ok := _stream.(_ReaderNode)
+	reader, ok := _stream.(_Reader)
 	if !ok {
 		return nil, fmt.Errorf("%v: %w", _stream, ErrExpectedStream)
 	}
+	stream, ok := _stream.(_ReaderNode)
+	if !ok {
+		stream = _ReaderNode{_Reader: reader}
+	}
 	save := w.stdin
+	defer func() { w.stdin = save }()
 	w.stdin = stream
-	result, err := Progn(ctx, w, node)
-	w.stdin = save
-	return result, err
+	return Progn(ctx, w, node)
 }
-- 
2.43.0


From c10491c632484dbe218b913eb17cde7d5213e630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:37 +0000
Subject: [PATCH 19/88] fix: format ~& forgot what earlier calls had written to
 the same stream

---
 format.go   |  9 ++++-----
 io.go       | 21 ++++++++++++++++++++-
 sequence.go |  5 +++++
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/format.go b/format.go
index e12df35..3df8071 100644
--- a/format.go
+++ b/format.go
@@ -295,6 +295,9 @@ func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error)
 		rw, ok := output.(*_WriterNode)
 		if !ok {
 			rw = &_WriterNode{_Writer: output}
+			if c, ok := output.(CanKnowLastOutput); ok {
+				rw.lastOutputIsNotLf = !c.IsLastOutputLf()
+			}
 		}
 		err := f(rw, argv[1:])
 		return Null, err
@@ -305,11 +308,7 @@ func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error)
 		return String(buffer.String()), err
 	}
 	if True.Equals(argv[0], STRICT) {
-		W, ok := w.stdout._Writer.(*_WriterNode)
-		if !ok {
-			W = &_WriterNode{_Writer: w.stdout._Writer}
-		}
-		return Null, f(W, argv[1:])
+		return Null, f(w.stdout, argv[1:])
 	}
 	return nil, MakeError(ErrExpectedWriter, argv[0])
 }
diff --git a/io.go b/io.go
index 8cee2a3..5c61e85 100644
--- a/io.go
+++ b/io.go
@@ -222,7 +222,26 @@ func cmdWithOpenInputFile(ctx context.Context, w *World, list Node) (Node, error
 
 type _OutputFileStream struct {
 	*bufio.Writer
-	closer io.Closer
+	closer            io.Closer
+	lastOutputIsNotLf bool
+}
+
+func (o *_OutputFileStream) Write(p []byte) (int, error) {
+	if len(p) > 0 {
+		o.lastOutputIsNotLf = p[len(p)-1] != '\n'
+	}
+	return o.Writer.Write(p)
+}
+
+func (o *_OutputFileStream) WriteString(s string) (int, error) {
+	if len(s) > 0 {
+		o.lastOutputIsNotLf = s[len(s)-1] != '\n'
+	}
+	return o.Writer.WriteString(s)
+}
+
+func (o *_OutputFileStream) IsLastOutputLf() bool {
+	return !o.lastOutputIsNotLf
 }
 
 func (o *_OutputFileStream) Close() error {
diff --git a/sequence.go b/sequence.go
index 2a7054c..2a32680 100644
--- a/sequence.go
+++ b/sequence.go
@@ -73,6 +73,11 @@ func (S *StringBuilder) Add(ctx context.Context, w *World, n Node) error {
 	return nil
 }
 
+func (S *StringBuilder) IsLastOutputLf() bool {
+	s := S.String()
+	return len(s) <= 0 || s[len(s)-1] == '\n'
+}
+
 func (S *StringBuilder) Sequence() Node {
 	return String(S.String())
 }
-- 
2.43.0


From f5520db924e7084683b7459e184b80268a5fef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:59 +0000
Subject: [PATCH 20/88] fix: format ~na and ~ns counted bytes, and only a part
 of arrays, for the padding

---
 format.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/format.go b/format.go
index 3df8071..1a6795c 100644
--- a/format.go
+++ b/format.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 type runeWriter interface {
@@ -124,6 +125,21 @@ func printSpaces(n int, w io.Writer) {
 	}
 }
 
+// printObject prints value and pads it on the right to the width counted in characters.
+func printObject(w io.Writer, value Node, mode PrintMode, args ...int) error {
+	var buffer strings.Builder
+	if _, err := tryPrintTo(&buffer, value, mode); err != nil {
+		return err
+	}
+	if _, err := io.WriteString(w, buffer.String()); err != nil {
+		return err
+	}
+	if len(args) >= 1 {
+		printSpaces(args[0]-utf8.RuneCountInString(buffer.String()), w)
+	}
+	return nil
+}
+
 var NewLineOnFormat = []byte{'\n'}
 
 func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) error {
@@ -265,21 +281,9 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 		case 'g', 'G':
 			err = printFloat(w, value, 'g', parameter...)
 		case 'a', 'A':
-			n, err := tryPrintTo(w, value, PRINC)
-			if err != nil {
-				return err
-			}
-			if len(parameter) >= 1 {
-				printSpaces(parameter[0]-n, w)
-			}
+			err = printObject(w, value, PRINC, parameter...)
 		case 's', 'S':
-			n, err := tryPrintTo(w, value, PRINT)
-			if err != nil {
-				return err
-			}
-			if len(parameter) >= 1 {
-				printSpaces(parameter[0]-n, w)
-			}
+			err = printObject(w, value, PRINT, parameter...)
 		default:
 			err = fmt.Errorf("not support code '%c'", c)
 		}
-- 
2.43.0


From a3c398cb2ea18288b03daed4d000ca154b872c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:03 +0000
Subject: [PATCH 21/88] fix: format parameters v and # did not work, and
 non-ASCII characters were taken as digits or cut in the padding

---
 format.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/format.go b/format.go
index 1a6795c..2676db6 100644
--- a/format.go
+++ b/format.go
@@ -44,7 +44,7 @@ func printInt(w io.Writer, value Node, base int, args ...int) error {
 			padding = ' '
 		}
 		for i := len(body); i < width; i++ {
-			w.Write([]byte{byte(padding)})
+			io.WriteString(w, string(rune(padding)))
 		}
 	}
 	io.WriteString(w, strings.ToUpper(body))
@@ -175,7 +175,7 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 		}
 		parameter := []int{}
 		for {
-			if decimal := strings.IndexByte("0123456789", byte(c)); decimal >= 0 {
+			if decimal := strings.IndexRune("0123456789", rune(c)); decimal >= 0 {
 				for {
 					if IsNone(format) {
 						return ErrInvalidFormat
@@ -184,7 +184,7 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 					if !ok {
 						return ErrInvalidFormat
 					}
-					d := strings.IndexByte("0123456789", byte(c))
+					d := strings.IndexRune("0123456789", rune(c))
 					if d < 0 {
 						parameter = append(parameter, decimal)
 						break
@@ -213,8 +213,17 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 					return err
 				}
 				parameter = append(parameter, int(decimal))
+				argv = argv[1:]
+				c, format, ok = format.firstRuneAndRestString()
+				if !ok {
+					return ErrInvalidFormat
+				}
 			} else if c == '#' {
 				parameter = append(parameter, int(len(argv)))
+				c, format, ok = format.firstRuneAndRestString()
+				if !ok {
+					return ErrInvalidFormat
+				}
 			} else {
 				break
 			}
-- 
2.43.0


From 1461230f44e48b64323a4528ffb4ee863907f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:35 +0000
Subject: [PATCH 22/88] fix: elt, string-index with an index outside the
 sequence returned broken values or crashed

---
 array.go    |  2 +-
 sequence.go |  8 +++++++-
 string.go   | 11 ++++++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/array.go b/array.go
index caddb9e..b693ef1 100644
--- a/array.go
+++ b/array.go
@@ -180,7 +180,7 @@ func dim2size(dim []int) int {
 }
 
 func (A *Array) Elt(n int) (Node, error) {
-	if n < 0 || n >= A.dim[0] {
+	if len(A.dim) < 1 || n < 0 || n >= A.dim[0] {
 		return nil, ErrIndexOutOfRange
 	}
 	if len(A.dim) == 1 {
diff --git a/sequence.go b/sequence.go
index 2a32680..3ab8ace 100644
--- a/sequence.go
+++ b/sequence.go
@@ -104,12 +104,18 @@ func funElt(ctx context.Context, w *World, args []Node) (Node, error) {
 			}
 			continue
 		}
+		if index < 0 {
+			return nil, MakeError(ErrIndexOutOfRange, index)
+		}
 		for list := value; index >= 0; {
 			seq, ok := list.(Sequence)
 			if !ok {
 				return Null, nil
 			}
-			value, list, _ = seq.FirstAndRest()
+			value, list, ok = seq.FirstAndRest()
+			if !ok {
+				return Null, nil
+			}
 			index--
 		}
 	}
diff --git a/string.go b/string.go
index 5660449..869bdcf 100644
--- a/string.go
+++ b/string.go
@@ -161,7 +161,16 @@ func funStringIndex(ctx context.Context, w *World, argv []Node) (Node, error) {
 	}
 	str := _str.String()
 
-	for i := 0; i < start && len(str) > 0; i++ {
+	if start < 0 {
+		return callHandler[Node](ctx, w, false, &DomainError{
+			Object:        Integer(start),
+			ExpectedClass: integerClass,
+		})
+	}
+	for i := 0; i < start; i++ {
+		if len(str) <= 0 {
+			return Null, nil
+		}
 		_, siz := utf8.DecodeRuneInString(str)
 		str = str[siz:]
 	}
-- 
2.43.0


From 5fabfd052a318a8cdc5a5d932d7bf9df4a7e3d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:38 +0000
Subject: [PATCH 23/88] fix: wildcard and command crashed without arguments,
 and wildcard returned a broken empty list

---
 pkg/command/main.go  | 2 +-
 pkg/wildcard/main.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/command/main.go b/pkg/command/main.go
index 017d875..1587beb 100644
--- a/pkg/command/main.go
+++ b/pkg/command/main.go
@@ -9,7 +9,7 @@ import (
 )
 
 func init() {
-	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{F: funCommand})
+	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{Min: 1, F: funCommand})
 }
 
 func funCommand(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
diff --git a/pkg/wildcard/main.go b/pkg/wildcard/main.go
index 8427462..26a61c2 100644
--- a/pkg/wildcard/main.go
+++ b/pkg/wildcard/main.go
@@ -9,7 +9,7 @@ import (
 )
 
 func init() {
-	gmnlisp.Export(gmnlisp.NewSymbol("wildcard"), &gmnlisp.Function{F: funWildcard})
+	gmnlisp.Export(gmnlisp.NewSymbol("wildcard"), &gmnlisp.Function{C: 1, F: funWildcard})
 }
 
 func funWildcard(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
@@ -21,7 +21,7 @@ func funWildcard(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gm
 	if err != nil {
 		return nil, fmt.Errorf("%w: %#v", err, pattern)
 	}
-	var result gmnlisp.Node
+	result := gmnlisp.Null
 	for i := len(files) - 1; i >= 0; i-- {
 		result = &gmnlisp.Cons{
 			Car: gmnlisp.String(files[i]),
-- 
2.43.0


From 02bf48ac8731568b6c3f579240c6dd2dadf73dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:53 +0000
Subject: [PATCH 24/88] fix: set-aref and create-array with huge indexes wrote
 to other cells or crashed by overflow

---
 array.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/array.go b/array.go
index b693ef1..074eac7 100644
--- a/array.go
+++ b/array.go
@@ -128,6 +128,8 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 	return true
 }
 
+const maxArraySize = 1234567890 - 1
+
 func funCreateArray(ctx context.Context, w *World, args []Node) (Node, error) {
 	dim := args[0]
 	var ini Node = Null
@@ -155,12 +157,12 @@ func funCreateArray(ctx context.Context, w *World, args []Node) (Node, error) {
 				ExpectedClass: integerClass,
 			})
 		}
+		if int(n) > maxArraySize/size {
+			return callHandler[Node](ctx, w, false, StorageExhausted{})
+		}
 		_dim = append(_dim, int(n))
 		size *= int(n)
 	}
-	if size >= 1234567890 {
-		return callHandler[Node](ctx, w, false, StorageExhausted{})
-	}
 	_list := make([]Node, size)
 	for i := range _list {
 		_list[i] = ini
@@ -239,7 +241,7 @@ func funSetAref(ctx context.Context, w *World, args []Node) (Node, error) {
 			return nil, err
 		}
 		elementSize := dim2size(array.dim[1:])
-		if int(index)*elementSize >= len(array.list) || index < 0 {
+		if index < 0 || int(index) >= array.dim[0] {
 			condition := &DomainError{
 				Object:        index,
 				ExpectedClass: integerClass,
-- 
2.43.0


From 55eedb16064fce472c411907ed37f43e275f8ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 25/88] fix: maplist etc. called the function for an empty
 list, mapl returned the function, and mapping functions without lists never
 ended

---
 sequence.go | 31 ++++++-------------------------
 world.go    | 12 ++++++------
 2 files changed, 12 insertions(+), 31 deletions(-)

diff --git a/sequence.go b/sequence.go
index 3ab8ace..50848f0 100644
--- a/sequence.go
+++ b/sequence.go
@@ -166,29 +166,17 @@ func MapCar(ctx context.Context, w *World, funcNode Node, sourceSet []Node, stor
 }
 
 func funMapCar(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
-		return nil, ErrTooFewArguments
-	}
 	var buffer ListBuilder
 	err := MapCar(ctx, w, argv[0], argv[1:], func(node Node) { buffer.Add(ctx, w, node) })
 	return buffer.Sequence(), err
 }
 
 func funMapC(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
-		return nil, ErrTooFewArguments
-	}
 	err := MapCar(ctx, w, argv[0], argv[1:], func(Node) {})
-	if len(argv) < 2 {
-		return Null, err
-	}
 	return argv[1], err
 }
 
 func funMapCan(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
-		return nil, ErrTooFewArguments
-	}
 	list := []Node{}
 	err := MapCar(ctx, w, argv[0], argv[1:], func(node Node) { list = append(list, node) })
 	if err != nil {
@@ -219,6 +207,11 @@ func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, sto
 	}
 	listSet := make([]Node, len(sourceSet))
 	copy(listSet, sourceSet)
+	for _, list := range listSet {
+		if IsNone(list) {
+			return nil
+		}
+	}
 	for {
 		result, err := _f.Call(ctx, w, listToQuotedList(listSet))
 		if err != nil {
@@ -243,29 +236,17 @@ func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, sto
 }
 
 func funMapList(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
-		return nil, ErrTooFewArguments
-	}
 	var buffer ListBuilder
 	err := mapList(ctx, w, argv[0], argv[1:], func(n Node) { buffer.Add(ctx, w, n) })
 	return buffer.Sequence(), err
 }
 
 func funMapL(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
-		return nil, ErrTooFewArguments
-	}
 	err := mapList(ctx, w, argv[0], argv[1:], func(Node) {})
-	if len(argv) < 2 {
-		return Null, err
-	}
-	return argv[0], err
+	return argv[1], err
 }
 
 func funMapCon(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
-		return nil, ErrTooFewArguments
-	}
 	list := []Node{}
 	err := mapList(ctx, w, argv[0], argv[1:], func(n Node) { list = append(list, n) })
 	if err != nil {
diff --git a/world.go b/world.go
index 348d176..ac1a16c 100644
--- a/world.go
+++ b/world.go
@@ -377,12 +377,12 @@ var autoLoadFunc = Functions{
 	NewSymbol("load"):                           Function1(funLoad),
 	NewSymbol("macroexpand"):                    Function1(funMacroExpand),
 	NewSymbol("make-hash-table"):                Function0(funMakeHashTable),
-	NewSymbol("mapc"):                           &Function{F: funMapC},
-	NewSymbol("mapcan"):                         &Function{F: funMapCan},
-	NewSymbol("mapcar"):                         &Function{F: funMapCar},
-	NewSymbol("mapcon"):                         &Function{F: funMapCon},
-	NewSymbol("mapl"):                           &Function{F: funMapL},
-	NewSymbol("maplist"):                        &Function{F: funMapList},
+	NewSymbol("mapc"):                           &Function{Min: 2, F: funMapC},
+	NewSymbol("mapcan"):                         &Function{Min: 2, F: funMapCan},
+	NewSymbol("mapcar"):                         &Function{Min: 2, F: funMapCar},
+	NewSymbol("mapcon"):                         &Function{Min: 2, F: funMapCon},
+	NewSymbol("mapl"):                           &Function{Min: 2, F: funMapL},
+	NewSymbol("maplist"):                        &Function{Min: 2, F: funMapList},
 	NewSymbol("member"):                         Function2(funMember),
 	NewSymbol("minusp"):                         Function1(funMinusp),
 	NewSymbol("mod"):                            Function2(funMod),
-- 
2.43.0


From dea6e2c355e8ea7a63722a13a6c19c478b50c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:15 +0000
Subject: [PATCH 26/88] fix: setq of the variable of with-open-input-file and
 gmn:dump-session in a function crashed

---
 list.go  | 4 ++--
 world.go | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/list.go b/list.go
index a1ae67a..30ae811 100644
--- a/list.go
+++ b/list.go
@@ -10,7 +10,7 @@ func funGetCar(ctx context.Context, w *World, arg Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	return cons.Car, nil
+	return cons.getCar(), nil
 }
 
 // funGetCdr implements (cdr X)
@@ -19,7 +19,7 @@ func funGetCdr(ctx context.Context, w *World, arg Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	return cons.Cdr, nil
+	return cons.getCdr(), nil
 }
 
 // funList implements (list A B ...)
diff --git a/world.go b/world.go
index ac1a16c..4284b86 100644
--- a/world.go
+++ b/world.go
@@ -88,6 +88,7 @@ func (m *Pair) Get(key Symbol) (Node, bool) {
 func (m *Pair) Set(key Symbol, value Node) {
 	if key == m.Key {
 		m.Value = value
+		return
 	}
 	panic("Pair can be set value")
 }
@@ -620,6 +621,9 @@ func (w *World) Assert(equation string, expect Node) string {
 func (w *World) Range(f func(Symbol, Node) bool) {
 	marked := map[Symbol]struct{}{}
 	for ; w != nil; w = w.parent {
+		if w.vars == nil {
+			continue
+		}
 		w.vars.Range(func(key Symbol, val Node) bool {
 			if _, ok := marked[key]; !ok {
 				if !f(key, val) {
-- 
2.43.0


From 4762ce12880b116fcefc0028e4139438b11e5324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 27/88] fix: set-car, set-cdr and slot writers did not return
 the new value

---
 class.go | 2 +-
 list.go  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/class.go b/class.go
index 2dab2ac..381ea46 100644
--- a/class.go
+++ b/class.go
@@ -42,7 +42,7 @@ func newSetter(class Class, slotName Symbol) *_Method {
 				return nil, fmt.Errorf("%v: %w", node[1], ErrExpectedClass)
 			}
 			rec.Slot[slotName] = node[0]
-			return True, nil
+			return node[0], nil
 		},
 	}
 }
diff --git a/list.go b/list.go
index 30ae811..67bd778 100644
--- a/list.go
+++ b/list.go
@@ -143,7 +143,7 @@ func funSetCar(ctx context.Context, w *World, first, second Node) (Node, error)
 		return nil, err
 	}
 	cons.Car = first
-	return cons, nil
+	return first, nil
 }
 
 // funSetCdr implements (replacd X Y) == (setf (cdr X) Y) = (set-cdr Y X)
@@ -153,7 +153,7 @@ func funSetCdr(ctx context.Context, w *World, first, second Node) (Node, error)
 		return nil, err
 	}
 	cons.Cdr = first
-	return cons, nil
+	return first, nil
 }
 
 func funCreateList(ctx context.Context, w *World, argv []Node) (Node, error) {
-- 
2.43.0


From 298c1758701ee35715bc968ef470636751f754c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 28/88] fix: (setf (elt ...)) failed on strings, ignored
 indexes outside the sequence and did not return the new value

---
 embed/set-elt.lsp  | 11 ++++++++---
 embed/swap-elt.lsp |  2 ++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/embed/set-elt.lsp b/embed/set-elt.lsp
index 156f99b..0d45a9b 100644
--- a/embed/set-elt.lsp
+++ b/embed/set-elt.lsp
@@ -1,4 +1,9 @@
 (lambda-macro (newvalue seq &rest z)
-  `(if (basic-array-p ,seq)
-     (set-aref ,newvalue ,seq ,@z)
-     (setf ,seq (swap-elt ,newvalue ,seq ,@z))))
+  (let ((v (gensym)))
+    `(let ((,v ,newvalue))
+       (if (stringp ,seq)
+         (setf ,seq (swap-elt ,v ,seq ,@z))
+         (if (basic-array-p ,seq)
+           (set-aref ,v ,seq ,@z)
+           (swap-elt ,v ,seq ,@z)))
+       ,v)))
diff --git a/embed/swap-elt.lsp b/embed/swap-elt.lsp
index 8f24396..afa2938 100644
--- a/embed/swap-elt.lsp
+++ b/embed/swap-elt.lsp
@@ -1,4 +1,6 @@
 (lambda (newvalue source z)
+  (if (or (< z 0) (>= z (length source)))
+    (error "elt: index out of range: ~a" z))
   (if (stringp source)
     (string-append
       (subseq source 0 z)
-- 
2.43.0


From f36996a7c2ab1da974fc7d32ed3d7f4c977d5db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 29/88] fix: setf of assoc, nthcdr, dynamic, subseq and
 property changed other pairs or did not return the new value

---
 embed/set-assoc.lsp   |  16 +++---
 embed/set-dynamic.lsp |   4 +-
 embed/set-nthcdr.lsp  |   9 ++--
 embed/set-subseq.lsp  |   5 +-
 startup.lsp           | 111 +++++++++++++++++++++---------------------
 5 files changed, 75 insertions(+), 70 deletions(-)

diff --git a/embed/set-assoc.lsp b/embed/set-assoc.lsp
index fc0e155..8da67c4 100644
--- a/embed/set-assoc.lsp
+++ b/embed/set-assoc.lsp
@@ -1,9 +1,11 @@
 (lambda-macro (newvalue key m)
-  (let ((L (gensym)) (K (gensym)) (tmp (gensym)))
-    `(let* ((,L ,m) (,K ,key) (,tmp nil))
+  (let ((L (gensym)) (K (gensym)) (v (gensym)))
+    `(let* ((,v ,newvalue) (,L ,m) (,K ,key))
        (while ,L
-         (if (and (setq ,tmp (car ,L))
-                  (consp ,tmp)
-                  (equal ,K (car ,tmp)))
-           (set-car ,newvalue ,L))
-         (setq ,L (cdr ,L))))))
+         (if (and (consp (car ,L))
+                  (equal ,K (car (car ,L))))
+           (progn
+             (set-car ,v ,L)
+             (setq ,L nil))
+           (setq ,L (cdr ,L))))
+       ,v)))
diff --git a/embed/set-dynamic.lsp b/embed/set-dynamic.lsp
index b2f12f1..7fddfed 100644
--- a/embed/set-dynamic.lsp
+++ b/embed/set-dynamic.lsp
@@ -1,2 +1,4 @@
 (lambda-macro (newvalue name)
-  `(defdynamic ,name ,newvalue))
+  `(progn
+     (defdynamic ,name ,newvalue)
+     (dynamic ,name)))
diff --git a/embed/set-nthcdr.lsp b/embed/set-nthcdr.lsp
index f87b51a..6d4aeed 100644
--- a/embed/set-nthcdr.lsp
+++ b/embed/set-nthcdr.lsp
@@ -1,7 +1,4 @@
 (lambda (newvalue z source)
-  (let ((s source))
-    (while s
-      (setq z (1- z))
-      (if (zerop z) (set-cdr newvalue s))
-      (setq s (cdr s)))
-    source))
+  (if (< z 1)
+    (error "nthcdr: index out of range: ~a" z))
+  (set-cdr newvalue (nthcdr (1- z) source)))
diff --git a/embed/set-subseq.lsp b/embed/set-subseq.lsp
index 0cc337d..1e45424 100644
--- a/embed/set-subseq.lsp
+++ b/embed/set-subseq.lsp
@@ -1,2 +1,5 @@
 (lambda-macro (newvalue seq start end)
-  `(setf ,seq (swap-subseq ,seq ,start ,end ,newvalue)))
+  (let ((v (gensym)))
+    `(let ((,v ,newvalue))
+       (setf ,seq (swap-subseq ,seq ,start ,end ,v))
+       ,v)))
diff --git a/startup.lsp b/startup.lsp
index 59a8af5..9a2d467 100644
--- a/startup.lsp
+++ b/startup.lsp
@@ -1,55 +1,56 @@
-(defclass <simple-error> (<error>)
-  ((format-string
-     :initarg  format-string
-     :reader simple-error-format-string)
-   (format-arguments
-     :initarg  format-arguments
-     :reader simple-error-format-arguments)))
-(defmethod report-condition ((e <simple-error>) (w <object>))
-    (apply #'format
-           w
-           (simple-error-format-string e)
-           (simple-error-format-arguments e)))
-(let ((all-properties ()))
-  (defun property (sym name)
-    (let ((sym-props (assoc sym all-properties)))
-      (if sym-props
-        ; symbol found
-        (let* ((properties (cdr sym-props))
-               (name-value (assoc name properties)))
-          (if name-value 
-            (cdr name-value)
-            (error "~A of ~A not found" name sym)))
-        ; symbol not found
-        (error "Symbol ~A not found" name))))
-
-  (labels
-    ((rm-item
-       (key L)
-       (if L
-         (if (equal key (car (car L)))
-           (rm-item key (cdr L))
-           (cons (car L) (rm-item key (cdr L))))
-         nil))
-     (set-item
-       (key val L)
-       (cons (cons key val) (rm-item key L))))
-
-    (defun set-property (obj sym name)
-      (let ((sym-props (assoc sym all-properties)))
-        (if sym-props
-          ; symbol found
-          (let ((properties (cdr sym-props)))
-            (setq properties (set-item name obj properties))
-            (setq all-properties (set-item sym properties all-properties)))
-          ; symbol not found
-          (let ((properties (list (cons name obj))))
-            (setq all-properties (set-item sym properties all-properties))))))
-
-    (defun remove-property (sym name)
-      (let ((properties (assoc sym all-properties)))
-        (if properties
-          (setf (cdr properties) (rm-item name (cdr properties)))
-          (setq all-properties (rm-item sym all-properties)))))
-    )
-  )
+(defclass <simple-error> (<error>)
+  ((format-string
+     :initarg  format-string
+     :reader simple-error-format-string)
+   (format-arguments
+     :initarg  format-arguments
+     :reader simple-error-format-arguments)))
+(defmethod report-condition ((e <simple-error>) (w <object>))
+    (apply #'format
+           w
+           (simple-error-format-string e)
+           (simple-error-format-arguments e)))
+(let ((all-properties ()))
+  (defun property (sym name)
+    (let ((sym-props (assoc sym all-properties)))
+      (if sym-props
+        ; symbol found
+        (let* ((properties (cdr sym-props))
+               (name-value (assoc name properties)))
+          (if name-value 
+            (cdr name-value)
+            (error "~A of ~A not found" name sym)))
+        ; symbol not found
+        (error "Symbol ~A not found" name))))
+
+  (labels
+    ((rm-item
+       (key L)
+       (if L
+         (if (equal key (car (car L)))
+           (rm-item key (cdr L))
+           (cons (car L) (rm-item key (cdr L))))
+         nil))
+     (set-item
+       (key val L)
+       (cons (cons key val) (rm-item key L))))
+
+    (defun set-property (obj sym name)
+      (let ((sym-props (assoc sym all-properties)))
+        (if sym-props
+          ; symbol found
+          (let ((properties (cdr sym-props)))
+            (setq properties (set-item name obj properties))
+            (setq all-properties (set-item sym properties all-properties)))
+          ; symbol not found
+          (let ((properties (list (cons name obj))))
+            (setq all-properties (set-item sym properties all-properties))))
+        obj))
+
+    (defun remove-property (sym name)
+      (let ((properties (assoc sym all-properties)))
+        (if properties
+          (setf (cdr properties) (rm-item name (cdr properties)))
+          (setq all-properties (rm-item sym all-properties)))))
+    )
+  )
-- 
2.43.0


From 5d5ce1d86cb28a1ac71b98479e034d1176cb1593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:48 +0000
Subject: [PATCH 30/88] fix: return-from and return reached the wrong block of
 the same name and did not work for defun names

---
 lambda.go |  8 +++++++-
 progn.go  | 51 ++++++++++++++++++++++++++++++++-------------------
 world.go  | 24 ++++++++++++------------
 3 files changed, 51 insertions(+), 32 deletions(-)

diff --git a/lambda.go b/lambda.go
index b431521..7feac07 100644
--- a/lambda.go
+++ b/lambda.go
@@ -279,8 +279,14 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 
 	var result Node
 	var err error
+	var block *_Block
+	if L.name != nulSymbol {
+		block = &_Block{name: L.name, active: true}
+		defer func() { block.active = false }()
+	}
 	for {
 		newWorld := L.lexical.Let(lexical)
+		newWorld.block = block
 		result, err = prognWithTailRecOpt(ctx, newWorld, L.code, L.name)
 
 		var errTailRecOpt *_ErrTailRecOpt
@@ -309,7 +315,7 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 		}
 	}
 	var errEarlyReturns *_ErrEarlyReturns
-	if errors.As(err, &errEarlyReturns) && errEarlyReturns.Name == L.name {
+	if block != nil && errors.As(err, &errEarlyReturns) && errEarlyReturns.block == block {
 		return errEarlyReturns.Value, nil
 	}
 	if traceDo {
diff --git a/progn.go b/progn.go
index 9fe2110..7977627 100644
--- a/progn.go
+++ b/progn.go
@@ -6,9 +6,30 @@ import (
 	"fmt"
 )
 
+// _Block is an instance of a block established by (block) or a call of a named function.
+type _Block struct {
+	name   Symbol
+	active bool
+}
+
+// findBlock returns the innermost block of the name which lexically encloses w,
+// or nil when there is no such block or it has been left.
+func (w *World) findBlock(name Symbol) *_Block {
+	for ; w != nil; w = w.parent {
+		if w.block != nil && w.block.name == name {
+			if !w.block.active {
+				return nil
+			}
+			return w.block
+		}
+	}
+	return nil
+}
+
 type _ErrEarlyReturns struct {
 	Value Node
 	Name  Symbol
+	block *_Block
 }
 
 func (e *_ErrEarlyReturns) Error() string {
@@ -19,13 +40,11 @@ func (e *_ErrEarlyReturns) Error() string {
 }
 
 func funReturn(ctx context.Context, w *World, arg Node) (Node, error) {
-	if w.blockName == nil {
-		w.blockName = make(map[Symbol]struct{})
-	}
-	if _, ok := w.blockName[nulSymbol]; !ok {
+	block := w.findBlock(nulSymbol)
+	if block == nil {
 		return raiseControlError(ctx, w, fmt.Errorf("block name '%s' not found", nulSymbol.String()))
 	}
-	return nil, &_ErrEarlyReturns{Value: arg, Name: nulSymbol}
+	return nil, &_ErrEarlyReturns{Value: arg, Name: nulSymbol, block: block}
 }
 
 func cmdReturnFrom(ctx context.Context, w *World, n Node) (Node, error) {
@@ -43,17 +62,15 @@ func cmdReturnFrom(ctx context.Context, w *World, n Node) (Node, error) {
 	} else {
 		symbol = nulSymbol
 	}
-	if w.blockName == nil {
-		w.blockName = make(map[Symbol]struct{})
-	}
-	if _, ok := w.blockName[symbol]; !ok {
+	block := w.findBlock(symbol)
+	if block == nil {
 		return raiseControlError(ctx, w, fmt.Errorf("block name '%s' not found", symbol.String()))
 	}
 	value, err := w.Eval(ctx, argv[1])
 	if err != nil {
 		return nil, err
 	}
-	return nil, &_ErrEarlyReturns{Value: value, Name: symbol}
+	return nil, &_ErrEarlyReturns{Value: value, Name: symbol, block: block}
 }
 
 func Progn(ctx context.Context, w *World, n Node) (value Node, err error) {
@@ -87,16 +104,12 @@ func cmdBlock(ctx context.Context, w *World, node Node) (Node, error) {
 	} else {
 		nameSymbol = nulSymbol
 	}
-	if w.blockName == nil {
-		w.blockName = make(map[Symbol]struct{})
-	}
-	if _, ok := w.blockName[nameSymbol]; !ok {
-		defer delete(w.blockName, nameSymbol)
-		w.blockName[nameSymbol] = struct{}{}
-	}
+	block := &_Block{name: nameSymbol, active: true}
+	defer func() { block.active = false }()
 	var errEarlyReturns *_ErrEarlyReturns
-	rv, err := Progn(ctx, w, statements)
-	if errors.As(err, &errEarlyReturns) && errEarlyReturns.Name == nameSymbol {
+	nw := &World{shared: w.shared, parent: w, block: block}
+	rv, err := Progn(ctx, nw, statements)
+	if errors.As(err, &errEarlyReturns) && errEarlyReturns.block == block {
 		return errEarlyReturns.Value, nil
 	}
 	return rv, err
diff --git a/world.go b/world.go
index 4284b86..e702357 100644
--- a/world.go
+++ b/world.go
@@ -98,18 +98,17 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 }
 
 type shared struct {
-	macro     map[Symbol]*_Macro
-	handler   Callable
-	global    Scope
-	defun     FuncScope
-	dynamic   Variables
-	stdout    *_WriterNode
-	errout    *_WriterNode
-	stdin     _ReaderNode
-	startup   sync.Once
-	blockName map[Symbol]struct{}
-	catchTag  map[Node]struct{}
-	goTag     map[Symbol]struct{}
+	macro    map[Symbol]*_Macro
+	handler  Callable
+	global   Scope
+	defun    FuncScope
+	dynamic  Variables
+	stdout   *_WriterNode
+	errout   *_WriterNode
+	stdin    _ReaderNode
+	startup  sync.Once
+	catchTag map[Node]struct{}
+	goTag    map[Symbol]struct{}
 }
 
 type World struct {
@@ -117,6 +116,7 @@ type World struct {
 	parent *World
 	funcs  FuncScope
 	vars   Scope
+	block  *_Block
 }
 
 type _Reader interface {
-- 
2.43.0


From cbc36d632e1f548aa7cc7455cddee7a3c9b816aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:42 +0000
Subject: [PATCH 31/88] fix: go reached tags of other tagbodies of the same
 name, or none at all

---
 progn.go | 49 ++++++++++++++++++++++++++++++++++---------------
 world.go |  2 +-
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/progn.go b/progn.go
index 7977627..b311d83 100644
--- a/progn.go
+++ b/progn.go
@@ -349,8 +349,32 @@ func cmdUnwindProtect(ctx context.Context, w *World, list Node) (Node, error) {
 	return value, nil
 }
 
+// _Tags is an instance of the set of tags established by (tagbody).
+type _Tags struct {
+	names  map[Symbol]struct{}
+	active bool
+}
+
+// findTags returns the innermost tagbody which lexically encloses w and has the tag,
+// or nil when there is no such tagbody or it has been left.
+func (w *World) findTags(name Symbol) *_Tags {
+	for ; w != nil; w = w.parent {
+		if w.tags == nil {
+			continue
+		}
+		if _, ok := w.tags.names[name]; ok {
+			if !w.tags.active {
+				return nil
+			}
+			return w.tags
+		}
+	}
+	return nil
+}
+
 type _ErrTagBody struct {
-	tag Symbol
+	tag  Symbol
+	tags *_Tags
 }
 
 func (t *_ErrTagBody) Error() string {
@@ -366,21 +390,19 @@ func cmdGo(ctx context.Context, w *World, args Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	if w.goTag == nil {
-		w.goTag = make(map[Symbol]struct{})
-	}
-	if _, ok := w.goTag[symbol]; !ok {
+	tags := w.findTags(symbol)
+	if tags == nil {
 		return raiseControlError(ctx, w, fmt.Errorf("go-tag: %s not found", symbol.String()))
 	}
-	return Null, &_ErrTagBody{tag: symbol}
+	return Null, &_ErrTagBody{tag: symbol, tags: tags}
 }
 
 func cmdTagBody(ctx context.Context, w *World, args Node) (Node, error) {
 	tag := map[Symbol]Node{}
 
-	if w.goTag == nil {
-		w.goTag = make(map[Symbol]struct{})
-	}
+	tags := &_Tags{names: make(map[Symbol]struct{}), active: true}
+	defer func() { tags.active = false }()
+	nw := &World{shared: w.shared, parent: w, tags: tags}
 	for _args := args; IsSome(_args); {
 		var current Node
 		var err error
@@ -390,10 +412,7 @@ func cmdTagBody(ctx context.Context, w *World, args Node) (Node, error) {
 			return nil, err
 		}
 		if symbol, ok := current.(Symbol); ok {
-			if _, ok := w.goTag[symbol]; !ok {
-				w.goTag[symbol] = struct{}{}
-				defer delete(w.goTag, symbol)
-			}
+			tags.names[symbol] = struct{}{}
 		}
 	}
 mainloop:
@@ -409,12 +428,12 @@ mainloop:
 			tag[symbol] = args
 			continue
 		}
-		_, err = w.Eval(ctx, current)
+		_, err = nw.Eval(ctx, current)
 		if err == nil {
 			continue
 		}
 		var t *_ErrTagBody
-		if !errors.As(err, &t) {
+		if !errors.As(err, &t) || t.tags != tags {
 			return nil, err
 		}
 		if next, ok := tag[t.tag]; ok {
diff --git a/world.go b/world.go
index e702357..11809f8 100644
--- a/world.go
+++ b/world.go
@@ -108,7 +108,6 @@ type shared struct {
 	stdin    _ReaderNode
 	startup  sync.Once
 	catchTag map[Node]struct{}
-	goTag    map[Symbol]struct{}
 }
 
 type World struct {
@@ -117,6 +116,7 @@ type World struct {
 	funcs  FuncScope
 	vars   Scope
 	block  *_Block
+	tags   *_Tags
 }
 
 type _Reader interface {
-- 
2.43.0


From b49a89f07bd807f05116067751c4d4e36793a1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 32/88] fix: throw was caught by inner catches of tags that are
 only similar, and panicked on some tags

---
 progn.go | 30 ++++++++++++++++--------------
 world.go | 20 ++++++++++----------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/progn.go b/progn.go
index b311d83..f3e65ec 100644
--- a/progn.go
+++ b/progn.go
@@ -115,9 +115,16 @@ func cmdBlock(ctx context.Context, w *World, node Node) (Node, error) {
 	return rv, err
 }
 
+// _Catch is an instance of a catch in progress.
+type _Catch struct {
+	tag   Node
+	outer *_Catch
+}
+
 type _ErrThrown struct {
 	Value   Node
 	TagForm Node
+	catch   *_Catch
 }
 
 func (e *_ErrThrown) Error() string {
@@ -130,30 +137,25 @@ func cmdCatch(ctx context.Context, w *World, node Node) (Node, error) {
 		return nil, err
 	}
 
-	if w.catchTag == nil {
-		w.catchTag = make(map[Node]struct{})
-	}
-	if _, ok := w.catchTag[tagForm]; !ok {
-		w.catchTag[tagForm] = struct{}{}
-		defer delete(w.catchTag, tagForm)
-	}
+	catch := &_Catch{tag: tagForm, outer: w.catch}
+	w.catch = catch
+	defer func() { w.catch = catch.outer }()
 
 	var errThrown *_ErrThrown
 	rv, err := Progn(ctx, w, statements)
-	if errors.As(err, &errThrown) && errThrown.TagForm.Equals(tagForm, EQUALP) {
+	if errors.As(err, &errThrown) && errThrown.catch == catch {
 		return errThrown.Value, nil
 	}
 	return rv, err
 }
 
 func funThrow(ctx context.Context, w *World, tagForm, value Node) (Node, error) {
-	if w.catchTag == nil {
-		w.catchTag = make(map[Node]struct{})
-	}
-	if _, ok := w.catchTag[tagForm]; !ok {
-		return raiseControlError(ctx, w, fmt.Errorf("catch-tag '%s' not found", tagForm.String()))
+	for catch := w.catch; catch != nil; catch = catch.outer {
+		if catch.tag.Equals(tagForm, STRICT) {
+			return nil, &_ErrThrown{TagForm: tagForm, Value: value, catch: catch}
+		}
 	}
-	return nil, &_ErrThrown{TagForm: tagForm, Value: value}
+	return raiseControlError(ctx, w, fmt.Errorf("catch-tag '%s' not found", tagForm.String()))
 }
 
 func cmdCond(ctx context.Context, w *World, list Node) (Node, error) {
diff --git a/world.go b/world.go
index 11809f8..072cadb 100644
--- a/world.go
+++ b/world.go
@@ -98,16 +98,16 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 }
 
 type shared struct {
-	macro    map[Symbol]*_Macro
-	handler  Callable
-	global   Scope
-	defun    FuncScope
-	dynamic  Variables
-	stdout   *_WriterNode
-	errout   *_WriterNode
-	stdin    _ReaderNode
-	startup  sync.Once
-	catchTag map[Node]struct{}
+	macro   map[Symbol]*_Macro
+	handler Callable
+	global  Scope
+	defun   FuncScope
+	dynamic Variables
+	stdout  *_WriterNode
+	errout  *_WriterNode
+	stdin   _ReaderNode
+	startup sync.Once
+	catch   *_Catch
 }
 
 type World struct {
-- 
2.43.0


From 560461cc8988c69aa0cd90ddfb1b50e68b317e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 33/88] fix: unwind-protect returned the value of the
 cleanup-form and skipped it after a cancellation

---
 progn.go | 25 +++++++++++++++----------
 utils.go | 10 ++++++++++
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/progn.go b/progn.go
index f3e65ec..a40bdb1 100644
--- a/progn.go
+++ b/progn.go
@@ -331,16 +331,13 @@ func raiseError(ctx context.Context, w *World, e error) (Node, error) {
 }
 
 func cmdUnwindProtect(ctx context.Context, w *World, list Node) (Node, error) {
-	var formErr error
-
-	_, list, formErr = w.ShiftAndEvalCar(ctx, list)
-
-	value, err := Progn(ctx, w, list)
-	if err != nil {
-		var e1 *_ErrEarlyReturns // block & return-from
-		var e2 *_ErrThrown       // catch & throw
-		var e3 *_ErrTagBody      // tagbody & go
-		if errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) {
+	value, list, formErr := w.ShiftAndEvalCar(ctx, list)
+	if ctx.Err() != nil {
+		// the cleanup-forms are evaluated even if the form was canceled.
+		ctx = uncanceled{Context: ctx}
+	}
+	if _, err := Progn(ctx, w, list); err != nil {
+		if isNonLocalExit(err) {
 			return raiseControlError(ctx, w, errors.New("can not escape from cleanup-form"))
 		}
 		return nil, err
@@ -374,6 +371,14 @@ func (w *World) findTags(name Symbol) *_Tags {
 	return nil
 }
 
+// isNonLocalExit reports whether err is not an error but a transfer of control in progress.
+func isNonLocalExit(err error) bool {
+	var e1 *_ErrEarlyReturns // block & return-from
+	var e2 *_ErrThrown       // catch & throw
+	var e3 *_ErrTagBody      // tagbody & go
+	return errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3)
+}
+
 type _ErrTagBody struct {
 	tag  Symbol
 	tags *_Tags
diff --git a/utils.go b/utils.go
index 364deea..5b17385 100644
--- a/utils.go
+++ b/utils.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"time"
 
 	"github.com/hymkor/gmnlisp/pkg/parser"
 )
@@ -130,6 +131,15 @@ func identical(a, b Node) bool {
 	return va.Kind() == reflect.Map && va.Pointer() == vb.Pointer()
 }
 
+// uncanceled is the context without its cancellation.
+type uncanceled struct {
+	context.Context
+}
+
+func (uncanceled) Deadline() (deadline time.Time, ok bool) { return }
+func (uncanceled) Done() <-chan struct{}                   { return nil }
+func (uncanceled) Err() error                              { return nil }
+
 func checkContext(ctx context.Context) error {
 	select {
 	case <-ctx.Done():
-- 
2.43.0


From 1b719100d969993ac2df4c4fbfa13d51ae5bf7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:53 +0000
Subject: [PATCH 34/88] fix: ignore-errors discarded return-from, throw, go and
 the cancellation of the context

---
 progn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/progn.go b/progn.go
index a40bdb1..03b0d80 100644
--- a/progn.go
+++ b/progn.go
@@ -469,6 +469,9 @@ mainloop:
 func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
 	val, err := Progn(ctx, w, n)
 	if err != nil {
+		if isNonLocalExit(err) || ctx.Err() != nil {
+			return nil, err
+		}
 		return Null, nil
 	}
 	return val, nil
-- 
2.43.0


From c3dd00a90866e1d07830c4ee6b91a8516d65102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:08 +0000
Subject: [PATCH 35/88] fix: handlers were called twice when they left by
 return-from or throw, and recursed without end when they failed

---
 cond.go  | 28 ++++++++++++++++++++--------
 error.go | 11 ++++-------
 world.go |  2 +-
 3 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/cond.go b/cond.go
index 5c6e2b7..8ab8713 100644
--- a/cond.go
+++ b/cond.go
@@ -17,8 +17,9 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	}
 	oldHandler := w.handler
 	defer func() { w.handler = oldHandler }()
-	w.handler = handler
+	w.handler = &_Handler{function: handler, outer: oldHandler}
 	value, err := Progn(ctx, w, node)
+	w.handler = oldHandler
 
 	// 本来、場合によっては継続処理があるため、ハンドラー関数はエラーが起きた場所で
 	// 呼ばなければいけないが、 古いコードは error を返して、error の処理元で
@@ -29,10 +30,7 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	// ようにしている
 	// (将来的にはエラーが起きた場所で呼ぶよう変更しなくてはいけない)
 
-	var e1 *_ErrEarlyReturns // block & return-from
-	var e2 *_ErrThrown       // catch & throw
-	var e3 *_ErrTagBody      // tagbody & go
-	if err == nil || errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) {
+	if err == nil || isNonLocalExit(err) || ctx.Err() != nil {
 		return value, err
 	}
 
@@ -42,9 +40,9 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	}
 	var err2 error
 	if errors.As(err, &errorValue) {
-		_, err2 = handler.Call(ctx, w, &Cons{Car: errorValue, Cdr: Null})
+		_, err2 = handler.Call(ctx, w, UnevalList(errorValue))
 	} else {
-		_, err2 = handler.Call(ctx, w, &Cons{Car: ErrorNode{Value: err}, Cdr: Null})
+		_, err2 = handler.Call(ctx, w, UnevalList(ErrorNode{Value: err}))
 	}
 	if err2 != nil {
 		return nil, err2
@@ -52,6 +50,20 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	return nil, err
 }
 
+// _Handler is an instance of a handler established by (with-handler).
+type _Handler struct {
+	function Callable
+	outer    *_Handler
+}
+
+// Call calls the handler function, in which the handler established before it is active.
+func (h *_Handler) Call(ctx context.Context, w *World, cond Node) (Node, error) {
+	current := w.handler
+	defer func() { w.handler = current }()
+	w.handler = h.outer
+	return h.function.Call(ctx, w, UnevalList(cond))
+}
+
 type _ErrContinueCondition struct {
 	Cond  Node
 	Value Node
@@ -81,7 +93,7 @@ func funSignalCondition(ctx context.Context, w *World, cond, continueable Node)
 		}
 		return nil, errors.New(cond.String())
 	}
-	rv, err := w.handler.Call(ctx, w, &Cons{Car: cond})
+	rv, err := w.handler.Call(ctx, w, cond)
 	var e *_ErrContinueCondition
 	if IsSome(continueable) && errors.As(err, &e) {
 		return e.Value, nil
diff --git a/error.go b/error.go
index 8eee47f..5c9b339 100644
--- a/error.go
+++ b/error.go
@@ -134,22 +134,19 @@ type errorAndNode interface {
 	Node
 }
 
-type callHandlerLimitter struct{}
-
 func callHandler[T Node](ctx context.Context, w *World, cont bool, condition errorAndNode) (T, error) {
 	var zero T
 	if w.handler != nil {
-		if v := ctx.Value(callHandlerLimitter{}); v != nil {
-			return zero, condition
-		}
-		ctx = context.WithValue(ctx, callHandlerLimitter{}, 1)
-		_, e := w.handler.Call(ctx, w, UnevalList(condition))
+		_, e := w.handler.Call(ctx, w, condition)
 		var ce *_ErrContinueCondition
 		if cont && errors.As(e, &ce) {
 			if v, ok := ce.Value.(T); ok {
 				return v, nil
 			}
 		}
+		if e != nil && (isNonLocalExit(e) || ctx.Err() != nil) {
+			return zero, e
+		}
 	}
 	return zero, condition
 }
diff --git a/world.go b/world.go
index 072cadb..5126751 100644
--- a/world.go
+++ b/world.go
@@ -99,7 +99,7 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 
 type shared struct {
 	macro   map[Symbol]*_Macro
-	handler Callable
+	handler *_Handler
 	global  Scope
 	defun   FuncScope
 	dynamic Variables
-- 
2.43.0


From a9f2f50f91264ed37df6f911f05c412547c5203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 36/88] fix: library functions and report-condition were shared
 by all interpreters and bound to the scope of their first caller

---
 cond.go   | 11 +++++------
 lambda.go |  2 +-
 world.go  | 15 ++++++++++++---
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/cond.go b/cond.go
index 8ab8713..401d81f 100644
--- a/cond.go
+++ b/cond.go
@@ -74,18 +74,17 @@ func (e *_ErrContinueCondition) Error() string {
 }
 
 var symReportCondition = NewSymbol("report-condition")
-var reportCondition = &_Generic{
-	Symbol:  symReportCondition,
-	argc:    2,
-	methods: []*_Method{},
-}
 
 func funSignalCondition(ctx context.Context, w *World, cond, continueable Node) (Node, error) {
 	if w.handler == nil {
 		buffer := &StringBuilder{}
+		reportCondition, err := w.GetFunc(symReportCondition)
+		if err != nil {
+			return nil, err
+		}
 		if _, err := reportCondition.Call(ctx, w, UnevalList(cond, buffer)); err == nil {
 			return nil, errors.New(buffer.String())
-		} else if !errors.Is(err, ErrNoMatchMethods) {
+		} else if u := (*_UndefinedEntity)(nil); !errors.As(err, &u) || u.name != symReportCondition {
 			return nil, fmt.Errorf("%w in (report-condition)", err)
 		}
 		if err, ok := cond.(error); ok {
diff --git a/lambda.go b/lambda.go
index 7feac07..d5922f1 100644
--- a/lambda.go
+++ b/lambda.go
@@ -628,7 +628,7 @@ type LispString struct {
 
 func (L *LispString) Eval(ctx context.Context, w *World) (Node, error) {
 	if L.compile == nil {
-		c, err := w.Interpret(ctx, L.S)
+		c, err := w.root().Interpret(ctx, L.S)
 		if err != nil {
 			return nil, err
 		}
diff --git a/world.go b/world.go
index 5126751..28aa8d9 100644
--- a/world.go
+++ b/world.go
@@ -449,7 +449,6 @@ var autoLoadFunc = Functions{
 	NewSymbol("with-open-output-file"):          SpecialF(cmdWithOpenOutputFile),
 	NewSymbol("with-standard-input"):            SpecialF(cmdWithStandardInput),
 	NewSymbol("zerop"):                          Function1(funZerop),
-	symReportCondition:                          reportCondition,
 	// *sort*end*
 }
 
@@ -480,7 +479,7 @@ func (rw _RootWorld) Get(symbol Symbol) (Callable, bool) {
 	script, err := embedLisp.ReadFile(fname)
 	if err == nil {
 		value := &LispString{S: string(script)}
-		autoLoadFunc[symbol] = value
+		rw[symbol] = value
 		return value, true
 	}
 	return nil, false
@@ -495,7 +494,9 @@ func (rw _RootWorld) Range(f func(Symbol, Callable) bool) {
 
 func New() *World {
 	rwvars := &autoLoadVars
-	rwfuncs := _RootWorld{}
+	rwfuncs := _RootWorld{
+		symReportCondition: &_Generic{Symbol: symReportCondition, argc: 2},
+	}
 	w := &World{
 		shared: &shared{
 			global:  rwvars,
@@ -589,6 +590,14 @@ func (w *World) InterpretBytes(ctx context.Context, code []byte) (Node, error) {
 	return w.InterpretNodes(ctx, compiled)
 }
 
+// root returns the outermost world, which has the global variables and functions only.
+func (w *World) root() *World {
+	for w.parent != nil {
+		w = w.parent
+	}
+	return w
+}
+
 func (w *World) Let(scope Scope) *World {
 	return &World{
 		parent: w,
-- 
2.43.0


From 0bd0a8db1ff688dfca3ea097e9be85ab7126a504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 37/88] fix: the interpreter lost its startup functions when
 its first evaluation was canceled

---
 world.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/world.go b/world.go
index 28aa8d9..e3a9911 100644
--- a/world.go
+++ b/world.go
@@ -555,16 +555,24 @@ func inject(list []Node, f func(left, right Node) (Node, error)) (Node, error) {
 var startupCode string
 
 func (w *World) InterpretNodes(ctx context.Context, ns []Node) (Node, error) {
+	var startup []Node
 	w.startup.Do(func() {
-		compiled, err := ReadAll(strings.NewReader(startupCode))
+		var err error
+		startup, err = ReadAll(strings.NewReader(startupCode))
 		if err != nil {
 			panic(err.Error())
 		}
-		ns = append(compiled, ns...)
 	})
 	var result Node = Null
 	var err error
 
+	// The startup code does not depend on the scope or the cancellation of the first evaluation.
+	for _, c := range startup {
+		if _, err = w.root().Eval(uncanceled{Context: ctx}, c); err != nil {
+			return Null, err
+		}
+	}
+
 	for _, c := range ns {
 		result, err = w.Eval(ctx, c)
 		if err != nil {
-- 
2.43.0


From 4437152c60fe817278adcff1fd657db6eae061bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 38/88] fix: self tail calls reused the bindings of the
 previous call, dropped the rest parameter and did not check the number of
 arguments

---
 lambda.go | 70 ++++++++++++++++++++++++++++---------------------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/lambda.go b/lambda.go
index d5922f1..730ecb4 100644
--- a/lambda.go
+++ b/lambda.go
@@ -212,21 +212,10 @@ func (*_ErrTailRecOpt) Error() string {
 	return "_ErrTailRecOpt was not catched."
 }
 
-func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
-	if err := checkContext(ctx); err != nil {
-		// return nil,fmt.Errorf("%w\n\t%s",err,L.name)
-		return nil, err
-	}
+// bind makes the bindings of a call of L whose arguments are taken from n with shift.
+func (L *_Lambda) bind(ctx context.Context, w *World, n Node, shift func(context.Context, Node) (Node, Node, error), traceDo bool) (Variables, error) {
 	lexical := Variables{}
 	foundSlash := false
-	traceCount, traceDo := trace[L.name]
-	if traceDo {
-		fmt.Fprintf(os.Stderr, "[%d: (%s", traceCount, L.name)
-		trace[L.name]++
-		defer func() {
-			trace[L.name]--
-		}()
-	}
 	for _, name := range L.param {
 		if name == slashSymbol {
 			foundSlash = true
@@ -238,7 +227,7 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 		}
 		var err error
 		var value Node
-		value, n, err = w.ShiftAndEvalCar(ctx, n)
+		value, n, err = shift(ctx, n)
 		if err != nil {
 			// return nil,fmt.Errorf("%w\n\t%s",err,L.name)
 			return nil, err
@@ -253,7 +242,8 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 	}
 
 	if IsSome(n) && L.rest == nulSymbol {
-		return raiseProgramError(ctx, w, ErrTooManyArguments)
+		_, err := raiseProgramError(ctx, w, ErrTooManyArguments)
+		return nil, err
 	}
 	if L.rest != nulSymbol {
 		var values Node = nil
@@ -261,7 +251,7 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 			var value Node
 			var err error
 
-			value, n, err = w.ShiftAndEvalCar(ctx, n)
+			value, n, err = shift(ctx, n)
 			if err != nil {
 				return nil, err
 			}
@@ -276,9 +266,28 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 			return nil, err
 		}
 	}
+	return lexical, nil
+}
+
+func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		// return nil,fmt.Errorf("%w\n\t%s",err,L.name)
+		return nil, err
+	}
+	traceCount, traceDo := trace[L.name]
+	if traceDo {
+		fmt.Fprintf(os.Stderr, "[%d: (%s", traceCount, L.name)
+		trace[L.name]++
+		defer func() {
+			trace[L.name]--
+		}()
+	}
+	lexical, err := L.bind(ctx, w, n, w.ShiftAndEvalCar, traceDo)
+	if err != nil {
+		return nil, err
+	}
 
 	var result Node
-	var err error
 	var block *_Block
 	if L.name != nulSymbol {
 		block = &_Block{name: L.name, active: true}
@@ -293,25 +302,18 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 		if !errors.As(err, &errTailRecOpt) {
 			break
 		}
-		n = errTailRecOpt.params
-		foundSlash = false
-		for _, name := range L.param {
-			if name == slashSymbol {
-				foundSlash = true
-				continue
-			}
-			if foundSlash {
-				lexical[name] = Null
-				continue
-			}
-			var err error
-			var value Node
-			value, n, err = Shift(n)
+		if err = checkContext(ctx); err != nil {
+			return nil, err
+		}
+		lexical, err = L.bind(ctx, w, errTailRecOpt.params, func(_ context.Context, n Node) (Node, Node, error) {
+			value, n, err := Shift(n)
 			if err != nil {
-				// return nil,fmt.Errorf("%w\n\t%s",err,L.name)
-				return nil, err
+				_, err = raiseProgramError(ctx, w, err)
 			}
-			lexical[name] = value
+			return value, n, err
+		}, false)
+		if err != nil {
+			return nil, err
 		}
 	}
 	var errEarlyReturns *_ErrEarlyReturns
-- 
2.43.0


From 8d2460aaa6aa248772162c64aa18acff45380c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:58 +0000
Subject: [PATCH 39/88] fix: forms whose operator is a lambda expression were
 destroyed in function bodies

---
 lambda.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lambda.go b/lambda.go
index 730ecb4..32d8432 100644
--- a/lambda.go
+++ b/lambda.go
@@ -89,9 +89,7 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 	}
 	symbol, ok := cons.Car.(Symbol)
 	if !ok {
-		car := expandMacroOne(ctx, w, cons.Car)
-		cdr := expandMacroOne(ctx, w, cons.Cdr)
-		return &Cons{Car: car, Cdr: cdr}
+		return nil
 	}
 	macro, ok := w.macro[symbol]
 	if !ok {
-- 
2.43.0


From ddfca6fe6d3a3235f6d587f3299c55e82ab1aa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 40/88] fix: apply ignored a last argument that is not a list

---
 lambda.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lambda.go b/lambda.go
index 32d8432..8b06581 100644
--- a/lambda.go
+++ b/lambda.go
@@ -475,10 +475,12 @@ func cmdApply(ctx context.Context, w *World, list Node) (Node, error) {
 			if err != nil {
 				return nil, err
 			}
-			SeqEach(ctx, w, value, func(n Node) error {
-				newargs.Add(ctx, w, Uneval{n})
-				return nil
+			err = SeqEach(ctx, w, value, func(n Node) error {
+				return newargs.Add(ctx, w, Uneval{n})
 			})
+			if err != nil {
+				return nil, err
+			}
 			return f.Call(ctx, w, newargs.Sequence())
 		}
 		newargs.Add(ctx, w, value)
-- 
2.43.0


From f46195230b613df4986f0f27bc34c7c1cbc30961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 41/88] fix: (and), (or) and cond clauses without forms ended
 in an error or nil

---
 operator.go | 6 ++++++
 progn.go    | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/operator.go b/operator.go
index aebfc57..758e5a4 100644
--- a/operator.go
+++ b/operator.go
@@ -150,6 +150,9 @@ func funLessOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
 }
 
 func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
+	if IsNone(param) {
+		return True, nil
+	}
 	for {
 		var value Node
 		var err error
@@ -168,6 +171,9 @@ func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
 }
 
 func cmdOr(ctx context.Context, w *World, param Node) (Node, error) {
+	if IsNone(param) {
+		return Null, nil
+	}
 	for {
 		var value Node
 		var err error
diff --git a/progn.go b/progn.go
index 03b0d80..d28278c 100644
--- a/progn.go
+++ b/progn.go
@@ -176,6 +176,9 @@ func cmdCondWithTailRecOpt(ctx context.Context, w *World, list Node, currFunc Sy
 			return nil, err
 		}
 		if IsSome(cond) {
+			if IsNone(act) {
+				return cond, nil
+			}
 			return prognWithTailRecOpt(ctx, w, act, currFunc)
 		}
 	}
-- 
2.43.0


From 1dce4fbe3308a679e4523d2b757ce151c3528b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 42/88] fix: for evaluated the initial values in the reverse
 order

---
 embed/for.lsp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embed/for.lsp b/embed/for.lsp
index ef367dc..5621202 100644
--- a/embed/for.lsp
+++ b/embed/for.lsp
@@ -7,7 +7,7 @@
       (let* ((iteration-spec (car iters))
              (var (car iteration-spec))
              (init (elt iteration-spec 1)))
-        (setq inits (cons (list var init) inits))
+        (setq inits (append inits (list (list var init))))
         (if (= (length iteration-spec) 3)
           (let ((step (elt iteration-spec 2)))
             (setq steps (append steps (list var step))))))
-- 
2.43.0


From 159722232d25ceda1f1d6a032da9c38e42707053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:35 +0000
Subject: [PATCH 43/88] fix: dynamic-let bound variables before evaluating the
 other initial values and did not restore one bound twice

---
 setq.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/setq.go b/setq.go
index 4d8f66e..9f62e0f 100644
--- a/setq.go
+++ b/setq.go
@@ -233,7 +233,11 @@ func (w *World) Dynamic(name Symbol) Node {
 }
 
 func (D *Dynamics) Set(symbol Symbol, newValue Node) {
-	if orig, ok := D.world.dynamic.Get(symbol); ok {
+	if _, ok := D.backups[symbol]; ok {
+		// the value before the first Set is to be restored.
+	} else if _, ok := D.removes[symbol]; ok {
+		// it was unbound before the first Set.
+	} else if orig, ok := D.world.dynamic.Get(symbol); ok {
 		D.backups[symbol] = orig
 	} else {
 		D.removes[symbol] = struct{}{}
@@ -255,6 +259,9 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 		return nil, err
 	}
 
+	// evaluate all the initial values before binding
+	var symbols []Symbol
+	var values []Node
 	for IsSome(vars) {
 		var varAndValue Node
 		varAndValue, vars, err = Shift(vars)
@@ -262,7 +269,8 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 			return nil, err
 		}
 		if symbol, ok := varAndValue.(Symbol); ok {
-			D.Set(symbol, Null)
+			symbols = append(symbols, symbol)
+			values = append(values, Null)
 		} else {
 			var symbolNode Node
 			var value Node
@@ -282,8 +290,12 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 			if IsSome(varAndValue) {
 				return nil, ErrTooManyArguments
 			}
-			D.Set(symbol, value)
+			symbols = append(symbols, symbol)
+			values = append(values, value)
 		}
 	}
+	for i, symbol := range symbols {
+		D.Set(symbol, values[i])
+	}
 	return Progn(ctx, w, list)
 }
-- 
2.43.0


From 4d0622549d1b4387b01600bcf4005578b6a20174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 44/88] fix: generic functions called the method defined last
 instead of the most specific one

---
 class.go   | 17 ++++++++-----
 generic.go | 72 ++++++++++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 78 insertions(+), 11 deletions(-)

diff --git a/class.go b/class.go
index 381ea46..a59c446 100644
--- a/class.go
+++ b/class.go
@@ -66,7 +66,7 @@ func newBoundp(class Class, slotName Symbol) *_Method {
 func registerMethod(w *World, methodName Symbol, class Class, method *_Method) error {
 	if _acc, err := w.GetFunc(methodName); err == nil {
 		if gen, ok := _acc.(*_Generic); ok {
-			gen.methods = append(gen.methods, method)
+			gen.addMethod(method)
 		} else {
 			return fmt.Errorf("%v: already defined as not method", methodName)
 		}
@@ -197,6 +197,9 @@ func (u *_StandardClass) Equals(_other Node, _ EqlMode) bool {
 }
 
 func (class1 *_StandardClass) InheritP(class2 Class) bool {
+	if objectClass.Equals(class2, STRICT) {
+		return true
+	}
 	for _, s := range class1.Super {
 		if s.Equals(class2, STRICT) {
 			return true
@@ -349,11 +352,13 @@ func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 	}
 	w.DefineGlobal(className, class)
 
-	registerMethod(w, symInitializeObject, class, &_Method{
-		restType: objectClass,
-		types:    []Class{class},
-		method:   defaultInitializeObject,
-	})
+	if _, err := w.GetFunc(symInitializeObject); err != nil {
+		registerMethod(w, symInitializeObject, objectClass, &_Method{
+			restType: objectClass,
+			types:    []Class{objectClass},
+			method:   defaultInitializeObject,
+		})
+	}
 	return className, nil
 }
 
diff --git a/generic.go b/generic.go
index 87b9f49..48f8bf5 100644
--- a/generic.go
+++ b/generic.go
@@ -43,6 +43,39 @@ func (m *_Method) canCallWith(values []Node) bool {
 	return true
 }
 
+// classAt returns the class of the i-th parameter.
+func (m *_Method) classAt(i int) Class {
+	if i < len(m.types) {
+		return m.types[i]
+	}
+	return m.restType
+}
+
+// isMoreSpecific reports whether m is more specific than other, which both accept argc arguments.
+func (m *_Method) isMoreSpecific(other *_Method, argc int) bool {
+	for i := 0; i < argc; i++ {
+		c1 := m.classAt(i)
+		c2 := other.classAt(i)
+		if !c1.Equals(c2, STRICT) {
+			return c1.InheritP(c2)
+		}
+	}
+	return false
+}
+
+// hasSameClasses reports whether the parameters of m and other have the same classes.
+func (m *_Method) hasSameClasses(other *_Method) bool {
+	if len(m.types) != len(other.types) || (m.restType == nil) != (other.restType == nil) {
+		return false
+	}
+	for i, t := range m.types {
+		if !t.Equals(other.types[i], STRICT) {
+			return false
+		}
+	}
+	return m.restType == nil || m.restType.Equals(other.restType, STRICT)
+}
+
 type _Generic struct {
 	Symbol
 	argc    int
@@ -115,10 +148,8 @@ func (c *_Generic) Call(ctx context.Context, w *World, node Node) (Node, error)
 		}
 		values = append(values, v)
 	}
-	for i := len(c.methods) - 1; i >= 0; i-- {
-		if m := c.methods[i]; m.canCallWith(values) {
-			return m.method(ctx, w, values)
-		}
+	if m := c.findMethod(values); m != nil {
+		return m.method(ctx, w, values)
 	}
 	return callHandler[FunctionRef](ctx, w, false, &_UndefinedEntity{
 		name:  c.Symbol,
@@ -126,6 +157,37 @@ func (c *_Generic) Call(ctx context.Context, w *World, node Node) (Node, error)
 	})
 }
 
+// findMethod returns the most specific method that accepts values, or nil.
+func (c *_Generic) findMethod(values []Node) *_Method {
+	applicable := []*_Method{}
+	for i := len(c.methods) - 1; i >= 0; i-- {
+		if m := c.methods[i]; m.canCallWith(values) {
+			applicable = append(applicable, m)
+		}
+	}
+next:
+	for _, m := range applicable {
+		for _, other := range applicable {
+			if other.isMoreSpecific(m, len(values)) {
+				continue next
+			}
+		}
+		return m
+	}
+	return nil
+}
+
+// addMethod adds the method in place of the one with the same parameter classes.
+func (c *_Generic) addMethod(m *_Method) {
+	methods := make([]*_Method, 0, len(c.methods)+1)
+	for _, other := range c.methods {
+		if !m.hasSameClasses(other) {
+			methods = append(methods, other)
+		}
+	}
+	c.methods = append(methods, m)
+}
+
 func ExpectGeneric(c Callable) (*_Generic, error) {
 	g, ok := c.(*_Generic)
 	if !ok {
@@ -235,7 +297,7 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 		}
 		return Progn(ctx, w.Let(vars), code)
 	}
-	generic.methods = append(generic.methods, method)
+	generic.addMethod(method)
 	return name, nil
 }
 
-- 
2.43.0


From a1ac3d1450b76f572626deaf368a347e5676cc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 45/88] fix: method bodies were evaluated in the scope of the
 caller, without the rest parameter when it is empty

---
 generic.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/generic.go b/generic.go
index 48f8bf5..2b02951 100644
--- a/generic.go
+++ b/generic.go
@@ -282,8 +282,12 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 		}
 		method.types = append(method.types, type1)
 	}
-	method.method = func(ctx context.Context, w *World, args []Node) (Node, error) {
+	lexical := w
+	method.method = func(ctx context.Context, _ *World, args []Node) (Node, error) {
 		vars := Variables{}
+		if method.restType != nil {
+			vars[restName] = Null
+		}
 		for i, v := range args {
 			if i >= len(paramNames) {
 				var rest Node = Null
@@ -295,7 +299,7 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 			}
 			vars[paramNames[i]] = v
 		}
-		return Progn(ctx, w.Let(vars), code)
+		return Progn(ctx, lexical.Let(vars), code)
 	}
 	generic.addMethod(method)
 	return name, nil
-- 
2.43.0


From 1a59ecf9a6bb23575ba140753da7b627dd70e4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 46/88] fix: generic-function-p called the error handler for
 objects other than functions

---
 generic.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/generic.go b/generic.go
index 2b02951..4d44411 100644
--- a/generic.go
+++ b/generic.go
@@ -306,12 +306,10 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 }
 
 func funGenericFunctionP(ctx context.Context, w *World, arg Node) (Node, error) {
-	f, err := ExpectFunction(ctx, w, arg)
-	if err != nil {
-		return Null, nil
-	}
-	if _, ok := f.(*_Generic); ok {
-		return True, nil
+	if f, ok := arg.(FunctionRef); ok {
+		if _, ok := f.value.(*_Generic); ok {
+			return True, nil
+		}
 	}
 	return Null, nil
 }
-- 
2.43.0


From 87293c0c1f7879bd9d067e116c06c55070285015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 47/88] fix: initforms of super classes took precedence and
 were evaluated with the context of defclass

---
 class.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/class.go b/class.go
index a59c446..d955384 100644
--- a/class.go
+++ b/class.go
@@ -14,6 +14,7 @@ type _SlotSpec struct {
 	accessor   []Symbol
 	boundp     []Symbol
 	initform   func() (Node, error)
+	evalInit   func(context.Context) (Node, error) // initform in the context of (create)
 	initarg    []Symbol
 }
 
@@ -146,6 +147,7 @@ func readSlotSpec(ctx context.Context, w *World, list Node) (*_SlotSpec, error)
 			}
 		case kwInitForm:
 			slotSpec.initform = func() (Node, error) { return w.Eval(ctx, value) }
+			slotSpec.evalInit = func(ctx context.Context) (Node, error) { return w.Eval(ctx, value) }
 		case kwInitArg:
 			if v, err := ExpectSymbol(ctx, w, value); err == nil {
 				slotSpec.initarg = append(slotSpec.initarg, v)
@@ -439,19 +441,19 @@ func (c *_StandardObject) GoString() string {
 	return buffer.String()
 }
 
-func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
-	for _, super := range classDef.Super {
-		if uc, ok := super.(*_StandardClass); ok {
-			if err := reciever.callInitForm(uc); err != nil {
+func (reciever *_StandardObject) callInitForm(ctx context.Context, classDef *_StandardClass) error {
+	for name, slot1 := range classDef.Slot {
+		if _, ok := reciever.Slot[name]; !ok && slot1.evalInit != nil {
+			value, err := slot1.evalInit(ctx)
+			if err != nil {
 				return err
 			}
+			reciever.Slot[name] = value
 		}
 	}
-	for name, slot1 := range classDef.Slot {
-		if _, ok := reciever.Slot[name]; !ok && slot1.initform != nil {
-			var err error
-			reciever.Slot[name], err = slot1.initform()
-			if err != nil {
+	for _, super := range classDef.Super {
+		if uc, ok := super.(*_StandardClass); ok {
+			if err := reciever.callInitForm(ctx, uc); err != nil {
 				return err
 			}
 		}
@@ -544,7 +546,7 @@ func defaultInitializeObject(ctx context.Context, w *World, args []Node) (Node,
 		initVal, args = args[0], args[1:]
 		this.callInitArg(this._StandardClass, initArg, initVal)
 	}
-	return this, this.callInitForm(this._StandardClass)
+	return this, this.callInitForm(ctx, this._StandardClass)
 }
 
 func defInstanceP(ctx context.Context, w *World, node Node) (Node, error) {
-- 
2.43.0


From 34761055cdc56df47569ef3300b1ba8040e7e119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 48/88] fix: instancep mixed up condition classes and took
 strings as lists, and floats were not numbers

---
 builtinclass.go | 6 +++++-
 cmds.go         | 4 ++--
 cons.go         | 2 +-
 error.go        | 4 ++--
 number.go       | 8 ++++----
 sequence.go     | 2 +-
 6 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/builtinclass.go b/builtinclass.go
index 623f995..74afa65 100644
--- a/builtinclass.go
+++ b/builtinclass.go
@@ -45,7 +45,8 @@ func (e *_BuiltInClass) Name() Symbol {
 }
 
 func (e *_BuiltInClass) InstanceP(n Node) bool {
-	return e.instanceP(n) || n.ClassOf().InheritP(e)
+	class := n.ClassOf()
+	return e.instanceP(n) || e.Equals(class, STRICT) || class.InheritP(e)
 }
 
 func (e *_BuiltInClass) String() string {
@@ -67,6 +68,9 @@ var objectClass = &_BuiltInClass{
 	create:    func() Node { return nil },
 }
 
+// noInstance is the type parameter for the classes whose instances are known only with ClassOf
+type noInstance struct{ Node }
+
 func newBuiltInClass[T Node](name string) *_BuiltInClass {
 	symbol := NewSymbol(name)
 	return &_BuiltInClass{
diff --git a/cmds.go b/cmds.go
index 42fdc8a..a0dd348 100644
--- a/cmds.go
+++ b/cmds.go
@@ -179,8 +179,8 @@ func funAnyTypep[T Node](_ context.Context, _ *World, arg Node) (Node, error) {
 }
 
 var (
-	floatingPointOverflowClass  = registerNewAbstractClass[Node]("<floating-point-overflow>", arithmeticErrorClass)
-	floatingPointUnderflowClass = registerNewAbstractClass[Node]("<floating-point-underflow>", arithmeticErrorClass)
+	floatingPointOverflowClass  = registerNewAbstractClass[noInstance]("<floating-point-overflow>", arithmeticErrorClass)
+	floatingPointUnderflowClass = registerNewAbstractClass[noInstance]("<floating-point-underflow>", arithmeticErrorClass)
 )
 
 func funParseNumber(ctx context.Context, w *World, arg Node) (Node, error) {
diff --git a/cons.go b/cons.go
index 6e30212..1348fa9 100644
--- a/cons.go
+++ b/cons.go
@@ -12,7 +12,7 @@ type Cons struct {
 	Cdr Node
 }
 
-var consClass = registerNewAbstractClass[*Cons]("<cons>")
+var consClass = registerNewAbstractClass[*Cons]("<cons>", listClass)
 
 func (*Cons) ClassOf() Class {
 	return consClass
diff --git a/error.go b/error.go
index 5c9b339..9e99acb 100644
--- a/error.go
+++ b/error.go
@@ -199,8 +199,8 @@ func (u *_UndefinedEntity) Equals(other Node, mode EqlMode) bool {
 
 var (
 	undefinedEntityClass   = registerNewAbstractClass[*_UndefinedEntity]("<undefined-entity>", programErrorClass)
-	unboundVariableClass   = registerNewAbstractClass[*_UndefinedEntity]("<unbound-variable>", undefinedEntityClass)
-	undefinedFunctionClass = registerNewAbstractClass[*_UndefinedEntity]("<undefined-function>", undefinedEntityClass)
+	unboundVariableClass   = registerNewAbstractClass[noInstance]("<unbound-variable>", undefinedEntityClass)
+	undefinedFunctionClass = registerNewAbstractClass[noInstance]("<undefined-function>", undefinedEntityClass)
 )
 
 func (u *_UndefinedEntity) ClassOf() Class {
diff --git a/number.go b/number.go
index 47cc02f..62f4473 100644
--- a/number.go
+++ b/number.go
@@ -9,7 +9,7 @@ import (
 )
 
 var numberClass = &_BuiltInClass{
-	name: NewSymbol("number"),
+	name: NewSymbol("<number>"),
 	instanceP: func(n Node) bool {
 		if _, ok := n.(Integer); ok {
 			return true
@@ -91,7 +91,7 @@ type ArithmeticError struct {
 	Class     Class
 }
 
-var arithmeticErrorClass = registerNewBuiltInClass[*ArithmeticError]("<arithmetic-error-class>")
+var arithmeticErrorClass = registerNewBuiltInClass[*ArithmeticError]("<arithmetic-error>", errorClass)
 
 func (e *ArithmeticError) ClassOf() Class {
 	if e != nil && e.Class != nil {
@@ -121,7 +121,7 @@ func (e *ArithmeticError) Error() string {
 	return e.String()
 }
 
-var divisionByZeroClass = registerNewAbstractClass[*ArithmeticError]("<division-by-zero>")
+var divisionByZeroClass = registerNewAbstractClass[noInstance]("<division-by-zero>", arithmeticErrorClass)
 
 func raiseDivisionByZero(ctx context.Context, w *World, m, n Node) (Node, error) {
 	return callHandler[Node](ctx, w, true, &ArithmeticError{
@@ -177,7 +177,7 @@ func (i Integer) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
 
 type Float float64
 
-var floatClass = registerNewBuiltInClass[Float]("<float>")
+var floatClass = registerNewBuiltInClass[Float]("<float>", numberClass)
 
 func (Float) ClassOf() Class {
 	return floatClass
diff --git a/sequence.go b/sequence.go
index 50848f0..0748a4f 100644
--- a/sequence.go
+++ b/sequence.go
@@ -12,7 +12,7 @@ type Sequence interface {
 	Node
 }
 
-var listClass = registerNewBuiltInClass[Sequence]("<list>")
+var listClass = registerNewAbstractClass[*Cons]("<list>")
 
 func SeqEach(ctx context.Context, w *World, list Node, f func(Node) error) error {
 	for IsSome(list) {
-- 
2.43.0


From ec46388849ce60f822c921e1a3a187b56145cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 49/88] fix: create returned broken instances of hash tables,
 functions, streams and classes

---
 builtinclass.go | 14 +++++++++++++-
 class.go        |  3 +--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/builtinclass.go b/builtinclass.go
index 74afa65..0cabf30 100644
--- a/builtinclass.go
+++ b/builtinclass.go
@@ -2,6 +2,7 @@ package gmnlisp
 
 import (
 	"context"
+	"reflect"
 )
 
 type Class interface {
@@ -29,7 +30,18 @@ func (e *_BuiltInClass) InheritP(c Class) bool {
 }
 
 func (e *_BuiltInClass) Create() Node {
-	return e.create()
+	node := e.create()
+	switch v := reflect.ValueOf(node); v.Kind() {
+	case reflect.Pointer, reflect.Map, reflect.Func, reflect.Slice:
+		if v.IsNil() {
+			return nil
+		}
+	case reflect.Struct:
+		if v.NumField() > 0 && v.IsZero() {
+			return nil
+		}
+	}
+	return node
 }
 
 var classClass = registerNewBuiltInClass[Class]("<class>")
diff --git a/class.go b/class.go
index d955384..f474153 100644
--- a/class.go
+++ b/class.go
@@ -177,8 +177,7 @@ var standardClass = &_BuiltInClass{
 		return ok
 	},
 	create: func() Node {
-		classCounter++
-		return &_StandardClass{}
+		return nil
 	},
 	super: []Class{objectClass},
 }
-- 
2.43.0


From 3f5c7594a59d397f4043ad62c948b17498e6cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 50/88] fix: errors and exits from deep recursion took
 quadratic time and memory for their traces

---
 cons.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/cons.go b/cons.go
index 1348fa9..feb3ad8 100644
--- a/cons.go
+++ b/cons.go
@@ -202,7 +202,43 @@ func (cons *Cons) Eval(ctx context.Context, w *World) (Node, error) {
 		rc, err = function.Call(ctx, w, cons.Cdr)
 	}
 	if err != nil {
-		return nil, fmt.Errorf("%w\n\tat %v", err, symbol)
+		return nil, traceError(err, symbol)
 	}
 	return rc, nil
 }
+
+// _TraceError is an error with the operators of the forms it has passed through.
+// All the elements of the list share the cause not to make a long chain of errors.
+type _TraceError struct {
+	cause error
+	at    Symbol
+	inner *_TraceError
+}
+
+func traceError(err error, at Symbol) error {
+	switch e := err.(type) {
+	case *_ErrEarlyReturns, *_ErrThrown, *_ErrTagBody, *_ErrTailRecOpt:
+		return err
+	case *_TraceError:
+		return &_TraceError{cause: e.cause, at: at, inner: e}
+	default:
+		return &_TraceError{cause: err, at: at}
+	}
+}
+
+func (e *_TraceError) Unwrap() error {
+	return e.cause
+}
+
+func (e *_TraceError) Error() string {
+	symbols := []Symbol{}
+	for p := e; p != nil; p = p.inner {
+		symbols = append(symbols, p.at)
+	}
+	var buffer strings.Builder
+	buffer.WriteString(e.cause.Error())
+	for i := len(symbols) - 1; i >= 0; i-- {
+		fmt.Fprintf(&buffer, "\n\tat %v", symbols[i])
+	}
+	return buffer.String()
+}
-- 
2.43.0


From e9cb721ba748dc9924cdd55f008d3ca606186144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 51/88] fix: endless recursion and macro expansion killed the
 host by a stack overflow

---
 cons.go   | 9 +++++++++
 lambda.go | 6 ++++++
 world.go  | 1 +
 3 files changed, 16 insertions(+)

diff --git a/cons.go b/cons.go
index feb3ad8..61b9eba 100644
--- a/cons.go
+++ b/cons.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"sync/atomic"
 )
 
 type Cons struct {
@@ -176,7 +177,15 @@ func (cons *Cons) Equals(n Node, m EqlMode) bool {
 		cons.getCdr().Equals(value.Cdr, m)
 }
 
+// maxDepth is the limit of nested evaluations, which keeps the stack of Go from overflowing.
+const maxDepth = 200000
+
 func (cons *Cons) Eval(ctx context.Context, w *World) (Node, error) {
+	depth := atomic.AddInt64(&w.depth, 1)
+	defer atomic.AddInt64(&w.depth, -1)
+	if depth > maxDepth {
+		return nil, StorageExhausted{}
+	}
 	var rc Node
 	var err error
 	symbol, ok := cons.Car.(Symbol)
diff --git a/lambda.go b/lambda.go
index 8b06581..a256505 100644
--- a/lambda.go
+++ b/lambda.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"os"
 	"strings"
+	"sync/atomic"
 )
 
 type _Lambda struct {
@@ -119,6 +120,11 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 		println(err.Error())
 		return nil
 	}
+	depth := atomic.AddInt64(&w.depth, 1)
+	defer atomic.AddInt64(&w.depth, -1)
+	if depth > maxDepth {
+		return nil
+	}
 	if x := expandMacroOne(ctx, w, expandCode); x != nil {
 		return x
 	}
diff --git a/world.go b/world.go
index e3a9911..659e17f 100644
--- a/world.go
+++ b/world.go
@@ -98,6 +98,7 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 }
 
 type shared struct {
+	depth   int64 // the number of nested evaluations
 	macro   map[Symbol]*_Macro
 	handler *_Handler
 	global  Scope
-- 
2.43.0


From 655851f58db0e8b99189cb652cc72d718a1850a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 52/88] fix: cerror failed before signalling the condition

---
 embed/cerror.lsp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embed/cerror.lsp b/embed/cerror.lsp
index ce120a8..32909c1 100644
--- a/embed/cerror.lsp
+++ b/embed/cerror.lsp
@@ -4,5 +4,5 @@
         'format-string error-string
         'format-arguments obj)
     (let ((str (create-string-output-stream)))
-      (apply format str continue-string obj)
+      (apply #'format str continue-string obj)
       (get-output-stream-string str))))
-- 
2.43.0


From 11cd855d43ab9865d0510d3361ffffe4665a81d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 53/88] fix: apply evaluated its last argument before the
 others

---
 lambda.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index a256505..251489c 100644
--- a/lambda.go
+++ b/lambda.go
@@ -489,7 +489,11 @@ func cmdApply(ctx context.Context, w *World, list Node) (Node, error) {
 			}
 			return f.Call(ctx, w, newargs.Sequence())
 		}
-		newargs.Add(ctx, w, value)
+		value, err = w.Eval(ctx, value)
+		if err != nil {
+			return nil, err
+		}
+		newargs.Add(ctx, w, Uneval{value})
 	}
 }
 
-- 
2.43.0


From 5321633ed2a558f71ab0a9cbbd07244132e89430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 54/88] fix: functions made by initial values of let* saw the
 variables bound after them

---
 setq.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/setq.go b/setq.go
index 9f62e0f..35fba9d 100644
--- a/setq.go
+++ b/setq.go
@@ -125,12 +125,20 @@ func cmdLetXWithTailRecOpt(ctx context.Context, w *World, params Node, tailOptSy
 	if err != nil {
 		return nil, err
 	}
-	lexical := Variables{}
-
-	newWorld := w.Let(lexical)
+	newWorld := w
+	for IsSome(list) {
+		var item Node
 
-	if err := letValuesToVars(ctx, newWorld, list, lexical); err != nil {
-		return nil, err
+		item, list, err = Shift(list)
+		if err != nil {
+			return nil, err
+		}
+		// each variable has its own scope, which the initial value is not in.
+		lexical := Variables{}
+		if err := letValuesToVars(ctx, newWorld, &Cons{Car: item, Cdr: Null}, lexical); err != nil {
+			return nil, err
+		}
+		newWorld = newWorld.Let(lexical)
 	}
 	return prognWithTailRecOpt(ctx, newWorld, params, tailOptSym)
 }
-- 
2.43.0


From 39768797dd8863cc9e6a5c48ebbd4a00e1eecbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 55/88] fix: self tail calls were resolved by name only,
 ignoring local and new definitions of it

---
 lambda.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index 251489c..beb7170 100644
--- a/lambda.go
+++ b/lambda.go
@@ -209,6 +209,7 @@ func (t _Lambda) String() string {
 var trace = map[Symbol]int{}
 
 type _ErrTailRecOpt struct {
+	callee *_Lambda
 	params Node
 }
 
@@ -309,6 +310,19 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 		if err = checkContext(ctx); err != nil {
 			return nil, err
 		}
+		if errTailRecOpt.callee != L {
+			var params ListBuilder
+			for p := errTailRecOpt.params; IsSome(p) && err == nil; {
+				var value Node
+				value, p, err = Shift(p)
+				params.Add(ctx, w, Uneval{value})
+			}
+			if err != nil {
+				return nil, err
+			}
+			result, err = errTailRecOpt.callee.Call(ctx, w, params.Sequence())
+			break
+		}
 		lexical, err = L.bind(ctx, w, errTailRecOpt.params, func(_ context.Context, n Node) (Node, Node, error) {
 			value, n, err := Shift(n)
 			if err != nil {
@@ -346,6 +360,15 @@ func testCarIsCurrFunc(ctx context.Context, w *World, target Node, currFunc Symb
 	if !ok || IsNone(cons.Car) || !cons.Car.Equals(currFunc, EQUAL) {
 		return nil
 	}
+	// the name may denote another function than the current one here.
+	f, err := w.GetFunc(currFunc)
+	if err != nil {
+		return nil
+	}
+	callee, ok := f.(*_Lambda)
+	if !ok {
+		return nil
+	}
 
 	// Tail call optimization
 	var params Node = cons.Cdr
@@ -362,7 +385,7 @@ func testCarIsCurrFunc(ctx context.Context, w *World, target Node, currFunc Symb
 	if err != nil {
 		panic(err.Error())
 	}
-	return &_ErrTailRecOpt{params: evaled}
+	return &_ErrTailRecOpt{callee: callee, params: evaled}
 }
 
 var (
-- 
2.43.0


From 2063e74e45adc0fb6995581d5ffbbbfb75658813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 56/88] fix: a macro redefined by defun or defgeneric was still
 expanded in function bodies

---
 generic.go | 1 +
 lambda.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/generic.go b/generic.go
index 4d44411..eebd968 100644
--- a/generic.go
+++ b/generic.go
@@ -134,6 +134,7 @@ func cmdDefGeneric(ctx context.Context, w *World, node Node) (Node, error) {
 		argc++
 	}
 	w.defun.Set(name, &_Generic{Symbol: name, argc: argc, rest: hasRest})
+	delete(w.macro, name)
 	return name, nil
 }
 
diff --git a/lambda.go b/lambda.go
index beb7170..96307a7 100644
--- a/lambda.go
+++ b/lambda.go
@@ -466,6 +466,7 @@ func cmdDefun(ctx context.Context, w *World, list Node) (Node, error) {
 		}
 	}
 	w.defun.Set(symbol, lambda)
+	delete(w.macro, symbol)
 	return symbol, nil
 }
 
-- 
2.43.0


From 4daaf5c59eba83bbf361afe18b68a3a4341d0cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 57/88] fix: - and / without arguments returned nil, and /
 accepted any object as its only argument

---
 operator.go | 3 +++
 world.go    | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/operator.go b/operator.go
index 758e5a4..3fb409f 100644
--- a/operator.go
+++ b/operator.go
@@ -77,6 +77,9 @@ func funDevide(ctx context.Context, w *World, args []Node) (Node, error) {
 		Node
 		Divide(context.Context, *World, Node) (Node, error)
 	}
+	if len(args) == 1 {
+		return ExpectInterface[CanDevide](ctx, w, args[0], numberClass)
+	}
 	return inject(args, func(left, right Node) (Node, error) {
 		_left, err := ExpectInterface[CanDevide](ctx, w, left, numberClass)
 		if err != nil {
diff --git a/world.go b/world.go
index 659e17f..791c279 100644
--- a/world.go
+++ b/world.go
@@ -267,8 +267,8 @@ var autoLoadFunc = Functions{
 	// *sort*start*
 	NewSymbol("*"):                              &Function{F: funMulti},
 	NewSymbol("+"):                              &Function{F: funAdd},
-	NewSymbol("-"):                              &Function{F: funSub},
-	NewSymbol("/"):                              &Function{F: funDevide},
+	NewSymbol("-"):                              &Function{Min: 1, F: funSub},
+	NewSymbol("/"):                              &Function{Min: 1, F: funDevide},
 	NewSymbol("/="):                             &Function{C: 2, F: funNotEqual},
 	NewSymbol("<"):                              &Function{F: funLessThan},
 	NewSymbol("<="):                             &Function{F: funLessOrEqual},
-- 
2.43.0


From 281bda55c5720bedb23b6c67cbb146ed07cebc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 58/88] fix: the symbol |)| was printed without bars

---
 atom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atom.go b/atom.go
index 6c95cda..9573732 100644
--- a/atom.go
+++ b/atom.go
@@ -135,7 +135,7 @@ var symbolEscaper = strings.NewReplacer(`\`, `\\`, `|`, `\|`)
 func (s _Symbol) GoString() string {
 	name := s.String()
 	r := strings.NewReader(name)
-	if n, err := ReadNode(r); err == nil && n == Node(s) && r.Len() == 0 && name != "." {
+	if n, err := ReadNode(r); err == nil && n == Node(s) && r.Len() == 0 && name != "." && name != ")" {
 		return name
 	}
 	return "|" + symbolEscaper.Replace(name) + "|"
-- 
2.43.0


From 026e04956e72fe99cabcf19527bae4641dea1347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 59/88] fix: reader took a quote after a block comment as a
 part of a symbol

---
 pkg/parser/tokenize.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 50fb649..d454193 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -114,6 +114,9 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 					return "", err
 				}
 				if done {
+					if buffer.Len() <= 0 {
+						return "", nil
+					}
 					continue
 				}
 			}
-- 
2.43.0


From ffad6b0116174022fa2437f29bcd513957632ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 60/88] fix: reader took #' inside of a |symbol| as its end

---
 pkg/parser/tokenize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index d454193..3f009f6 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -138,7 +138,7 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 
 		buffer.WriteRune(lastRune)
 
-		if !quote && lastLastRune == '#' && lastRune == '\'' {
+		if !quote && !bar4symbol && lastLastRune == '#' && lastRune == '\'' {
 			return buffer.String(), err
 		}
 		lastLastRune = lastRune
-- 
2.43.0


From 15c931bd219a87c9a00781dd1544e248752a86ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:25 +0000
Subject: [PATCH 61/88] fix: equal took objects with different bound slots as
 equal

---
 class.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/class.go b/class.go
index f474153..306f49d 100644
--- a/class.go
+++ b/class.go
@@ -383,7 +383,8 @@ func (r *_StandardObject) Equals(o Node, m EqlMode) bool {
 		return false
 	}
 	for key, val := range r.Slot {
-		if !val.Equals(other.Slot[key], m) {
+		otherVal, ok := other.Slot[key]
+		if !ok || !val.Equals(otherVal, m) {
 			return false
 		}
 	}
-- 
2.43.0


From 229a2b8f635c1fea088161196e6ca3422e24d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:36 +0000
Subject: [PATCH 62/88] fix: eql and equal of the standard output streams were
 not reflexive

---
 newtypes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newtypes.go b/newtypes.go
index 317e7b5..35e15bc 100644
--- a/newtypes.go
+++ b/newtypes.go
@@ -60,13 +60,13 @@ func (t _ReaderNode) String() string {
 	return "(_ReaderNode)"
 }
 
-var writerNodeClass = registerNewBuiltInClass[_WriterNode]("<_WriterNode>")
+var writerNodeClass = registerNewBuiltInClass[*_WriterNode]("<_WriterNode>")
 
 func (_WriterNode) ClassOf() Class {
 	return writerNodeClass
 }
 
-func (t _WriterNode) Equals(n Node, _ EqlMode) bool {
+func (t *_WriterNode) Equals(n Node, _ EqlMode) bool {
 	return identical(t, n)
 }
 
-- 
2.43.0


From 6791b5bf162f79fa16ca31ef7e5afd21b6c6eb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 63/88] fix: notice a cancelled context in fixed-arity builtin
 functions

---
 lambda.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lambda.go b/lambda.go
index 96307a7..3e4a8bb 100644
--- a/lambda.go
+++ b/lambda.go
@@ -575,6 +575,9 @@ func raiseProgramError(ctx context.Context, w *World, e error) (Node, error) {
 type Function0 func(context.Context, *World) (Node, error)
 
 func (f Function0) Call(ctx context.Context, w *World, list Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		return nil, err
+	}
 	if IsSome(list) {
 		return raiseProgramError(ctx, w, ErrTooManyArguments)
 	}
@@ -584,6 +587,9 @@ func (f Function0) Call(ctx context.Context, w *World, list Node) (Node, error)
 type Function1 func(context.Context, *World, Node) (Node, error)
 
 func (f Function1) Call(ctx context.Context, w *World, list Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		return nil, err
+	}
 	v, list, err := w.ShiftAndEvalCar(ctx, list)
 	if err != nil {
 		return nil, err
@@ -597,6 +603,9 @@ func (f Function1) Call(ctx context.Context, w *World, list Node) (Node, error)
 type Function2 func(context.Context, *World, Node, Node) (Node, error)
 
 func (f Function2) Call(ctx context.Context, w *World, list Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		return nil, err
+	}
 	first, list, err := w.ShiftAndEvalCar(ctx, list)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From daa89cd873285531a646c95edbdd0ca0783493af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 64/88] fix: return the context's error from ignore-errors when
 the evaluation is cancelled

---
 progn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/progn.go b/progn.go
index d28278c..a19e788 100644
--- a/progn.go
+++ b/progn.go
@@ -472,7 +472,10 @@ mainloop:
 func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
 	val, err := Progn(ctx, w, n)
 	if err != nil {
-		if isNonLocalExit(err) || ctx.Err() != nil {
+		if isNonLocalExit(err) {
+			return nil, err
+		}
+		if err := ctx.Err(); err != nil {
 			return nil, err
 		}
 		return Null, nil
-- 
2.43.0


From fd02d662b909a3004472cca8b056a32edb0bc31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 65/88] fix: floor, ceiling, round, truncate and convert
 returned a wrong integer for floats outside of the range of integers

---
 convert.go  |  2 +-
 operator.go | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/convert.go b/convert.go
index fe48047..bdfcdd6 100644
--- a/convert.go
+++ b/convert.go
@@ -75,7 +75,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 	case Float:
 		switch class {
 		case integerClass.name: // it should be error
-			return Integer(val), nil
+			return integralToInteger(ctx, w, val, math.Trunc(float64(val)))
 		case floatClass.name:
 			return val, nil
 		case stringClass.name:
diff --git a/operator.go b/operator.go
index 3fb409f..ab72204 100644
--- a/operator.go
+++ b/operator.go
@@ -194,12 +194,24 @@ func cmdOr(ctx context.Context, w *World, param Node) (Node, error) {
 	}
 }
 
+// integralToInteger converts a float without a fractional part to the integer of the same value.
+// The float outside the range of Integer (and infinity and NaN) is a domain error.
+func integralToInteger(ctx context.Context, w *World, source Float, f float64) (Node, error) {
+	if f >= math.MinInt64 && f < -math.MinInt64 {
+		return Integer(f), nil
+	}
+	return callHandler[Integer](ctx, w, true, &DomainError{
+		Object:        source,
+		ExpectedClass: integerClass,
+	})
+}
+
 func floatToInteger(ctx context.Context, w *World, arg Node, f func(float64) float64) (Node, error) {
 	if value, ok := arg.(Integer); ok {
 		return value, nil
 	}
 	if value, ok := arg.(Float); ok {
-		return Integer(int(f(float64(value)))), nil
+		return integralToInteger(ctx, w, value, f(float64(value)))
 	}
 	return callHandler[Integer](ctx, w, true, &DomainError{
 		Object:        arg,
-- 
2.43.0


From ed005f82bf3a4ea71f17862cd69cf0b3dbecec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 66/88] fix: convert returned other characters for integers
 that are no character codes

---
 convert.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/convert.go b/convert.go
index bdfcdd6..1d90a64 100644
--- a/convert.go
+++ b/convert.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"strconv"
+	"unicode/utf8"
 )
 
 var (
@@ -84,6 +85,12 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 	case Integer:
 		switch class {
 		case characterClass.name:
+			if val < 0 || val > utf8.MaxRune || !utf8.ValidRune(rune(val)) {
+				return callHandler[Rune](ctx, w, true, &DomainError{
+					Object:        val,
+					ExpectedClass: characterClass,
+				})
+			}
 			return Rune(val), nil
 		case integerClass.name:
 			return val, nil
-- 
2.43.0


From 5a43b05c22c69d8769e775fbde2a9a95356b2d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 67/88] fix: convert dropped the last cdr of a list that is not
 proper

---
 convert.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/convert.go b/convert.go
index 1d90a64..b2a4d6c 100644
--- a/convert.go
+++ b/convert.go
@@ -105,13 +105,16 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 			return val, nil
 		case classVector:
 			var buffer VectorBuilder
-			for IsSome(val) {
+			for {
 				buffer.Add(ctx, w, val.Car)
-				var ok bool
-				val, ok = val.Cdr.(*Cons)
+				next, ok := val.Cdr.(*Cons)
 				if !ok {
+					if IsSome(val.Cdr) {
+						return nil, &DomainError{Object: val.Cdr, ExpectedClass: listClass}
+					}
 					break
 				}
+				val = next
 			}
 			return buffer.Sequence(), nil
 		}
-- 
2.43.0


From f3cd929eb51c5a3f99e19b8164bd7f662c81e818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 68/88] fix: convert took Go's hexadecimal floats and digits
 with underscores as numbers

---
 convert.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/convert.go b/convert.go
index b2a4d6c..6bd312f 100644
--- a/convert.go
+++ b/convert.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"strconv"
+	"strings"
 	"unicode/utf8"
 )
 
@@ -49,7 +50,8 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 			return Integer(int(i)), nil
 		case floatClass.name:
 			f, err := strconv.ParseFloat(val.String(), 64)
-			if err != nil || math.IsInf(f, 0) || math.IsNaN(f) {
+			// strconv.ParseFloat accepts also notations of Go: hexadecimal, underscores, infinity and nan
+			if err != nil || strings.Trim(val.String(), "0123456789+-.eE") != "" {
 				return callHandler[*ParseError](ctx, w, true, &ParseError{
 					str:           String(val.String()),
 					ExpectedClass: floatClass,
-- 
2.43.0


From f71236935e2756cc21007f9ae4518e1de2fee78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:00 +0000
Subject: [PATCH 69/88] fix: the command failed for an empty script file

---
 cmd/gmnlisp/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/gmnlisp/main.go b/cmd/gmnlisp/main.go
index e74eb87..f2462ff 100644
--- a/cmd/gmnlisp/main.go
+++ b/cmd/gmnlisp/main.go
@@ -180,10 +180,10 @@ func mains(args []string) error {
 
 		br := bufio.NewReader(fd)
 		magicByte, err := br.Peek(1)
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return fmt.Errorf("%s: %w", args[0], err)
 		}
-		if magicByte[0] == '#' || magicByte[0] == '@' {
+		if len(magicByte) > 0 && (magicByte[0] == '#' || magicByte[0] == '@') {
 			br.ReadString('\n')
 		}
 		script, err := io.ReadAll(br)
-- 
2.43.0


From e60487e7c96264398cfa4097ba0b0deb9ed45bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:14 +0000
Subject: [PATCH 70/88] fix: handlers that failed, quit or returned were called
 again with the same error when it left with-handler

---
 cond.go  | 42 ++++++++++++++++++++++++++++++++++++++++--
 error.go |  3 ++-
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/cond.go b/cond.go
index 401d81f..a0cc6be 100644
--- a/cond.go
+++ b/cond.go
@@ -17,7 +17,8 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	}
 	oldHandler := w.handler
 	defer func() { w.handler = oldHandler }()
-	w.handler = &_Handler{function: handler, outer: oldHandler}
+	current := &_Handler{function: handler, outer: oldHandler}
+	w.handler = current
 	value, err := Progn(ctx, w, node)
 	w.handler = oldHandler
 
@@ -33,6 +34,10 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	if err == nil || isNonLocalExit(err) || ctx.Err() != nil {
 		return value, err
 	}
+	var signaled *_SignaledError
+	if errors.As(err, &signaled) && !signaled.next.encloses(current) {
+		return nil, err
+	}
 
 	var errorValue interface {
 		Node
@@ -61,7 +66,40 @@ func (h *_Handler) Call(ctx context.Context, w *World, cond Node) (Node, error)
 	current := w.handler
 	defer func() { w.handler = current }()
 	w.handler = h.outer
-	return h.function.Call(ctx, w, UnevalList(cond))
+	value, err := h.function.Call(ctx, w, UnevalList(cond))
+	return value, signaled(err, h.outer)
+}
+
+// encloses reports whether other is h or one of the handlers outside of h.
+func (h *_Handler) encloses(other *_Handler) bool {
+	for ; h != nil; h = h.outer {
+		if h == other {
+			return true
+		}
+	}
+	return false
+}
+
+// _SignaledError is an error that some of the active handlers were already called for.
+type _SignaledError struct {
+	error
+	next *_Handler // the innermost of the handlers that are not called yet
+}
+
+func (e *_SignaledError) Unwrap() error {
+	return e.error
+}
+
+// signaled marks err as the one that no handler inside of next must be called for.
+func signaled(err error, next *_Handler) error {
+	if err == nil || isNonLocalExit(err) {
+		return err
+	}
+	var e *_SignaledError
+	if errors.As(err, &e) && (e.next == nil || next.encloses(e.next)) {
+		return err
+	}
+	return &_SignaledError{error: err, next: next}
 }
 
 type _ErrContinueCondition struct {
diff --git a/error.go b/error.go
index 9e99acb..f5f2327 100644
--- a/error.go
+++ b/error.go
@@ -144,9 +144,10 @@ func callHandler[T Node](ctx context.Context, w *World, cont bool, condition err
 				return v, nil
 			}
 		}
-		if e != nil && (isNonLocalExit(e) || ctx.Err() != nil) {
+		if e != nil {
 			return zero, e
 		}
+		return zero, signaled(condition, w.handler.outer)
 	}
 	return zero, condition
 }
-- 
2.43.0


From e6a656a4597141aeea42c11e3e7e86a8b4e1b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 71/88] fix: errors in ignore-errors were passed to the
 handlers established outside of it

---
 progn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/progn.go b/progn.go
index a19e788..7a5ca4b 100644
--- a/progn.go
+++ b/progn.go
@@ -470,6 +470,10 @@ mainloop:
 }
 
 func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
+	// the handlers established outside are not active in the forms
+	outer := w.handler
+	defer func() { w.handler = outer }()
+	w.handler = nil
 	val, err := Progn(ctx, w, n)
 	if err != nil {
 		if isNonLocalExit(err) {
-- 
2.43.0


From 1d0888c086aa20194121f94fa108986e37b26fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 72/88] fix: continue-condition was caught by ignore-errors and
 with-handler in handlers, and continued other conditions than its own

---
 cond.go  | 47 ++++++++++++++++++++++++++++++++++-------------
 error.go |  8 ++++----
 progn.go |  3 ++-
 world.go |  1 +
 4 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/cond.go b/cond.go
index a0cc6be..2001f35 100644
--- a/cond.go
+++ b/cond.go
@@ -61,13 +61,26 @@ type _Handler struct {
 	outer    *_Handler
 }
 
+// _Signal is an instance of a condition that a handler is called for.
+type _Signal struct {
+	cond  Node
+	outer *_Signal
+}
+
 // Call calls the handler function, in which the handler established before it is active.
-func (h *_Handler) Call(ctx context.Context, w *World, cond Node) (Node, error) {
-	current := w.handler
-	defer func() { w.handler = current }()
+// continued is true when the function has called (continue-condition) for cond.
+func (h *_Handler) Call(ctx context.Context, w *World, cond Node) (value Node, continued bool, err error) {
+	current, outerSignal := w.handler, w.signal
+	defer func() { w.handler, w.signal = current, outerSignal }()
 	w.handler = h.outer
-	value, err := h.function.Call(ctx, w, UnevalList(cond))
-	return value, signaled(err, h.outer)
+	signal := &_Signal{cond: cond, outer: outerSignal}
+	w.signal = signal
+	value, err = h.function.Call(ctx, w, UnevalList(cond))
+	var e *_ErrContinueCondition
+	if errors.As(err, &e) && e.signal == signal {
+		return e.Value, true, nil
+	}
+	return value, false, signaled(err, h.outer)
 }
 
 // encloses reports whether other is h or one of the handlers outside of h.
@@ -103,12 +116,16 @@ func signaled(err error, next *_Handler) error {
 }
 
 type _ErrContinueCondition struct {
-	Cond  Node
-	Value Node
+	signal *_Signal
+	Value  Node
 }
 
 func (e *_ErrContinueCondition) Error() string {
-	return "continue-condition failed for " + e.Value.String()
+	return errCanNotContinue(e.Value).Error()
+}
+
+func errCanNotContinue(value Node) error {
+	return errors.New("continue-condition failed for " + value.String())
 }
 
 var symReportCondition = NewSymbol("report-condition")
@@ -130,10 +147,9 @@ func funSignalCondition(ctx context.Context, w *World, cond, continueable Node)
 		}
 		return nil, errors.New(cond.String())
 	}
-	rv, err := w.handler.Call(ctx, w, cond)
-	var e *_ErrContinueCondition
-	if IsSome(continueable) && errors.As(err, &e) {
-		return e.Value, nil
+	rv, continued, err := w.handler.Call(ctx, w, cond)
+	if continued && IsNone(continueable) {
+		return nil, signaled(errCanNotContinue(rv), w.handler.outer)
 	}
 	return rv, err
 }
@@ -150,5 +166,10 @@ func cmdContinueCondition(ctx context.Context, w *World, node Node) (Node, error
 	if IsSome(node) {
 		return nil, ErrTooManyArguments
 	}
-	return nil, &_ErrContinueCondition{Cond: cond, Value: value}
+	for s := w.signal; s != nil; s = s.outer {
+		if identical(s.cond, cond) {
+			return nil, &_ErrContinueCondition{signal: s, Value: value}
+		}
+	}
+	return nil, errCanNotContinue(value)
 }
diff --git a/error.go b/error.go
index f5f2327..1bf6d8f 100644
--- a/error.go
+++ b/error.go
@@ -137,12 +137,12 @@ type errorAndNode interface {
 func callHandler[T Node](ctx context.Context, w *World, cont bool, condition errorAndNode) (T, error) {
 	var zero T
 	if w.handler != nil {
-		_, e := w.handler.Call(ctx, w, condition)
-		var ce *_ErrContinueCondition
-		if cont && errors.As(e, &ce) {
-			if v, ok := ce.Value.(T); ok {
+		value, continued, e := w.handler.Call(ctx, w, condition)
+		if continued {
+			if v, ok := value.(T); ok && cont {
 				return v, nil
 			}
+			return zero, signaled(errCanNotContinue(value), w.handler.outer)
 		}
 		if e != nil {
 			return zero, e
diff --git a/progn.go b/progn.go
index 7a5ca4b..9da94b2 100644
--- a/progn.go
+++ b/progn.go
@@ -379,7 +379,8 @@ func isNonLocalExit(err error) bool {
 	var e1 *_ErrEarlyReturns // block & return-from
 	var e2 *_ErrThrown       // catch & throw
 	var e3 *_ErrTagBody      // tagbody & go
-	return errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3)
+	var e4 *_ErrContinueCondition
+	return errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) || errors.As(err, &e4)
 }
 
 type _ErrTagBody struct {
diff --git a/world.go b/world.go
index 791c279..6a86093 100644
--- a/world.go
+++ b/world.go
@@ -101,6 +101,7 @@ type shared struct {
 	depth   int64 // the number of nested evaluations
 	macro   map[Symbol]*_Macro
 	handler *_Handler
+	signal  *_Signal
 	global  Scope
 	defun   FuncScope
 	dynamic Variables
-- 
2.43.0


From b20fee45ef10e964d44affb45bda0192c6f0f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:13 +0000
Subject: [PATCH 73/88] fix: mapping functions evaluated the value of their
 function argument once more

---
 sequence.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/sequence.go b/sequence.go
index 0748a4f..74016fe 100644
--- a/sequence.go
+++ b/sequence.go
@@ -132,11 +132,7 @@ func funLength(ctx context.Context, w *World, arg Node) (Node, error) {
 }
 
 func MapCar(ctx context.Context, w *World, funcNode Node, sourceSet []Node, store func(Node)) error {
-	f, err := w.Eval(ctx, funcNode)
-	if err != nil {
-		return err
-	}
-	_f, err := ExpectFunction(ctx, w, f)
+	_f, err := ExpectFunction(ctx, w, funcNode)
 	if err != nil {
 		return err
 	}
@@ -197,11 +193,7 @@ func listToQuotedList(list []Node) Node {
 }
 
 func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, store func(Node)) error {
-	f, err := w.Eval(ctx, funcNode)
-	if err != nil {
-		return err
-	}
-	_f, err := ExpectFunction(ctx, w, f)
+	_f, err := ExpectFunction(ctx, w, funcNode)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e9195036aa1d3802a00fc767606a1b5c343e46fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 74/88] fix: elt returned nil for objects that are no sequences

---
 sequence.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sequence.go b/sequence.go
index 74016fe..8ef60d5 100644
--- a/sequence.go
+++ b/sequence.go
@@ -104,6 +104,12 @@ func funElt(ctx context.Context, w *World, args []Node) (Node, error) {
 			}
 			continue
 		}
+		if IsSome(value) {
+			value, err = ExpectInterface[Sequence](ctx, w, value, listClass)
+			if err != nil {
+				return nil, err
+			}
+		}
 		if index < 0 {
 			return nil, MakeError(ErrIndexOutOfRange, index)
 		}
-- 
2.43.0


From 0ecc68531ed73fb2e4386d52017ca4f16ac96da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 75/88] fix: get-output-stream-string returned the text of any
 object

---
 io.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/io.go b/io.go
index 5c61e85..b28d66d 100644
--- a/io.go
+++ b/io.go
@@ -165,11 +165,11 @@ func funCreateStringOutputStream(ctx context.Context, w *World) (Node, error) {
 }
 
 func funGetOutputStreamString(ctx context.Context, w *World, arg Node) (Node, error) {
-	stringer, ok := arg.(fmt.Stringer) // expect StringBuilder
-	if !ok {
-		return nil, ErrNotSupportType
+	builder, err := ExpectClass[*StringBuilder](ctx, w, arg)
+	if err != nil {
+		return nil, err
 	}
-	return String(stringer.String()), nil
+	return String(builder.String()), nil
 }
 
 type inputStream struct {
-- 
2.43.0


From a65ddc175b2e2a82f20fae5fdbc3c2e8cdab295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 76/88] fix: calls of generic functions did not notice a
 cancelled context

---
 generic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generic.go b/generic.go
index eebd968..6aeffc9 100644
--- a/generic.go
+++ b/generic.go
@@ -139,6 +139,9 @@ func cmdDefGeneric(ctx context.Context, w *World, node Node) (Node, error) {
 }
 
 func (c *_Generic) Call(ctx context.Context, w *World, node Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		return nil, err
+	}
 	values := []Node{}
 	for IsSome(node) {
 		var v Node
-- 
2.43.0


From f4cb249421171d825a0438f18637380bfee2094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 77/88] fix: case-using evaluated its keys, and the predicate
 form once for each key

---
 embed/case-using.lsp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/embed/case-using.lsp b/embed/case-using.lsp
index 4665747..5f9e2c7 100644
--- a/embed/case-using.lsp
+++ b/embed/case-using.lsp
@@ -1,5 +1,5 @@
 (lambda-macro (predform keyform &rest body)
-  (let ((keyform_ (gensym)))
+  (let ((predform_ (gensym)) (keyform_ (gensym)))
     (setq body
           (mapcar
             (lambda (entry)
@@ -11,12 +11,12 @@
                       'or
                       (mapcar
                         (lambda (key1)
-                          (list 'funcall predform keyform_ key1))
+                          (list 'funcall predform_ keyform_ (list 'quote key1)))
                         (car entry))))
                       (cdr entry)))
                   ) body))
     (setq body (cons 'cond body))
-    (setq body `(let ((,keyform_ ,keyform)) ,body))
+    (setq body `(let* ((,predform_ ,predform) (,keyform_ ,keyform)) ,body))
     ;(format t "~s~%" body)
     ;body
     ))
-- 
2.43.0


From 49162d851a0c7d1dacfa3d89bd1b6d689735381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 78/88] fix: deeply nested text overflowed the stack of the
 reader and killed the process

---
 pkg/parser/main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index b9ac37f..abbc32c 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -26,11 +26,15 @@ var (
 	ErrTooManyArguments  = errors.New("too many arguments")
 	ErrCanNotParseNumber = errors.New("can not parse number")
 	ErrTooShortTokens    = errors.New("too short tokens")
+	ErrTooDeeplyNested   = errors.New("too deeply nested")
 )
 
 // maxArrayDimension is the maximum number of the dimensions of array literals
 const maxArrayDimension = 255
 
+// maxNest is the limit of nested forms, which keeps the stack of Go from overflowing.
+const maxNest = 200000
+
 type Factory[N comparable] interface {
 	Cons(car, cdr N) N
 	Int(int64) N
@@ -49,6 +53,7 @@ type _Parser[N comparable] struct {
 	Factory[N]
 
 	functionSymbol N
+	nest           int
 }
 
 func (p *_Parser[N]) nodes2cons(nodes []N, dot int) N {
@@ -236,6 +241,11 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 }
 
 func (p *_Parser[N]) tokenToNode(token string, rs io.RuneScanner) (N, error) {
+	p.nest++
+	defer func() { p.nest-- }()
+	if p.nest > maxNest {
+		return p.Null(), ErrTooDeeplyNested
+	}
 	if token == "`" {
 		quoted, err := p.ReadNode(rs)
 		if err != nil {
-- 
2.43.0


From 1fca1e768704a3fee9f07681008c4b72d60e2204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 79/88] fix: printing deeply nested values overflowed the stack
 and killed the process

---
 cons.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cons.go b/cons.go
index 61b9eba..1a19ee1 100644
--- a/cons.go
+++ b/cons.go
@@ -70,11 +70,30 @@ func (w *writeCounter) Result() (int, error) {
 	return w.n, w.err
 }
 
+// nestedWriter counts the nested values which are being printed to the writer.
+type nestedWriter struct {
+	io.Writer
+	depth int
+}
+
+func (w *nestedWriter) WriteString(s string) (int, error) {
+	return io.WriteString(w.Writer, s)
+}
+
 func tryPrintTo(w io.Writer, node Node, m PrintMode) (int, error) {
 	if p, ok := node.(interface {
 		PrintTo(io.Writer, PrintMode) (int, error)
 	}); ok {
-		return p.PrintTo(w, m)
+		nested, ok := w.(*nestedWriter)
+		if !ok {
+			nested = &nestedWriter{Writer: w}
+		}
+		nested.depth++
+		defer func() { nested.depth-- }()
+		if nested.depth > maxDepth {
+			return 0, StorageExhausted{}
+		}
+		return p.PrintTo(nested, m)
 	}
 	if m == PRINT {
 		if p, ok := node.(fmt.GoStringer); ok {
-- 
2.43.0


From ccac64c758428e651e726237a7f4b8046919eab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 80/88] fix: comparing and printing long lists overflowed the
 stack and killed the process

---
 cons.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/cons.go b/cons.go
index 1a19ee1..1d8c69b 100644
--- a/cons.go
+++ b/cons.go
@@ -46,13 +46,14 @@ func (cons *Cons) getCdr() Node {
 }
 
 func (cons *Cons) isTailNull() bool {
-	if IsNone(cons.Cdr) {
-		return true
-	} else if next, ok := cons.Cdr.(*Cons); ok {
-		return next.isTailNull()
-	} else {
-		return false
+	for IsSome(cons.Cdr) {
+		next, ok := cons.Cdr.(*Cons)
+		if !ok {
+			return false
+		}
+		cons = next
 	}
+	return true
 }
 
 type writeCounter struct {
@@ -192,8 +193,18 @@ func (cons *Cons) Equals(n Node, m EqlMode) bool {
 	if m == STRICT {
 		return cons == value
 	}
-	return cons.getCar().Equals(value.Car, m) &&
-		cons.getCdr().Equals(value.Cdr, m)
+	for cons.getCar().Equals(value.Car, m) {
+		next, ok := cons.getCdr().(*Cons)
+		if !ok {
+			return cons.getCdr().Equals(value.Cdr, m)
+		}
+		value, ok = value.Cdr.(*Cons)
+		if !ok {
+			return false
+		}
+		cons = next
+	}
+	return false
 }
 
 // maxDepth is the limit of nested evaluations, which keeps the stack of Go from overflowing.
-- 
2.43.0


From aeecca727749bd3145de0038cb62a2fbf7830207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 81/88] fix: quasiquote of long or deep values overflowed the
 stack and killed the process

---
 cmds.go | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/cmds.go b/cmds.go
index a0dd348..3102001 100644
--- a/cmds.go
+++ b/cmds.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"sync/atomic"
 )
 
 func cmdQuote(_ context.Context, _ *World, n Node) (Node, error) {
@@ -17,28 +18,40 @@ func cmdQuote(_ context.Context, _ *World, n Node) (Node, error) {
 }
 
 func quasiQuote(ctx context.Context, w *World, n Node) (Node, error) {
-	if cons, ok := n.(*Cons); ok {
+	depth := atomic.AddInt64(&w.depth, 1)
+	defer atomic.AddInt64(&w.depth, -1)
+	if depth > maxDepth {
+		return nil, StorageExhausted{}
+	}
+	var root Cons
+	last := &root
+	for {
+		cons, ok := n.(*Cons)
+		if !ok {
+			last.Cdr = n
+			return root.Cdr, nil
+		}
 		if cons.Car == symUnquote {
-			if cdrCons, ok := cons.Cdr.(*Cons); ok {
-				newCar, err := w.Eval(ctx, cdrCons.Car)
-				if err != nil {
-					return nil, err
-				}
-				return newCar, nil //&Cons{Car: newCar, Cdr: newCdr}, nil
+			form := cons.Cdr
+			if cdrCons, ok := form.(*Cons); ok {
+				form = cdrCons.Car
+			}
+			value, err := w.Eval(ctx, form)
+			if err != nil {
+				return nil, err
 			}
-			return w.Eval(ctx, cons.Cdr)
+			last.Cdr = value
+			return root.Cdr, nil
 		}
 		newCar, err := quasiQuote(ctx, w, cons.Car)
 		if err != nil {
 			return nil, err
 		}
-		newCdr, err := quasiQuote(ctx, w, cons.Cdr)
-		if err != nil {
-			return nil, err
-		}
-		return &Cons{Car: newCar, Cdr: newCdr}, nil
+		next := &Cons{Car: newCar}
+		last.Cdr = next
+		last = next
+		n = cons.Cdr
 	}
-	return n, nil
 }
 
 func cmdQuasiQuote(ctx context.Context, w *World, n Node) (Node, error) {
-- 
2.43.0


From c505d06ee83d7451cfdda02aa98e64d9bf3a209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:57 +0000
Subject: [PATCH 82/88] fix: World.Range went on in the outer scopes after its
 function had asked it to stop

---
 world.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/world.go b/world.go
index 6a86093..56b311b 100644
--- a/world.go
+++ b/world.go
@@ -639,13 +639,15 @@ func (w *World) Assert(equation string, expect Node) string {
 
 func (w *World) Range(f func(Symbol, Node) bool) {
 	marked := map[Symbol]struct{}{}
-	for ; w != nil; w = w.parent {
+	stop := false
+	for ; w != nil && !stop; w = w.parent {
 		if w.vars == nil {
 			continue
 		}
 		w.vars.Range(func(key Symbol, val Node) bool {
 			if _, ok := marked[key]; !ok {
 				if !f(key, val) {
+					stop = true
 					return false
 				}
 				marked[key] = struct{}{}
-- 
2.43.0


From 7429a477b74345111fca89b1c21c08c64891315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:58 +0000
Subject: [PATCH 83/88] fix: create went on after an initarg that is not a
 symbol and swallowed the exit of the handler

---
 class.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/class.go b/class.go
index 306f49d..784d5a5 100644
--- a/class.go
+++ b/class.go
@@ -536,8 +536,8 @@ func defaultInitializeObject(ctx context.Context, w *World, args []Node) (Node,
 		var _initArg Node
 		_initArg, args = args[0], args[1:]
 		initArg, err := ExpectSymbol(ctx, w, _initArg)
-		if !ok {
-			return nil, fmt.Errorf("defaultInitializeObject: initArg: %w: %v", err, _initArg)
+		if err != nil {
+			return nil, err
 		}
 		if len(args) <= 0 {
 			return nil, ErrTooFewArguments
-- 
2.43.0


From 264090bbb6d85452fd103e19233658a7eca62f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 84/88] fix: initforms were evaluated, initargs found and slots
 printed in random order

---
 class.go | 98 +++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 58 insertions(+), 40 deletions(-)

diff --git a/class.go b/class.go
index 784d5a5..baf1a14 100644
--- a/class.go
+++ b/class.go
@@ -166,6 +166,23 @@ type _StandardClass struct {
 	Symbol Symbol
 	Super  []Class
 	Slot   map[Symbol]*_SlotSpec
+	slots  []Symbol // the keys of Slot in the order of the definition
+}
+
+// eachSlot calls f for the slots of c and of its superclasses in the order of
+// the definitions until f returns false.
+func (c *_StandardClass) eachSlot(f func(Symbol, *_SlotSpec) bool) bool {
+	for _, name := range c.slots {
+		if !f(name, c.Slot[name]) {
+			return false
+		}
+	}
+	for _, super := range c.Super {
+		if uc, ok := super.(*_StandardClass); ok && !uc.eachSlot(f) {
+			return false
+		}
+	}
+	return true
 }
 
 // standardClass can not be created with registerNewBuilInClass
@@ -321,6 +338,9 @@ func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 		if err != nil {
 			return nil, fmt.Errorf("[3][%d] %w", slotCount, err)
 		}
+		if _, ok := class.Slot[spec.identifier]; !ok {
+			class.slots = append(class.slots, spec.identifier)
+		}
 		class.Slot[spec.identifier] = spec
 
 		getter := newGetter(class, spec.identifier)
@@ -400,31 +420,43 @@ func (c *_StandardObject) PrintTo(w io.Writer, mode PrintMode) (int, error) {
 	if err != nil {
 		return n, err
 	}
-	delim := []byte{'{'}
-	for key, val := range c.Slot {
-		n1, err := w.Write(delim)
-		n += n1
-		if err != nil {
-			return n, err
+	n1, err := io.WriteString(w, "{")
+	n += n1
+	if err != nil {
+		return n, err
+	}
+	printed := map[Symbol]struct{}{}
+	c._StandardClass.eachSlot(func(key Symbol, _ *_SlotSpec) bool {
+		val, ok := c.Slot[key]
+		if _, done := printed[key]; !ok || done {
+			return true
+		}
+		if len(printed) > 0 {
+			n1, err = io.WriteString(w, ",")
+			n += n1
+			if err != nil {
+				return false
+			}
 		}
+		printed[key] = struct{}{}
 		n1, err = tryPrintTo(w, key, mode)
 		n += n1
 		if err != nil {
-			return n, err
+			return false
 		}
-		n1, err = w.Write([]byte{':'})
+		n1, err = io.WriteString(w, ":")
 		n += n1
 		if err != nil {
-			return n, err
+			return false
 		}
 		n1, err = tryPrintTo(w, val, mode)
 		n += n1
-		if err != nil {
-			return n, err
-		}
-		delim = []byte{','}
+		return err == nil
+	})
+	if err != nil {
+		return n, err
 	}
-	n1, err := io.WriteString(w, "}")
+	n1, err = io.WriteString(w, "}")
 	n += n1
 	return n, err
 }
@@ -441,43 +473,29 @@ func (c *_StandardObject) GoString() string {
 	return buffer.String()
 }
 
-func (reciever *_StandardObject) callInitForm(ctx context.Context, classDef *_StandardClass) error {
-	for name, slot1 := range classDef.Slot {
+func (reciever *_StandardObject) callInitForm(ctx context.Context, classDef *_StandardClass) (err error) {
+	classDef.eachSlot(func(name Symbol, slot1 *_SlotSpec) bool {
 		if _, ok := reciever.Slot[name]; !ok && slot1.evalInit != nil {
-			value, err := slot1.evalInit(ctx)
-			if err != nil {
-				return err
+			var value Node
+			if value, err = slot1.evalInit(ctx); err == nil {
+				reciever.Slot[name] = value
 			}
-			reciever.Slot[name] = value
 		}
-	}
-	for _, super := range classDef.Super {
-		if uc, ok := super.(*_StandardClass); ok {
-			if err := reciever.callInitForm(ctx, uc); err != nil {
-				return err
-			}
-		}
-	}
-	return nil
+		return err == nil
+	})
+	return err
 }
 
 func (reciever *_StandardObject) callInitArg(classDef *_StandardClass, initArg Symbol, initVal Node) bool {
-	for name, slot := range classDef.Slot {
+	return !classDef.eachSlot(func(name Symbol, slot *_SlotSpec) bool {
 		for _, slotInitArg := range slot.initarg {
 			if slotInitArg == initArg {
 				reciever.Slot[name] = initVal
-				return true
+				return false
 			}
 		}
-	}
-	for _, super := range classDef.Super {
-		if superUc, ok := super.(*_StandardClass); ok {
-			if reciever.callInitArg(superUc, initArg, initVal) {
-				return true
-			}
-		}
-	}
-	return false
+		return true
+	})
 }
 
 type Uneval struct {
-- 
2.43.0


From c83085b94d1998faad35a81b8767eb40e3f903a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:35 +0000
Subject: [PATCH 85/88] fix: hash tables were printed in random order and an
 empty one as }

---
 hash.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/hash.go b/hash.go
index 645cacd..6bc6de2 100644
--- a/hash.go
+++ b/hash.go
@@ -2,8 +2,8 @@ package gmnlisp
 
 import (
 	"context"
-	"fmt"
 	"io"
+	"sort"
 	"strings"
 )
 
@@ -15,12 +15,24 @@ func (h _Hash) Equals(other Node, mode EqlMode) bool {
 
 func (h _Hash) PrintTo(w io.Writer, mode PrintMode) (int, error) {
 	var wc writeCounter
-	dem := '{'
-	for key, val := range h {
-		if wc.Try(fmt.Fprintf(w, "%c%#v:%#v", dem, key, val)) {
+	keys := make([]Node, 0, len(h))
+	texts := make(map[Node]string, len(h))
+	for key := range h {
+		var buffer strings.Builder
+		tryPrintTo(&buffer, key, PRINT)
+		keys = append(keys, key)
+		texts[key] = buffer.String()
+	}
+	sort.Slice(keys, func(i, j int) bool { return texts[keys[i]] < texts[keys[j]] })
+	if wc.Try(io.WriteString(w, "{")) {
+		return wc.Result()
+	}
+	dem := ""
+	for _, key := range keys {
+		if wc.Try(io.WriteString(w, dem+texts[key]+":")) || wc.Try(tryPrintTo(w, h[key], PRINT)) {
 			return wc.Result()
 		}
-		dem = ','
+		dem = ","
 	}
 	wc.Try(w.Write([]byte{'}'}))
 	return wc.Result()
-- 
2.43.0


From b54bbcfc9123ebd3253ea4fa2ab130f45f912320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 86/88] fix: comparing values nested millions deep overflowed
 the stack and killed the process

---
 array.go | 10 ++++++----
 class.go |  7 ++++++-
 cons.go  | 36 +++++++++++++++++++++++++++++-------
 3 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/array.go b/array.go
index 074eac7..2873e6d 100644
--- a/array.go
+++ b/array.go
@@ -101,7 +101,11 @@ func (t Array) GoString() string {
 	return buffer.String()
 }
 
-func (A *Array) Equals(_B Node, mode EqlMode) bool {
+func (A *Array) Equals(B Node, mode EqlMode) bool {
+	return equalNodes(A, B, mode)
+}
+
+func (A *Array) equalParts(_B Node, mode EqlMode, parts *[]nodePair) bool {
 	B, ok := _B.(*Array)
 	if !ok {
 		return false
@@ -121,9 +125,7 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 		return false
 	}
 	for i, v := range A.list {
-		if !v.Equals(B.list[i], mode) {
-			return false
-		}
+		*parts = append(*parts, nodePair{v, B.list[i]})
 	}
 	return true
 }
diff --git a/class.go b/class.go
index baf1a14..d910518 100644
--- a/class.go
+++ b/class.go
@@ -389,6 +389,10 @@ type _StandardObject struct {
 }
 
 func (r *_StandardObject) Equals(o Node, m EqlMode) bool {
+	return equalNodes(r, o, m)
+}
+
+func (r *_StandardObject) equalParts(o Node, m EqlMode, parts *[]nodePair) bool {
 	other, ok := o.(*_StandardObject)
 	if !ok {
 		return false
@@ -404,9 +408,10 @@ func (r *_StandardObject) Equals(o Node, m EqlMode) bool {
 	}
 	for key, val := range r.Slot {
 		otherVal, ok := other.Slot[key]
-		if !ok || !val.Equals(otherVal, m) {
+		if !ok {
 			return false
 		}
+		*parts = append(*parts, nodePair{val, otherVal})
 	}
 	return true
 }
diff --git a/cons.go b/cons.go
index 1d8c69b..4c637a1 100644
--- a/cons.go
+++ b/cons.go
@@ -186,6 +186,10 @@ func (t Cons) GoString() string {
 }
 
 func (cons *Cons) Equals(n Node, m EqlMode) bool {
+	return equalNodes(cons, n, m)
+}
+
+func (cons *Cons) equalParts(n Node, m EqlMode, parts *[]nodePair) bool {
 	value, ok := n.(*Cons)
 	if !ok {
 		return false
@@ -193,18 +197,36 @@ func (cons *Cons) Equals(n Node, m EqlMode) bool {
 	if m == STRICT {
 		return cons == value
 	}
-	for cons.getCar().Equals(value.Car, m) {
-		next, ok := cons.getCdr().(*Cons)
-		if !ok {
-			return cons.getCdr().Equals(value.Cdr, m)
+	*parts = append(*parts,
+		nodePair{cons.getCdr(), value.Cdr},
+		nodePair{cons.getCar(), value.Car})
+	return true
+}
+
+type nodePair struct {
+	left, right Node
+}
+
+// equalNodes compares two nodes and what they hold. It keeps the parts left to compare
+// in a list instead of the stack of Go, which deeply nested nodes would overflow.
+func equalNodes(left, right Node, m EqlMode) bool {
+	parts := []nodePair{{left, right}}
+	for len(parts) > 0 {
+		p := parts[len(parts)-1]
+		parts = parts[:len(parts)-1]
+		composite, ok := p.left.(interface {
+			equalParts(Node, EqlMode, *[]nodePair) bool
+		})
+		if ok {
+			ok = composite.equalParts(p.right, m, &parts)
+		} else {
+			ok = p.left.Equals(p.right, m)
 		}
-		value, ok = value.Cdr.(*Cons)
 		if !ok {
 			return false
 		}
-		cons = next
 	}
-	return false
+	return true
 }
 
 // maxDepth is the limit of nested evaluations, which keeps the stack of Go from overflowing.
-- 
2.43.0


From f7e1c3e0fa097a5c2e80a367559e19a44f358815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:35 +0000
Subject: [PATCH 87/88] fix: subst of long or deep lists overflowed the stack
 and killed the process

---
 pkg/subst/main.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/pkg/subst/main.go b/pkg/subst/main.go
index 2a58497..84b87ca 100644
--- a/pkg/subst/main.go
+++ b/pkg/subst/main.go
@@ -10,21 +10,35 @@ func init() {
 	Export(NewSymbol("subst"), &Function{C: 3, F: funSubst})
 }
 
-func subst(newItem, oldItem, list Node) Node {
-	if list.Equals(oldItem, STRICT) {
-		return newItem
+// maxDepth is the limit of nested lists, which keeps the stack of Go from overflowing.
+const maxDepth = 200000
+
+func subst(newItem, oldItem, list Node, depth int) (Node, error) {
+	if depth > maxDepth {
+		return nil, StorageExhausted{}
 	}
-	cons, ok := list.(*Cons)
-	if ok {
-		return &Cons{
-			Car: subst(newItem, oldItem, cons.Car),
-			Cdr: subst(newItem, oldItem, cons.Cdr),
+	var result Node
+	last := &result
+	for !list.Equals(oldItem, STRICT) {
+		cons, ok := list.(*Cons)
+		if !ok {
+			*last = list
+			return result, nil
+		}
+		car, err := subst(newItem, oldItem, cons.Car, depth+1)
+		if err != nil {
+			return nil, err
 		}
+		copied := &Cons{Car: car}
+		*last = copied
+		last = &copied.Cdr
+		list = cons.Cdr
 	}
-	return list
+	*last = newItem
+	return result, nil
 }
 
 // funSubst implements (subst NEWITEM OLDITEM LIST)
 func funSubst(_ context.Context, _ *World, argv []Node) (Node, error) {
-	return subst(argv[0], argv[1], argv[2]), nil
+	return subst(argv[0], argv[1], argv[2], 0)
 }
-- 
2.43.0


From 91559a5f733b97b2e8f40132fa07bbe4e225519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:34 +0000
Subject: [PATCH 88/88] fix: expand-defun left out the rest parameter

---
 lambda.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambda.go b/lambda.go
index 3e4a8bb..446d96e 100644
--- a/lambda.go
+++ b/lambda.go
@@ -715,6 +715,9 @@ func cmdExpandDefun(ctx context.Context, w *World, n Node) (Node, error) {
 		return nil, &_UndefinedEntity{name: symbol, space: symFunction}
 	}
 	var param Node
+	if f.rest != nulSymbol {
+		param = &Cons{Car: ampRest, Cdr: &Cons{Car: f.rest, Cdr: Null}}
+	}
 	for i := len(f.param) - 1; i >= 0; i-- {
 		param = &Cons{Car: f.param[i], Cdr: param}
 	}
-- 
2.43.0

