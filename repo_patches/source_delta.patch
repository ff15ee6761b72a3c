From 612cd0f77f85b98fc68e1a532863cb6b34bedcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 01/24] fix: do not run a loop body for a null candidate when
 there are no candidates

---
 mach/run.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index 1a1d3e7..9edb22a 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -542,7 +542,14 @@ func looptop(vm *machine, producer func(chan<- JSON, []JSON), epc int) {
 	vm.pushInput(values)
 	go producer(values, vm.out)
 	vm.out = []JSON{}
-	vm.dot = <-values
+	js, more := <-values
+	if !more {
+		// no candidates at all (eg, only scalars or empty structures): skip the loop body
+		vm.popInput()
+		vm.branch(epc)
+		return
+	}
+	vm.dot = js
 }
 
 // sliceEval returns an interpretation of the given Slice with respect to an array of length l.
-- 
2.43.0


From 7a64441c7f178f9efad93e77577b561bc5de8f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 02/24] fix: a slice applied to a non-array must not discard
 values already selected

---
 mach/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index 9edb22a..789a772 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -724,7 +724,7 @@ func valsByKey(vals []JSON, src JSON, key JSON, negIndex bool) []JSON {
 	if isSlice(key) {
 		src, ok := src.([]JSON)
 		if !ok {
-			return nil
+			return vals
 		}
 		slice := key.(*paths.Slice)
 		start, end, stride := sliceEval(slice, int64(len(src)))
-- 
2.43.0


From a60413a50ad620bd916d82ad75396fb6d3b80165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 03/24] fix: avoid index overflow (and panic) with a huge slice
 stride

---
 mach/run.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index 789a772..77c6465 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -559,6 +559,10 @@ func sliceEval(slice *paths.Slice, l int64) (int64, int64, int64) {
 	stride := int64(1)
 	if slice.Stride != nil {
 		stride = cvi(slice.Stride)
+		if stride > l {
+			// selects at most one element, as would l+1, which can't overflow when added to an index
+			stride = l + 1
+		}
 	}
 	start := int64(0)
 	end := int64(l)
-- 
2.43.0


From 9d71ad92b86bb228061f94acae47918b8974c874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:09 +0000
Subject: [PATCH 04/24] fix: do not leave a producer goroutine blocked after a
 run-time error

---
 mach/run.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index 77c6465..4befa5e 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -89,6 +89,15 @@ func (m *machine) popInput() {
 	m.values = m.values[0 : len(m.values)-1]
 }
 
+// drainInputs consumes any values left when a run-time error stops a loop early,
+// so that the producer can finish, instead of being blocked forever.
+func (m *machine) drainInputs() {
+	for _, c := range m.values {
+		for range c {
+		}
+	}
+}
+
 // nothing represents an evaluation without a usable result.
 // Any error will do.
 // ("nothing is better than Advil")
@@ -125,6 +134,7 @@ func (m *machine) valsOK(a, b JSON) bool {
 // Following the usual JavaScript conventions, many other errors do not stop evaluation, but yield a null result, detectable using || and &&.
 func (p *Program) Run(root JSON) ([]JSON, error) {
 	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
+	defer vm.drainInputs()
 	for vm.pc < len(p.orders) {
 		ord := p.orders[vm.pc]
 		vm.pc++
-- 
2.43.0


From 46c22cdb009b3cd453980bc5e59277d175d5f224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 05/24] fix: objects with different member names are not equal,
 even if a value is null

---
 mach/json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mach/json.go b/mach/json.go
index 42740c6..0ff8169 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -247,7 +247,8 @@ func eqVal(a, b JSON) bool {
 				return false
 			}
 			for k, v := range a {
-				if !eqVal(v, b[k]) {
+				bv, ok := b[k]
+				if !ok || !eqVal(v, bv) {
 					return false
 				}
 			}
-- 
2.43.0


From 3c846e3b58659d64727a7637d112fb3931d9137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 06/24] fix: compare an integer with a numeric string as
 numbers, not by truncating the string

---
 mach/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/json.go b/mach/json.go
index 0ff8169..482663d 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -134,7 +134,7 @@ func badNum(s string, fp bool) bool {
 
 // eqNum returns true if numeric values a and b are equal
 func eqNum(a, b JSON) bool {
-	if isFloat(a) || isFloat(b) {
+	if isFloat(a) || isFloat(b) || isString(a) || isString(b) {
 		var zero float64
 		va := cvf(a)
 		vb := cvf(b)
-- 
2.43.0


From 77021721d0dfef893c2cf37bbbaed27e1af43603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 07/24] fix: a one-element array equals a number or boolean
 only if its element does

---
 mach/json.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mach/json.go b/mach/json.go
index 482663d..0ee6cdf 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -95,6 +95,9 @@ func eqArrayS(a []JSON, b string) bool {
 	case 0:
 		return b == ""
 	case 1:
+		if a[0] == nil {
+			return b == "" // [null] is an empty string
+		}
 		return cvs(a[0]) == b
 	default:
 		return false
@@ -108,7 +111,10 @@ func eqArrayN(a []JSON, b JSON) bool {
 	case 0:
 		return eqNum(b, 0.0)
 	case 1:
-		return eqNum(a[0], b)
+		if a[0] == nil {
+			return eqNum(b, 0.0) // [null] is an empty string
+		}
+		return eqVal(a[0], b)
 	default:
 		return false
 	}
@@ -187,12 +193,12 @@ func eqVal(a, b JSON) bool {
 			// 11.9.3(6) [a == ToNumber(b)]
 			a, ok := a.([]JSON)
 			b := cvi(b)
-			return ok && (b == 0 && len(a) == 0 || len(a) == 1 && cvi(a[0]) == b)
+			return ok && eqArrayN(a, b)
 		case Boolean<<8 | Object:
 			// 11.9.3(7) [ToNumber(a) == b]
 			b, ok := b.([]JSON)
 			a := cvi(a)
-			return ok && (a == 0 && len(b) == 0 || len(b) == 1 && cvi(b[0]) == a)
+			return ok && eqArrayN(b, a)
 		case String<<8 | Object, Object<<8 | String:
 			// 11.9.3(8), 11.9.3(9)
 			// note only one can be an Object, and only when that's an array can == be true
-- 
2.43.0


From dead9d3582e8114770cd81e5121e7c6518dd55f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 08/24] fix: max of strings returned the minimum

---
 mach/fns.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/fns.go b/mach/fns.go
index 21280ba..03542b0 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -350,7 +350,7 @@ func minString(index int, min, el string) string {
 }
 
 func maxString(index int, max, el string) string {
-	if index == 0 || el < max {
+	if index == 0 || el > max {
 		return el
 	}
 	return max
-- 
2.43.0


From 687c0e9a200166ea1869505abbc57ec19bbd71ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:18 +0000
Subject: [PATCH 09/24] fix: avg of an empty array is null, not NaN

---
 mach/fns.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mach/fns.go b/mach/fns.go
index 03542b0..251561e 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -52,6 +52,9 @@ var functions = map[string]Function{
 		1,
 		func(args []JSON) JSON {
 			if a, ok := args[0].([]JSON); ok {
+				if len(a) == 0 {
+					return nil
+				}
 				var sum float64
 				for _, v := range a {
 					if !isArith(v) {
-- 
2.43.0


From 07936dae81ce3d4e4053cacbdb9fce7ac40c519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 10/24] fix: a computed array index taken from a JSON number
 was ignored

---
 mach/run.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mach/run.go b/mach/run.go
index 4befa5e..5f656a9 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -758,8 +758,8 @@ func valsByKey(vals []JSON, src JSON, key JSON, negIndex bool) []JSON {
 	}
 	switch src := src.(type) {
 	case []JSON:
-		if isInt(key) {
-			// [integer]
+		if isInt(key) || isFloat(key) {
+			// [integer], or numeric (expr)
 			v, ok := valByKey(src, key, negIndex)
 			if ok {
 				vals = append(vals, v)
-- 
2.43.0


From 6dd564ae4461664ec7fd5c0170d08ff47f5cffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:22 +0000
Subject: [PATCH 11/24] fix: indexing an array by a non-numeric string or other
 value yields nothing, not element 0

---
 mach/run.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index 5f656a9..9bae601 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"math"
 	"regexp"
+	"strconv"
 	"unicode/utf8"
 
 	"github.com/forsyth/jsonpath/paths"
@@ -300,6 +301,14 @@ func (p *Program) Run(root JSON) ([]JSON, error) {
 			}
 			switch val := val.(type) {
 			case []JSON:
+				if !isArith(index) {
+					// only a string that's an integer can be converted
+					s, ok := index.(string)
+					if _, err := strconv.ParseInt(s, 10, 64); !ok || err != nil {
+						vm.push(nothing)
+						break
+					}
+				}
 				sel := cvi(index) // can be only int, or convertible
 				l := int64(len(val))
 				if sel < 0 {
-- 
2.43.0


From ed30a22598efa6dbd82aec87a14ff7f5acd9e631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 12/24] fix: negating a string negates its numeric value, which
 is NaN if it is not a number

---
 mach/run.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index 9bae601..555c6f6 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -413,6 +413,8 @@ func (p *Program) Run(root JSON) ([]JSON, error) {
 			switch v.(type) {
 			case float64:
 				vm.push(-v.(float64))
+			case string:
+				vm.push(-cvf(v))
 			default:
 				vm.push(-cvi(v))
 			}
-- 
2.43.0


From f74606ec1a709ba4a427d5a83b2f0c7154f9f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 13/24] fix: a string ending with an escaped quote at end of
 input is unclosed

---
 paths/lex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paths/lex.go b/paths/lex.go
index aebc49f..718691b 100644
--- a/paths/lex.go
+++ b/paths/lex.go
@@ -200,6 +200,10 @@ func (l *lexer) lexString(cq int) (string, error) {
 				}
 				s.WriteRune(rv)
 			}
+			if c == eof {
+				// nothing to put back
+				return s.String(), ErrUnclosedString
+			}
 			r.unget()
 			if surr != 0 {
 				// surrogate prefix without successor
-- 
2.43.0


From 6f12438e6d97269f9d36f6196e99a4f0f36c8ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 14/24] fix: a surrogate following an unpaired surrogate can
 still start a pair, as in JSON

---
 paths/lex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paths/lex.go b/paths/lex.go
index 718691b..7ec1baf 100644
--- a/paths/lex.go
+++ b/paths/lex.go
@@ -194,6 +194,11 @@ func (l *lexer) lexString(cq int) (string, error) {
 						continue
 					}
 					// invalid surrogate pair: already produced ReplacementChar
+					if utf16.IsSurrogate(rv) {
+						// as for JSON, it might itself start a pair
+						surr = rv
+						continue
+					}
 				} else if utf16.IsSurrogate(rv) {
 					surr = rv
 					continue
-- 
2.43.0


From feaa90e1282e472501d2ce41d76a91fee4c0fc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 15/24] fix: reject a program too big for its branch and
 operand fields, instead of panic in Eval

---
 mach/coder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mach/coder.go b/mach/coder.go
index 327e308..b8777b7 100644
--- a/mach/coder.go
+++ b/mach/coder.go
@@ -8,7 +8,8 @@ import (
 )
 
 var (
-	ErrTooManyVals = errors.New("program has too many values")
+	ErrTooManyVals   = errors.New("program has too many values")
+	ErrTooManyOrders = errors.New("program has too many orders")
 )
 
 // builder is the state when building a program
@@ -49,6 +50,10 @@ func Compile(path paths.Path) (*Program, error) {
 			}
 		}
 	}
+	if prog.size() >= indexTop {
+		// pc values and operand counts must fit an order
+		return nil, ErrTooManyOrders
+	}
 	return prog, nil
 }
 
-- 
2.43.0


From 605a511d5a8bfac80dccd44f7cc4933276d282e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 16/24] fix: limit expression nesting, to give an error instead
 of exhausting the stack

---
 paths/lexexpr.go   | 1 +
 paths/parseexpr.go | 5 +++++
 paths/parser.go    | 8 ++++++--
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/paths/lexexpr.go b/paths/lexexpr.go
index e3b9f44..9b502ae 100644
--- a/paths/lexexpr.go
+++ b/paths/lexexpr.go
@@ -7,6 +7,7 @@ import (
 
 var (
 	ErrUnclosedRE = errors.New("unclosed regular expression literal")
+	ErrNesting    = errors.New("expression is too deeply nested")
 )
 
 // lexExpr returns the next token and an optional associated value (eg, int or string), or an error.
diff --git a/paths/parseexpr.go b/paths/parseexpr.go
index 4e49af8..6c5964c 100644
--- a/paths/parseexpr.go
+++ b/paths/parseexpr.go
@@ -186,6 +186,11 @@ func (p *parser) parseExprList(list []Expr) ([]Expr, error) {
 
 // primary1 ::= identifier | integer | real | string | "/" re "/" | "@" | "$" | "(" expr ")" | "[" e-list "]" | "-" primary1 | "!" primary1
 func (p *parser) primary1() (Expr, error) {
+	p.depth++
+	defer func() { p.depth-- }()
+	if p.depth > maxDepth {
+		return nil, ErrNesting
+	}
 	lx := p.lexExpr()
 	if lx.err != nil {
 		return nil, lx.err
diff --git a/paths/parser.go b/paths/parser.go
index 56baec5..be3306a 100644
--- a/paths/parser.go
+++ b/paths/parser.go
@@ -6,12 +6,16 @@ import "fmt"
 // (all of which is currently in the lexer), and provides a scope for the
 // parsing methods.
 type parser struct {
-	*lexer // source of tokens
+	*lexer     // source of tokens
+	depth  int // current nesting of expression terms
 }
 
+// maxDepth limits the nesting of expression terms, since the parser is recursive (it's the limit used by encoding/json).
+const maxDepth = 10000
+
 // newParser initialises and returns a parser.
 func newParser(s string) *parser {
-	return &parser{newLexer(&rd{s: s})}
+	return &parser{lexer: newLexer(&rd{s: s})}
 }
 
 func (p *parser) expect(lex func() lexeme, nt token) error {
-- 
2.43.0


From 6e381b596e50191e638d19c9647748c38a6c58f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:32 +0000
Subject: [PATCH 17/24] fix: jpath reports failure to write its buffered output

---
 cmd/jpath/jpath.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/jpath/jpath.go b/cmd/jpath/jpath.go
index 601cd9e..f7f9b3d 100644
--- a/cmd/jpath/jpath.go
+++ b/cmd/jpath/jpath.go
@@ -57,6 +57,9 @@ func main() {
 			errorf("%s", err.Error())
 		}
 	}
+	if err := stdout.Flush(); err != nil {
+		errorf("write error: %s", err.Error())
+	}
 }
 
 func quote(s string) string {
-- 
2.43.0


From ee543a74866b8681274b7467bf1e1b0020c0ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:33 +0000
Subject: [PATCH 18/24] fix: jpath -l accepts lines longer than 64k

---
 cmd/jpath/jpath.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/jpath/jpath.go b/cmd/jpath/jpath.go
index f7f9b3d..5a3f762 100644
--- a/cmd/jpath/jpath.go
+++ b/cmd/jpath/jpath.go
@@ -7,6 +7,7 @@ import (
 	"flag"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 
@@ -99,6 +100,7 @@ func readValues(fd *os.File, jpath *jsonpath.JSONPath, enc *json.Encoder) error
 func readLines(fd *os.File, jpath *jsonpath.JSONPath, enc *json.Encoder) error {
 	input := bufio.NewScanner(fd)
 	input.Split(bufio.ScanLines)
+	input.Buffer(nil, math.MaxInt) // a JSON value on one line can be long
 	for lno := 1; input.Scan(); lno++ {
 		var root interface{}
 		err := json.Unmarshal(input.Bytes(), &root)
-- 
2.43.0


From 08f8a0cc81864c0313a210c75dcd7c7ca9e9412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 19/24] fix: count nested subscripts and calls in the limit on
 expression nesting

---
 paths/parseexpr.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/paths/parseexpr.go b/paths/parseexpr.go
index 6c5964c..794e321 100644
--- a/paths/parseexpr.go
+++ b/paths/parseexpr.go
@@ -103,6 +103,11 @@ func (p *parser) unary(op Op) (Expr, error) {
 
 // primary ::= primary1 ("(" e-list ")" | "[" e "]" | "." identifier)*
 func (p *parser) primary() (Expr, error) {
+	p.depth++
+	defer func() { p.depth-- }()
+	if p.depth > maxDepth {
+		return nil, ErrNesting
+	}
 	e, err := p.primary1()
 	if err != nil {
 		return nil, err
@@ -186,11 +191,6 @@ func (p *parser) parseExprList(list []Expr) ([]Expr, error) {
 
 // primary1 ::= identifier | integer | real | string | "/" re "/" | "@" | "$" | "(" expr ")" | "[" e-list "]" | "-" primary1 | "!" primary1
 func (p *parser) primary1() (Expr, error) {
-	p.depth++
-	defer func() { p.depth-- }()
-	if p.depth > maxDepth {
-		return nil, ErrNesting
-	}
 	lx := p.lexExpr()
 	if lx.err != nil {
 		return nil, lx.err
-- 
2.43.0


From 1f483200dd2ce798ce50e1fc7261739f6601a482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 20/24] fix: a very long chain of operators is an error instead
 of exhausting the stack

---
 mach/coder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mach/coder.go b/mach/coder.go
index b8777b7..2ba0f18 100644
--- a/mach/coder.go
+++ b/mach/coder.go
@@ -16,6 +16,7 @@ var (
 type builder struct {
 	vals map[paths.Val]uint32 // map value to its index in prog.vals
 	prog *Program
+	deep int // current depth in an expression tree
 }
 
 // Compile compiles a Path into a Program for a small abstract machine that evaluates paths and expressions.
@@ -123,6 +124,11 @@ func (b *builder) codeExpr(expr paths.Expr) error {
 		return b.codeLeaf(expr)
 	}
 	t := expr.(*paths.Inner)
+	b.deep++
+	if b.deep >= indexTop/2 {
+		// a long chain of binary operators has two orders for each level, and the stack is limited
+		return ErrTooManyOrders
+	}
 	for _, k := range t.Kids {
 		err := b.codeExpr(k)
 		if err != nil {
@@ -130,6 +136,7 @@ func (b *builder) codeExpr(expr paths.Expr) error {
 		}
 	}
 	b.prog.asm(mkSmall(t.Op, len(t.Kids)))
+	b.deep--
 	return nil
 }
 
-- 
2.43.0


From 1069fe2c9e682beb69fd0bc86878e11a4cd02b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 21/24] fix: compare a one-element array with a string by its
 JavaScript string value

[1000000] == '1000000' was false because the number was written in Go's format,
[[1]] == '1' was false because the inner array was not converted,
and an array holding a missing value did not count as an empty string.
---
 mach/json.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/mach/json.go b/mach/json.go
index 0ee6cdf..baaffc4 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -95,15 +95,37 @@ func eqArrayS(a []JSON, b string) bool {
 	case 0:
 		return b == ""
 	case 1:
-		if a[0] == nil {
+		switch e := a[0].(type) {
+		case nil, error:
 			return b == "" // [null] is an empty string
+		case []JSON:
+			return eqArrayS(e, b) // the string of [[x]] is the string of [x]
+		case float64:
+			return numString(e) == b
+		default:
+			return cvs(e) == b
 		}
-		return cvs(a[0]) == b
 	default:
 		return false
 	}
 }
 
+// numString returns f as a string, as JavaScript writes it.
+func numString(f float64) string {
+	switch {
+	case math.IsNaN(f):
+		return "NaN"
+	case math.IsInf(f, 1):
+		return "Infinity"
+	case math.IsInf(f, -1):
+		return "-Infinity"
+	case f == 0:
+		return "0" // whatever its sign
+	}
+	js, _ := json.Marshal(f) // encoding/json follows JavaScript's rules for the format
+	return string(js)
+}
+
 // eqArrayN returns true if array a as a string converted to a Number equals b.
 // This represents Array.prototype.toString, reduced to the cases that can be true.
 func eqArrayN(a []JSON, b JSON) bool {
@@ -111,7 +133,7 @@ func eqArrayN(a []JSON, b JSON) bool {
 	case 0:
 		return eqNum(b, 0.0)
 	case 1:
-		if a[0] == nil {
+		if a[0] == nil || isNothing(a[0]) {
 			return eqNum(b, 0.0) // [null] is an empty string
 		}
 		return eqVal(a[0], b)
-- 
2.43.0


From 625fb7da0fcf468fd7ed366f6fd0815a1cbd1e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 22/24] fix: convert strings to numbers by JavaScript's rules
 when comparing

' 5' == 5, '0x10' == 16 and 'Infinity' == 1e999 were false,
and '1p4', 'inf' and other forms peculiar to Go were taken as numbers.
---
 mach/json.go | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/mach/json.go b/mach/json.go
index baaffc4..f1b4841 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -2,8 +2,10 @@ package mach
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"math"
+	"math/big"
 	"strconv"
 	"strings"
 
@@ -153,11 +155,7 @@ func badNum(s string, fp bool) bool {
 			return false
 		}
 	}
-	_, err := strconv.ParseFloat(s, 64)
-	if err != nil {
-		return true
-	}
-	return false
+	return math.IsNaN(cvf(s))
 }
 
 // eqNum returns true if numeric values a and b are equal
@@ -371,14 +369,7 @@ func cvf(v JSON) float64 {
 	case float64:
 		return v
 	case string:
-		if v == "" {
-			return 0.0 // wat!
-		}
-		f, err := strconv.ParseFloat(v, 64)
-		if err != nil {
-			return math.NaN()
-		}
-		return f
+		return stringNum(v)
 	case json.Number:
 		if f, err := v.Float64(); err == nil {
 			return f
@@ -390,6 +381,32 @@ func cvf(v JSON) float64 {
 	}
 }
 
+// stringNum converts a string to a number by JavaScript's rules (ECMA-262, 7.1.4.1):
+// white space around it doesn't count, empty is zero, out of range is infinity,
+// unsigned integers can be hex, octal or binary, and anything else that isn't decimal is NaN.
+func stringNum(s string) float64 {
+	s = strings.Trim(s, "\t\n\v\f\r \u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000\ufeff")
+	if s == "" {
+		return 0.0 // wat!
+	}
+	if len(s) > 2 && s[0] == '0' && strings.IndexByte("xXoObB", s[1]) >= 0 {
+		n, ok := new(big.Int).SetString(s, 0)
+		if !ok || strings.IndexByte(s, '_') >= 0 {
+			return math.NaN()
+		}
+		f, _ := new(big.Float).SetInt(n).Float64()
+		return f
+	}
+	if strings.TrimLeft(s, "+-0123456789.eE") != "" && s != "Infinity" && s != "+Infinity" && s != "-Infinity" {
+		return math.NaN() // Go allows other forms
+	}
+	f, err := strconv.ParseFloat(s, 64)
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
+		return math.NaN()
+	}
+	return f // infinite if out of range
+}
+
 // convert a JSON value to boolean, the "truthy" JavaScript way: if it's not "falsy" it's true.
 func cvb(v JSON) bool {
 	switch v := v.(type) {
-- 
2.43.0


From a7a90425d18913d6f67f6fc997112320bbf0dab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:07 +0000
Subject: [PATCH 23/24] fix: jpath -l: a line cut short by a read error is not
 a value

---
 cmd/jpath/jpath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/jpath/jpath.go b/cmd/jpath/jpath.go
index 5a3f762..4ac6b2d 100644
--- a/cmd/jpath/jpath.go
+++ b/cmd/jpath/jpath.go
@@ -101,7 +101,7 @@ func readLines(fd *os.File, jpath *jsonpath.JSONPath, enc *json.Encoder) error {
 	input := bufio.NewScanner(fd)
 	input.Split(bufio.ScanLines)
 	input.Buffer(nil, math.MaxInt) // a JSON value on one line can be long
-	for lno := 1; input.Scan(); lno++ {
+	for lno := 1; input.Scan() && input.Err() == nil; lno++ { // on a read error, the last line might be part of one
 		var root interface{}
 		err := json.Unmarshal(input.Bytes(), &root)
 		if err != nil {
-- 
2.43.0


From e8a7da5ec3402be5660d3f7f77a8dfef2fa93e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:51 +0000
Subject: [PATCH 24/24] fix: paths: Inner.Kid panicked for a negative index

It is documented to return nil, false for a child that does not exist.
---
 paths/expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paths/expr.go b/paths/expr.go
index 0eb9db1..606d23f 100644
--- a/paths/expr.go
+++ b/paths/expr.go
@@ -29,7 +29,7 @@ type Inner struct {
 
 // Kid returns child c (index c) and true, or nil and false if the child doesn't exist.
 func (i *Inner) Kid(c int) (Expr, bool) {
-	if c >= len(i.Kids) {
+	if c < 0 || c >= len(i.Kids) {
 		return nil, false
 	}
 	return i.Kids[c], true
-- 
2.43.0

