From c3ea9b302c67ec15c6af3754b4519835bed6d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 01/13] fix: build a script for the chain with no operations

---
 acc/build.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/acc/build.go b/acc/build.go
index 38adda3..72d23f8 100644
--- a/acc/build.go
+++ b/acc/build.go
@@ -51,6 +51,15 @@ func newbuilder(p *ir.Program) *builder {
 func (b *builder) process() error {
 	insts := b.prog.Instructions
 	n := len(insts)
+
+	// A program with no instructions is the chain consisting only of 1.
+	if n == 0 {
+		b.chain.Statements = append(b.chain.Statements, ast.Statement{
+			Expr: b.operand(ir.One),
+		})
+		return nil
+	}
+
 	complexity := 0
 	for i := 0; i < n; i++ {
 		complexity++
-- 
2.43.0


From abbc2a57d0ceded18f81d374c5d07467e7402416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 02/13] fix: return an error when allocating a program with no
 instructions

---
 acc/pass/alloc.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acc/pass/alloc.go b/acc/pass/alloc.go
index 812df5a..f0ba75e 100644
--- a/acc/pass/alloc.go
+++ b/acc/pass/alloc.go
@@ -1,6 +1,7 @@
 package pass
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/mmcloughlin/addchain/acc/ir"
@@ -24,6 +25,11 @@ type Allocator struct {
 
 // Execute performs temporary variable allocation.
 func (a Allocator) Execute(p *ir.Program) error {
+	// There must be an output to allocate.
+	if len(p.Instructions) == 0 {
+		return errors.New("cannot allocate program with no instructions")
+	}
+
 	// Canonicalize operands, collect unique indexes, and delete all names.
 	if err := Exec(p, Func(CanonicalizeOperands), Func(Indexes), Func(ClearNames)); err != nil {
 		return err
-- 
2.43.0


From 962c76d80438023d53977adbac15004867cc5c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 03/13] fix: report division by zero as an error

---
 internal/calc/calc.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/calc/calc.go b/internal/calc/calc.go
index 71eed0c..9b74d41 100644
--- a/internal/calc/calc.go
+++ b/internal/calc/calc.go
@@ -27,11 +27,19 @@ type operator struct {
 var operators = map[byte]operator{
 	'^': {precedence: 3, associativity: rightassociative, apply: func(z, x, y *big.Int) *big.Int { return z.Exp(x, y, nil) }},
 	'*': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Mul},
-	'/': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Div},
+	'/': {precedence: 3, associativity: leftassociative, apply: div},
 	'+': {precedence: 2, associativity: leftassociative, apply: (*big.Int).Add},
 	'-': {precedence: 2, associativity: leftassociative, apply: (*big.Int).Sub},
 }
 
+// div sets z to the quotient x/y and returns z, or returns nil if y is zero.
+func div(z, x, y *big.Int) *big.Int {
+	if y.Sign() == 0 {
+		return nil
+	}
+	return z.Div(x, y)
+}
+
 // yard implements the "shunting yard" algorithm.
 type yard struct {
 	operands  []*big.Int
@@ -70,8 +78,10 @@ func (y *yard) apply(op operator) error {
 		return errors.New("too few operands")
 	}
 
-	z := new(big.Int)
-	op.apply(z, y.operands[n-2], y.operands[n-1])
+	z := op.apply(new(big.Int), y.operands[n-2], y.operands[n-1])
+	if z == nil {
+		return errors.New("division by zero")
+	}
 	y.operands = append(y.operands[:n-2], z)
 
 	return nil
-- 
2.43.0


From 448deef9158eb12103acfb7860e12ee99c72be55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 04/13] fix: reject concurrency limits below one

---
 cmd/addchain/search.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/addchain/search.go b/cmd/addchain/search.go
index 434e484..9863ba1 100644
--- a/cmd/addchain/search.go
+++ b/cmd/addchain/search.go
@@ -58,6 +58,10 @@ func (cmd *search) Execute(_ context.Context, f *flag.FlagSet, _ ...interface{})
 	}
 	expr := f.Arg(0)
 
+	if cmd.concurrency < 1 {
+		return cmd.UsageError("concurrency must be at least 1")
+	}
+
 	// Evaluate expression.
 	cmd.Log.Printf("expr: %q", expr)
 
-- 
2.43.0


From 61e7d0c946a33d54dc7a3cc5a1374b81396b0568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 05/13] fix: reject non-positive search targets

---
 cmd/addchain/search.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/addchain/search.go b/cmd/addchain/search.go
index 9863ba1..80d3b02 100644
--- a/cmd/addchain/search.go
+++ b/cmd/addchain/search.go
@@ -73,6 +73,10 @@ func (cmd *search) Execute(_ context.Context, f *flag.FlagSet, _ ...interface{})
 	cmd.Log.Printf("hex: %x", n)
 	cmd.Log.Printf("dec: %s", n)
 
+	if n.Sign() <= 0 {
+		return cmd.Fail("target must be positive: %s", n)
+	}
+
 	// Execute an ensemble of algorithms.
 	ex := exec.NewParallel()
 	if cmd.verbose {
-- 
2.43.0


From a4ad9be14436954e94b20f7f456977379b2252dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 06/13] fix: bound the concurrency limit by the number of
 algorithms

---
 alg/exec/exec.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/alg/exec/exec.go b/alg/exec/exec.go
index 54935e7..3c05e2a 100644
--- a/alg/exec/exec.go
+++ b/alg/exec/exec.go
@@ -78,7 +78,11 @@ func (p Parallel) Execute(n *big.Int, as []alg.ChainAlgorithm) []Result {
 
 	// Use buffered channel to limit concurrency.
 	type token struct{}
-	sem := make(chan token, p.limit)
+	limit := p.limit
+	if limit > len(as) {
+		limit = len(as)
+	}
+	sem := make(chan token, limit)
 
 	for i, a := range as {
 		sem <- token{}
@@ -91,7 +95,7 @@ func (p Parallel) Execute(n *big.Int, as []alg.ChainAlgorithm) []Result {
 	}
 
 	// Wait for completion.
-	for i := 0; i < p.limit; i++ {
+	for i := 0; i < limit; i++ {
 		sem <- token{}
 	}
 
-- 
2.43.0


From ae584654c741b2b7ccbeeef589c2a609397a851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 07/13] fix: accept uppercase hexadecimal digits in expressions

---
 internal/calc/calc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/calc/calc.go b/internal/calc/calc.go
index 9b74d41..520d940 100644
--- a/internal/calc/calc.go
+++ b/internal/calc/calc.go
@@ -191,7 +191,7 @@ func isdecimal(b byte) bool {
 
 // ishex reports whether b is a hex digit.
 func ishex(b byte) bool {
-	return isdecimal(b) || ('a' <= b && b <= 'f')
+	return isdecimal(b) || ('a' <= b && b <= 'f') || ('A' <= b && b <= 'F')
 }
 
 // isbinary reports whether b is a binary digit.
-- 
2.43.0


From ce18be762480c9492d5db209aeb3b10b1d01b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 08/13] fix: parenthesise operands the grammar requires
 parentheses for

---
 acc/printer/printer.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/acc/printer/printer.go b/acc/printer/printer.go
index 96e8baa..8b5c860 100644
--- a/acc/printer/printer.go
+++ b/acc/printer/printer.go
@@ -61,7 +61,7 @@ func (p *printer) node(n interface{}) {
 	case ast.Statement:
 		p.statement(n)
 	case ast.Expr:
-		p.expr(n, nil)
+		p.expr(n, ast.LowestPrec)
 	default:
 		p.SetError(errutil.UnexpectedType(n))
 	}
@@ -73,15 +73,17 @@ func (p *printer) statement(stmt ast.Statement) {
 	} else {
 		p.Printf("return\t\t")
 	}
-	p.expr(stmt.Expr, nil)
+	p.expr(stmt.Expr, ast.LowestPrec)
 	p.NL()
 }
 
-func (p *printer) expr(e, parent ast.Expr) {
-	// Parens required if the precence of this operator is less than its parent.
-	if parent != nil && e.Precedence() < parent.Precedence() {
+// expr prints e in a position that requires an expression of at least the given
+// precedence.
+func (p *printer) expr(e ast.Expr, prec int) {
+	// Parens required if the precence of this operator is less than required.
+	if e.Precedence() < prec {
 		p.Printf("(")
-		p.expr(e, nil)
+		p.expr(e, ast.LowestPrec)
 		p.Printf(")")
 		return
 	}
@@ -103,18 +105,21 @@ func (p *printer) expr(e, parent ast.Expr) {
 }
 
 func (p *printer) add(a ast.Add) {
-	p.expr(a.X, a)
+	// Addition is left associative.
+	p.expr(a.X, a.Precedence())
 	p.Printf(" + ")
-	p.expr(a.Y, a)
+	p.expr(a.Y, a.Precedence()+1)
 }
 
 func (p *printer) double(d ast.Double) {
+	// Operand may not be an operator expression without parens.
 	p.Printf("2*")
-	p.expr(d.X, d)
+	p.expr(d.X, ast.HighestPrec)
 }
 
 func (p *printer) shift(s ast.Shift) {
-	p.expr(s.X, s)
+	// Operand may not be an operator expression without parens.
+	p.expr(s.X, ast.HighestPrec)
 	p.Printf(" << %d", s.S)
 }
 
-- 
2.43.0


From e1ba3a70b03ef2e4194094136a265e68cd5c220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 09/13] fix: print operand indexes as the unsigned literals
 they are parsed from

---
 acc/printer/printer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acc/printer/printer.go b/acc/printer/printer.go
index 8b5c860..8bc1c08 100644
--- a/acc/printer/printer.go
+++ b/acc/printer/printer.go
@@ -131,6 +131,7 @@ func (p *printer) operand(op ast.Operand) {
 	if op == 0 {
 		p.Printf("1")
 	} else {
-		p.Printf("[%d]", op)
+		// Index literals are unsigned.
+		p.Printf("[%d]", uint(op))
 	}
 }
-- 
2.43.0


From 0796d2b082d00b9cbd7d445edde2c993e5381407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 10/13] fix: refuse to generate code for programs with dangling
 inputs

---
 internal/gen/gen.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index 46a7775..c35c15c 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -56,9 +56,10 @@ func PrepareData(cfg Config, s *ast.Chain) (*Data, error) {
 		return nil, err
 	}
 
-	// Apply processing passes: temporary variable allocation, and computing the
-	// full addition chain sequence and operations.
-	if err := pass.Exec(p, cfg.Allocator, pass.Func(pass.Eval)); err != nil {
+	// Apply processing passes: check every input is output by an instruction,
+	// temporary variable allocation, and computing the full addition chain
+	// sequence and operations.
+	if err := pass.Exec(p, pass.Validate, cfg.Allocator, pass.Func(pass.Eval)); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 148e509886ff12151242b9f686254887e8ce322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 11/13] fix: translate a shift by zero to its operand

---
 acc/translate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acc/translate.go b/acc/translate.go
index 91bfcf1..7a7a49a 100644
--- a/acc/translate.go
+++ b/acc/translate.go
@@ -110,6 +110,11 @@ func (s *state) shift(sh ast.Shift) (*ir.Operand, error) {
 		return nil, err
 	}
 
+	// Shift by zero produces no new element.
+	if sh.S == 0 {
+		return x, nil
+	}
+
 	s.n += int(sh.S)
 	out := ir.Index(s.n - 1)
 	inst := &ir.Instruction{
-- 
2.43.0


From bbc71a33dc4127582b71e490b16d940f54c7c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 12/13] fix: memoize the parser to avoid exponential parsing
 time

---
 acc/parse/parse.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acc/parse/parse.go b/acc/parse/parse.go
index 8523e14..9cfb8bc 100644
--- a/acc/parse/parse.go
+++ b/acc/parse/parse.go
@@ -11,15 +11,19 @@ import (
 
 //go:generate pigeon -o internal/parser/zparser.go acc.peg
 
+// options for the parser. Memoization prevents exponential parsing time for
+// nested parentheses.
+var options = []parser.Option{parser.Memoize(true)}
+
 // File parses filename.
 func File(filename string) (*ast.Chain, error) {
-	return cast(parser.ParseFile(filename))
+	return cast(parser.ParseFile(filename, options...))
 }
 
 // Reader parses the data from r using filename as information in
 // error messages.
 func Reader(filename string, r io.Reader) (*ast.Chain, error) {
-	return cast(parser.ParseReader(filename, r))
+	return cast(parser.ParseReader(filename, r, options...))
 }
 
 // String parses s.
-- 
2.43.0


From 8f613d18211539d399f0691b17db7719ed7fe3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 13/13] fix: refuse oversize run lengths before building the
 chain

---
 alg/dict/runs.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/alg/dict/runs.go b/alg/dict/runs.go
index 5277be4..661edec 100644
--- a/alg/dict/runs.go
+++ b/alg/dict/runs.go
@@ -84,14 +84,16 @@ func RunsChain(lc addchain.Chain) (addchain.Chain, error) {
 		return nil, err
 	}
 
+	for _, l := range lc {
+		if !l.IsUint64() {
+			return nil, errors.New("values in lengths chain are far too large")
+		}
+	}
+
 	c := addchain.New()
 	s := map[uint]uint{} // current largest shift of each run length
 	for _, op := range p {
 		a, b := bigint.MinMax(lc[op.I], lc[op.J])
-		if !a.IsUint64() || !b.IsUint64() {
-			return nil, errors.New("values in lengths chain are far too large")
-		}
-
 		la := uint(a.Uint64())
 		lb := uint(b.Uint64())
 
-- 
2.43.0

