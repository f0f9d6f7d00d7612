From 7e645d5e88c2e8cf6e5f3dbcf47401bf0b54d409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:34 +0000
Subject: [PATCH 01/18] fix: let a graph walk be stopped at any moment

The walker closed the signal channel when it was done, so a consumer that
stopped after the last vertex panicked, and it only looked at the signal
before a blocking send, so a consumer that stopped receiving leaked the
goroutine.
---
 pkg/dag/dag.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pkg/dag/dag.go b/pkg/dag/dag.go
index 7e29c32..b774654 100644
--- a/pkg/dag/dag.go
+++ b/pkg/dag/dag.go
@@ -437,7 +437,6 @@ func (g *AcyclicGraph[K, T]) AncestorsWalker(id K) (chan K, chan bool, error) {
 	go func() {
 		g.walkAncestors(id, ids, signal)
 		close(ids)
-		close(signal)
 	}()
 
 	return ids, signal, nil
@@ -472,8 +471,7 @@ func (g *AcyclicGraph[K, T]) walkAncestors(id K, ids chan K, signal chan bool) {
 		select {
 		case <-signal:
 			return
-		default:
-			ids <- top
+		case ids <- top:
 		}
 	}
 }
@@ -496,7 +494,6 @@ func (g *AcyclicGraph[K, T]) DescendantsWalker(id K) (chan K, chan bool, error)
 	go func() {
 		g.walkDescendants(id, ids, signal)
 		close(ids)
-		close(signal)
 	}()
 
 	return ids, signal, nil
@@ -531,8 +528,7 @@ func (g *AcyclicGraph[K, T]) walkDescendants(id K, ids chan K, signal chan bool)
 		select {
 		case <-signal:
 			return
-		default:
-			ids <- top
+		case ids <- top:
 		}
 	}
 }
-- 
2.43.0


From 5c0fac469babc89ca2866dfee26040d3bcc9801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:10 +0000
Subject: [PATCH 02/18] fix: clone the type of a function declaration and the
 heredoc of a value deeply

---
 pkg/etx/func.go  | 2 +-
 pkg/etx/value.go | 5 -----
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/pkg/etx/func.go b/pkg/etx/func.go
index 3f2bce4..c80d461 100644
--- a/pkg/etx/func.go
+++ b/pkg/etx/func.go
@@ -195,7 +195,7 @@ func (n *FuncDecl) Clone() *FuncDecl {
 		ASTNode:  n.ASTNode.Clone(),
 		DeclType: n.DeclType,
 		Label:    n.Label,
-		Type:     n.Type,
+		Type:     n.Type.Clone(),
 		Value:    n.Value.Clone(),
 	}
 }
diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 0e39ef0..ef0254d 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -45,11 +45,6 @@ func (v *Value) Clone() *Value {
 		Map:     v.Map.Clone(),
 	}
 
-	if v.Heredoc != nil {
-		s := *v.Heredoc
-		out.Heredoc = &s
-	}
-
 	return &out
 }
 
-- 
2.43.0


From 413c291f8d3b9e121219723b6cde9c50e685b174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 03/18] fix: list the chained access of a postfix expression
 among its children

---
 pkg/etx/expr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index ed89063..f852e86 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -774,6 +774,10 @@ func (e *ExprPostfix) Children() (children []Node) {
 		children = append(children, e.Index)
 	}
 
+	if e.Post != nil {
+		children = append(children, e.Post)
+	}
+
 	return
 }
 
-- 
2.43.0


From 3b6044b7815f4ef1500bcd8fb5fc45f2a5209d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:15 +0000
Subject: [PATCH 04/18] fix: format the else branch of an if with an empty
 first branch

---
 pkg/etx/expr.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index f852e86..b02af23 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -92,8 +92,10 @@ func (e *ExprIf) Children() (children []Node) {
 
 func (e ExprIf) FormattedString() string {
 	switch {
-	case e.Left == nil:
+	case e.Left == nil && e.Right == nil:
 		return fmt.Sprintf("if %s { }", e.Condition.FormattedString())
+	case e.Left == nil:
+		return fmt.Sprintf("if %s { } else {\n%s\n}", e.Condition.FormattedString(), indent(e.Right.FormattedString(), indentationChar))
 	case e.Right == nil:
 		return fmt.Sprintf("if %s {\n%s\n}", e.Condition.FormattedString(), indent(e.Left.FormattedString(), indentationChar))
 	default:
-- 
2.43.0


From f34054274687ce22c8100ee0b6cf9802172aebfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:42 +0000
Subject: [PATCH 05/18] fix: keep the parentheses of a sub-expression when
 formatting it

---
 pkg/etx/expr.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index b02af23..7a88fe3 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -53,6 +53,37 @@ func (e Expr) FormattedString() string {
 	}
 }
 
+// isOperand returns true if the expression is a single operand without any operator.
+func (e Expr) isOperand() bool {
+	if e.Left == nil || e.Left.ConditionOp {
+		return false
+	}
+
+	or := e.Left.Condition
+	and := or.Left
+	bitOr := and.Left
+	bitXor := bitOr.Left
+	bitAnd := bitXor.Left
+	equality := bitAnd.Left
+	relational := equality.Left
+	shift := relational.Left
+	additive := shift.Left
+	multiplicative := additive.Left
+	unary := multiplicative.Left
+	postfix := unary.Right
+
+	for _, op := range []string{
+		or.Op, and.Op, bitOr.Op, bitXor.Op, bitAnd.Op, equality.Op,
+		relational.Op, shift.Op, additive.Op, multiplicative.Op, unary.Op,
+	} {
+		if op != "" {
+			return false
+		}
+	}
+
+	return postfix.Index == nil && postfix.Post == nil
+}
+
 // /////////////////////////////////////
 
 type ExprIf struct {
@@ -851,7 +882,11 @@ func (e *ExprPrimary) Children() (children []Node) {
 
 func (e ExprPrimary) FormattedString() string {
 	if e.SubExpression != nil {
-		return e.SubExpression.FormattedString()
+		if e.SubExpression.isOperand() {
+			return e.SubExpression.FormattedString()
+		}
+
+		return fmt.Sprintf("(%s)", e.SubExpression.FormattedString())
 	}
 
 	if e.Value != nil {
-- 
2.43.0


From 6bd71d6326181c3cdf0d2fa4262cebd27d716d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:44 +0000
Subject: [PATCH 06/18] fix: do not double the backslash of a parsed escape
 sequence

---
 pkg/etx/value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index ef0254d..6e7bc61 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -412,6 +412,11 @@ func (f *StringFragment) Children() (children []Node) {
 func (f StringFragment) FormattedString() string {
 	switch {
 	case f.Escaped != "":
+		// A parsed escape sequence already includes its backslash.
+		if len(f.Escaped) > 1 && strings.HasPrefix(f.Escaped, `\`) {
+			return f.Escaped
+		}
+
 		return fmt.Sprintf("\\%s", f.Escaped)
 	case f.Unicode != "":
 		return fmt.Sprintf("\\u%s", f.Unicode)
-- 
2.43.0


From 85f58bbfe6bf847a535f44ef9ffe1df55769daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:46 +0000
Subject: [PATCH 07/18] fix: format a string that contains a double quote
 between single quotes

---
 pkg/etx/value.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 6e7bc61..f61767f 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -361,13 +361,21 @@ func (v *ValueString) Children() (children []Node) {
 func (v ValueString) FormattedString() string {
 	var sb strings.Builder
 
-	sb.WriteString(`"`)
+	// A literal double quote is only valid between single quotes.
+	quote := `"`
+	for _, f := range v.Fragment {
+		if strings.Contains(f.Text, `"`) {
+			quote = `'`
+		}
+	}
+
+	sb.WriteString(quote)
 
 	for _, f := range v.Fragment {
 		sb.WriteString(f.FormattedString())
 	}
 
-	sb.WriteString(`"`)
+	sb.WriteString(quote)
 
 	return sb.String()
 }
-- 
2.43.0


From 5b20d6932ef46322e1efd77dafcf94769d7b5c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:48 +0000
Subject: [PATCH 08/18] fix: format comments and empty lines in maps

---
 pkg/etx/value.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index f61767f..64f62bb 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -565,6 +565,17 @@ func (v ValueMap) FormattedString() string {
 	sb.WriteString("{\n")
 
 	for _, e := range v.Items {
+		if e.Key == nil || e.Value == nil {
+			text := e.FormattedString()
+			sb.WriteString(indent(text, indentationChar))
+
+			if !strings.HasSuffix(text, "\n") {
+				sb.WriteString("\n")
+			}
+
+			continue
+		}
+
 		sb.WriteString(indent(fmt.Sprintf("%s: %s", e.Key.FormattedString(), e.Value.FormattedString()), indentationChar))
 		sb.WriteString(",\n")
 	}
-- 
2.43.0


From a08f37b16aa3e023d4c73e46234b17b84757f513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:30 +0000
Subject: [PATCH 09/18] fix: format comments and empty lines in enum and object
 types

---
 pkg/etx/type.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/etx/type.go b/pkg/etx/type.go
index 0ee5399..cb2bebd 100644
--- a/pkg/etx/type.go
+++ b/pkg/etx/type.go
@@ -97,6 +97,12 @@ func (n TypeEnum) FormattedString() string {
 	}
 
 	for _, item := range n.Items {
+		if item.Comment != nil || item.EmptyLine != "" {
+			mustFprintf(&sb, "\n%s", strings.TrimSuffix(item.FormattedString(), "\n"))
+
+			continue
+		}
+
 		fillLength := maxLabelLength - len(item.Label)
 		mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Value.FormattedString())
 	}
@@ -190,6 +196,12 @@ func (n TypeObject) FormattedString() string {
 	}
 
 	for _, item := range n.Items {
+		if item.Comment != nil || item.EmptyLine != "" {
+			mustFprintf(&sb, "\n%s", strings.TrimSuffix(item.FormattedString(), "\n"))
+
+			continue
+		}
+
 		fillLength := maxLabelLength - len(item.Label)
 		mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Type.FormattedString())
 	}
-- 
2.43.0


From 0b2385ad18247ea6b7cda619240aed67983102ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 10/18] fix: format each item of a block on its own line

---
 pkg/etx/block.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/block.go b/pkg/etx/block.go
index da9c8ca..e64c9a9 100644
--- a/pkg/etx/block.go
+++ b/pkg/etx/block.go
@@ -50,8 +50,14 @@ func (n Block) FormattedString() string {
 	if len(n.Body) != 0 {
 		sb.WriteString(" {\n")
 
-		for _, item := range n.Body {
-			sb.WriteString(indent(item.FormattedString(), indentationChar))
+		for i, item := range n.Body {
+			text := indent(item.FormattedString(), indentationChar)
+			sb.WriteString(text)
+
+			// Each item is on its own line.
+			if i < len(n.Body)-1 && !strings.HasSuffix(text, "\n") {
+				sb.WriteString("\n")
+			}
 		}
 
 		sb.WriteString("\n}")
-- 
2.43.0


From 0ee1512b442af2a05184ae1c17128293a248f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:35 +0000
Subject: [PATCH 11/18] fix: accept a colon after a key, as documented and as
 formatted

---
 pkg/etx/attribute.go | 4 ++--
 pkg/etx/value.go     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/etx/attribute.go b/pkg/etx/attribute.go
index 658b1ea..4ed557e 100644
--- a/pkg/etx/attribute.go
+++ b/pkg/etx/attribute.go
@@ -8,8 +8,8 @@ import (
 type Attribute struct {
 	ASTNode
 
-	Key   string `parser:"@Ident"    json:"key"`
-	Value *Expr  `parser:"['=' @@ ]" json:"value,omitempty"`
+	Key   string `parser:"@Ident"              json:"key"`
+	Value *Expr  `parser:"[('=' | ':') @@ ]" json:"value,omitempty"`
 }
 
 func (n *Attribute) Clone() *Attribute {
diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 64f62bb..938c521 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -589,10 +589,10 @@ func (v ValueMap) FormattedString() string {
 type MapItem struct {
 	ASTNode
 
-	EmptyLine string   `parser:"(   @LF+             " json:"empty_line,omitempty"`
-	Key       *MapKey  `parser:"  | ( @@ '='         " json:"key"`
-	Value     *Expr    `parser:"      @@ ','? LF? )  " json:"value"`
-	Comment   *Comment `parser:"  | @@              )" json:"comment,omitempty"`
+	EmptyLine string   `parser:"(   @LF+              " json:"empty_line,omitempty"`
+	Key       *MapKey  `parser:"  | ( @@ ('=' | ':')  " json:"key"`
+	Value     *Expr    `parser:"      @@ ','? LF? )   " json:"value"`
+	Comment   *Comment `parser:"  | @@               )" json:"comment,omitempty"`
 }
 
 func (v *MapItem) Clone() *MapItem {
-- 
2.43.0


From 7680d476884c9581bfd5db2bdbd707cace4f4875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:39 +0000
Subject: [PATCH 12/18] fix: do not end a heredoc at a longer word that starts
 with its delimiter

---
 pkg/etx/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/etx/lexer.go b/pkg/etx/lexer.go
index c0021a3..0b2c61d 100644
--- a/pkg/etx/lexer.go
+++ b/pkg/etx/lexer.go
@@ -131,7 +131,7 @@ func lexRules() lexer.Rules {
 			{Name: "UnicodeShort", Pattern: `[0-9a-fA-F]{4}`, Action: lexer.Pop()},
 		},
 		lexerHeredoc: {
-			{Name: "HeredocEnd", Pattern: `^\1`, Action: lexer.Pop()},
+			{Name: "HeredocEnd", Pattern: `^\1\b`, Action: lexer.Pop()},
 			{Name: "EOL", Pattern: `\n`},
 			{Name: "NonExpr", Pattern: `(\$\${|%%{)`},
 			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
-- 
2.43.0


From 621af62d66221d745b0bf06ef494635f51bda820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:41 +0000
Subject: [PATCH 13/18] fix: accept a dollar or percent sign that starts no
 marker in strings and heredocs

---
 pkg/etx/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/lexer.go b/pkg/etx/lexer.go
index 0b2c61d..dec6048 100644
--- a/pkg/etx/lexer.go
+++ b/pkg/etx/lexer.go
@@ -124,7 +124,7 @@ func lexRules() lexer.Rules {
 			{Name: "NonExpr", Pattern: `(\$\${|%%{)`},
 			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
 			{Name: "Directive", Pattern: `%{`, Action: lexer.Push(lexerStringExpr)},
-			{Name: "Char", Pattern: `[^$%"'\\]+`},
+			{Name: "Char", Pattern: `[^$%"'\\]+|[$%]`},
 		},
 		lexerUnicode: {
 			{Name: "UnicodeLong", Pattern: `[0-9a-fA-F]{8}`, Action: lexer.Pop()},
@@ -136,7 +136,7 @@ func lexRules() lexer.Rules {
 			{Name: "NonExpr", Pattern: `(\$\${|%%{)`},
 			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
 			{Name: "Directive", Pattern: `%{`, Action: lexer.Push(lexerStringExpr)},
-			{Name: "Body", Pattern: `[^\n$%]+`},
+			{Name: "Body", Pattern: `[$%]?[^\n$%]+|[$%]`},
 		},
 		lexerStringExpr: {
 			{Name: "ExprEnd", Pattern: `}`, Action: lexer.Pop()},
-- 
2.43.0


From c1ba9a289427f12814ab1851ced93e0239539723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:34 +0000
Subject: [PATCH 14/18] fix: keep all digits of a number literal

---
 pkg/etx/value.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 938c521..47b20d8 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -164,7 +164,7 @@ func (v *ValueNumber) Capture(values []string) error {
 		v.Source = "0o" + sm[1]
 	}
 
-	v.Value = big.NewFloat(0)
+	v.Value = big.NewFloat(0).SetPrec(numberPrecision(v.Source))
 	if _, _, err := v.Value.Parse(v.Source, 0); err != nil {
 		return fmt.Errorf("failed to parse number value '%s': %w", v.Source, err)
 	}
@@ -172,6 +172,36 @@ func (v *ValueNumber) Capture(values []string) error {
 	return nil
 }
 
+// numberPrecision returns a mantissa precision that is large enough for
+// the integers written with a number literal to be represented exactly.
+func numberPrecision(source string) uint {
+	const (
+		minPrecision = 53 // precision of a float64
+		bitsPerDigit = 4
+		maxExponent  = 1 << 14 // bounds the memory used for large exponents
+	)
+
+	digits := len(source)
+
+	// A decimal exponent appends as many digits.
+	if i := strings.LastIndexAny(source, "eE"); i >= 0 && !strings.HasPrefix(strings.ToLower(source), "0x") {
+		exponent, err := strconv.Atoi(strings.ReplaceAll(source[i+1:], "_", ""))
+		if err != nil || exponent > maxExponent {
+			exponent = maxExponent
+		}
+
+		if exponent > 0 {
+			digits += exponent
+		}
+	}
+
+	if precision := digits * bitsPerDigit; precision > minPrecision {
+		return uint(precision)
+	}
+
+	return minPrecision
+}
+
 func (v *ValueNumber) Clone() *ValueNumber {
 	if v == nil {
 		return nil
-- 
2.43.0


From 42997b97fe0aacb126d89e6b88a545b8f966c9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:45 +0000
Subject: [PATCH 15/18] fix: keep the dot of a chained access apart from a
 number when formatting it

---
 pkg/etx/expr.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index 7a88fe3..e6b1dc2 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -823,12 +823,24 @@ func (e ExprPostfix) FormattedString() string {
 	}
 
 	if e.Post != nil {
-		mustFprintf(&sb, ".%s", e.Post.FormattedString())
+		sb.WriteString(e.Post.formattedAccess())
 	}
 
 	return sb.String()
 }
 
+// formattedAccess returns the expression formatted as a chained access.
+func (e ExprPostfix) formattedAccess() string {
+	post := e.FormattedString()
+
+	// Without spaces, the dot would be part of the number.
+	if post != "" && post[0] >= '0' && post[0] <= '9' {
+		return " . " + post
+	}
+
+	return "." + post
+}
+
 // /////////////////////////////////////
 
 type ExprPrimary struct {
@@ -910,8 +922,7 @@ func (e ExprPrimary) FormattedString() string {
 	}
 
 	if e.Post != nil {
-		sb.WriteString(".")
-		sb.WriteString(e.Post.FormattedString())
+		sb.WriteString(e.Post.formattedAccess())
 	}
 
 	return sb.String()
-- 
2.43.0


From ac5359a5e33930bc77cefae9392b874ac7717b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 16/18] fix: read the braces of an interpolated expression as
 part of it

---
 pkg/etx/lexer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/etx/lexer.go b/pkg/etx/lexer.go
index dec6048..10c209b 100644
--- a/pkg/etx/lexer.go
+++ b/pkg/etx/lexer.go
@@ -49,6 +49,7 @@ const (
 	lexerRoot       = "Root"
 	lexerString     = "String"
 	lexerStringExpr = "StringExpr"
+	lexerExprBlock  = "StringExprBlock"
 	lexerUnicode    = "Unicode"
 	lexerHeredoc    = "Heredoc"
 )
@@ -140,6 +141,13 @@ func lexRules() lexer.Rules {
 		},
 		lexerStringExpr: {
 			{Name: "ExprEnd", Pattern: `}`, Action: lexer.Pop()},
+			{Name: "BlockStart", Pattern: regexp.QuoteMeta(OpLBrace), Action: lexer.Push(lexerExprBlock)},
+
+			lexer.Include(lexerCore),
+		},
+		lexerExprBlock: {
+			{Name: "BlockEnd", Pattern: regexp.QuoteMeta(OpRBrace), Action: lexer.Pop()},
+			{Name: "BlockStart", Pattern: regexp.QuoteMeta(OpLBrace), Action: lexer.Push(lexerExprBlock)},
 
 			lexer.Include(lexerCore),
 		},
-- 
2.43.0


From 4dbc753f1538de7502492e931f88276dfaa6a63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:27 +0000
Subject: [PATCH 17/18] fix: keep the parentheses around a single result of
 function type when formatting

---
 pkg/etx/func.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/func.go b/pkg/etx/func.go
index c80d461..77ca9a5 100644
--- a/pkg/etx/func.go
+++ b/pkg/etx/func.go
@@ -55,9 +55,9 @@ func (n Func) FormattedString() string {
 	mustFprintf(&sb, "def %s(%s)", n.Label, strings.Join(params, ", "))
 
 	switch l := len(n.Return); {
-	case l == 1:
+	case l == 1 && n.Return[0].Func == nil:
 		mustFprintf(&sb, " %s", n.Return[0].FormattedString())
-	case l > 1:
+	case l > 0:
 		rets := make([]string, 0, l)
 		for _, item := range n.Return {
 			rets = append(rets, item.FormattedString())
-- 
2.43.0


From 338e25c82ed967261979a85cea2081be49aea925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:16 +0000
Subject: [PATCH 18/18] fix: record the position of number and boolean literals

---
 pkg/etx/parser.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/etx/parser.go b/pkg/etx/parser.go
index c67a8c4..ef17b39 100644
--- a/pkg/etx/parser.go
+++ b/pkg/etx/parser.go
@@ -26,6 +26,7 @@ func Parse(r io.Reader) (*AST, error) {
 	}
 
 	ast.UpdateParentRefs()
+	updateCapturedPositions(ast.Children())
 
 	return ast, nil
 }
@@ -38,6 +39,7 @@ func ParseString(str string) (*AST, error) {
 	}
 
 	ast.UpdateParentRefs()
+	updateCapturedPositions(ast.Children())
 
 	return ast, nil
 }
@@ -50,6 +52,7 @@ func ParseBytes(data []byte) (*AST, error) {
 	}
 
 	ast.UpdateParentRefs()
+	updateCapturedPositions(ast.Children())
 
 	return ast, nil
 }
@@ -62,3 +65,21 @@ func updateParentRefs(parent, node Node) {
 		updateParentRefs(node, c)
 	}
 }
+
+// updateCapturedPositions recursively sets the position of the nodes which are
+// captured from a single token, as the parser does not set it for those.
+func updateCapturedPositions(nodes []Node) {
+	for _, node := range nodes {
+		if v, ok := node.(*Value); ok {
+			if v.Bool != nil {
+				v.Bool.Pos = v.Pos
+			}
+
+			if v.Number != nil {
+				v.Number.Pos = v.Pos
+			}
+		}
+
+		updateCapturedPositions(node.Children())
+	}
+}
-- 
2.43.0

