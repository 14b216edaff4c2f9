From 0cc5cc169abbd82b8732998f30ac84522fc155d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 01/14] fix: report a scalar once, not twice, under recursive
 descent

While descending, every child was tested against the next selector and then
descend() was called on it, which for a scalar tested it a second time. So
$..a on {"a":1} gave [1,1]. A scalar has no children to descend into.
---
 path.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/path.go b/path.go
index 9033815..32a8d07 100644
--- a/path.go
+++ b/path.go
@@ -183,9 +183,6 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 		node := ctx.path.Last().Node
 		switch ctx.doc.Type(node) {
 		case ValueNode:
-			if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {
-				return err
-			}
 		case ObjectNode:
 			for _, key := range ctx.doc.Keys(node) {
 				value, _ := ctx.doc.Key(node, key)
-- 
2.43.0


From d3c83d3fa6027e9dcf0770f06b99c23948d68f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 02/14] fix: give the wildcard of a trailing '..' its own
 recursion flag

$.. compiled to two selectors and one flag, so searching with it panicked
with an index out of range.
---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index a95c699..5a56617 100644
--- a/parser.go
+++ b/parser.go
@@ -131,7 +131,7 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 			return
 		}
 		path.selectors = append(path.selectors, wildcardSelector{})
-		path.recursive = append(path.recursive[:len(path.recursive)-1], true)
+		path.recursive = append(path.recursive[:len(path.recursive)-1], true, false)
 		return
 
 	case *parser.RecursiveDescentExpressionContext:
-- 
2.43.0


From 453240be73c1458e6cb6ba91e866e6cb30a7db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 03/14] fix: MapModel.Key reports a missing key as missing

It returned (nil, true), so $.missing matched a null node that is not in
the document.
---
 docmodel.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docmodel.go b/docmodel.go
index 8776056..7155418 100644
--- a/docmodel.go
+++ b/docmodel.go
@@ -62,7 +62,8 @@ func (MapModel) Key(in any, key string) (any, bool) {
 	if !ok {
 		return nil, false
 	}
-	return obj[key], true
+	value, ok := obj[key]
+	return value, ok
 }
 
 func (MapModel) Keys(in any) []string {
-- 
2.43.0


From cb39346536112166e2b7f8abeea70b79361bb45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 04/14] fix: skip a listed key whose lookup says it is absent

When a key disappeared between Keys and Key, the search went on with the
nil value that came with ok=false and reported it as a match.
---
 path.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/path.go b/path.go
index 32a8d07..8d1e423 100644
--- a/path.go
+++ b/path.go
@@ -154,7 +154,10 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 		case ValueNode:
 		case ObjectNode:
 			for _, key := range ctx.doc.Keys(node) {
-				value, _ := ctx.doc.Key(node, key)
+				value, ok := ctx.doc.Key(node, key)
+				if !ok {
+					continue
+				}
 				ctx.path = ctx.path.Key(key, value, ctx.doc.Type(value))
 				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {
 					return err
@@ -185,7 +188,10 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 		case ValueNode:
 		case ObjectNode:
 			for _, key := range ctx.doc.Keys(node) {
-				value, _ := ctx.doc.Key(node, key)
+				value, ok := ctx.doc.Key(node, key)
+				if !ok {
+					continue
+				}
 				ctx.path = ctx.path.Key(key, value, ctx.doc.Type(value))
 				if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {
 					return err
-- 
2.43.0


From 2645015e9399bc3ba9eeba4910b986a56fd7ec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 05/14] fix: evaluate $ in a filter at the root of the document

$ was matched by comparing the current node with the root node, which
panicked for maps and slices (they cannot be compared) and otherwise made
every path that starts with $ in a filter select nothing.
---
 expression.go | 10 ++++++++++
 path.go       |  5 +----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/expression.go b/expression.go
index b874fcd..6b22f59 100644
--- a/expression.go
+++ b/expression.go
@@ -248,6 +248,16 @@ type pathExpression struct {
 }
 
 func (expr pathExpression) evaluate(ctx *context) (exprValue, error) {
+	if len(expr.path.selectors) > 0 {
+		if _, ok := expr.path.selectors[0].(rootElementSelector); ok {
+			// Start at the root of the document, without overwriting
+			// the rest of the current path
+			ctx = &context{
+				doc:  ctx.doc,
+				path: DocPath{P: ctx.path.P[:1:1]},
+			}
+		}
+	}
 	result := make([]any, 0)
 	err := evaluateAt(ctx, expr.path, 0, func(item DocPath) {
 		result = append(result, item.Last().Node)
diff --git a/path.go b/path.go
index 8d1e423..fee506c 100644
--- a/path.go
+++ b/path.go
@@ -224,10 +224,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 type rootElementSelector struct{}
 
 func (rootElementSelector) match(ctx *context) bool {
-	if ctx.path.Len() == 1 {
-		return true
-	}
-	return ctx.path.Last().Node == ctx.doc.Root()
+	return ctx.path.Len() == 1
 }
 
 func (rootElementSelector) selectChildNodes(*context) (children iterator, canSelect bool) {
-- 
2.43.0


From 2d4f8e34decae1b173290102abb44c0cf88709a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 06/14] fix: a negative index before the first element selects
 nothing

$[-3] on a two-element array selected its first element, because indexes
were clamped in the way slice bounds are.
---
 path.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/path.go b/path.go
index fee506c..5109f39 100644
--- a/path.go
+++ b/path.go
@@ -315,7 +315,7 @@ func (sel *keySelector) match(ctx *context) bool {
 		if v := sel.intValue(ctx); v != nil {
 			if *v < 0 {
 				n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
-				*v = normalizeIndex(*v, n)
+				*v += n
 				if *v < 0 {
 					return false
 				}
@@ -343,7 +343,10 @@ func (sel *keySelector) selectChildNodes(ctx *context) (iterator, bool) {
 	if isArray(ctx.path) {
 		if v := sel.intValue(ctx); v != nil {
 			n := ctx.doc.Len(ctx.path.Last().Node)
-			index := normalizeIndex(*v, n)
+			index := *v
+			if index < 0 {
+				index += n
+			}
 			if index < 0 {
 				return emptyIterator{}, true
 			}
-- 
2.43.0


From 8c212eeb3367c3df44f132374175a0a3505a7eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 07/14] fix: a path in a filter that finds nothing is false

$[?(@.isbn)] selected every node, since the empty list of results was
taken as true.
---
 expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expression.go b/expression.go
index 6b22f59..a97c2c0 100644
--- a/expression.go
+++ b/expression.go
@@ -99,6 +99,9 @@ func (c exprValue) asBool() bool {
 	if s, ok := value.(string); ok {
 		return len(s) != 0
 	}
+	if arr, ok := c.value.([]any); ok {
+		return len(arr) != 0
+	}
 	return c.value != nil
 }
 
-- 
2.43.0


From 0952d98ba5238ee0a68d3468f88aac1832303e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 08/14] fix: do not step over the end of the integers in a
 slice

$[1::9223372036854775807] overflowed the index and asked the document for
a negative element.
---
 itr.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/itr.go b/itr.go
index aecccef..fed75c7 100644
--- a/itr.go
+++ b/itr.go
@@ -51,18 +51,20 @@ func (s *rangeIterator) next() bool {
 		return true
 
 	case 1: // iterating
-		s.at += s.step
+		// Compare with the distance left: at + step may overflow
 		if s.step > 0 {
-			if s.at >= s.to {
+			if s.step >= s.to-s.at {
 				s.state = 2
 				return false
 			}
+			s.at += s.step
 			return true
 		}
-		if s.at <= s.to {
+		if s.step <= s.to-s.at {
 			s.state = 2
 			return false
 		}
+		s.at += s.step
 		return true
 	}
 	return false
-- 
2.43.0


From e09d4b7f7bcfbb76f2e94e4eff61efeefb5b2434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 09/14] fix: hand capture a path of its own

All captured paths shared the buffer the search goes on working in, so a
path kept after the callback returned was overwritten by later ones, and a
callback changing its path changed the search.
---
 path.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 5109f39..7fc7cc9 100644
--- a/path.go
+++ b/path.go
@@ -109,7 +109,10 @@ func Search(doc DocModel, path Path, capture func(DocPath)) error {
 	}
 	el.Type = doc.Type(el.Node)
 	ctx.path.P = append(ctx.path.P, el)
-	return evaluateAt(ctx, path, 0, capture)
+	return evaluateAt(ctx, path, 0, func(docPath DocPath) {
+		// ctx.path is reused during the search, capture gets a copy it can keep
+		capture(DocPath{P: append([]Segment(nil), docPath.P...)})
+	})
 }
 
 func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) error {
-- 
2.43.0


From 4901a52217e756c388dc778d523f059974705567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 10/14] fix: ask the document for the value of value nodes only

DocModel.Value is defined for value nodes, but a filter such as
$[?(@.a == 1)] called it for objects and arrays too, which a document
model may refuse. length() now uses DocModel.Len.
---
 expression.go | 18 +++++++++++++++---
 funcs.go      |  3 +++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/expression.go b/expression.go
index a97c2c0..30aab2e 100644
--- a/expression.go
+++ b/expression.go
@@ -31,6 +31,15 @@ type nodeValue struct {
 	doc  DocModel
 }
 
+// The value of a value node. Objects and arrays have no value other
+// than the node itself.
+func (n nodeValue) getValue() any {
+	if n.doc.Type(n.node) != ValueNode {
+		return n
+	}
+	return n.doc.Value(n.node)
+}
+
 func (c exprValue) evaluate(*context) (exprValue, error) { return c, nil }
 
 // Return an int, float, bool, or string as int or float64. If not convertable, returns nil
@@ -58,7 +67,7 @@ func valueAsNumber(value any) any {
 			return f
 		}
 	}
-	if n, ok := value.(nodeValue); ok {
+	if n, ok := value.(nodeValue); ok && n.doc.Type(n.node) == ValueNode {
 		return valueAsNumber(n.doc.Value(n.node))
 	}
 	return nil
@@ -108,7 +117,7 @@ func (c exprValue) asBool() bool {
 func (c exprValue) getValue() any {
 	n, ok := c.value.(nodeValue)
 	if ok {
-		return n.doc.Value(n.node)
+		return n.getValue()
 	}
 	return c.value
 }
@@ -379,6 +388,9 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	}
 
 	if i, ok := lvalue.(string); ok {
+		if _, ok := rvalue.(nodeValue); ok {
+			return 0, false, nil
+		}
 		j, ok := rvalue.(string)
 		if !ok {
 			j = fmt.Sprint(rvalue)
@@ -662,7 +674,7 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 	for _, x := range arr {
 		var v any
 		if n, ok := x.(nodeValue); ok {
-			v = n.doc.Value(n.node)
+			v = n.getValue()
 		} else {
 			v = x
 		}
diff --git a/funcs.go b/funcs.go
index 197c8b0..d84c883 100644
--- a/funcs.go
+++ b/funcs.go
@@ -11,5 +11,8 @@ func lengthFunc(in []any) (any, error) {
 	if x, ok := in[0].([]any); ok {
 		return len(x), nil
 	}
+	if n, ok := in[0].(nodeValue); ok && n.doc.Type(n.node) == ArrayNode {
+		return n.doc.Len(n.node), nil
+	}
 	return 0, nil
 }
-- 
2.43.0


From 59ca460d49acf638cb354ba09f74b698230d426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 11/14] fix: let 'in' compare values

The in operator compared its left operand's wrapper with the elements on
the right, which is never equal, so it selected nothing.
---
 expression.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/expression.go b/expression.go
index 30aab2e..f536c6c 100644
--- a/expression.go
+++ b/expression.go
@@ -672,14 +672,12 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 		arr = []any{r.value}
 	}
 	for _, x := range arr {
-		var v any
-		if n, ok := x.(nodeValue); ok {
-			v = n.getValue()
-		} else {
-			v = x
+		eq, err := equalityExpression{left: l, right: exprValue{value: x}}.evaluate(ctx)
+		if err != nil {
+			return exprValue{}, err
 		}
-		if l == v {
-			return exprValue{value: true}, nil
+		if eq.asBool() {
+			return eq, nil
 		}
 	}
 	return exprValue{value: false}, nil
-- 
2.43.0


From fafe7e97503b57d7817c2dd0c14820153670c8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 12/14] fix: select slices at any depth for '..[from:to]'

---
 parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 5a56617..4a28ab9 100644
--- a/parser.go
+++ b/parser.go
@@ -151,7 +151,12 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 
 	case *parser.MemberIndexExpressionContext:
 		var left, right Path
-		if left, err = astPath(expr.Expression()); err != nil {
+		sub, recursive := expr.Expression(), false
+		if term, ok := sub.(*parser.RecursiveDescentTermExpressionContext); ok {
+			// The grammar reads ..[1:2] as .. followed by [1:2]
+			sub, recursive = term.Expression(), true
+		}
+		if left, err = astPath(sub); err != nil {
 			return
 		}
 		indexExprs := expr.AllIndexExpression()
@@ -160,7 +165,7 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 		}
 		// Combine paths
 		path.selectors = append(left.selectors, right.selectors...)
-		path.recursive = append(left.recursive[:len(left.recursive)-1], false)
+		path.recursive = append(left.recursive[:len(left.recursive)-1], recursive)
 		path.recursive = append(path.recursive, right.recursive...)
 		return
 
-- 
2.43.0


From 6c9ae43a271f12e4a488363c6450c5d2b609c63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:27 +0000
Subject: [PATCH 13/14] fix: give paths made by Key, Index and Push memory of
 their own

Two paths made from the same path shared the memory behind it, so making
the second could overwrite the first, and two goroutines doing that raced.
---
 docpath.go | 10 +++++-----
 path.go    | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/docpath.go b/docpath.go
index f00616a..e7c8d33 100644
--- a/docpath.go
+++ b/docpath.go
@@ -17,26 +17,26 @@ type Segment struct {
 
 // Add a key-value to the path. The value is of type valueType. Returns the new path
 func (path DocPath) Key(key string, value any, valueType NodeType) DocPath {
-	path.P = append(path.P, Segment{
+	return path.Push(Segment{
 		Node: value,
 		Name: key,
 		Type: valueType,
 	})
-	return path
 }
 
 // Add an array index-value to the path. The value is of type valueType. Returns the new path
 func (path DocPath) Index(index int, value any, valueType NodeType) DocPath {
-	path.P = append(path.P, Segment{
+	return path.Push(Segment{
 		Node:  value,
 		Index: index,
 		Type:  valueType,
 	})
-	return path
 }
 
+// Add a segment to the path. Returns the new path
 func (path DocPath) Push(seg Segment) DocPath {
-	path.P = append(path.P, seg)
+	// The new path gets memory of its own, others may be made from path
+	path.P = append(path.P[:len(path.P):len(path.P)], seg)
 	return path
 }
 
diff --git a/path.go b/path.go
index 7fc7cc9..fe505bb 100644
--- a/path.go
+++ b/path.go
@@ -142,7 +142,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 			for childNodeElements.next() {
 				var childNode Segment
 				childNodeElements.item(&childNode)
-				ctx.path = ctx.path.Push(childNode)
+				ctx.path.P = append(ctx.path.P, childNode)
 				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {
 					return err
 				}
@@ -161,7 +161,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 				if !ok {
 					continue
 				}
-				ctx.path = ctx.path.Key(key, value, ctx.doc.Type(value))
+				ctx.path.P = append(ctx.path.P, Segment{Node: value, Name: key, Type: ctx.doc.Type(value)})
 				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {
 					return err
 				}
@@ -172,7 +172,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 			for i := 0; i < n; i++ {
 				value := ctx.doc.Elem(node, i)
 				index := i
-				ctx.path = ctx.path.Index(index, value, ctx.doc.Type(value))
+				ctx.path.P = append(ctx.path.P, Segment{Node: value, Index: index, Type: ctx.doc.Type(value)})
 				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {
 					return err
 				}
@@ -195,7 +195,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 				if !ok {
 					continue
 				}
-				ctx.path = ctx.path.Key(key, value, ctx.doc.Type(value))
+				ctx.path.P = append(ctx.path.P, Segment{Node: value, Name: key, Type: ctx.doc.Type(value)})
 				if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {
 					return err
 				}
@@ -209,7 +209,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 			for i := 0; i < n; i++ {
 				value := ctx.doc.Elem(node, i)
 				index := i
-				ctx.path = ctx.path.Index(index, value, ctx.doc.Type(value))
+				ctx.path.P = append(ctx.path.P, Segment{Node: value, Index: index, Type: ctx.doc.Type(value)})
 				if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {
 					return err
 				}
-- 
2.43.0


From 6bd128205d06698ecaa78dfd38ca2156c77bdb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 14/14] fix: do not compare a string with the printed form of
 several nodes

---
 expression.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index f536c6c..7776275 100644
--- a/expression.go
+++ b/expression.go
@@ -388,7 +388,8 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	}
 
 	if i, ok := lvalue.(string); ok {
-		if _, ok := rvalue.(nodeValue); ok {
+		switch rvalue.(type) {
+		case nodeValue, []any:
 			return 0, false, nil
 		}
 		j, ok := rvalue.(string)
-- 
2.43.0

