From aeb9373648721175b09b5b9b04f4d8524fa43d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:19 +0000
Subject: [PATCH 01/12] fix: a value neither writes after an error nor replaces
 it

---
 value.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/value.go b/value.go
index c499054..88c16da 100644
--- a/value.go
+++ b/value.go
@@ -33,14 +33,17 @@ func NewConcatValue(values ...any) Value {
 }
 
 func (v Value) render(ctx *context.Context) (bool, error) {
+	if ctx.Error != nil {
+		return false, ctx.Error
+	}
 	var l int
 	if v.dynamicFunc != nil {
-		data := v.dynamicFunc(ctx)
-		l, ctx.Error = ctx.Writer.Write(data)
+		if data := v.dynamicFunc(ctx); ctx.Error == nil {
+			l, ctx.Error = ctx.Writer.Write(data)
+		}
 	} else if len(v.concats) > 0 {
-		var written bool
 		for _, concat := range v.concats {
-			if written, ctx.Error = concat.render(ctx); written {
+			if written, _ := concat.render(ctx); written {
 				l++
 			}
 		}
-- 
2.43.0


From 81b381f06722384e3e355bf436742e7c115f6d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 02/12] fix: nodes keep the first error instead of replacing or
 clearing it

---
 aitch.go       |  9 +++++++++
 collection.go  |  2 +-
 conditional.go |  2 +-
 element.go     | 10 +++++-----
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/aitch.go b/aitch.go
index a8f5e44..67b61a8 100644
--- a/aitch.go
+++ b/aitch.go
@@ -22,6 +22,15 @@ type Node interface {
 	Name() string
 }
 
+// renderNode renders a node and makes sure that the error it returns (if any) is
+// recorded in the context, which always keeps the first error
+func renderNode(ctx *context.Context, n Node) error {
+	if err := n.Render(ctx); err != nil && ctx.Error == nil {
+		ctx.Error = err
+	}
+	return ctx.Error
+}
+
 // NodeType is the node type (e.g. ElementNode, AttributeNode etc.) for a Node
 type NodeType int
 
diff --git a/collection.go b/collection.go
index 69243c3..c7ff4c5 100644
--- a/collection.go
+++ b/collection.go
@@ -11,7 +11,7 @@ type collection struct {
 func (c *collection) Render(ctx *context.Context) error {
 	for _, n := range c.nodes {
 		if n.Type() != AttributeNode {
-			if ctx.Error = n.Render(ctx); ctx.Error != nil {
+			if renderNode(ctx, n) != nil {
 				return ctx.Error
 			}
 		}
diff --git a/conditional.go b/conditional.go
index 580f1bb..7cf5cee 100644
--- a/conditional.go
+++ b/conditional.go
@@ -43,7 +43,7 @@ func (c conditionalAttributes) evaluate(ctx *context.Context) map[string][]Node
 func (c *conditional) Render(ctx *context.Context) error {
 	if c.fn(ctx) {
 		for _, n := range c.nodes {
-			if ctx.Error = n.Render(ctx); ctx.Error != nil {
+			if renderNode(ctx, n) != nil {
 				break
 			}
 		}
diff --git a/element.go b/element.go
index 3393d73..3647089 100644
--- a/element.go
+++ b/element.go
@@ -24,10 +24,10 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 						}
 						_ = use.Render(ctx)
 					default:
-						_ = eAttr[len(eAttr)-1].Render(ctx)
+						_ = renderNode(ctx, eAttr[len(eAttr)-1])
 					}
 				} else {
-					_ = attr.Render(ctx)
+					_ = renderNode(ctx, attr)
 				}
 			}
 			for name, ca := range evaluated {
@@ -46,7 +46,7 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 						}
 						_ = use.Render(ctx)
 					default:
-						_ = ca[len(ca)-1].Render(ctx)
+						_ = renderNode(ctx, ca[len(ca)-1])
 					}
 				}
 			}
@@ -54,7 +54,7 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 		}
 	}
 	for _, attr := range attributes {
-		_ = attr.Render(ctx)
+		_ = renderNode(ctx, attr)
 	}
 }
 
@@ -131,7 +131,7 @@ func (e *element) Render(ctx *context.Context) error {
 	renderAttributes(ctx, e.attributes, e.attIndices, e.conditionals)
 	ctx.Write(closeAngleBracket)
 	for _, c := range e.contents {
-		ctx.Error = c.Render(ctx)
+		_ = renderNode(ctx, c)
 	}
 	ctx.Write(closeTagStart)
 	ctx.Write(e.name)
-- 
2.43.0


From bb21df9e4fea8740c9baa85b23a482430bd95359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 03/12] fix: report errors returned by collected, imperative
 and document nodes

---
 collection.go    | 2 +-
 html/document.go | 8 ++++++--
 imperative.go    | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/collection.go b/collection.go
index c7ff4c5..577d557 100644
--- a/collection.go
+++ b/collection.go
@@ -47,7 +47,7 @@ type contentCollector struct {
 func (c *contentCollector) Render(ctx *context.Context) error {
 	for _, n := range c.collector(ctx) {
 		if n != nil && n.Type() != AttributeNode {
-			_ = n.Render(ctx)
+			_ = renderNode(ctx, n)
 		}
 	}
 	return ctx.Error
diff --git a/html/document.go b/html/document.go
index 829565b..2d1d7eb 100644
--- a/html/document.go
+++ b/html/document.go
@@ -12,10 +12,14 @@ type document struct {
 
 func (d *document) Render(ctx *context.Context) error {
 	if d.prologue != nil {
-		_ = d.prologue.Render(ctx)
+		if err := d.prologue.Render(ctx); err != nil && ctx.Error == nil {
+			ctx.Error = err
+		}
 	}
 	for _, n := range d.contents {
-		_ = n.Render(ctx)
+		if err := n.Render(ctx); err != nil && ctx.Error == nil {
+			ctx.Error = err
+		}
 	}
 	return ctx.Error
 }
diff --git a/imperative.go b/imperative.go
index 45fcf7c..789935e 100644
--- a/imperative.go
+++ b/imperative.go
@@ -70,7 +70,7 @@ func (ic *imperativeContext) WriteRaw(data []byte) {
 func (ic *imperativeContext) WriteNodes(nodes ...Node) {
 	for _, node := range nodes {
 		if node != nil && node.Type() != AttributeNode {
-			_ = node.Render(ic.ctx)
+			_ = renderNode(ic.ctx, node)
 		}
 	}
 }
-- 
2.43.0


From d22601cd3ec30fa2bd5f9cfe119d5cfa00be4bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:23 +0000
Subject: [PATCH 04/12] fix: an imperative node reports write failures and
 records its error

---
 imperative.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/imperative.go b/imperative.go
index 789935e..78d60b9 100644
--- a/imperative.go
+++ b/imperative.go
@@ -35,11 +35,13 @@ type imperative struct {
 	fn func(ctx ImperativeContext) error
 }
 
-func (i *imperative) Render(ctx *context.Context) (err error) {
+func (i *imperative) Render(ctx *context.Context) error {
 	if i.fn != nil {
-		err = i.fn(&imperativeContext{ctx: ctx})
+		if err := i.fn(&imperativeContext{ctx: ctx}); err != nil && ctx.Error == nil {
+			ctx.Error = err
+		}
 	}
-	return
+	return ctx.Error
 }
 
 func (i *imperative) Type() NodeType {
-- 
2.43.0


From 088cb295ed217101f69695551f9f3e04ce46f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 05/12] fix: iterations stop at the first error, and a yielded
 item never sees the data of an earlier one

---
 iterate.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/iterate.go b/iterate.go
index 6a300d8..f8acc0e 100644
--- a/iterate.go
+++ b/iterate.go
@@ -77,7 +77,7 @@ func (i *iterator) Render(ctx *context.Context) error {
 	if ctx.Error != nil {
 		return ctx.Error
 	}
-	if items := i.fn(ctx); len(items) > 0 {
+	if items := i.fn(ctx); len(items) > 0 && ctx.Error == nil {
 		ictx := &context.Context{
 			Error:  ctx.Error,
 			Writer: ctx.Writer,
@@ -91,14 +91,14 @@ func (i *iterator) Render(ctx *context.Context) error {
 				ictx.Data = ctx.Data
 			}
 			for _, n := range i.nodes {
-				if err := n.Render(ictx); err != nil {
-					ctx.Error = err
-					return err
+				if renderNode(ictx, n) != nil {
+					ctx.Error = ictx.Error
+					return ctx.Error
 				}
 			}
 		}
 	}
-	return nil
+	return ctx.Error
 }
 
 func (i *iterator) Type() NodeType {
@@ -152,13 +152,18 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 		Parent: ctx,
 	}
 	i.fn(ctx, func(item any) {
+		if ctx.Error != nil {
+			return
+		}
 		ictx.Cargo = item
 		if mi, ok := item.(map[string]any); ok {
 			ictx.Data = mi
+		} else {
+			ictx.Data = ctx.Data
 		}
 		for _, n := range i.nodes {
-			if err := n.Render(ictx); err != nil {
-				ctx.Error = err
+			if renderNode(ictx, n) != nil {
+				ctx.Error = ictx.Error
 				return
 			}
 		}
-- 
2.43.0


From 887e0208cfa31287a8444f4cc81d81290f28c018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 06/12] fix: merging delimited attributes no longer alters the
 attribute node passed in

---
 attribute.go | 12 ++++++++++++
 element.go   |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/attribute.go b/attribute.go
index 53bb020..b1a08e9 100644
--- a/attribute.go
+++ b/attribute.go
@@ -120,6 +120,18 @@ func (a *delimitedAttribute) Render(ctx *context.Context) error {
 	return ctx.Error
 }
 
+// merge returns a new delimitedAttribute with the values of both (neither of which is altered)
+func (a *delimitedAttribute) merge(with *delimitedAttribute) *delimitedAttribute {
+	values := make([]Value, 0, len(a.values)+len(with.values))
+	values = append(values, a.values...)
+	values = append(values, with.values...)
+	return &delimitedAttribute{
+		name:      a.name,
+		delimiter: a.delimiter,
+		values:    values,
+	}
+}
+
 func (a *delimitedAttribute) Type() NodeType {
 	return AttributeNode
 }
diff --git a/element.go b/element.go
index 3647089..17436a6 100644
--- a/element.go
+++ b/element.go
@@ -88,7 +88,7 @@ func (e *voidElement) addAttributes(attrs []Node) Node {
 			existing := e.attributes[idx]
 			if delimited, ok := existing.(*delimitedAttribute); ok {
 				if addD, ok := att.(*delimitedAttribute); ok {
-					delimited.values = append(delimited.values, addD.values...)
+					e.attributes[idx] = delimited.merge(addD)
 					continue
 				}
 			}
@@ -154,7 +154,7 @@ func (e *element) addAttributes(attrs []Node) Node {
 			existing := e.attributes[idx]
 			if delimited, ok := existing.(*delimitedAttribute); ok {
 				if addD, ok := att.(*delimitedAttribute); ok {
-					delimited.values = append(delimited.values, addD.values...)
+					e.attributes[idx] = delimited.merge(addD)
 					continue
 				}
 			}
-- 
2.43.0


From 51d649f773c5e4f4f9873e13a7fa12de124cf7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 07/12] fix: render attributes in the order they were declared

---
 element.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/element.go b/element.go
index 17436a6..68e2ab5 100644
--- a/element.go
+++ b/element.go
@@ -8,9 +8,8 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 	if len(conditionals) > 0 {
 		if evaluated := conditionals.evaluate(ctx); len(evaluated) > 0 {
 			use := &delimitedAttribute{}
-			for name, index := range attIndices {
-				attr := attributes[index]
-				if eAttr, ok := evaluated[name]; ok {
+			for _, attr := range attributes {
+				if eAttr, ok := evaluated[attr.Name()]; ok {
 					switch at := attr.(type) {
 					case *delimitedAttribute:
 						use.name = at.name
@@ -30,7 +29,10 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 					_ = renderNode(ctx, attr)
 				}
 			}
-			for name, ca := range evaluated {
+			for _, c := range conditionals {
+				name := c.attribute.Name()
+				ca := evaluated[name]
+				delete(evaluated, name) // each name once only - where it was first declared
 				if _, ok := attIndices[name]; !ok && len(ca) > 0 {
 					first := ca[0]
 					switch at := first.(type) {
-- 
2.43.0


From 0ae89d2532630665e825d64a50c20402d2d3d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 08/12] fix: sibling conditions no longer overwrite each other

---
 element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/element.go b/element.go
index 68e2ab5..13f9985 100644
--- a/element.go
+++ b/element.go
@@ -253,7 +253,7 @@ func attributesAndContents(conditions []ConditionalFunc, content []Node) (attrs
 					attrs = append(attrs, addA...)
 					condAttrs = append(condAttrs, addCa...)
 				case *conditional:
-					newConditions := append(conditions, cn.fn)
+					newConditions := append(conditions[:len(conditions):len(conditions)], cn.fn)
 					for _, a := range cn.attributes {
 						condAttrs = append(condAttrs, conditionalAttribute{
 							attribute:  a,
-- 
2.43.0


From 87a01077d211ef28d99c77cef5b639ea052ad4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 09/12] fix: css units no longer write into the slice of the
 caller

---
 css/units.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/css/units.go b/css/units.go
index f7d4c47..936323b 100644
--- a/css/units.go
+++ b/css/units.go
@@ -22,75 +22,75 @@ var (
 
 // Px creates a value with "px" (pixels)
 func Px(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPx)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitPx)...)
 }
 
 // Pt creates a value with "pt" (points)
 func Pt(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPt)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitPt)...)
 }
 
 // Pc creates a value with "pc" (picas)
 func Pc(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPc)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitPc)...)
 }
 
 // In creates a value with "in" (inches)
 func In(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitInch)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitInch)...)
 }
 
 // Cm creates a value with "cm" (centimeters)
 func Cm(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitCm)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitCm)...)
 }
 
 // Mm creates a value with "mm" (millimeters)
 func Mm(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitMm)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitMm)...)
 }
 
 // Em creates a value with "em" (relative to parent font size)
 func Em(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitEm)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitEm)...)
 }
 
 // Rem creates a value with "rem" (relative to root font size)
 func Rem(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitRem)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitRem)...)
 }
 
 // Percent creates a value with "%" (unitPercent)
 func Percent(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPercent)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitPercent)...)
 }
 
 // Vw creates a value with "vw" (viewport width)
 func Vw(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVw)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitVw)...)
 }
 
 // Vh creates a value with "vh" (viewport height)
 func Vh(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVh)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitVh)...)
 }
 
 // VMin creates a value with "vmin" (smaller of vw or vh)
 func VMin(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVmin)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitVmin)...)
 }
 
 // VMax creates a value with "vmax" (larger of vw or vh)
 func VMax(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVmax)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitVmax)...)
 }
 
 // Ch creates a value with "ch" (width of 0 glyph)
 func Ch(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitCh)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitCh)...)
 }
 
 // Ex creates a value with "ex" (x-height of current font)
 func Ex(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitEx)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitEx)...)
 }
-- 
2.43.0


From 62875124579235425c6940ed274187b446c24bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 10/12] fix: imperative start no longer appends to the values
 of a shared attribute

---
 imperative.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imperative.go b/imperative.go
index 78d60b9..2228ebd 100644
--- a/imperative.go
+++ b/imperative.go
@@ -87,7 +87,7 @@ func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Nod
 		if attr != nil && attr.Type() == AttributeNode {
 			if idx, ok := attIndices[attr.Name()]; ok {
 				if da, ok := attr.(*delimitedAttribute); ok {
-					avs := attValues[idx]
+					avs := attValues[idx][:len(attValues[idx]):len(attValues[idx])]
 					for _, dv := range da.values {
 						if len(avs) > 0 {
 							avs = append(avs, Value{value: da.delimiter})
-- 
2.43.0


From 7dfb139933a6861062fabc9307a85750f2ae2b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 11/12] fix: code generators stop at the first write error and
 return it

---
 html/generator.go | 47 ++++++++++++++++++++++++++---------------------
 svg/generator.go  | 43 ++++++++++++++++++++++++-------------------
 2 files changed, 50 insertions(+), 40 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index ea0701f..ea87d18 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -34,10 +34,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 		return result
 	}
+	put := func(data []byte) {
+		if err == nil {
+			_, err = w.Write(data)
+		}
+	}
 	write := func(s string) {
-		_, err = w.Write(indent)
-		_, err = w.Write([]byte(s))
-		_, err = w.Write(nl)
+		put(indent)
+		put([]byte(s))
+		put(nl)
 	}
 	incIndent := func() {
 		indent = append(indent, tab)
@@ -60,40 +65,40 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		} else {
 			start = `aitch.Element("` + string(name) + `", `
 		}
-		_, err = w.Write(indent)
-		_, err = w.Write([]byte(start))
+		put(indent)
+		put([]byte(start))
 		if selfClosing && len(attrs) == 0 {
-			_, err = w.Write([]byte{')', ',', '\n'})
+			put([]byte{')', ',', '\n'})
 			return
 		}
 		for i, a := range attrs {
 			if i > 0 {
-				_, err = w.Write([]byte{',', ' '})
+				put([]byte{',', ' '})
 			}
 			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
 				if boolAttrs[strings.ToLower(a.Key)] {
-					_, err = w.Write([]byte(funcName(attr)))
-					_, err = w.Write([]byte{'(', ')'})
+					put([]byte(funcName(attr)))
+					put([]byte{'(', ')'})
 				} else {
-					_, err = w.Write([]byte(funcName(attr)))
-					_, err = w.Write([]byte{'(', '"'})
-					_, err = w.Write([]byte(escape(a.Val)))
-					_, err = w.Write([]byte{'"', ')'})
+					put([]byte(funcName(attr)))
+					put([]byte{'(', '"'})
+					put([]byte(escape(a.Val)))
+					put([]byte{'"', ')'})
 				}
 			} else {
-				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(a.Key))
-				_, err = w.Write([]byte{'"', ' ', ',', '"'})
-				_, err = w.Write([]byte(escape(a.Val)))
-				_, err = w.Write([]byte{'"', ')'})
+				put([]byte(`aitch.Attribute("`))
+				put([]byte(a.Key))
+				put([]byte{'"', ' ', ',', '"'})
+				put([]byte(escape(a.Val)))
+				put([]byte{'"', ')'})
 			}
 		}
 		if selfClosing {
-			_, err = w.Write([]byte{')', ','})
+			put([]byte{')', ','})
 		} else if len(attrs) > 0 {
-			_, err = w.Write([]byte{','})
+			put([]byte{','})
 		}
-		_, err = w.Write([]byte{'\n'})
+		put([]byte{'\n'})
 		if !selfClosing {
 			incIndent()
 		}
diff --git a/svg/generator.go b/svg/generator.go
index e5bfdfe..2ca2332 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -34,10 +34,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 		return result
 	}
+	put := func(data []byte) {
+		if err == nil {
+			_, err = w.Write(data)
+		}
+	}
 	write := func(s string) {
-		_, err = w.Write(indent)
-		_, err = w.Write([]byte(s))
-		_, err = w.Write(nl)
+		put(indent)
+		put([]byte(s))
+		put(nl)
 	}
 	incIndent := func() {
 		indent = append(indent, tab)
@@ -60,35 +65,35 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		} else {
 			start = `aitch.Element("` + string(name) + `", `
 		}
-		_, err = w.Write(indent)
-		_, err = w.Write([]byte(start))
+		put(indent)
+		put([]byte(start))
 		if selfClosing && len(attrs) == 0 {
-			_, err = w.Write([]byte{')', ',', '\n'})
+			put([]byte{')', ',', '\n'})
 			return
 		}
 		for i, a := range attrs {
 			if i > 0 {
-				_, err = w.Write([]byte{',', ' '})
+				put([]byte{',', ' '})
 			}
 			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
-				_, err = w.Write([]byte(funcName(attr)))
-				_, err = w.Write([]byte{'(', '"'})
-				_, err = w.Write([]byte(escape(a.Val)))
-				_, err = w.Write([]byte{'"', ')'})
+				put([]byte(funcName(attr)))
+				put([]byte{'(', '"'})
+				put([]byte(escape(a.Val)))
+				put([]byte{'"', ')'})
 			} else {
-				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(a.Key))
-				_, err = w.Write([]byte{'"', ' ', ',', '"'})
-				_, err = w.Write([]byte(escape(a.Val)))
-				_, err = w.Write([]byte{'"', ')'})
+				put([]byte(`aitch.Attribute("`))
+				put([]byte(a.Key))
+				put([]byte{'"', ' ', ',', '"'})
+				put([]byte(escape(a.Val)))
+				put([]byte{'"', ')'})
 			}
 		}
 		if selfClosing {
-			_, err = w.Write([]byte{')', ','})
+			put([]byte{')', ','})
 		} else if len(attrs) > 0 {
-			_, err = w.Write([]byte{','})
+			put([]byte{','})
 		}
-		_, err = w.Write([]byte{'\n'})
+		put([]byte{'\n'})
 		if !selfClosing {
 			incIndent()
 		}
-- 
2.43.0


From ce61591287feddbe4ecfdb890e0b8dd42f24367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 12/12] fix: Get no longer panics on unexported fields, nil
 embedded pointers or named string keys

---
 context/context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/context/context.go b/context/context.go
index cdbec55..7df739b 100644
--- a/context/context.go
+++ b/context/context.go
@@ -60,7 +60,7 @@ func Get[T any](ctx *Context, key string) (T, bool) {
 		switch v.Kind() {
 		case reflect.Map:
 			if v.Type().Key().Kind() == reflect.String {
-				if val := v.MapIndex(reflect.ValueOf(key)); val.IsValid() {
+				if val := v.MapIndex(reflect.ValueOf(key).Convert(v.Type().Key())); val.IsValid() {
 					if typed, ok := val.Interface().(T); ok {
 						return typed, true
 					}
@@ -68,7 +68,7 @@ func Get[T any](ctx *Context, key string) (T, bool) {
 			}
 		case reflect.Struct:
 			if f, ok := v.Type().FieldByName(key); ok {
-				if val := v.FieldByIndex(f.Index); val.IsValid() {
+				if val, err := v.FieldByIndexErr(f.Index); err == nil && val.CanInterface() {
 					if typed, ok := val.Interface().(T); ok {
 						return typed, true
 					}
-- 
2.43.0

