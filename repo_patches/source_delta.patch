From 748c07776cb59a97badc1f7e0670ffbb24baa8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 01/37] fix: open brackets carry the line they stand on

The node of '(' or '{' took the line of the last text pushed before it, so a
bracket after blank lines or separators reported an earlier line.
---
 extractor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor.go b/extractor.go
index 88ef608..da5d286 100755
--- a/extractor.go
+++ b/extractor.go
@@ -177,7 +177,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 			if ee != nil && ee.IncludeOpen { // /* // " `
 				buf.WriteByte(char)
 			} else { // ( {
-				insertNode(NewNode(bufLine, string(char)))
+				insertNode(NewNode(*line, string(char)))
 			}
 			*i++
 			ns, err := ee.Run(text, buf, i, line)
-- 
2.43.0


From f1f1fc9d11dcc20efa72dc17f8beceea38735412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 02/37] fix: read rune literals and escaped backslashes as Go
 does

A string ending in an escaped backslash ("\\") swallowed the code behind
it, and a rune literal such as '"' or '{' opened a string or a block.
---
 extractor.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/extractor.go b/extractor.go
index da5d286..0801285 100755
--- a/extractor.go
+++ b/extractor.go
@@ -66,7 +66,16 @@ var (
 		IncludeClose:      true,
 		SeparatorCharset:  nil,
 		ReturnKeyword:     "\"",
-		SkipReturnKeyword: "\\\"",
+		SkipReturnKeyword: "\\",
+	}
+
+	_runeExtractor = &extractor{
+		kind:              kind.Raw,
+		IncludeOpen:       true,
+		IncludeClose:      true,
+		SeparatorCharset:  nil,
+		ReturnKeyword:     "'",
+		SkipReturnKeyword: "\\",
 	}
 
 	_multilineStringExtractor = &extractor{
@@ -90,6 +99,7 @@ var (
 		"/*": _innerCommentExtractor,
 		"\"": _stringExtractor,
 		"`":  _multilineStringExtractor,
+		"'":  _runeExtractor,
 	}
 )
 
@@ -172,9 +182,9 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 		char = text[*i]
 
 		if ee, ok := e.DeeperExtract().PrefixFit(text[*i:]); ok {
-			// () {} /**/ "" `` //\n
+			// () {} /**/ "" `` '' //\n
 			pushNode(true)
-			if ee != nil && ee.IncludeOpen { // /* // " `
+			if ee != nil && ee.IncludeOpen { // /* // " ` '
 				buf.WriteByte(char)
 			} else { // ( {
 				insertNode(NewNode(*line, string(char)))
@@ -190,15 +200,19 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 
 		trailing := text[:*i+1]
 		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) {
-			// skip return
+			// skip return: the char behind '\' never returns, whatever it is
 			buf.WriteByte(char)
+			if *i+1 < len(text) {
+				*i++
+				buf.WriteByte(text[*i])
+			}
 			lineStep()
 			continue
 		}
 
 		if len(e.ReturnKeyword) != 0 && helper.HasSuffix(trailing, e.ReturnKeyword) {
-			// inside ) } */ " ` \n
-			if e.IncludeClose { // */ " `
+			// inside ) } */ " ` ' \n
+			if e.IncludeClose { // */ " ` '
 				buf.WriteByte(char)
 				pushNode(false, e.Kind()...)
 			} else {
-- 
2.43.0


From 797b66c2d683c584c0a4c7a283525279ec16430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 03/37] fix: '/*/' opens a comment, it does not close it

The '*' of the opening was matched again as part of the closing '*/'.
---
 extractor.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/extractor.go b/extractor.go
index 0801285..ac35923 100755
--- a/extractor.go
+++ b/extractor.go
@@ -105,17 +105,17 @@ var (
 
 type deeperExtract map[string]*extractor
 
-func (de deeperExtract) PrefixFit(s []byte) (*extractor, bool) {
+func (de deeperExtract) PrefixFit(s []byte) (string, *extractor, bool) {
 	if de == nil {
-		return nil, false
+		return "", nil, false
 	}
 
 	for k, v := range de {
 		if helper.HasPrefix(s, k) {
-			return v, true
+			return k, v, true
 		}
 	}
-	return nil, false
+	return "", nil, false
 }
 
 type extractor struct {
@@ -138,6 +138,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 	)
 
 	bufLine := *line
+	begin := *i // the close keyword never overlaps the open keyword
 
 	insertNode := func(n *Node) {
 		if n == nil {
@@ -181,15 +182,15 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 	for ; *i < len(text); *i++ {
 		char = text[*i]
 
-		if ee, ok := e.DeeperExtract().PrefixFit(text[*i:]); ok {
+		if open, ee, ok := e.DeeperExtract().PrefixFit(text[*i:]); ok {
 			// () {} /**/ "" `` '' //\n
 			pushNode(true)
 			if ee != nil && ee.IncludeOpen { // /* // " ` '
-				buf.WriteByte(char)
+				buf.WriteString(open)
 			} else { // ( {
-				insertNode(NewNode(*line, string(char)))
+				insertNode(NewNode(*line, open))
 			}
-			*i++
+			*i += len(open)
 			ns, err := ee.Run(text, buf, i, line)
 			if err != nil {
 				return nil, err
@@ -198,7 +199,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 			continue
 		}
 
-		trailing := text[:*i+1]
+		trailing := text[begin : *i+1]
 		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) {
 			// skip return: the char behind '\' never returns, whatever it is
 			buf.WriteByte(char)
-- 
2.43.0


From 465d5a4a5f0296a11043bf67b80cec2884d7cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 04/37] fix: a comment that ends with the text is a comment

Without a final newline the last line comment got the kind Raw.
---
 extractor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor.go b/extractor.go
index ac35923..8621d40 100755
--- a/extractor.go
+++ b/extractor.go
@@ -234,7 +234,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 
 		lineStep()
 	}
-	pushNode(true)
+	pushNode(!e.IncludeClose, e.Kind()...)
 	return head, nil
 }
 
-- 
2.43.0


From a093d7fbec045416907a05753a2f69dd4a23b725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 05/37] fix: combining a type keeps every node of it exactly
 once

Nodes skipped while collecting (comments) were cut out of the chain and nodes
collected twice were written twice, so the source text changed.
---
 kind_resetter_all.go  | 30 ++++++++++++++++++++++++------
 kind_resetter_func.go |  7 +------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index 5938780..21c4d2d 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -105,6 +105,29 @@ func handleHook(n *Node, hooks ...func(*Node)) {
 // 	})
 // }
 
+// combineConnected combines the leading nodes of buf that directly follow one another into the
+// first one. It leaves out the rest, so no node between them gets lost and none is taken twice,
+// and leaves out trailing spaces.
+func combineConnected(k kind.Kind, buf []*Node) {
+	if len(buf) == 0 {
+		return
+	}
+
+	count := 1
+	for count < len(buf) && buf[count] != nil && buf[count] == buf[count-1].Next() {
+		count++
+	}
+
+	for count > 1 && buf[count-1].Kind() == kind.Space {
+		count--
+	}
+
+	n := buf[0]
+	next := buf[count-1].Next()
+	n = n.CombineNext(k, buf[1:count]...)
+	n.ReplaceNext(next)
+}
+
 type paramResetter struct {
 	skip        bool
 	resetKind   kind.Kind
@@ -129,12 +152,7 @@ func (r paramResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 	returnKindSet := charset.New(r.returnKinds...)
 
 	defer func() {
-		if len(buf) != 0 {
-			n := buf[0]
-			next := buf[len(buf)-1].Next()
-			n = n.CombineNext(r.resetKind, buf[1:]...)
-			n.ReplaceNext(next)
-		}
+		combineConnected(r.resetKind, buf)
 	}()
 
 	return head.IterNext(func(n *Node) bool {
diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 4c6484c..3a2a000 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -249,12 +249,7 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 	)
 
 	defer func() {
-		if len(buf) != 0 {
-			n := buf[0]
-			next := buf[len(buf)-1].Next()
-			n = n.CombineNext(kind.ParamType, buf[1:]...)
-			n.ReplaceNext(next)
-		}
+		combineConnected(kind.ParamType, buf)
 	}()
 
 	return head.IterNext(func(n *Node) bool {
-- 
2.43.0


From f4fce4b52b49af06b01c6d2fc74c5c781b51f706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 06/37] fix: only a whole keyword starts a scope

A label such as 'typeLoop:' at the line start split its function in two.
---
 scope.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scope.go b/scope.go
index 4e10c51..00c4d15 100755
--- a/scope.go
+++ b/scope.go
@@ -180,7 +180,12 @@ func isScopeKind(s string, k scope.Kind) bool {
 		return false
 	}
 
-	return s[:len(ks)] == ks
+	switch k {
+	case scope.Comment, scope.InnerComment:
+		return s[:len(ks)] == ks
+	default: // a keyword, not an identifier that starts like one
+		return s == ks
+	}
 }
 
 func (d *scopeStruct) GetFuncName() (string, bool) {
-- 
2.43.0


From 251e5210c37fd2713849fe5219fe1fad55d72f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 07/37] fix: ParseScope counts lines from the given start line

Only 0 worked: the nodes were numbered from 0 whatever the start line, and
with any other start line the scope on that line was skipped or cut.
---
 extractor.go | 9 ++++++++-
 scope.go     | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/extractor.go b/extractor.go
index 8621d40..4272f97 100755
--- a/extractor.go
+++ b/extractor.go
@@ -9,11 +9,18 @@ import (
 )
 
 // extract parses file text content into nodes.
-func extract(text []byte) (*Node, error) {
+//
+// The first node stands at startLine, 0 by default.
+func extract(text []byte, startLine ...int) (*Node, error) {
 	var (
 		i, line int
 		buf     strings.Builder
 	)
+
+	if len(startLine) != 0 {
+		line = startLine[0]
+	}
+
 	node, err := _commonExtractor.Run(text, &buf, &i, &line)
 	if err != nil {
 		return nil, err
diff --git a/scope.go b/scope.go
index 00c4d15..5c7e22a 100755
--- a/scope.go
+++ b/scope.go
@@ -61,7 +61,7 @@ func NewScope(line int, kind scope.Kind, node *Node) Scope {
 
 // ParseScope parses the given text into scopes.
 func ParseScope(startLine int, text []byte) ([]Scope, error) {
-	node, err := extract(text)
+	node, err := extract(text, startLine)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 8055a57aa4de633f6fba554892cbda4d60144f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 08/37] fix: any identifier can name a function, a method or a
 type

Names like 'string' or '_' were not found: only nodes of kind Raw were.
---
 kind_resetter_all.go  |  8 ++++++++
 kind_resetter_func.go | 20 ++++++++++----------
 kind_resetter_type.go |  6 +++---
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index 21c4d2d..b0ceafb 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -1,6 +1,8 @@
 package goast
 
 import (
+	"go/token"
+
 	"github.com/yanun0323/goast/charset"
 	"github.com/yanun0323/goast/helper"
 	"github.com/yanun0323/goast/kind"
@@ -105,6 +107,12 @@ func handleHook(n *Node, hooks ...func(*Node)) {
 // 	})
 // }
 
+// isIdentifier reports whether the node could be the name of a declaration. A name like a basic
+// type or '_' has another kind than kind.Raw.
+func isIdentifier(n *Node) bool {
+	return token.IsIdentifier(n.Text())
+}
+
 // combineConnected combines the leading nodes of buf that directly follow one another into the
 // first one. It leaves out the rest, so no node between them gets lost and none is taken twice,
 // and leaves out trailing spaces.
diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 3a2a000..e223333 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -84,10 +84,10 @@ func (r funcResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 
 		// determine func or method
 		if !foundFuncOrMethod {
-			switch n.Kind() {
-			case kind.Raw:
+			switch {
+			case isIdentifier(n):
 				foundFuncOrMethod = true
-			case kind.ParenthesisLeft:
+			case n.Kind() == kind.ParenthesisLeft:
 				foundFuncOrMethod = true
 				isMethod = true
 			default:
@@ -157,14 +157,14 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 			return !isFuncParamHandled
 		}
 
-		switch n.Kind() {
-		case kind.Comment:
+		if !isFuncNameAssigned && isIdentifier(n) {
+			n.SetKind(kind.FuncName)
+			isFuncNameAssigned = true
 			return true
-		case kind.Raw:
-			if !isFuncNameAssigned {
-				n.SetKind(kind.FuncName)
-				isFuncNameAssigned = true
-			}
+		}
+
+		switch n.Kind() {
+		case kind.Comment, kind.Raw:
 			return true
 		case kind.Space:
 			if isFuncNameAssigned && isFuncParamHandled {
diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index c703357..23aed2c 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -40,10 +40,10 @@ func (r typeResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		}
 
 		if !isTypeNameAssigned {
-			switch n.Kind() {
-			case kind.CurlyBracketRight, kind.NewLine: // return kind
+			switch {
+			case n.Kind() == kind.CurlyBracketRight, n.Kind() == kind.NewLine: // return kind
 				return false
-			case kind.Raw:
+			case isIdentifier(n):
 				n.SetKind(kind.TypeName)
 				isTypeNameAssigned = true
 				return true
-- 
2.43.0


From 564a558311fa935520c6fdfa068bb4b7d0a8932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 09/37] fix: the result of a func type is a type, not a func
 name

In 'type F func(int) Result' the name Result got the kind FuncName.
---
 kind_resetter_func.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index e223333..38b8e7a 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -128,6 +128,10 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 		isReturnKind       charset.Set[kind.Kind]
 	)
 
+	if r.isNotMethod {
+		isFuncNameAssigned = true // a func type has no name
+	}
+
 	if len(returnKinds) != 0 {
 		isReturnKind = charset.New(returnKinds...)
 	} else {
-- 
2.43.0


From e105089fb21719d8418c14189b53044b19309182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 10/37] fix: only a type defined as a struct or an interface is
 one

A map, slice or generic type that mentions 'struct' or 'interface' anywhere,
such as map[string]struct{}, was reported as a struct or an interface.
---
 scope.go | 52 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/scope.go b/scope.go
index 5c7e22a..d5d2894 100755
--- a/scope.go
+++ b/scope.go
@@ -230,21 +230,42 @@ func (d *scopeStruct) GetTypeName() (string, bool) {
 	return name, found
 }
 
+// typeDefinition returns the first node of what the type is defined as,
+// behind the type name, the type parameters and the '=' of an alias.
+func (d *scopeStruct) typeDefinition() *Node {
+	isGap := func(n *Node) bool {
+		switch n.Kind() {
+		case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
+			return true
+		default:
+			return n.Text() == "="
+		}
+	}
+
+	n := d.Node().IterNext(func(n *Node) bool { return n.Kind() != kind.TypeName }).Next().IterNext(isGap)
+	if n.Kind() != kind.SquareBracketLeft {
+		return n
+	}
+
+	// type parameters are set apart from the definition, an array length or a slice is not
+	next := n.skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight).Next()
+	if isGap(next) {
+		return next.IterNext(isGap)
+	}
+
+	return n
+}
+
 func (d *scopeStruct) GetStructName() (string, bool) {
 	if d.Kind() != scope.Type {
 		return "", false
 	}
 
-	isStruct := false
-
-	d.Node().IterNext(func(n *Node) bool {
-		isStruct = n.Kind() == kind.Struct
-		return !isStruct
-	})
-
-	typeName, _ := d.GetTypeName()
+	if d.typeDefinition().Kind() != kind.Struct {
+		return "", false
+	}
 
-	return typeName, isStruct
+	return d.GetTypeName()
 }
 
 func (d *scopeStruct) GetInterfaceName() (string, bool) {
@@ -252,16 +273,11 @@ func (d *scopeStruct) GetInterfaceName() (string, bool) {
 		return "", false
 	}
 
-	isInterface := false
-
-	d.Node().IterNext(func(n *Node) bool {
-		isInterface = n.Kind() == kind.Interface
-		return !isInterface
-	})
-
-	typeName, _ := d.GetTypeName()
+	if d.typeDefinition().Kind() != kind.Interface {
+		return "", false
+	}
 
-	return typeName, isInterface
+	return d.GetTypeName()
 }
 
 func (d *scopeStruct) GetMethodName() (string, bool) {
-- 
2.43.0


From 453cfdead8ae10e7f495b68c44013fafe7682918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 11/37] fix: a name that is not found is empty

GetTypeName, GetMethodName and GetMethodReceiver returned the text of the last
node of the scope next to false.
---
 scope.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/scope.go b/scope.go
index d5d2894..d62a626 100755
--- a/scope.go
+++ b/scope.go
@@ -222,8 +222,11 @@ func (d *scopeStruct) GetTypeName() (string, bool) {
 	)
 
 	d.Node().IterNext(func(n *Node) bool {
-		found = n.Kind() == kind.TypeName
-		name = n.Text()
+		if n.Kind() == kind.TypeName {
+			name = n.Text()
+			found = true
+		}
+
 		return !found
 	})
 
@@ -295,8 +298,11 @@ func (d *scopeStruct) GetMethodName() (string, bool) {
 	}
 
 	d.Node().IterNext(func(n *Node) bool {
-		found = n.Kind() == kind.FuncName
-		name = n.Text()
+		if n.Kind() == kind.FuncName {
+			name = n.Text()
+			found = true
+		}
+
 		return !found
 	})
 
@@ -314,8 +320,11 @@ func (d *scopeStruct) GetMethodReceiver() (string, bool) {
 	)
 
 	d.Node().IterNext(func(n *Node) bool {
-		found = n.Kind() == kind.MethodReceiverType
-		name = n.Text()
+		if n.Kind() == kind.MethodReceiverType {
+			name = n.Text()
+			found = true
+		}
+
 		return !found
 	})
 
-- 
2.43.0


From c7156a4b3fc9efeada80a0873eaee34158b1af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 12/37] fix: any identifier can be a package name, and none is
 ErrNoPackage

A package named like a basic type, and a package scope without a name, gave
the name "" and no error.
---
 ast.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 586f659..2ca783e 100755
--- a/ast.go
+++ b/ast.go
@@ -109,7 +109,7 @@ func findPackageName(scs []Scope) (string, error) {
 
 	packageKeywordAppeared := false
 	result := packageScope.Node().IterNext(func(n *Node) bool {
-		if packageKeywordAppeared && n.Kind() == kind.Raw {
+		if packageKeywordAppeared && isIdentifier(n) {
 			return false
 		}
 
@@ -120,6 +120,10 @@ func findPackageName(scs []Scope) (string, error) {
 		return true
 	})
 
+	if result == nil {
+		return "", ErrNoPackage
+	}
+
 	return result.Text(), nil
 }
 
-- 
2.43.0


From 707852c66ccd3a26f55345bb5b314cdce49c98b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 13/37] fix: NewNodes counts the newlines of the first text too

The nodes behind a first text with newlines stood on too early lines.
---
 node.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node.go b/node.go
index dee965b..5118795 100755
--- a/node.go
+++ b/node.go
@@ -31,6 +31,7 @@ func NewNodes(startLine int, texts ...string) *Node {
 
 	head := NewNode(startLine, texts[0])
 	cur := head
+	startLine += strings.Count(texts[0], "\n")
 	for _, text := range texts[1:] {
 		cur.InsertNext(NewNode(startLine, text))
 		cur = cur.Next()
-- 
2.43.0


From 2117fdf3aab8ec9b4ba83dfb0b47f49bb01e56d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 14/37] fix: combining into a nil node sets the kind of the new
 node

The kind was set on the nil receiver, before the first node took its place.
---
 node.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node.go b/node.go
index 5118795..bc8d453 100755
--- a/node.go
+++ b/node.go
@@ -290,6 +290,7 @@ func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
 	if n == nil {
 		n = nns[0]
 		nns = nns[1:]
+		n.SetKind(k)
 	}
 
 	buf := make([]string, 0, len(nns)+1)
@@ -325,6 +326,7 @@ func (n *Node) CombineNext(k kind.Kind, nns ...*Node) *Node {
 	if n == nil {
 		n = nns[0]
 		nns = nns[1:]
+		n.SetKind(k)
 	}
 
 	buf := make([]string, 0, len(nns)+1)
-- 
2.43.0


From 3fc9df8adc3f101c1b1c48572223d64631d0f6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 15/37] fix: AppendScope does not write into a scope slice
 shared with another ast

Two asts made from the same scopes (SetScope) overwrote each other's appended
scopes when the shared slice had spare capacity.
---
 ast.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 2ca783e..0eed4de 100755
--- a/ast.go
+++ b/ast.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"os"
 	"path/filepath"
+	"slices"
 	"strings"
 
 	"github.com/yanun0323/goast/helper"
@@ -209,7 +210,8 @@ func (f *ast) SetScope(scope []Scope) Ast {
 }
 
 func (f *ast) AppendScope(scs ...Scope) {
-	f.scope = append(f.scope, scs...)
+	// the slice may be shared with another ast (SetScope), its backing array must not change
+	f.scope = append(slices.Clip(f.scope), scs...)
 }
 
 func (f *ast) Description() string {
-- 
2.43.0


From 6ba4fbf133a3bbf4701c9b51a1a5d2ad77db54e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 16/37] fix: a scope's description shows the line of the scope

Line already counts from 1.
---
 scope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scope.go b/scope.go
index d62a626..76c0a0b 100755
--- a/scope.go
+++ b/scope.go
@@ -146,7 +146,7 @@ func (d *scopeStruct) Description() string {
 		return ""
 	}
 
-	return fmt.Sprintf("%d .... *Scope.%s", d.Line()+1, d.kind.String())
+	return fmt.Sprintf("%d .... *Scope.%s", d.Line(), d.kind.String())
 }
 
 func (d *scopeStruct) Print() {
-- 
2.43.0


From c3f5a92aff43026a4199ab0a1724eb48d218f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 17/37] fix: HasPrefix compares every byte of the prefix

Ranging over the string skipped all but the first byte of a multi-byte rune.
---
 helper/helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helper/helper.go b/helper/helper.go
index a1cda9a..3ec729d 100755
--- a/helper/helper.go
+++ b/helper/helper.go
@@ -109,7 +109,7 @@ func HasPrefix(s []byte, prefix string) bool {
 		return false
 	}
 
-	for i := range prefix {
+	for i := range len(prefix) {
 		if s[i] != prefix[i] {
 			return false
 		}
-- 
2.43.0


From 41b54b4c47cde72e4780d4abbdeee2b400b52e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 18/37] fix: Nil and NotNil accept arrays and nil funcs

An array cannot be nil and asking made reflect panic; a nil func was not nil.
---
 assert/assert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assert/assert.go b/assert/assert.go
index f5edca9..abed5f8 100755
--- a/assert/assert.go
+++ b/assert/assert.go
@@ -156,7 +156,7 @@ func (Assert) isNil(i any) bool {
 		return true
 	}
 	switch reflect.TypeOf(i).Kind() {
-	case reflect.Ptr, reflect.Map, reflect.Array, reflect.Chan, reflect.Slice:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Slice, reflect.Func:
 		return reflect.ValueOf(i).IsNil()
 	}
 	return false
-- 
2.43.0


From 21fb08fbc836b0407dc89382595a3acf4778743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 19/37] fix: a trie keeps the values of the prefixes of a new
 text

Adding 'any' erased the value of 'an', and only the first byte of a
multi-byte rune was stored, so texts that differ in the others collided.
---
 trie.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trie.go b/trie.go
index 50be38f..85121aa 100755
--- a/trie.go
+++ b/trie.go
@@ -23,8 +23,12 @@ func (t *trie_[T]) AddText(s string, value T) *trie_[T] {
 
 	var zero T
 	n := t
-	for i := range s {
-		n = n.Insert(s[i], zero)
+	for i := range len(s) {
+		next, ok := n.Next(s[i])
+		if !ok {
+			next = n.Insert(s[i], zero)
+		}
+		n = next
 	}
 	n.value = value
 	return n
@@ -55,7 +59,7 @@ func (t *trie_[T]) FindText(s string) (T, bool) {
 
 	n := t
 	ok := false
-	for i := range s {
+	for i := range len(s) {
 		n, ok = n.Next(s[i])
 		if !ok {
 			return n.Value(), false
-- 
2.43.0


From 06fdd682776db66370f35947543656a8f50b6adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 20/37] fix: tell parameter names from parameter types

In grouped params (a, b int) all but the last name were taken for types, in
unnamed params of a composite type ([]T, chan T, func() T, Option[T]) the type
was taken for a name, and whatever came behind a func param with results in
parentheses was taken for a result type.
---
 kind_resetter_func.go        | 14 +++---
 kind_resetter_parenthesis.go | 82 +++++++++++++++++++++++++-----------
 2 files changed, 67 insertions(+), 29 deletions(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 38b8e7a..11b5aad 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -220,12 +220,16 @@ func (r funcResetter) handleParameterFunc(head *Node, hooks ...func(*Node)) *Nod
 	helper.DebugPrint("funcResetter.handleParameterFunc", "\t\t....", head.debugText(5))
 	defer helper.DebugPrint("funcResetter.handleParameterFunc.Returned")
 
-	n := r.handleGeneralFunc(head, []kind.Kind{kind.Comma, kind.ParenthesisRight, kind.NewLine}, hooks...)
-	if n.Kind() == kind.ParenthesisRight {
-		handleHook(n, hooks...)
-		return n.Next()
+	n := head.findNext([]kind.Kind{kind.ParenthesisLeft}, findNodeOption{}, hooks...)
+	n = parenthesisResetter{}.Run(n, hooks...)
+
+	result := n.Next().findNext([]kind.Kind{kind.Space, kind.Comment}, findNodeOption{TargetReverse: true})
+	if result.Kind() == kind.ParenthesisLeft {
+		n = parenthesisResetter{}.Run(result, hooks...)
 	}
-	return n
+
+	handleHook(n, hooks...)
+	return n.Next()
 }
 
 // handleSingleReturnType starts with '\s', ends with '\n' and '\s' and '{'
diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 7b19243..513b5b3 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -27,6 +27,8 @@ func (r parenthesisResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 	var (
 		skipAll bool
 		jumpTo  *Node
+
+		named = r.isNamed(head)
 	)
 
 	return head.IterNext(func(n *Node) bool {
@@ -48,23 +50,64 @@ func (r parenthesisResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		case kind.Comment, kind.Comma, kind.ParenthesisLeft, kind.Tab, kind.NewLine, kind.Space:
 			return true
 		default:
-			jumpTo = r.handleParenthesisParam(n, r.isReceiver, hooks...)
+			jumpTo = r.handleParenthesisParam(n, r.isReceiver, named, hooks...)
 			skipAll = jumpTo == nil
 			return true
 		}
 	})
 }
 
+// isNamed starts with '(' and tells whether the params have names: all of them do, or none does.
+//
+// A param has a name if anything but its own type arguments comes behind a leading identifier.
+func (r parenthesisResetter) isNamed(head *Node) bool {
+	var (
+		depth int
+		first *Node
+		named bool
+	)
+
+	head.IterNext(func(n *Node) bool {
+		switch n.Kind() {
+		case kind.Comment, kind.Tab, kind.NewLine, kind.Space:
+			return true
+		case kind.ParenthesisRight, kind.CurlyBracketRight, kind.SquareBracketRight:
+			depth--
+			return depth != 0
+		}
+
+		if depth == 1 {
+			isTypeArgument := n.Kind() == kind.SquareBracketLeft && n == first.Next()
+			switch {
+			case n.Kind() == kind.Comma:
+				first = nil
+			case first == nil:
+				first = n
+			case isIdentifier(first) && !isTypeArgument:
+				named = true
+				return false
+			}
+		}
+
+		switch n.Kind() {
+		case kind.ParenthesisLeft, kind.CurlyBracketLeft, kind.SquareBracketLeft:
+			depth++
+		}
+
+		return true
+	})
+
+	return named
+}
+
 // handleParenthesisParam starts with next of '(' and ',', ends with ',' and ')'
-func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool, hooks ...func(*Node)) *Node {
+func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver, named bool, hooks ...func(*Node)) *Node {
 	helper.DebugPrint("parenthesisResetter.handleParenthesisParam", "\t\t....", head.debugText(5))
 	defer helper.DebugPrint("parenthesisResetter.handleParenthesisParam.Returned")
 
 	var (
 		skipAll bool
 		jumpTo  *Node
-
-		named bool
 	)
 
 	nameKind := kind.ParamName
@@ -74,19 +117,6 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 		typeKind = kind.MethodReceiverType
 	}
 
-	validParamCount := 0
-	head.IterNext(func(n *Node) bool {
-		switch n.Kind() {
-		case kind.Comma, kind.ParenthesisRight:
-			return false
-		case kind.Space, kind.Tab, kind.Comment, kind.NewLine:
-			return true
-		default:
-			validParamCount++
-			return true
-		}
-	})
-
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		if skipAll {
@@ -113,17 +143,21 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 			jumpTo = funcResetter{isParameter: true}.Run(n, hooks...)
 			skipAll = jumpTo == nil
 			return true
-		case kind.Raw, kind.ParamType /* for struct resetter */, kind.ParamName /* for struct resetter */ :
-			if validParamCount == 1 {
-				n.SetKind(typeKind)
+		case kind.CurlyBracketLeft:
+			jumpTo = curlyBracketResetter{skip: true}.Run(n, hooks...)
+			skipAll = jumpTo == nil
+			return true
+		case kind.Raw, kind.Basic, kind.Symbol, kind.ParamType /* for struct resetter */, kind.ParamName /* for struct resetter */ :
+			if named && isIdentifier(n) {
+				n.SetKind(nameKind)
+				named = false // the rest is the type
 				return true
 			}
 
-			if !named {
-				n.SetKind(nameKind)
-				named = true
-				return true
+			if n.Kind() == kind.Symbol || n.Kind() == kind.Basic && !isReceiver {
+				return true // keep the kind
 			}
+
 			n.SetKind(typeKind)
 			return true
 		default:
-- 
2.43.0


From d5939685d8942dec3c4c3c9b90aaa78b0050e989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 21/37] fix: a method of a one-line interface ends with ';' or
 '}'

---
 kind_resetter_func.go | 6 +++---
 kind_resetter_type.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 11b5aad..d2bf41f 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -39,7 +39,7 @@ func (r funcResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 	}
 
 	if r.isInterfaceDefinition {
-		return r.handleGeneralFunc(head, []kind.Kind{kind.NewLine}, hooks...)
+		return r.handleGeneralFunc(head, []kind.Kind{kind.NewLine, kind.Semicolon}, hooks...)
 	}
 
 	if r.isTemporaryFunc(head) {
@@ -232,7 +232,7 @@ func (r funcResetter) handleParameterFunc(head *Node, hooks ...func(*Node)) *Nod
 	return n.Next()
 }
 
-// handleSingleReturnType starts with '\s', ends with '\n' and '\s' and '{'
+// handleSingleReturnType starts with '\s', ends with '\n' and '\s' and '{' and '}' and ';'
 func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *Node {
 	helper.DebugPrint("funcResetter.handleSingleReturnType", "\t\t....", head.debugText(5))
 	defer helper.DebugPrint("funcResetter.handleSingleReturnType.Returned")
@@ -263,7 +263,7 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		switch n.Kind() {
-		case kind.NewLine, kind.Space, kind.CurlyBracketLeft: // return kind
+		case kind.NewLine, kind.Space, kind.CurlyBracketLeft, kind.CurlyBracketRight, kind.Semicolon: // return kind
 			return false
 		case kind.Comment:
 			return true
diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 23aed2c..25ec689 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -124,7 +124,7 @@ func (r interfaceResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		switch n.Kind() {
 		case kind.CurlyBracketRight: // return kind
 			return false
-		case kind.Tab, kind.Comment, kind.NewLine, kind.Space, kind.CurlyBracketLeft:
+		case kind.Tab, kind.Comment, kind.NewLine, kind.Space, kind.Semicolon, kind.CurlyBracketLeft:
 			return true
 		default:
 			if r.isThisLineFunction(n) {
@@ -139,7 +139,7 @@ func (r interfaceResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 				n.SetKind(kind.TypeName)
 			}
 
-			jumpTo = n.findNext([]kind.Kind{kind.NewLine, kind.CurlyBracketRight}, findNodeOption{
+			jumpTo = n.findNext([]kind.Kind{kind.NewLine, kind.Semicolon, kind.CurlyBracketRight}, findNodeOption{
 				IsOutsideParenthesis:   true,
 				IsOutsideCurlyBracket:  true,
 				IsOutsideSquareBracket: true,
@@ -157,7 +157,7 @@ func (interfaceResetter) isThisLineFunction(head *Node) bool {
 		case kind.ParenthesisLeft:
 			result = true
 			return false
-		case kind.NewLine:
+		case kind.NewLine, kind.Semicolon:
 			return false
 		default:
 			return true
-- 
2.43.0


From b8cb7291881d9c55fd02ee46b95c60066fd807de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 22/37] fix: tell struct field names from embedded types

---
 kind_resetter_type.go | 89 ++++++++++++++++++++++---------------------
 1 file changed, 46 insertions(+), 43 deletions(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 25ec689..8555f9b 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -198,7 +198,7 @@ func (r structResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		switch n.Kind() {
 		case kind.CurlyBracketRight: // return kind
 			return false
-		case kind.Comment, kind.CurlyBracketLeft, kind.NewLine:
+		case kind.Comment, kind.CurlyBracketLeft, kind.NewLine, kind.Semicolon:
 			return true
 		default:
 			jumpTo = r.handleStructRow(n, hooks...)
@@ -208,7 +208,7 @@ func (r structResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 	})
 }
 
-// handleStructRow returns key kind: '\n'
+// handleStructRow returns key kind: '\n' ';' '}'
 //
 //   - a, b, c int
 //
@@ -239,18 +239,18 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 			jumpTo = nil
 		}
 
+		if paramNameCount != 0 && isIdentifier(n) {
+			paramNameCount--
+			n.SetKind(kind.ParamName)
+			return true
+		}
+
 		switch n.Kind() {
-		case kind.NewLine: // return kind
+		case kind.NewLine, kind.Semicolon, kind.CurlyBracketRight: // return kind
 			return false
-		case kind.Comment, kind.NewLine, kind.Tab, kind.Space, kind.Comma:
+		case kind.Comment, kind.Tab, kind.Space, kind.Comma:
 			return true
 		case kind.Raw:
-			if paramNameCount != 0 {
-				paramNameCount--
-				n.SetKind(kind.ParamName)
-				return true
-			}
-
 			n.SetKind(kind.ParamType)
 			// jumpTo = paramResetter{resetKind: kind.ParamType, returnKinds: []kind.Kind{kind.NewLine}}.Run(n, hooks...)
 			// skipAll = jumpTo == nil
@@ -263,6 +263,14 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 			})
 			skipAll = jumpTo == nil
 			return true
+		case kind.Struct: // a nested struct has rows of its own
+			jumpTo = structResetter{}.Run(n, hooks...).Next()
+			skipAll = jumpTo == nil
+			return true
+		case kind.CurlyBracketLeft:
+			jumpTo = curlyBracketResetter{skip: true}.Run(n, hooks...).Next()
+			skipAll = jumpTo == nil
+			return true
 		default:
 			// jumpTo = paramResetter{resetKind: kind.ParamType, returnKinds: []kind.Kind{kind.NewLine}}.Run(n, hooks...)
 			// skipAll = jumpTo == nil
@@ -271,50 +279,45 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 	})
 }
 
+// getRowNameCount returns the count of the field names, it's 0 if the field is embedded.
 func (r structResetter) getRowNameCount(head *Node) int {
 	var (
-		rawCount           int
-		hasComma           bool
-		hasSpaceOrAfterRaw bool
-		cacheNameCount     int
-		nameCount          int
+		nameCount int
+		last      *Node
+		isName    = true // a name comes first, and behind a comma
 	)
 
-	_ = head.IterNext(func(n *Node) bool {
+	found := head.IterNext(func(n *Node) bool {
 		switch n.Kind() {
-		case kind.NewLine: // return kind
-			if hasSpaceOrAfterRaw {
-				nameCount = cacheNameCount
-			}
-			return false
-		case kind.Comment, kind.Tab:
-			return true
-		case kind.Raw:
-			rawCount++
-			return true
-		case kind.Space:
-			if rawCount != 0 {
-				if !hasComma && cacheNameCount == 0 {
-					cacheNameCount++
-				}
-				hasSpaceOrAfterRaw = true
-			}
+		case kind.Comment, kind.Tab, kind.Space:
 			return true
 		case kind.Comma:
-			if cacheNameCount == 0 {
-				cacheNameCount++
-			}
-			hasComma = true
-			cacheNameCount++
-			nameCount = cacheNameCount
+			isName = true
 			return true
-		default:
-			if hasSpaceOrAfterRaw {
-				nameCount = cacheNameCount
-			}
+		}
+
+		if !isName || !isIdentifier(n) {
 			return false
 		}
+
+		nameCount++
+		last = n
+		isName = false
+		return true
 	})
 
+	if nameCount != 1 {
+		return nameCount
+	}
+
+	switch found.Kind() {
+	case kind.None, kind.NewLine, kind.Semicolon, kind.CurlyBracketRight, kind.String: // no type
+		return 0
+	case kind.SquareBracketLeft: // type arguments follow a type directly
+		if found == last.Next() {
+			return 0
+		}
+	}
+
 	return nameCount
 }
-- 
2.43.0


From 335c533f1c92fca867dfb19ee5b8503619aba51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 23/37] fix: a scope starts at the start of a line, not behind
 a long comment or string

---
 scope.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scope.go b/scope.go
index 76c0a0b..e34239c 100755
--- a/scope.go
+++ b/scope.go
@@ -71,7 +71,6 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 
 	head := node
 	k := scope.Unknown
-	line := startLine - 1
 
 	tryAppendScope := func() {
 		if k != scope.Unknown {
@@ -89,11 +88,11 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 	}
 
 	_ = node.IterNext(func(n *Node) bool {
-		if n.Line() == line {
+		// the first node of a line, not the first one behind the end of a long comment or string
+		if n.Prev() != nil && n.Prev().Kind() != kind.NewLine {
 			return true
 		}
 
-		line = n.Line()
 		nk := newScopeKind(n.Text())
 		if nk == scope.Unknown {
 			return true
-- 
2.43.0


From 31664d1479d1955266adf31d120807945114041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 24/37] fix: an identifier of underscores is not a symbol

---
 kind/kind.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kind/kind.go b/kind/kind.go
index 9db1c5c..6456bd1 100755
--- a/kind/kind.go
+++ b/kind/kind.go
@@ -174,7 +174,8 @@ func New(s string) Kind {
 	if len(s) != 0 {
 		isSymbol := true
 		for i := range s {
-			isSymbol = isSymbol && charset.GolangSymbol.Contain(s[i])
+			// '_' is a symbol on its own, otherwise it's a part of an identifier
+			isSymbol = isSymbol && charset.GolangSymbol.Contain(s[i]) && (s[i] != '_' || len(s) == 1)
 			if !isSymbol {
 				break
 			}
-- 
2.43.0


From e4b46bbfc153265fbf7eac0f0e09ffe3fe5c61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 25/37] fix: a type inside parentheses does not end the
 parameter list

---
 kind_resetter_parenthesis.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 513b5b3..8ce9d97 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -44,10 +44,14 @@ func (r parenthesisResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 			jumpTo = nil
 		}
 
+		if n == head { // skip first '('
+			return true
+		}
+
 		switch n.Kind() {
 		case kind.ParenthesisRight: // return kind
 			return false
-		case kind.Comment, kind.Comma, kind.ParenthesisLeft, kind.Tab, kind.NewLine, kind.Space:
+		case kind.Comment, kind.Comma, kind.Tab, kind.NewLine, kind.Space:
 			return true
 		default:
 			jumpTo = r.handleParenthesisParam(n, r.isReceiver, named, hooks...)
@@ -137,7 +141,11 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver, name
 			jumpTo = squareBracketResetter{}.Run(n, hooks...)
 			skipAll = jumpTo == nil
 			return true
-		case kind.Comment, kind.ParenthesisLeft, kind.Tab, kind.NewLine, kind.Space:
+		case kind.ParenthesisLeft: // a type inside parenthesis, its ')' doesn't end the param
+			jumpTo = parenthesisResetter{isReceiver: isReceiver}.Run(n, hooks...).Next()
+			skipAll = jumpTo == nil
+			return true
+		case kind.Comment, kind.Tab, kind.NewLine, kind.Space:
 			return true
 		case kind.Func:
 			jumpTo = funcResetter{isParameter: true}.Run(n, hooks...)
-- 
2.43.0


From 6e7b7e36514dd9d847e22870214321747110eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 26/37] fix: tell the embedded elements of an interface from
 its methods

---
 kind_resetter_type.go | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 8555f9b..65a46dd 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -139,31 +139,41 @@ func (r interfaceResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 				n.SetKind(kind.TypeName)
 			}
 
-			jumpTo = n.findNext([]kind.Kind{kind.NewLine, kind.Semicolon, kind.CurlyBracketRight}, findNodeOption{
-				IsOutsideParenthesis:   true,
-				IsOutsideCurlyBracket:  true,
-				IsOutsideSquareBracket: true,
-			}, hooks...)
+			jumpTo = r.endOfElement(n, hooks...)
 			skipAll = jumpTo == nil
 			return true
 		}
 	})
 }
 
-func (interfaceResetter) isThisLineFunction(head *Node) bool {
-	result := false
-	_ = head.IterNext(func(n *Node) bool {
+// endOfElement returns the '\n' or ';' behind the element, or the '}' of the interface.
+func (interfaceResetter) endOfElement(head *Node, hooks ...func(*Node)) *Node {
+	depth := 0
+
+	return head.IterNext(func(n *Node) bool {
+		handleHook(n, hooks...)
 		switch n.Kind() {
-		case kind.ParenthesisLeft:
-			result = true
-			return false
+		case kind.ParenthesisLeft, kind.CurlyBracketLeft, kind.SquareBracketLeft:
+			depth++
 		case kind.NewLine, kind.Semicolon:
-			return false
-		default:
-			return true
+			return depth != 0
+		case kind.ParenthesisRight, kind.CurlyBracketRight, kind.SquareBracketRight:
+			depth--
+			return depth >= 0
 		}
+
+		return true
 	})
-	return result
+}
+
+// isThisLineFunction reports whether a method starts here: a name and then its parameters.
+func (interfaceResetter) isThisLineFunction(head *Node) bool {
+	if !isIdentifier(head) {
+		return false
+	}
+
+	found := head.Next().findNext([]kind.Kind{kind.Comment, kind.Space, kind.Tab}, findNodeOption{TargetReverse: true})
+	return found.Kind() == kind.ParenthesisLeft
 }
 
 // structResetter starts with 'struct'
-- 
2.43.0


From d30b3ba46d179074c07d656a3ef442ae2b1cf11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 27/37] fix: combining into a nil node skips nil nodes

The first given node took the place of a nil receiver, even if it was nil.
---
 node.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/node.go b/node.go
index bc8d453..0d9fb89 100755
--- a/node.go
+++ b/node.go
@@ -281,18 +281,17 @@ func (n *Node) RemoveNext() *Node {
 //
 // e.g. (nn3 - nn2 - nn1 - n)
 func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
+	for n == nil && len(nns) != 0 {
+		n = nns[0]
+		nns = nns[1:]
+	}
+
 	n.SetKind(k)
 
 	if len(nns) == 0 {
 		return n
 	}
 
-	if n == nil {
-		n = nns[0]
-		nns = nns[1:]
-		n.SetKind(k)
-	}
-
 	buf := make([]string, 0, len(nns)+1)
 	buf = append(buf, n.Text())
 	for _, nn := range nns {
@@ -317,18 +316,17 @@ func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
 //
 // e.g. (n - nn1 - nn2 - nn3)
 func (n *Node) CombineNext(k kind.Kind, nns ...*Node) *Node {
+	for n == nil && len(nns) != 0 {
+		n = nns[0]
+		nns = nns[1:]
+	}
+
 	n.SetKind(k)
 
 	if len(nns) == 0 {
 		return n
 	}
 
-	if n == nil {
-		n = nns[0]
-		nns = nns[1:]
-		n.SetKind(k)
-	}
-
 	buf := make([]string, 0, len(nns)+1)
 	buf = append(buf, n.Text())
 	for _, nn := range nns {
-- 
2.43.0


From 8f0d02475b06559269e1407a4223e1bc2d11aada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 28/37] fix: a comment before the package name does not end the
 package clause

A comment at the start of a line between the package keyword and the name
started a scope, and left the package without a name.
---
 scope.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scope.go b/scope.go
index e34239c..5a78552 100755
--- a/scope.go
+++ b/scope.go
@@ -71,6 +71,7 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 
 	head := node
 	k := scope.Unknown
+	named := false
 
 	tryAppendScope := func() {
 		if k != scope.Unknown {
@@ -88,6 +89,8 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 	}
 
 	_ = node.IterNext(func(n *Node) bool {
+		named = named || isIdentifier(n)
+
 		// the first node of a line, not the first one behind the end of a long comment or string
 		if n.Prev() != nil && n.Prev().Kind() != kind.NewLine {
 			return true
@@ -98,10 +101,16 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 			return true
 		}
 
+		// a comment between the package keyword and the package name is a part of the package clause
+		if k == scope.Package && !named && nk.ToKind() == kind.Comment {
+			return true
+		}
+
 		tryAppendScope()
 
 		head = n
 		k = nk
+		named = false
 		return true
 	})
 
-- 
2.43.0


From 900c96d5567d7c4a7bd8c148b9fe572edebd1c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:39 +0000
Subject: [PATCH 29/37] fix: classify the last word of a text that does not end
 in a newline

---
 extractor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extractor.go b/extractor.go
index 4272f97..d9c508d 100755
--- a/extractor.go
+++ b/extractor.go
@@ -31,6 +31,7 @@ func extract(text []byte, startLine ...int) (*Node, error) {
 
 var (
 	_commonExtractor = &extractor{
+		kind:              kind.Raw,
 		SeparatorCharset:  charset.SeparatorCharset,
 		ReturnKeyword:     "",
 		SkipReturnKeyword: "",
-- 
2.43.0


From fdb85fcfc94f1b5d741c0dfd8aba3c86a2019948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:40 +0000
Subject: [PATCH 30/37] fix: do not take a func type or literal in the first
 column for a declaration

---
 scope.go | 67 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/scope.go b/scope.go
index 5a78552..7a8734b 100755
--- a/scope.go
+++ b/scope.go
@@ -101,6 +101,11 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 			return true
 		}
 
+		// not a declaration, but the rest of the one above
+		if k != scope.Unknown && isFuncWithoutName(n) {
+			return true
+		}
+
 		// a comment between the package keyword and the package name is a part of the package clause
 		if k == scope.Package && !named && nk.ToKind() == kind.Comment {
 			return true
@@ -123,6 +128,68 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 	return scs, nil
 }
 
+// isFuncWithoutName reports whether the node is the func keyword of a function type or a function literal:
+// '(' follows it, and no method name follows the ')'.
+func isFuncWithoutName(n *Node) bool {
+	if n.Kind() != kind.Func {
+		return false
+	}
+
+	isGap := func(n *Node) bool {
+		return n.Kind() == kind.Space || n.Kind() == kind.Tab || n.Kind() == kind.Comment
+	}
+
+	left := n.Next().IterNext(func(n *Node) bool { return isGap(n) || n.Kind() == kind.NewLine })
+	if left.Kind() != kind.ParenthesisLeft {
+		return false
+	}
+
+	right := closingBracket(left, kind.ParenthesisLeft, kind.ParenthesisRight)
+	if right == nil {
+		return left == n.Next()
+	}
+
+	name := right.Next().IterNext(isGap)
+	if !isIdentifier(name) {
+		return true
+	}
+
+	next := name.Next().IterNext(isGap)
+	if next.Kind() == kind.SquareBracketLeft { // type parameters
+		end := closingBracket(next, kind.SquareBracketLeft, kind.SquareBracketRight)
+		if end == nil {
+			return false
+		}
+
+		next = end.Next().IterNext(isGap)
+	}
+
+	return next.Kind() != kind.ParenthesisLeft
+}
+
+// closingBracket finds the bracket that closes the one of the node, before the next scope.
+func closingBracket(n *Node, left, right kind.Kind) *Node {
+	depth := 0
+	isNextScope := false
+	end := n.IterNext(func(n *Node) bool {
+		switch n.Kind() {
+		case left:
+			depth++
+		case right:
+			depth--
+		}
+
+		isNextScope = n.Prev().Kind() == kind.NewLine && newScopeKind(n.Text()) != scope.Unknown
+		return depth != 0 && !isNextScope
+	})
+
+	if isNextScope {
+		return nil
+	}
+
+	return end
+}
+
 type scopeStruct struct {
 	line int
 	kind scope.Kind
-- 
2.43.0


From 586b000968c26febf70dbc29e58d513fb4d2119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:40 +0000
Subject: [PATCH 31/37] fix: find the type name behind a comment and a line
 break

---
 kind_resetter_type.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 65a46dd..7396772 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -20,6 +20,7 @@ func (r typeResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 	}
 
 	var (
+		isGroup              bool
 		isTypeNameAssigned   bool
 		isSpaceAfterTypeName bool
 		skipAll              bool
@@ -41,8 +42,13 @@ func (r typeResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 
 		if !isTypeNameAssigned {
 			switch {
-			case n.Kind() == kind.CurlyBracketRight, n.Kind() == kind.NewLine: // return kind
+			case n.Kind() == kind.CurlyBracketRight: // return kind
 				return false
+			case n.Kind() == kind.NewLine: // return kind, unless the name stands behind a comment
+				return !isGroup
+			case n.Kind() == kind.ParenthesisLeft:
+				isGroup = true
+				return true
 			case isIdentifier(n):
 				n.SetKind(kind.TypeName)
 				isTypeNameAssigned = true
-- 
2.43.0


From 63e955c8b54f23706c7eea97493e224d512c76d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:41 +0000
Subject: [PATCH 32/37] fix: keep the methods behind an embedded interface
 whose brace is on the next line

---
 kind_resetter_type.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 7396772..d470d27 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -155,19 +155,25 @@ func (r interfaceResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 // endOfElement returns the '\n' or ';' behind the element, or the '}' of the interface.
 func (interfaceResetter) endOfElement(head *Node, hooks ...func(*Node)) *Node {
 	depth := 0
+	isBodyAhead := false // the '{' of an embedded type can stand behind a comment and a line break
 
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		switch n.Kind() {
+		case kind.Comment, kind.Space, kind.Tab:
+			return true
+		case kind.NewLine, kind.Semicolon:
+			return depth != 0 || isBodyAhead
 		case kind.ParenthesisLeft, kind.CurlyBracketLeft, kind.SquareBracketLeft:
 			depth++
-		case kind.NewLine, kind.Semicolon:
-			return depth != 0
 		case kind.ParenthesisRight, kind.CurlyBracketRight, kind.SquareBracketRight:
 			depth--
-			return depth >= 0
+			if depth < 0 {
+				return false
+			}
 		}
 
+		isBodyAhead = n.Kind() == kind.Interface || n.Kind() == kind.Struct
 		return true
 	})
 }
-- 
2.43.0


From f187196e22e4cb44b487bb300ddcb85a7a0427d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:57 +0000
Subject: [PATCH 33/37] fix: keep the roles behind a method result whose brace
 is on the next line

---
 kind_resetter_all.go  | 10 ++++++++++
 kind_resetter_func.go |  2 +-
 kind_resetter_type.go | 12 +++---------
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index b0ceafb..1cafaf7 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -113,6 +113,16 @@ func isIdentifier(n *Node) bool {
 	return token.IsIdentifier(n.Text())
 }
 
+// isBodyAhead reports whether the '{' of a struct or interface is still to come at the end of a line,
+// because a comment stands before it.
+func isBodyAhead(newLine *Node) bool {
+	last := newLine.Prev().IterPrev(func(n *Node) bool {
+		return n.Kind() == kind.Space || n.Kind() == kind.Tab || n.Kind() == kind.Comment
+	})
+
+	return last.Text() == "struct" || last.Text() == "interface"
+}
+
 // combineConnected combines the leading nodes of buf that directly follow one another into the
 // first one. It leaves out the rest, so no node between them gets lost and none is taken twice,
 // and leaves out trailing spaces.
diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index d2bf41f..d6295fd 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -158,7 +158,7 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 
 		// return kind
 		if isReturnKind.Contain(n.Kind()) {
-			return !isFuncParamHandled
+			return !isFuncParamHandled || isBodyAhead(n)
 		}
 
 		if !isFuncNameAssigned && isIdentifier(n) {
diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index d470d27..1b8fb03 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -155,25 +155,19 @@ func (r interfaceResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 // endOfElement returns the '\n' or ';' behind the element, or the '}' of the interface.
 func (interfaceResetter) endOfElement(head *Node, hooks ...func(*Node)) *Node {
 	depth := 0
-	isBodyAhead := false // the '{' of an embedded type can stand behind a comment and a line break
 
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		switch n.Kind() {
-		case kind.Comment, kind.Space, kind.Tab:
-			return true
-		case kind.NewLine, kind.Semicolon:
-			return depth != 0 || isBodyAhead
 		case kind.ParenthesisLeft, kind.CurlyBracketLeft, kind.SquareBracketLeft:
 			depth++
+		case kind.NewLine, kind.Semicolon:
+			return depth != 0 || isBodyAhead(n)
 		case kind.ParenthesisRight, kind.CurlyBracketRight, kind.SquareBracketRight:
 			depth--
-			if depth < 0 {
-				return false
-			}
+			return depth >= 0
 		}
 
-		isBodyAhead = n.Kind() == kind.Interface || n.Kind() == kind.Struct
 		return true
 	})
 }
-- 
2.43.0


From 7aa76ada0ac857b888ebd4460b246a392e57de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:57 +0000
Subject: [PATCH 34/37] fix: do not take the type parameters of a method behind
 a comment for its result

---
 kind_resetter_func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index d6295fd..eb8d8d1 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -178,7 +178,7 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 			}
 			return true
 		case kind.ParenthesisLeft:
-			isFuncParamHandled = true
+			isFuncParamHandled = isFuncNameAssigned // a receiver comes before the name
 			jumpTo = parenthesisResetter{}.Run(n, hooks...)
 			skipAll = jumpTo == nil
 			return true
-- 
2.43.0


From 04ea8e958abd69e1a79875203e20fbf6f48cc7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:57 +0000
Subject: [PATCH 35/37] fix: handle a field that is a pointer to a function
 like a function

---
 kind_resetter_type.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 1b8fb03..b162798 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -1,6 +1,8 @@
 package goast
 
 import (
+	"strings"
+
 	"github.com/yanun0323/goast/helper"
 	"github.com/yanun0323/goast/kind"
 )
@@ -261,7 +263,12 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 			return true
 		}
 
-		switch n.Kind() {
+		k := n.Kind()
+		if strings.TrimLeft(n.Text(), "*") == "func" { // a pointer to a function is one node
+			k = kind.Func
+		}
+
+		switch k {
 		case kind.NewLine, kind.Semicolon, kind.CurlyBracketRight: // return kind
 			return false
 		case kind.Comment, kind.Tab, kind.Space, kind.Comma:
-- 
2.43.0


From 5326b80766d9fde0ccb423fce61f9a4286d8ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:17 +0000
Subject: [PATCH 36/37] fix: keep the methods behind an interface or struct
 whose brace stands behind blank lines

---
 kind_resetter_all.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index 1cafaf7..a903ef3 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -116,8 +116,13 @@ func isIdentifier(n *Node) bool {
 // isBodyAhead reports whether the '{' of a struct or interface is still to come at the end of a line,
 // because a comment stands before it.
 func isBodyAhead(newLine *Node) bool {
-	last := newLine.Prev().IterPrev(func(n *Node) bool {
-		return n.Kind() == kind.Space || n.Kind() == kind.Tab || n.Kind() == kind.Comment
+	last := newLine.IterPrev(func(n *Node) bool {
+		switch n.Kind() {
+		case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
+			return true
+		default:
+			return false
+		}
 	})
 
 	return last.Text() == "struct" || last.Text() == "interface"
-- 
2.43.0


From a128783d6d8d1fe459f0dedda3369d88a5081af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:08 +0000
Subject: [PATCH 37/37] fix: end a defined type at a semicolon, and leave out
 tabs behind it

---
 kind_resetter_all.go  | 4 ++--
 kind_resetter_type.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index a903ef3..17b2483 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -130,7 +130,7 @@ func isBodyAhead(newLine *Node) bool {
 
 // combineConnected combines the leading nodes of buf that directly follow one another into the
 // first one. It leaves out the rest, so no node between them gets lost and none is taken twice,
-// and leaves out trailing spaces.
+// and leaves out trailing spaces and tabs.
 func combineConnected(k kind.Kind, buf []*Node) {
 	if len(buf) == 0 {
 		return
@@ -141,7 +141,7 @@ func combineConnected(k kind.Kind, buf []*Node) {
 		count++
 	}
 
-	for count > 1 && buf[count-1].Kind() == kind.Space {
+	for count > 1 && (buf[count-1].Kind() == kind.Space || buf[count-1].Kind() == kind.Tab) {
 		count--
 	}
 
diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index b162798..84ab10c 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -88,7 +88,7 @@ func (r typeResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 			skipAll = jumpTo == nil
 			return true
 		case kind.Raw:
-			jumpTo = paramResetter{resetKind: kind.ParamType, returnKinds: []kind.Kind{kind.NewLine}}.Run(n, hooks...)
+			jumpTo = paramResetter{resetKind: kind.ParamType, returnKinds: []kind.Kind{kind.NewLine, kind.Semicolon}}.Run(n, hooks...)
 			skipAll = jumpTo == nil
 			return true
 		case kind.SquareBracketLeft:
-- 
2.43.0

