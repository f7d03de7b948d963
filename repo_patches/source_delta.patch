From c438e6e8eb41731251054e494c86047472a3209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 01/64] fix: keep the verbs of RBAC rules that become equal
 while merging

Merging the groups (or the URLs) of rules can give two rules that differ
only in their verbs. One of them was then dropped, at random, and its
permissions were lost. Merge their verbs instead.
---
 pkg/rbac/parser.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index 6521d26..17d3591 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -116,6 +116,17 @@ func (r *Rule) addVerbs(verbs []string) {
 	r.Verbs = removeDupAndSort(append(r.Verbs, verbs...))
 }
 
+// addRule adds the rule to ruleMap.
+// If there is already a Rule with the same key, only the verbs are added to that Rule.
+func addRule(ruleMap map[ruleKey]*Rule, rule *Rule) {
+	key := rule.key()
+	if existing, ok := ruleMap[key]; ok {
+		existing.addVerbs(rule.Verbs)
+		return
+	}
+	ruleMap[key] = rule
+}
+
 // normalize removes duplicates from each field of a Rule, and sorts each field.
 func (r *Rule) normalize() {
 	r.Groups = removeDupAndSort(r.Groups)
@@ -233,12 +244,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 				}
 			}
 
-			key := rule.key()
-			if _, ok := ruleMap[key]; !ok {
-				ruleMap[key] = rule
-				continue
-			}
-			ruleMap[key].addVerbs(rule.Verbs)
+			addRule(ruleMap, rule)
 		}
 
 		// deduplicate resources
@@ -257,8 +263,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 				rule.Resources = append(rule.Resources, mergeRule.Resources...)
 			}
 
-			key := rule.key()
-			ruleMap[key] = rule
+			addRule(ruleMap, rule)
 		}
 
 		// deduplicate groups
@@ -276,8 +281,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 			for _, mergeRule := range rules[1:] {
 				rule.Groups = append(rule.Groups, mergeRule.Groups...)
 			}
-			key := rule.key()
-			ruleMap[key] = rule
+			addRule(ruleMap, rule)
 		}
 
 		// deduplicate URLs
@@ -295,8 +299,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 			for _, mergeRule := range rules[1:] {
 				rule.URLs = append(rule.URLs, mergeRule.URLs...)
 			}
-			key := rule.key()
-			ruleMap[key] = rule
+			addRule(ruleMap, rule)
 		}
 
 		// sort the Rules in rules according to their ruleKeys
-- 
2.43.0


From 6ce2350804c491a5229d3afd745d70644e41b7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 02/64] fix: do not mistake RBAC rules for each other by
 ambiguous merge keys

A rule without API groups and a rule for the core group had the same merge
key (as had the names a&b and the list of a and b), so that merging could,
at random, drop the core group from the permissions stated.  Use quoted
lists as keys; the order of the generated rules stays as it was.
---
 pkg/rbac/parser.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index 17d3591..c434a29 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -68,6 +68,9 @@ type ruleKey struct {
 	Resources     string
 	ResourceNames string
 	URLs          string
+
+	// exact tells apart rules whose other fields look alike, like no group and the core group.
+	exact string
 }
 
 func (key ruleKey) String() string {
@@ -77,9 +80,14 @@ func (key ruleKey) String() string {
 // ruleKeys implements sort.Interface
 type ruleKeys []ruleKey
 
-func (keys ruleKeys) Len() int           { return len(keys) }
-func (keys ruleKeys) Swap(i, j int)      { keys[i], keys[j] = keys[j], keys[i] }
-func (keys ruleKeys) Less(i, j int) bool { return keys[i].String() < keys[j].String() }
+func (keys ruleKeys) Len() int      { return len(keys) }
+func (keys ruleKeys) Swap(i, j int) { keys[i], keys[j] = keys[j], keys[i] }
+func (keys ruleKeys) Less(i, j int) bool {
+	if ki, kj := keys[i].String(), keys[j].String(); ki != kj {
+		return ki < kj
+	}
+	return keys[i].exact < keys[j].exact
+}
 
 // key normalizes the Rule and returns a ruleKey object.
 func (r *Rule) key() ruleKey {
@@ -89,25 +97,23 @@ func (r *Rule) key() ruleKey {
 		Resources:     strings.Join(r.Resources, "&"),
 		ResourceNames: strings.Join(r.ResourceNames, "&"),
 		URLs:          strings.Join(r.URLs, "&"),
+		exact:         fmt.Sprintf("%q", [][]string{r.Groups, r.Resources, r.ResourceNames, r.URLs}),
 	}
 }
 
 func (r *Rule) keyWithGroupResourceNamesURLsVerbs() string {
-	key := r.key()
-	verbs := strings.Join(r.Verbs, "&")
-	return fmt.Sprintf("%s + %s + %s + %s", key.Groups, key.ResourceNames, key.URLs, verbs)
+	r.normalize()
+	return fmt.Sprintf("%q + %q + %q + %q", r.Groups, r.ResourceNames, r.URLs, r.Verbs)
 }
 
 func (r *Rule) keyWithResourcesResourceNamesURLsVerbs() string {
-	key := r.key()
-	verbs := strings.Join(r.Verbs, "&")
-	return fmt.Sprintf("%s + %s + %s + %s", key.Resources, key.ResourceNames, key.URLs, verbs)
+	r.normalize()
+	return fmt.Sprintf("%q + %q + %q + %q", r.Resources, r.ResourceNames, r.URLs, r.Verbs)
 }
 
 func (r *Rule) keyWitGroupResourcesResourceNamesVerbs() string {
-	key := r.key()
-	verbs := strings.Join(r.Verbs, "&")
-	return fmt.Sprintf("%s + %s + %s + %s", key.Groups, key.Resources, key.ResourceNames, verbs)
+	r.normalize()
+	return fmt.Sprintf("%q + %q + %q + %q", r.Groups, r.Resources, r.ResourceNames, r.Verbs)
 }
 
 // addVerbs adds new verbs into a Rule.
-- 
2.43.0


From 4ecfa53d291231d27f646e73eff4561680c2772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 03/64] fix: keep package markers in source order

Markers in front of types that turn out to be package markers were added
in the random order of a map, so that results that depend on the order of
markers (the first of several values, entries with equal names) changed
from run to run.
---
 pkg/markers/collect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/markers/collect.go b/pkg/markers/collect.go
index 23f52e3..7fde0d5 100644
--- a/pkg/markers/collect.go
+++ b/pkg/markers/collect.go
@@ -19,6 +19,7 @@ package markers
 import (
 	"go/ast"
 	"go/token"
+	"sort"
 	"strings"
 	"sync"
 
@@ -192,6 +193,10 @@ func (c *Collector) associateFileMarkers(file *ast.File) map[ast.Node][]markerCo
 		}
 		visitor.nodeMarkers[node] = markers[:endOfMarkers] // re-set after trimming the package markers
 	}
+	// the nodes above were visited in random order, so put the package markers back in source order
+	sort.SliceStable(visitor.pkgMarkers, func(i, j int) bool {
+		return visitor.pkgMarkers[i].Pos() < visitor.pkgMarkers[j].Pos()
+	})
 	visitor.nodeMarkers[file] = visitor.pkgMarkers
 
 	return visitor.nodeMarkers
-- 
2.43.0


From 1d74130b1a13ffaf8619c4e3e8328b2e4eaf125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 04/64] fix: refuse webhook timeouts that do not fit 32 bits

A timeoutSeconds like 4294967301 wrapped around to 5 and was accepted.
---
 pkg/webhook/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index 832edeb..ef733d6 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -24,6 +24,7 @@ package webhook
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"strings"
 
@@ -382,7 +383,8 @@ func (c Config) sideEffects() *admissionregv1.SideEffectClass {
 // timeoutSeconds returns the timeoutSeconds config for a webhook.
 func (c Config) timeoutSeconds() *int32 {
 	if c.TimeoutSeconds != 0 {
-		timeoutSeconds := int32(c.TimeoutSeconds)
+		// don't let values that do not fit wrap around to valid ones
+		timeoutSeconds := int32(min(max(c.TimeoutSeconds, math.MinInt32), math.MaxInt32))
 		return &timeoutSeconds
 	}
 	return nil
-- 
2.43.0


From bf5330e4195f3247f0f3d6fc90c45e7b897f3210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 05/64] fix: accept negative numbers after spaces in markers

In +default={a: -1} the minus sign was not recognized because of the space
in front of it, though {a:-1} and {a: 1} parse.
---
 pkg/markers/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index f42dec0..9160e5c 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -516,7 +516,7 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 			}
 		}
 	case NumberType:
-		nextChar := scanner.Peek()
+		nextChar := peekNoSpace(scanner)
 		isNegative := false
 		if nextChar == '-' {
 			isNegative = true
@@ -542,7 +542,7 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 
 		castAndSet(out, reflect.ValueOf(val))
 	case IntType:
-		nextChar := scanner.Peek()
+		nextChar := peekNoSpace(scanner)
 		isNegative := false
 		if nextChar == '-' {
 			isNegative = true
-- 
2.43.0


From 10b1b06a61c27dae6703b2bf77049d5391e46e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 06/64] fix: refuse marker integers that overflow the
 argument's type

servicePort=4294967739 was silently taken as port 443.
---
 pkg/markers/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 9160e5c..51b49a9 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -551,7 +551,6 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 		if !expect(scanner, sc.Int, "integer") {
 			return
 		}
-		// TODO(directxman12): respect the size when parsing
 		text := scanner.TokenText()
 		if isNegative {
 			text = "-" + text
@@ -561,6 +560,10 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 			scanner.Error(scanner, fmt.Sprintf("unable to parse integer: %v", err))
 			return
 		}
+		if out.CanInt() && out.OverflowInt(int64(val)) {
+			scanner.Error(scanner, fmt.Sprintf("unable to parse integer: %d overflows %s", val, out.Type()))
+			return
+		}
 		castAndSet(out, reflect.ValueOf(val))
 	case StringType:
 		// strings are a bit weird -- the "easy" case is quoted strings (tokenized as strings),
-- 
2.43.0


From 584dfa0be9140acecddbb07111985d7e615ee941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 07/64] fix: take raw marker arguments as they are, whatever
 they contain

---
 pkg/markers/parse.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 51b49a9..bfff8dd 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -507,13 +507,8 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 	case RawType:
 		// raw consumes everything else
 		castAndSet(out, reflect.ValueOf(raw[scanner.Pos().Offset:]))
-		// consume everything else
-		var tok rune
-		for {
-			tok = scanner.Scan()
-			if tok == sc.EOF {
-				break
-			}
+		// consume everything else, without tokenizing it: it may not follow our syntax
+		for scanner.Next() != sc.EOF {
 		}
 	case NumberType:
 		nextChar := peekNoSpace(scanner)
-- 
2.43.0


From a5117eca0576a2785ccfea9d6f38c677dcf40b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 08/64] fix: keep the last token of bare marker strings that
 are followed by spaces

---
 pkg/markers/parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index bfff8dd..f570cd1 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -402,11 +402,13 @@ func (a *Argument) parseString(scanner *sc.Scanner, raw string, out reflect.Valu
 	// separator), ';' (the slice separator), ':' (the map separator), or '}'
 	// (delimitted slice ender)
 	startPos := scanner.Position.Offset
+	// NB: the end has to be noted before looking for the next token, since skipping spaces drops the token text
+	endPos := scanner.Pos().Offset
 	for hint := peekNoSpace(scanner); hint != ',' && hint != ';' && hint != ':' && hint != '}' && hint != sc.EOF; hint = peekNoSpace(scanner) {
 		// skip this token
 		scanner.Scan()
+		endPos = scanner.Pos().Offset
 	}
-	endPos := scanner.Position.Offset + len(scanner.TokenText())
 	castAndSet(out, reflect.ValueOf(raw[startPos:endPos]))
 }
 
-- 
2.43.0


From fa1bdb57bfcd4c0a7b85407760b298299ef11a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 09/64] fix: do not crash on fields of predeclared interfaces
 and aliases of type literals

---
 pkg/crd/schema.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 616141c..de7d3ab 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -293,9 +293,19 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 			Format: fmt,
 		}
 	}
+	if _, isNamed := typeInfo.(interface{ Obj() *types.TypeName }); !isNamed {
+		// an alias of a type literal, refer to the alias itself
+		typeInfo = ctx.pkg.TypesInfo.TypeOf(ident)
+	}
 	// NB(directxman12): if there are dot imports, this might be an external reference,
 	// so use typechecking info to get the actual object
-	typeNameInfo := typeInfo.(interface{ Obj() *types.TypeName }).Obj()
+	typeName, isNamed := typeInfo.(interface{ Obj() *types.TypeName })
+	if !isNamed || typeName.Obj().Pkg() == nil {
+		// predeclared, e.g. any or error
+		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unsupported type %s", ident.Name), ident))
+		return &apiext.JSONSchemaProps{}
+	}
+	typeNameInfo := typeName.Obj()
 	pkg := typeNameInfo.Pkg()
 	pkgPath := loader.NonVendorPath(pkg.Path())
 	if pkg == ctx.pkg.Types {
@@ -315,7 +325,12 @@ func namedToSchema(ctx *schemaContext, named *ast.SelectorExpr) *apiext.JSONSche
 		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unknown type %v.%s", named.X, named.Sel.Name), named))
 		return &apiext.JSONSchemaProps{}
 	}
-	typeInfo := typeInfoRaw.(interface{ Obj() *types.TypeName })
+	typeInfo, isNamed := typeInfoRaw.(interface{ Obj() *types.TypeName })
+	if !isNamed {
+		// unsafe.Pointer
+		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unsupported type %v.%s", named.X, named.Sel.Name), named))
+		return &apiext.JSONSchemaProps{}
+	}
 	typeNameInfo := typeInfo.Obj()
 	nonVendorPath := loader.NonVendorPath(typeNameInfo.Pkg().Path())
 	ctx.requestSchema(nonVendorPath, typeNameInfo.Name())
-- 
2.43.0


From 249952da61f2ac91a27bc9c424aba5bbb9447a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 10/64] fix: report struct literals as field types instead of
 crashing

---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index de7d3ab..2682dc7 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -418,7 +418,7 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 		Properties: make(map[string]apiext.JSONSchemaProps),
 	}
 
-	if ctx.info.RawSpec.Type != structType {
+	if ctx.info.RawSpec == nil || ctx.info.RawSpec.Type != structType {
 		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("encountered non-top-level struct (possibly embedded), those aren't allowed"), structType))
 		return props
 	}
-- 
2.43.0


From 9ca4c4f7ebd135039670fb64bed48d10dc18f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 11/64] fix: accept aliases of string types as map keys

---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 2682dc7..cdd2989 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -368,7 +368,7 @@ func mapToSchema(ctx *schemaContext, mapType *ast.MapType) *apiext.JSONSchemaPro
 	keyInfo := ctx.pkg.TypesInfo.TypeOf(mapType.Key)
 	// check that we've got a type that actually corresponds to a string
 	for keyInfo != nil {
-		switch typedKey := keyInfo.(type) {
+		switch typedKey := types.Unalias(keyInfo).(type) {
 		case *types.Basic:
 			if typedKey.Info()&types.IsString == 0 {
 				ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("map keys must be strings, not %s", keyInfo.String()), mapType.Key))
-- 
2.43.0


From 4f569983d68dd7c95541209e4c2abef7cc831383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 12/64] fix: treat slices of uint8 like slices of byte, they
 are encoded the same

---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index cdd2989..a7e88e7 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -345,7 +345,7 @@ func namedToSchema(ctx *schemaContext, named *ast.SelectorExpr) *apiext.JSONSche
 // with the special `[]byte` type (according to OpenAPI standards).
 func arrayToSchema(ctx *schemaContext, array *ast.ArrayType) *apiext.JSONSchemaProps {
 	eltType := ctx.pkg.TypesInfo.TypeOf(array.Elt)
-	if eltType == byteType && array.Len == nil {
+	if eltType != nil && types.Identical(eltType, byteType) && array.Len == nil {
 		// byte slices are represented as base64-encoded strings
 		// (the format is defined in OpenAPI v3, but not JSON Schema)
 		return &apiext.JSONSchemaProps{
-- 
2.43.0


From 3fafdbef23be7c1db71b831c8d34c2159d9328c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 13/64] fix: do not require a field without a name for inlined
 structs marked as required

---
 pkg/crd/schema.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index a7e88e7..0d88f8c 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -465,12 +465,16 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 			// explicitly optional - kubebuilder
 		case field.Markers.Get("kubebuilder:validation:Required") != nil:
 			// explicitly required - kubebuilder
-			props.Required = append(props.Required, fieldName)
+			if !inline {
+				props.Required = append(props.Required, fieldName)
+			}
 		case field.Markers.Get("optional") != nil:
 			// explicitly optional - kubernetes
 		case field.Markers.Get("required") != nil:
 			// explicitly required - kubernetes
-			props.Required = append(props.Required, fieldName)
+			if !inline {
+				props.Required = append(props.Required, fieldName)
+			}
 
 		// if this package isn't set to optional default...
 		case defaultMode == "required":
-- 
2.43.0


From cafa4480ec1e0c6f8d2fdad2406bd456ec364e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 14/64] fix: apply markers of types declared as pointers once

---
 pkg/crd/schema.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 0d88f8c..572b03e 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -224,7 +224,8 @@ func typeToSchema(ctx *schemaContext, rawType ast.Expr) *apiext.JSONSchemaProps
 	case *ast.MapType:
 		props = mapToSchema(ctx, expr)
 	case *ast.StarExpr:
-		props = typeToSchema(ctx, expr.X)
+		// documentation and markers are dealt with below
+		props = typeToSchema(ctx.ForInfo(&markers.TypeInfo{RawSpec: ctx.info.RawSpec}), expr.X)
 	case *ast.StructType:
 		props = structToSchema(ctx, expr)
 	default:
-- 
2.43.0


From a2ac76d9a7d995744bff320676372fa4f9d19437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 15/64] fix: apply schema markers in the same order in every
 run

---
 pkg/crd/schema.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 572b03e..2d74016 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -148,8 +148,15 @@ func applyMarkers(ctx *schemaContext, markerSet markers.MarkerValues, props *api
 	markers := make([]schemaMarkerWithName, 0, len(markerSet))
 	itemsMarkers := make([]schemaMarkerWithName, 0, len(markerSet))
 
-	for markerName, markerValues := range markerSet {
-		for _, markerValue := range markerValues {
+	// go through the markers by name, so that the result doesn't change from run to run
+	markerNames := make([]string, 0, len(markerSet))
+	for markerName := range markerSet {
+		markerNames = append(markerNames, markerName)
+	}
+	sort.Strings(markerNames)
+
+	for _, markerName := range markerNames {
+		for _, markerValue := range markerSet[markerName] {
 			if schemaMarker, isSchemaMarker := markerValue.(SchemaMarker); isSchemaMarker {
 				if strings.HasPrefix(markerName, crdmarkers.ValidationItemsPrefix) {
 					itemsMarkers = append(itemsMarkers, schemaMarkerWithName{
@@ -189,8 +196,8 @@ func applyMarkers(ctx *schemaContext, markerSet markers.MarkerValues, props *api
 
 		return iPriority < jPriority
 	}
-	sort.Slice(markers, func(i, j int) bool { return cmpPriority(markers, i, j) })
-	sort.Slice(itemsMarkers, func(i, j int) bool { return cmpPriority(itemsMarkers, i, j) })
+	sort.SliceStable(markers, func(i, j int) bool { return cmpPriority(markers, i, j) })
+	sort.SliceStable(itemsMarkers, func(i, j int) bool { return cmpPriority(itemsMarkers, i, j) })
 
 	for _, schemaMarker := range markers {
 		if err := schemaMarker.SchemaMarker.ApplyToSchema(props); err != nil {
-- 
2.43.0


From 322346b2103a9fa0e4dbc19c1dc052092739f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:25 +0000
Subject: [PATCH 16/64] fix: report CRD labels without a value instead of
 crashing

---
 pkg/crd/markers/crd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/crd/markers/crd.go b/pkg/crd/markers/crd.go
index bd3cef5..d4a035d 100644
--- a/pkg/crd/markers/crd.go
+++ b/pkg/crd/markers/crd.go
@@ -384,6 +384,9 @@ func (s Metadata) ApplyToCRD(crd *apiext.CustomResourceDefinition, _ string) err
 		}
 		for _, str := range s.Labels {
 			kv := strings.SplitN(str, "=", 2)
+			if len(kv) < 2 {
+				return fmt.Errorf("label %s is not in 'xxx=xxx' format", str)
+			}
 			crd.Labels[kv[0]] = kv[1]
 		}
 	}
-- 
2.43.0


From 1cfdcebe5e877cdabdcb57d1718658ddfa309070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 17/64] fix: go through the versions of a CRD in the same order
 in every run

---
 pkg/crd/spec.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/crd/spec.go b/pkg/crd/spec.go
index e4cbe3f..b52308f 100644
--- a/pkg/crd/spec.go
+++ b/pkg/crd/spec.go
@@ -60,6 +60,14 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		}
 		packages = append(packages, pkg)
 	}
+	// go through the versions in order, so that the result doesn't change from run to run
+	sort.Slice(packages, func(i, j int) bool {
+		iVer, jVer := p.GroupVersions[packages[i]].Version, p.GroupVersions[packages[j]].Version
+		if iVer != jVer {
+			return iVer < jVer
+		}
+		return packages[i].PkgPath < packages[j].PkgPath
+	})
 
 	defaultPlural := strings.ToLower(flect.Pluralize(groupKind.Kind))
 	crd := apiext.CustomResourceDefinition{
-- 
2.43.0


From 25ff99717c703737dcccd8121c622088c4b4c46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 18/64] fix: let a skipped version have other CRD markers

---
 pkg/crd/spec.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/spec.go b/pkg/crd/spec.go
index b52308f..a82eb06 100644
--- a/pkg/crd/spec.go
+++ b/pkg/crd/spec.go
@@ -27,6 +27,9 @@ import (
 	"sigs.k8s.io/controller-tools/pkg/loader"
 )
 
+// skipVersionName is the name of the marker that removes a version from its CRD.
+const skipVersionName = "kubebuilder:skipversion"
+
 // SpecMarker is a marker that knows how to apply itself to a particular
 // version in a CRD Spec.
 type SpecMarker interface {
@@ -121,8 +124,18 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		}
 		ver := p.GroupVersions[pkg].Version
 
-		for _, markerVals := range typeInfo.Markers {
-			for _, val := range markerVals {
+		markerNames := make([]string, 0, len(typeInfo.Markers))
+		for name := range typeInfo.Markers {
+			if name != skipVersionName {
+				markerNames = append(markerNames, name)
+			}
+		}
+		sort.Strings(markerNames)
+		// skip the version last, the other markers need it
+		markerNames = append(markerNames, skipVersionName)
+
+		for _, name := range markerNames {
+			for _, val := range typeInfo.Markers[name] {
 				if specMarker, isSpecMarker := val.(SpecMarker); isSpecMarker {
 					if err := specMarker.ApplyToCRD(&crd.Spec, ver); err != nil {
 						pkg.AddError(loader.ErrFromNode(err /* an okay guess */, typeInfo.RawSpec))
-- 
2.43.0


From 0168406ad5292238c4ee07881abecdc2367236c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 19/64] fix: do not write a CRD file for kinds without a CRD

---
 pkg/crd/gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/gen.go b/pkg/crd/gen.go
index 5fad65a..49231ba 100644
--- a/pkg/crd/gen.go
+++ b/pkg/crd/gen.go
@@ -179,7 +179,11 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 
 	for _, groupKind := range kubeKinds {
 		parser.NeedCRDFor(groupKind, g.MaxDescLen)
-		crdRaw := parser.CustomResourceDefinitions[groupKind]
+		crdRaw, hasCRD := parser.CustomResourceDefinitions[groupKind]
+		if !hasCRD {
+			// no package with a group has the kind, or all its versions are skipped
+			continue
+		}
 		addAttribution(&crdRaw)
 
 		// Prevent the top level metadata for the CRD to be generate regardless of the intention in the arguments
-- 
2.43.0


From b3aaad45b367a24dbfa9c8be7b1020d9b8ac0899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 20/64] fix: flatten mutually recursive types the same in every
 run and order

---
 pkg/crd/flatten.go | 66 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 6 deletions(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index cf02c9b..2e45580 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -227,7 +227,18 @@ type Flattener struct {
 
 	// flattenedTypes hold the flattened version of each seen type for later reuse.
 	flattenedTypes map[TypeIdent]apiext.JSONSchemaProps
-	initOnce       sync.Once
+	// inProgress holds the types that are being flattened, the outermost first.
+	inProgress []inProgressType
+	initOnce   sync.Once
+}
+
+// inProgressType is a type that is being flattened.
+type inProgressType struct {
+	TypeIdent
+	// partial says that the result depends on the types this one was reached
+	// from, since references back to those are cut. Such a result must not be
+	// used elsewhere.
+	partial bool
 }
 
 func (f *Flattener) init() {
@@ -245,6 +256,38 @@ func (f *Flattener) cacheType(typ TypeIdent, schema apiext.JSONSchemaProps) {
 	f.flattenedTypes[typ] = schema
 }
 
+// begin marks the given type as being flattened.
+func (f *Flattener) begin(typ TypeIdent) {
+	f.inProgress = append(f.inProgress, inProgressType{TypeIdent: typ})
+}
+
+// end saves the flattened version of the innermost type being flattened, unless it's only
+// valid where it was made.
+func (f *Flattener) end(schema apiext.JSONSchemaProps) {
+	last := f.inProgress[len(f.inProgress)-1]
+	f.inProgress = f.inProgress[:len(f.inProgress)-1]
+	if !last.partial {
+		f.cacheType(last.TypeIdent, schema)
+	}
+}
+
+// isInProgress checks if the given type is being flattened. If so, all of the types on the
+// way back to it are part of a cycle of several types, unless the type refers to itself.
+func (f *Flattener) isInProgress(typ TypeIdent) bool {
+	for i := range f.inProgress {
+		if f.inProgress[i].TypeIdent != typ {
+			continue
+		}
+		if cycle := f.inProgress[i:]; len(cycle) > 1 {
+			for j := range cycle {
+				cycle[j].partial = true
+			}
+		}
+		return true
+	}
+	return false
+}
+
 // loadUnflattenedSchema fetches a fresh, unflattened schema from the parser.
 func (f *Flattener) loadUnflattenedSchema(typ TypeIdent) (*apiext.JSONSchemaProps, error) {
 	f.Parser.NeedSchemaFor(typ)
@@ -268,8 +311,9 @@ func (f *Flattener) FlattenType(typ TypeIdent) *apiext.JSONSchemaProps {
 		typ.Package.AddError(err)
 		return nil
 	}
+	f.begin(typ)
 	resSchema := f.FlattenSchema(*baseSchema, typ.Package)
-	f.cacheType(typ, *resSchema)
+	f.end(*resSchema)
 	return resSchema
 }
 
@@ -379,7 +423,7 @@ func (f *flattenVisitor) Visit(baseSchema *apiext.JSONSchemaProps) SchemaVisitor
 	if baseSchema == nil {
 		// end-of-node marker, cache the results
 		if f.currentType != nil {
-			f.cacheType(*f.currentType, *f.currentSchema)
+			f.end(*f.currentSchema)
 			// preserve field information *after* caching so that we don't
 			// accidentally cache field-level information onto the schema for
 			// the type in general.
@@ -397,6 +441,18 @@ func (f *flattenVisitor) Visit(baseSchema *apiext.JSONSchemaProps) SchemaVisitor
 			return nil
 		}
 
+		// avoid loops by cutting references back to types that we're in the middle of
+		if f.isInProgress(refIdent) {
+			if f.currentSchema == baseSchema {
+				// an alias of itself, there's nothing to put in its place
+				return nil
+			}
+			cutSchema := apiext.JSONSchemaProps{}
+			preserveFields(&cutSchema, *baseSchema)
+			*baseSchema = cutSchema
+			return nil
+		}
+
 		// load and potentially flatten the schema
 
 		// check the cache first...
@@ -419,9 +475,7 @@ func (f *flattenVisitor) Visit(baseSchema *apiext.JSONSchemaProps) SchemaVisitor
 		origField := *baseSchema
 		*baseSchema = *refSchema
 
-		// avoid loops (which shouldn't exist, but just in case)
-		// by marking a nil cached pointer before we start recursing
-		f.cacheType(refIdent, apiext.JSONSchemaProps{})
+		f.begin(refIdent)
 
 		return &flattenVisitor{
 			Flattener: f.Flattener,
-- 
2.43.0


From bb4994066ab6489f46d58a6b7c845df3193411b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 21/64] fix: resolve chains of references whose texts are equal
 in different packages

---
 pkg/crd/schema_visitor.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pkg/crd/schema_visitor.go b/pkg/crd/schema_visitor.go
index 2604d73..742370e 100644
--- a/pkg/crd/schema_visitor.go
+++ b/pkg/crd/schema_visitor.go
@@ -56,14 +56,12 @@ type schemaWalker struct {
 // by a nil schema with the returned visitor to mark completion.  If a nil visitor
 // is returned, traversal will no continue into the children of the current schema.
 func (w schemaWalker) walkSchema(schema *apiext.JSONSchemaProps) {
-	// Walk a potential chain of schema references, keeping track of seen
-	// references to avoid circular references
+	// Walk a potential chain of schema references, until the visitor leaves
+	// the reference as it is. References can't be told apart by their text,
+	// since they may be relative to different packages.
 	subVisitor := w.visitor
-	seenRefs := map[string]bool{}
-	if schema.Ref != nil {
-		seenRefs[*schema.Ref] = true
-	}
 	for {
+		ref := schema.Ref
 		subVisitor = subVisitor.Visit(schema)
 		if subVisitor == nil {
 			return
@@ -71,11 +69,10 @@ func (w schemaWalker) walkSchema(schema *apiext.JSONSchemaProps) {
 		// mark completion of the visitor
 		defer subVisitor.Visit(nil)
 
-		// Break if schema is not a reference or a cycle is detected
-		if schema.Ref == nil || len(*schema.Ref) == 0 || seenRefs[*schema.Ref] {
+		// Break if schema is not a reference or was not resolved
+		if schema.Ref == nil || len(*schema.Ref) == 0 || schema.Ref == ref {
 			break
 		}
-		seenRefs[*schema.Ref] = true
 	}
 
 	// walk sub-schemata
-- 
2.43.0


From eedc900408f848f87f631d5581e75a53d2f84fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 22/64] fix: keep exclusive bounds with their bounds when
 flattening

---
 pkg/crd/flatten.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index 2e45580..0faa147 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -75,6 +75,16 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 		case "Title", "Description", "Example", "ExternalDocs":
 			// don't merge because we pre-merge to properly preserve field docs
 			continue
+		case "ExclusiveMaximum":
+			if srcRemainder.Maximum != nil {
+				// hoisted together with the maximum
+				continue
+			}
+		case "ExclusiveMinimum":
+			if srcRemainder.Minimum != nil {
+				// hoisted together with the minimum
+				continue
+			}
 		}
 		srcField := srcVal.Field(i)
 		fldTyp := srcField.Type()
@@ -148,6 +158,13 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 			dstField.Set(srcField)
 		case "XValidations":
 			dstField.Set(reflect.AppendSlice(srcField, dstField))
+		case "Maximum", "Minimum":
+			// whether a bound is exclusive goes with the bound...
+			exclusive := "Exclusive" + fieldName
+			srcRemVal.FieldByName(exclusive).Set(srcVal.FieldByName(exclusive))
+			dstRemVal.FieldByName(exclusive).Set(dstVal.FieldByName(exclusive))
+			dstVal.FieldByName(exclusive).SetBool(false)
+			fallthrough
 		// NB(directxman12): no need to explicitly handle nullable -- false is considered to be the zero value
 		// TODO(directxman12): src isn't necessarily the field value -- it's just the most recent allOf entry
 		default:
-- 
2.43.0


From da6b4d937120d1f09fc482322b4269aada584137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 23/64] fix: do not cut descriptions in the middle of a
 character

---
 pkg/crd/desc_visitor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/desc_visitor.go b/pkg/crd/desc_visitor.go
index 1a5698b..0822a89 100644
--- a/pkg/crd/desc_visitor.go
+++ b/pkg/crd/desc_visitor.go
@@ -19,6 +19,7 @@ package crd
 import (
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
 )
@@ -64,11 +65,16 @@ func truncateString(desc string, maxLen int) string {
 		return desc
 	}
 
+	// Don't cut in the middle of a character.
+	for maxLen > 0 && !utf8.RuneStart(desc[maxLen]) {
+		maxLen--
+	}
 	desc = desc[0:maxLen]
 
 	// Trying to chop off at closest sentence boundary.
 	if n := strings.LastIndexFunc(desc, isSentenceTerminal); n > 0 {
-		return desc[0 : n+1]
+		_, size := utf8.DecodeRuneInString(desc[n:])
+		return desc[0 : n+size]
 	}
 
 	// Trying to chop off at closest word boundary (i.e. whitespace).
-- 
2.43.0


From 08b65b9caf89698c9338ad6d1ecf13cb4d75cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 24/64] fix: cut references that lead back through names of
 other types

A reference to a type in progress was left in place where the name of
another type led to it, although only a type that is an alias of itself
has nothing to put in its place.
---
 pkg/crd/flatten.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index 0faa147..1bdf98a 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -252,6 +252,8 @@ type Flattener struct {
 // inProgressType is a type that is being flattened.
 type inProgressType struct {
 	TypeIdent
+	// schema is the place that the type is being flattened for, if it's a reference.
+	schema *apiext.JSONSchemaProps
 	// partial says that the result depends on the types this one was reached
 	// from, since references back to those are cut. Such a result must not be
 	// used elsewhere.
@@ -273,9 +275,9 @@ func (f *Flattener) cacheType(typ TypeIdent, schema apiext.JSONSchemaProps) {
 	f.flattenedTypes[typ] = schema
 }
 
-// begin marks the given type as being flattened.
-func (f *Flattener) begin(typ TypeIdent) {
-	f.inProgress = append(f.inProgress, inProgressType{TypeIdent: typ})
+// begin marks the given type as being flattened, at the given place if it's a reference.
+func (f *Flattener) begin(typ TypeIdent, schema *apiext.JSONSchemaProps) {
+	f.inProgress = append(f.inProgress, inProgressType{TypeIdent: typ, schema: schema})
 }
 
 // end saves the flattened version of the innermost type being flattened, unless it's only
@@ -290,7 +292,8 @@ func (f *Flattener) end(schema apiext.JSONSchemaProps) {
 
 // isInProgress checks if the given type is being flattened. If so, all of the types on the
 // way back to it are part of a cycle of several types, unless the type refers to itself.
-func (f *Flattener) isInProgress(typ TypeIdent) bool {
+// Also returns the place that the type is being flattened for.
+func (f *Flattener) isInProgress(typ TypeIdent) (*apiext.JSONSchemaProps, bool) {
 	for i := range f.inProgress {
 		if f.inProgress[i].TypeIdent != typ {
 			continue
@@ -300,9 +303,9 @@ func (f *Flattener) isInProgress(typ TypeIdent) bool {
 				cycle[j].partial = true
 			}
 		}
-		return true
+		return f.inProgress[i].schema, true
 	}
-	return false
+	return nil, false
 }
 
 // loadUnflattenedSchema fetches a fresh, unflattened schema from the parser.
@@ -328,7 +331,7 @@ func (f *Flattener) FlattenType(typ TypeIdent) *apiext.JSONSchemaProps {
 		typ.Package.AddError(err)
 		return nil
 	}
-	f.begin(typ)
+	f.begin(typ, nil)
 	resSchema := f.FlattenSchema(*baseSchema, typ.Package)
 	f.end(*resSchema)
 	return resSchema
@@ -459,8 +462,8 @@ func (f *flattenVisitor) Visit(baseSchema *apiext.JSONSchemaProps) SchemaVisitor
 		}
 
 		// avoid loops by cutting references back to types that we're in the middle of
-		if f.isInProgress(refIdent) {
-			if f.currentSchema == baseSchema {
+		if outerSchema, inProgress := f.isInProgress(refIdent); inProgress {
+			if outerSchema == baseSchema {
 				// an alias of itself, there's nothing to put in its place
 				return nil
 			}
@@ -492,7 +495,7 @@ func (f *flattenVisitor) Visit(baseSchema *apiext.JSONSchemaProps) SchemaVisitor
 		origField := *baseSchema
 		*baseSchema = *refSchema
 
-		f.begin(refIdent)
+		f.begin(refIdent, baseSchema)
 
 		return &flattenVisitor{
 			Flattener: f.Flattener,
-- 
2.43.0


From 3cc1d3a0f645bde0914c74a83d917a2f9289beb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 25/64] fix: let types with JSON marshalling and no Type marker
 have other markers

All markers were applied to an empty schema first, so that markers that are
fine for the Go type were reported not to fit.
---
 pkg/crd/schema.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 2d74016..049474b 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -118,11 +118,12 @@ func infoToSchema(ctx *schemaContext) *apiext.JSONSchemaProps {
 		// markers value and do not traverse as the marshaler could be doing
 		// anything. If there is no marker, fall back to traversing.
 		case implements(obj.Type(), jsonMarshaler):
+			if typ, _ := ctx.info.Markers.Get("kubebuilder:validation:Type").(crdmarkers.Type); typ == "" {
+				break
+			}
 			schema := &apiext.JSONSchemaProps{}
 			applyMarkers(ctx, ctx.info.Markers, schema, ctx.info.RawSpec.Type)
-			if schema.Type != "" {
-				return schema
-			}
+			return schema
 
 		// If the obj implements a text marshaler, encode it as a string.
 		case implements(obj.Type(), textMarshaler):
-- 
2.43.0


From 9f10c859a6a3e5880d28793d1efb25e612d3e4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 26/64] fix: name fields without a JSON name like encoding/json
 does

Only embedded fields are inlined when their tag has no name.
---
 pkg/crd/schema.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 049474b..b5bb148 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -461,7 +461,11 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 			}
 		}
 		fieldName := jsonOpts[0]
-		inline = inline || fieldName == "" // anonymous fields are inline fields in YAML/JSON
+		if fieldName == "" && !inline {
+			// JSON uses the name of the field in Go...
+			fieldName = field.Name
+		}
+		inline = inline || fieldName == "" // ...but anonymous fields are inline fields in YAML/JSON
 
 		// if no default required mode is set, default to required
 		defaultMode := "required"
-- 
2.43.0


From 421d64ce4f046311c47dd6ffeae050b8168fdc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:49 +0000
Subject: [PATCH 27/64] fix: refer to aliases of predeclared types in their
 package when they are dot-imported

---
 pkg/crd/schema.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index b5bb148..bbfcdaa 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -289,8 +289,13 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 		// > Otherwise, the alias information is only in the type name, which
 		// > points directly to the actual (aliased) type.
 		if basicInfo.Name() != ident.Name {
-			ctx.requestSchema("", ident.Name)
-			link := TypeRefLink("", ident.Name)
+			pkgPath := ""
+			if obj := ctx.pkg.TypesInfo.Uses[ident]; obj != nil && obj.Pkg() != nil && obj.Pkg() != ctx.pkg.Types {
+				// from a dot import
+				pkgPath = loader.NonVendorPath(obj.Pkg().Path())
+			}
+			ctx.requestSchema(pkgPath, ident.Name)
+			link := TypeRefLink(pkgPath, ident.Name)
 			return &apiext.JSONSchemaProps{
 				Type:   typ,
 				Format: fmt,
-- 
2.43.0


From 1946a0e1567b52c7d47d8f8e7d050ffcfc7eefb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 28/64] fix: reject empty options instead of crashing

---
 pkg/genall/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/genall/options.go b/pkg/genall/options.go
index 192235b..080e9f9 100644
--- a/pkg/genall/options.go
+++ b/pkg/genall/options.go
@@ -124,7 +124,7 @@ func protoFromOptions(optionsRegistry *markers.Registry, options []string) (prot
 	gensByName := make(map[string]*Generator)
 
 	for _, rawOpt := range options {
-		if rawOpt[0] != '+' {
+		if !strings.HasPrefix(rawOpt, "+") {
 			rawOpt = "+" + rawOpt // add a `+` to make it acceptable for usage with the registry
 		}
 		defn := optionsRegistry.Lookup(rawOpt, markers.DescribesPackage)
-- 
2.43.0


From 8d47b651ed357a9ae7f796a5d8b96e7d21707b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 29/64] fix: do not lose parse errors of files parsed at the
 same time

---
 pkg/loader/loader.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 8062b72..2f752be 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -105,6 +105,7 @@ func (p *Package) NeedSyntax() {
 		return
 	}
 	out := make([]*ast.File, len(p.CompiledGoFiles))
+	errs := make([]error, len(p.CompiledGoFiles))
 	var wg sync.WaitGroup
 	wg.Add(len(p.CompiledGoFiles))
 	for i, filename := range p.CompiledGoFiles {
@@ -112,17 +113,18 @@ func (p *Package) NeedSyntax() {
 			defer wg.Done()
 			src, err := os.ReadFile(filename)
 			if err != nil {
-				p.AddError(err)
-				return
-			}
-			out[i], err = p.loader.parseFile(filename, src)
-			if err != nil {
-				p.AddError(err)
+				errs[i] = err
 				return
 			}
+			out[i], errs[i] = p.loader.parseFile(filename, src)
 		}(i, filename)
 	}
 	wg.Wait()
+	for _, err := range errs {
+		if err != nil {
+			p.AddError(err)
+		}
+	}
 	for _, file := range out {
 		if file == nil {
 			return
-- 
2.43.0


From 759dfe3a17c212c8784ca56b1946dd18421da2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 30/64] fix: do not read whether imports are ill-typed while
 they are checked

---
 pkg/loader/loader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 2f752be..1a17abf 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -292,8 +292,11 @@ func (l *loader) typeCheck(pkg *Package) {
 	illTyped := len(errs) > 0
 	if !illTyped {
 		for _, importedPkg := range pkg.Imports() {
-			if importedPkg.IllTyped {
-				illTyped = true
+			// it may be checked in parallel, see above
+			importedPkg.Lock()
+			illTyped = importedPkg.IllTyped
+			importedPkg.Unlock()
+			if illTyped {
 				break
 			}
 		}
-- 
2.43.0


From ee8f63f9770fb903de33a64eb157fe85cd3e24d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 31/64] fix: let packages be type-checked from several
 goroutines

---
 pkg/loader/refs.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkg/loader/refs.go b/pkg/loader/refs.go
index f58a29f..30fa69c 100644
--- a/pkg/loader/refs.go
+++ b/pkg/loader/refs.go
@@ -207,12 +207,7 @@ type TypeChecker struct {
 // that pass through (have true returned by) any of the NodeFilters.
 func (c *TypeChecker) Check(root *Package) {
 	c.init()
-
-	// use a sub-checker with the appropriate settings
-	(&TypeChecker{
-		NodeFilters:     c.NodeFilters,
-		checkedPackages: c.checkedPackages,
-	}).check(root)
+	c.check(root)
 }
 
 func (c *TypeChecker) isNodeInteresting(node ast.Node) bool {
@@ -231,6 +226,8 @@ func (c *TypeChecker) isNodeInteresting(node ast.Node) bool {
 }
 
 func (c *TypeChecker) init() {
+	c.Lock()
+	defer c.Unlock()
 	if c.checkedPackages == nil {
 		c.checkedPackages = make(map[*Package]struct{})
 	}
-- 
2.43.0


From 4742d74503ea919518433b70d21f8c6575a76391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 32/64] fix: do not hang on import cycles of packages given as
 separate roots

---
 pkg/loader/loader.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 1a17abf..5d95f20 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -618,7 +618,8 @@ func visitImports(rootPkgs []*Package, pkg *Package, seen sets.Set[string]) {
 	}
 	for importedPkgID, importedPkg := range pkg.Imports() {
 		for i := range rootPkgs {
-			if importedPkgID == rootPkgs[i].ID {
+			// roots that were loaded one by one may import each other, don't close such a cycle
+			if importedPkgID == rootPkgs[i].ID && importedPkg != rootPkgs[i] && !reaches(rootPkgs[i], pkg, sets.Set[*Package]{}) {
 				pkg.imports[importedPkgID] = rootPkgs[i]
 			}
 		}
@@ -629,6 +630,23 @@ func visitImports(rootPkgs []*Package, pkg *Package, seen sets.Set[string]) {
 	}
 }
 
+// reaches tells if the given package is, or imports, directly or indirectly, the target.
+func reaches(pkg, target *Package, seen sets.Set[*Package]) bool {
+	if pkg == target {
+		return true
+	}
+	for _, importedPkg := range pkg.Imports() {
+		if seen.Has(importedPkg) {
+			continue
+		}
+		seen.Insert(importedPkg)
+		if reaches(importedPkg, target, seen) {
+			return true
+		}
+	}
+	return false
+}
+
 // importFunc is an implementation of the single-method
 // types.Importer interface based on a function value.
 type importerFunc func(path string) (*types.Package, error)
-- 
2.43.0


From 8e0b458f77b9d1cb3a91d2b7158e0c4351ff827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 33/64] fix: load Go files given as roots, as documented

---
 pkg/loader/loader.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 5d95f20..db89794 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -26,6 +26,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"slices"
 	"sync"
 
 	"golang.org/x/tools/go/packages"
@@ -320,6 +321,9 @@ func (l *loader) parseFile(filename string, src []byte) (*ast.File, error) {
 	return file, nil
 }
 
+// filesPkgID is the ID of packages that are given by their files.
+const filesPkgID = "command-line-arguments"
+
 // LoadRoots loads the given "root" packages by path, transitively loading
 // and all imports as well.
 //
@@ -368,8 +372,9 @@ func LoadRoots(roots ...string) ([]*Package, error) {
 //     descendants include any nested, Go modules. If so, add the directory
 //     that contains the nested Go module to the filesystem path roots.
 //
-//  5. Load the filesystem path roots and return the load packages for the
-//     package/module roots AND the filesystem path roots.
+//  5. Load the filesystem path roots, those that are Go files by directory,
+//     and return the load packages for the package/module roots AND the
+//     filesystem path roots.
 func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, error) {
 	l := &loader{
 		cfg:      cfg,
@@ -423,7 +428,8 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 		var pkgs []*Package
 		for _, rp := range rawPkgs {
 			p := l.packageFor(rp)
-			if !uniquePkgIDs.Has(p.ID) {
+			// packages made of files all have the same ID
+			if p.ID == filesPkgID || !uniquePkgIDs.Has(p.ID) {
 				pkgs = append(pkgs, p)
 				uniquePkgIDs.Insert(p.ID)
 			}
@@ -573,9 +579,22 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 	//       or "./..."
 	//
 	//    4. execute the loader with the value from step three
+	var fileDirs []string
+	filesByDir := make(map[string][]string)
 	for _, r := range fspRoots {
 		b, d := filepath.Base(r), filepath.Dir(r)
 
+		// the Go files of one directory that are given as roots make one package
+		if info, err := os.Stat(r); err == nil && !info.IsDir() && filepath.Ext(r) == ".go" {
+			if filesByDir[d] == nil {
+				fileDirs = append(fileDirs, d)
+			}
+			if file := "." + string(filepath.Separator) + b; !slices.Contains(filesByDir[d], file) {
+				filesByDir[d] = append(filesByDir[d], file)
+			}
+			continue
+		}
+
 		// we want the base part of the path to be either "..." or ".", except
 		// Go's filepath utilities clean paths during manipulation, removing the
 		// ".". thus, if not "...", let's update the path components so that:
@@ -605,6 +624,16 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 		l.Roots = append(l.Roots, pkgs...)
 	}
 
+	// finally, load the roots that are files
+	for _, d := range fileDirs {
+		l.cfg.Dir = d
+		pkgs, err := loadPackages(filesByDir[d]...)
+		if err != nil {
+			return nil, err
+		}
+		l.Roots = append(l.Roots, pkgs...)
+	}
+
 	return l.Roots, nil
 }
 
-- 
2.43.0


From 1c21b90b03216763b5077a3738ce6c691ed275ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 34/64] fix: do not crash on deep copies of predeclared
 interfaces and aliases

---
 pkg/deepcopy/traverse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index b7bed1d..2d71fc2 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -198,8 +198,8 @@ func (n *namingInfo) Syntax(basePkg *loader.Package, imports *importsList) strin
 	// register that we need an import for this type,
 	// so we can get the appropriate alias to use.
 	otherPkg := typeName.Pkg()
-	if otherPkg == basePkg.Types {
-		// local import
+	if otherPkg == nil || otherPkg == basePkg.Types {
+		// predeclared (e.g. error), or local import
 		return typeName.Name()
 	}
 	alias := imports.NeedImport(loader.NonVendorPath(otherPkg.Path()))
-- 
2.43.0


From 4c14c4ce26d6a006b2899fb8a6eb58c00a8e8578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:10 +0000
Subject: [PATCH 35/64] fix: deep copy maps with aliases of basic types as keys
 or values

---
 pkg/deepcopy/traverse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 2d71fc2..e391e35 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -754,7 +754,7 @@ func eventualUnderlyingType(typeInfo types.Type) types.Type {
 
 // fineToShallowCopy checks if a shallow-copying a type is equivalent to deepcopy-ing it.
 func fineToShallowCopy(typeInfo types.Type) bool {
-	switch typeInfo := typeInfo.(type) {
+	switch typeInfo := types.Unalias(typeInfo).(type) {
 	case *types.Basic:
 		// basic types (int, string, etc) are always fine to shallow-copy,
 		// except for Invalid and UnsafePointer, which can't be copied at all.
-- 
2.43.0


From efb39afb2dcff750174be3c6015013d77e8e47a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:10 +0000
Subject: [PATCH 36/64] fix: generate deep copies of pointers to named slices
 and maps that compile

---
 pkg/deepcopy/traverse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index e391e35..f46c841 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -545,7 +545,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 
 	// pass-by-reference types get delegated to the main switch
 	if passesByReference(underlyingElem) {
-		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: underlyingElem}).Syntax(c.pkg, c.importsList))
+		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
 		c.If("**in != nil", func() {
 			c.Line("in, out := *in, *out")
 			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: underlyingElem}, eventualUnderlyingType(underlyingElem))
-- 
2.43.0


From 1cd20713dc5c9a78316b9ac19b1975e86b210db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 37/64] fix: deep copy slices of pointers and pointers to
 pointers to types that copy themselves

---
 pkg/deepcopy/traverse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index f46c841..3b4aeea 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -405,13 +405,14 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 // underlying type is the given slice.
 func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *types.Slice) {
 	underlyingElem := eventualUnderlyingType(sliceType.Elem())
+	_, elemIsPtr := underlyingElem.(*types.Pointer)
 
 	// make the actual type (not the underlying)
 	c.Linef("*out = make(%[1]s, len(*in))", actualName.Syntax(c.pkg, c.importsList))
 
 	// check if we need to do anything special, or just copy each element appropriately
 	switch {
-	case hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()):
+	case !elemIsPtr && hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()):
 		// just use deepcopy if it's present (deepcopyinto will be filled in by our code)
 		c.For("i := range *in", func() {
 			c.Line("(*in)[i].DeepCopyInto(&(*out)[i])")
@@ -520,9 +521,11 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 	underlyingElem := eventualUnderlyingType(pointerType.Elem())
 
 	// if we have a manually written deepcopy, just use that
+	// (pointers to pointers have to copy the inner pointer first)
+	_, elemIsPtr := underlyingElem.(*types.Pointer)
 	hasDeepCopy, copyOnPtr := hasDeepCopyMethod(c.pkg, pointerType.Elem())
 	hasDeepCopyInto := hasDeepCopyIntoMethod(c.pkg, pointerType.Elem())
-	if hasDeepCopyInto || hasDeepCopy {
+	if !elemIsPtr && (hasDeepCopyInto || hasDeepCopy) {
 		outNeedsPtr := resultWillBePointer(pointerType.Elem(), hasDeepCopy, copyOnPtr)
 		if hasDeepCopy {
 			outNeedsPtr = copyOnPtr
-- 
2.43.0


From 0a860818f7c27416fc4535ffeb3dbce519f89c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 38/64] fix: generate deep copies for aliases of types that
 copy themselves that compile

---
 pkg/deepcopy/traverse.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 3b4aeea..293ae9f 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -347,7 +347,7 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 		switch {
 		case hasDeepCopyInto || hasDeepCopy:
 			// use the manually-written methods
-			_, fieldIsPtr := mapType.Elem().(*types.Pointer)                       // is "out" actually a pointer
+			_, fieldIsPtr := types.Unalias(mapType.Elem()).(*types.Pointer)        // is "out" actually a pointer
 			inIsPtr := resultWillBePointer(mapType.Elem(), hasDeepCopy, copyOnPtr) // does copying "in" produce a pointer
 			if hasDeepCopy {
 				// If we're calling DeepCopy, check if it's receiver needs a pointer
@@ -462,7 +462,7 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 			// never execute there, because they're pretty clearly invalid
 			// syntax).
 
-			_, fieldIsPtr := field.Type().(*types.Pointer)
+			_, fieldIsPtr := types.Unalias(field.Type()).(*types.Pointer)
 			inIsPtr := resultWillBePointer(field.Type(), hasDeepCopy, copyOnPtr)
 			if fieldIsPtr {
 				// we'll need a if block to check for nilness
@@ -591,7 +591,7 @@ func resultWillBePointer(typeInfo types.Type, hasDeepCopy, deepCopyOnPtr bool) b
 	}
 
 	// otherwise, we'll need to check its type
-	switch typeInfo := typeInfo.(type) {
+	switch typeInfo := types.Unalias(typeInfo).(type) {
 	case *types.Pointer:
 		// NB(directxman12): we don't have to worry about the elem having a deepcopy,
 		// since hasManualDeepCopy would've caught that.
-- 
2.43.0


From 7ac1c7726c16c55780d4daf93e27b7af37b2b9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:13 +0000
Subject: [PATCH 39/64] fix: report struct literals that cannot be deep copied
 instead of generating broken code

---
 pkg/deepcopy/traverse.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 293ae9f..01c5119 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -503,9 +503,15 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 				// nothing to do, initial assignment copied this
 			}
 		case *types.Struct:
-			if fineToShallowCopy(field.Type()) {
+			_, isLiteral := types.Unalias(field.Type()).(*types.Struct)
+			switch {
+			case fineToShallowCopy(field.Type()):
 				c.Linef("out.%[1]s = in.%[1]s", field.Name())
-			} else {
+			case isLiteral:
+				// type literals have no methods
+				c.pkg.AddError(loader.ErrFromNode(fmt.Errorf("invalid field type: %s", underlyingField), field))
+				return
+			default:
 				c.Linef("in.%[1]s.DeepCopyInto(&out.%[1]s)", field.Name())
 			}
 		default:
-- 
2.43.0


From 87f9ae7aa1b8458dd78c7e3d108dc415559e1148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 40/64] fix: generate deep copies of named pointers that
 compile

---
 pkg/deepcopy/traverse.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 01c5119..32a6fa0 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -523,9 +523,15 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 
 // genPointerDeepCopy generates DeepCopy code for the given named type whose
 // underlying type is the given struct.
-func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.Pointer) {
+func (c *copyMethodMaker) genPointerDeepCopy(actualName *namingInfo, pointerType *types.Pointer) {
 	underlyingElem := eventualUnderlyingType(pointerType.Elem())
 
+	// named pointers have no methods, so we have to call those of what they point to
+	inExpr := "(*in)"
+	if _, isNamed := types.Unalias(actualName.typeInfo).(*types.Named); isNamed {
+		inExpr = "(**in)"
+	}
+
 	// if we have a manually written deepcopy, just use that
 	// (pointers to pointers have to copy the inner pointer first)
 	_, elemIsPtr := underlyingElem.(*types.Pointer)
@@ -537,9 +543,9 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 			outNeedsPtr = copyOnPtr
 		}
 		if outNeedsPtr {
-			c.Line("*out = (*in).DeepCopy()")
+			c.Linef("*out = %s.DeepCopy()", inExpr)
 		} else {
-			c.Line("x := (*in).DeepCopy()")
+			c.Linef("x := %s.DeepCopy()", inExpr)
 			c.Line("*out = &x")
 		}
 		return
@@ -557,7 +563,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
 		c.If("**in != nil", func() {
 			c.Line("in, out := *in, *out")
-			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: underlyingElem}, eventualUnderlyingType(underlyingElem))
+			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: pointerType.Elem()}, pointerType.Elem())
 		})
 		return
 	}
@@ -566,7 +572,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 	switch underlyingElem := underlyingElem.(type) {
 	case *types.Struct:
 		c.Linef("*out = new(%[1]s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
-		c.Line("(*in).DeepCopyInto(*out)")
+		c.Linef("%s.DeepCopyInto(*out)", inExpr)
 	default:
 		c.pkg.AddError(fmt.Errorf("invalid pointer element type: %s", underlyingElem))
 		return
@@ -633,12 +639,10 @@ func shouldBeCopied(pkg *loader.Package, info *markers.TypeInfo) bool {
 	}
 
 	lastType := typeInfo
-	if _, isNamed := typeInfo.(*types.Named); isNamed {
-		// according to gengo, everything named is an alias, except for an alias to a pointer,
-		// which is just a pointer, afaict.  Just roll with it.
-		if asPtr, isPtr := typeInfo.(*types.Named).Underlying().(*types.Pointer); isPtr {
-			lastType = asPtr
-			typeInfo = asPtr
+	if named, isNamed := typeInfo.(*types.Named); isNamed {
+		// named pointers can't have methods
+		if _, isPtr := named.Underlying().(*types.Pointer); isPtr {
+			return false
 		}
 
 		// if it has a manual deepcopy or deepcopyinto, we're fine
-- 
2.43.0


From 57eb89d0ef8584ee2ec4fd050bea049680a14f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:34 +0000
Subject: [PATCH 41/64] fix: generate DeepCopyObject exactly for root types
 without one, and no method twice

---
 pkg/deepcopy/traverse.go | 45 ++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 32a6fa0..7c4c967 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -265,16 +265,19 @@ func (c *copyMethodMaker) GenerateMethodsFor(root *loader.Package, info *markers
 		} else {
 			c.Linef(bareDeepCopy, info.Name)
 		}
+	}
 
-		// maybe also generate DeepCopyObject, if asked.
-		if genObjectInterface(info) {
-			// we always need runtime.Object for DeepCopyObject
-			runtimeAlias := c.NeedImport("k8s.io/apimachinery/pkg/runtime")
-			if ptrReceiver {
-				c.Linef(ptrDeepCopyObj, info.Name, runtimeAlias)
-			} else {
-				c.Linef(bareDeepCopyObj, info.Name, runtimeAlias)
-			}
+	// maybe also generate DeepCopyObject, if asked.
+	if genObjectInterface(info) && !declaresMethod(typeInfo, "DeepCopyObject") {
+		// we always need runtime.Object for DeepCopyObject
+		runtimeAlias := c.NeedImport("k8s.io/apimachinery/pkg/runtime")
+		switch {
+		case !ptrReceiver:
+			c.Linef(bareDeepCopyObj, info.Name, runtimeAlias)
+		case hasManualDeepCopy && !deepCopyOnPtr:
+			c.Linef(valueDeepCopyObj, info.Name, runtimeAlias)
+		default:
+			c.Linef(ptrDeepCopyObj, info.Name, runtimeAlias)
 		}
 	}
 }
@@ -669,6 +672,21 @@ func shouldBeCopied(pkg *loader.Package, info *markers.TypeInfo) bool {
 	return isStruct
 }
 
+// declaresMethod checks if this type itself (not something it embeds) has a method of the given name,
+// whatever its signature.
+func declaresMethod(typeInfo types.Type, name string) bool {
+	named, isNamed := typeInfo.(*types.Named)
+	if !isNamed {
+		return false
+	}
+	for i := 0; i < named.NumMethods(); i++ {
+		if named.Method(i).Name() == name {
+			return true
+		}
+	}
+	return false
+}
+
 // hasDeepCopyMethod checks if this type has a manual DeepCopy method and if
 // the method has a pointer receiver.
 func hasDeepCopyMethod(pkg *loader.Package, typeInfo types.Type) (bool, bool) {
@@ -841,6 +859,15 @@ func (in *%[1]s) DeepCopyObject() %[2]s.Object {
 	}
 	return nil
 }
+`
+	// valueDeepCopyObj is a DeepCopyObject for a type with a manual DeepCopy that takes and returns values.
+	valueDeepCopyObj = `
+// DeepCopyObject is an autogenerated deepcopy function, copying the receiver, creating a new runtime.Object.
+func (in *%[1]s) DeepCopyObject() %[2]s.Object {
+	if in == nil { return nil }
+	out := in.DeepCopy()
+	return &out
+}
 `
 	// ptrDeepCopy is a DeepCopyObject for a type with an existing DeepCopyInto and a non-pointer receiver.
 	bareDeepCopyObj = `
-- 
2.43.0


From 40e071640ff06868314ad7f1747a925be4312497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:34 +0000
Subject: [PATCH 42/64] fix: import packages in deep copies under names that
 are free

---
 pkg/deepcopy/traverse.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 7c4c967..5dccba4 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -19,6 +19,7 @@ package deepcopy
 import (
 	"fmt"
 	"go/ast"
+	"go/token"
 	"go/types"
 	"io"
 	"path"
@@ -106,7 +107,7 @@ func (l *importsList) NeedImport(importPath string) string {
 	// otherwise, calculate an import alias by joining path parts till we get something unique
 	restPath, nextWord := path.Split(importPath)
 
-	for otherPath, exists := "", true; exists && otherPath != importPath; otherPath, exists = l.byAlias[alias] {
+	for otherPath, exists := "", true; exists && otherPath != importPath; otherPath, exists = l.aliasUser(alias) {
 		if restPath == "" {
 			// do something else to disambiguate if we're run out of parts and
 			// still have duplicates, somehow
@@ -137,6 +138,23 @@ func (l *importsList) NeedImport(importPath string) string {
 	return alias
 }
 
+// aliasUser returns what uses the given name already, if anything: a package ("" for our own),
+// or else something else that makes the name unusable as import alias.
+func (l *importsList) aliasUser(alias string) (string, bool) {
+	if otherPath, exists := l.byAlias[alias]; exists {
+		return otherPath, true
+	}
+	switch alias {
+	case "", "_", "in", "out", "i", "key", "val", "inVal", "outVal", "x", "clone", "c":
+		// not a name, or one of the variables of the code that we generate
+		return "", true
+	}
+	if token.IsKeyword(alias) || types.Universe.Lookup(alias) != nil {
+		return "", true
+	}
+	return "", l.pkg.Types != nil && l.pkg.Types.Scope().Lookup(alias) != nil
+}
+
 // ImportSpecs returns a string form of each import spec
 // (i.e. `alias "path/to/import").  Aliases are only present
 // when they don't match the package name.
-- 
2.43.0


From 56e2c728ae36f0afdb8e75f20ca31f94b40ea2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:25 +0000
Subject: [PATCH 43/64] fix: generate deep copies of slices and maps that
 contain themselves instead of recursing forever

---
 pkg/deepcopy/traverse.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 5dccba4..c1c8aa4 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -230,6 +230,10 @@ type copyMethodMaker struct {
 	pkg *loader.Package
 	*importsList
 	*codeWriter
+
+	// copying holds the named reference types whose contents are being copied,
+	// to notice those that contain themselves.
+	copying map[*types.TypeName]bool
 }
 
 // GenerateMethodsFor makes DeepCopy, DeepCopyInto, and DeepCopyObject methods
@@ -316,6 +320,23 @@ func (c *copyMethodMaker) genDeepCopyIntoBlock(actualName *namingInfo, typeInfo
 		return
 	}
 
+	if named, isNamed := types.Unalias(typeInfo).(*types.Named); isNamed && passesByReference(last) {
+		if c.copying[named.Obj()] {
+			if _, isPtr := last.(*types.Pointer); isPtr {
+				c.pkg.AddError(fmt.Errorf("invalid recursive type: %s", named))
+				return
+			}
+			// we can't go on inline forever, so use the methods of the type itself
+			c.Line("*out = (*in).DeepCopy()")
+			return
+		}
+		if c.copying == nil {
+			c.copying = make(map[*types.TypeName]bool)
+		}
+		c.copying[named.Obj()] = true
+		defer delete(c.copying, named.Obj())
+	}
+
 	switch last := last.(type) {
 	case *types.Basic:
 		switch last.Kind() {
-- 
2.43.0


From 81a83b93bad95cc8923e1019056ed7292eb96f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 44/64] fix: report slices and maps of struct literals that
 would need methods to be copied

---
 pkg/deepcopy/traverse.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index c1c8aa4..0189aa1 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -433,6 +433,11 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 			// otherwise...
 			switch underlyingElem := underlyingElem.(type) {
 			case *types.Struct:
+				if isStructLiteral(mapType.Elem()) {
+					// type literals have no methods
+					c.pkg.AddError(fmt.Errorf("invalid map value type: %s", underlyingElem))
+					return
+				}
 				// structs will have deepcopy generated for them, so use that
 				c.Line("(*out)[key] = *val.DeepCopy()")
 			default:
@@ -476,6 +481,11 @@ func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *ty
 
 			switch underlyingElem.(type) {
 			case *types.Struct:
+				if isStructLiteral(sliceType.Elem()) {
+					// type literals have no methods
+					c.pkg.AddError(fmt.Errorf("invalid slice element type: %s", underlyingElem))
+					return
+				}
 				// structs will always have deepcopy
 				c.Linef("(*in)[i].DeepCopyInto(&(*out)[i])")
 			default:
@@ -545,11 +555,10 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 				// nothing to do, initial assignment copied this
 			}
 		case *types.Struct:
-			_, isLiteral := types.Unalias(field.Type()).(*types.Struct)
 			switch {
 			case fineToShallowCopy(field.Type()):
 				c.Linef("out.%[1]s = in.%[1]s", field.Name())
-			case isLiteral:
+			case isStructLiteral(field.Type()):
 				// type literals have no methods
 				c.pkg.AddError(loader.ErrFromNode(fmt.Errorf("invalid field type: %s", underlyingField), field))
 				return
@@ -621,6 +630,12 @@ func (c *copyMethodMaker) genPointerDeepCopy(actualName *namingInfo, pointerType
 	}
 }
 
+// isStructLiteral checks if the given type is a struct type without a name.
+func isStructLiteral(typeInfo types.Type) bool {
+	_, isLiteral := types.Unalias(typeInfo).(*types.Struct)
+	return isLiteral
+}
+
 // usePtrReceiver checks if we need a pointer receiver on methods for the given type
 // Pass-by-reference types don't get pointer receivers.
 func usePtrReceiver(typeInfo types.Type) bool {
-- 
2.43.0


From 4c2bf79d1579461d5f0621828e7640bff03c3535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:51 +0000
Subject: [PATCH 45/64] fix: keep and patch all the documents of a CRD manifest

---
 pkg/schemapatcher/gen.go | 171 ++++++++++++++++++++++++---------------
 1 file changed, 108 insertions(+), 63 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 063a7cf..98406f1 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -17,7 +17,10 @@ limitations under the License.
 package schemapatcher
 
 import (
+	"bytes"
+	"errors"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 
@@ -106,7 +109,7 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 	}
 
 	// load existing CRD manifests with group-kind and versions
-	partialCRDSets, err := crdsFromDirectory(ctx, g.ManifestsPath)
+	partialCRDSets, manifests, err := crdsFromDirectory(ctx, g.ManifestsPath)
 	if err != nil {
 		return err
 	}
@@ -183,28 +186,31 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 	}
 
 	// write the final result out to the new location
-	for _, set := range partialCRDSets {
+	for _, file := range manifests {
 		// We assume all CRD versions came from different files, since this
 		// is how controller-gen works.  If they came from the same file,
 		// it'd be non-sensical, since you couldn't reasonably use kubectl
 		// with them against older servers.
-		for _, crd := range set.CRDVersions {
-			if err := func() error {
-				outWriter, err := ctx.OutputRule.Open(nil, crd.FileName)
-				if err != nil {
-					return err
-				}
-				defer outWriter.Close()
+		if err := func() error {
+			outWriter, err := ctx.OutputRule.Open(nil, file.Name)
+			if err != nil {
+				return err
+			}
+			defer outWriter.Close()
 
-				enc := yaml.NewEncoder(outWriter)
-				// yaml.v2 defaults to indent=2, yaml.v3 defaults to indent=4,
-				// so be compatible with everything else in k8s and choose 2.
-				enc.SetIndent(2)
+			enc := yaml.NewEncoder(outWriter)
+			// yaml.v2 defaults to indent=2, yaml.v3 defaults to indent=4,
+			// so be compatible with everything else in k8s and choose 2.
+			enc.SetIndent(2)
 
-				return enc.Encode(crd.Yaml)
-			}(); err != nil {
-				return err
+			for _, doc := range file.Docs {
+				if err := enc.Encode(doc); err != nil {
+					return err
+				}
 			}
+			return enc.Close()
+		}(); err != nil {
+			return err
 		}
 	}
 
@@ -229,6 +235,14 @@ type partialCRDSet struct {
 	Versions map[string]struct{}
 }
 
+// manifestFile is a file with at least one CRD.
+type manifestFile struct {
+	// Name is the name of the file (without its directory).
+	Name string
+	// Docs are all the YAML documents of the file, CRDs or not.
+	Docs []*yaml.Node
+}
+
 // partialCRD represents the raw YAML encoding of a given CRD instance, plus
 // the versions contained therein for easy lookup.
 type partialCRD struct {
@@ -331,12 +345,14 @@ func (e *partialCRD) setVersionedSchemata(newSchemata map[string]apiext.JSONSche
 
 // crdsFromDirectory returns loads all CRDs from the given directory in a
 // manner that preserves ordering, comments, etc in order to make patching
-// minimally invasive.  Returned CRDs are mapped by group-kind.
-func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.GroupKind]*partialCRDSet, error) {
+// minimally invasive.  Returned CRDs are mapped by group-kind, and are part
+// of the documents of the returned files.
+func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.GroupKind]*partialCRDSet, []manifestFile, error) {
 	res := map[schema.GroupKind]*partialCRDSet{}
+	var files []manifestFile
 	dirEntries, err := os.ReadDir(dir)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 	for _, fileInfo := range dirEntries {
 		// find all files that are YAML
@@ -346,63 +362,92 @@ func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.Gr
 
 		rawContent, err := ctx.ReadFile(filepath.Join(dir, fileInfo.Name()))
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 
-		// NB(directxman12): we could use the universal deserializer for this, but it's
-		// really pretty clunky, and the alternative is actually kinda easier to understand
-
-		// ensure that this is a CRD
-		var typeMeta metav1.TypeMeta
-		if err := kyaml.Unmarshal(rawContent, &typeMeta); err != nil {
+		// unmarshal in a manner that preserves ordering, etc
+		docs, err := yamlDocuments(rawContent)
+		if err != nil {
 			continue
 		}
 
-		if typeMeta.APIVersion == "" || typeMeta.Kind != "CustomResourceDefinition" {
-			// If there's no API version this file probably isn't a CRD.
-			// Likewise we don't need to care if the Kind isn't CustomResourceDefinition.
-			continue
-		}
+		hasCRDs := false
+		for _, doc := range docs {
+			rawDoc, err := yaml.Marshal(doc)
+			if err != nil {
+				return nil, nil, err
+			}
 
-		if !isSupportedAPIExtGroupVer(typeMeta.APIVersion) {
-			return nil, fmt.Errorf("load %q: apiVersion %q not supported", filepath.Join(dir, fileInfo.Name()), typeMeta.APIVersion)
-		}
+			// NB(directxman12): we could use the universal deserializer for this, but it's
+			// really pretty clunky, and the alternative is actually kinda easier to understand
 
-		// collect the group-kind and versions from the actual structured form
-		var actualCRD crdIsh
-		if err := kyaml.Unmarshal(rawContent, &actualCRD); err != nil {
-			continue
-		}
-		groupKind := schema.GroupKind{Group: actualCRD.Spec.Group, Kind: actualCRD.Spec.Names.Kind}
-		versions := make(map[string]struct{}, len(actualCRD.Spec.Versions))
-		for _, ver := range actualCRD.Spec.Versions {
-			versions[ver.Name] = struct{}{}
-		}
+			// ensure that this is a CRD
+			var typeMeta metav1.TypeMeta
+			if err := kyaml.Unmarshal(rawDoc, &typeMeta); err != nil {
+				continue
+			}
 
-		// then actually unmarshal in a manner that preserves ordering, etc
-		var yamlNodeTree yaml.Node
-		if err := yaml.Unmarshal(rawContent, &yamlNodeTree); err != nil {
-			continue
-		}
+			if typeMeta.APIVersion == "" || typeMeta.Kind != "CustomResourceDefinition" {
+				// If there's no API version this document probably isn't a CRD.
+				// Likewise we don't need to care if the Kind isn't CustomResourceDefinition.
+				continue
+			}
+
+			if !isSupportedAPIExtGroupVer(typeMeta.APIVersion) {
+				return nil, nil, fmt.Errorf("load %q: apiVersion %q not supported", filepath.Join(dir, fileInfo.Name()), typeMeta.APIVersion)
+			}
 
-		// then store this CRDVersion of the CRD in a set, populating the set if necessary
-		if res[groupKind] == nil {
-			res[groupKind] = &partialCRDSet{
-				GroupKind:   groupKind,
-				NewSchemata: make(map[string]apiext.JSONSchemaProps),
-				Versions:    make(map[string]struct{}),
+			// collect the group-kind and versions from the actual structured form
+			var actualCRD crdIsh
+			if err := kyaml.Unmarshal(rawDoc, &actualCRD); err != nil {
+				continue
+			}
+			groupKind := schema.GroupKind{Group: actualCRD.Spec.Group, Kind: actualCRD.Spec.Names.Kind}
+			versions := make(map[string]struct{}, len(actualCRD.Spec.Versions))
+			for _, ver := range actualCRD.Spec.Versions {
+				versions[ver.Name] = struct{}{}
 			}
+
+			// then store this CRDVersion of the CRD in a set, populating the set if necessary
+			if res[groupKind] == nil {
+				res[groupKind] = &partialCRDSet{
+					GroupKind:   groupKind,
+					NewSchemata: make(map[string]apiext.JSONSchemaProps),
+					Versions:    make(map[string]struct{}),
+				}
+			}
+			for ver := range versions {
+				res[groupKind].Versions[ver] = struct{}{}
+			}
+			res[groupKind].CRDVersions = append(res[groupKind].CRDVersions, &partialCRD{
+				Yaml:       doc,
+				FileName:   fileInfo.Name(),
+				CRDVersion: typeMeta.APIVersion,
+			})
+			hasCRDs = true
+		}
+
+		if hasCRDs {
+			files = append(files, manifestFile{Name: fileInfo.Name(), Docs: docs})
 		}
-		for ver := range versions {
-			res[groupKind].Versions[ver] = struct{}{}
+	}
+	return res, files, nil
+}
+
+// yamlDocuments parses all the YAML documents in the given text.
+func yamlDocuments(rawContent []byte) ([]*yaml.Node, error) {
+	var docs []*yaml.Node
+	dec := yaml.NewDecoder(bytes.NewReader(rawContent))
+	for {
+		var doc yaml.Node
+		switch err := dec.Decode(&doc); {
+		case errors.Is(err, io.EOF):
+			return docs, nil
+		case err != nil:
+			return nil, err
 		}
-		res[groupKind].CRDVersions = append(res[groupKind].CRDVersions, &partialCRD{
-			Yaml:       &yamlNodeTree,
-			FileName:   fileInfo.Name(),
-			CRDVersion: typeMeta.APIVersion,
-		})
+		docs = append(docs, &doc)
 	}
-	return res, nil
 }
 
 // isSupportedAPIExtGroupVer checks if the given string-form group-version
-- 
2.43.0


From 312440e0d365ed1f827999b66744460abd362f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:51 +0000
Subject: [PATCH 46/64] fix: report CRD versions without a name instead of
 crashing

---
 pkg/schemapatcher/gen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 98406f1..fd68a2d 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -315,8 +315,11 @@ func (e *partialCRD) setVersionedSchemata(newSchemata map[string]apiext.JSONSche
 	}
 
 	for i, verNode := range versions.Content {
-		nameNode, _, _ := yamlop.GetNode(verNode, "name")
-		if nameNode.Kind != yaml.ScalarNode || nameNode.ShortTag() != "!!str" {
+		nameNode, hasName, err := yamlop.GetNode(verNode, "name")
+		if err != nil {
+			return fmt.Errorf("spec.versions[%d]: %w", i, err)
+		}
+		if !hasName || nameNode.Kind != yaml.ScalarNode || nameNode.ShortTag() != "!!str" {
 			return fmt.Errorf("version name was not a string at spec.versions[%d]", i)
 		}
 		name := nameNode.Value
-- 
2.43.0


From 184a769618b5f6794a99262f154c8ccd194fda13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 47/64] fix: patch only the schemas of CRD versions that have a
 Go type

---
 pkg/schemapatcher/gen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index fd68a2d..e0f729e 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -130,6 +130,10 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 			}
 
 			typeIdent := crdgen.TypeIdent{Package: pkg, Name: groupKind.Kind}
+			if _, hasType := parser.Types[typeIdent]; !hasType {
+				// another package of this version, or a version without this kind
+				continue
+			}
 			parser.NeedFlattenedSchemaFor(typeIdent)
 
 			fullSchema := parser.FlattenedSchemata[typeIdent]
-- 
2.43.0


From d6c2fd8093451b5c66fd4d4590cbbfeb8430d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:36 +0000
Subject: [PATCH 48/64] fix: load packages of different modules that have the
 same path

---
 pkg/loader/loader.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index db89794..10195b8 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -89,6 +89,14 @@ func (p *Package) Imports() map[string]*Package {
 	return p.imports
 }
 
+// dir is the directory of the package's Go files, if there are any.
+func (p *Package) dir() string {
+	if len(p.GoFiles) == 0 {
+		return ""
+	}
+	return filepath.Dir(p.GoFiles[0])
+}
+
 // NeedTypesInfo indicates that type-checking information is needed for this package.
 // Actual type-checking information can be accessed via the Types and TypesInfo fields.
 func (p *Package) NeedTypesInfo() {
@@ -405,11 +413,14 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 		}
 	}()
 
-	// uniquePkgIDs is used to keep track of the discovered packages to be nice
+	// uniquePkgs is used to keep track of the discovered packages to be nice
 	// and try and prevent packages from showing up twice when nested module
 	// support is enabled. there is not harm that comes from this per se, but
 	// it makes testing easier when a known number of modules can be asserted
-	uniquePkgIDs := sets.Set[string]{}
+	//
+	// packages of different modules may have the same ID, so the directory
+	// they are in counts too.
+	uniquePkgs := sets.Set[[2]string]{}
 
 	// loadPackages returns the Go packages for the provided roots
 	//
@@ -429,9 +440,10 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 		for _, rp := range rawPkgs {
 			p := l.packageFor(rp)
 			// packages made of files all have the same ID
-			if p.ID == filesPkgID || !uniquePkgIDs.Has(p.ID) {
+			key := [2]string{p.ID, p.dir()}
+			if p.ID == filesPkgID || !uniquePkgs.Has(key) {
 				pkgs = append(pkgs, p)
-				uniquePkgIDs.Insert(p.ID)
+				uniquePkgs.Insert(key)
 			}
 		}
 		return pkgs, nil
@@ -648,7 +660,7 @@ func visitImports(rootPkgs []*Package, pkg *Package, seen sets.Set[string]) {
 	for importedPkgID, importedPkg := range pkg.Imports() {
 		for i := range rootPkgs {
 			// roots that were loaded one by one may import each other, don't close such a cycle
-			if importedPkgID == rootPkgs[i].ID && importedPkg != rootPkgs[i] && !reaches(rootPkgs[i], pkg, sets.Set[*Package]{}) {
+			if importedPkgID == rootPkgs[i].ID && importedPkg.dir() == rootPkgs[i].dir() && importedPkg != rootPkgs[i] && !reaches(rootPkgs[i], pkg, sets.Set[*Package]{}) {
 				pkg.imports[importedPkgID] = rootPkgs[i]
 			}
 		}
-- 
2.43.0


From eae6df31fe3abcb5056542982912066b1700fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:33 +0000
Subject: [PATCH 49/64] fix: show the types of number and map arguments in
 marker help

---
 pkg/genall/help/types.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/genall/help/types.go b/pkg/genall/help/types.go
index be11104..63eafd0 100644
--- a/pkg/genall/help/types.go
+++ b/pkg/genall/help/types.go
@@ -33,11 +33,11 @@ type DetailedHelp struct {
 
 // Argument is the type data for a marker argument.
 type Argument struct {
-	// Type is the data type of the argument (string, bool, int, slice, any, raw, invalid)
+	// Type is the data type of the argument (string, bool, int, float64, slice, map, any, raw, invalid)
 	Type string `json:"type"`
 	// Optional marks this argument as optional.
 	Optional bool `json:"optional"`
-	// ItemType contains the type of the slice item, if this is a slice
+	// ItemType contains the type of the slice item or map value, if this is a slice or map
 	ItemType *Argument `json:"itemType,omitempty"`
 }
 
@@ -48,6 +48,12 @@ func (a Argument) typeString(out *strings.Builder) {
 		return
 	}
 
+	if a.Type == "map" {
+		out.WriteString("map[string]")
+		a.ItemType.typeString(out)
+		return
+	}
+
 	out.WriteString(a.Type)
 }
 
@@ -120,6 +126,8 @@ func ForArgument(argRaw markers.Argument) Argument {
 	switch argRaw.Type {
 	case markers.IntType:
 		res.Type = "int"
+	case markers.NumberType:
+		res.Type = "float64"
 	case markers.StringType:
 		res.Type = "string"
 	case markers.BoolType:
@@ -128,6 +136,8 @@ func ForArgument(argRaw markers.Argument) Argument {
 		res.Type = "any"
 	case markers.SliceType:
 		res.Type = "slice"
+	case markers.MapType:
+		res.Type = "map"
 	case markers.RawType:
 		res.Type = "raw"
 	case markers.InvalidType:
-- 
2.43.0


From 90c4f19a96b21ac7072f72ce9fe53df157ccd6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:33 +0000
Subject: [PATCH 50/64] fix: list markers in the same order in every help
 output

---
 pkg/genall/help/types.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/genall/help/types.go b/pkg/genall/help/types.go
index 63eafd0..83adf5e 100644
--- a/pkg/genall/help/types.go
+++ b/pkg/genall/help/types.go
@@ -207,7 +207,18 @@ func ByCategory(reg *markers.Registry, sorter SortGroup) []CategoryDoc {
 	for i, groupName := range allGroups {
 		markers := groupedMarkers[groupName]
 		sort.Slice(markers, func(i, j int) bool {
-			return sorter.Less(markers[i], markers[j])
+			if sorter.Less(markers[i], markers[j]) {
+				return true
+			}
+			if sorter.Less(markers[j], markers[i]) {
+				return false
+			}
+			// the definitions come in no particular order, so keep the order of
+			// those that have the same name stable
+			if markers[i].Name != markers[j].Name {
+				return markers[i].Name < markers[j].Name
+			}
+			return markers[i].Target < markers[j].Target
 		})
 
 		markerDocs := make([]MarkerDoc, len(markers))
-- 
2.43.0


From 80381c1b70947e6f8f1d49517653dafdd333bcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:35 +0000
Subject: [PATCH 51/64] fix: document the webhookconfiguration marker with its
 own help

---
 pkg/webhook/parser.go                  | 5 +++--
 pkg/webhook/zz_generated.markerhelp.go | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index ef733d6..b09750e 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -57,8 +57,9 @@ func supportedWebhookVersions() []string {
 	return []string{defaultWebhookVersion}
 }
 
-// +controllertools:marker:generateHelp
+// +controllertools:marker:generateHelp:category=Webhook
 
+// WebhookConfig names the {Mutating,Validating}WebhookConfiguration object that is generated.
 type WebhookConfig struct {
 	// Mutating marks this as a mutating webhook (it's validating only if false)
 	//
@@ -438,7 +439,7 @@ func (Generator) RegisterMarkers(into *markers.Registry) error {
 		return err
 	}
 	into.AddHelp(ConfigDefinition, Config{}.Help())
-	into.AddHelp(WebhookConfigDefinition, Config{}.Help())
+	into.AddHelp(WebhookConfigDefinition, WebhookConfig{}.Help())
 	return nil
 }
 
diff --git a/pkg/webhook/zz_generated.markerhelp.go b/pkg/webhook/zz_generated.markerhelp.go
index 53ce42f..9a943e1 100644
--- a/pkg/webhook/zz_generated.markerhelp.go
+++ b/pkg/webhook/zz_generated.markerhelp.go
@@ -130,9 +130,9 @@ func (Generator) Help() *markers.DefinitionHelp {
 
 func (WebhookConfig) Help() *markers.DefinitionHelp {
 	return &markers.DefinitionHelp{
-		Category: "",
+		Category: "Webhook",
 		DetailedHelp: markers.DetailedHelp{
-			Summary: "",
+			Summary: "names the {Mutating,Validating}WebhookConfiguration object that is generated.",
 			Details: "",
 		},
 		FieldHelp: map[string]markers.DetailedHelp{
-- 
2.43.0


From ef2139449198256847e852ffc480d558ee5100c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 52/64] fix: reject kinds that do not start with a letter

---
 pkg/typescaffold/resource.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/typescaffold/resource.go b/pkg/typescaffold/resource.go
index 7024a7c..67b73dc 100644
--- a/pkg/typescaffold/resource.go
+++ b/pkg/typescaffold/resource.go
@@ -18,6 +18,7 @@ package typescaffold
 
 import (
 	"fmt"
+	"go/token"
 	"strings"
 
 	"github.com/gobuffalo/flect"
@@ -49,5 +50,9 @@ func (r *Resource) Validate() error {
 		return fmt.Errorf("kind must be CamelCase (expected %s was %s)", flect.Pascalize(r.Kind), r.Kind)
 	}
 
+	if !token.IsIdentifier(r.Kind) || !token.IsExported(r.Kind) {
+		return fmt.Errorf("kind must be a valid exported Go type name (was %s)", r.Kind)
+	}
+
 	return nil
 }
-- 
2.43.0


From df75a3ac640b07fc5d6d9038044e0b4644e5fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:40 +0000
Subject: [PATCH 53/64] fix: report malformed markers when generating apply
 configurations

---
 pkg/applyconfiguration/gen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 73c727a..76db360 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -169,7 +169,10 @@ type ObjectGenCtx struct {
 // generateForPackage generates apply configuration implementations for
 // types in the given package, writing the formatted result to given writer.
 func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
-	enabled, _ := enabledOnPackage(ctx.Collector, root)
+	enabled, err := enabledOnPackage(ctx.Collector, root)
+	if err != nil {
+		return err
+	}
 	if !enabled {
 		return nil
 	}
-- 
2.43.0


From e04d9d19af38c55a5ec10ad45de5bf1d573b5939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:42 +0000
Subject: [PATCH 54/64] fix: let a type's marker enable its apply configuration
 in any package

---
 pkg/applyconfiguration/gen.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 76db360..01bc364 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -21,6 +21,8 @@ import (
 	"go/ast"
 	"os"
 	"path/filepath"
+	"slices"
+	"strings"
 
 	"k8s.io/apimachinery/pkg/util/sets"
 	"k8s.io/code-generator/cmd/applyconfiguration-gen/args"
@@ -93,11 +95,18 @@ func enabledOnPackage(col *markers.Collector, pkg *loader.Package) (bool, error)
 	return false, nil
 }
 
-func enabledOnType(info *markers.TypeInfo) bool {
+func enabledOnType(pkgEnabled bool, info *markers.TypeInfo) bool {
 	if typeMarker := info.Markers.Get(enableTypeMarker.Name); typeMarker != nil {
 		return typeMarker.(bool)
 	}
-	return isCRD(info)
+	return pkgEnabled && isCRD(info)
+}
+
+// withoutGenclient returns the given comment lines without the genclient marker.
+func withoutGenclient(lines []string) []string {
+	return slices.DeleteFunc(slices.Clone(lines), func(line string) bool {
+		return strings.TrimSpace(line) == "+genclient"
+	})
 }
 
 func outputPkg(col *markers.Collector, pkg *loader.Package) string {
@@ -169,10 +178,17 @@ type ObjectGenCtx struct {
 // generateForPackage generates apply configuration implementations for
 // types in the given package, writing the formatted result to given writer.
 func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
-	enabled, err := enabledOnPackage(ctx.Collector, root)
+	pkgEnabled, err := enabledOnPackage(ctx.Collector, root)
 	if err != nil {
 		return err
 	}
+	// single types may be enabled even if the package is not
+	enabled := pkgEnabled
+	if err := markers.EachType(ctx.Collector, root, func(info *markers.TypeInfo) {
+		enabled = enabled || enabledOnType(pkgEnabled, info)
+	}); err != nil {
+		return err
+	}
 	if !enabled {
 		return nil
 	}
@@ -211,12 +227,17 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 	// For each type we think should be generated, make sure it has a genclient
 	// marker else the apply generator will not generate it.
 	if err := markers.EachType(ctx.Collector, root, func(info *markers.TypeInfo) {
-		if !enabledOnType(info) {
+		typ, ok := pkg.Types[info.Name]
+		if !ok {
 			return
 		}
 
-		typ, ok := pkg.Types[info.Name]
-		if !ok {
+		if !enabledOnType(pkgEnabled, info) {
+			if !pkgEnabled {
+				// the package is not enabled, so its types with clients aren't either
+				typ.CommentLines = withoutGenclient(typ.CommentLines)
+				typ.SecondClosestCommentLines = withoutGenclient(typ.SecondClosestCommentLines)
+			}
 			return
 		}
 
-- 
2.43.0


From ca792b7f14945630375d6dccc190355b3ed1d253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 55/64] fix: let a type's marker disable its apply
 configuration when it has a client

---
 pkg/applyconfiguration/gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 01bc364..932922e 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -233,8 +233,8 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 		}
 
 		if !enabledOnType(pkgEnabled, info) {
-			if !pkgEnabled {
-				// the package is not enabled, so its types with clients aren't either
+			if !pkgEnabled || info.Markers.Get(enableTypeMarker.Name) != nil {
+				// types with clients are only taken when the package is enabled and the type isn't disabled
 				typ.CommentLines = withoutGenclient(typ.CommentLines)
 				typ.SecondClosestCommentLines = withoutGenclient(typ.SecondClosestCommentLines)
 			}
-- 
2.43.0


From 8683ceee8ebaa439d6d0e5b1a0b795096d648abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 56/64] fix: generate apply configurations for types that are
 asked for but no objects

---
 pkg/applyconfiguration/gen.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 932922e..44eaa51 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -31,6 +31,7 @@ import (
 	"k8s.io/gengo/v2"
 	"k8s.io/gengo/v2/generator"
 	"k8s.io/gengo/v2/parser"
+	"k8s.io/gengo/v2/types"
 
 	kerrors "k8s.io/apimachinery/pkg/util/errors"
 	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
@@ -109,6 +110,13 @@ func withoutGenclient(lines []string) []string {
 	})
 }
 
+// isObject tells whether the given type embeds object metadata.
+func isObject(typ *types.Type) bool {
+	return slices.ContainsFunc(typ.Members, func(m types.Member) bool {
+		return m.Embedded && m.Type.Name == types.Name{Package: "k8s.io/apimachinery/pkg/apis/meta/v1", Name: "ObjectMeta"}
+	})
+}
+
 func outputPkg(col *markers.Collector, pkg *loader.Package) string {
 	pkgMarkers, err := markers.PackageMarkers(col, pkg)
 	if err != nil {
@@ -241,6 +249,11 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 			return
 		}
 
+		if !isObject(typ) {
+			// there are no clients for other types, they are generated when objects use them
+			return
+		}
+
 		comments := sets.NewString(typ.CommentLines...)
 		comments.Insert(typ.SecondClosestCommentLines...)
 
-- 
2.43.0


From ac212f98e566063ee452da802228cc7f7820301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:47 +0000
Subject: [PATCH 57/64] fix: report unreadable headers for apply configurations

---
 pkg/applyconfiguration/gen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 44eaa51..1de0350 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -152,6 +152,9 @@ func (d Generator) Generate(ctx *genall.GenerationContext) error {
 		defer os.Remove(tmpFile.Name())
 
 		headerFilePath = tmpFile.Name()
+	} else if _, err := os.ReadFile(headerFilePath); err != nil {
+		// the apply configuration generators would just exit
+		return err
 	}
 
 	objGenCtx := ObjectGenCtx{
-- 
2.43.0


From 312de3b454a3dc0d28436efae177b3f63369c143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 58/64] fix: refer to types of packages with a ~ in their path

The path was cut at its first ~, which gave a package that is not found,
and a panic.
---
 pkg/crd/flatten.go | 9 +++++----
 pkg/crd/schema.go  | 6 +++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index 1bdf98a..43bc5c3 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -360,14 +360,15 @@ func RefParts(ref string) (typ string, pkgName string, err error) {
 	// decode the json pointer encodings
 	ref = strings.ReplaceAll(ref, "~1", "/")
 	ref = strings.ReplaceAll(ref, "~0", "~")
-	nameParts := strings.SplitN(ref, "~", 2)
 
-	if len(nameParts) == 1 {
+	// package paths may contain a ~, type names don't
+	sep := strings.LastIndex(ref, "~")
+	if sep == -1 {
 		// local reference
-		return nameParts[0], "", nil
+		return ref, "", nil
 	}
 	// cross-package reference
-	return nameParts[1], nameParts[0], nil
+	return ref[sep+1:], ref[:sep], nil
 }
 
 // identFromRef converts the given schema ref from the given package back
diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index bbfcdaa..b04692f 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -251,11 +251,11 @@ func typeToSchema(ctx *schemaContext, rawType ast.Expr) *apiext.JSONSchemaProps
 
 // qualifiedName constructs a JSONSchema-safe qualified name for a type
 // (`<typeName>` or `<safePkgPath>~0<typeName>`, where `<safePkgPath>`
-// is the package path with `/` replaced by `~1`, according to JSONPointer
-// escapes).
+// is the package path with `~` replaced by `~0` and `/` replaced by `~1`,
+// according to JSONPointer escapes).
 func qualifiedName(pkgName, typeName string) string {
 	if pkgName != "" {
-		return strings.ReplaceAll(pkgName, "/", "~1") + "~0" + typeName
+		return strings.NewReplacer("~", "~0", "/", "~1").Replace(pkgName) + "~0" + typeName
 	}
 	return typeName
 }
-- 
2.43.0


From 0c1fca19d0f08df68df5fd99fe9af8050f6b7498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 59/64] fix: do not require fields with omitzero

encoding/json leaves out such fields just like those with omitempty.
---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index b04692f..19511c2 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -461,7 +461,7 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 			switch opt {
 			case "inline":
 				inline = true
-			case "omitempty":
+			case "omitempty", "omitzero":
 				omitEmpty = true
 			}
 		}
-- 
2.43.0


From 5ca0f74cf3a1dad71813e928ae514013231e5263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 60/64] fix: describe fields that are encoded as strings as
 strings

With the string option of their JSON tag, fields with numbers, booleans and
strings are encoded in strings, which their schema did not accept.
---
 pkg/crd/schema.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 19511c2..e399f17 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -457,12 +457,15 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 
 		inline := false
 		omitEmpty := false
+		quoted := false
 		for _, opt := range jsonOpts[1:] {
 			switch opt {
 			case "inline":
 				inline = true
 			case "omitempty", "omitzero":
 				omitEmpty = true
+			case "string":
+				quoted = isQuotable(ctx.pkg.TypesInfo.TypeOf(field.RawField.Type))
 			}
 		}
 		fieldName := jsonOpts[0]
@@ -509,6 +512,8 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 		var propSchema *apiext.JSONSchemaProps
 		if field.Markers.Get(crdmarkers.SchemalessName) != nil {
 			propSchema = &apiext.JSONSchemaProps{}
+		} else if quoted {
+			propSchema = &apiext.JSONSchemaProps{Type: "string"}
 		} else {
 			propSchema = typeToSchema(ctx.ForInfo(&markers.TypeInfo{}), field.RawField.Type)
 		}
@@ -583,3 +588,20 @@ var textMarshaler = types.NewInterfaceType([]*types.Func{
 func implements(typ types.Type, iface *types.Interface) bool {
 	return types.Implements(typ, iface) || types.Implements(types.NewPointer(typ), iface)
 }
+
+// isQuotable checks if the "string" option of a JSON tag applies to fields of the given type.
+func isQuotable(typ types.Type) bool {
+	if typ == nil {
+		return false
+	}
+	if ptr, isPtr := types.Unalias(typ).(*types.Pointer); isPtr {
+		typ = ptr.Elem()
+	}
+	basic, isBasic := typ.Underlying().(*types.Basic)
+	return isBasic && basic.Info()&(types.IsBoolean|types.IsInteger|types.IsFloat|types.IsString) != 0 && !isMarshaler(typ)
+}
+
+// isMarshaler checks if values of the given type are encoded by their own methods.
+func isMarshaler(typ types.Type) bool {
+	return implements(typ, jsonMarshaler) || implements(typ, textMarshaler)
+}
-- 
2.43.0


From b072b057d4eefdc3fb32d5b0dc6a25a39e4e3cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 61/64] fix: slices of named bytes are encoded like byte slices

---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index e399f17..4b0e612 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -359,7 +359,7 @@ func namedToSchema(ctx *schemaContext, named *ast.SelectorExpr) *apiext.JSONSche
 // with the special `[]byte` type (according to OpenAPI standards).
 func arrayToSchema(ctx *schemaContext, array *ast.ArrayType) *apiext.JSONSchemaProps {
 	eltType := ctx.pkg.TypesInfo.TypeOf(array.Elt)
-	if eltType != nil && types.Identical(eltType, byteType) && array.Len == nil {
+	if eltType != nil && types.Identical(eltType.Underlying(), byteType) && !isMarshaler(eltType) && array.Len == nil {
 		// byte slices are represented as base64-encoded strings
 		// (the format is defined in OpenAPI v3, but not JSON Schema)
 		return &apiext.JSONSchemaProps{
-- 
2.43.0


From eeb71943513b0461d03aeacc018b5fd9f281cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:02 +0000
Subject: [PATCH 62/64] fix: generate help without a header file

---
 cmd/helpgen/main.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmd/helpgen/main.go b/cmd/helpgen/main.go
index b7b81a8..c12ed69 100644
--- a/cmd/helpgen/main.go
+++ b/cmd/helpgen/main.go
@@ -155,9 +155,6 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 		sort.Strings(typeNames)
 
 		outContent := new(bytes.Buffer)
-		if headerText == "" {
-			panic("at the disco!")
-		}
 		fmt.Fprintf(outContent, header, root.Name, headerText)
 
 		for _, typ := range typeNames {
-- 
2.43.0


From bbf64c8ecfc1637013ed5d91f82c58cf26dccefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:59 +0000
Subject: [PATCH 63/64] fix: say where malformed markers are when generating
 help

---
 cmd/helpgen/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/helpgen/main.go b/cmd/helpgen/main.go
index c12ed69..227c448 100644
--- a/cmd/helpgen/main.go
+++ b/cmd/helpgen/main.go
@@ -140,7 +140,8 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 			summary, details := godocToDetails(info.Name, info.Doc)
 			byType[info.Name] = fmt.Sprintf(funcBlock, info.Name, markerVal.Category, summary, details, outContent.String())
 		}); err != nil {
-			return err
+			root.AddError(err)
+			continue
 		}
 
 		if len(byType) == 0 {
-- 
2.43.0


From ab18e23cfa0d72417d87fb7b3fadcedcc728b4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:53 +0000
Subject: [PATCH 64/64] fix: keep large numbers of +default markers exact

---
 pkg/crd/markers/validation.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/markers/validation.go b/pkg/crd/markers/validation.go
index e1cad59..6f68463 100644
--- a/pkg/crd/markers/validation.go
+++ b/pkg/crd/markers/validation.go
@@ -18,7 +18,9 @@ package markers
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
+	"io"
 	"math"
 	"strings"
 
@@ -560,7 +562,16 @@ func (m *KubernetesDefault) ParseMarker(_ string, _ string, restFields string) e
 		// See https://github.com/kubernetes-sigs/controller-tools/pull/938#issuecomment-2096790018
 		return nil
 	}
-	return json.Unmarshal([]byte(restFields), &m.Value)
+	// keep numbers as they're written: large integers don't fit a float64 exactly
+	dec := json.NewDecoder(strings.NewReader(restFields))
+	dec.UseNumber()
+	if err := dec.Decode(&m.Value); err != nil {
+		return err
+	}
+	if _, err := dec.Token(); !errors.Is(err, io.EOF) {
+		return fmt.Errorf("unexpected content after the default value in %q", restFields)
+	}
+	return nil
 }
 
 // Defaults are only valid CRDs created with the v1 API
-- 
2.43.0

