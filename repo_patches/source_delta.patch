From 889b20f9c6f8776f91228cac73f7a28fc2356c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 01/71] fix: an argument following a list argument was dropped
 or misread

---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index 00e1747..dd4d2e3 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1593,6 +1593,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			}
 			arr = reflect.Append(arr, arrayEntry)
 		}
+		ctx.skipInst(2) // read 'e' and NULL
 
 		goValue.Set(arr)
 	case bytecode.ValueObject:
-- 
2.43.0


From 5f029e7c7e623ee08476d4c270e88a5c9db4b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 02/71] fix: null for a pointer inside a list shifted the
 values after it

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index dd4d2e3..96951a4 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1403,7 +1403,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 	isPtr, valueSet, criticalErr = ctx.checkInputIsPtr(goValue, valueStructure, func(goValue *reflect.Value, input *input) (valueSet bool, criticalErr bool) {
 		if ctx.query.Res[ctx.charNr+1] == bytecode.ValueNull {
 			// keep goValue at it's default
-			ctx.skipInst(6)
+			ctx.skipInst(7)
 			return false, false
 		}
 		return ctx.bindInputToGoValue(goValue, input, variablesAllowed)
-- 
2.43.0


From c7e6e5ceb3dc460901eec5efbe6956fe6e782b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 03/71] fix: string values with a \u0000 corrupted the
 arguments after them

---
 resolver.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/resolver.go b/resolver.go
index 96951a4..0aebf5d 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1412,19 +1412,19 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		return valueSet, criticalErr
 	}
 
+	ctx.skipInst(1)             // read ActionValue
+	valueKind := ctx.readInst() // read value kind
+	valueLen := int(ctx.readUint32(ctx.charNr))
+	ctx.skipInst(4) // read length of value
+
+	// Note that a value can contain NULL bytes so we have to rely on it's length
 	getValue := func() (start int, end int) {
 		start = ctx.charNr
-		for {
-			if ctx.readInst() == 0 {
-				return start, ctx.charNr - 1
-			}
-		}
+		end = start + valueLen
+		ctx.skipInst(valueLen + 1)
+		return start, end
 	}
 
-	ctx.skipInst(1)             // read ActionValue
-	valueKind := ctx.readInst() // read value kind
-	ctx.skipInst(4)             // read length of value
-
 	// TODO if field is: isTime, isFile, is.. and the value provided is different than the expected we'll get wired errors
 
 	valueSet = true
-- 
2.43.0


From 07381107e1796ac27ffb69b9aecf4f069e3b46b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 04/71] fix: a pointer to an input object was dropped if its
 last property was null

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 0aebf5d..2bfb7fa 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1615,7 +1615,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			}
 
 			field := goValue.Field(structFieldValueStructure.goFieldIdx)
-			valueSet, criticalErr = ctx.bindInputToGoValue(&field, &structFieldValueStructure, variablesAllowed)
+			_, criticalErr := ctx.bindInputToGoValue(&field, &structFieldValueStructure, variablesAllowed)
 			return criticalErr
 		})
 		if criticalErr {
-- 
2.43.0


From c75d44b63b412843757b8664ce8ba67efe93c0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 05/71] fix: directives placed after the arguments of a field
 were a syntax error

---
 bytecode/bytecode.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 844a1c2..46d9cb1 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -590,6 +590,7 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 		}
 
 		if c == '(' {
+			startArguments := len(ctx.Res)
 			ctx.charNr++
 			_, eof = ctx.mightIgnoreNextTokens()
 			if eof {
@@ -605,6 +606,24 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 			if eof {
 				return ctx.unexpectedEOF()
 			}
+
+			if c == '@' {
+				endArguments := len(ctx.Res)
+				amount, criticalErr := ctx.parseDirectives()
+				if criticalErr {
+					return criticalErr
+				}
+				if int(ctx.Res[directivesCountLocation])+int(amount) > 255 {
+					return ctx.err(`cannot have more than 255 directives`)
+				}
+				ctx.Res[directivesCountLocation] += amount
+				c = ctx.currentC()
+
+				// The bytecode expects the directives to be placed before the arguments
+				arguments := append([]byte{}, ctx.Res[startArguments:endArguments]...)
+				copy(ctx.Res[startArguments:], ctx.Res[endArguments:])
+				copy(ctx.Res[len(ctx.Res)-len(arguments):], arguments)
+			}
 		}
 
 		if c == '{' {
-- 
2.43.0


From 7f2766164ebfe6e11d2324d85ed7897b0651bf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 06/71] fix: invalid JSON in the response if the arguments of a
 field have an error

---
 resolver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resolver.go b/resolver.go
index 2bfb7fa..64c7cdd 100644
--- a/resolver.go
+++ b/resolver.go
@@ -572,6 +572,7 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 		name := b2s(ctx.query.Res[startOfName:endOfName])
 		if name == "__typename" {
 			if fieldHasSelection {
+				ctx.writeNull()
 				criticalErr = ctx.err("cannot have a selection set on this field")
 			} else {
 				ctx.writeQuoted(typeObj.typeNameBytes)
@@ -801,6 +802,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 
 		outs, criticalErr := ctx.callQlMethod(method, &goValue, ctx.seekInst() == 'v')
 		if criticalErr {
+			ctx.writeNull()
 			return criticalErr
 		}
 
-- 
2.43.0


From 5a6ba018946d2ca498a7f65f4a474f70dc18960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 07/71] fix: SetContext panicked if the request has no context

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 64c7cdd..0c0755c 100644
--- a/resolver.go
+++ b/resolver.go
@@ -114,7 +114,7 @@ func (ctx *Ctx) GetContext() context.Context {
 func (ctx *Ctx) SetContext(newContext context.Context) {
 	if newContext == nil {
 		ctx.context = nil
-	} else if ctx == nil {
+	} else if ctx.context == nil {
 		ctx.context = &newContext
 	} else {
 		*ctx.context = newContext
-- 
2.43.0


From 7d63e02a4d5ef344e9cacf6f141fda7eb63d1e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 08/71] fix: times not in UTC were written as if they where UTC

---
 helpers/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers/time.go b/helpers/time.go
index 9cb0594..81e719a 100644
--- a/helpers/time.go
+++ b/helpers/time.go
@@ -20,5 +20,5 @@ func ParseIso8601String(val string) (time.Time, error) {
 // TimeToIso8601String converts a time.Time to a string in the ISO 8601 format
 // The value is appended to the target
 func TimeToIso8601String(target *[]byte, t time.Time) {
-	*target = t.AppendFormat(*target, timeISO8601Layout)
+	*target = t.UTC().AppendFormat(*target, timeISO8601Layout)
 }
-- 
2.43.0


From 309809d8774e0237148cb0ad2e3ca9a2461bad9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 09/71] fix: a fragment spread could resolve to a fragment
 whose name starts with the name of the spread

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 0c0755c..ddc9786 100644
--- a/resolver.go
+++ b/resolver.go
@@ -475,7 +475,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 		if fragmentNameEnd >= ctxQueryResLen {
 			continue
 		}
-		if bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
+		if bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) && ctx.query.Res[fragmentNameEnd] == 0 {
 			originalCharNr := ctx.charNr
 			ctx.charNr = fragmentNameEnd + 1
 
-- 
2.43.0


From dedd22314e612648f011a4fda34568106894d1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 10/71] fix: an unknown field resolved to a field with the same
 hash

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index ddc9786..9db67e5 100644
--- a/resolver.go
+++ b/resolver.go
@@ -568,7 +568,7 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 	fieldHasSelection := ctx.seekInst() != 'e'
 
 	typeObjField, ok := typeObj.objContents[nameKey]
-	if !ok {
+	if !ok || !bytes.Equal(typeObjField.qlFieldName, ctx.query.Res[startOfName:endOfName]) {
 		name := b2s(ctx.query.Res[startOfName:endOfName])
 		if name == "__typename" {
 			if fieldHasSelection {
-- 
2.43.0


From c1d499fbd7f679d4c970da5f250bf637000ad11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 11/71] fix: introspection did not list the arguments of
 directives

---
 parse.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/parse.go b/parse.go
index da6d644..c9ac457 100644
--- a/parse.go
+++ b/parse.go
@@ -326,17 +326,7 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
-	if options == nil || !options.SkipGraphqlTypesInjection {
-		s.injectQLTypes(ctx)
-	}
-
-	for _, method := range ctx.parsedMethods {
-		err = ctx.checkFunctionIns(method)
-		if err != nil {
-			return err
-		}
-	}
-
+	// The directives need to be checked before injecting the graphql types as those describe the directive arguments
 	for _, directiveLocation := range ctx.schema.definedDirectives {
 		for _, directive := range directiveLocation {
 			if directive.parsedMethod.checkedIns {
@@ -350,6 +340,17 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
+	if options == nil || !options.SkipGraphqlTypesInjection {
+		s.injectQLTypes(ctx)
+	}
+
+	for _, method := range ctx.parsedMethods {
+		err = ctx.checkFunctionIns(method)
+		if err != nil {
+			return err
+		}
+	}
+
 	s.ctx = newCtx(s)
 	s.parsed = true
 
-- 
2.43.0


From cdff865b875983dd4f10e7dd510c9c4ea7e94a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 12/71] fix: introspecting the mutationType replaced the fields
 of the query type

---
 inject_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inject_schema.go b/inject_schema.go
index 56ee03e..55230c9 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -93,7 +93,7 @@ func (s *Schema) getQLSchema() qlSchema {
 				}
 				sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
 
-				s.graphqlObjFields[s.rootQuery.typeName] = res
+				s.graphqlObjFields[s.rootMethod.typeName] = res
 				return res
 			},
 			Interfaces: []qlType{},
-- 
2.43.0


From ad45487345a7a7ff337e80b2fcd688168643c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 13/71] fix: introspection showed enum inputs as their
 underlying type

---
 inject_schema.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/inject_schema.go b/inject_schema.go
index 55230c9..824408b 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -221,6 +221,11 @@ func (s *Schema) inputToQLType(in *input) (res *qlType, isNonNull bool) {
 	} else if in.isFile {
 		res = &scalarFile
 		return
+	} else if in.isEnum {
+		isNonNull = true
+		enumType := s.definedEnums[in.enumTypeIndex].qlType
+		res = &enumType
+		return
 	}
 
 	switch in.kind {
-- 
2.43.0


From b13fa919301b48f3c1c0faace315a2399ecc1e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 14/71] fix: introspection showed no or the wrong inputFields
 for the type of an argument

---
 inject_schema.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/inject_schema.go b/inject_schema.go
index 824408b..c44699b 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -232,14 +232,21 @@ func (s *Schema) inputToQLType(in *input) (res *qlType, isNonNull bool) {
 	case reflect.Struct:
 		isNonNull = true
 
+		// Note that in might be changed by the caller after this function returned
+		structName := in.structName
+		structContent := in.structContent
+		if in.isStructPointers {
+			structContent = s.inTypes[structName].structContent
+		}
+
 		res = &qlType{
 			Kind:        typeKindInputObject,
-			Name:        h.StrPtr(in.structName),
+			Name:        h.StrPtr(structName),
 			Description: h.PtrToEmptyStr,
 			InputFields: func() []qlInputValue {
-				res := make([]qlInputValue, len(in.structContent))
+				res := make([]qlInputValue, len(structContent))
 				i := 0
-				for key, item := range in.structContent {
+				for key, item := range structContent {
 					res[i] = qlInputValue{
 						Name:         key,
 						Description:  h.PtrToEmptyStr,
-- 
2.43.0


From 8e9657d7300a38079948debfd655bc9e19c363e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 15/71] fix: introspection did not list the arguments of
 interface fields

---
 copy_schema.go | 1 +
 parse.go       | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/copy_schema.go b/copy_schema.go
index 680d957..196152b 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -208,6 +208,7 @@ func (o *obj) copy() *obj {
 func (m *objMethod) copy() *objMethod {
 	res := objMethod{
 		isTypeMethod:   m.isTypeMethod,
+		hasReceiver:    m.hasReceiver,
 		goFunctionName: m.goFunctionName,
 		goType:         m.goType,
 		checkedIns:     m.checkedIns,
diff --git a/parse.go b/parse.go
index c9ac457..bb74d57 100644
--- a/parse.go
+++ b/parse.go
@@ -152,6 +152,7 @@ type objMethod struct {
 	// true = func (*someStruct) ResolveFooBar() string {}
 	// false = ResolveFooBar func() string
 	isTypeMethod   bool
+	hasReceiver    bool // true = the first argument of goType is the struct the method is attached to
 	goFunctionName string
 	goType         reflect.Type
 
@@ -533,6 +534,9 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				continue
 			}
 
+			// Methods of an interface have no receiver
+			methodObj.hasReceiver = res.valueType == valueTypeObj
+
 			qlFieldName := []byte(name)
 			res.objContents[getObjKey(qlFieldName)] = &obj{
 				qlFieldName:    qlFieldName,
@@ -823,7 +827,7 @@ func (c *parseCtx) checkFunctionIns(method *objMethod) error {
 	totalInputs := method.goType.NumIn()
 	for i := 0; i < totalInputs; i++ {
 		iInList := i
-		if method.isTypeMethod {
+		if method.hasReceiver {
 			if i == 0 {
 				// First argument can be skipped if type method
 				continue
-- 
2.43.0


From 28857e9c4dfe0938d934d603be28212a11e3b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 16/71] fix: fragments of cached queries where changed by later
 queries

---
 bytecode/cache/bytecode_cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bytecode/cache/bytecode_cache.go b/bytecode/cache/bytecode_cache.go
index e8520f5..b1169d5 100644
--- a/bytecode/cache/bytecode_cache.go
+++ b/bytecode/cache/bytecode_cache.go
@@ -70,10 +70,11 @@ func (c BytecodeCache) SetEntry(query, bytecode []byte, target *string, targetId
 		bytecode:         make([]byte, len(bytecode)),
 		target:           targetCopy,
 		targetIdx:        targetIdx,
-		fragmentLocation: fragmentLocation,
+		fragmentLocation: make([]int, len(fragmentLocation)),
 	}
 	copy(newCacheEntry.query, query)
 	copy(newCacheEntry.bytecode, bytecode)
+	copy(newCacheEntry.fragmentLocation, fragmentLocation)
 
 	c[queryLen] = append([]cacheEntry{newCacheEntry}, entries...)
 }
-- 
2.43.0


From 94be2e6ff7985178aa1625e32435dd73def78680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 17/71] fix: copies of a schema showed __schema and __type as
 fields of the query type

---
 copy_schema.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copy_schema.go b/copy_schema.go
index 196152b..6d97606 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -174,6 +174,7 @@ func (o *obj) copy() *obj {
 		goTypeName:     o.goTypeName,
 		goPkgPath:      o.goPkgPath,
 		qlFieldName:    o.qlFieldName[:],
+		hidden:         o.hidden,
 		customObjValue: o.customObjValue, // maybe TODO
 		structFieldIdx: o.structFieldIdx,
 		dataValueType:  o.dataValueType,
-- 
2.43.0


From e017f1466340e81342d248f81e422ee3a2f4921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 18/71] fix: copies of a schema lost the description of enums

---
 copy_schema.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 6d97606..8276a47 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -133,8 +133,10 @@ func (m *qlType) copy() *qlType {
 		*res.Name = *m.Name
 	}
 	if m.Description != nil {
-		res.Name = helpers.StrPtr("")
-		*res.Name = *m.Name
+		res.Description = helpers.StrPtr(*m.Description)
+	}
+	if m.SpecifiedByURL != nil {
+		res.SpecifiedByURL = helpers.StrPtr(*m.SpecifiedByURL)
 	}
 	if m.Interfaces != nil {
 		res.Interfaces = make([]qlType, len(m.Interfaces))
-- 
2.43.0


From 7b8e87a3dfb087e708d5be738c003b278a3fd4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 19/71] fix: introspection of a copied schema used and changed
 the original schema

---
 copy_schema.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 8276a47..2155c77 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -39,9 +39,9 @@ func (s *Schema) Copy() *Schema {
 		inTypes:    *s.inTypes.copy(),
 		interfaces: *interfaces,
 
-		rootQuery:         s.rootQuery.copy(),
+		rootQuery:         (*types)[s.rootQuery.typeName],
 		rootQueryValue:    s.rootQueryValue,
-		rootMethod:        s.rootMethod.copy(),
+		rootMethod:        (*types)[s.rootMethod.typeName],
 		rootMethodValue:   s.rootMethodValue,
 		MaxDepth:          s.MaxDepth,
 		definedEnums:      enums,
@@ -53,6 +53,13 @@ func (s *Schema) Copy() *Schema {
 		graphqlObjFields: map[string][]qlField{},
 	}
 
+	schemaField, ok := res.rootQuery.objContents[getObjKey([]byte("__schema"))]
+	if ok && schemaField.customObjValue != nil {
+		// The value of __schema refers to the schema it's made for
+		contents := reflect.ValueOf(res.getQLSchema())
+		schemaField.customObjValue = &contents
+	}
+
 	res.ctx = s.ctx.copy(res)
 
 	return res
-- 
2.43.0


From 021bf6e29d4b0b24da4d5b0cce2ec8ff75a3b648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 20/71] fix: copies of a schema shared their tracer with the
 original

---
 copy_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copy_schema.go b/copy_schema.go
index 2155c77..cbe2217 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -76,7 +76,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		operatorHasArguments:     ctx.operatorHasArguments,
 		operatorArgumentsStartAt: ctx.operatorArgumentsStartAt,
 		tracingEnabled:           ctx.tracingEnabled,
-		tracing:                  ctx.tracing,
+		tracing:                  newTracer(),
 		prefRecordingStartTime:   ctx.prefRecordingStartTime,
 		rawVariables:             ctx.rawVariables,
 		variablesParsed:          false,
-- 
2.43.0


From 3d748669e444f34207db7571bf15b75899e0e4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 21/71] fix: a file variable panicked if the request does not
 support form files

---
 resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver.go b/resolver.go
index 9db67e5..f6e8320 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1156,6 +1156,9 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to Time value")
 			}
 
+			if ctx.getFormFile == nil {
+				return false, ctx.err("form files are not supported")
+			}
 			file, err := ctx.getFormFile(stringValue)
 			if err != nil {
 				return false, ctx.err(err.Error())
-- 
2.43.0


From 1cb3f5eceabb60b15114f0fafb22f22c5ac10a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 22/71] fix: variables could not be used for lists of pointers

---
 resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver.go b/resolver.go
index f6e8320..b0f0c36 100644
--- a/resolver.go
+++ b/resolver.go
@@ -958,6 +958,9 @@ func (ctx *Ctx) bindOperatorArgumentTo(goValue *reflect.Value, valueStructure *i
 	resolvedValueStructure := valueStructure
 	c := ctx.readInst()
 	for {
+		for resolvedValueStructure.kind == reflect.Ptr && !resolvedValueStructure.isFile {
+			resolvedValueStructure = resolvedValueStructure.elem
+		}
 		if c != 'L' && c != 'l' {
 			break
 		}
-- 
2.43.0


From 33a0b15947d3d190d452540bf719ad45eae4d722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 23/71] fix: null was refused in variables for enums, ids,
 files and times

---
 resolver.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index b0f0c36..f860d4d 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1084,6 +1084,10 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 	}
 
 	jsonDataType := jsonData.Type()
+	if jsonDataType == fastjson.TypeNull {
+		// keep goValue at it's default
+		return false, false
+	}
 	if valueStructure.isEnum || valueStructure.isID || valueStructure.isFile || valueStructure.isTime {
 		if jsonDataType != fastjson.TypeString {
 			if valueStructure.isEnum {
@@ -1184,8 +1188,6 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 	}
 
 	switch jsonDataType {
-	case fastjson.TypeNull:
-		// keep goValue at it's default
 	case fastjson.TypeObject:
 		if goValue.Kind() != reflect.Struct {
 			return false, ctx.err("cannot assign object to non object value")
-- 
2.43.0


From 1d2b7607545eb3130ad5306c7b8e71d8ee5f992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 24/71] fix: numbers in variables were truncated to 8, 16 or 32
 bit unsigned integers and large 64 bit ones refused

---
 resolver.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/resolver.go b/resolver.go
index f860d4d..849a4a2 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1248,8 +1248,14 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 			valueSet = true
 			goValue.SetFloat(jsonData.GetFloat64())
 		} else {
+			isUint := false
+			switch goValueKind {
+			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+				isUint = true
+			}
+
 			intVal, err := jsonData.Int64()
-			if err != nil {
+			if err != nil && !isUint {
 				return false, ctx.err(err.Error())
 			}
 			switch goValueKind {
@@ -1272,21 +1278,24 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				valueSet = true
 				goValue.SetInt(intVal)
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-				if intVal < 0 {
+				if err == nil && intVal < 0 {
 					return false, ctx.errf("cannot assign %d to a unsigned integer", intVal)
 				}
-				uintVal := uint64(intVal)
+				uintVal, err := jsonData.Uint64()
+				if err != nil {
+					return false, ctx.err(err.Error())
+				}
 
 				switch goValue.Kind() {
-				case reflect.Int8:
+				case reflect.Uint8:
 					if uint64(uint8(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 8bit unsigned integer", uintVal)
 					}
-				case reflect.Int16:
+				case reflect.Uint16:
 					if uint64(uint16(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 16bit unsigned integer", uintVal)
 					}
-				case reflect.Int32:
+				case reflect.Uint32:
 					if uint64(uint32(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 32bit unsigned integer", uintVal)
 					}
-- 
2.43.0


From 292986866145c4f6814cade4a8a1ca4fc0ed3fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 25/71] fix: numeric id arguments were truncated to the size of
 the Go type

---
 resolver.go | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/resolver.go b/resolver.go
index 849a4a2..7530571 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1137,23 +1137,18 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				valueSet = true
 				goValue.SetString(stringValue)
 			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-				intValue, err := strconv.Atoi(stringValue)
+				intValue, err := strconv.ParseInt(stringValue, 10, goValue.Type().Bits())
 				if err != nil {
 					return false, ctx.err("id argument must match a number type")
 				}
-				// TODO check if the int value can be assigned to int8 - int32
-				goValue.SetInt(int64(intValue))
+				goValue.SetInt(intValue)
 				valueSet = true
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-				intValue, err := strconv.Atoi(stringValue)
+				intValue, err := strconv.ParseUint(stringValue, 10, goValue.Type().Bits())
 				if err != nil {
-					return false, ctx.err("id argument must match a number type")
-				}
-				if intValue < 0 {
-					return false, ctx.err("id argument must match a number above 0")
+					return false, ctx.err("id argument must match a positive number type")
 				}
-				// TODO check if the int value can be assigned to uint8 - uint32
-				goValue.SetUint(uint64(intValue))
+				goValue.SetUint(intValue)
 				valueSet = true
 			default:
 				return false, ctx.err("internal error: cannot assign to this ID field")
@@ -1355,22 +1350,17 @@ func (ctx *Ctx) assignStringToValue(goValue *reflect.Value, valueStructure *inpu
 		case reflect.String:
 			goValue.SetString(stringValue)
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-			intValue, err := strconv.Atoi(stringValue)
+			intValue, err := strconv.ParseInt(stringValue, 10, goValue.Type().Bits())
 			if err != nil {
 				return ctx.err("id argument must match a number type")
 			}
-			// TODO check if the int value can be assigned to int8 - int32
-			goValue.SetInt(int64(intValue))
+			goValue.SetInt(intValue)
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			intValue, err := strconv.Atoi(stringValue)
+			intValue, err := strconv.ParseUint(stringValue, 10, goValue.Type().Bits())
 			if err != nil {
-				return ctx.err("id argument must match a number type")
-			}
-			if intValue < 0 {
-				return ctx.err("id argument must match a number above 0")
+				return ctx.err("id argument must match a positive number type")
 			}
-			// TODO check if the int value can be assigned to uint8 - uint32
-			goValue.SetUint(uint64(intValue))
+			goValue.SetUint(intValue)
 		default:
 			return ctx.err("internal error: cannot assign to this ID field")
 		}
-- 
2.43.0


From f946206f1ced1ea4f1e0cac278889e98ecee6b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 26/71] fix: numbers too large for a float argument were
 changed to infinity

---
 resolver.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 7530571..5bc3c55 100644
--- a/resolver.go
+++ b/resolver.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"math"
 	"mime/multipart"
 	"reflect"
 	"strconv"
@@ -1240,8 +1241,15 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 	case fastjson.TypeNumber:
 		goValueKind := goValue.Kind()
 		if goValueKind == reflect.Float64 || goValueKind == reflect.Float32 {
+			floatVal, err := jsonData.Float64()
+			if err != nil {
+				return false, ctx.err(err.Error())
+			}
+			if math.IsInf(floatVal, 0) || math.IsNaN(floatVal) || goValue.OverflowFloat(floatVal) {
+				return false, ctx.errf("cannot assign %s to a float", jsonData.String())
+			}
 			valueSet = true
-			goValue.SetFloat(jsonData.GetFloat64())
+			goValue.SetFloat(floatVal)
 		} else {
 			isUint := false
 			switch goValueKind {
@@ -1533,6 +1541,10 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 				return false, ctx.err(err.Error())
 			}
 
+			if goValue.OverflowFloat(floatValue) {
+				return false, ctx.errf("cannot assign %g to a 32bit float", floatValue)
+			}
+
 			goValue.SetFloat(floatValue)
 		default:
 			return false, ctx.err("cannot assign float to " + goValue.String())
-- 
2.43.0


From 9c91c03313f15b3a3893238b82acf475f3ced7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 27/71] fix: a fragment that spreads itself crashed the program
 with a stack overflow

---
 resolver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resolver.go b/resolver.go
index 5bc3c55..8a8aede 100644
--- a/resolver.go
+++ b/resolver.go
@@ -32,6 +32,7 @@ type Ctx struct {
 	tracingEnabled           bool
 	tracing                  *tracer
 	prefRecordingStartTime   time.Time
+	fragmentDept             int // number of fragments we are currently spreading
 
 	rawVariables        string
 	variablesParsed     bool             // the rawVariables are parsed into variables
@@ -495,7 +496,12 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 				return false
 			}
 
+			if ctx.fragmentDept == len(ctx.query.FragmentLocations) {
+				return ctx.err("fragment " + b2s(name) + " spreads itself")
+			}
+			ctx.fragmentDept++
 			criticalErr := ctx.resolveSelectionSet(typeObj, dept, firstField)
+			ctx.fragmentDept--
 			ctx.charNr = originalCharNr
 			return criticalErr
 		}
-- 
2.43.0


From b30a448c8040c137e204ba884f434f3a164cc1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 28/71] fix: interface values could step over the max depth

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 8a8aede..36c9ebc 100644
--- a/resolver.go
+++ b/resolver.go
@@ -910,7 +910,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		// TODO improve performance of the below
 		for _, implementation := range typeObj.implementations {
 			if implementation.goTypeName == goValueName && implementation.goPkgPath == goValuePkgPath {
-				criticalErr := ctx.resolveFieldDataValue(implementation, dept+1, hasSubSelection)
+				criticalErr := ctx.resolveFieldDataValue(implementation, dept, hasSubSelection)
 				ctx.currentReflectValueIdx--
 				return criticalErr
 			}
-- 
2.43.0


From bcc2155e3df832b8bb0d82f3841a75d01d14d6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 29/71] fix: deeply nested lists and interfaces overwrote the
 values of their parents

---
 copy_schema.go | 2 +-
 resolver.go    | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index cbe2217..96c8313 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -82,7 +82,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		variablesParsed:          false,
 		variablesJSONParser:      &fastjson.Parser{},
 		variables:                nil,
-		reflectValues:            [256]reflect.Value{},
+		reflectValues:            make([]reflect.Value, 256),
 		currentReflectValueIdx:   0,
 		funcInputs:               []reflect.Value{},
 		values:                   nil,
diff --git a/resolver.go b/resolver.go
index 36c9ebc..a31e3c3 100644
--- a/resolver.go
+++ b/resolver.go
@@ -40,8 +40,8 @@ type Ctx struct {
 	variables           *fastjson.Value  // Parsed variables, only use this if variablesParsed == true
 
 	// Zero alloc values
-	reflectValues          [256]reflect.Value
-	currentReflectValueIdx uint8
+	reflectValues          []reflect.Value
+	currentReflectValueIdx int
 	funcInputs             []reflect.Value
 	ctxReflection          reflect.Value // ptr to the value
 
@@ -54,7 +54,7 @@ func newCtx(s *Schema) *Ctx {
 		schema:                 s,
 		query:                  *bytecode.NewParserCtx(),
 		charNr:                 0,
-		reflectValues:          [256]reflect.Value{},
+		reflectValues:          make([]reflect.Value, 256),
 		currentReflectValueIdx: 0,
 		variablesJSONParser:    &fastjson.Parser{},
 		tracing:                newTracer(),
@@ -73,6 +73,9 @@ func (ctx *Ctx) setNextGoValue(value reflect.Value) {
 }
 
 func (ctx *Ctx) setGoValue(value reflect.Value) {
+	for ctx.currentReflectValueIdx >= len(ctx.reflectValues) {
+		ctx.reflectValues = append(ctx.reflectValues, reflect.Value{})
+	}
 	ctx.reflectValues[ctx.currentReflectValueIdx] = value
 }
 
-- 
2.43.0


From f13607c2609fc9cb25915efaaacdcf19ff269f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 30/71] fix: tracing reported the start time of the last sub
 field for fields with a selection

---
 resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver.go b/resolver.go
index a31e3c3..efb7941 100644
--- a/resolver.go
+++ b/resolver.go
@@ -515,6 +515,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 
 func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (skipped bool, criticalErr bool) {
 	ctx.startTrace()
+	traceStartTime := ctx.prefRecordingStartTime
 
 	directivesCount := ctx.readInst()
 
@@ -607,6 +608,8 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 		if ctx.tracingEnabled {
 			name := b2s(ctx.query.Res[startOfName:endOfName])
 
+			// The fields inside this field have changed the start time
+			ctx.prefRecordingStartTime = traceStartTime
 			ctx.finishTrace(func(offset, duration int64) {
 				returnType := bytes.NewBuffer(nil)
 				ctx.schema.objToQlTypeName(typeObjField, returnType)
-- 
2.43.0


From bdf937c7d4656bb3ed6b9e2e0b1d678fdf77b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 31/71] fix: tracing reported a wrong return type for lists

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index bb74d57..d952edb 100644
--- a/parse.go
+++ b/parse.go
@@ -960,9 +960,9 @@ func (s *Schema) objToQlTypeName(item *obj, target *bytes.Buffer) {
 		switch qlType.Kind {
 		case typeKindList:
 			target.WriteByte('[')
-			suffix = append(suffix, ']')
+			suffix = append([]byte{']'}, suffix...)
 		case typeKindNonNull:
-			suffix = append(suffix, '!')
+			suffix = append([]byte{'!'}, suffix...)
 		default:
 			if qlType.Name != nil {
 				target.WriteString(*qlType.Name)
-- 
2.43.0


From 56915dc85505b0132fb44516a8c6fde72b7c9236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 32/71] fix: fragments on an interface were never applied

---
 parse.go    | 13 +++++++++++++
 resolver.go |  4 ++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index d952edb..b6cf02d 100644
--- a/parse.go
+++ b/parse.go
@@ -147,6 +147,19 @@ func (o *obj) getRef() obj {
 	}
 }
 
+// matchesTypeCondition reports if a fragment on typeName applies to this object
+func (o *obj) matchesTypeCondition(typeName []byte) bool {
+	if bytes.Equal(o.typeNameBytes, typeName) {
+		return true
+	}
+	for _, implementation := range o.implementations {
+		if bytes.Equal(implementation.typeNameBytes, typeName) {
+			return true
+		}
+	}
+	return false
+}
+
 type objMethod struct {
 	// Is this a function field inside this object or a method attached to the struct
 	// true = func (*someStruct) ResolveFooBar() string {}
diff --git a/resolver.go b/resolver.go
index efb7941..aed9a39 100644
--- a/resolver.go
+++ b/resolver.go
@@ -462,7 +462,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 	}
 
 	if isInline {
-		if !bytes.Equal(typeObj.typeNameBytes, name) {
+		if !typeObj.matchesTypeCondition(name) {
 			ctx.charNr = nameStart + int(lenOfDirective) + 1
 			return false
 		}
@@ -494,7 +494,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 				}
 			}
 
-			if !bytes.Equal(typeObj.typeNameBytes, ctx.query.Res[typeNameStart:typeNameEnd]) {
+			if !typeObj.matchesTypeCondition(ctx.query.Res[typeNameStart:typeNameEnd]) {
 				ctx.charNr = nameStart + int(lenOfDirective) + 1
 				return false
 			}
-- 
2.43.0


From f2ca29786df2be148e722322872d6cd5b5e4a13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 33/71] fix: Parse panicked on a method named Resolve

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index b6cf02d..45d1835 100644
--- a/parse.go
+++ b/parse.go
@@ -757,7 +757,7 @@ func (c *parseCtx) checkFunction(name string, t reflect.Type, isTypeMethod bool,
 	trimmedName := name
 
 	if strings.HasPrefix(name, "Resolve") {
-		if len(name) > 0 {
+		if len(name) > len("Resolve") {
 			trimmedName = strings.TrimPrefix(name, "Resolve")
 			if isTypeMethod && strings.ToUpper(string(trimmedName[0]))[0] != trimmedName[0] {
 				// Resolve name must start with a uppercase letter
-- 
2.43.0


From a4718fdd476e810e8e7a6e7273d8e789910c3ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 34/71] fix: Parse panicked if one of the inputs is nil

---
 parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parse.go b/parse.go
index 45d1835..fd6c0bf 100644
--- a/parse.go
+++ b/parse.go
@@ -306,6 +306,13 @@ func (s *Schema) SetCacheRules(
 
 // Parse parses your queries and methods
 func (s *Schema) Parse(queries interface{}, methods interface{}, options *SchemaOptions) error {
+	if queries == nil {
+		return errors.New("input queries must be a struct")
+	}
+	if methods == nil {
+		return errors.New("input methods must be a struct")
+	}
+
 	s.rootQueryValue = reflect.ValueOf(queries)
 	s.rootMethodValue = reflect.ValueOf(methods)
 
-- 
2.43.0


From 4648c95d1e83ecf01f7af9e5a9516d1f6dec6b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 35/71] fix: RegisterEnum panicked on values other than maps
 and on maps with a custom string type as key

---
 enums.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enums.go b/enums.go
index f609252..158e16c 100644
--- a/enums.go
+++ b/enums.go
@@ -72,13 +72,13 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 	mapReflection := reflect.ValueOf(enumMap)
 	invalidTypeMsg := fmt.Errorf("RegisterEnum input must be of type map[string]CustomType(int..|uint..|string) as input, %+v given", enumMap)
 
-	if enumMap == nil || mapReflection.IsZero() || mapReflection.IsNil() {
+	if enumMap == nil {
 		return nil, invalidTypeMsg
 	}
 
 	mapType := mapReflection.Type()
 
-	if mapType.Kind() != reflect.Map {
+	if mapType.Kind() != reflect.Map || mapReflection.IsNil() {
 		// Tye input type must be a map
 		return nil, invalidTypeMsg
 	}
@@ -108,7 +108,7 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 	i := 0
 	for iter.Next() {
 		k := iter.Key()
-		keyStr := k.Interface().(string)
+		keyStr := k.String()
 		if keyStr == "" {
 			return nil, errors.New("RegisterEnum input map cannot contain empty keys")
 		}
-- 
2.43.0


From c198fcc44712537d566b2e35572b267375cf9e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 36/71] fix: RegisterDirective panicked on methods that are not
 a function

---
 directives.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/directives.go b/directives.go
index cd3cadf..6444484 100644
--- a/directives.go
+++ b/directives.go
@@ -125,12 +125,12 @@ func checkDirective(directive *Directive) error {
 		return errors.New("method must be defined")
 	}
 	directive.methodReflection = reflect.ValueOf(directive.Method)
-	if directive.methodReflection.IsNil() {
-		return errors.New("method must be defined")
-	}
 	if directive.methodReflection.Kind() != reflect.Func {
 		return errors.New("method is not a function")
 	}
+	if directive.methodReflection.IsNil() {
+		return errors.New("method must be defined")
+	}
 	methodType := directive.methodReflection.Type()
 	switch methodType.NumOut() {
 	case 0:
-- 
2.43.0


From 6fffc6689d920c34fa6986c7c7d4fcbb0111ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 37/71] fix: a space between a list type and its ! was a syntax
 error

---
 bytecode/bytecode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 46d9cb1..9e7e1fc 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -402,7 +402,7 @@ func (ctx *ParserCtx) parseGraphqlTypeName(c byte) bool {
 			return ctx.err(`expected list closure ("]") but got "` + string(c) + `"`)
 		}
 		ctx.charNr++
-		c, eof = ctx.checkC(ctx.charNr)
+		c, eof = ctx.mightIgnoreNextTokens()
 		if eof {
 			return ctx.unexpectedEOF()
 		}
-- 
2.43.0


From 8fefeaf47517de5fae7437b478222e6d4ef3cbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 38/71] fix: HandleRequest ignored the body if the content type
 has parameters

---
 implement_helpers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implement_helpers.go b/implement_helpers.go
index f1c6718..d603fa4 100644
--- a/implement_helpers.go
+++ b/implement_helpers.go
@@ -30,6 +30,9 @@ func (s *Schema) HandleRequest(
 ) ([]byte, []error) {
 	method = strings.ToUpper(method)
 
+	// The content type might have parameters, for example: multipart/form-data; boundary=..
+	contentType = strings.ToLower(strings.TrimSpace(strings.Split(contentType, ";")[0]))
+
 	errRes := func(errorMsg string) ([]byte, []error) {
 		response := []byte(`{"data":{},"errors":[{"message":`)
 		helpers.StringToJSON(errorMsg, &response)
-- 
2.43.0


From c634224167c797987160ee279bc7d93b41221786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 39/71] fix: internal fields of input structs could be set by a
 query resulting in a panic

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index fd6c0bf..abb70d6 100644
--- a/parse.go
+++ b/parse.go
@@ -630,8 +630,8 @@ func (c *parseCtx) checkFunctionInputStruct(field *reflect.StructField, idx int)
 		return fmt.Errorf("%s, struct field: %s", err.Error(), field.Name)
 	}
 
-	if field.Anonymous {
-		// skip field
+	if field.Anonymous || field.PkgPath != "" {
+		// skip embedded and internal fields
 		return res, true, nil
 	}
 
-- 
2.43.0


From 938be7d8aaf1b453a66765d2ff808df135d84df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 40/71] fix: the column of error locations started at 0 instead
 of 1

---
 bytecode/bytecode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 9e7e1fc..c2d027b 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -1289,7 +1289,7 @@ func (e ErrorWLocation) Error() string {
 
 func (ctx *ParserCtx) err(err string) bool {
 	line := uint(1)
-	column := uint(0)
+	column := uint(1)
 	for idx, char := range ctx.Query {
 		if idx == ctx.charNr {
 			break
@@ -1297,15 +1297,15 @@ func (ctx *ParserCtx) err(err string) bool {
 
 		switch char {
 		case '\n':
-			if column == 0 && idx > 0 && ctx.Query[idx-1] == '\r' {
+			if column == 1 && idx > 0 && ctx.Query[idx-1] == '\r' {
 				// don't count \r\n as 2 lines
 				continue
 			}
 			line++
-			column = 0
+			column = 1
 		case '\r':
 			line++
-			column = 0
+			column = 1
 		default:
 			column++
 		}
-- 
2.43.0


From 78a1f1818f94ec1ed2d29e076eefe4af80d6babb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 41/71] fix: a type with the same name as an enum from another
 package was seen as that enum

---
 enums.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enums.go b/enums.go
index 158e16c..121d8e7 100644
--- a/enums.go
+++ b/enums.go
@@ -29,7 +29,7 @@ func (s *Schema) getEnum(t reflect.Type) (int, *enum) {
 	}
 
 	for i, enum := range s.definedEnums {
-		if enum.typeName == t.Name() {
+		if enum.contentType == t {
 			return i, &enum
 		}
 	}
-- 
2.43.0


From db11fcd5dd692b3df31e5717f918765f594acd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 42/71] fix: an enum could be registered twice and was then
 listed twice

---
 enums.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/enums.go b/enums.go
index 121d8e7..dd36e20 100644
--- a/enums.go
+++ b/enums.go
@@ -64,6 +64,12 @@ func (s *Schema) RegisterEnum(enumMap interface{}) (added bool, err error) {
 		return false, err
 	}
 
+	for _, definedEnum := range s.definedEnums {
+		if definedEnum.typeName == enum.typeName {
+			return false, errors.New("cannot have 2 enums with same type name: " + enum.typeName)
+		}
+	}
+
 	s.definedEnums = append(s.definedEnums, *enum)
 	return true, nil
 }
-- 
2.43.0


From 4a5eb836c757807f9d600928ce7748c930193ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 43/71] fix: TypeRename also renamed equally named types of
 other packages

---
 parse.go       | 6 +++---
 type_rename.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/parse.go b/parse.go
index abb70d6..d153a0e 100644
--- a/parse.go
+++ b/parse.go
@@ -397,7 +397,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			return nil, errors.New("structs cannot have ID attribute")
 		}
 		if res.typeName != "" {
-			newName, ok := renamedTypes[res.typeName]
+			newName, ok := renamedTypes[t]
 			if ok {
 				res.typeName = newName
 				res.typeNameBytes = []byte(newName)
@@ -471,7 +471,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			return nil, errors.New("inline interfaces not allowed")
 		}
 
-		newName, ok := renamedTypes[res.typeName]
+		newName, ok := renamedTypes[t]
 		if ok {
 			res.typeName = newName
 			res.typeNameBytes = []byte(newName)
@@ -711,7 +711,7 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 			c.unknownInputsCount++
 			structName = "__UnknownInput" + strconv.Itoa(c.unknownInputsCount)
 		} else {
-			newStructName, ok := renamedTypes[structName]
+			newStructName, ok := renamedTypes[t]
 			if ok {
 				structName = newStructName
 			}
diff --git a/type_rename.go b/type_rename.go
index 0fce280..0eb6bd0 100644
--- a/type_rename.go
+++ b/type_rename.go
@@ -6,7 +6,7 @@ import (
 	"strings"
 )
 
-var renamedTypes = map[string]string{}
+var renamedTypes = map[reflect.Type]string{}
 
 // TypeRename renames the graphql type of the input type
 // By default the typename of the struct is used but you might want to change this form time to time and with this you can
@@ -33,7 +33,7 @@ func TypeRename(goType interface{}, newName string, force ...bool) string {
 		}
 	}
 
-	renamedTypes[originalName] = newName
+	renamedTypes[t] = newName
 
 	return newName
 }
-- 
2.43.0


From ac8468e87a79a236703102740419eec95466d4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 44/71] fix: interfaces and implementations with equal names in
 different packages were mixed up

---
 interfaces.go | 12 ++++++------
 parse.go      |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/interfaces.go b/interfaces.go
index 4a9aa96..644c9ac 100644
--- a/interfaces.go
+++ b/interfaces.go
@@ -4,11 +4,11 @@ import (
 	"reflect"
 )
 
-// implementationMap is a map of interface names and the types that implement them
-var implementationMap = map[string][]reflect.Type{}
+// implementationMap is a map of interfaces and the types that implement them
+var implementationMap = map[reflect.Type][]reflect.Type{}
 
 // structImplementsMap is list of all structs and their interfaces that they implement
-var structImplementsMap = map[string][]reflect.Type{}
+var structImplementsMap = map[reflect.Type][]reflect.Type{}
 
 // Implements registers a new type that implementation an interface
 // The interfaceValue should be a pointer to the interface type like: (*InterfaceType)(nil)
@@ -53,7 +53,7 @@ func Implements(interfaceValue interface{}, typeValue interface{}) bool {
 		panic(typePath + "." + typePath + " does not implement " + interfacePath + "." + interfaceName)
 	}
 
-	typesThatImplementInterf, ok := implementationMap[interfaceName]
+	typesThatImplementInterf, ok := implementationMap[interfaceType]
 	if !ok {
 		typesThatImplementInterf = []reflect.Type{}
 	} else {
@@ -65,9 +65,9 @@ func Implements(interfaceValue interface{}, typeValue interface{}) bool {
 		}
 	}
 	typesThatImplementInterf = append(typesThatImplementInterf, typeType)
-	implementationMap[interfaceName] = typesThatImplementInterf
+	implementationMap[interfaceType] = typesThatImplementInterf
 
-	structImplementsMap[typeName] = append(structImplementsMap[typeName], interfaceType)
+	structImplementsMap[typeType] = append(structImplementsMap[typeType], interfaceType)
 
 	return true
 }
diff --git a/parse.go b/parse.go
index d153a0e..87e9ae1 100644
--- a/parse.go
+++ b/parse.go
@@ -413,7 +413,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				return &res, nil
 			}
 
-			implementations := structImplementsMap[t.Name()]
+			implementations := structImplementsMap[t]
 			for _, implementation := range implementations {
 				impl, err := c.check(implementation, false)
 				if err != nil {
@@ -501,7 +501,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			methodPkgName = "inline interface"
 		}
 
-		typesThatImplementInterface, ok := implementationMap[t.Name()]
+		typesThatImplementInterface, ok := implementationMap[t]
 		if !ok {
 			return nil, errors.New("cannot register a interface without explicit implementations")
 		}
-- 
2.43.0


From c28545676970974a0db36e85d206489a6a5d980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 45/71] fix: different structs with the same type name were
 seen as one type

---
 parse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 87e9ae1..01e3fcd 100644
--- a/parse.go
+++ b/parse.go
@@ -89,6 +89,7 @@ type obj struct {
 	typeNameBytes []byte
 	goTypeName    string
 	goPkgPath     string
+	goType        reflect.Type // only set for structs and interfaces
 	qlFieldName   []byte
 	hidden        bool
 	isID          bool
@@ -405,7 +406,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 
 			v, ok := c.schema.types.Get(res.typeName)
 			if ok {
-				if v.goPkgPath != res.goPkgPath {
+				if v.goType != t {
 					return nil, fmt.Errorf("cannot have 2 structs with same type name: %s(%s) != %s(%s)", v.goPkgPath, res.goTypeName, res.goPkgPath, res.goTypeName)
 				}
 
@@ -428,6 +429,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 		}
 
 		res.valueType = valueTypeObj
+		res.goType = t
 		res.objContents = map[uint32]*obj{}
 
 		typesInner := c.schema.types
@@ -479,7 +481,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 
 		v, ok := c.schema.interfaces.Get(res.typeName)
 		if ok {
-			if v.goPkgPath != res.goPkgPath {
+			if v.goType != t {
 				return nil, fmt.Errorf("cannot have 2 interfaces with same type name: %s(%s) != %s(%s)", v.goPkgPath, res.goTypeName, res.goPkgPath, res.goTypeName)
 			}
 
@@ -488,6 +490,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 		}
 
 		res.valueType = valueTypeInterface
+		res.goType = t
 		res.implementations = []*obj{}
 		res.objContents = map[uint32]*obj{}
 
-- 
2.43.0


From fab9a2f72836fb80f02b6365648215371c6c2773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 46/71] fix: different input structs with the same type name
 were seen as one type

---
 parse.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 01e3fcd..3428880 100644
--- a/parse.go
+++ b/parse.go
@@ -203,6 +203,7 @@ type input struct {
 	elem *input
 
 	// kind == struct
+	goType           reflect.Type // not set if isStructPointers == true
 	isStructPointers bool
 	structName       string
 	structContent    map[string]input
@@ -726,11 +727,15 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 			}
 		}
 
-		_, ok := c.schema.inTypes[structName]
+		existingInput, ok := c.schema.inTypes[structName]
+		if ok && existingInput.goType != t {
+			return res, fmt.Errorf("cannot have 2 input structs with same type name: %s", structName)
+		}
 		if !ok {
 			// Make sure the input types entry is set before looping over it's fields to fix the n+1 problem
 			c.schema.inTypes[structName] = &res
 
+			res.goType = t
 			res.structName = structName
 			res.structContent = map[string]input{}
 			for i := 0; i < t.NumField(); i++ {
-- 
2.43.0


From 5d17508ea4561381ccaf98790a343971ee45b3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 47/71] fix: Parse crashed with a stack overflow on list types
 that contain themselves

---
 parse.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/parse.go b/parse.go
index 3428880..e4fea68 100644
--- a/parse.go
+++ b/parse.go
@@ -454,6 +454,10 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			}
 		}
 	case reflect.Array, reflect.Slice, reflect.Ptr:
+		if isSelfContaining(t) {
+			return nil, fmt.Errorf("type %s cannot contain itself", t.Name())
+		}
+
 		isPtr := t.Kind() == reflect.Ptr
 		if isPtr {
 			res.valueType = valueTypePtr
@@ -623,6 +627,19 @@ func (c *parseCtx) checkStructFieldFunc(fieldName string, goType reflect.Type, h
 	}, nil
 }
 
+// isSelfContaining reports if t is a list or pointer type that only consists of itself, for example: type Foo []Foo
+func isSelfContaining(t reflect.Type) bool {
+	seen := map[reflect.Type]bool{}
+	for t.Kind() == reflect.Array || t.Kind() == reflect.Slice || t.Kind() == reflect.Ptr {
+		if seen[t] {
+			return true
+		}
+		seen[t] = true
+		t = t.Elem()
+	}
+	return false
+}
+
 var ctxType = reflect.TypeOf(Ctx{})
 
 func isCtx(t reflect.Type) bool {
@@ -670,6 +687,10 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 		kind: kind,
 	}
 
+	if isSelfContaining(t) {
+		return res, fmt.Errorf("type %s cannot contain itself", t.Name())
+	}
+
 	switch kind {
 	case reflect.String, reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
 		enumIndex, enum := c.schema.getEnum(t)
-- 
2.43.0


From e1dc560e333748989c3b4c6f5079c9df1af1645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 48/71] fix: deeply nested queries crashed the program with a
 stack overflow

---
 bytecode/bytecode.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index c2d027b..8257706 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -25,8 +25,12 @@ type ParserCtx struct {
 	Hasher               hash.Hash32
 	cache                *cache.BytecodeCache
 	CacheableQueryMinLen int // Default = 300
+	nesting              int // number of selection sets, values and types we are currently in
 }
 
+// maxNesting limits the nesting of selection sets, values and types to avoid running out of stack space
+const maxNesting = 10000
+
 // NewParserCtx returns a new instance of ParserCtx
 func NewParserCtx() *ParserCtx {
 	return &ParserCtx{
@@ -77,6 +81,19 @@ func (ctx *ParserCtx) ParseQueryToBytecode(target *string) {
 	}
 }
 
+// enter must be called before parsing something that might contain itself and be followed by a call to leave
+func (ctx *ParserCtx) enter() (criticalErr bool) {
+	ctx.nesting++
+	if ctx.nesting > maxNesting {
+		return ctx.err("query is nested too deeply")
+	}
+	return false
+}
+
+func (ctx *ParserCtx) leave() {
+	ctx.nesting--
+}
+
 func (ctx *ParserCtx) writeUint32(value uint32, at int) {
 	ctx.Res[at] = byte(0xff & value)
 	ctx.Res[at+1] = byte(0xff & (value >> 8))
@@ -377,6 +394,11 @@ func (ctx *ParserCtx) parseDirectives() (directivesAmount uint8, criticalErr boo
 }
 
 func (ctx *ParserCtx) parseGraphqlTypeName(c byte) bool {
+	if ctx.enter() {
+		return true
+	}
+	defer ctx.leave()
+
 	var eof bool
 	operationLocation := len(ctx.Res)
 
@@ -437,6 +459,11 @@ func (ctx *ParserCtx) parseGraphqlTypeName(c byte) bool {
 }
 
 func (ctx *ParserCtx) parseSelectionSet() bool {
+	if ctx.enter() {
+		return true
+	}
+	defer ctx.leave()
+
 	c, eof := ctx.mightIgnoreNextTokens()
 	if eof {
 		return ctx.unexpectedEOF()
@@ -513,7 +540,10 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 						return ctx.err(`expected selection set open ("{") on inline fragment but got "` + string(c) + `"`)
 					}
 					ctx.charNr++
-					ctx.parseSelectionSet()
+					criticalErr := ctx.parseSelectionSet()
+					if criticalErr {
+						return criticalErr
+					}
 					ctx.instructionEnd()
 					c, eof = ctx.mightIgnoreNextTokens()
 					if eof {
@@ -723,6 +753,11 @@ func (ctx *ParserCtx) parseAssignmentSet(closure byte) bool {
 }
 
 func (ctx *ParserCtx) parseInputValue() bool {
+	if ctx.enter() {
+		return true
+	}
+	defer ctx.leave()
+
 	c, eof := ctx.mightIgnoreNextTokens()
 	if eof {
 		return ctx.unexpectedEOF()
-- 
2.43.0


From a53e00faae688c854e9c3c1ad445205b3aa550fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 49/71] fix: report a selection set on an enum or time field

---
 resolver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resolver.go b/resolver.go
index aed9a39..ad73f34 100644
--- a/resolver.go
+++ b/resolver.go
@@ -847,6 +847,11 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		criticalErr = ctx.resolveFieldDataValue(&method.outType, dept, hasSubSelection)
 		return criticalErr
 	case valueTypeEnum:
+		if hasSubSelection {
+			ctx.writeNull()
+			return ctx.err("cannot have a selection set on this field")
+		}
+
 		enum := ctx.schema.definedEnums[typeObj.enumTypeIndex]
 		switch enum.contentKind {
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -876,6 +881,11 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		}
 		ctx.writeNull()
 	case valueTypeTime:
+		if hasSubSelection {
+			ctx.writeNull()
+			return ctx.err("cannot have a selection set on this field")
+		}
+
 		timeValue, ok := goValue.Interface().(time.Time)
 		if ok {
 			ctx.writeByte('"')
-- 
2.43.0


From dfa9fb48a4f4b7daa6d53247fb48c6a3d06b03c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 50/71] fix: allow ignored tokens between $ or @ and the name
 of a variable or directive

---
 bytecode/bytecode.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 8257706..f7a82d2 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -291,6 +291,10 @@ func (ctx *ParserCtx) parseOperatorArgument() bool {
 	argLengthLocation := ctx.instructionNewOperationArg()
 
 	// Parse `some_name` of `query a($some_var: String = "a") {`
+	_, eof := ctx.mightIgnoreNextTokens()
+	if eof {
+		return ctx.unexpectedEOF()
+	}
 	nameLen, criticalErr := ctx.parseAndWriteName()
 	if criticalErr {
 		return criticalErr
@@ -368,6 +372,10 @@ func (ctx *ParserCtx) parseDirectives() (directivesAmount uint8, criticalErr boo
 		ctx.charNr++
 		ctx.instructionNewDirective()
 		hasArgsFlag := len(ctx.Res) - 1
+		_, eof = ctx.mightIgnoreNextTokens()
+		if eof {
+			return directivesAmount, ctx.unexpectedEOF()
+		}
 		nameLen, criticalErr := ctx.parseAndWriteName()
 		if criticalErr {
 			return directivesAmount, criticalErr
@@ -768,6 +776,10 @@ func (ctx *ParserCtx) parseInputValue() bool {
 		ctx.instructionNewValueVariable()
 		startOfVariable := len(ctx.Res)
 
+		_, eof = ctx.mightIgnoreNextTokens()
+		if eof {
+			return ctx.unexpectedEOF()
+		}
 		nameLen, criticalErr := ctx.parseAndWriteName()
 		if criticalErr {
 			return criticalErr
-- 
2.43.0


From b09298e6523a4d6de2ab5b92c0801503067acba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 51/71] fix: an int literal for an enum argument reached the
 resolver as an unregistered enum value

---
 resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver.go b/resolver.go
index ad73f34..b7489b8 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1488,6 +1488,10 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			return valueSet, criticalErr
 		}
 	case bytecode.ValueInt:
+		if valueStructure.isEnum {
+			return false, ctx.err("cannot assign int to enum value")
+		}
+
 		startInt, endInt := getValue()
 		intValue := b2s(ctx.query.Res[startInt:endInt])
 
-- 
2.43.0


From 3f6da8eeb41b1aafd366079977dc2ad47825ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 52/71] fix: JSON float variables with many digits were rounded
 to a neighbouring float

---
 resolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index b7489b8..7339572 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1263,7 +1263,8 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 	case fastjson.TypeNumber:
 		goValueKind := goValue.Kind()
 		if goValueKind == reflect.Float64 || goValueKind == reflect.Float32 {
-			floatVal, err := jsonData.Float64()
+			// jsonData.Float64() is not exact for numbers with a lot of digits
+			floatVal, err := strconv.ParseFloat(jsonData.String(), 64)
 			if err != nil {
 				return false, ctx.err(err.Error())
 			}
-- 
2.43.0


From da45452511bfa2fd4de9b5bd14a157c7c4dd11a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 53/71] fix: integer literals beyond 64 bits were refused for
 float arguments

---
 resolver.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index 7339572..2dcdf69 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1542,12 +1542,16 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 
 			goValue.SetUint(value)
 		case reflect.Float32, reflect.Float64:
-			value, err := strconv.ParseInt(intValue, 10, 64)
+			value, err := strconv.ParseFloat(intValue, 64)
 			if err != nil {
 				return false, ctx.err(err.Error())
 			}
 
-			goValue.SetFloat(float64(value))
+			if goValue.OverflowFloat(value) {
+				return false, ctx.err("cannot assign " + intValue + " to a 32bit float")
+			}
+
+			goValue.SetFloat(value)
 		case reflect.Bool:
 			value, err := strconv.ParseInt(intValue, 10, 64)
 			if err != nil {
-- 
2.43.0


From ae73d40f17a8c7772c2928abf74ac7d5fd757e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 54/71] fix: malformed variables were only noticed by the first
 field that uses a variable

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 2dcdf69..009e0df 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1077,7 +1077,6 @@ func (ctx *Ctx) bindExternalVariableValue(goValue *reflect.Value, valueStructure
 			return false, false, false
 		}
 
-		ctx.variablesParsed = true
 		var err error
 		ctx.variables, err = ctx.variablesJSONParser.Parse(ctx.rawVariables)
 		if err != nil {
@@ -1086,6 +1085,7 @@ func (ctx *Ctx) bindExternalVariableValue(goValue *reflect.Value, valueStructure
 		if ctx.variables.Type() != fastjson.TypeObject {
 			return false, false, ctx.err("variables provided must be of type object")
 		}
+		ctx.variablesParsed = true
 	}
 
 	variable := ctx.variables.Get(argumentName)
-- 
2.43.0


From 429b5558b7e403bb51666254917985ac8186a57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 55/71] fix: an empty object literal was accepted as a time

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 009e0df..425a972 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1649,7 +1649,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 
 		goValue.Set(arr)
 	case bytecode.ValueObject:
-		if goValue.Kind() != reflect.Struct {
+		if goValue.Kind() != reflect.Struct || valueStructure.isTime {
 			return false, ctx.err("cannot assign object to " + goValue.String())
 		}
 
-- 
2.43.0


From d2281fa9e054e88b2d7849a1671767076234e2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 56/71] fix: panic on times, functions and methods within
 unexported fields

---
 resolver.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/resolver.go b/resolver.go
index 425a972..24f2fa9 100644
--- a/resolver.go
+++ b/resolver.go
@@ -812,6 +812,11 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 			ctx.writeNull()
 			return false
 		}
+		if !goValue.CanInterface() {
+			// Go does not allow calling methods and functions obtained via an unexported field
+			ctx.writeNull()
+			return ctx.err("cannot be called as it is part of an unexported field")
+		}
 
 		outs, criticalErr := ctx.callQlMethod(method, &goValue, ctx.seekInst() == 'v')
 		if criticalErr {
@@ -886,6 +891,13 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 			return ctx.err("cannot have a selection set on this field")
 		}
 
+		if !goValue.CanInterface() {
+			// Go does not allow reading times obtained via an unexported field
+			ctx.writeNull()
+			ctx.err("cannot be read as it is part of an unexported field")
+			return false
+		}
+
 		timeValue, ok := goValue.Interface().(time.Time)
 		if ok {
 			ctx.writeByte('"')
-- 
2.43.0


From c7def90a9a5ded00f87d2f9a7af3822921e09e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 57/71] fix: fields whose names have the same hash replaced
 each other

---
 copy_schema.go   |  3 ++-
 inject_schema.go |  4 ++--
 parse.go         | 34 +++++++++++++++++++++++++++++-----
 resolver.go      |  4 ++--
 4 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 96c8313..bbd1863 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -53,7 +53,8 @@ func (s *Schema) Copy() *Schema {
 		graphqlObjFields: map[string][]qlField{},
 	}
 
-	schemaField, ok := res.rootQuery.objContents[getObjKey([]byte("__schema"))]
+	schemaFieldName := []byte("__schema")
+	schemaField, ok := res.rootQuery.getField(getObjKey(schemaFieldName), schemaFieldName)
 	if ok && schemaField.customObjValue != nil {
 		// The value of __schema refers to the schema it's made for
 		contents := reflect.ValueOf(res.getQLSchema())
diff --git a/inject_schema.go b/inject_schema.go
index c44699b..7c81e33 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -20,7 +20,7 @@ func (s *Schema) injectQLTypes(ctx *parseCtx) {
 	ref.qlFieldName = []byte("__schema")
 	ref.hidden = true
 
-	s.rootQuery.objContents[getObjKey(ref.qlFieldName)] = ref
+	s.rootQuery.addField(ref)
 
 	// Inject __type(name: String!): __Type
 	typeResolver := func(ctx *Ctx, args struct{ Name string }) *qlType {
@@ -35,7 +35,7 @@ func (s *Schema) injectQLTypes(ctx *parseCtx) {
 	functionObj.customObjValue = &typeResolverReflection
 	functionObj.qlFieldName = []byte("__type")
 	functionObj.hidden = true
-	s.rootQuery.objContents[getObjKey(functionObj.qlFieldName)] = functionObj
+	s.rootQuery.addField(functionObj)
 }
 
 func (s *Schema) getQLSchema() qlSchema {
diff --git a/parse.go b/parse.go
index e4fea68..3d8b272 100644
--- a/parse.go
+++ b/parse.go
@@ -125,6 +125,31 @@ func getObjKey(key []byte) uint32 {
 	return hasher.Sum32()
 }
 
+// addField adds a field to the object, or replaces the field with the same name
+func (o *obj) addField(field *obj) {
+	key := getObjKey(field.qlFieldName)
+	for {
+		existing, ok := o.objContents[key]
+		if !ok || bytes.Equal(existing.qlFieldName, field.qlFieldName) {
+			o.objContents[key] = field
+			return
+		}
+		// This key is in use by a field with a different name but the same hash, use the next one
+		key++
+	}
+}
+
+// getField returns the field with this name, key must be the getObjKey of the name
+func (o *obj) getField(key uint32, name []byte) (*obj, bool) {
+	for {
+		field, ok := o.objContents[key]
+		if !ok || bytes.Equal(field.qlFieldName, name) {
+			return field, ok
+		}
+		key++
+	}
+}
+
 func (o *obj) getRef() obj {
 	switch o.valueType {
 	case valueTypeObj:
@@ -450,7 +475,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				}
 				obj.qlFieldName = []byte(name)
 
-				res.objContents[getObjKey(obj.qlFieldName)] = obj
+				res.addField(obj)
 			}
 		}
 	case reflect.Array, reflect.Slice, reflect.Ptr:
@@ -565,16 +590,15 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			// Methods of an interface have no receiver
 			methodObj.hasReceiver = res.valueType == valueTypeObj
 
-			qlFieldName := []byte(name)
-			res.objContents[getObjKey(qlFieldName)] = &obj{
-				qlFieldName:    qlFieldName,
+			res.addField(&obj{
+				qlFieldName:    []byte(name),
 				valueType:      valueTypeMethod,
 				goPkgPath:      method.PkgPath,
 				goTypeName:     method.Name,
 				structFieldIdx: i,
 				method:         methodObj,
 				isID:           isID,
-			}
+			})
 		}
 
 		if res.valueType == valueTypeInterface {
diff --git a/resolver.go b/resolver.go
index 24f2fa9..70465f5 100644
--- a/resolver.go
+++ b/resolver.go
@@ -578,8 +578,8 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 
 	fieldHasSelection := ctx.seekInst() != 'e'
 
-	typeObjField, ok := typeObj.objContents[nameKey]
-	if !ok || !bytes.Equal(typeObjField.qlFieldName, ctx.query.Res[startOfName:endOfName]) {
+	typeObjField, ok := typeObj.getField(nameKey, ctx.query.Res[startOfName:endOfName])
+	if !ok {
 		name := b2s(ctx.query.Res[startOfName:endOfName])
 		if name == "__typename" {
 			if fieldHasSelection {
-- 
2.43.0


From 9ee8e805e827e8f10eb3ada823aa3fde74e73449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 58/71] fix: roots that were refused got accepted when parsed
 again

---
 parse.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/parse.go b/parse.go
index 3d8b272..41a9e2f 100644
--- a/parse.go
+++ b/parse.go
@@ -340,6 +340,22 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		return errors.New("input methods must be a struct")
 	}
 
+	// Forget what an earlier, maybe failed, parse has left behind
+	s.parsed = false
+	s.types = types{}
+	s.inTypes = inputMap{}
+	s.interfaces = types{}
+	s.graphqlTypesMap = nil
+	s.graphqlTypesList = nil
+	s.graphqlObjFields = map[string][]qlField{}
+	for _, directiveLocation := range s.definedDirectives {
+		for _, directive := range directiveLocation {
+			directive.parsedMethod.ins = []baseInput{}
+			directive.parsedMethod.inFields = map[string]referToInput{}
+			directive.parsedMethod.checkedIns = false
+		}
+	}
+
 	s.rootQueryValue = reflect.ValueOf(queries)
 	s.rootMethodValue = reflect.ValueOf(methods)
 
-- 
2.43.0


From 095d58b742b1a46968625f5c51da4bc1d9ca0abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 59/71] fix: types that implement an interface were described
 twice

---
 parse.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/parse.go b/parse.go
index 41a9e2f..9a47f32 100644
--- a/parse.go
+++ b/parse.go
@@ -455,15 +455,6 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				res = v.getRef()
 				return &res, nil
 			}
-
-			implementations := structImplementsMap[t]
-			for _, implementation := range implementations {
-				impl, err := c.check(implementation, false)
-				if err != nil {
-					return nil, err
-				}
-				res.implementations = append(res.implementations, impl)
-			}
 		} else {
 			c.unknownTypesCount++
 			res.typeName = "__UnknownType" + strconv.Itoa(c.unknownTypesCount)
@@ -478,6 +469,15 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 		typesInner[res.typeName] = &res
 		c.schema.types = typesInner
 
+		// This type needs to be stored by now as the interfaces refer back to it
+		for _, implementation := range structImplementsMap[t] {
+			impl, err := c.check(implementation, false)
+			if err != nil {
+				return nil, err
+			}
+			res.implementations = append(res.implementations, impl)
+		}
+
 		for i := 0; i < t.NumField(); i++ {
 			field := t.Field(i)
 			customName, obj, err := c.checkStructField(field, i)
-- 
2.43.0


From 0c0830e34713d993b0ca0e5ad7ad0fb3718e9f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 60/71] fix: SetValue panicked when the values given to a
 request are a nil map

---
 resolver.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/resolver.go b/resolver.go
index 70465f5..bff58ab 100644
--- a/resolver.go
+++ b/resolver.go
@@ -99,12 +99,12 @@ func (ctx *Ctx) GetValueOk(key string) (value interface{}, found bool) {
 // SetValue sets a user defined value
 func (ctx *Ctx) SetValue(key string, value interface{}) {
 	if ctx.values == nil {
-		ctx.values = &map[string]interface{}{
-			key: value,
-		}
-	} else {
-		(*ctx.values)[key] = value
+		ctx.values = &map[string]interface{}{}
+	}
+	if *ctx.values == nil {
+		*ctx.values = map[string]interface{}{}
 	}
+	(*ctx.values)[key] = value
 }
 
 // GetContext returns the Go request context
-- 
2.43.0


From acf6559db3e8e21a8c08c91a6547d204425de5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 61/71] fix: types of different kinds with the same name were
 accepted

---
 parse.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/parse.go b/parse.go
index 9a47f32..022c15f 100644
--- a/parse.go
+++ b/parse.go
@@ -415,6 +415,11 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
+	err = s.checkTypeNames()
+	if err != nil {
+		return err
+	}
+
 	s.ctx = newCtx(s)
 	s.parsed = true
 
@@ -1005,6 +1010,36 @@ func parseFieldTagGQ(field *reflect.StructField) (newName *string, ignore bool,
 	return
 }
 
+// checkTypeNames checks that no 2 graphql types have the same name
+func (s *Schema) checkTypeNames() error {
+	names := map[string]struct{}{}
+	for name := range scalars {
+		names[name] = struct{}{}
+	}
+
+	typeNames := []string{}
+	for name := range s.types {
+		typeNames = append(typeNames, name)
+	}
+	for name := range s.interfaces {
+		typeNames = append(typeNames, name)
+	}
+	for name := range s.inTypes {
+		typeNames = append(typeNames, name)
+	}
+	for _, enum := range s.definedEnums {
+		typeNames = append(typeNames, enum.typeName)
+	}
+
+	for _, name := range typeNames {
+		if _, ok := names[name]; ok {
+			return errors.New("cannot have 2 types with same type name: " + name)
+		}
+		names[name] = struct{}{}
+	}
+	return nil
+}
+
 func validGraphQlName(name []byte) error {
 	if len(name) == 0 {
 		return errors.New("invalid graphql name")
-- 
2.43.0


From b595853799537017b5a61f370bf865eb34995ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 62/71] fix: a directive refused for one of its locations was
 registered for the locations before

---
 directives.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/directives.go b/directives.go
index 6444484..1f56dc8 100644
--- a/directives.go
+++ b/directives.go
@@ -85,21 +85,24 @@ func (s *Schema) RegisterDirective(directive Directive) error {
 		return err
 	}
 
-	ptrToDirective := &directive
-	for _, location := range directive.Where {
-		directivesForLocation, ok := s.definedDirectives[location]
-		if !ok {
-			directivesForLocation = []*Directive{}
-		} else {
-			// Check for already defined directives with the same name
-			for _, alreadyDefinedDirective := range directivesForLocation {
-				if directive.Name == alreadyDefinedDirective.Name {
-					return errors.New("you cannot have duplicated directive names in " + location.String() + " with name " + directive.Name)
-				}
+	// Check all locations before adding the directive to any of them
+	for i, location := range directive.Where {
+		for _, earlierLocation := range directive.Where[:i] {
+			if earlierLocation == location {
+				return errors.New("you cannot have duplicated directive names in " + location.String() + " with name " + directive.Name)
+			}
+		}
+		// Check for already defined directives with the same name
+		for _, alreadyDefinedDirective := range s.definedDirectives[location] {
+			if directive.Name == alreadyDefinedDirective.Name {
+				return errors.New("you cannot have duplicated directive names in " + location.String() + " with name " + directive.Name)
 			}
 		}
-		directivesForLocation = append(directivesForLocation, ptrToDirective)
-		s.definedDirectives[location] = directivesForLocation
+	}
+
+	ptrToDirective := &directive
+	for _, location := range directive.Where {
+		s.definedDirectives[location] = append(s.definedDirectives[location], ptrToDirective)
 	}
 
 	return nil
-- 
2.43.0


From bc77f578774abb874075587f1589b14ba01451a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 63/71] fix: directives that can never be used (no or unknown
 location, name starting with a number) were accepted

---
 directives.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/directives.go b/directives.go
index 1f56dc8..6927ea2 100644
--- a/directives.go
+++ b/directives.go
@@ -112,15 +112,25 @@ func checkDirective(directive *Directive) error {
 	if len(directive.Name) == 0 {
 		return errors.New("cannot register directive with empty name")
 	}
+	if directive.Name[0] >= '0' && directive.Name[0] <= '9' {
+		return errors.New("directive name cannot start with a number: " + directive.Name)
+	}
 	for _, char := range directive.Name {
 		if char >= '0' && char <= '9' || char >= 'A' && char <= 'Z' || char >= 'a' && char <= 'z' || char == '_' {
 			continue
 		}
 		return errors.New(string(char) + " in " + directive.Name + " is not allowed as directive name")
 	}
-	if directive.Where == nil {
+	if len(directive.Where) == 0 {
 		return errors.New("where must be defined")
 	}
+	for _, location := range directive.Where {
+		switch location {
+		case DirectiveLocationField, DirectiveLocationFragment, DirectiveLocationFragmentInline:
+		default:
+			return errors.New("unknown location in where of directive " + directive.Name)
+		}
+	}
 	if directive.Method == nil {
 		return errors.New("method must be defined")
 	}
-- 
2.43.0


From d36668d8bf1cdead82c764f9453d9c78a671bc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 64/71] fix: TypeRename crashed with a nil pointer dereference
 on nil

---
 type_rename.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/type_rename.go b/type_rename.go
index 0eb6bd0..f99566e 100644
--- a/type_rename.go
+++ b/type_rename.go
@@ -12,6 +12,9 @@ var renamedTypes = map[reflect.Type]string{}
 // By default the typename of the struct is used but you might want to change this form time to time and with this you can
 func TypeRename(goType interface{}, newName string, force ...bool) string {
 	t := reflect.TypeOf(goType)
+	if t == nil {
+		log.Panicf("GraphQl Cannot rename the type of nil\n")
+	}
 	originalName := t.Name()
 
 	if originalName == "" {
-- 
2.43.0


From d1d8d3483132059c8dc563f31f8848309193b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 65/71] fix: an enum value with multiple keys was written as a
 random one of them

---
 enums.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/enums.go b/enums.go
index dd36e20..1c4222a 100644
--- a/enums.go
+++ b/enums.go
@@ -137,6 +137,8 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 		}
 		i++
 	}
+	// The order of a map is random, without sorting a value with multiple keys would get a random key
+	sort.Slice(entries, func(a int, b int) bool { return entries[a].key < entries[b].key })
 	sort.Slice(qlTypeEnumValues, func(a int, b int) bool { return qlTypeEnumValues[a].Name < qlTypeEnumValues[b].Name })
 
 	name := contentType.Name()
-- 
2.43.0


From e160ea437c529362d1c9b84663ef9e99a501638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 66/71] fix: block strings lost their indentation, trailing
 spaces and backslashes

---
 bytecode/bytecode.go | 155 ++++++++++++++++++++++++++-----------------
 1 file changed, 93 insertions(+), 62 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index f7a82d2..ee00017 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -1001,30 +1001,14 @@ func (ctx *ParserCtx) parseNumberInputValue() bool {
 }
 
 func (ctx *ParserCtx) parseStringInputValue() bool {
-	// FIXME block strings are not spec compliant
-
 	ctx.instructionNewValueString()
 	startOfString := len(ctx.Res)
 
-	isBlock := ctx.matches(`"""`) == 0
-	if isBlock {
-		// Trim spaces and enters before text in block string
-		for {
-			c, eof := ctx.checkC(ctx.charNr)
-			if eof {
-				return ctx.unexpectedEOF()
-			}
-			if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
-				ctx.charNr++
-				continue
-			}
-			ctx.charNr--
-			break
-		}
+	if ctx.matches(`"""`) == 0 {
+		return ctx.parseBlockStringValue(startOfString)
 	}
 
 	// Parse normal string
-mainLoop:
 	for {
 		ctx.charNr++
 		c, eof := ctx.checkC(ctx.charNr)
@@ -1038,54 +1022,14 @@ mainLoop:
 		}
 
 		if c == '\n' || c == '\r' {
-			if !isBlock {
-				return ctx.err("newline and carriage returns not allowed in strings")
-			}
-
-			ctx.Res = append(ctx.Res, c)
-			if c == '\r' {
-				c, eof = ctx.checkC(ctx.charNr + 1)
-				if !eof && c == '\n' {
-					ctx.Res = append(ctx.Res, '\n')
-					ctx.charNr++
-				}
-			}
-
-			for {
-				ctx.charNr++
-				c, eof := ctx.checkC(ctx.charNr)
-				if eof {
-					return ctx.unexpectedEOF()
-				}
-				if c == ' ' || c == '\t' {
-					continue
-				}
-				ctx.charNr--
-				continue mainLoop
-			}
+			return ctx.err("newline and carriage returns not allowed in strings")
 		}
 
 		if c == '"' {
-			if !isBlock {
-				ctx.charNr++
-
-				ctx.writeUint32(uint32(len(ctx.Res)-startOfString), startOfString-4)
-				return false
-			}
-			if ctx.matches(`"""`) == 0 {
-				// Trim last newlines from the written output
-				for {
-					lastInst := ctx.Res[len(ctx.Res)-1]
-					if lastInst == '\n' || lastInst == '\r' || lastInst == ' ' {
-						ctx.Res = ctx.Res[:len(ctx.Res)-1]
-						continue
-					}
-					break
-				}
+			ctx.charNr++
 
-				ctx.writeUint32(uint32(len(ctx.Res)-startOfString), startOfString-4)
-				return false
-			}
+			ctx.writeUint32(uint32(len(ctx.Res)-startOfString), startOfString-4)
+			return false
 		}
 
 		if c == '\\' {
@@ -1156,6 +1100,93 @@ mainLoop:
 	}
 }
 
+// parseBlockStringValue parses the remainder of a block string after the opening quotes
+func (ctx *ParserCtx) parseBlockStringValue(startOfString int) bool {
+	for {
+		c, eof := ctx.checkC(ctx.charNr)
+		if eof {
+			return ctx.unexpectedEOF()
+		}
+
+		if c == '"' && ctx.matches(`"""`) == 0 {
+			break
+		}
+		if c == '\\' && ctx.matches(`\"""`) == 0 {
+			// This is the only escape sequence of a block string
+			ctx.Res = append(ctx.Res, '"', '"', '"')
+			continue
+		}
+		if c != 0 {
+			ctx.Res = append(ctx.Res, c)
+		}
+		ctx.charNr++
+	}
+
+	valueLen := dedentBlockString(ctx.Res[startOfString:])
+	ctx.Res = ctx.Res[:startOfString+valueLen]
+	ctx.writeUint32(uint32(valueLen), startOfString-4)
+	return false
+}
+
+// dedentBlockString removes the common indentation of all lines except the first one and the leading and trailing blank lines
+// The text is changed in place and the length of the result is returned
+//
+// https://spec.graphql.org/October2021/#BlockStringValue()
+func dedentBlockString(text []byte) int {
+	commonIndent := -1
+	for pos, nr := 0, 0; pos < len(text); nr++ {
+		indent, lineLen, terminatorLen := blockStringLine(text[pos:])
+		pos += lineLen + terminatorLen
+		if nr > 0 && indent < lineLen && (commonIndent == -1 || indent < commonIndent) {
+			commonIndent = indent
+		}
+	}
+
+	written, resLen := 0, 0
+	for pos, nr := 0, 0; pos < len(text); nr++ {
+		indent, lineLen, terminatorLen := blockStringLine(text[pos:])
+		line := text[pos : pos+lineLen+terminatorLen]
+		pos += len(line)
+
+		isBlank := indent == lineLen
+		if isBlank && resLen == 0 {
+			// leading blank line
+			continue
+		}
+		toRemove := 0
+		if nr > 0 && commonIndent > 0 {
+			toRemove = commonIndent
+			if toRemove > lineLen {
+				toRemove = lineLen
+			}
+		}
+		written += copy(text[written:], line[toRemove:])
+		if !isBlank {
+			resLen = written - terminatorLen
+		}
+	}
+	return resLen
+}
+
+// blockStringLine returns the indentation, length and length of the line terminator of the first line in text
+func blockStringLine(text []byte) (indent, lineLen, terminatorLen int) {
+	for indent < len(text) && (text[indent] == ' ' || text[indent] == '\t') {
+		indent++
+	}
+	for lineLen = indent; lineLen < len(text); lineLen++ {
+		if text[lineLen] == '\n' {
+			return indent, lineLen, 1
+		}
+		if text[lineLen] == '\r' {
+			if lineLen+1 < len(text) && text[lineLen+1] == '\n' {
+				return indent, lineLen, 2
+			}
+			return indent, lineLen, 1
+		}
+	}
+	return indent, lineLen, 0
+}
+
 //
 // ITERATOR HELPERS
 //
-- 
2.43.0


From ccdac3b54a66fdc0a161c732b9fe9aa89054bf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 67/71] fix: \u surrogate pairs in strings became two
 replacement characters

---
 bytecode/bytecode.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index ee00017..615ef5a 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -1081,7 +1081,10 @@ func (ctx *ParserCtx) parseStringInputValue() bool {
 				// 	ctx.res = append(ctx.res, res[1])
 				// }
 
-				r := utf16.Decode([]uint16{uint16(res[1]) | (uint16(res[0]) << 8)})[0]
+				r := rune(res[1]) | rune(res[0])<<8
+				if utf16.IsSurrogate(r) {
+					r = ctx.parseSurrogatePair(r)
+				}
 
 				// hex.Decode above only writes to the first and second byte
 				res[0] = 0
@@ -1100,6 +1103,27 @@ func (ctx *ParserCtx) parseStringInputValue() bool {
 	}
 }
 
+// parseSurrogatePair returns the character of the surrogate in front of the current position and the one that follows it
+// A surrogate without its other half results in the unicode replacement character
+func (ctx *ParserCtx) parseSurrogatePair(high rune) rune {
+	next := ctx.charNr + 1
+	if ctx.eof(next+5) || ctx.c(next) != '\\' || ctx.c(next+1) != 'u' {
+		return utf8.RuneError
+	}
+
+	low := make([]byte, 2)
+	_, err := hex.Decode(low, ctx.Query[next+2:next+6])
+	if err != nil {
+		return utf8.RuneError
+	}
+
+	r := utf16.DecodeRune(high, rune(low[1])|rune(low[0])<<8)
+	if r != utf8.RuneError {
+		ctx.charNr += 6
+	}
+	return r
+}
+
 // parseBlockStringValue parses the remainder of a block string after the opening quotes
 func (ctx *ParserCtx) parseBlockStringValue(startOfString int) bool {
 	for {
-- 
2.43.0


From ba5da8fa8d8a07d287fefae3152e553df6c68c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 68/71] fix: directives with the same name were introspected in
 a random order

---
 inject_schema.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/inject_schema.go b/inject_schema.go
index 7c81e33..01717e6 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -137,7 +137,13 @@ func (s *Schema) getDirectives() []qlDirective {
 		}
 	}
 
-	sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
+	sort.Slice(res, func(a int, b int) bool {
+		if res[a].Name != res[b].Name {
+			return res[a].Name < res[b].Name
+		}
+		// Directives can share a name as long as they do not share a location
+		return res[a].Locations[0] < res[b].Locations[0]
+	})
 
 	return res
 }
-- 
2.43.0


From 4c509fdd772d98e74a44e18880b18492c798097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:56 +0000
Subject: [PATCH 69/71] fix: input types without a name in directive arguments
 were named at random

---
 parse.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 022c15f..7f70cd2 100644
--- a/parse.go
+++ b/parse.go
@@ -391,8 +391,9 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 	}
 
 	// The directives need to be checked before injecting the graphql types as those describe the directive arguments
-	for _, directiveLocation := range ctx.schema.definedDirectives {
-		for _, directive := range directiveLocation {
+	// They are checked in a fixed order as argument types without a name are named after the order they are found in
+	for _, location := range []DirectiveLocation{DirectiveLocationField, DirectiveLocationFragment, DirectiveLocationFragmentInline} {
+		for _, directive := range ctx.schema.definedDirectives[location] {
 			if directive.parsedMethod.checkedIns {
 				continue
 			}
-- 
2.43.0


From c1b1f72a643f6639bdaa9329ed3bf9fafcec11b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 70/71] fix: strings given to resolvers were overwritten by
 later requests

---
 resolver.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index bff58ab..466590b 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1137,7 +1137,7 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to this field's value")
 			}
 		}
-		stringValue := b2s(jsonData.GetStringBytes())
+		stringValue := string(jsonData.GetStringBytes())
 
 		if valueStructure.isEnum {
 			if jsonDataType != fastjson.TypeString {
@@ -1268,7 +1268,7 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 		valueSet = true
 	case fastjson.TypeString:
 		valueSet = true
-		criticalErr := ctx.assignStringToValue(goValue, valueStructure, b2s(jsonData.GetStringBytes()))
+		criticalErr := ctx.assignStringToValue(goValue, valueStructure, string(jsonData.GetStringBytes()))
 		if criticalErr {
 			return valueSet, criticalErr
 		}
@@ -1594,7 +1594,8 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		}
 	case bytecode.ValueString:
 		startString, endString := getValue()
-		stringValue := b2s(ctx.query.Res[startString:endString])
+		// The value might be kept by a resolver while the bytecode is overwritten by the next request
+		stringValue := string(ctx.query.Res[startString:endString])
 		criticalErr := ctx.assignStringToValue(goValue, valueStructure, stringValue)
 		if criticalErr {
 			return false, criticalErr
-- 
2.43.0


From 75b2ff23cedd55f5e97f445ad36633fe85ae93d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:23 +0000
Subject: [PATCH 71/71] fix: the errors returned by a request were overwritten
 by later requests

---
 bytecode/bytecode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 615ef5a..de51d4d 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -51,7 +51,7 @@ func (ctx *ParserCtx) ParseQueryToBytecode(target *string) {
 		Res:                  ctx.Res[:0],
 		FragmentLocations:    ctx.FragmentLocations[:0],
 		Query:                ctx.Query,
-		Errors:               ctx.Errors[:0],
+		Errors:               []error{},
 		target:               target,
 		hasTarget:            target != nil && len(*target) > 0,
 		TargetIdx:            -1,
-- 
2.43.0

