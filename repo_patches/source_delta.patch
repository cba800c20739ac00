From 1a462d2baea321f73f1ac06e21bcb8046965b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:12 +0000
Subject: [PATCH 01/76] fix: method last no longer reverses the shared
 instruction list on every call

---
 transform/transform.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index fe1ed7c..d2e95a4 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -257,20 +257,21 @@ func (tis *transformInstructions) UnmarshalJSON(data []byte) error {
 // It handles the logic for concatenation, first or last methods.
 func (tis *transformInstructions) transform(in interface{}, fieldType string, modifier pathModifier, format inputFormat) (interface{}, error) {
 	var concatResult bool
+	instructions := tis.From
 	switch tis.Method {
 	case last:
-		var newFrom []*transformInstruction
+		// The instructions are shared by every transform so the order must be reversed in a copy
+		instructions = make([]*transformInstruction, 0, len(tis.From))
 		for i := len(tis.From) - 1; i >= 0; i-- {
-			newFrom = append(newFrom, tis.From[i])
+			instructions = append(instructions, tis.From[i])
 		}
-		tis.From = newFrom
 	case concatenate:
 		concatResult = true
 	}
 
 	var result interface{}
 
-	for _, from := range tis.From {
+	for _, from := range instructions {
 		value, err := from.transform(in, fieldType, modifier, format)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From b09580839551909eb2bfb48f76de6e022817743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:16 +0000
Subject: [PATCH 02/76] fix: schema defaults are copied before a result is
 built on them

---
 transform/instance.go | 14 +++++++-------
 transform/utils.go    | 20 ++++++++++++++++++++
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index 8310396..83fb8e8 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -107,7 +107,7 @@ func (at *arrayTransformer) baseValueJSON(in interface{}, path string, modifier
 
 	// 3. Fall back to the JSON Schema default value.
 	if at.defaultValue != nil {
-		return at.defaultValue, true, nil
+		return copyValue(at.defaultValue).([]interface{}), true, nil
 	}
 	return nil, false, nil
 }
@@ -141,7 +141,7 @@ func (at *arrayTransformer) baseValueXML(in interface{}, path string, modifier p
 
 	// 2. Fall back to the JSON Schema default value.
 	if at.defaultValue != nil {
-		return at.defaultValue, true, nil
+		return copyValue(at.defaultValue).([]interface{}), true, nil
 	}
 	return nil, false, nil
 }
@@ -343,7 +343,7 @@ func (ot *objectTransformer) objectTransformJSON(in interface{}, modifier pathMo
 		if ot.defaultValue == nil {
 			newValue = make(map[string]interface{})
 		} else {
-			newValue = ot.defaultValue
+			newValue = copyValue(ot.defaultValue).(map[string]interface{})
 		}
 	}
 
@@ -388,7 +388,7 @@ func (ot *objectTransformer) objectTransformXML(in interface{}, modifier pathMod
 			if ot.defaultValue == nil {
 				return nil, nil
 			} else {
-				return ot.defaultValue, nil
+				return copyValue(ot.defaultValue), nil
 			}
 		} else if val, ok := rawValue.(string); ok {
 			// If the XML node is returned as an empty string, then it likely indicates that the transformer encountered an empty XML tag, e.g. <tag /> or <tag></tag>.
@@ -414,7 +414,7 @@ func (ot *objectTransformer) objectTransformXML(in interface{}, modifier pathMod
 	if ot.defaultValue == nil {
 		newValue = make(map[string]interface{})
 	} else {
-		newValue = ot.defaultValue
+		newValue = copyValue(ot.defaultValue).(map[string]interface{})
 	}
 
 	// Add each child value to the parent if there is no object transform or if the object transform node is found
@@ -527,7 +527,7 @@ func (st *scalarTransformer) transformScalarJSON(in interface{}, modifier pathMo
 	}
 
 	// 3. Fall back to the JSON Schema default value.
-	return st.defaultValue, nil
+	return copyValue(st.defaultValue), nil
 }
 
 // transformScalarXML retrieves the value for a scalar instance following this process:
@@ -553,7 +553,7 @@ func (st *scalarTransformer) transformScalarXML(in interface{}, modifier pathMod
 	}
 
 	// 2. If transform does not exist or returns no value send back default
-	return st.defaultValue, nil
+	return copyValue(st.defaultValue), nil
 }
 
 // transform routes to the correct scalar transform type.
diff --git a/transform/utils.go b/transform/utils.go
index 2d3a096..d218e91 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -214,6 +214,26 @@ func schemaDefault(schema json.RawMessage) (interface{}, error) {
 	return nil, nil
 }
 
+// copyValue makes a deep copy of a JSON value. It is used for defaults, which are shared by every transform and so must
+// not be used as the base for building up a result.
+func copyValue(value interface{}) interface{} {
+	switch v := value.(type) {
+	case map[string]interface{}:
+		newMap := make(map[string]interface{}, len(v))
+		for key, item := range v {
+			newMap[key] = copyValue(item)
+		}
+		return newMap
+	case []interface{}:
+		newSlice := make([]interface{}, len(v))
+		for i, item := range v {
+			newSlice[i] = copyValue(item)
+		}
+		return newSlice
+	}
+	return value
+}
+
 // replaceIndex takes a path which may include array index values like `a[0].b.c[23].d` with the index values replaced
 // with "*", ie `a[*].b.c[*].d`.
 func replaceIndex(path string) string {
-- 
2.43.0


From 4585efbc2b3d0515edc3a8378733834374d97032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:58 +0000
Subject: [PATCH 03/76] fix: array and object transforms no longer change the
 input read by other instances

---
 transform/instance.go    | 24 ++++++++++-----------
 transform/transformer.go | 45 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+), 13 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index 83fb8e8..344a173 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -174,17 +174,11 @@ func (at *arrayTransformer) arrayTransformJSON(in interface{}, modifier pathModi
 	}
 
 	if changed {
-		// save the array base to in as children will use the value from this for their transforms
-		if path == "$" {
-			in = base
-		} else {
-			inMap, ok := in.(map[string]interface{})
-			if !ok {
-				return nil, errors.New("input is neither a JSON array nor object")
-			}
-			if err := saveInTree(inMap, path, base); err != nil {
-				return nil, fmt.Errorf("failed to save array transform to input data: %v", err)
-			}
+		// save the array base to a copy of in as children will use the value from this for their transforms, the original
+		// must remain as is because other instances use it for their transforms
+		in, err = saveInCopy(in, path, base)
+		if err != nil {
+			return nil, fmt.Errorf("failed to save array transform to input data: %v", err)
 		}
 	}
 
@@ -332,11 +326,15 @@ func (ot *objectTransformer) objectTransformJSON(in interface{}, modifier pathMo
 			return nil, err
 		}
 		if rawValue != nil {
-			var ok bool
-			newValue, ok = rawValue.(map[string]interface{})
+			rawObject, ok := rawValue.(map[string]interface{})
 			if !ok {
 				return nil, errors.New("transform returned non-object value")
 			}
+			// the children are saved in a copy as the original is part of the input used by other instances
+			newValue = make(map[string]interface{}, len(rawObject))
+			for key, value := range rawObject {
+				newValue[key] = value
+			}
 		}
 	}
 	if newValue == nil {
diff --git a/transform/transformer.go b/transform/transformer.go
index 7e8c715..97a31b8 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -244,6 +244,51 @@ func (tr *Transformer) walker(path string, value json.RawMessage) error {
 	return nil
 }
 
+// saveInCopy returns a copy of in with value saved at the given path. Only the objects and arrays on the path are copied.
+// Anything on the path which isn't an object or array as needed for the path is replaced by one.
+func saveInCopy(in interface{}, path string, value interface{}) (interface{}, error) {
+	splits := strings.Split(strings.Replace(path, "[", ".[", -1), ".")
+	if splits[0] != "$" {
+		return nil, fmt.Errorf("path %q does not start with '$'", path)
+	}
+	return saveCopy(in, splits[1:], value)
+}
+
+func saveCopy(current interface{}, splits []string, value interface{}) (interface{}, error) {
+	if len(splits) == 0 {
+		return value, nil
+	}
+
+	if !strings.HasPrefix(splits[0], "[") {
+		oldMap, _ := current.(map[string]interface{})
+		newMap := make(map[string]interface{}, len(oldMap)+1)
+		for key, item := range oldMap {
+			newMap[key] = item
+		}
+		newItem, err := saveCopy(oldMap[splits[0]], splits[1:], value)
+		if err != nil {
+			return nil, err
+		}
+		newMap[splits[0]] = newItem
+		return newMap, nil
+	}
+
+	index, err := strconv.Atoi(strings.Trim(splits[0], "[]"))
+	if err != nil {
+		return nil, fmt.Errorf("failed to determine index of %q", splits[0])
+	}
+	oldSlice, _ := current.([]interface{})
+	newSlice := append([]interface{}{}, oldSlice...)
+	for len(newSlice) <= index {
+		newSlice = append(newSlice, nil)
+	}
+	newSlice[index], err = saveCopy(newSlice[index], splits[1:], value)
+	if err != nil {
+		return nil, err
+	}
+	return newSlice, nil
+}
+
 // saveInTree is used recursively to add values the tree based on the path even if the parents are nil.
 func saveInTree(tree map[string]interface{}, path string, value interface{}) error {
 	if value == nil {
-- 
2.43.0


From afcafcd3f265e294897b908b8b1c8ef50f458426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:59 +0000
Subject: [PATCH 04/76] fix: a lone value used as an array item is visible to
 the item transforms

---
 transform/instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform/instance.go b/transform/instance.go
index 344a173..c2fd22e 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -102,7 +102,7 @@ func (at *arrayTransformer) baseValueJSON(in interface{}, path string, modifier
 		if !ok {
 			newValue = []interface{}{rawValue}
 		}
-		return newValue, false, nil
+		return newValue, !ok, nil
 	}
 
 	// 3. Fall back to the JSON Schema default value.
-- 
2.43.0


From a536fff3cd44dd454d1599611b8012812044652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:13 +0000
Subject: [PATCH 05/76] fix: max operation handles negative numbers and empty
 arrays

---
 transform/operations.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transform/operations.go b/transform/operations.go
index 0e978b8..d5ee90a 100644
--- a/transform/operations.go
+++ b/transform/operations.go
@@ -162,6 +162,10 @@ func (m *max) transform(in interface{}) (interface{}, error) {
 	byArg := strings.Replace(m.args["by"], "@", "$", 1)
 	returnArg := strings.Replace(m.args["return"], "@", "$", 1)
 
+	if len(inArray) == 0 {
+		return nil, errors.New("input array is empty")
+	}
+
 	var largest float64
 	var largestIndex int
 	for i, item := range inArray {
@@ -177,7 +181,7 @@ func (m *max) transform(in interface{}) (interface{}, error) {
 			}
 			by = float64(byInt)
 		}
-		if by > largest {
+		if i == 0 || by > largest {
 			largest = by
 			largestIndex = i
 		}
-- 
2.43.0


From 27caea50b7b7256997da60ecd476c2cdc08d8af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:17 +0000
Subject: [PATCH 06/76] fix: recognise an empty properties object however it is
 formatted

---
 transform/transformer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transform/transformer.go b/transform/transformer.go
index 97a31b8..d50d7e9 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -219,7 +219,11 @@ func (tr *Transformer) walker(path string, value json.RawMessage) error {
 		if err != nil {
 			return fmt.Errorf("failed to extract properties: %v", err)
 		}
-		if string(properties) == "{}" { // Checks for empty "properties"
+		var propertiesMap map[string]json.RawMessage
+		if err := json.Unmarshal(properties, &propertiesMap); err != nil {
+			return fmt.Errorf("failed to parse properties: %v", err)
+		}
+		if len(propertiesMap) == 0 { // Checks for empty "properties"
 			iTransformer, err = newScalarTransformer(path, tr.transformIdentifier, value, instanceType, tr.format)
 		} else {
 			iTransformer, err = newObjectTransformer(path, tr.transformIdentifier, value, tr.format)
-- 
2.43.0


From 506aac7dedfdfe4f28c6d2ef12f0744e5fd1ebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:34 +0000
Subject: [PATCH 07/76] fix: report an error rather than crash for property
 names which break up the path

---
 transform/transformer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transform/transformer.go b/transform/transformer.go
index d50d7e9..f2b29a5 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -193,6 +193,9 @@ func (tr *Transformer) findParent(path string) (instanceTransformer, error) {
 
 	parent := tr.root
 	for _, sp := range parentSplits {
+		if parent == nil {
+			break
+		}
 		if sp == "[*]" {
 			parent = parent.child()
 			continue
@@ -200,6 +203,9 @@ func (tr *Transformer) findParent(path string) (instanceTransformer, error) {
 
 		parent = parent.selectChild(sp)
 	}
+	if parent == nil {
+		return nil, fmt.Errorf("no parent found for path %q", path)
+	}
 
 	return parent, nil
 }
-- 
2.43.0


From 7b6117ab391103ccdc4c832c10d7e860c4d9b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:51 +0000
Subject: [PATCH 08/76] fix: find same place values for property names which
 are not JSONPath identifiers

---
 transform/instance.go    |  7 ++-----
 transform/transformer.go | 23 +++++++++++++++++++++++
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index c2fd22e..1db3c9f 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"strings"
 
-	jsonpath "github.com/GannettDigital/PaesslerAG_jsonpath"
 	"github.com/GannettDigital/jsonparser"
 
 	"github.com/antchfx/xmlquery"
@@ -96,8 +95,7 @@ func (at *arrayTransformer) baseValueJSON(in interface{}, path string, modifier
 	}
 
 	// 2. Look for the same jsonPath in the input and use directly if possible.
-	rawValue, err := jsonpath.Get(path, in)
-	if err == nil && rawValue != nil {
+	if rawValue := lookup(in, path); rawValue != nil {
 		newValue, ok := rawValue.([]interface{})
 		if !ok {
 			newValue = []interface{}{rawValue}
@@ -515,8 +513,7 @@ func (st *scalarTransformer) transformScalarJSON(in interface{}, modifier pathMo
 	}
 
 	// 2. Look for the same jsonPath in the input and use directly if possible.
-	rawValue, err := jsonpath.Get(path, in)
-	if err == nil {
+	if rawValue := lookup(in, path); rawValue != nil {
 		newValue, err := convert(rawValue, st.jsonType)
 		// if there is a conversion error fall through to the default
 		if newValue != nil {
diff --git a/transform/transformer.go b/transform/transformer.go
index f2b29a5..536fc4b 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -254,6 +254,29 @@ func (tr *Transformer) walker(path string, value json.RawMessage) error {
 	return nil
 }
 
+// lookup retrieves the value at the path of an instance. The path is taken apart rather than evaluated as JSONPath since
+// not every property name is a valid JSONPath identifier. It returns nil if there is no such value.
+func lookup(in interface{}, path string) interface{} {
+	splits := strings.Split(strings.Replace(path, "[", ".[", -1), ".")
+	if splits[0] != "$" {
+		return nil
+	}
+	for _, split := range splits[1:] {
+		if !strings.HasPrefix(split, "[") {
+			object, _ := in.(map[string]interface{})
+			in = object[split]
+			continue
+		}
+		array, _ := in.([]interface{})
+		index, err := strconv.Atoi(strings.Trim(split, "[]"))
+		if err != nil || index < 0 || index >= len(array) {
+			return nil
+		}
+		in = array[index]
+	}
+	return in
+}
+
 // saveInCopy returns a copy of in with value saved at the given path. Only the objects and arrays on the path are copied.
 // Anything on the path which isn't an object or array as needed for the path is replaced by one.
 func saveInCopy(in interface{}, path string, value interface{}) (interface{}, error) {
-- 
2.43.0


From 0f0ad8f13ac494217dd250bb8c9db971af250792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:09 +0000
Subject: [PATCH 09/76] fix: a missing or invalid xmlPath does not crash the
 transform

---
 transform/transform.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index d2e95a4..58c0c8e 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -113,15 +113,18 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 		return nil, errors.New("Error converting input to *xmlquery.Node")
 	}
 
-	xmlNode := xmlquery.Find(node, path)
+	if path == "" {
+		return nil, nil
+	}
+	xmlNode, err := xmlquery.QueryAll(node, path)
+	if err != nil {
+		return nil, fmt.Errorf("invalid xmlPath %q: %v", path, err)
+	}
 	if xmlNode == nil {
 		return nil, nil
 	}
 
-	var (
-		value interface{}
-		err   error
-	)
+	var value interface{}
 
 	// num elements that have a child element
 	numElementsWithChild := len(xmlquery.Find(node, path+"[*]"))
-- 
2.43.0


From 56135a62569cbf638c7920c112595d1b47b797cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:13 +0000
Subject: [PATCH 10/76] fix: operations run on XML values which do not convert
 to the type of the field

---
 transform/transform.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transform/transform.go b/transform/transform.go
index 58c0c8e..57679d1 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -135,6 +135,10 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 	// if only numElementsWithoutChild has results then the nodes are leaf nodes and can extract value
 	if numElementsWithChild == 0 && numElementsWithoutChild == 1 {
 		value, err = convert(xmlNode[0].InnerText(), fieldType)
+		if err != nil && len(ti.Operations) > 0 {
+			// As for JSON the operations work with the unconverted value
+			value = xmlNode[0].InnerText()
+		}
 	} else {
 		switch fieldType {
 		case "array", "object":
-- 
2.43.0


From 58ae38397c1b5e94c8f5d42fbdf0c2ed76d68e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:38 +0000
Subject: [PATCH 11/76] fix: text which is no boolean has no value rather than
 the value false

---
 transform/utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transform/utils.go b/transform/utils.go
index d218e91..a124f6c 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -82,7 +82,11 @@ func convertBoolean(raw interface{}) (interface{}, error) {
 		if t == "" {
 			return false, nil
 		}
-		return strconv.ParseBool(t)
+		value, err := strconv.ParseBool(t)
+		if err != nil {
+			return nil, err
+		}
+		return value, nil
 	case int:
 		return t > 0, nil
 	case float32:
-- 
2.43.0


From dfc281f162d8dc1c03471087fc2328b37a143645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:42 +0000
Subject: [PATCH 12/76] fix: XML nodes which do not convert to the type of a
 field are never its value

---
 transform/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform/transform.go b/transform/transform.go
index 57679d1..e6ad1df 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -151,7 +151,7 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 			value = strings.Join(values, " ")
 		default:
 			value, err = convert(xmlNode[0].InnerText(), fieldType)
-			if err != nil {
+			if err != nil && len(ti.Operations) > 0 {
 				value = xmlNode
 			}
 		}
-- 
2.43.0


From aa73824490f4abe62f2ee26114721f18ac8ff42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:57 +0000
Subject: [PATCH 13/76] fix: XML arrays and objects treat a selected childless
 node like any other node

---
 transform/instance.go  | 18 +++++++++++++++---
 transform/transform.go |  5 ++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index 1db3c9f..ac0f7de 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -529,7 +529,9 @@ func (st *scalarTransformer) transformScalarJSON(in interface{}, modifier pathMo
 //
 // 1. Use a Transform if it exists.
 //
-// 2. If transform does not exist or returns no value send back default.
+// 2. An array item without a transform uses the text of the node selected for it by the array.
+//
+// 3. If there is still no value send back default.
 func (st *scalarTransformer) transformScalarXML(in interface{}, modifier pathModifier) (interface{}, error) {
 	path := st.jsonPath
 	if modifier != nil {
@@ -542,12 +544,22 @@ func (st *scalarTransformer) transformScalarXML(in interface{}, modifier pathMod
 		if err != nil {
 			return nil, err
 		}
-		if newValue != nil {
+		// nodes can't be a scalar value
+		if _, ok := newValue.([]*xmlquery.Node); newValue != nil && !ok {
+			return newValue, nil
+		}
+	}
+
+	// 2. An array item without a transform uses the text of the node selected for it by the array.
+	if node, ok := in.(*xmlquery.Node); ok && st.transforms == nil && strings.HasSuffix(st.jsonPath, "[*]") {
+		newValue, err := convert(node.InnerText(), st.jsonType)
+		// if there is a conversion error fall through to the default
+		if err == nil && newValue != nil {
 			return newValue, nil
 		}
 	}
 
-	// 2. If transform does not exist or returns no value send back default
+	// 3. If there is still no value send back default
 	return copyValue(st.defaultValue), nil
 }
 
diff --git a/transform/transform.go b/transform/transform.go
index e6ad1df..1a65bd9 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -132,8 +132,11 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 	// num elements without child
 	numElementsWithoutChild := len(xmlquery.Find(node, path+"[not(*)]"))
 
+	// arrays and objects are built from the nodes, a leaf node could still have attributes
+	useNodes := (fieldType == "array" || fieldType == "object") && len(ti.Operations) == 0
+
 	// if only numElementsWithoutChild has results then the nodes are leaf nodes and can extract value
-	if numElementsWithChild == 0 && numElementsWithoutChild == 1 {
+	if numElementsWithChild == 0 && numElementsWithoutChild == 1 && !useNodes {
 		value, err = convert(xmlNode[0].InnerText(), fieldType)
 		if err != nil && len(ti.Operations) > 0 {
 			// As for JSON the operations work with the unconverted value
-- 
2.43.0


From fffbab086695578e5464bebcb4b629918dd1e1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:16 +0000
Subject: [PATCH 14/76] fix: text next to a $ref keeps its escapes

---
 jsonschema/reference.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index ecee038..2160c84 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -65,10 +65,8 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 					keyPath := destPath
 					keyPath = append(keyPath, string(key))
 					if dataType == jsonparser.String {
-						value, err = json.Marshal(string(value))
-						if err != nil {
-							return fmt.Errorf("failed to marshal string %q to update data with ref %q at path %v key %q: %w", value, ref, refPath, key, err)
-						}
+						// the value is as found in the JSON, so already escaped, but without the quotes
+						value = []byte(`"` + string(value) + `"`)
 					}
 					data, err = jsonparser.Set(data, value, keyPath...)
 					if err != nil {
-- 
2.43.0


From 881baee93a5b82cf37fda1eb54734436374f5926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:22 +0000
Subject: [PATCH 15/76] fix: merge every allOf of a schema without properties
 when not flattening

---
 jsonschema/schema.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index ed62891..04e9fa5 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -132,10 +132,11 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 		// TODO this behavior is not spec compatible, according to the spec it is possible to have multiple allOf instances
 		// that conflict. The legit use case for that is rare but it is in the spec. Rather than merge these the walk
 		// should go through each set of files but this makes the raw walking much more complicated.
+		hasProperties := s.Properties != nil
 		for _, all := range sj.AllOf {
 			// If not flattening, check that the schema also has properties in order to avoid issues with schemas that only
 			// contain oneOf/allOf references.
-			if !flatten && s.Properties != nil {
+			if !flatten && hasProperties {
 				continue
 			}
 			s.Properties = mergeProperties(s.Properties, all.Properties)
-- 
2.43.0


From 992b7e75e50c48038a0596fa71e124f234980941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:28 +0000
Subject: [PATCH 16/76] fix: only http(s) URLs are fetched and failure
 responses are errors

---
 jsonschema/reference.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index 2160c84..caf6d86 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -169,11 +169,15 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 	switch {
 	case sourcePath == "":
 		source = data
-	case strings.HasPrefix(sourcePath, "http"):
+	case strings.HasPrefix(sourcePath, "http://"), strings.HasPrefix(sourcePath, "https://"):
 		resp, err := http.Get(sourcePath)
 		if err != nil {
 			return nil, fmt.Errorf("unable to get reference from %q: %v", sourcePath, err)
 		}
+		defer resp.Body.Close()
+		if resp.StatusCode != http.StatusOK {
+			return nil, fmt.Errorf("unable to get reference from %q: status %q", sourcePath, resp.Status)
+		}
 		source, err = io.ReadAll(resp.Body)
 		if err != nil {
 			return nil, fmt.Errorf("failed to read body from %q: %v", sourcePath, err)
-- 
2.43.0


From 3405cadfe4ec395df935ae12674db0fcb2caa034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:41 +0000
Subject: [PATCH 17/76] fix: a file reference keeps every key of the referenced
 schema

---
 jsonschema/reference.go | 34 +++++++++++++++++++++++++++++++++-
 jsonschema/schema.go    |  3 +++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index caf6d86..669e5a5 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"net/http"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/GannettDigital/jsonparser"
@@ -203,7 +204,7 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 		if err != nil {
 			return nil, fmt.Errorf("failed to process reference file %q: %v", refPath, err)
 		}
-		source, err = json.Marshal(schema)
+		source, err = marshalFull(schema)
 		if err != nil {
 			return nil, fmt.Errorf("failed to marshal schema from file %q: %v", refPath, err)
 		}
@@ -227,3 +228,34 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 
 	return data, nil
 }
+
+// marshalFull marshals the schema including those fields of the schema file which aren't part of an Instance, for example
+// the transform or default of a field.
+func marshalFull(schema *Schema) (json.RawMessage, error) {
+	data, err := json.Marshal(schema)
+	if err != nil {
+		return nil, err
+	}
+	var full, raw map[string]json.RawMessage
+	if err := json.Unmarshal(data, &full); err != nil {
+		return nil, err
+	}
+	if err := json.Unmarshal(schema.raw, &raw); err != nil {
+		return nil, err
+	}
+
+	var missing []string
+	for key := range raw {
+		if _, ok := full[key]; !ok {
+			missing = append(missing, key)
+		}
+	}
+	sort.Strings(missing)
+	for _, key := range missing {
+		data, err = jsonparser.Set(data, raw[key], key)
+		if err != nil {
+			return nil, err
+		}
+	}
+	return data, nil
+}
diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index 04e9fa5..4b1092f 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -61,6 +61,8 @@ type Schema struct {
 	Instance
 
 	Validator Validator `json:"-"`
+
+	raw json.RawMessage // The dereferenced schema, it includes the fields which aren't part of Instance
 }
 
 // Validate will check that the given json is validate according the schema.
@@ -127,6 +129,7 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 		s := Schema{
 			Instance:  sj,
 			Validator: v,
+			raw:       data,
 		}
 
 		// TODO this behavior is not spec compatible, according to the spec it is possible to have multiple allOf instances
-- 
2.43.0


From 85843b39788183ea0ba7c73fd60c1c9888d2dac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:46 +0000
Subject: [PATCH 18/76] fix: Avro timestamps are right for times far from 1970

---
 generate/avro_helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index c3dbdc0..e58b5f3 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -56,7 +56,7 @@ type AvroCFDeleter interface {
 // AvroTime converts the given time.Time into an int64 compatible with an Avro timestamp.millis logical type.
 // http://avro.apache.org/docs/current/spec.html#Date
 func AvroTime(t time.Time) int64 {
-	return t.UnixNano() / (int64(time.Millisecond) / int64(time.Nanosecond))
+	return t.UnixMilli()
 }
 
 // AvroTimeSlice converts the given []time.Time into a []int64 leveraging AvroTime.
@@ -75,7 +75,7 @@ func AvroOptionalTime(t *time.Time) int64 {
 	if t == nil {
 		return 0
 	}
-	return t.UnixNano() / (int64(time.Millisecond) / int64(time.Nanosecond))
+	return t.UnixMilli()
 }
 
 // AvroOptionalTimeSlice converts the given []time.Time into a []int64 leveraging AvroTime
-- 
2.43.0


From a5220c97154215d35cf9185718effce43fc4e110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:19 +0000
Subject: [PATCH 19/76] fix: commas between Avro fields when some fields are
 left out

---
 generate/avro.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index 071a13d..5099e51 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -291,7 +291,7 @@ func writeAvroStruct(cfg avroConfig, name, defaultFields string) astutil.ApplyFu
 
 // writeAvroField will traverse the field extracting an JSON struct tags and using them to determine the name and
 // nullability of the given Avro field. With this information it will then write out the field name.
-// If the field was skipped false is returned.
+// If the field was skipped nothing is written and false is returned.
 func writeAvroField(cfg avroConfig, f *ast.Field, fieldMap map[string]bool) bool {
 	if len(f.Names) == 0 { // An embedded struct
 		t, ok := f.Type.(*ast.Ident)
@@ -304,7 +304,13 @@ func writeAvroField(cfg avroConfig, f *ast.Field, fieldMap map[string]bool) bool
 		newcfg := cfg
 		newcfg.namespace = append(cfg.namespace, t.Name)
 		newcfg.excludeFields = fieldMap
+		buf := &bytes.Buffer{}
+		newcfg.writer = buf
 		writeEmbeddedStructFields(newcfg)
+		if buf.Len() == 0 {
+			return false
+		}
+		buf.WriteTo(cfg.writer)
 		return true
 	}
 	name := f.Names[0].Name
@@ -334,7 +340,7 @@ func writeAvroField(cfg avroConfig, f *ast.Field, fieldMap map[string]bool) bool
 }
 
 // writeAvroFields loops through a list of fields in a struct writing out the Avro values for the fields and adding
-// trailing commas as appropriate for JSON.
+// commas between the written ones as appropriate for JSON.
 func writeAvroFields(cfg avroConfig, list *ast.FieldList) {
 	length := list.NumFields()
 
@@ -345,11 +351,19 @@ func writeAvroFields(cfg avroConfig, list *ast.FieldList) {
 			fieldMap[f.Names[0].Name] = true
 		}
 	}
-	for i, f := range list.List {
-		processed := writeAvroField(cfg, f, fieldMap)
-		if processed && i+1 != length {
+	first := true
+	for _, f := range list.List {
+		buf := &bytes.Buffer{}
+		fieldcfg := cfg
+		fieldcfg.writer = buf
+		if !writeAvroField(fieldcfg, f, fieldMap) {
+			continue
+		}
+		if !first {
 			fmt.Fprint(cfg.writer, ",")
 		}
+		first = false
+		buf.WriteTo(cfg.writer)
 	}
 }
 
-- 
2.43.0


From f184c9ba9af010af88230620b77d565a41ab0665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:26 +0000
Subject: [PATCH 20/76] fix: an array whose only item is an array keeps that
 item whole

---
 transform/utils.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/transform/utils.go b/transform/utils.go
index a124f6c..031d10d 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -54,10 +54,13 @@ func convert(raw interface{}, jsonType string) (interface{}, error) {
 	// for non-array return types being used.
 	// We also want to recursively handle nested arrays at the same time during this extraction
 	if rawArray, ok := raw.([]interface{}); ok && (len(rawArray) == 1 || (len(rawArray) > 0 && jsonType != "array")) {
-		raw = rawArray[0]
-		if nestedArray, ok := raw.([]interface{}); ok && len(nestedArray) > 0 {
+		if nestedArray, ok := rawArray[0].([]interface{}); ok && jsonType == "array" {
+			// an array with a single item which is an array, its items aren't those of the outer array
+			return raw, nil
+		} else if ok && len(nestedArray) > 0 {
 			return convert(nestedArray[0], jsonType)
 		}
+		raw = rawArray[0]
 	} else if ok && len(rawArray) == 0 {
 		return nil, nil
 	}
-- 
2.43.0


From 25bd4d3268bdbb47475bfe553a18733efd1721fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:32 +0000
Subject: [PATCH 21/76] fix: text naming no finite number does not convert to a
 number

---
 transform/utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transform/utils.go b/transform/utils.go
index 031d10d..dc226f7 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -3,6 +3,7 @@ package transform
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"regexp"
 	"strconv"
@@ -117,7 +118,8 @@ func convertNumber(raw interface{}) (interface{}, error) {
 		if value, err := strconv.Atoi(t); err == nil {
 			return value, nil
 		}
-		if value, err := strconv.ParseFloat(t, 64); err == nil {
+		// text like "NaN" and "Inf" is accepted by ParseFloat but is no JSON number
+		if value, err := strconv.ParseFloat(t, 64); err == nil && !math.IsNaN(value) && !math.IsInf(value, 0) {
 			return value, nil
 		}
 		return nil, fmt.Errorf("failed to convert string %q to number", t)
-- 
2.43.0


From 1956c4841fb6dfad3bde9826ab3d59faf91dc764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:33 +0000
Subject: [PATCH 22/76] fix: relative paths work below names with dashes or
 leading digits

---
 transform/transform.go |  2 +-
 transform/utils.go     | 49 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/transform/transform.go b/transform/transform.go
index 1a65bd9..e11b521 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -178,7 +178,7 @@ func (ti *transformInstruction) jsonTransform(in interface{}, fieldType string,
 	if modifier != nil {
 		path = modifier(path)
 	}
-	rawValue, err := jsonpath.Get(path, in)
+	rawValue, err := jsonpath.Get(quoteNames(path), in)
 	if err != nil {
 		return nil, nil
 	}
diff --git a/transform/utils.go b/transform/utils.go
index dc226f7..1b9fee8 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -15,6 +15,9 @@ import (
 
 var indexRe = regexp.MustCompile(`\[([\d]+)\]`)
 
+// dashedNameRe matches names which are no JSONPath identifiers because of dashes or a leading digit.
+var dashedNameRe = regexp.MustCompile(`^[\p{L}\p{N}_]*-[\p{L}\p{N}_-]*$|^\p{N}[\p{L}\p{N}_]*$`)
+
 // Concat will combine any two arbitrary values, though only strings are supported for non-trivial concatenation.
 func concat(a, b interface{}, delimiter string) (interface{}, error) {
 	switch {
@@ -248,3 +251,49 @@ func copyValue(value interface{}) interface{} {
 func replaceIndex(path string) string {
 	return indexRe.ReplaceAllString(path, "[*]")
 }
+
+// quoteNames takes a JSONPath and changes dotted names which JSONPath can't parse because of dashes or leading digits to
+// the bracket notation, ie `$.a-b.c` becomes `$["a-b"].c`. Such names are part of relative paths when the schema uses them.
+func quoteNames(path string) string {
+	var quoted strings.Builder
+	depth := 0
+	var quote rune
+	start := -1 // where the current dotted name starts
+	flush := func(end int) {
+		if start < 0 {
+			return
+		}
+		if name := path[start:end]; dashedNameRe.MatchString(name) {
+			quoted.WriteString(`["` + name + `"]`)
+		} else {
+			quoted.WriteString("." + name)
+		}
+		start = -1
+	}
+	for i, c := range path {
+		switch {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '"' || c == '\'':
+			quote = c
+		case c == '[' || c == '(':
+			if depth == 0 {
+				flush(i)
+			}
+			depth++
+		case c == ']' || c == ')':
+			depth--
+		case c == '.' && depth == 0:
+			flush(i)
+			start = i + 1
+			continue
+		}
+		if start < 0 {
+			quoted.WriteRune(c)
+		}
+	}
+	flush(len(path))
+	return quoted.String()
+}
-- 
2.43.0


From 3a9fab7dd3ece3c0a8f552d3935d5242b8e7f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:20 +0000
Subject: [PATCH 23/76] fix: an invalid transform of an object is an error
 rather than a crash

---
 transform/transformer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transform/transformer.go b/transform/transformer.go
index 536fc4b..60b5614 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -221,9 +221,9 @@ func (tr *Transformer) walker(path string, value json.RawMessage) error {
 	var iTransformer instanceTransformer
 	switch instanceType {
 	case "object":
-		properties, _, _, err := jsonparser.Get(value, "properties")
-		if err != nil {
-			return fmt.Errorf("failed to extract properties: %v", err)
+		properties, _, _, propErr := jsonparser.Get(value, "properties")
+		if propErr != nil {
+			return fmt.Errorf("failed to extract properties: %v", propErr)
 		}
 		var propertiesMap map[string]json.RawMessage
 		if err := json.Unmarshal(properties, &propertiesMap); err != nil {
-- 
2.43.0


From 9b83ebe440d6187dced7ae5527a8cb962936ed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:29 +0000
Subject: [PATCH 24/76] fix: whole numbers made by operations convert like any
 other number

---
 transform/utils.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transform/utils.go b/transform/utils.go
index 1b9fee8..42fb13a 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -96,6 +96,8 @@ func convertBoolean(raw interface{}) (interface{}, error) {
 		return value, nil
 	case int:
 		return t > 0, nil
+	case int64:
+		return t > 0, nil
 	case float32:
 		return t > 0, nil
 	case float64:
@@ -126,7 +128,7 @@ func convertNumber(raw interface{}) (interface{}, error) {
 			return value, nil
 		}
 		return nil, fmt.Errorf("failed to convert string %q to number", t)
-	case int, float32, float64:
+	case int, int64, float32, float64:
 		return raw, nil
 	default:
 		return nil, fmt.Errorf("unable to convert type %q to a number", reflect.TypeOf(raw))
@@ -152,6 +154,8 @@ func convertDateTime(raw interface{}) (interface{}, error) {
 		return tParsed, nil
 	case int:
 		return time.Unix(int64(t), 0).UTC(), nil
+	case int64:
+		return time.Unix(t, 0).UTC(), nil
 	case float64:
 		return time.Unix(int64(t), 0).UTC(), nil
 	default:
@@ -167,6 +171,8 @@ func convertString(raw interface{}) (interface{}, error) {
 		return raw, nil
 	case int:
 		return strconv.Itoa(t), nil
+	case int64:
+		return strconv.FormatInt(t, 10), nil
 	case uint64:
 		return strconv.FormatUint(t, 10), nil
 	case float32:
-- 
2.43.0


From dab87ba155b3b4920f7ff4a78cec6ec3f61ccd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:31 +0000
Subject: [PATCH 25/76] fix: XML selections by paths which no predicate can be
 added to

---
 transform/transform.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index e11b521..aafc1be 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -126,11 +126,16 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 
 	var value interface{}
 
-	// num elements that have a child element
-	numElementsWithChild := len(xmlquery.Find(node, path+"[*]"))
+	// num elements that have a child element, asking the nodes as the path may be one that a predicate can't be added to
+	var numElementsWithChild int
+	for _, found := range xmlNode {
+		if xmlquery.FindOne(found, "*") != nil {
+			numElementsWithChild++
+		}
+	}
 
 	// num elements without child
-	numElementsWithoutChild := len(xmlquery.Find(node, path+"[not(*)]"))
+	numElementsWithoutChild := len(xmlNode) - numElementsWithChild
 
 	// arrays and objects are built from the nodes, a leaf node could still have attributes
 	useNodes := (fieldType == "array" || fieldType == "object") && len(ti.Operations) == 0
-- 
2.43.0


From 3940c7fb0fcf2cd4fc3ea00e78fefc794f82f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:23 +0000
Subject: [PATCH 26/76] fix: array items made by operations on XML convert to
 the type of the items

---
 transform/instance.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transform/instance.go b/transform/instance.go
index ac0f7de..45e870b 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -232,6 +232,12 @@ func (at *arrayTransformer) arrayTransformXML(in interface{}, modifier pathModif
 			if err != nil {
 				return nil, err
 			}
+		} else if st, ok := at.childTransformer.(*scalarTransformer); ok && st.transforms == nil {
+			// a value made by operations or from the default
+			childValue, err = convert(childValue, st.jsonType)
+			if err != nil || childValue == nil {
+				childValue = copyValue(st.defaultValue)
+			}
 		}
 		if childValue != nil {
 			newArray = append(newArray, childValue)
-- 
2.43.0


From 88dfbab2cbdbd43f4fe9e6e38567698c61401302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:51 +0000
Subject: [PATCH 27/76] fix: attributes selected by an array or object can be
 read from

---
 transform/transform.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index aafc1be..d510d93 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -116,6 +116,12 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 	if path == "" {
 		return nil, nil
 	}
+	if node.Type == xmlquery.AttributeNode {
+		// xmlquery panics when it starts from an attribute, an element with the same text and parent stands for it
+		element := *node
+		element.Type = xmlquery.ElementNode
+		node = &element
+	}
 	xmlNode, err := xmlquery.QueryAll(node, path)
 	if err != nil {
 		return nil, fmt.Errorf("invalid xmlPath %q: %v", path, err)
@@ -129,8 +135,11 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 	// num elements that have a child element, asking the nodes as the path may be one that a predicate can't be added to
 	var numElementsWithChild int
 	for _, found := range xmlNode {
-		if xmlquery.FindOne(found, "*") != nil {
-			numElementsWithChild++
+		for child := found.FirstChild; child != nil; child = child.NextSibling {
+			if child.Type == xmlquery.ElementNode {
+				numElementsWithChild++
+				break
+			}
 		}
 	}
 
-- 
2.43.0


From 69327494098faf4a1b8720779dde80502cfe9132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:42 +0000
Subject: [PATCH 28/76] fix: properties with an empty name are an error rather
 than a crash

---
 transform/transformer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transform/transformer.go b/transform/transformer.go
index 60b5614..124845a 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -189,6 +189,9 @@ func (tr *Transformer) findParent(path string) (instanceTransformer, error) {
 		// TODO this will probably choke on a root level array
 		return nil, errors.New("paths must start with '$'")
 	}
+	if len(splits) < 2 { // the path of a property with an empty name is the path of the root
+		return nil, fmt.Errorf("no parent found for path %q", path)
+	}
 	parentSplits := splits[1 : len(splits)-1]
 
 	parent := tr.root
-- 
2.43.0


From a7639c9899e37838b97516586dd1e73569f18934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:19 +0000
Subject: [PATCH 29/76] fix: null as a transform instruction is an error rather
 than a crash

---
 transform/transform.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transform/transform.go b/transform/transform.go
index d510d93..9c02e41 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -258,6 +258,12 @@ func (tis *transformInstructions) UnmarshalJSON(data []byte) error {
 		return fmt.Errorf("failed to extract transform from JSON: %v", err)
 	}
 
+	for _, instruction := range jtis.From {
+		if instruction == nil {
+			return errors.New("null is no transform instruction")
+		}
+	}
+
 	tis.From = jtis.From
 	tis.MethodOptions = jtis.MethodOptions
 
-- 
2.43.0


From 77c7a96e843b7d52e5991fd561246a7552997286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:55 +0000
Subject: [PATCH 30/76] fix: circular references within a schema file are an
 error

---
 jsonschema/reference.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index 669e5a5..abf8a7c 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"net/http"
 	"path/filepath"
+	"slices"
 	"sort"
 	"strings"
 
@@ -33,6 +34,10 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 			return nil, fmt.Errorf("failed to retrieve ref at path %v: %v", refPath, err)
 		}
 
+		if isCircular(ref, refPath) {
+			return nil, fmt.Errorf("circular ref %q at path %v", ref, refPath)
+		}
+
 		resolved, err := resolveRef(ref, data, schemaPath, oneOfType, flatten)
 		if err != nil {
 			return nil, fmt.Errorf("failed to resolve ref %q at path %v: %v", ref, refPath, err)
@@ -96,6 +101,20 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 	return data, nil
 }
 
+// isCircular reports whether a reference is part of what it references, expanding it would never end. As all references of
+// a document are expanded every circle of references within a document leads to such a reference.
+func isCircular(ref string, refPath []string) bool {
+	if !strings.HasPrefix(ref, "#") {
+		return false
+	}
+	target := strings.Trim(ref, "#/")
+	if target == "" {
+		return true
+	}
+	targetPath, destPath := strings.Split(target, "/"), refPath[:len(refPath)-1]
+	return len(targetPath) <= len(destPath) && slices.Equal(targetPath, destPath[:len(targetPath)])
+}
+
 // findRefs searches through the given JSON finding the location in the structure of all refKeys.
 func findRefs(data json.RawMessage) ([][]string, error) {
 	refs := make([][]string, 0)
@@ -151,7 +170,7 @@ func findRefs(data json.RawMessage) ([][]string, error) {
 // For files schemaPath is used to resolve relative references then SchemaFromFile is used to build the file.
 // oneOfType is used by schemaFromFile to select a specific oneOfType.
 func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType string, flatten bool) (json.RawMessage, error) {
-	// TODO there is nothing here to stop circular references other than self references
+	// TODO there is nothing here to stop circular references between files
 	var sourcePath, target string
 	splits := strings.SplitN(ref, "#", 2)
 	if len(splits) != 2 {
-- 
2.43.0


From 9317ff49a236c0b325eb999889b88aa4a239becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 31/76] fix: schemas which the validation library panics on are
 an error

---
 jsonschema/validator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsonschema/validator.go b/jsonschema/validator.go
index 6188a86..5f3343e 100644
--- a/jsonschema/validator.go
+++ b/jsonschema/validator.go
@@ -47,7 +47,13 @@ func loadSchema(schemasDir string) (*gojsonschema.Schema, error) {
 	}
 	schemaRef := filePrefix + path
 
-	return validatorCache.Load(schemaRef, func() (*gojsonschema.Schema, error) {
+	return validatorCache.Load(schemaRef, func() (schema *gojsonschema.Schema, err error) {
+		// gojsonschema panics for some keywords with values of the wrong type
+		defer func() {
+			if r := recover(); r != nil {
+				schema, err = nil, fmt.Errorf("invalid schema %q: %v", schemaRef, r)
+			}
+		}()
 		return gojsonschema.NewSchema(gojsonschema.NewReferenceLoader(schemaRef))
 	})
 }
-- 
2.43.0


From 95df84b03f0820bfc1dd419db92d118d86a3dfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:12 +0000
Subject: [PATCH 32/76] fix: references within documents from a URL are
 relative to that URL

---
 jsonschema/reference.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index abf8a7c..163fcce 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"net/url"
 	"path/filepath"
 	"slices"
 	"sort"
@@ -165,6 +166,10 @@ func findRefs(data json.RawMessage) ([][]string, error) {
 	return refs, nil
 }
 
+func isURL(path string) bool {
+	return strings.HasPrefix(path, "http://") || strings.HasPrefix(path, "https://")
+}
+
 // resolveRef looks at the reference value passed in as ref and resolves it to a set of JSON.
 // The reference may refer to a definition within the given data or a file reference.
 // For files schemaPath is used to resolve relative references then SchemaFromFile is used to build the file.
@@ -184,12 +189,25 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 		target = strings.Trim(splits[1], "/")
 	}
 
+	if isURL(schemaPath) && sourcePath != "" {
+		// References in a document from a URL are relative to that URL
+		base, err := url.Parse(schemaPath)
+		if err != nil {
+			return nil, fmt.Errorf("invalid URL %q: %v", schemaPath, err)
+		}
+		refURL, err := base.Parse(sourcePath)
+		if err != nil {
+			return nil, fmt.Errorf("invalid reference URL %q: %v", sourcePath, err)
+		}
+		sourcePath = refURL.String()
+	}
+
 	var source json.RawMessage
 
 	switch {
-	case sourcePath == "":
+	case sourcePath == "", isURL(sourcePath) && sourcePath == schemaPath:
 		source = data
-	case strings.HasPrefix(sourcePath, "http://"), strings.HasPrefix(sourcePath, "https://"):
+	case isURL(sourcePath):
 		resp, err := http.Get(sourcePath)
 		if err != nil {
 			return nil, fmt.Errorf("unable to get reference from %q: %v", sourcePath, err)
@@ -202,6 +220,10 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 		if err != nil {
 			return nil, fmt.Errorf("failed to read body from %q: %v", sourcePath, err)
 		}
+		source, err = dereference(sourcePath, source, oneOfType, flatten)
+		if err != nil {
+			return nil, fmt.Errorf("failed to process references of %q: %v", sourcePath, err)
+		}
 		// TODO since SchemaFromFile does the current allOf/oneOf processing this data does not go through that processing
 	default: // Default to assuming it is a file reference
 		// TODO this could be rather inefficient if there are multiple references to the same sourcePath but a different
-- 
2.43.0


From f593ad1bdbba2257e8ea7da7dbd3f7d4e5b63962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:09 +0000
Subject: [PATCH 33/76] fix: oneOf alternatives without a name are not selected
 by an empty type

---
 jsonschema/schema.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index 4b1092f..0807c0e 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -150,8 +150,9 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 		}
 
 		for _, one := range sj.OneOf {
+			// An alternative which isn't a reference has no name, filepath.Base would give "." for it
 			subName := strings.Split(filepath.Base(one.FromRef), ".")[0]
-			if subName != oneOfType {
+			if one.FromRef == "" || subName != oneOfType {
 				continue
 			}
 
-- 
2.43.0


From 642259f097afea752c73905e8343016761d7d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 34/76] fix: type lists without a type or with anything but
 names are an error

---
 jsonschema/schema.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index 0807c0e..16bafdc 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -222,6 +222,7 @@ func FieldType(data []byte) (string, bool, error) {
 		var jsonType string
 		_, aErr := jsonparser.ArrayEach(value, func(avalue []byte, adataType jsonparser.ValueType, aoffset int, aerr error) {
 			if adataType != jsonparser.String {
+				err = fmt.Errorf("type names must be strings: %s", value)
 				return
 			}
 			switch string(avalue) {
@@ -240,6 +241,9 @@ func FieldType(data []byte) (string, bool, error) {
 		if err != nil {
 			return "", false, fmt.Errorf("error iterating over type array: %w", err)
 		}
+		if jsonType == "" && !nullable {
+			return "", false, fmt.Errorf("no type found in type array: [%s]", value)
+		}
 		return jsonType, nullable, nil
 	} else {
 		return "", false, fmt.Errorf("unknown schema type: %s", dataType)
-- 
2.43.0


From fabfff3367a05da288ce272963cb3b20f19c19db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:39 +0000
Subject: [PATCH 35/76] fix: references with whitespace before the next key are
 deleted cleanly

---
 jsonschema/reference.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index 163fcce..f33aefe 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -1,6 +1,7 @@
 package jsonschema
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -29,6 +30,15 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 		return nil, fmt.Errorf("failed when finding refs: %v", err)
 	}
 
+	if len(refs) > 0 {
+		// Deleting a reference is not reliable with any whitespace around it
+		var compact bytes.Buffer
+		if err := json.Compact(&compact, data); err != nil {
+			return nil, fmt.Errorf("failed to parse schema: %v", err)
+		}
+		data = compact.Bytes()
+	}
+
 	for _, refPath := range refs {
 		ref, err := jsonparser.GetString(data, refPath...)
 		if err != nil {
-- 
2.43.0


From db66bcb643d108f8df4ef1cb14bb1c5f7a701b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:44 +0000
Subject: [PATCH 36/76] fix: a file reference keeps every key of the
 compositions of the referenced schema

---
 jsonschema/reference.go | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index f33aefe..d110825 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -287,22 +287,50 @@ func marshalFull(schema *Schema) (json.RawMessage, error) {
 	if err != nil {
 		return nil, err
 	}
+	return addMissing(data, schema.raw)
+}
+
+// addMissing adds the fields of the source of a marshalled Instance which aren't part of an Instance.
+func addMissing(data, source json.RawMessage) (json.RawMessage, error) {
 	var full, raw map[string]json.RawMessage
 	if err := json.Unmarshal(data, &full); err != nil {
 		return nil, err
 	}
-	if err := json.Unmarshal(schema.raw, &raw); err != nil {
+	if err := json.Unmarshal(source, &raw); err != nil {
 		return nil, err
 	}
 
 	var missing []string
-	for key := range raw {
-		if _, ok := full[key]; !ok {
+	for key, value := range raw {
+		marshalled, ok := full[key]
+		switch {
+		case !ok:
+			missing = append(missing, key)
+		case key == "allOf" || key == "anyOf" || key == "oneOf":
+			var fulls, raws []json.RawMessage
+			if err := json.Unmarshal(marshalled, &fulls); err != nil {
+				return nil, err
+			}
+			if err := json.Unmarshal(value, &raws); err != nil {
+				return nil, err
+			}
+			for i := range fulls {
+				var err error
+				if fulls[i], err = addMissing(fulls[i], raws[i]); err != nil {
+					return nil, err
+				}
+			}
+			list, err := json.Marshal(fulls)
+			if err != nil {
+				return nil, err
+			}
+			raw[key] = list
 			missing = append(missing, key)
 		}
 	}
 	sort.Strings(missing)
 	for _, key := range missing {
+		var err error
 		data, err = jsonparser.Set(data, raw[key], key)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From eb0b9c6d9fbf557bd7683b9d0400513e5053a1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 37/76] fix: documents followed by anything but space do not
 validate

---
 jsonschema/validator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonschema/validator.go b/jsonschema/validator.go
index 5f3343e..3f7ea2f 100644
--- a/jsonschema/validator.go
+++ b/jsonschema/validator.go
@@ -60,6 +60,12 @@ func loadSchema(schemasDir string) (*gojsonschema.Schema, error) {
 
 // Validate will check that the given json is validate according the schema loaded by the Validator.
 func (v *validator) Validate(raw json.RawMessage) (bool, error) {
+	// gojsonschema ignores anything which follows the first JSON value
+	var document json.RawMessage
+	if err := json.Unmarshal(raw, &document); err != nil {
+		return false, err
+	}
+
 	l := gojsonschema.NewBytesLoader(raw)
 
 	result, err := v.schema.Validate(l)
-- 
2.43.0


From 61bbd37b3b61c0aa2fcd3f4408f99bdaae4849f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 38/76] fix: a failed load does not leave a validator of the
 faulty content behind

---
 jsonschema/schema.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index 16bafdc..fc3d95f 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -107,9 +107,8 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 		if err != nil {
 			return nil, fmt.Errorf("failed to read schema file %q: %v", schemaPath, err)
 		}
-		v, err := NewValidator(schemaPath)
-		if err != nil {
-			return nil, fmt.Errorf("failed to initialize schema validator: %v", err)
+		if !json.Valid(data) {
+			return nil, fmt.Errorf("schema file %q is not valid JSON", schemaPath)
 		}
 
 		// dereferencing during walking is more efficient but more complicated so all dereferencing for a file is done immediately
@@ -126,6 +125,12 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 			return nil, fmt.Errorf("failed to Unmarshal Schema: %v", err)
 		}
 
+		// The validator is cached as well, so it is only made of files for which nothing else fails
+		v, err := NewValidator(schemaPath)
+		if err != nil {
+			return nil, fmt.Errorf("failed to initialize schema validator: %v", err)
+		}
+
 		s := Schema{
 			Instance:  sj,
 			Validator: v,
-- 
2.43.0


From dea6b9510189ba75022b52b6c0f45fa1c009c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 39/76] fix: circular references between documents are an error
 rather than a deadlock

---
 jsonschema/reference.go | 126 +++++++++++++++++++++++++++++-----------
 jsonschema/schema.go    |   3 +
 2 files changed, 95 insertions(+), 34 deletions(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index d110825..c7618b7 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"net/http"
 	"net/url"
+	"os"
 	"path/filepath"
 	"slices"
 	"sort"
@@ -24,7 +25,8 @@ const (
 // dereference parses JSON and replaces all $ref with the referenced data.
 // If $ref refers to a file schemaFromFile is called and in this way references in referenced files are handled
 // recursively along with other processing done by schemaFromFile.
-func dereference(schemaPath string, data json.RawMessage, oneOfType string, flatten bool) (json.RawMessage, error) {
+// The parents are the URLs of the documents whose references have led to this document from a URL.
+func dereference(schemaPath string, data json.RawMessage, oneOfType string, flatten bool, parents ...string) (json.RawMessage, error) {
 	refs, err := findRefs(data)
 	if err != nil {
 		return nil, fmt.Errorf("failed when finding refs: %v", err)
@@ -45,11 +47,11 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 			return nil, fmt.Errorf("failed to retrieve ref at path %v: %v", refPath, err)
 		}
 
-		if isCircular(ref, refPath) {
+		if isCircular(ref, refPath, schemaPath) {
 			return nil, fmt.Errorf("circular ref %q at path %v", ref, refPath)
 		}
 
-		resolved, err := resolveRef(ref, data, schemaPath, oneOfType, flatten)
+		resolved, err := resolveRef(ref, data, schemaPath, oneOfType, flatten, parents)
 		if err != nil {
 			return nil, fmt.Errorf("failed to resolve ref %q at path %v: %v", ref, refPath, err)
 		}
@@ -106,7 +108,7 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 		return nil, fmt.Errorf("failed checking for remaining refs: %v", err)
 	}
 	if len(remaining) > 0 {
-		return dereference(schemaPath, data, oneOfType, flatten)
+		return dereference(schemaPath, data, oneOfType, flatten, parents...)
 	}
 
 	return data, nil
@@ -114,11 +116,15 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 
 // isCircular reports whether a reference is part of what it references, expanding it would never end. As all references of
 // a document are expanded every circle of references within a document leads to such a reference.
-func isCircular(ref string, refPath []string) bool {
-	if !strings.HasPrefix(ref, "#") {
-		return false
+func isCircular(ref string, refPath []string, schemaPath string) bool {
+	sourcePath, target, _ := strings.Cut(ref, "#")
+	if sourcePath != "" {
+		var err error
+		if sourcePath, err = resolveSource(sourcePath, schemaPath); err != nil || sourcePath != schemaPath {
+			return false
+		}
 	}
-	target := strings.Trim(ref, "#/")
+	target = strings.Trim(target, "#/")
 	if target == "" {
 		return true
 	}
@@ -126,6 +132,45 @@ func isCircular(ref string, refPath []string) bool {
 	return len(targetPath) <= len(destPath) && slices.Equal(targetPath, destPath[:len(targetPath)])
 }
 
+// checkCircularFiles reports an error if files refer to each other in a circle, loading such a file would never end.
+// The references of files which are known not to lead to a circle are not followed again.
+func checkCircularFiles(schemaPath string, data json.RawMessage, parents []string, checked map[string]bool) error {
+	refs, err := findRefs(data)
+	if err != nil {
+		return fmt.Errorf("failed when finding refs in %q: %v", schemaPath, err)
+	}
+
+	parents = append(parents, schemaPath)
+	for _, refPath := range refs {
+		ref, err := jsonparser.GetString(data, refPath...)
+		if err != nil {
+			return fmt.Errorf("failed to retrieve ref at path %v of %q: %v", refPath, schemaPath, err)
+		}
+		sourcePath, _, _ := strings.Cut(ref, "#")
+		if sourcePath == "" || isURL(sourcePath) {
+			continue
+		}
+		if sourcePath, err = resolveSource(sourcePath, schemaPath); err != nil {
+			return err
+		}
+		if sourcePath == schemaPath || checked[sourcePath] {
+			continue
+		}
+		if slices.Contains(parents, sourcePath) {
+			return fmt.Errorf("circular ref %q in %q", ref, schemaPath)
+		}
+		source, err := os.ReadFile(sourcePath)
+		if err != nil || !json.Valid(source) {
+			continue // loading that file reports the error
+		}
+		if err := checkCircularFiles(sourcePath, source, parents, checked); err != nil {
+			return err
+		}
+	}
+	checked[schemaPath] = true
+	return nil
+}
+
 // findRefs searches through the given JSON finding the location in the structure of all refKeys.
 func findRefs(data json.RawMessage) ([][]string, error) {
 	refs := make([][]string, 0)
@@ -180,12 +225,35 @@ func isURL(path string) bool {
 	return strings.HasPrefix(path, "http://") || strings.HasPrefix(path, "https://")
 }
 
+// resolveSource resolves the URL or file path of a reference relative to the document which has it.
+func resolveSource(sourcePath, schemaPath string) (string, error) {
+	if isURL(schemaPath) {
+		// References in a document from a URL are relative to that URL
+		base, err := url.Parse(schemaPath)
+		if err != nil {
+			return "", fmt.Errorf("invalid URL %q: %v", schemaPath, err)
+		}
+		refURL, err := base.Parse(sourcePath)
+		if err != nil {
+			return "", fmt.Errorf("invalid reference URL %q: %v", sourcePath, err)
+		}
+		return refURL.String(), nil
+	}
+	if isURL(sourcePath) {
+		return sourcePath, nil
+	}
+	refPath, err := filepath.Abs(filepath.Join(filepath.Dir(schemaPath), sourcePath))
+	if err != nil {
+		return "", fmt.Errorf("unable to expand reference filepath %q: %v", sourcePath, err)
+	}
+	return refPath, nil
+}
+
 // resolveRef looks at the reference value passed in as ref and resolves it to a set of JSON.
 // The reference may refer to a definition within the given data or a file reference.
 // For files schemaPath is used to resolve relative references then SchemaFromFile is used to build the file.
 // oneOfType is used by schemaFromFile to select a specific oneOfType.
-func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType string, flatten bool) (json.RawMessage, error) {
-	// TODO there is nothing here to stop circular references between files
+func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType string, flatten bool, parents []string) (json.RawMessage, error) {
 	var sourcePath, target string
 	splits := strings.SplitN(ref, "#", 2)
 	if len(splits) != 2 {
@@ -199,25 +267,22 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 		target = strings.Trim(splits[1], "/")
 	}
 
-	if isURL(schemaPath) && sourcePath != "" {
-		// References in a document from a URL are relative to that URL
-		base, err := url.Parse(schemaPath)
-		if err != nil {
-			return nil, fmt.Errorf("invalid URL %q: %v", schemaPath, err)
-		}
-		refURL, err := base.Parse(sourcePath)
-		if err != nil {
-			return nil, fmt.Errorf("invalid reference URL %q: %v", sourcePath, err)
+	if sourcePath != "" {
+		var err error
+		if sourcePath, err = resolveSource(sourcePath, schemaPath); err != nil {
+			return nil, err
 		}
-		sourcePath = refURL.String()
 	}
 
 	var source json.RawMessage
 
 	switch {
-	case sourcePath == "", isURL(sourcePath) && sourcePath == schemaPath:
+	case sourcePath == "", sourcePath == schemaPath:
 		source = data
 	case isURL(sourcePath):
+		if slices.Contains(parents, sourcePath) {
+			return nil, fmt.Errorf("circular ref %q in %q", ref, schemaPath)
+		}
 		resp, err := http.Get(sourcePath)
 		if err != nil {
 			return nil, fmt.Errorf("unable to get reference from %q: %v", sourcePath, err)
@@ -230,7 +295,7 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 		if err != nil {
 			return nil, fmt.Errorf("failed to read body from %q: %v", sourcePath, err)
 		}
-		source, err = dereference(sourcePath, source, oneOfType, flatten)
+		source, err = dereference(sourcePath, source, oneOfType, flatten, append(parents, sourcePath)...)
 		if err != nil {
 			return nil, fmt.Errorf("failed to process references of %q: %v", sourcePath, err)
 		}
@@ -238,26 +303,19 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 	default: // Default to assuming it is a file reference
 		// TODO this could be rather inefficient if there are multiple references to the same sourcePath but a different
 		// target as it will currently reprocess the source file everytime
-		refPath, err := filepath.Abs(filepath.Join(filepath.Dir(schemaPath), sourcePath))
-		if err != nil {
-			return nil, fmt.Errorf("unable to expand reference filepath %q: %v", sourcePath, err)
-		}
-		if schemaPath == refPath {
-			source = data
-			break
-		}
 		var schema *Schema
+		var err error
 		if flatten {
-			schema, err = SchemaFromFile(refPath, oneOfType)
+			schema, err = SchemaFromFile(sourcePath, oneOfType)
 		} else {
-			schema, err = SchemaFromFileNoFlatten(refPath, oneOfType)
+			schema, err = SchemaFromFileNoFlatten(sourcePath, oneOfType)
 		}
 		if err != nil {
-			return nil, fmt.Errorf("failed to process reference file %q: %v", refPath, err)
+			return nil, fmt.Errorf("failed to process reference file %q: %v", sourcePath, err)
 		}
 		source, err = marshalFull(schema)
 		if err != nil {
-			return nil, fmt.Errorf("failed to marshal schema from file %q: %v", refPath, err)
+			return nil, fmt.Errorf("failed to marshal schema from file %q: %v", sourcePath, err)
 		}
 	}
 
diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index fc3d95f..ddbc129 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -110,6 +110,9 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 		if !json.Valid(data) {
 			return nil, fmt.Errorf("schema file %q is not valid JSON", schemaPath)
 		}
+		if err := checkCircularFiles(schemaPath, data, nil, make(map[string]bool)); err != nil {
+			return nil, err
+		}
 
 		// dereferencing during walking is more efficient but more complicated so all dereferencing for a file is done immediately
 		data, err = dereference(schemaPath, data, oneOfType, flatten)
-- 
2.43.0


From fec103e2f773289a404279dcafe30fcd801f7141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:54 +0000
Subject: [PATCH 40/76] fix: caches of an interface type can hold nil

---
 jsonschema/cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonschema/cache.go b/jsonschema/cache.go
index 1277e92..d198817 100644
--- a/jsonschema/cache.go
+++ b/jsonschema/cache.go
@@ -37,6 +37,11 @@ func (c *Cache[T]) Load(key string, builder func() (T, error)) (T, error) {
 		var zero T
 		return zero, err
 	}
+	if vCache == nil {
+		// The nil value of an interface type.
+		var zero T
+		return zero, nil
+	}
 	vReal, ok := vCache.(T)
 	if !ok {
 		return vReal, fmt.Errorf("invalid cached value; want %T, got %T", vReal, vCache)
-- 
2.43.0


From 6b19ddb8fb15e6ca808a3d2398c5c80345448f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:31 +0000
Subject: [PATCH 41/76] fix: schemas are remembered apart from those of files
 with a | in their names

---
 jsonschema/schema.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index ddbc129..ef00829 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -101,7 +101,8 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 	if err != nil {
 		return nil, err
 	}
-	schemaKey := schemaPath + "|" + oneOfType + "|" + strconv.FormatBool(flatten)
+	// Neither paths nor the flag contain a NUL, so different loads have different keys.
+	schemaKey := strconv.FormatBool(flatten) + "\x00" + schemaPath + "\x00" + oneOfType
 	return schemaCache.Load(schemaKey, func() (*Schema, error) {
 		data, err := os.ReadFile(schemaPath)
 		if err != nil {
-- 
2.43.0


From 0112b205daea0110b81711ec5300902c76e75907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:22 +0000
Subject: [PATCH 42/76] fix: schemas can be validated with whatever characters
 their path has

---
 jsonschema/validator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonschema/validator.go b/jsonschema/validator.go
index 3f7ea2f..21ae924 100644
--- a/jsonschema/validator.go
+++ b/jsonschema/validator.go
@@ -3,9 +3,11 @@ package jsonschema
 import (
 	"encoding/json"
 	"fmt"
+	"net/url"
 	"path/filepath"
 	"runtime"
 	"sort"
+	"strings"
 
 	"github.com/GannettDigital/gojsonschema"
 )
@@ -45,7 +47,8 @@ func loadSchema(schemasDir string) (*gojsonschema.Schema, error) {
 		// http://blogs.msdn.com/b/ie/archive/2006/12/06/file-uris-in-windows.aspx
 		filePrefix += "/"
 	}
-	schemaRef := filePrefix + path
+	// gojsonschema parses the URL and unescapes its path like a query, a path may have any characters
+	schemaRef := filePrefix + strings.ReplaceAll(url.QueryEscape(path), "%2F", "/")
 
 	return validatorCache.Load(schemaRef, func() (schema *gojsonschema.Schema, err error) {
 		// gojsonschema panics for some keywords with values of the wrong type
-- 
2.43.0


From 4730728402334e4a6c04fea72f08cd678e0cafa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 43/76] fix: quote descriptions in struct tags

A description with a double quote, a backslash or a backquote made a
broken struct tag or Go source which could not be formatted.
---
 generate/struct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generate/struct.go b/generate/struct.go
index c0adea1..cc898a8 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/GannettDigital/jstransform/jsonschema"
@@ -42,7 +43,9 @@ func (ef *extractedField) write(w io.Writer, prefix string, required, descriptio
 	jsonTag := fmt.Sprintf(`json:"%s%s"`, ef.jsonName, omitempty)
 	var description string
 	if descriptionAsStructTag && ef.description != "" {
-		description = fmt.Sprintf(`description:"%s"`, strings.Split(ef.description, "\n")[0])
+		// The tag is written between backquotes, so the description can't contain those.
+		quoted := strconv.Quote(strings.Split(ef.description, "\n")[0])
+		description = "description:" + strings.ReplaceAll(quoted, "`", `\x60`)
 	}
 	structTag := fmt.Sprintf("`%s`\n", strings.Trim(strings.Join([]string{jsonTag, description}, " "), " "))
 
-- 
2.43.0


From e27d9439f3cb3d9772cd1b284c13f6e0b6c49460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 44/76] fix: no comment for fields which are left out

The description of a field which is not part of the Go struct was written
as a comment of the field following it.
---
 generate/struct.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/generate/struct.go b/generate/struct.go
index cc898a8..41406b7 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -49,14 +49,6 @@ func (ef *extractedField) write(w io.Writer, prefix string, required, descriptio
 	}
 	structTag := fmt.Sprintf("`%s`\n", strings.Trim(strings.Join([]string{jsonTag, description}, " "), " "))
 
-	if !descriptionAsStructTag && ef.description != "" {
-		for _, line := range strings.Split(ef.description, "\n") {
-			if _, err := w.Write([]byte(fmt.Sprintf("// %s\n", line))); err != nil {
-				return err
-			}
-		}
-	}
-
 	fieldGoType := ef.goType(required, pointers, nestedStructs)
 	if excludeNested[fieldGoType] || fieldGoType == "[]" {
 		// Sometimes the schema has only GraphQL hydration fields at a particular level.
@@ -65,6 +57,15 @@ func (ef *extractedField) write(w io.Writer, prefix string, required, descriptio
 		// Otherwise the model would contain the fields only generated by resolvers.
 		return nil
 	}
+
+	if !descriptionAsStructTag && ef.description != "" {
+		for _, line := range strings.Split(ef.description, "\n") {
+			if _, err := w.Write([]byte(fmt.Sprintf("// %s\n", line))); err != nil {
+				return err
+			}
+		}
+	}
+
 	if ef.jsonType != "object" || len(ef.fields) == 0 {
 		_, err := w.Write([]byte(fmt.Sprintf("%s%s\t%s\t%s", prefix, ef.name, fieldGoType, structTag)))
 		return err
-- 
2.43.0


From 3a6aa5287759d7cdb0c358236a2240edeba5299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:38 +0000
Subject: [PATCH 45/76] fix: nullability of array items

Nullable items lost their null while nullable arrays had items which
could be nil.
---
 generate/struct.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generate/struct.go b/generate/struct.go
index 41406b7..ade5285 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -375,6 +375,8 @@ func addField(fields extractedFields, tree []string, inst jsonschema.Instance, f
 			f = exists
 			if f.array && f.jsonType == "" {
 				f.jsonType = jsonType
+				// A nil slice already covers a nullable array, what counts is whether its items are nullable.
+				f.nullable = slices.Contains(inst.Type, "null")
 			} else {
 				return fmt.Errorf("field %q already exists but is not an array field: %q", f.name, f.jsonType)
 			}
-- 
2.43.0


From 871e042f10cc45f4d2debd471bdf4c95097d25ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 46/76] fix: optional and nullable objects without properties
 as named structs

Those became a pointer to a struct type which is never written.
---
 generate/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/struct.go b/generate/struct.go
index ade5285..de7267d 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -439,7 +439,7 @@ func (ef *extractedField) goType(required, pointers bool, nestedStructs map[stri
 	default:
 		// TODO: use additionalProperties JSON schema value to more intelligently create the target type\
 		// when no nested struct
-		if ns := nestedStructs[ef.jsonType]; ns != nil && len(ns.fields) == 0 && !ns.array {
+		if ns := nestedStructs[strings.TrimPrefix(ef.jsonType, "*")]; ns != nil && len(ns.fields) == 0 && !ns.array {
 			goType = "map[string]string"
 		} else {
 			goType = ef.jsonType
-- 
2.43.0


From d73702a381e4254ac21d30d54b26fa460433a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 47/76] fix: alternatives of a flattened root schema with
 properties

Without embedAllOf the struct of the root schema already has the fields of
the allOf parts. Embedding both made those fields ambiguous, which drops
them from the JSON.
---
 generate/generate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generate/generate.go b/generate/generate.go
index 79cd534..d5fdf77 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -155,6 +155,11 @@ func BuildStructsWithArgs(args BuildArgs) error {
 		}
 	}
 
+	if !args.EmbedAllOf && len(properties) > 0 {
+		// The struct of the root schema comes last and is flattened, it already has the fields of all the others.
+		embeds = embeds[len(embeds)-1:]
+	}
+
 	for _, oneOfPath := range oneOfTypes {
 		name := strings.Split(filepath.Base(oneOfPath), ".")[0]
 		if newName, ok := args.StructNameMap[name]; ok {
-- 
2.43.0


From eb0ecf6e300aab86bf6efcc0118e2e43b6251178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 48/76] fix: embed renamed structs by the exported name they
 get

---
 generate/generate.go | 3 +--
 generate/struct.go   | 4 +---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/generate/generate.go b/generate/generate.go
index d5fdf77..7ecb5cc 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -139,9 +139,8 @@ func BuildStructsWithArgs(args BuildArgs) error {
 		name := strings.Split(filepath.Base(allOfPath), ".")[0]
 		if newName, ok := args.StructNameMap[name]; ok {
 			name = newName
-		} else {
-			name = exportedName(name)
 		}
+		name = exportedName(name)
 		embeds = append(embeds, name)
 
 		path, err := buildStructFile(allOfPath, name, packageName, nil, args)
diff --git a/generate/struct.go b/generate/struct.go
index de7267d..2776cee 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -156,10 +156,8 @@ func newGeneratedGoFile(schema *jsonschema.Schema, name, packageName string, emb
 			ref := strings.Split(filepath.Base(all.FromRef), ".")[0]
 			if newName, ok := args.StructNameMap[ref]; ok {
 				ref = newName
-			} else {
-				ref = exportedName(ref)
 			}
-			gof.rootStruct.embededStructs = append(gof.rootStruct.embededStructs, ref)
+			gof.rootStruct.embededStructs = append(gof.rootStruct.embededStructs, exportedName(ref))
 		}
 	}
 
-- 
2.43.0


From bcd4de1410a556c7284e7fe2de52e117bd9b291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:31 +0000
Subject: [PATCH 49/76] fix: renamed fields in the names of nested structs

The name of a nested struct is made of field names, those which are not
valid in Go made an invalid type name even if the field is renamed.
---
 generate/struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generate/struct.go b/generate/struct.go
index 2776cee..8b26789 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -211,6 +211,9 @@ func (gof *goFile) walkFunc(path string, i jsonschema.Instance) error {
 
 	parts := []string{exportedName(gof.rootStruct.name)}
 	for _, part := range splitJSONPath(path) {
+		if newName, ok := gof.args.FieldNameMap[part]; ok {
+			part = newName
+		}
 		parts = append(parts, exportedName(part))
 	}
 
-- 
2.43.0


From 4921e223058a7067d491cd99f3d75cb371586b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 50/76] fix: distinct types for nested structs at different
 paths

With named structs a property baz of fooBar and a property barBaz of foo
shared one type with the fields of either.
---
 generate/struct.go | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/generate/struct.go b/generate/struct.go
index 8b26789..05cc0dd 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -165,9 +165,43 @@ func newGeneratedGoFile(schema *jsonschema.Schema, name, packageName string, emb
 		return nil, fmt.Errorf("failed to walk schema for %q: %v", name, err)
 	}
 
+	gof.nameNestedStructs()
+
 	return gof, nil
 }
 
+// nameNestedStructs replaces the paths by which nested structs are known during the walk with the names of their types.
+// Different paths, like fooBar.baz and foo.barBaz, may be the same without the separators.
+func (gof *goFile) nameNestedStructs() {
+	paths := make([]string, 0, len(gof.nestedStructs))
+	for path := range gof.nestedStructs {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+
+	names := make(map[string]string, len(paths))
+	named := make(map[string]*generatedStruct, len(paths))
+	for _, path := range paths {
+		name := strings.ReplaceAll(path, ".", "")
+		for named[name] != nil {
+			name += "_"
+		}
+		names[path] = name
+		named[name] = gof.nestedStructs[path]
+		named[name].name = name
+	}
+	gof.nestedStructs = named
+
+	for _, gen := range gof.structs() {
+		for _, field := range gen.fields {
+			path := strings.TrimPrefix(field.jsonType, "*")
+			if name, ok := names[path]; ok {
+				field.jsonType = strings.Replace(field.jsonType, path, name, 1)
+			}
+		}
+	}
+}
+
 func (gof *goFile) newGeneratedStruct(name string, requiredFields map[string]bool) *generatedStruct {
 	return &generatedStruct{
 		extractedField: extractedField{
@@ -218,7 +252,7 @@ func (gof *goFile) walkFunc(path string, i jsonschema.Instance) error {
 	}
 
 	// Find parent struct or if none use root struct
-	parentKey := strings.Join(parts[:len(parts)-1], "")
+	parentKey := strings.Join(parts[:len(parts)-1], ".")
 	name := splitJSONPath(path)[len(parts)-2]
 	gen = gof.nestedStructs[parentKey]
 	if gen == nil {
@@ -227,7 +261,7 @@ func (gof *goFile) walkFunc(path string, i jsonschema.Instance) error {
 
 	// If the types is an object create a new generated struct for it
 	if slices.Contains(i.Type, "object") {
-		key := strings.Join(parts, "")
+		key := strings.Join(parts, ".")
 		structType := key
 
 		// nullable nested structs could be pointers
-- 
2.43.0


From 41bcc585c88b18baca475f1e59b3c38e89a05df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 51/76] fix: required property named -

---
 generate/struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generate/struct.go b/generate/struct.go
index 05cc0dd..5f1ae55 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -40,6 +40,9 @@ func (ef *extractedField) write(w io.Writer, prefix string, required, descriptio
 			omitempty = ",omitempty"
 		}
 	}
+	if omitempty == "" && ef.jsonName == "-" {
+		omitempty = "," // otherwise the tag would tell encoding/json to skip the field
+	}
 	jsonTag := fmt.Sprintf(`json:"%s%s"`, ef.jsonName, omitempty)
 	var description string
 	if descriptionAsStructTag && ef.description != "" {
-- 
2.43.0


From 52a08482cdeacf04c09a4599fe4d5336079eac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 52/76] fix: maps for nullable objects without properties,
 MessagePack has no code for pointers to maps

---
 generate/struct.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generate/struct.go b/generate/struct.go
index 5f1ae55..b6be7f1 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -484,7 +484,8 @@ func (ef *extractedField) goType(required, pointers bool, nestedStructs map[stri
 			customType = true
 		}
 	}
-	if !customType && ef.nullable {
+	// A nil map covers null already, and msgp can't handle pointers to maps.
+	if !customType && ef.nullable && goType != "map[string]string" {
 		goType = "*" + goType
 	}
 	if ef.array {
-- 
2.43.0


From e52242410dd39d9026c0e07ecd514c8555a94a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 53/76] fix: find embedded structs in files of any name for
 Avro

---
 generate/avro.go         | 12 +++++++++++-
 generate/avro_helpers.go |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index 5099e51..69375b4 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -187,6 +187,16 @@ func parseGoStruct(name, path string) (*ast.TypeSpec, error) {
 	return t, nil
 }
 
+// parseEmbeddedStruct finds a struct by the name its file usually has or else anywhere in the package, as a renamed
+// struct or one from a schema file with an upper case name isn't in the file structToFilename expects.
+func parseEmbeddedStruct(name, dir string) (*ast.TypeSpec, error) {
+	spec, err := parseGoStruct(name, filepath.Join(dir, structToFilename(name)))
+	if err != nil {
+		return parseGoStruct(name, dir)
+	}
+	return spec, nil
+}
+
 // filterPackage will filter all the go files found at the path returning a *ast.File containing name.
 func filterPackage(name, path string) (*ast.File, error) {
 	fileSet := token.NewFileSet()
@@ -369,7 +379,7 @@ func writeAvroFields(cfg avroConfig, list *ast.FieldList) {
 
 func writeEmbeddedStructFields(cfg avroConfig) {
 	structName := cfg.namespace[len(cfg.namespace)-1]
-	spec, err := parseGoStruct(structName, filepath.Join(cfg.dir, structToFilename(structName)))
+	spec, err := parseEmbeddedStruct(structName, cfg.dir)
 	if err != nil {
 		fmt.Fprint(cfg.writer, `{"type":"embedded struct not found"}`)
 		return
diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index e58b5f3..bf377e8 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -508,7 +508,7 @@ func mapFields(list *ast.FieldList, srcDir string) (map[string]*ast.Field, error
 				continue
 			}
 			embedName := t.Name
-			embedStruct, err := parseGoStruct(embedName, filepath.Join(srcDir, structToFilename(embedName)))
+			embedStruct, err := parseEmbeddedStruct(embedName, srcDir)
 			if err != nil {
 				return nil, fmt.Errorf("failed to parse embedded go struct %q: %v", embedName, err)
 			}
-- 
2.43.0


From 27fe83125a5770441a56242a0e9e051db36d7ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:47 +0000
Subject: [PATCH 54/76] fix: unique record names for nested objects with the
 same name in Avro schemas

---
 generate/avro.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index 69375b4..ed00c40 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -31,6 +31,7 @@ type avroConfig struct {
 	namespace        []string
 	writer           io.Writer
 	excludeNamespace map[string]bool
+	recordNames      map[string]bool
 }
 
 type normalizeNamer struct {
@@ -125,6 +126,7 @@ func buildAvroSchemaFile(name, goSourcePath string, pretty bool) (string, error)
 		dir:              dir,
 		writer:           writer,
 		excludeNamespace: make(map[string]bool),
+		recordNames:      map[string]bool{recordKey(name): true},
 	}
 
 	fmt.Fprint(cfg.writer, "{")
@@ -476,10 +478,29 @@ func writeNestedStruct(cfg avroConfig, n ast.Node, name string, nullable bool) s
 	newcfg.namespace = append(cfg.namespace, name)
 	newcfg.writer = buf
 	newcfg.excludeFields = nil
-	// nested structs get _struct appended on their name
-	astutil.Apply(n, writeAvroStruct(newcfg, name+"_record", ""), nil)
+	// nested structs get _record appended on their name
+	astutil.Apply(n, writeAvroStruct(newcfg, uniqueRecordName(newcfg, name), ""), nil)
 	if nullable {
 		return fmt.Sprintf(`["null",{%s]}]`, buf.String())
 	}
 	return fmt.Sprintf("{%s]}", buf.String())
 }
+
+// uniqueRecordName gives the name of a record which is made unique with the namespace when another record of the schema
+// has it already, since gogen-avro builds Go types and files for the records from their names without the namespace.
+func uniqueRecordName(cfg avroConfig, name string) string {
+	record := name + "_record"
+	if cfg.recordNames[recordKey(record)] {
+		record = strings.Join(cfg.namespace, "_") + "_record"
+	}
+	for base, i := record, 2; cfg.recordNames[recordKey(record)]; i++ {
+		record = fmt.Sprintf("%s%d", base, i)
+	}
+	cfg.recordNames[recordKey(record)] = true
+	return record
+}
+
+// recordKey maps names which lead to the same Go type or file name to the same key.
+func recordKey(name string) string {
+	return strings.ToLower(strings.ReplaceAll(name, "_", ""))
+}
-- 
2.43.0


From a4c04f6b87a298d3f66b511300c4a1e5ea79239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 55/76] fix: arrays of structs with pointer or nested array
 fields for Avro

---
 generate/avro_helpers.go | 46 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index bf377e8..9fa7378 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -547,32 +547,32 @@ func printFields(list *ast.FieldList) string {
 		}
 		name := f.Names[0]
 
-		switch fType := f.Type.(type) {
-		case *ast.Ident:
-			out += fmt.Sprintf("%s %s %s\n", name, fType.Name, f.Tag.Value)
-		case *ast.ArrayType:
-			// Handle the case where an array of structs is inside an array of structs.
-			str, ok := fType.Elt.(*ast.StructType)
-			if ok {
-				out += fmt.Sprintf("%s []struct{\n%s} %s\n", name, printFields(str.Fields), f.Tag.Value)
-				continue
-			}
+		out += fmt.Sprintf("%s %s %s\n", name, printType(f.Type), f.Tag.Value)
+	}
+	return out
+}
 
-			ident, ok := fType.Elt.(*ast.Ident)
-			if !ok {
-				return "unknown array type"
-			}
-			out += fmt.Sprintf("%s []%s %s\n", name, ident.Name, f.Tag.Value)
-		case *ast.SelectorExpr:
-			if fType.Sel.Name != "Time" {
-				return fmt.Sprintf(`unsupported type %q`, fType.Sel.Name)
-			}
-			out += fmt.Sprintf("%s time.Time %s\n", name, f.Tag.Value)
-		case *ast.StructType:
-			out += fmt.Sprintf("%s struct{\n%s} %s\n", name, printFields(fType.Fields), f.Tag.Value)
+// printType outputs a type as it was read from the original code.
+func printType(expr ast.Expr) string {
+	switch t := expr.(type) {
+	case *ast.Ident:
+		return t.Name
+	case *ast.StarExpr:
+		return "*" + printType(t.X)
+	case *ast.ArrayType:
+		return "[]" + printType(t.Elt)
+	case *ast.MapType:
+		return fmt.Sprintf("map[%s]%s", printType(t.Key), printType(t.Value))
+	case *ast.SelectorExpr:
+		if t.Sel.Name == "Time" {
+			return "time.Time"
 		}
+		return fmt.Sprintf("unsupported type %q", t.Sel.Name)
+	case *ast.StructType:
+		return fmt.Sprintf("struct{\n%s}", printFields(t.Fields))
+	default:
+		return fmt.Sprintf("unsupported type %T", t)
 	}
-	return out
 }
 
 // writeCodeTemplate will execute a template from src with values and write to path.
-- 
2.43.0


From 0ec1cb89ad7f7b1b47e3394a819a80820a313af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:06 +0000
Subject: [PATCH 56/76] fix: nullable values in Avro code

Pointers to scalars didn't compile, nil items of arrays and nil pointers to records crashed.
---
 generate/avro.go          |  8 ++++++--
 generate/avro_helpers.go  | 39 +++++++++++++++++++++++++++++++++++++--
 generate/avro_template.go |  5 +++++
 3 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index ed00c40..12eb4de 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -405,7 +405,7 @@ func convertToAvroType(cfg avroConfig, expr ast.Expr, name string, nullable bool
 	// Note: the go code generated from JSON schema does not include maps and they are not handled here
 	switch t := expr.(type) {
 	case *ast.StarExpr:
-		return convertToAvroType(cfg, t.X, name, nullable)
+		return convertToAvroType(cfg, t.X, name, true)
 	case *ast.Ident:
 		var typeName string
 		switch t.Name {
@@ -447,7 +447,11 @@ func convertToAvroType(cfg avroConfig, expr ast.Expr, name string, nullable bool
 		valueType := convertToAvroType(cfg, t.Value, name, false)
 		return fmt.Sprintf(`{"type": "map", "values": %s}`, valueType)
 	case *ast.ArrayType:
-		itemType := convertToAvroType(cfg, t.Elt, name, false)
+		elt := t.Elt
+		if ptr, ok := elt.(*ast.StarExpr); ok {
+			elt = ptr.X // nil items are written as the zero value
+		}
+		itemType := convertToAvroType(cfg, elt, name, false)
 		if strings.HasPrefix(itemType, "{") {
 			return fmt.Sprintf(`{"type":"array","items":%s}`, itemType)
 		} else {
diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index 9fa7378..555066d 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -94,6 +94,24 @@ func AvroOptionalTimeSlice(times []*time.Time) []int64 {
 	return newTimes
 }
 
+// AvroOptional gives the value pointed to, for nil the zero value.
+func AvroOptional[T any](value *T) T {
+	if value == nil {
+		var zero T
+		return zero
+	}
+	return *value
+}
+
+// AvroOptionalSlice converts the given pointers leveraging AvroOptional.
+func AvroOptionalSlice[T any](values []*T) []T {
+	newValues := make([]T, len(values))
+	for i, value := range values {
+		newValues[i] = AvroOptional(value)
+	}
+	return newValues
+}
+
 // buildAvroHelperFunctions creates functions for the given type which make it easy to output an Avro container file.
 // The functions are based on the generated Go struct and the serialization code generated by the gogen-avro package.
 func buildAvroHelperFunctions(name, goSourcePath, importPath string) error {
@@ -312,10 +330,10 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 		typeName := f.Name
 		switch typeName { // handle builtin types
 		case "string", "bool", "float64":
-			return mappedFields{fieldMapping: "z." + prefix + generatedField.Names[0].Name, name: prefix + name}, nil
+			return mappedFields{fieldMapping: optionalValue("z."+prefix+generatedField.Names[0].Name, generatedField), name: prefix + name}, nil
 		case "int64":
 			// special case for converting time fields and arrays of times
-			m := mappedFields{fieldMapping: "z." + prefix + generatedField.Names[0].Name, name: prefix + name}
+			m := mappedFields{fieldMapping: optionalValue("z."+prefix+generatedField.Names[0].Name, generatedField), name: prefix + name}
 			fieldType := generatedField.Type
 			pointer := false
 			if p, ok := generatedField.Type.(*ast.StarExpr); ok {
@@ -350,6 +368,7 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 			if p, ok := generatedField.Type.(*ast.StarExpr); ok {
 				pointer = true
 				fieldType = p.X
+				format["value"] = "*" + format["value"]
 			}
 			if selector, ok := fieldType.(*ast.SelectorExpr); ok && selector.Sel.Name == "Time" {
 				format = map[string]string{"packageName": fm.packageName, "value": fmt.Sprintf("generate.AvroTime(z.%s)", prefix+name)}
@@ -388,6 +407,19 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 	return mappedFields{}, fmt.Errorf("unhandled type for field %q", prefix+name)
 }
 
+// optionalValue wraps the value of a field which is a pointer or an array of pointers to give the values pointed to.
+func optionalValue(value string, generatedField *ast.Field) string {
+	switch t := generatedField.Type.(type) {
+	case *ast.StarExpr:
+		return fmt.Sprintf("generate.AvroOptional(%s)", value)
+	case *ast.ArrayType:
+		if _, ok := t.Elt.(*ast.StarExpr); ok {
+			return fmt.Sprintf("generate.AvroOptionalSlice(%s)", value)
+		}
+	}
+	return value
+}
+
 func (fm *avroFieldMapper) generateNullableFieldValue(name, prefix, fieldTypeName, fieldValue string) string {
 	returnType := fmt.Sprintf("*%s.%s", fm.packageName, fieldTypeName)
 	return fmt.Sprintf(
@@ -424,7 +456,9 @@ func (fm *avroFieldMapper) generateStructValue(name, prefix, typeName string, ge
 		} else {
 			structDef = mappedStruct.name
 		}
+		var forNil string // the type of which the zero value is used for nil pointers
 		if _, ok := aType.Elt.(*ast.StarExpr); ok {
+			forNil = structDef
 			structDef = "*" + structDef
 		}
 
@@ -438,6 +472,7 @@ func (fm *avroFieldMapper) generateStructValue(name, prefix, typeName string, ge
 			"typeID":       fmt.Sprintf("%s.%s", fm.packageName, typeName),
 			"structDef":    structDef,
 			"structFields": mappedStruct.fieldMapping,
+			"forNil":       forNil,
 		}
 
 		buf := &bytes.Buffer{}
diff --git a/generate/avro_template.go b/generate/avro_template.go
index 288e764..ebdba10 100644
--- a/generate/avro_template.go
+++ b/generate/avro_template.go
@@ -224,6 +224,11 @@ func Example{{ .name }}BulkAvroWriter() {
 {{ .funcName }} := func(in []{{ .structDef }}) []*{{ .typeID }} {
 	converted := make([]*{{ .typeID }}, len(in))
 	for i, z := range in {
+		{{- if .forNil }}
+		if z == nil {
+			z = &{{ .forNil }}{}
+		}
+		{{- end }}
 		converted[i] = &{{ .typeID }} {
 			{{ .structFields }}
 		}
-- 
2.43.0


From e1194c83c0aa91f50db841307ac0a3d98341e67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:45 +0000
Subject: [PATCH 57/76] fix: control characters in Avro docs

---
 generate/avro.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/generate/avro.go b/generate/avro.go
index 12eb4de..0dc2cf6 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -344,13 +344,24 @@ func writeAvroField(cfg avroConfig, f *ast.Field, fieldMap map[string]bool) bool
 		avroName += fmt.Sprintf(`,"namespace":%q`, strings.Join(cfg.namespace, "."))
 	}
 	if tagDescription != "" {
-		avroName += fmt.Sprintf(`,"doc":%q`, tagDescription)
+		avroName += fmt.Sprintf(`,"doc":%s`, quoteJSON(tagDescription))
 	}
 
 	fmt.Fprintf(cfg.writer, "{%s,%s}", avroName, avroType)
 	return true
 }
 
+// quoteJSON gives the JSON string, which differs from a quoted Go string in the escapes it allows.
+func quoteJSON(value string) string {
+	buf := &bytes.Buffer{}
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	if err := enc.Encode(value); err != nil {
+		return fmt.Sprintf("%q", value)
+	}
+	return strings.TrimSuffix(buf.String(), "\n")
+}
+
 // writeAvroFields loops through a list of fields in a struct writing out the Avro values for the fields and adding
 // commas between the written ones as appropriate for JSON.
 func writeAvroFields(cfg avroConfig, list *ast.FieldList) {
-- 
2.43.0


From 00bb7ebf4d9eda6ee20454281ec251a68d157413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:04 +0000
Subject: [PATCH 58/76] fix: fields renamed for Avro in unions and nested
 structs

---
 generate/avro_helpers.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index 555066d..c660211 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -299,7 +299,7 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 		// check for a nil pointer
 		if _, ok := generatedField.Type.(*ast.StarExpr); ok {
 			return mappedFields{
-				fieldMapping:  fm.generateNullableFieldValue(name, prefix, mappedField.name, fmt.Sprintf("&%s", mappedField.fieldMapping)),
+				fieldMapping:  fm.generateNullableFieldValue(generatedField.Names[0].Name, prefix, mappedField.name, fmt.Sprintf("&%s", mappedField.fieldMapping)),
 				preProcessing: mappedField.preProcessing,
 			}, nil
 		}
@@ -361,7 +361,7 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 		// If not a built in type it could be a special Avro Union type
 		if tmpl, ok := fm.unionTemplates[typeName]; ok {
 			buf := &bytes.Buffer{}
-			format := map[string]string{"packageName": fm.packageName, "value": "z." + prefix + name}
+			format := map[string]string{"packageName": fm.packageName, "value": "z." + prefix + generatedField.Names[0].Name}
 			// special case for converting time fields
 			fieldType := generatedField.Type
 			pointer := false
@@ -371,7 +371,7 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 				format["value"] = "*" + format["value"]
 			}
 			if selector, ok := fieldType.(*ast.SelectorExpr); ok && selector.Sel.Name == "Time" {
-				format = map[string]string{"packageName": fm.packageName, "value": fmt.Sprintf("generate.AvroTime(z.%s)", prefix+name)}
+				format = map[string]string{"packageName": fm.packageName, "value": fmt.Sprintf("generate.AvroTime(z.%s)", prefix+generatedField.Names[0].Name)}
 			}
 			if err := tmpl.Execute(buf, format); err != nil {
 				return mappedFields{}, fmt.Errorf("failed union template: %v", err)
@@ -486,7 +486,7 @@ func (fm *avroFieldMapper) generateStructValue(name, prefix, typeName string, ge
 		}, nil
 	}
 
-	mappedField, _, err := fm.generateChildStruct(generatedField.Type, prefix+name, prefix+name+".", avroFields)
+	mappedField, _, err := fm.generateChildStruct(generatedField.Type, prefix+name, prefix+generatedField.Names[0].Name+".", avroFields)
 	if err != nil {
 		return mappedFields{}, err
 	}
-- 
2.43.0


From a36b6e600b3bb6cc4fc7fb8e3b9180f79e015310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 59/76] fix: field names ending with an underscore in Avro code

---
 generate/avro_helpers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index c660211..e68426f 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -13,6 +13,8 @@ import (
 	"strings"
 	"text/template"
 	"time"
+
+	"github.com/actgardner/gogen-avro/v7/generator"
 )
 
 // invalidFieldNames is a list of field names that conflict with hard-coded method names on
@@ -562,7 +564,7 @@ func mapFields(list *ast.FieldList, srcDir string) (map[string]*ast.Field, error
 			}
 			continue
 		}
-		key := f.Names[0].Name
+		key := generator.ToPublicSimpleName(f.Names[0].Name)
 		if invalidFieldNames[key] {
 			key = "Field_" + key
 		}
-- 
2.43.0


From 76252cdb9d0bbe7a15326f7eb76d4c88f9143836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:16 +0000
Subject: [PATCH 60/76] fix: fields with names starting with Avro were not
 written

---
 generate/avro_helpers.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index e68426f..01edd56 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -213,7 +213,16 @@ func (fm *avroFieldMapper) generate() (mappedFields, error) {
 		return mappedFields{}, errors.New("failed to parse fields from avro go struct")
 	}
 
-	return fm.generateFields("", avroFields, generatedFieldsMap)
+	// skip metadata fields which are populated in the templated code
+	dataFields := &ast.FieldList{}
+	for _, f := range avroFields.List {
+		if len(f.Names) == 1 && (f.Names[0].Name == "AvroWriteTime" || f.Names[0].Name == "AvroDeleted") {
+			continue
+		}
+		dataFields.List = append(dataFields.List, f)
+	}
+
+	return fm.generateFields("", dataFields, generatedFieldsMap)
 }
 
 // generateChildStruct creates a mappedFields similar to generate but with a few starting assumptions appropriate for
@@ -267,9 +276,6 @@ func (fm *avroFieldMapper) generateFields(prefix string, avroFields *ast.FieldLi
 			return mappedFields{}, errors.New("unknown embedded field in Avro struct")
 		}
 		name := f.Names[0].Name
-		if strings.HasPrefix(name, "Avro") { // skip metadata fields which are populated in the templated code
-			continue
-		}
 		generatedField, ok := generatedFieldsMap[name]
 		if !ok {
 			return mappedFields{}, fmt.Errorf("no mapping found for field %q", name)
-- 
2.43.0


From df365d1d6e8332cd5754e1aafbef0780bdaa30d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:39 +0000
Subject: [PATCH 61/76] fix: quote the descriptions and deprecation reasons of
 the GraphQL

---
 generate/graphql.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 9965b3d..2cfc414 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -275,7 +275,7 @@ func (ef *gqlExtractedField) write(w io.Writer, prefix string, required, descrip
 	if strings.HasPrefix(description, "DEPRECATED:") {
 		// First line is the deprecation reason and the rest is the normal description.
 		lines := strings.Split(description, "\n")
-		attribute = fmt.Sprintf(" @deprecated(reason: %q)", strings.TrimSpace(strings.TrimPrefix(lines[0], "DEPRECATED:")))
+		attribute = fmt.Sprintf(" @deprecated(reason: %s)", graphqlString(strings.TrimSpace(strings.TrimPrefix(lines[0], "DEPRECATED:"))))
 		description = strings.TrimSpace(strings.Join(lines[1:], "\n"))
 	}
 	if description != "" {
@@ -746,12 +746,13 @@ func (ef *gqlExtractedField) graphqlType(required, pointers bool) (string, strin
 
 // graphqlComment takes a string and returns GraphQL comment syntax.
 func graphqlComment(prefix, description string) string {
-	if strings.IndexRune(description, '\n') < 0 {
-		return fmt.Sprintf("%s\"%s\"\n", prefix, description)
+	isControl := func(r rune) bool { return r < ' ' && r != '\n' && r != '\t' }
+	if strings.IndexRune(description, '\n') < 0 || strings.IndexFunc(description, isControl) >= 0 {
+		return fmt.Sprintf("%s%s\n", prefix, graphqlString(description))
 	}
 	// Multi-line descriptions get the """ comment syntax.
 	newDescription := prefix + `"""` + "\n"
-	for _, line := range strings.Split(description, "\n") {
+	for _, line := range strings.Split(strings.ReplaceAll(description, `"""`, `\"""`), "\n") {
 		if line != "" {
 			newDescription += prefix + line
 		}
@@ -759,3 +760,26 @@ func graphqlComment(prefix, description string) string {
 	}
 	return newDescription + prefix + `"""` + "\n"
 }
+
+// graphqlString returns the value as a quoted GraphQL string.
+func graphqlString(value string) string {
+	var quoted strings.Builder
+	quoted.WriteByte('"')
+	for _, r := range value {
+		switch {
+		case r == '"' || r == '\\':
+			quoted.WriteByte('\\')
+			quoted.WriteRune(r)
+		case r == '\n':
+			quoted.WriteString(`\n`)
+		case r == '\t':
+			quoted.WriteString(`\t`)
+		case r < ' ':
+			fmt.Fprintf(&quoted, `\u%04x`, r)
+		default:
+			quoted.WriteRune(r)
+		}
+	}
+	quoted.WriteByte('"')
+	return quoted.String()
+}
-- 
2.43.0


From a948d4fbe7a3a40bf04174b28a539aaa526374ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:08 +0000
Subject: [PATCH 62/76] fix: nullable lists, items and objects of the GraphQL

---
 generate/graphql.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 2cfc414..fc77256 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -484,7 +484,7 @@ func (gof *goGQL) walkFunc(path string, i jsonschema.Instance) error {
 		// Special case for when the properties field of an object is `{}`. Put `Any` instead of the struct name and
 		// ignore the empty child struct.
 		if len(i.Properties) == 0 {
-			gqlTypeList = []string{"Any"}
+			gqlTypeList[0] = "Any"
 			obj.buildType = "ignored"
 		}
 
@@ -615,7 +615,7 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 			args:        gen.args,
 			target:      inst.Target,
 			arguments:   inst.GraphQLArguments,
-			nullable:    slices.Contains(inst.Type, "null"),
+			nullable:    slices.Contains(typeSource, "null"),
 		}
 		// Second processing of an array type
 		if exists, ok := gen.fields[f.jsonName]; ok {
@@ -624,10 +624,11 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 				if f.jsonType == "" {
 					f.jsonType = jsonType
 				}
+				f.nullable = slices.Contains(typeSource, "null")
 				// Need to preserve the value if this array's item type had a GraphQL hydration target.
 				if f.target == "" && inst.Target != "" {
 					f.target = "[" + inst.Target + "]"
-					if !(f.nullable || gen.args.Pointers && !gen.requiredFields[f.jsonName]) {
+					if !(f.arrayNullable || gen.args.Pointers && !gen.requiredFields[f.jsonName]) {
 						f.target += "!"
 					}
 				}
@@ -643,9 +644,9 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 		switch f.jsonType {
 		case "array":
 			f.jsonType = ""
-			f.nullable = false
 			f.array = true
 			f.arrayNullable = f.nullable
+			f.nullable = false
 
 			totalDescription := fmt.Sprintf("The total length of the %s list at this same level in the data, this number is unaffected by filtering.", fieldName)
 			// If the field this is a total of is deprecated then also use its deprecation message (first line of description).
@@ -719,7 +720,7 @@ func (ef *gqlExtractedField) graphqlType(required, pointers bool) (string, strin
 	} else {
 		graphqlType = ef.jsonType
 	}
-	if graphqlType != "DateTime" && (regularType && !ef.nullable || required || !pointers) {
+	if graphqlType != "DateTime" && !ef.nullable && (regularType || required || !pointers) {
 		if ef.jsonType != "Any" {
 			graphqlType += "!"
 		}
-- 
2.43.0


From d57cc8eaef566f1cffcfe074f3022ffbc14d3e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:14 +0000
Subject: [PATCH 63/76] fix: targets of the items of lists which are no
 hydrations

---
 generate/graphql.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index fc77256..44cb634 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -626,7 +626,9 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 				}
 				f.nullable = slices.Contains(typeSource, "null")
 				// Need to preserve the value if this array's item type had a GraphQL hydration target.
-				if f.target == "" && inst.Target != "" {
+				if f.target == "" && f.jsonType != "graphql-hydration" {
+					f.target = inst.Target
+				} else if f.target == "" && inst.Target != "" {
 					f.target = "[" + inst.Target + "]"
 					if !(f.arrayNullable || gen.args.Pointers && !gen.requiredFields[f.jsonName]) {
 						f.target += "!"
-- 
2.43.0


From 56604a8abd4c6fa9652ebaedf42e156db91bf61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:20 +0000
Subject: [PATCH 64/76] fix: name the GraphQL interface as its implementations
 do

---
 generate/graphql.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 44cb634..d6c410b 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -103,6 +103,7 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 	}
 
 	// If the schema has one or more AllOf definitions then this has an Interface type.
+	interfaceName := name
 	var common []*goGQL
 	var commonFields int
 	if len(schema.AllOf) != 0 {
@@ -159,10 +160,10 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 				}
 			}
 			if len(schema.OneOf) != 0 {
-				if newName, ok := args.GraphQLTypeNameMap[packageName]; ok {
+				if newName, ok := args.GraphQLTypeNameMap[interfaceName]; ok {
 					obj.rootStruct.gqlExtractedField.jsonName = newName
 				} else {
-					obj.rootStruct.gqlExtractedField.jsonName = exportedName(packageName)
+					obj.rootStruct.gqlExtractedField.jsonName = exportedName(interfaceName)
 				}
 				obj.rootStruct.gqlExtractedField.name = obj.rootStruct.gqlExtractedField.jsonName
 				obj.rootStruct.buildType = "interface"
@@ -183,10 +184,10 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 		if len(schema.AllOf) != 0 {
 			// Only an implementation of an interface if there was also an AllOf schema.
 			var implements string
-			if newName, ok := args.GraphQLTypeNameMap[name]; ok {
+			if newName, ok := args.GraphQLTypeNameMap[interfaceName]; ok {
 				implements = newName
 			} else {
-				implements = exportedName(name)
+				implements = exportedName(interfaceName)
 			}
 			generated.rootStruct.implements = implements
 		}
-- 
2.43.0


From 3d07b5c863071b127b59498e68c423d59362cda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:49 +0000
Subject: [PATCH 65/76] fix: name the Go models of the GraphQL as the structs
 are named

---
 generate/graphql.go | 50 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index d6c410b..0a27dd3 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -374,10 +374,49 @@ func newGeneratedGraphQLFile(schema jsonschema.Instance, name, packageName strin
 	if err := jsonschema.Walk(&jsonschema.Schema{Instance: schema}, gof.walkFunc); err != nil {
 		return nil, fmt.Errorf("failed to walk schema for %q: %w", name, err)
 	}
+	gof.nameNestedStructs()
 
 	return gof, nil
 }
 
+// nameNestedStructs replaces the paths by which nested structs are known during the walk with the names of their types,
+// the Go names are those nameNestedStructs of goFile chooses.
+// Different paths, like fooBar.baz and foo.barBaz, may be the same without the separators.
+func (gof *goGQL) nameNestedStructs() {
+	paths := make([]string, 0, len(gof.nestedStructs))
+	for path := range gof.nestedStructs {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+
+	used := make(map[string]bool, len(paths))
+	usedGraphQL := make(map[string]bool, len(paths))
+	for _, path := range paths {
+		obj := gof.nestedStructs[path]
+		obj.name = strings.ReplaceAll(path, ".", "")
+		for used[obj.name] {
+			obj.name += "_"
+		}
+		used[obj.name] = true
+
+		if obj.target != "" || obj.buildType == "ignored" {
+			continue
+		}
+		for usedGraphQL[obj.jsonName] {
+			obj.jsonName += "_"
+		}
+		usedGraphQL[obj.jsonName] = true
+	}
+
+	for _, gen := range gof.structs() {
+		for _, field := range gen.fields {
+			if obj, ok := gof.nestedStructs[field.jsonType]; ok {
+				field.jsonType = obj.jsonName
+			}
+		}
+	}
+}
+
 func (gof *goGQL) newGeneratedGraphQLObject(name, gqlName string, requiredFields map[string]bool) *generatedGraphQLObject {
 	return &generatedGraphQLObject{
 		buildType: "type",
@@ -423,11 +462,14 @@ func (gof *goGQL) walkFunc(path string, i jsonschema.Instance) error {
 
 	parts := []string{exportedName(gof.rootStruct.name)}
 	for _, part := range splitJSONPath(path) {
+		if newName, ok := gof.args.FieldNameMap[part]; ok {
+			part = newName
+		}
 		parts = append(parts, exportedName(part))
 	}
 
 	// Find parent struct or if none use root struct
-	parentKey := strings.Join(parts[:len(parts)-1], "")
+	parentKey := strings.Join(parts[:len(parts)-1], ".")
 	name := splitJSONPath(path)[len(parts)-2]
 
 	// There's a convention that "implements" types are all lowercase,
@@ -450,7 +492,7 @@ func (gof *goGQL) walkFunc(path string, i jsonschema.Instance) error {
 
 	// If the types is an object create a new generated struct for it
 	if slices.Contains(i.Type, "object") {
-		key := strings.Join(parts, "")
+		key := strings.Join(parts, ".")
 		structType := key
 
 		/*
@@ -476,8 +518,8 @@ func (gof *goGQL) walkFunc(path string, i jsonschema.Instance) error {
 			obj.buildType = "ignored"
 		}
 
-		// Generate proper GraphQL type name target, taking into account renaming.
-		gqlTypeList := []string{gqlTypeName}
+		// The path stands for the GraphQL type until all the types are known.
+		gqlTypeList := []string{key}
 		if slices.Contains(i.Type, "null") {
 			gqlTypeList = append(gqlTypeList, "null")
 		}
-- 
2.43.0


From ea8936ae03107fd1819fca32859394b7b3e7ae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:05 +0000
Subject: [PATCH 66/76] fix: lists and fields with a target are date-times like
 any other

---
 generate/graphql.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 0a27dd3..329e81f 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -683,7 +683,6 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 		}
 		if slices.Contains(inst.Type, "string") && inst.Format == "date-time" {
 			f.jsonType = "date-time"
-			f.nullable = true
 		}
 
 		switch f.jsonType {
-- 
2.43.0


From a382d021c73ba611a6e52b62d06a676879823154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 67/76] fix: GraphQL of the schemas embedded by embedded
 schemas and by alternatives

---
 generate/graphql.go | 56 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 329e81f..117791b 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -115,6 +115,14 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 				return fmt.Errorf("failed to build generated struct: %w", err)
 			}
 			common = append(common, generated)
+
+			if args.EmbedAllOf {
+				embedded, err := embeddedGraphQL(allOfSchema.AllOf, packageName, args)
+				if err != nil {
+					return err
+				}
+				common = append(common, embedded...)
+			}
 		}
 		// TODO: Doesn't handle multiple AllOf properly with regard to mapping to Go type name.  Ex: `BaseLinks`.
 		// TODO: Having to merge all the sub-parsed schema files into a single one synthesized here is regretable.
@@ -174,6 +182,14 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 		}
 	}
 
+	// The types nested in embedded schemas are defined once, all which embed them share them.
+	defined := make(map[string]bool)
+	for _, com := range common {
+		for nk := range com.nestedStructs {
+			defined[nk] = true
+		}
+	}
+
 	// If the schema has one or more OneOf definitions then these are the Implementations of the Interface type.
 	for _, oneOfSchema := range schema.OneOf {
 		oneOfName := strings.Split(filepath.Base(oneOfSchema.FromRef), ".")[0]
@@ -191,15 +207,21 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 			}
 			generated.rootStruct.implements = implements
 		}
-		if args.EmbedAllOf && len(oneOfSchema.AllOf) != 0 {
-			for _, allOf := range oneOfSchema.AllOf {
-				baseName := strings.Split(filepath.Base(allOf.FromRef), ".")[0]
-				allOfGen, err := newGeneratedGraphQLFile(allOf, baseName, packageName, false, args)
-				if err != nil {
-					return fmt.Errorf("failed to build generated struct: %w", err)
+		inherited := common
+		if args.EmbedAllOf {
+			embedded, err := embeddedGraphQL(oneOfSchema.AllOf, packageName, args)
+			if err != nil {
+				return err
+			}
+			for _, emb := range embedded {
+				for nk, nv := range emb.nestedStructs {
+					if !defined[nk] {
+						defined[nk] = true
+						generated.nestedStructs[nk] = nv
+					}
 				}
-				common = append(common, allOfGen)
 			}
+			inherited = append(inherited[:len(inherited):len(inherited)], embedded...)
 		}
 
 		// Must merge into this implementation the fields defined in the AllOf blocks
@@ -209,7 +231,7 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 		lfo := generated.rootStruct.fieldOrder
 		generated.rootStruct.fields = make(map[string]*gqlExtractedField, len(generated.rootStruct.fields)+commonFields)
 		generated.rootStruct.fieldOrder = make([]string, 0, len(generated.rootStruct.fields)+commonFields)
-		for _, com := range common {
+		for _, com := range inherited {
 			for fk, fv := range com.rootStruct.fields {
 				generated.rootStruct.fields[fk] = fv
 				generated.rootStruct.fieldOrder = append(generated.rootStruct.fieldOrder, fk)
@@ -267,6 +289,24 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 	return nil
 }
 
+// embeddedGraphQL creates the GraphQL of the schemas which are embedded by allOf and of those which they embed.
+func embeddedGraphQL(allOf []jsonschema.Instance, packageName string, args BuildArgs) ([]*goGQL, error) {
+	var embedded []*goGQL
+	for _, instance := range allOf {
+		baseName := strings.Split(filepath.Base(instance.FromRef), ".")[0]
+		generated, err := newGeneratedGraphQLFile(instance, baseName, packageName, false, args)
+		if err != nil {
+			return nil, fmt.Errorf("failed to build generated struct: %w", err)
+		}
+		deeper, err := embeddedGraphQL(instance.AllOf, packageName, args)
+		if err != nil {
+			return nil, err
+		}
+		embedded = append(append(embedded, generated), deeper...)
+	}
+	return embedded, nil
+}
+
 // write outputs the Golang representation of this field to the writer with prefix before each line.
 // It handles inline structs by calling this method recursively adding a new \t to the prefix for each layer.
 // If required is set to false 'omitempty' is added in the JSON struct tag for the field.
-- 
2.43.0


From ec4bb542bf6448d6f153f2ee5c0d065c6caf8a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:17 +0000
Subject: [PATCH 68/76] fix: GraphQL from a relative schema path

---
 generate/generate.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/generate/generate.go b/generate/generate.go
index 7ecb5cc..f04b968 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -114,17 +114,19 @@ func BuildStructsWithArgs(args BuildArgs) error {
 
 	packageName := filepath.Base(args.OutputDir)
 
+	schemaPath, err := filepath.Abs(args.SchemaPath)
+	if err != nil {
+		return fmt.Errorf("failed to determine absolute path of %q: %v", args.SchemaPath, err)
+	}
+	args.SchemaPath = schemaPath
+
 	allOfTypes, oneOfTypes, properties, err := jsonschema.SchemaTypes(args.SchemaPath)
 	if err != nil {
 		return fmt.Errorf("failed to discover oneOfTypes: %v", err)
 	}
 
 	if len(allOfTypes) == 0 && len(oneOfTypes) == 0 || len(properties) > 0 {
-		path, err := filepath.Abs(args.SchemaPath)
-		if err != nil {
-			return fmt.Errorf("failed to determine absolute path of %q: %v", args.SchemaPath, err)
-		}
-		allOfTypes = append(allOfTypes, path)
+		allOfTypes = append(allOfTypes, args.SchemaPath)
 	}
 
 	if args.GenerateGraphQL {
-- 
2.43.0


From efa7c1d33ce4f288109f2d4308dffce88a765418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:23 +0000
Subject: [PATCH 69/76] fix: the package name for relative output directories

---
 generate/generate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generate/generate.go b/generate/generate.go
index f04b968..5f2f07c 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -108,6 +108,11 @@ func BuildStructsWithArgs(args BuildArgs) error {
 		}
 		args.OutputDir = wd
 	}
+	outputDir, err := filepath.Abs(args.OutputDir)
+	if err != nil {
+		return fmt.Errorf("failed to determine absolute path of %q: %v", args.OutputDir, err)
+	}
+	args.OutputDir = outputDir
 	if args.OutputDirGraphQL == "" {
 		args.OutputDirGraphQL = args.OutputDir
 	}
-- 
2.43.0


From 717bbc67058ecbb6df52dece00036f0c66905d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:10 +0000
Subject: [PATCH 70/76] fix: a document from a URL which is not valid JSON does
 not load

---
 jsonschema/reference.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index c7618b7..6914e79 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -295,6 +295,9 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 		if err != nil {
 			return nil, fmt.Errorf("failed to read body from %q: %v", sourcePath, err)
 		}
+		if !json.Valid(source) {
+			return nil, fmt.Errorf("reference from %q is not valid JSON", sourcePath)
+		}
 		source, err = dereference(sourcePath, source, oneOfType, flatten, append(parents, sourcePath)...)
 		if err != nil {
 			return nil, fmt.Errorf("failed to process references of %q: %v", sourcePath, err)
-- 
2.43.0


From 2621501f730c7d079c15e475040905fe1680beee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:04 +0000
Subject: [PATCH 71/76] fix: alternatives embed a root schema with properties
 only, not also what it embeds itself

---
 generate/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generate/generate.go b/generate/generate.go
index 5f2f07c..fc83a4c 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -161,8 +161,8 @@ func BuildStructsWithArgs(args BuildArgs) error {
 		}
 	}
 
-	if !args.EmbedAllOf && len(properties) > 0 {
-		// The struct of the root schema comes last and is flattened, it already has the fields of all the others.
+	if len(properties) > 0 {
+		// The struct of the root schema comes last, it already has the fields of all the others.
 		embeds = embeds[len(embeds)-1:]
 	}
 
-- 
2.43.0


From fd9552f66607d8c0a931f0a820853069714ab1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:09 +0000
Subject: [PATCH 72/76] fix: Avro fields of structs embedded by embedded
 structs are excluded too

---
 generate/avro.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generate/avro.go b/generate/avro.go
index 0dc2cf6..29de291 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -315,7 +315,13 @@ func writeAvroField(cfg avroConfig, f *ast.Field, fieldMap map[string]bool) bool
 		}
 		newcfg := cfg
 		newcfg.namespace = append(cfg.namespace, t.Name)
-		newcfg.excludeFields = fieldMap
+		newcfg.excludeFields = make(map[string]bool, len(fieldMap)+len(cfg.excludeFields))
+		for name := range fieldMap {
+			newcfg.excludeFields[name] = true
+		}
+		for name := range cfg.excludeFields {
+			newcfg.excludeFields[name] = true
+		}
 		buf := &bytes.Buffer{}
 		newcfg.writer = buf
 		writeEmbeddedStructFields(newcfg)
-- 
2.43.0


From c6c83971fbc6f00a2889946683839bb1974071f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 73/76] fix: GraphQL fields of a schema come before those of
 the schemas it embeds

---
 generate/graphql.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generate/graphql.go b/generate/graphql.go
index 117791b..e524a3e 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -157,6 +157,9 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 			for _, com := range common {
 				commonFields += len(com.rootStruct.fields)
 				for fk, fv := range com.rootStruct.fields {
+					if _, ok := obj.rootStruct.fields[fk]; ok {
+						continue // a schema comes before those it embeds
+					}
 					obj.rootStruct.fields[fk] = fv
 					obj.rootStruct.fieldOrder = append(obj.rootStruct.fieldOrder, fk)
 				}
@@ -233,6 +236,9 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 		generated.rootStruct.fieldOrder = make([]string, 0, len(generated.rootStruct.fields)+commonFields)
 		for _, com := range inherited {
 			for fk, fv := range com.rootStruct.fields {
+				if _, ok := generated.rootStruct.fields[fk]; ok {
+					continue
+				}
 				generated.rootStruct.fields[fk] = fv
 				generated.rootStruct.fieldOrder = append(generated.rootStruct.fieldOrder, fk)
 			}
-- 
2.43.0


From 80cfde5c70cfb3151e6782e5ee18135c23211d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:12 +0000
Subject: [PATCH 74/76] fix: a schema part of an alternative and of the root
 schema is embedded once

---
 generate/struct.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generate/struct.go b/generate/struct.go
index b6be7f1..6f63ceb 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -160,7 +160,9 @@ func newGeneratedGoFile(schema *jsonschema.Schema, name, packageName string, emb
 			if newName, ok := args.StructNameMap[ref]; ok {
 				ref = newName
 			}
-			gof.rootStruct.embededStructs = append(gof.rootStruct.embededStructs, exportedName(ref))
+			if ref = exportedName(ref); !slices.Contains(gof.rootStruct.embededStructs, ref) {
+				gof.rootStruct.embededStructs = append(gof.rootStruct.embededStructs, ref)
+			}
 		}
 	}
 
-- 
2.43.0


From 0fd1fd179462a9379443bd1645425d84541d4272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:49 +0000
Subject: [PATCH 75/76] fix: dates which cannot be written are not convertible
 instead of failing the transform

---
 transform/utils.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/transform/utils.go b/transform/utils.go
index 42fb13a..863c7ea 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -151,18 +151,26 @@ func convertDateTime(raw interface{}) (interface{}, error) {
 			return nil, nil
 		}
 
-		return tParsed, nil
+		return writableTime(tParsed)
 	case int:
-		return time.Unix(int64(t), 0).UTC(), nil
+		return writableTime(time.Unix(int64(t), 0).UTC())
 	case int64:
-		return time.Unix(t, 0).UTC(), nil
+		return writableTime(time.Unix(t, 0).UTC())
 	case float64:
-		return time.Unix(int64(t), 0).UTC(), nil
+		return writableTime(time.Unix(int64(t), 0).UTC())
 	default:
 		return nil, fmt.Errorf("unable to convert type %q to a date-time", reflect.TypeOf(raw))
 	}
 }
 
+// writableTime refuses times which can't be written as RFC 3339, as their year has more than four digits for example.
+func writableTime(t time.Time) (interface{}, error) {
+	if _, err := t.MarshalJSON(); err != nil {
+		return nil, err
+	}
+	return t, nil
+}
+
 func convertString(raw interface{}) (interface{}, error) {
 	switch t := raw.(type) {
 	case bool:
-- 
2.43.0


From 745db35aa9d26df1eb63ba6f32b13de1c990a2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:40 +0000
Subject: [PATCH 76/76] fix: Avro code for structs with names ending with an
 underscore

---
 generate/avro_helpers.go  |  8 +++++++-
 generate/avro_template.go | 16 ++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index 01edd56..b6b701b 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -114,12 +114,18 @@ func AvroOptionalSlice[T any](values []*T) []T {
 	return newValues
 }
 
+// avroStructName is the name gogen-avro gives the struct for the record with the given name.
+func avroStructName(name string) string {
+	return strings.Title(strings.Trim(name, "_"))
+}
+
 // buildAvroHelperFunctions creates functions for the given type which make it easy to output an Avro container file.
 // The functions are based on the generated Go struct and the serialization code generated by the gogen-avro package.
 func buildAvroHelperFunctions(name, goSourcePath, importPath string) error {
 	dir := filepath.Dir(goSourcePath)
 	values := map[string]string{
 		"avroImport":  path.Join(importPath, "avro", strings.ToLower(name)),
+		"avroName":    avroStructName(name),
 		"avroPackage": strings.ToLower(name),
 		"name":        name,
 		"pkgName":     filepath.Base(dir),
@@ -204,7 +210,7 @@ func (fm *avroFieldMapper) generate() (mappedFields, error) {
 		return mappedFields{}, fmt.Errorf("failed to parse generated Go struct: %v", err)
 	}
 
-	avroStruct, err := parseGoStruct(fm.structName, fm.avroPackagePath)
+	avroStruct, err := parseGoStruct(avroStructName(fm.structName), fm.avroPackagePath)
 	if err != nil {
 		return mappedFields{}, fmt.Errorf("failed to parse Avro Go struct: %v", err)
 	}
diff --git a/generate/avro_template.go b/generate/avro_template.go
index ebdba10..8399bfb 100644
--- a/generate/avro_template.go
+++ b/generate/avro_template.go
@@ -26,7 +26,7 @@ func (z *{{ .name }}) WriteAvroCF(writer io.Writer, writeTime time.Time) error {
 	if writeTime.IsZero() {
 		writeTime = time.Now()
 	}
-	avroWriter, err := container.NewWriter(writer, container.Snappy, 1, {{ .avroPackage }}.New{{ .name }}().Schema())
+	avroWriter, err := container.NewWriter(writer, container.Snappy, 1, {{ .avroPackage }}.New{{ .avroName }}().Schema())
 	if err != nil {
 		return err
 	}
@@ -46,7 +46,7 @@ func (z *{{ .name }}) WriteAvroDeletedCF(writer io.Writer, writeTime time.Time)
 	if writeTime.IsZero() {
 		writeTime = time.Now()
 	}
-	avroWriter, err := container.NewWriter(writer, container.Snappy, 1, {{ .avroPackage }}.New{{ .name }}().Schema())
+	avroWriter, err := container.NewWriter(writer, container.Snappy, 1, {{ .avroPackage }}.New{{ .avroName }}().Schema())
 	if err != nil {
 		return err
 	}
@@ -60,15 +60,15 @@ func (z *{{ .name }}) WriteAvroDeletedCF(writer io.Writer, writeTime time.Time)
 	return avroWriter.Flush()
 }
 
-func (z *{{ .name }}) convertToAvro(writeTime time.Time) *{{ .avroPackage}}.{{ .name }} {
+func (z *{{ .name }}) convertToAvro(writeTime time.Time) *{{ .avroPackage}}.{{ .avroName }} {
 	aTime := generate.AvroTime(writeTime)
 	if z == nil {
-		return &{{ .avroPackage}}.{{ .name }}{AvroWriteTime: aTime, AvroDeleted: true}
+		return &{{ .avroPackage}}.{{ .avroName }}{AvroWriteTime: aTime, AvroDeleted: true}
 	}
 
   {{ .preProcessing }}
 
-	return &{{ .avroPackage}}.{{ .name }}{
+	return &{{ .avroPackage}}.{{ .avroName }}{
 	  AvroWriteTime: aTime,
 	  {{ .fieldMapping }}
 	}
@@ -90,7 +90,7 @@ func {{ .name }}BulkAvroWriter(writer io.Writer, writeTime time.Time, request <-
 	go func() {
 		defer close(errors)
 
-		avroWriter, err := container.NewWriter(writer, container.Snappy, 1, {{ .avroPackage }}.New{{ .name }}().Schema())
+		avroWriter, err := container.NewWriter(writer, container.Snappy, 1, {{ .avroPackage }}.New{{ .avroName }}().Schema())
 		if err != nil {
 			errors <- err
 			return
@@ -146,7 +146,7 @@ func Test{{ .name }}_WriteAvroCF(t *testing.T) {
 		t.Fatalf("Failed containers from OCF file: %v\n", err)
 	}
 
-	read, err := {{ .avroPackage}}.Deserialize{{ .name }}FromSchema(containerReader, string(containerReader.AvroContainerSchema()))
+	read, err := {{ .avroPackage}}.Deserialize{{ .avroName }}FromSchema(containerReader, string(containerReader.AvroContainerSchema()))
 	if err != nil {
 		t.Fatalf("Failed deserializing OCF file: %v\n", err)
 	}
@@ -179,7 +179,7 @@ func Test{{ .name }}_WriteAvroDeletedCF(t *testing.T) {
 		t.Fatalf("Failed containers from OCF file: %v\n", err)
 	}
 
-	read, err := {{ .avroPackage}}.Deserialize{{ .name }}FromSchema(containerReader, string(containerReader.AvroContainerSchema()))
+	read, err := {{ .avroPackage}}.Deserialize{{ .avroName }}FromSchema(containerReader, string(containerReader.AvroContainerSchema()))
 	if err != nil {
 		t.Fatalf("Failed deserializing OCF file: %v\n", err)
 	}
-- 
2.43.0

