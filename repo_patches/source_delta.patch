From fb7f054417d5f41f8b6b150122b579bf3c5861eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 01/60] fix: overlay scalar updates take the type of the new
 value, not only its text

---
 overlay/engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/overlay/engine.go b/overlay/engine.go
index c58ac5b..299d3f6 100644
--- a/overlay/engine.go
+++ b/overlay/engine.go
@@ -216,6 +216,10 @@ func mergeNode(node *yaml.Node, merge *yaml.Node) {
 	}
 	switch node.Kind {
 	default:
+		// the tag and style belong to the value: a number replaced by a string
+		// (or a string by null) must not keep the old type.
+		node.Tag = merge.Tag
+		node.Style = merge.Style
 		node.Value = merge.Value
 	case yaml.MappingNode:
 		mergeMappingNode(node, merge)
-- 
2.43.0


From 1985b2a46a3758d91c2857472d6db46716b0dae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 02/60] fix: overlay copy uses the source as it was before the
 copy when source and target overlap

---
 overlay/engine.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/overlay/engine.go b/overlay/engine.go
index 299d3f6..fae620e 100644
--- a/overlay/engine.go
+++ b/overlay/engine.go
@@ -140,7 +140,9 @@ func applyCopyAction(root *yaml.Node, targetNodes []*yaml.Node, copyPath string)
 		return nil, ErrCopySourceMultiple
 	}
 
-	sourceNode := sourceNodes[0]
+	// The source may contain, or be contained in, a target: copy it as it is now,
+	// before any target changes.
+	sourceNode := utils.CloneYAMLNode(sourceNodes[0])
 
 	// Type compatibility check per spec: "If the target expression and
 	// copy expression do not return the same type, an error MUST be reported"
@@ -148,6 +150,8 @@ func applyCopyAction(root *yaml.Node, targetNodes []*yaml.Node, copyPath string)
 		if sourceNode.Kind != targetNode.Kind {
 			return nil, ErrCopyTypeMismatch
 		}
+	}
+	for _, targetNode := range targetNodes {
 		mergeNode(targetNode, sourceNode)
 	}
 
-- 
2.43.0


From ade2c7c76a153adb9586c5b11aacc177dca7c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 03/60] fix: overlay update of an array target with a single
 entry appends it instead of replacing the array

---
 overlay/engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/overlay/engine.go b/overlay/engine.go
index fae620e..d6629b6 100644
--- a/overlay/engine.go
+++ b/overlay/engine.go
@@ -169,6 +169,11 @@ func applyUpdateAction(nodes []*yaml.Node, update *yaml.Node) {
 		return
 	}
 	for _, node := range nodes {
+		if node.Kind == yaml.SequenceNode && update.Kind != yaml.SequenceNode {
+			// a non-array update of an array target is an entry to append
+			node.Content = append(node.Content, utils.CloneYAMLNode(update))
+			continue
+		}
 		mergeNode(node, update)
 	}
 }
-- 
2.43.0


From 4a739116768b07bb62c645eb215161809383b749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 04/60] fix: overlay remove of a property selected by name
 removes that property instead of panicking or corrupting the object

---
 overlay/engine.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/overlay/engine.go b/overlay/engine.go
index d6629b6..2b1fb2f 100644
--- a/overlay/engine.go
+++ b/overlay/engine.go
@@ -207,7 +207,11 @@ func removeNode(idx parentIndex, node *yaml.Node) {
 		if child == node {
 			switch parent.Kind {
 			case yaml.MappingNode:
-				// JSONPath returns value nodes (odd indices), so remove both key and value
+				// JSONPath returns value nodes (odd indices), or key nodes (even indices)
+				// for property names: remove both key and value
+				if i%2 == 0 {
+					i++
+				}
 				parent.Content = append(parent.Content[:i-1], parent.Content[i+1:]...)
 				return
 			case yaml.SequenceNode:
-- 
2.43.0


From ae48b7bb24ca65b6a015846f3c9c430ce97b5846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 05/60] fix: a path item whose summary or description reads
 'parameters' or 'x-...' keeps its operations

---
 datamodel/low/v3/path_item.go | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/datamodel/low/v3/path_item.go b/datamodel/low/v3/path_item.go
index 5d7146a..07ed7df 100644
--- a/datamodel/low/v3/path_item.go
+++ b/datamodel/low/v3/path_item.go
@@ -218,7 +218,6 @@ func (p *PathItem) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 	p.context = ctx
 
 	low.ExtractExtensionNodes(ctx, p.Extensions, p.Nodes)
-	skip := false
 	var currentNode *yaml.Node
 
 	ops := make([]low.NodeReference[*Operation], 0, len(root.Content)/2)
@@ -261,30 +260,14 @@ func (p *PathItem) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 			p.Nodes.Store(ln.Line, ln)
 		}
 	}
-	prevExt := false
 	for i, pathNode := range root.Content {
-		if len(pathNode.Value) >= 2 && (pathNode.Value[0] == 'x' || pathNode.Value[0] == 'X') && pathNode.Value[1] == '-' {
-			skip = true
-			prevExt = true
+		if i%2 == 0 {
+			currentNode = pathNode
 			continue
 		}
+		// only keys decide what is skipped: a value can be any text, including 'x-something' or 'parameters'
 		// https://github.com/pb33f/libopenapi/issues/388
-		// in the case where a user has an extension with the value 'parameters', make sure we handle
-		// it correctly, by not skipping.
-		if strings.EqualFold(pathNode.Value, "parameters") {
-			if !prevExt { // this
-				skip = true
-				continue
-			} else {
-				prevExt = false
-			}
-		}
-		if skip {
-			skip = false
-			continue
-		}
-		if i%2 == 0 {
-			currentNode = pathNode
+		if strings.HasPrefix(strings.ToLower(currentNode.Value), "x-") || strings.EqualFold(currentNode.Value, "parameters") {
 			continue
 		}
 
-- 
2.43.0


From 861be662594d7bc16b3dab9fe69a8271cb38ec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 06/60] fix: additionalOperations of a path item appear in the
 high-level model and its rendering

---
 datamodel/low/v3/path_item.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/datamodel/low/v3/path_item.go b/datamodel/low/v3/path_item.go
index 07ed7df..084bf10 100644
--- a/datamodel/low/v3/path_item.go
+++ b/datamodel/low/v3/path_item.go
@@ -222,6 +222,7 @@ func (p *PathItem) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 
 	ops := make([]low.NodeReference[*Operation], 0, len(root.Content)/2)
 	var additionalOps *orderedmap.Map[low.KeyReference[string], low.NodeReference[*Operation]]
+	var additionalKey, additionalNode *yaml.Node
 
 	// extract parameters
 	params, ln, vn, pErr := low.ExtractArray[*Parameter](ctx, ParametersLabel, root, idx)
@@ -343,7 +344,7 @@ func (p *PathItem) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 
 			// now we need to determine if these are inline additional operations, or just plonked into the root.
 			if currentNode.Value == AdditionalOperationsLabel {
-
+				additionalKey, additionalNode = currentNode, pathNode
 				for j := 0; j < len(pathNode.Content); j += 2 {
 					opKeyNode := pathNode.Content[j]
 					opValueNode := pathNode.Content[j+1]
@@ -421,10 +422,14 @@ func (p *PathItem) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 			extrOps = append(extrOps, appVal)
 		}
 
-		err = datamodel.TranslateSliceParallel[low.NodeReference[*Operation], any](extrOps, translateFunc, nil)
+		if err = datamodel.TranslateSliceParallel[low.NodeReference[*Operation], any](extrOps, translateFunc, nil); err != nil {
+			return err
+		}
 
 		p.AdditionalOperations = low.NodeReference[*orderedmap.Map[low.KeyReference[string], low.NodeReference[*Operation]]]{
-			Value: additionalOps,
+			Value:     additionalOps,
+			KeyNode:   additionalKey,
+			ValueNode: additionalNode,
 		}
 	}
 	return nil
-- 
2.43.0


From e4cd54e217e903e1c1b8b354309a73c6e1ce5f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 07/60] fix: a header does not take over the example or
 examples of its schema

---
 datamodel/low/v3/header.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datamodel/low/v3/header.go b/datamodel/low/v3/header.go
index 02929e2..fa3466e 100644
--- a/datamodel/low/v3/header.go
+++ b/datamodel/low/v3/header.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"fmt"
 	"hash/maphash"
+	"slices"
 	"sync"
 
 	"github.com/pb33f/libopenapi/datamodel/low"
@@ -151,7 +152,7 @@ func (h *Header) Build(ctx context.Context, keyNode, root *yaml.Node, idx *index
 
 	low.ExtractExtensionNodes(ctx, h.Extensions, h.Nodes)
 	// handle example if set.
-	_, expLabel, expNode := utils.FindKeyNodeFull(base.ExampleLabel, root.Content)
+	_, expLabel, expNode := utils.FindKeyNodeFullTop(base.ExampleLabel, root.Content)
 	if expNode != nil {
 		h.Example = low.NodeReference[*yaml.Node]{
 			Value:     expNode,
@@ -171,7 +172,8 @@ func (h *Header) Build(ctx context.Context, keyNode, root *yaml.Node, idx *index
 	if eErr != nil {
 		return eErr
 	}
-	if exps != nil {
+	// only consider examples if they are defined in the root node.
+	if exps != nil && slices.Contains(root.Content, expsL) {
 		h.Examples = low.NodeReference[*orderedmap.Map[low.KeyReference[string], low.ValueReference[*base.Example]]]{
 			Value:     exps,
 			KeyNode:   expsL,
-- 
2.43.0


From c516c93adf40601d78def687f90b1fc7ea4fe1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 08/60] fix: an empty string in the enum of a server variable
 is kept

---
 datamodel/high/v3/server_variable.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/datamodel/high/v3/server_variable.go b/datamodel/high/v3/server_variable.go
index f798ff8..9d3e6ad 100644
--- a/datamodel/high/v3/server_variable.go
+++ b/datamodel/high/v3/server_variable.go
@@ -28,9 +28,7 @@ func NewServerVariable(variable *low.ServerVariable) *ServerVariable {
 	v.low = variable
 	var enums []string
 	for _, enum := range variable.Enum {
-		if enum.Value != "" {
-			enums = append(enums, enum.Value)
-		}
+		enums = append(enums, enum.Value)
 	}
 	v.Default = variable.Default.Value
 	v.Description = variable.Description.Value
-- 
2.43.0


From ab526e03c4378858f6b1648674a3f35ddb51b02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 09/60] fix: explicit false (and zero multipleOf) values of
 operations and schemas are rendered

---
 datamodel/high/base/schema.go  | 8 ++++----
 datamodel/high/v3/operation.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/datamodel/high/base/schema.go b/datamodel/high/base/schema.go
index 3a7059c..1988dd9 100644
--- a/datamodel/high/base/schema.go
+++ b/datamodel/high/base/schema.go
@@ -102,7 +102,7 @@ type Schema struct {
 	Not                  *SchemaProxy                          `json:"not,omitempty" yaml:"not,omitempty"`
 	Properties           *orderedmap.Map[string, *SchemaProxy] `json:"properties,omitempty" yaml:"properties,omitempty"`
 	Title                string                                `json:"title,omitempty" yaml:"title,omitempty"`
-	MultipleOf           *float64                              `json:"multipleOf,omitempty" yaml:"multipleOf,omitempty"`
+	MultipleOf           *float64                              `json:"multipleOf,renderZero,omitempty" yaml:"multipleOf,renderZero,omitempty"`
 	Maximum              *float64                              `json:"maximum,renderZero,omitempty" yaml:"maximum,renderZero,omitempty"`
 	Minimum              *float64                              `json:"minimum,renderZero,omitempty," yaml:"minimum,renderZero,omitempty"`
 	MaxLength            *int64                                `json:"maxLength,renderZero,omitempty" yaml:"maxLength,renderZero,omitempty"`
@@ -111,7 +111,7 @@ type Schema struct {
 	Format               string                                `json:"format,omitempty" yaml:"format,omitempty"`
 	MaxItems             *int64                                `json:"maxItems,renderZero,omitempty" yaml:"maxItems,renderZero,omitempty"`
 	MinItems             *int64                                `json:"minItems,renderZero,omitempty" yaml:"minItems,renderZero,omitempty"`
-	UniqueItems          *bool                                 `json:"uniqueItems,omitempty" yaml:"uniqueItems,omitempty"`
+	UniqueItems          *bool                                 `json:"uniqueItems,renderZero,omitempty" yaml:"uniqueItems,renderZero,omitempty"`
 	MaxProperties        *int64                                `json:"maxProperties,renderZero,omitempty" yaml:"maxProperties,renderZero,omitempty"`
 	MinProperties        *int64                                `json:"minProperties,renderZero,omitempty" yaml:"minProperties,renderZero,omitempty"`
 	Required             []string                              `json:"required,omitempty" yaml:"required,omitempty"`
@@ -122,13 +122,13 @@ type Schema struct {
 	ContentMediaType     string                                `json:"contentMediaType,omitempty" yaml:"contentMediaType,omitempty"`
 	Default              *yaml.Node                            `json:"default,omitempty" yaml:"default,renderZero,omitempty"`
 	Const                *yaml.Node                            `json:"const,omitempty" yaml:"const,renderZero,omitempty"`
-	Nullable             *bool                                 `json:"nullable,omitempty" yaml:"nullable,omitempty"`
+	Nullable             *bool                                 `json:"nullable,renderZero,omitempty" yaml:"nullable,renderZero,omitempty"`
 	ReadOnly             *bool                                 `json:"readOnly,renderZero,omitempty" yaml:"readOnly,renderZero,omitempty"`   // https://github.com/pb33f/libopenapi/issues/30
 	WriteOnly            *bool                                 `json:"writeOnly,renderZero,omitempty" yaml:"writeOnly,renderZero,omitempty"` // https://github.com/pb33f/libopenapi/issues/30
 	XML                  *XML                                  `json:"xml,omitempty" yaml:"xml,omitempty"`
 	ExternalDocs         *ExternalDoc                          `json:"externalDocs,omitempty" yaml:"externalDocs,omitempty"`
 	Example              *yaml.Node                            `json:"example,omitempty" yaml:"example,omitempty"`
-	Deprecated           *bool                                 `json:"deprecated,omitempty" yaml:"deprecated,omitempty"`
+	Deprecated           *bool                                 `json:"deprecated,renderZero,omitempty" yaml:"deprecated,renderZero,omitempty"`
 	Extensions           *orderedmap.Map[string, *yaml.Node]   `json:"-" yaml:"-"`
 	low                  *base.Schema
 
diff --git a/datamodel/high/v3/operation.go b/datamodel/high/v3/operation.go
index 25cc1e3..0ccc4f3 100644
--- a/datamodel/high/v3/operation.go
+++ b/datamodel/high/v3/operation.go
@@ -27,7 +27,7 @@ type Operation struct {
 	RequestBody  *RequestBody                        `json:"requestBody,omitempty" yaml:"requestBody,omitempty"`
 	Responses    *Responses                          `json:"responses,omitempty" yaml:"responses,omitempty"`
 	Callbacks    *orderedmap.Map[string, *Callback]  `json:"callbacks,omitempty" yaml:"callbacks,omitempty"`
-	Deprecated   *bool                               `json:"deprecated,omitempty" yaml:"deprecated,omitempty"`
+	Deprecated   *bool                               `json:"deprecated,renderZero,omitempty" yaml:"deprecated,renderZero,omitempty"`
 	Security     []*base.SecurityRequirement         `json:"security,omitempty" yaml:"security,omitempty"`
 	Servers      []*Server                           `json:"servers,omitempty" yaml:"servers,omitempty"`
 	Extensions   *orderedmap.Map[string, *yaml.Node] `json:"-" yaml:"-"`
-- 
2.43.0


From fbbacf8ebcab2293f981d05441b2645b467e289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:09 +0000
Subject: [PATCH 10/60] fix: keys of extensions, examples and map entries are
 not taken for fields of the enclosing object

---
 datamodel/low/base/example.go         |  6 +++---
 datamodel/low/base/schema.go          |  2 +-
 datamodel/low/extraction_functions.go | 16 ++++++++++++++--
 datamodel/low/v2/header.go            |  2 +-
 datamodel/low/v2/items.go             |  2 +-
 datamodel/low/v2/parameter.go         |  2 +-
 datamodel/low/v3/create_document.go   | 10 +++++-----
 datamodel/low/v3/operation.go         |  2 +-
 datamodel/low/v3/server.go            |  2 +-
 9 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/datamodel/low/base/example.go b/datamodel/low/base/example.go
index f6b8107..4d276f4 100644
--- a/datamodel/low/base/example.go
+++ b/datamodel/low/base/example.go
@@ -108,9 +108,9 @@ func (ex *Example) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 	ex.context = ctx
 	ex.index = idx
 
-	_, ln, vn := utils.FindKeyNodeFull(ValueLabel, root.Content)
-	_, dataLn, dataVn := utils.FindKeyNodeFull(DataValueLabel, root.Content)
-	_, serializedLn, serializedVn := utils.FindKeyNodeFull(SerializedValueLabel, root.Content)
+	_, ln, vn := utils.FindKeyNodeFullTop(ValueLabel, root.Content)
+	_, dataLn, dataVn := utils.FindKeyNodeFullTop(DataValueLabel, root.Content)
+	_, serializedLn, serializedVn := utils.FindKeyNodeFullTop(SerializedValueLabel, root.Content)
 
 	if vn != nil {
 		ex.Value = low.NodeReference[*yaml.Node]{
diff --git a/datamodel/low/base/schema.go b/datamodel/low/base/schema.go
index 4b18f66..acf660d 100644
--- a/datamodel/low/base/schema.go
+++ b/datamodel/low/base/schema.go
@@ -159,7 +159,7 @@ func ExtractSchema(ctx context.Context, root *yaml.Node, idx *index.SpecIndex) (
 		return extractSchemaProxy(ctx, idx, refLabel, root, errStr)
 	}
 
-	_, schLabel, schNode := utils.FindKeyNodeFull(SchemaLabel, root.Content)
+	_, schLabel, schNode := utils.FindKeyNodeFullTop(SchemaLabel, root.Content)
 	if schNode != nil {
 		return extractSchemaProxy(ctx, idx, schLabel, schNode, errStr)
 	}
diff --git a/datamodel/low/extraction_functions.go b/datamodel/low/extraction_functions.go
index 222aeec..007b6d7 100644
--- a/datamodel/low/extraction_functions.go
+++ b/datamodel/low/extraction_functions.go
@@ -482,7 +482,7 @@ func ExtractObject[T Buildable[N], N any](ctx context.Context, label string, roo
 			}
 		}
 	} else {
-		_, ln, vn = findExtractLabelNode(label, root)
+		ln, vn = findFieldNode(label, root)
 		if vn != nil {
 			if h, _, rVal := utils.IsNodeRefValue(vn); h {
 				ref, fIdx, lerr, nCtx := LocateRefNodeWithContext(ctx, vn, idx)
@@ -887,6 +887,18 @@ func findExtractLabelNode(label string, root *yaml.Node) (keyNode *yaml.Node, la
 	return utils.FindKeyNodeFull(label, root.Content)
 }
 
+// findFieldNode locates a field of an object. Only the keys of the object itself are considered: a key of the same name
+// inside one of its values (an extension, an example, a map entry) is not a field of the object.
+func findFieldNode(label string, root *yaml.Node) (labelNode *yaml.Node, valueNode *yaml.Node) {
+	root = utils.NodeAlias(root)
+	if utils.IsNodeMap(root) {
+		_, labelNode, valueNode = utils.FindKeyNodeFullTop(label, root.Content)
+		return labelNode, valueNode
+	}
+	_, labelNode, valueNode = findExtractLabelNode(label, root)
+	return labelNode, valueNode
+}
+
 func collectMapBuildInputs(valueNode *yaml.Node, extensions bool) []buildInput {
 	if valueNode == nil || len(valueNode.Content) == 0 {
 		return nil
@@ -951,7 +963,7 @@ func ExtractMapExtensions[PT Buildable[N], N any](
 				root.Content[1].Value)
 		}
 	} else {
-		_, labelNode, valueNode = findExtractLabelNode(label, root)
+		labelNode, valueNode = findFieldNode(label, root)
 		valueNode = utils.NodeAlias(valueNode)
 		if valueNode != nil {
 			if h, _, _ := utils.IsNodeRefValue(valueNode); h {
diff --git a/datamodel/low/v2/header.go b/datamodel/low/v2/header.go
index 890d6dd..6910c5d 100644
--- a/datamodel/low/v2/header.go
+++ b/datamodel/low/v2/header.go
@@ -62,7 +62,7 @@ func (h *Header) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecI
 	}
 	h.Items = items
 
-	_, ln, vn := utils.FindKeyNodeFull(DefaultLabel, root.Content)
+	_, ln, vn := utils.FindKeyNodeFullTop(DefaultLabel, root.Content)
 	if vn != nil {
 		h.Default = low.NodeReference[*yaml.Node]{
 			Value:     vn,
diff --git a/datamodel/low/v2/items.go b/datamodel/low/v2/items.go
index 279fc85..c84c410 100644
--- a/datamodel/low/v2/items.go
+++ b/datamodel/low/v2/items.go
@@ -127,7 +127,7 @@ func (i *Items) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIn
 	}
 	i.Items = items
 
-	_, ln, vn := utils.FindKeyNodeFull(DefaultLabel, root.Content)
+	_, ln, vn := utils.FindKeyNodeFullTop(DefaultLabel, root.Content)
 	if vn != nil {
 		i.Default = low.NodeReference[*yaml.Node]{
 			Value:     vn,
diff --git a/datamodel/low/v2/parameter.go b/datamodel/low/v2/parameter.go
index e38aaf6..43bef32 100644
--- a/datamodel/low/v2/parameter.go
+++ b/datamodel/low/v2/parameter.go
@@ -112,7 +112,7 @@ func (p *Parameter) Build(ctx context.Context, _, root *yaml.Node, idx *index.Sp
 	}
 	p.Items = items
 
-	_, ln, vn := utils.FindKeyNodeFull(DefaultLabel, root.Content)
+	_, ln, vn := utils.FindKeyNodeFullTop(DefaultLabel, root.Content)
 	if vn != nil {
 		p.Default = low.NodeReference[*yaml.Node]{
 			Value:     vn,
diff --git a/datamodel/low/v3/create_document.go b/datamodel/low/v3/create_document.go
index 90e228e..aeb26ff 100644
--- a/datamodel/low/v3/create_document.go
+++ b/datamodel/low/v3/create_document.go
@@ -137,7 +137,7 @@ func CreateDocumentFromConfig(info *datamodel.SpecInfo, config *datamodel.Docume
 func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfiguration) (*Document, error) {
 	rootNode := utils.NodeAlias(info.RootNode.Content[0])
 	topNodes := collectDocumentTopLevelNodes(rootNode)
-	versionNodeRef := selectDocumentNode(rootNode, topNodes.version, OpenAPILabel, false)
+	versionNodeRef := selectDocumentNode(rootNode, topNodes.version, OpenAPILabel, true)
 	labelNode, versionNode := versionNodeRef.key, versionNodeRef.value
 	var version low.NodeReference[string]
 	if versionNode == nil {
@@ -311,7 +311,7 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 	low.ExtractExtensionNodes(ctx, doc.Extensions, doc.Nodes)
 
 	// if set, extract jsonSchemaDialect (3.1)
-	dialectRef := selectDocumentNode(rootNode, topNodes.jsonSchemaDialect, JSONSchemaDialectLabel, false)
+	dialectRef := selectDocumentNode(rootNode, topNodes.jsonSchemaDialect, JSONSchemaDialectLabel, true)
 	dialectLabel, dialectNode := dialectRef.key, dialectRef.value
 	if dialectNode != nil {
 		doc.JsonSchemaDialect = low.NodeReference[string]{
@@ -320,7 +320,7 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 	}
 
 	// if set, extract $self (3.2)
-	selfRef := selectDocumentNode(rootNode, topNodes.self, SelfLabel, false)
+	selfRef := selectDocumentNode(rootNode, topNodes.self, SelfLabel, true)
 	selfLabel, selfNode := selfRef.key, selfRef.value
 	if selfNode != nil {
 		doc.Self = low.NodeReference[string]{
@@ -413,7 +413,7 @@ func extractComponents(ctx context.Context, root *yaml.Node, nodes documentTopLe
 }
 
 func extractServers(ctx context.Context, root *yaml.Node, nodes documentTopLevelNodes, doc *Document, idx *index.SpecIndex) error {
-	nodeRef := selectDocumentNode(root, nodes.servers, ServersLabel, false)
+	nodeRef := selectDocumentNode(root, nodes.servers, ServersLabel, true)
 	ln, vn := nodeRef.key, nodeRef.value
 	if vn != nil {
 		if utils.IsNodeArray(vn) {
@@ -440,7 +440,7 @@ func extractServers(ctx context.Context, root *yaml.Node, nodes documentTopLevel
 }
 
 func extractTags(ctx context.Context, root *yaml.Node, nodes documentTopLevelNodes, doc *Document, idx *index.SpecIndex) error {
-	nodeRef := selectDocumentNode(root, nodes.tags, base.TagsLabel, false)
+	nodeRef := selectDocumentNode(root, nodes.tags, base.TagsLabel, true)
 	ln, vn := nodeRef.key, nodeRef.value
 	if vn != nil {
 		if utils.IsNodeArray(vn) {
diff --git a/datamodel/low/v3/operation.go b/datamodel/low/v3/operation.go
index e54657d..1ed86b6 100644
--- a/datamodel/low/v3/operation.go
+++ b/datamodel/low/v3/operation.go
@@ -133,7 +133,7 @@ func (o *Operation) Build(ctx context.Context, keyNode, root *yaml.Node, idx *in
 	o.RequestBody = rBody
 
 	// extract tags, but only extract nodes, the model has already been built
-	k, v := utils.FindKeyNode(TagsLabel, root.Content)
+	k, v := utils.FindKeyNodeTop(TagsLabel, root.Content)
 	if k != nil && v != nil {
 		o.Nodes.Store(k.Line, k)
 		low.MergeRecursiveNodesIfLineAbsent(o.Nodes, v)
diff --git a/datamodel/low/v3/server.go b/datamodel/low/v3/server.go
index 0c7dc14..4f8ec8a 100644
--- a/datamodel/low/v3/server.go
+++ b/datamodel/low/v3/server.go
@@ -69,7 +69,7 @@ func (s *Server) Build(ctx context.Context, keyNode, root *yaml.Node, idx *index
 
 	low.ExtractExtensionNodes(ctx, s.Extensions, s.Nodes)
 
-	kn, vars := utils.FindKeyNode(VariablesLabel, root.Content)
+	kn, vars := utils.FindKeyNodeTop(VariablesLabel, root.Content)
 	if vars == nil {
 		return nil
 	}
-- 
2.43.0


From 86957055cedfc8159546cf7b8b669967ebb5cbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 11/60] fix: cached object hashes cannot be picked up by
 another object at the same address

---
 datamodel/low/extraction_functions.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/datamodel/low/extraction_functions.go b/datamodel/low/extraction_functions.go
index 007b6d7..a94f3d9 100644
--- a/datamodel/low/extraction_functions.go
+++ b/datamodel/low/extraction_functions.go
@@ -1163,8 +1163,8 @@ func GenerateHashString(v any) string {
 		}
 
 		if shouldCache {
-			cacheKey := val.Pointer()
-			if cached, ok := hashCache.Load(cacheKey); ok {
+			// the pointer itself is the key: a bare address may belong to another object by now.
+			if cached, ok := hashCache.Load(v); ok {
 				return cached.(string)
 			}
 		}
@@ -1232,8 +1232,7 @@ func GenerateHashString(v any) string {
 
 	// Store in cache if we have a valid pointer and caching is enabled for this type
 	if shouldCache && val.Kind() == reflect.Ptr && !val.IsNil() && hashStr != "" {
-		cacheKey := val.Pointer()
-		hashCache.Store(cacheKey, hashStr)
+		hashCache.Store(v, hashStr)
 	}
 
 	return hashStr
-- 
2.43.0


From bae1dc658738926fd18455cd57147121b25792da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 12/60] fix: the additionalOperations container of a path item
 is not built as an operation itself

---
 datamodel/low/v3/path_item.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datamodel/low/v3/path_item.go b/datamodel/low/v3/path_item.go
index 084bf10..adaa2e2 100644
--- a/datamodel/low/v3/path_item.go
+++ b/datamodel/low/v3/path_item.go
@@ -313,7 +313,10 @@ func (p *PathItem) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 			opRef.SetReference(opRefVal, opRefNode)
 		}
 
-		ops = append(ops, opRef)
+		// 'additionalOperations' holds operations, it is not one itself.
+		if isStandardOp || currentNode.Value != AdditionalOperationsLabel {
+			ops = append(ops, opRef)
+		}
 
 		if isStandardOp {
 			switch currentNode.Value {
-- 
2.43.0


From 43cb32ca005cab88b43373d615d0b25f55ede2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 13/60] fix: a list entry reading 'externalDocs' does not panic
 the index

---
 index/spec_index_counts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/spec_index_counts.go b/index/spec_index_counts.go
index 37e1280..2993198 100644
--- a/index/spec_index_counts.go
+++ b/index/spec_index_counts.go
@@ -44,7 +44,7 @@ func (index *SpecIndex) ExtractExternalDocuments(node *yaml.Node) []*Reference {
 			if utils.IsNodeMap(n) || utils.IsNodeArray(n) {
 				found = append(found, index.ExtractExternalDocuments(n)...)
 			}
-			if i%2 == 0 && n.Value == "externalDocs" {
+			if i%2 == 0 && n.Value == "externalDocs" && utils.IsNodeMap(node) {
 				docNode := node.Content[i+1]
 				_, urlNode := utils.FindKeyNode("url", docNode.Content)
 				if urlNode != nil {
-- 
2.43.0


From cc3349e7991f319e2c35a053d9a2e267cd3474de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 14/60] fix: the index looks up names, urls and component
 sections among the object's own keys only

---
 index/spec_index_counts.go | 32 ++++++++++++++++----------------
 index/utility_methods.go   |  2 +-
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/index/spec_index_counts.go b/index/spec_index_counts.go
index 2993198..6c3f210 100644
--- a/index/spec_index_counts.go
+++ b/index/spec_index_counts.go
@@ -46,7 +46,7 @@ func (index *SpecIndex) ExtractExternalDocuments(node *yaml.Node) []*Reference {
 			}
 			if i%2 == 0 && n.Value == "externalDocs" && utils.IsNodeMap(node) {
 				docNode := node.Content[i+1]
-				_, urlNode := utils.FindKeyNode("url", docNode.Content)
+				_, _, urlNode := utils.FindKeyNodeFullTop("url", docNode.Content)
 				if urlNode != nil {
 					ref := &Reference{Definition: urlNode.Value, Name: urlNode.Value, Node: docNode}
 					index.externalDocumentsRef = append(index.externalDocumentsRef, ref)
@@ -75,8 +75,8 @@ func (index *SpecIndex) GetGlobalTagsCount() int {
 				index.tagsNode = tagsNode
 				index.globalTagsCount = len(tagsNode.Content)
 				for x, tagNode := range index.tagsNode.Content {
-					_, name := utils.FindKeyNode("name", tagNode.Content)
-					_, description := utils.FindKeyNode("description", tagNode.Content)
+					_, _, name := utils.FindKeyNodeFullTop("name", tagNode.Content)
+					_, _, description := utils.FindKeyNodeFullTop("description", tagNode.Content)
 					desc := ""
 					if description == nil {
 						desc = ""
@@ -107,8 +107,8 @@ func (index *SpecIndex) checkTagCircularReferences() {
 	tagNodes := make(map[string]*yaml.Node)
 
 	for x, tagNode := range index.tagsNode.Content {
-		_, nameNode := utils.FindKeyNode("name", tagNode.Content)
-		_, parentNode := utils.FindKeyNode("parent", tagNode.Content)
+		_, _, nameNode := utils.FindKeyNodeFullTop("name", tagNode.Content)
+		_, _, parentNode := utils.FindKeyNodeFullTop("parent", tagNode.Content)
 		if nameNode != nil {
 			tagName := nameNode.Value
 			tagNodes[tagName] = tagNode
@@ -374,16 +374,16 @@ func (index *SpecIndex) GetComponentSchemaCount() int {
 			}
 		}
 		if n.Value == "components" {
-			_, schemasNode := utils.FindKeyNode("schemas", index.root.Content[0].Content[i+1].Content)
-			_, parametersNode := utils.FindKeyNode("parameters", index.root.Content[0].Content[i+1].Content)
-			_, requestBodiesNode := utils.FindKeyNode("requestBodies", index.root.Content[0].Content[i+1].Content)
-			_, responsesNode := utils.FindKeyNode("responses", index.root.Content[0].Content[i+1].Content)
-			_, securitySchemesNode := utils.FindKeyNode("securitySchemes", index.root.Content[0].Content[i+1].Content)
-			_, headersNode := utils.FindKeyNode("headers", index.root.Content[0].Content[i+1].Content)
-			_, examplesNode := utils.FindKeyNode("examples", index.root.Content[0].Content[i+1].Content)
-			_, linksNode := utils.FindKeyNode("links", index.root.Content[0].Content[i+1].Content)
-			_, callbacksNode := utils.FindKeyNode("callbacks", index.root.Content[0].Content[i+1].Content)
-			_, pathItemsNode := utils.FindKeyNode("pathItems", index.root.Content[0].Content[i+1].Content)
+			_, _, schemasNode := utils.FindKeyNodeFullTop("schemas", index.root.Content[0].Content[i+1].Content)
+			_, _, parametersNode := utils.FindKeyNodeFullTop("parameters", index.root.Content[0].Content[i+1].Content)
+			_, _, requestBodiesNode := utils.FindKeyNodeFullTop("requestBodies", index.root.Content[0].Content[i+1].Content)
+			_, _, responsesNode := utils.FindKeyNodeFullTop("responses", index.root.Content[0].Content[i+1].Content)
+			_, _, securitySchemesNode := utils.FindKeyNodeFullTop("securitySchemes", index.root.Content[0].Content[i+1].Content)
+			_, _, headersNode := utils.FindKeyNodeFullTop("headers", index.root.Content[0].Content[i+1].Content)
+			_, _, examplesNode := utils.FindKeyNodeFullTop("examples", index.root.Content[0].Content[i+1].Content)
+			_, _, linksNode := utils.FindKeyNodeFullTop("links", index.root.Content[0].Content[i+1].Content)
+			_, _, callbacksNode := utils.FindKeyNodeFullTop("callbacks", index.root.Content[0].Content[i+1].Content)
+			_, _, pathItemsNode := utils.FindKeyNodeFullTop("pathItems", index.root.Content[0].Content[i+1].Content)
 
 			if schemasNode != nil {
 				index.extractDefinitionsAndSchemas(schemasNode, "#/components/schemas/")
@@ -475,7 +475,7 @@ func (index *SpecIndex) GetComponentParameterCount() int {
 	for i, n := range index.root.Content[0].Content {
 		if i%2 == 0 {
 			if n.Value == "components" {
-				_, parametersNode := utils.FindKeyNode("parameters", index.root.Content[0].Content[i+1].Content)
+				_, _, parametersNode := utils.FindKeyNodeFullTop("parameters", index.root.Content[0].Content[i+1].Content)
 				if parametersNode != nil {
 					index.componentLock.Lock()
 					index.parametersNode = parametersNode
diff --git a/index/utility_methods.go b/index/utility_methods.go
index d201dca..105e1fe 100644
--- a/index/utility_methods.go
+++ b/index/utility_methods.go
@@ -473,7 +473,7 @@ func (index *SpecIndex) scanOperationParams(params []*yaml.Node, keyNode, pathIt
 		} else {
 
 			// param is inline.
-			_, vn := utils.FindKeyNode("name", param.Content)
+			_, _, vn := utils.FindKeyNodeFullTop("name", param.Content)
 
 			path := formatParameterPath(pathItemNode.Value, method, i)
 
-- 
2.43.0


From bd1292ab45aae45e9437e9eca7fa592fda081131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 15/60] fix: extensions keep their own place when rendered,
 keys of single-line sources keep their order, names differing only in case
 are told apart

---
 datamodel/high/base/security_requirement.go |  4 +--
 datamodel/high/node_builder.go              | 27 +++++++++------------
 datamodel/high/nodes/nodeentry.go           |  1 +
 datamodel/high/v3/callback.go               |  4 +--
 datamodel/high/v3/paths.go                  |  4 +--
 datamodel/high/v3/responses.go              |  4 +--
 datamodel/low/extraction_functions.go       |  4 +++
 7 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/datamodel/high/base/security_requirement.go b/datamodel/high/base/security_requirement.go
index 0596dd1..30bb613 100644
--- a/datamodel/high/base/security_requirement.go
+++ b/datamodel/high/base/security_requirement.go
@@ -92,7 +92,7 @@ func (s *SecurityRequirement) MarshalYAML() (interface{}, error) {
 			}
 		}
 	}
-	sort.Slice(keys, func(i, j int) bool {
+	sort.SliceStable(keys, func(i, j int) bool {
 		return keys[i].line < keys[j].line
 	})
 
@@ -120,7 +120,7 @@ func (s *SecurityRequirement) MarshalYAML() (interface{}, error) {
 				}
 			}
 		}
-		sort.Slice(reqs, func(i, j int) bool {
+		sort.SliceStable(reqs, func(i, j int) bool {
 			return reqs[i].line < reqs[j].line
 		})
 		sn := utils.CreateEmptySequenceNode()
diff --git a/datamodel/high/node_builder.go b/datamodel/high/node_builder.go
index b282dc0..2a0eabd 100644
--- a/datamodel/high/node_builder.go
+++ b/datamodel/high/node_builder.go
@@ -135,25 +135,20 @@ func (n *NodeBuilder) add(key string, i int) {
 			}
 		}
 
-		j := 0
-		if lowExtensions != nil {
-			// If we have low extensions get the original lowest line number so we end up in the same place
-			for ext := range lowExtensions.KeysFromOldest() {
-				if j == 0 || ext.KeyNode.Line < j {
-					j = ext.KeyNode.Line
-				}
-			}
-		}
-
+		// extensions that were there originally keep their own place, new ones follow the one before them.
+		line, column := 0, 0
 		for ext, node := range extensions.FromOldest() {
-			nodeEntry := &nodes.NodeEntry{Tag: ext, Key: ext, Value: node, Line: j}
+			nodeEntry := &nodes.NodeEntry{Tag: ext, Key: ext, Value: node}
 
 			if lowExtensions != nil {
-				lowItem := low.FindItemInOrderedMap(ext, lowExtensions)
+				lowKey, lowItem := low.FindItemInOrderedMapWithKey(ext, lowExtensions)
 				nodeEntry.LowValue = lowItem
+				if lowKey != nil && lowKey.KeyNode != nil {
+					line, column = lowKey.KeyNode.Line, lowKey.KeyNode.Column
+				}
 			}
+			nodeEntry.Line, nodeEntry.Column = line, column
 			n.Nodes = append(n.Nodes, nodeEntry)
-			j++
 		}
 		// done, extensions are handled separately.
 		return
@@ -290,11 +285,13 @@ func (n *NodeBuilder) add(key string, i int) {
 					if nb.IsReference() {
 						if jk, kj := y.(low.HasKeyNode); kj {
 							nodeEntry.Line = jk.GetKeyNode().Line
+							nodeEntry.Column = jk.GetKeyNode().Column
 							break
 						}
 					}
 					if nb.GetValueNode() != nil {
 						nodeEntry.Line = nb.GetValueNode().Line
+						nodeEntry.Column = nb.GetValueNode().Column
 					}
 				}
 			default:
@@ -334,11 +331,11 @@ func (n *NodeBuilder) Render() *yaml.Node {
 		}
 	}
 
-	sort.Slice(n.Nodes, func(i, j int) bool {
+	sort.SliceStable(n.Nodes, func(i, j int) bool {
 		if n.Nodes[i].Line != n.Nodes[j].Line {
 			return n.Nodes[i].Line < n.Nodes[j].Line
 		}
-		return false
+		return n.Nodes[i].Column < n.Nodes[j].Column
 	})
 
 	for i := range n.Nodes {
diff --git a/datamodel/high/nodes/nodeentry.go b/datamodel/high/nodes/nodeentry.go
index 4b2b93a..9307b6d 100644
--- a/datamodel/high/nodes/nodeentry.go
+++ b/datamodel/high/nodes/nodeentry.go
@@ -9,6 +9,7 @@ type NodeEntry struct {
 	Value       any
 	StringValue string
 	Line        int
+	Column      int
 	KeyStyle    yaml.Style
 	// ValueStyle  yaml.Style
 	RenderZero bool
diff --git a/datamodel/high/v3/callback.go b/datamodel/high/v3/callback.go
index f5c79f9..d3adcca 100644
--- a/datamodel/high/v3/callback.go
+++ b/datamodel/high/v3/callback.go
@@ -134,7 +134,7 @@ func (c *Callback) MarshalYAML() (interface{}, error) {
 		}
 	}
 
-	sort.Slice(mapped, func(i, j int) bool {
+	sort.SliceStable(mapped, func(i, j int) bool {
 		return mapped[i].line < mapped[j].line
 	})
 	for _, mp := range mapped {
@@ -236,7 +236,7 @@ func (c *Callback) marshalYAMLInlineInternal(ctx any) (interface{}, error) {
 		}
 	}
 
-	sort.Slice(mapped, func(i, j int) bool {
+	sort.SliceStable(mapped, func(i, j int) bool {
 		return mapped[i].line < mapped[j].line
 	})
 	for _, mp := range mapped {
diff --git a/datamodel/high/v3/paths.go b/datamodel/high/v3/paths.go
index b50f80d..10ef413 100644
--- a/datamodel/high/v3/paths.go
+++ b/datamodel/high/v3/paths.go
@@ -122,7 +122,7 @@ func (p *Paths) MarshalYAML() (interface{}, error) {
 		}
 	}
 
-	sort.Slice(mapped, func(i, j int) bool {
+	sort.SliceStable(mapped, func(i, j int) bool {
 		return mapped[i].line < mapped[j].line
 	})
 	for _, mp := range mapped {
@@ -202,7 +202,7 @@ func (p *Paths) marshalYAMLInlineWithContext(ctx any) (interface{}, error) {
 		}
 	}
 
-	sort.Slice(mapped, func(i, j int) bool {
+	sort.SliceStable(mapped, func(i, j int) bool {
 		return mapped[i].line < mapped[j].line
 	})
 	for _, mp := range mapped {
diff --git a/datamodel/high/v3/responses.go b/datamodel/high/v3/responses.go
index ff48297..d8c9048 100644
--- a/datamodel/high/v3/responses.go
+++ b/datamodel/high/v3/responses.go
@@ -133,7 +133,7 @@ func (r *Responses) MarshalYAML() (interface{}, error) {
 		}
 	}
 
-	sort.Slice(mapped, func(i, j int) bool {
+	sort.SliceStable(mapped, func(i, j int) bool {
 		return mapped[i].line < mapped[j].line
 	})
 	for _, mp := range mapped {
@@ -212,7 +212,7 @@ func (r *Responses) marshalYAMLInlineWithContext(ctx any) (interface{}, error) {
 		}
 	}
 
-	sort.Slice(mapped, func(i, j int) bool {
+	sort.SliceStable(mapped, func(i, j int) bool {
 		return mapped[i].line < mapped[j].line
 	})
 	for _, mp := range mapped {
diff --git a/datamodel/low/extraction_functions.go b/datamodel/low/extraction_functions.go
index a94f3d9..988a985 100644
--- a/datamodel/low/extraction_functions.go
+++ b/datamodel/low/extraction_functions.go
@@ -70,11 +70,15 @@ func FindItemInOrderedMap[T any](item string, collection *orderedmap.Map[KeyRefe
 
 // FindItemInOrderedMapWithKey is the same as FindItemInOrderedMap, except this code returns the key as well as the value.
 func FindItemInOrderedMapWithKey[T any](item string, collection *orderedmap.Map[KeyReference[string], ValueReference[T]]) (*KeyReference[string], *ValueReference[T]) {
+	// an exact match wins over one that only differs in case.
 	for pair := orderedmap.First(collection); pair != nil; pair = pair.Next() {
 		n := pair.Key()
 		if n.Value == item {
 			return &n, pair.ValuePtr()
 		}
+	}
+	for pair := orderedmap.First(collection); pair != nil; pair = pair.Next() {
+		n := pair.Key()
 		if strings.EqualFold(item, n.Value) {
 			return &n, pair.ValuePtr()
 		}
-- 
2.43.0


From 52d88badd45dcb488eadc9491db910405f976aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 16/60] fix: the default response and path items given by
 reference keep their place when rendered

---
 datamodel/high/node_builder.go | 10 ++++++++
 datamodel/high/v3/callback.go  | 44 ++++++++++++++++------------------
 datamodel/high/v3/paths.go     | 44 ++++++++++++++++------------------
 datamodel/high/v3/responses.go | 36 +++++++++++++++-------------
 4 files changed, 70 insertions(+), 64 deletions(-)

diff --git a/datamodel/high/node_builder.go b/datamodel/high/node_builder.go
index 2a0eabd..8181f00 100644
--- a/datamodel/high/node_builder.go
+++ b/datamodel/high/node_builder.go
@@ -345,6 +345,16 @@ func (n *NodeBuilder) Render() *yaml.Node {
 	return m
 }
 
+// Position returns where the entry with the supplied tag was found originally (or the weight it was given if it is new).
+func (n *NodeBuilder) Position(tag string) (line, column int) {
+	for _, node := range n.Nodes {
+		if node.Tag == tag {
+			return node.Line, node.Column
+		}
+	}
+	return 0, 0
+}
+
 // encodeSafeValue returns a value safe to pass to (*yaml.Node).Encode. When the
 // value is a *yaml.Node it returns a deep copy: Encode desolves the represented
 // graph in place (Desolve rewrites Tag/Style), and the representer aliases input
diff --git a/datamodel/high/v3/callback.go b/datamodel/high/v3/callback.go
index d3adcca..aa81c90 100644
--- a/datamodel/high/v3/callback.go
+++ b/datamodel/high/v3/callback.go
@@ -94,28 +94,25 @@ func (c *Callback) MarshalYAML() (interface{}, error) {
 		pi       *PathItem
 		path     string
 		line     int
+		column   int
 		style    yaml.Style
 		rendered *yaml.Node
 	}
 	var mapped []*pathItem
 
 	for k, pi := range c.Expression.FromOldest() {
-		ln := 9999 // default to a high value to weight new content to the bottom.
+		ln, col := 9999, 0 // default to a high value to weight new content to the bottom.
 		var style yaml.Style
 		if c.low != nil {
-			lpi := c.low.FindExpression(k)
-			if lpi != nil {
-				ln = lpi.ValueNode.Line
-			}
-
 			for lk := range c.low.Expression.KeysFromOldest() {
 				if lk.Value == k {
+					ln, col = lk.KeyNode.Line, lk.KeyNode.Column
 					style = lk.KeyNode.Style
 					break
 				}
 			}
 		}
-		mapped = append(mapped, &pathItem{pi, k, ln, style, nil})
+		mapped = append(mapped, &pathItem{pi, k, ln, col, style, nil})
 	}
 
 	nb := high.NewNodeBuilder(c, c.low)
@@ -127,15 +124,16 @@ func (c *Callback) MarshalYAML() (interface{}, error) {
 				label = extNode.Content[u].Value
 				continue
 			}
-			mapped = append(mapped, &pathItem{
-				nil, label,
-				extNode.Content[u].Line, 0, extNode.Content[u],
-			})
+			ln, col := nb.Position(label)
+			mapped = append(mapped, &pathItem{nil, label, ln, col, 0, extNode.Content[u]})
 		}
 	}
 
 	sort.SliceStable(mapped, func(i, j int) bool {
-		return mapped[i].line < mapped[j].line
+		if mapped[i].line != mapped[j].line {
+			return mapped[i].line < mapped[j].line
+		}
+		return mapped[i].column < mapped[j].column
 	})
 	for _, mp := range mapped {
 		if mp.pi != nil {
@@ -194,28 +192,25 @@ func (c *Callback) marshalYAMLInlineInternal(ctx any) (interface{}, error) {
 		pi       *PathItem
 		path     string
 		line     int
+		column   int
 		style    yaml.Style
 		rendered *yaml.Node
 	}
 	var mapped []*pathItem
 
 	for k, pi := range c.Expression.FromOldest() {
-		ln := 9999 // default to a high value to weight new content to the bottom.
+		ln, col := 9999, 0 // default to a high value to weight new content to the bottom.
 		var style yaml.Style
 		if c.low != nil {
-			lpi := c.low.FindExpression(k)
-			if lpi != nil {
-				ln = lpi.ValueNode.Line
-			}
-
 			for lk := range c.low.Expression.KeysFromOldest() {
 				if lk.Value == k {
+					ln, col = lk.KeyNode.Line, lk.KeyNode.Column
 					style = lk.KeyNode.Style
 					break
 				}
 			}
 		}
-		mapped = append(mapped, &pathItem{pi, k, ln, style, nil})
+		mapped = append(mapped, &pathItem{pi, k, ln, col, style, nil})
 	}
 
 	nb := high.NewNodeBuilder(c, c.low)
@@ -229,15 +224,16 @@ func (c *Callback) marshalYAMLInlineInternal(ctx any) (interface{}, error) {
 				label = extNode.Content[u].Value
 				continue
 			}
-			mapped = append(mapped, &pathItem{
-				nil, label,
-				extNode.Content[u].Line, 0, extNode.Content[u],
-			})
+			ln, col := nb.Position(label)
+			mapped = append(mapped, &pathItem{nil, label, ln, col, 0, extNode.Content[u]})
 		}
 	}
 
 	sort.SliceStable(mapped, func(i, j int) bool {
-		return mapped[i].line < mapped[j].line
+		if mapped[i].line != mapped[j].line {
+			return mapped[i].line < mapped[j].line
+		}
+		return mapped[i].column < mapped[j].column
 	})
 	for _, mp := range mapped {
 		if mp.pi != nil {
diff --git a/datamodel/high/v3/paths.go b/datamodel/high/v3/paths.go
index 10ef413..337a36c 100644
--- a/datamodel/high/v3/paths.go
+++ b/datamodel/high/v3/paths.go
@@ -82,28 +82,25 @@ func (p *Paths) MarshalYAML() (interface{}, error) {
 		pi       *PathItem
 		path     string
 		line     int
+		column   int
 		style    yaml.Style
 		rendered *yaml.Node
 	}
 	var mapped []*pathItem
 
 	for k, pi := range p.PathItems.FromOldest() {
-		ln := 9999 // default to a high value to weight new content to the bottom.
+		ln, col := 9999, 0 // default to a high value to weight new content to the bottom.
 		var style yaml.Style
 		if p.low != nil {
-			lpi := p.low.FindPath(k)
-			if lpi != nil {
-				ln = lpi.ValueNode.Line
-			}
-
 			for lk := range p.low.PathItems.KeysFromOldest() {
 				if lk.Value == k {
+					ln, col = lk.KeyNode.Line, lk.KeyNode.Column
 					style = lk.KeyNode.Style
 					break
 				}
 			}
 		}
-		mapped = append(mapped, &pathItem{pi, k, ln, style, nil})
+		mapped = append(mapped, &pathItem{pi, k, ln, col, style, nil})
 	}
 
 	nb := high.NewNodeBuilder(p, p.low)
@@ -115,15 +112,16 @@ func (p *Paths) MarshalYAML() (interface{}, error) {
 				label = extNode.Content[u].Value
 				continue
 			}
-			mapped = append(mapped, &pathItem{
-				nil, label,
-				extNode.Content[u].Line, 0, extNode.Content[u],
-			})
+			ln, col := nb.Position(label)
+			mapped = append(mapped, &pathItem{nil, label, ln, col, 0, extNode.Content[u]})
 		}
 	}
 
 	sort.SliceStable(mapped, func(i, j int) bool {
-		return mapped[i].line < mapped[j].line
+		if mapped[i].line != mapped[j].line {
+			return mapped[i].line < mapped[j].line
+		}
+		return mapped[i].column < mapped[j].column
 	})
 	for _, mp := range mapped {
 		if mp.pi != nil {
@@ -160,28 +158,25 @@ func (p *Paths) marshalYAMLInlineWithContext(ctx any) (interface{}, error) {
 		pi       *PathItem
 		path     string
 		line     int
+		column   int
 		style    yaml.Style
 		rendered *yaml.Node
 	}
 	var mapped []*pathItem
 
 	for k, pi := range p.PathItems.FromOldest() {
-		ln := 9999 // default to a high value to weight new content to the bottom.
+		ln, col := 9999, 0 // default to a high value to weight new content to the bottom.
 		var style yaml.Style
 		if p.low != nil {
-			lpi := p.low.FindPath(k)
-			if lpi != nil {
-				ln = lpi.ValueNode.Line
-			}
-
 			for lk := range p.low.PathItems.KeysFromOldest() {
 				if lk.Value == k {
+					ln, col = lk.KeyNode.Line, lk.KeyNode.Column
 					style = lk.KeyNode.Style
 					break
 				}
 			}
 		}
-		mapped = append(mapped, &pathItem{pi, k, ln, style, nil})
+		mapped = append(mapped, &pathItem{pi, k, ln, col, style, nil})
 	}
 
 	nb := high.NewNodeBuilder(p, p.low)
@@ -195,15 +190,16 @@ func (p *Paths) marshalYAMLInlineWithContext(ctx any) (interface{}, error) {
 				label = extNode.Content[u].Value
 				continue
 			}
-			mapped = append(mapped, &pathItem{
-				nil, label,
-				extNode.Content[u].Line, 0, extNode.Content[u],
-			})
+			ln, col := nb.Position(label)
+			mapped = append(mapped, &pathItem{nil, label, ln, col, 0, extNode.Content[u]})
 		}
 	}
 
 	sort.SliceStable(mapped, func(i, j int) bool {
-		return mapped[i].line < mapped[j].line
+		if mapped[i].line != mapped[j].line {
+			return mapped[i].line < mapped[j].line
+		}
+		return mapped[i].column < mapped[j].column
 	})
 	for _, mp := range mapped {
 		if mp.pi != nil {
diff --git a/datamodel/high/v3/responses.go b/datamodel/high/v3/responses.go
index d8c9048..8bf559d 100644
--- a/datamodel/high/v3/responses.go
+++ b/datamodel/high/v3/responses.go
@@ -97,23 +97,24 @@ func (r *Responses) MarshalYAML() (interface{}, error) {
 		resp  *Response
 		code  string
 		line  int
+		col   int
 		ext   *yaml.Node
 		style yaml.Style
 	}
 	var mapped []*responseItem
 
 	for code, resp := range r.Codes.FromOldest() {
-		ln := 9999 // default to a high value to weight new content to the bottom.
+		ln, col := 9999, 0 // default to a high value to weight new content to the bottom.
 		var style yaml.Style
 		if r.low != nil {
 			for lk := range r.low.Codes.KeysFromOldest() {
 				if lk.Value == code {
-					ln = lk.KeyNode.Line
+					ln, col = lk.KeyNode.Line, lk.KeyNode.Column
 					style = lk.KeyNode.Style
 				}
 			}
 		}
-		mapped = append(mapped, &responseItem{resp, code, ln, nil, style})
+		mapped = append(mapped, &responseItem{resp, code, ln, col, nil, style})
 	}
 
 	// extract extensions
@@ -126,15 +127,16 @@ func (r *Responses) MarshalYAML() (interface{}, error) {
 				label = extNode.Content[u].Value
 				continue
 			}
-			mapped = append(mapped, &responseItem{
-				nil, label,
-				extNode.Content[u].Line, extNode.Content[u], 0,
-			})
+			ln, col := nb.Position(label)
+			mapped = append(mapped, &responseItem{nil, label, ln, col, extNode.Content[u], 0})
 		}
 	}
 
 	sort.SliceStable(mapped, func(i, j int) bool {
-		return mapped[i].line < mapped[j].line
+		if mapped[i].line != mapped[j].line {
+			return mapped[i].line < mapped[j].line
+		}
+		return mapped[i].col < mapped[j].col
 	})
 	for _, mp := range mapped {
 		if mp.resp != nil {
@@ -171,23 +173,24 @@ func (r *Responses) marshalYAMLInlineWithContext(ctx any) (interface{}, error) {
 		resp  *Response
 		code  string
 		line  int
+		col   int
 		ext   *yaml.Node
 		style yaml.Style
 	}
 	var mapped []*responseItem
 
 	for code, resp := range r.Codes.FromOldest() {
-		ln := 9999 // default to a high value to weight new content to the bottom.
+		ln, col := 9999, 0 // default to a high value to weight new content to the bottom.
 		var style yaml.Style
 		if r.low != nil {
 			for lk := range r.low.Codes.KeysFromOldest() {
 				if lk.Value == code {
-					ln = lk.KeyNode.Line
+					ln, col = lk.KeyNode.Line, lk.KeyNode.Column
 					style = lk.KeyNode.Style
 				}
 			}
 		}
-		mapped = append(mapped, &responseItem{resp, code, ln, nil, style})
+		mapped = append(mapped, &responseItem{resp, code, ln, col, nil, style})
 	}
 
 	// extract extensions
@@ -205,15 +208,16 @@ func (r *Responses) marshalYAMLInlineWithContext(ctx any) (interface{}, error) {
 				label = extNode.Content[u].Value
 				continue
 			}
-			mapped = append(mapped, &responseItem{
-				nil, label,
-				extNode.Content[u].Line, extNode.Content[u], 0,
-			})
+			ln, col := nb.Position(label)
+			mapped = append(mapped, &responseItem{nil, label, ln, col, extNode.Content[u], 0})
 		}
 	}
 
 	sort.SliceStable(mapped, func(i, j int) bool {
-		return mapped[i].line < mapped[j].line
+		if mapped[i].line != mapped[j].line {
+			return mapped[i].line < mapped[j].line
+		}
+		return mapped[i].col < mapped[j].col
 	})
 	for _, mp := range mapped {
 		if mp.resp != nil {
-- 
2.43.0


From fb5e2c2a7c7b8420e7f65b8179e8563594bd3f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 17/60] fix: an empty additionalOperations is kept, list fields
 of single-line sources keep their place

---
 datamodel/high/node_builder.go | 15 +++++++++------
 datamodel/high/v3/path_item.go |  2 +-
 datamodel/low/v3/path_item.go  |  2 +-
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/datamodel/high/node_builder.go b/datamodel/high/node_builder.go
index 8181f00..d30b1a4 100644
--- a/datamodel/high/node_builder.go
+++ b/datamodel/high/node_builder.go
@@ -265,18 +265,21 @@ func (n *NodeBuilder) add(key string, i int) {
 
 			case reflect.Slice:
 				l := value.Len()
-				lines := make([]int, l)
+				positions := make([][2]int, l)
 				for g := 0; g < l; g++ {
 					qw := value.Index(g).Interface()
 					if we, wok := qw.(low.HasKeyNode); wok {
-						lines[g] = we.GetKeyNode().Line
+						positions[g] = [2]int{we.GetKeyNode().Line, we.GetKeyNode().Column}
 					}
 				}
-				sort.Slice(lines, func(i, j int) bool {
-					return lines[i] < lines[j]
+				sort.Slice(positions, func(i, j int) bool {
+					if positions[i][0] != positions[j][0] {
+						return positions[i][0] < positions[j][0]
+					}
+					return positions[i][1] < positions[j][1]
 				})
-				if len(lines) > 0 {
-					nodeEntry.Line = lines[0]
+				if len(positions) > 0 {
+					nodeEntry.Line, nodeEntry.Column = positions[0][0], positions[0][1]
 				}
 			case reflect.Struct:
 				y := value.Interface()
diff --git a/datamodel/high/v3/path_item.go b/datamodel/high/v3/path_item.go
index 9c1c325..477da68 100644
--- a/datamodel/high/v3/path_item.go
+++ b/datamodel/high/v3/path_item.go
@@ -143,7 +143,7 @@ func NewPathItem(pathItem *lowV3.PathItem) *PathItem {
 	}
 
 	// build additional operations if present
-	if !pathItem.AdditionalOperations.IsEmpty() && pathItem.AdditionalOperations.Value.Len() > 0 {
+	if !pathItem.AdditionalOperations.IsEmpty() {
 		pi.AdditionalOperations = orderedmap.New[string, *Operation]()
 		for k, v := range pathItem.AdditionalOperations.Value.FromOldest() {
 			pi.AdditionalOperations.Set(k.Value, NewOperation(v.Value))
diff --git a/datamodel/low/v3/path_item.go b/datamodel/low/v3/path_item.go
index adaa2e2..b7ed812 100644
--- a/datamodel/low/v3/path_item.go
+++ b/datamodel/low/v3/path_item.go
@@ -418,7 +418,7 @@ func (p *PathItem) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 	}
 
 	// assign additionalOperations if any were found
-	if additionalOps != nil && additionalOps.Len() > 0 {
+	if additionalOps != nil && (additionalOps.Len() > 0 || additionalNode != nil) {
 		extrOps := make([]low.NodeReference[*Operation], 0, additionalOps.Len())
 		// build out each additional operation
 		for _, appVal := range additionalOps.FromOldest() {
-- 
2.43.0


From b0a21eedc015e81c6962b9242ba526bd1b47e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 18/60] fix: a scope added to a security requirement is
 rendered instead of panicking

---
 datamodel/high/base/security_requirement.go | 33 +++++++--------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/datamodel/high/base/security_requirement.go b/datamodel/high/base/security_requirement.go
index 30bb613..5c0d10d 100644
--- a/datamodel/high/base/security_requirement.go
+++ b/datamodel/high/base/security_requirement.go
@@ -100,34 +100,21 @@ func (s *SecurityRequirement) MarshalYAML() (interface{}, error) {
 		l := utils.CreateStringNode(keys[k].key)
 		l.Line = keys[k].line
 
-		// for each key, extract all the values and order them.
-		type req struct {
-			line int
-			val  string
-		}
-
-		reqs := make([]*req, len(keys[k].val))
-		for t := range keys[k].val {
-			reqs[t] = &req{val: keys[k].val[t], line: 9999 + t}
+		// the scopes are rendered as the model has them, those that were there originally keep their line.
+		sn := utils.CreateEmptySequenceNode()
+		sn.Line = keys[k].line + 1
+		for t, scope := range keys[k].val {
+			n := utils.CreateStringNode(scope)
+			n.Line = 9999 + t
 			if keys[k].lowVal != nil {
-				for range keys[k].lowVal.Value[t].Value {
-					fh := keys[k].val[t]
-					df := keys[k].lowVal.Value[t].Value
-					if fh == df {
-						reqs[t].line = keys[k].lowVal.Value[t].ValueNode.Line
+				for _, lowScope := range keys[k].lowVal.Value {
+					if lowScope.Value == scope {
+						n.Line = lowScope.ValueNode.Line
 						break
 					}
 				}
 			}
-		}
-		sort.SliceStable(reqs, func(i, j int) bool {
-			return reqs[i].line < reqs[j].line
-		})
-		sn := utils.CreateEmptySequenceNode()
-		sn.Line = keys[k].line + 1
-		for z := range reqs {
-			n := utils.CreateStringNode(reqs[z].val)
-			n.Line = reqs[z].line + 1
+			n.Line++
 			sn.Content = append(sn.Content, n)
 		}
 
-- 
2.43.0


From f0d7914d63cbf6c262f5c3d216fd71333f9826b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 19/60] fix: a cleared text, type or list is left out of the
 rendering instead of being shown as empty

---
 datamodel/high/node_builder.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/datamodel/high/node_builder.go b/datamodel/high/node_builder.go
index d30b1a4..0e9e869 100644
--- a/datamodel/high/node_builder.go
+++ b/datamodel/high/node_builder.go
@@ -193,7 +193,8 @@ func (n *NodeBuilder) add(key string, i int) {
 		}
 	}
 
-	if isZero && lowFieldValid {
+	// an empty value is rendered when the original had it, a value that has been cleared is not.
+	if isZero && lowFieldValid && !cleared(lowFieldValue) {
 		var lowInterface any
 		if lowFieldValue.Kind() == reflect.Ptr {
 			if !lowFieldValue.IsNil() {
@@ -309,6 +310,34 @@ func (n *NodeBuilder) add(key string, i int) {
 	}
 }
 
+// cleared tells if a low-level field holds a text or a list that says something: the empty
+// high-level value for it has been set since.
+func cleared(lowField reflect.Value) bool {
+	if lowField.Kind() != reflect.Struct {
+		return false
+	}
+	value := lowField.FieldByName("Value")
+	if !value.IsValid() {
+		return false
+	}
+	if value.Kind() == reflect.Struct {
+		// a dynamic value, the side in use counts.
+		side := value.FieldByName("A")
+		if n := value.FieldByName("N"); n.IsValid() && n.Kind() == reflect.Int && n.Int() == 1 {
+			side = value.FieldByName("B")
+		}
+		if !side.IsValid() {
+			return false
+		}
+		value = side
+	}
+	switch value.Kind() {
+	case reflect.String, reflect.Slice:
+		return value.Len() > 0
+	}
+	return false
+}
+
 func (n *NodeBuilder) renderReference(fg low.IsReferenced) *yaml.Node {
 	origNode := fg.GetReferenceNode()
 	if origNode == nil {
-- 
2.43.0


From b0fff19d243f8e94edc4ff6bf48bb2cfa79c5d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:25 +0000
Subject: [PATCH 20/60] fix: hashes of the shared objects tell their fields,
 map keys and extensions apart

readOnly and writeOnly, oneOf and anyOf, minimum and maximum... with the same
value hashed the same, so moving a value between them went unseen; a renamed
discriminator key, an extension of a contact or licence, the type of an enum
value and the key order inside one were not (or wrongly) taken into account.
---
 datamodel/low/base/contact.go              |  8 +-
 datamodel/low/base/discriminator.go        |  7 +-
 datamodel/low/base/example.go              |  6 ++
 datamodel/low/base/external_doc.go         |  2 +
 datamodel/low/base/info.go                 |  7 ++
 datamodel/low/base/license.go              |  8 +-
 datamodel/low/base/schema_hash.go          | 86 +++++++++++++++++++++-
 datamodel/low/base/security_requirement.go |  1 +
 datamodel/low/base/tag.go                  |  6 ++
 datamodel/low/base/xml.go                  |  6 ++
 10 files changed, 133 insertions(+), 4 deletions(-)

diff --git a/datamodel/low/base/contact.go b/datamodel/low/base/contact.go
index 8b33c1f..f438de3 100644
--- a/datamodel/low/base/contact.go
+++ b/datamodel/low/base/contact.go
@@ -81,18 +81,24 @@ func (c *Contact) GetKeyNode() *yaml.Node {
 func (c *Contact) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !c.Name.IsEmpty() {
+			h.WriteString("name:")
 			h.WriteString(c.Name.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !c.URL.IsEmpty() {
+			h.WriteString("url:")
 			h.WriteString(c.URL.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !c.Email.IsEmpty() {
+			h.WriteString("email:")
 			h.WriteString(c.Email.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
-		// Note: Extensions are not included in the hash for Contact
+		for _, ext := range low.HashExtensions(c.Extensions) {
+			h.WriteString(ext)
+			h.WriteByte(low.HASH_PIPE)
+		}
 		return h.Sum64()
 	})
 }
diff --git a/datamodel/low/base/discriminator.go b/datamodel/low/base/discriminator.go
index 936af14..64ffd99 100644
--- a/datamodel/low/base/discriminator.go
+++ b/datamodel/low/base/discriminator.go
@@ -119,14 +119,19 @@ func (d *Discriminator) FindMappingValue(key string) *low.ValueReference[string]
 func (d *Discriminator) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if d.PropertyName.Value != "" {
+			h.WriteString("propertyName:")
 			h.WriteString(d.PropertyName.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(d.Mapping.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(d.Mapping.Value).FromOldest() {
+			h.WriteString("mapping:")
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(v.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if d.DefaultMapping.Value != "" {
+			h.WriteString("defaultMapping:")
 			h.WriteString(d.DefaultMapping.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/base/example.go b/datamodel/low/base/example.go
index 4d276f4..2c5a81c 100644
--- a/datamodel/low/base/example.go
+++ b/datamodel/low/base/example.go
@@ -55,26 +55,32 @@ func (ex *Example) GetKeyNode() *yaml.Node {
 func (ex *Example) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if ex.Summary.Value != "" {
+			h.WriteString("summary:")
 			h.WriteString(ex.Summary.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if ex.Description.Value != "" {
+			h.WriteString("description:")
 			h.WriteString(ex.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if ex.Value.Value != nil && !ex.Value.Value.IsZero() {
+			h.WriteString("value:")
 			h.WriteString(low.GenerateHashString(ex.Value.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if ex.ExternalValue.Value != "" {
+			h.WriteString("externalValue:")
 			h.WriteString(ex.ExternalValue.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if ex.DataValue.Value != nil && !ex.DataValue.Value.IsZero() {
+			h.WriteString("dataValue:")
 			h.WriteString(low.GenerateHashString(ex.DataValue.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if ex.SerializedValue.Value != "" {
+			h.WriteString("serializedValue:")
 			h.WriteString(ex.SerializedValue.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/base/external_doc.go b/datamodel/low/base/external_doc.go
index b9054a8..30fae3e 100644
--- a/datamodel/low/base/external_doc.go
+++ b/datamodel/low/base/external_doc.go
@@ -84,10 +84,12 @@ func (ex *ExternalDoc) GetExtensions() *orderedmap.Map[low.KeyReference[string],
 func (ex *ExternalDoc) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if ex.Description.Value != "" {
+			h.WriteString("description:")
 			h.WriteString(ex.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if ex.URL.Value != "" {
+			h.WriteString("url:")
 			h.WriteString(ex.URL.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/base/info.go b/datamodel/low/base/info.go
index 8cb2dc5..0e90de7 100644
--- a/datamodel/low/base/info.go
+++ b/datamodel/low/base/info.go
@@ -110,30 +110,37 @@ func (i *Info) GetContext() context.Context {
 func (i *Info) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !i.Title.IsEmpty() {
+			h.WriteString("title:")
 			h.WriteString(i.Title.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !i.Summary.IsEmpty() {
+			h.WriteString("summary:")
 			h.WriteString(i.Summary.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !i.Description.IsEmpty() {
+			h.WriteString("description:")
 			h.WriteString(i.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !i.TermsOfService.IsEmpty() {
+			h.WriteString("termsOfService:")
 			h.WriteString(i.TermsOfService.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !i.Contact.IsEmpty() {
+			h.WriteString("contact:")
 			h.WriteString(low.GenerateHashString(i.Contact.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !i.License.IsEmpty() {
+			h.WriteString("license:")
 			h.WriteString(low.GenerateHashString(i.License.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !i.Version.IsEmpty() {
+			h.WriteString("version:")
 			h.WriteString(i.Version.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/base/license.go b/datamodel/low/base/license.go
index c6ec47a..e393b59 100644
--- a/datamodel/low/base/license.go
+++ b/datamodel/low/base/license.go
@@ -84,18 +84,24 @@ func (l *License) GetKeyNode() *yaml.Node {
 func (l *License) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !l.Name.IsEmpty() {
+			h.WriteString("name:")
 			h.WriteString(l.Name.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !l.URL.IsEmpty() {
+			h.WriteString("url:")
 			h.WriteString(l.URL.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !l.Identifier.IsEmpty() {
+			h.WriteString("identifier:")
 			h.WriteString(l.Identifier.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
-		// Note: Extensions are not included in the hash for License
+		for _, ext := range low.HashExtensions(l.Extensions) {
+			h.WriteString(ext)
+			h.WriteByte(low.HASH_PIPE)
+		}
 		return h.Sum64()
 	})
 }
diff --git a/datamodel/low/base/schema_hash.go b/datamodel/low/base/schema_hash.go
index 34064b2..80e7e18 100644
--- a/datamodel/low/base/schema_hash.go
+++ b/datamodel/low/base/schema_hash.go
@@ -19,6 +19,7 @@ import (
 func (s *SchemaDynamicValue[A, B]) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if s.IsA() {
+			h.WriteString("isA:")
 			h.WriteString(low.GenerateHashString(s.A))
 		} else {
 			h.WriteString(low.GenerateHashString(s.B))
@@ -77,122 +78,152 @@ func (s *Schema) hash(quick bool) uint64 {
 
 	// calculate a hash from every property in the schema.
 	if !s.SchemaTypeRef.IsEmpty() {
+		sb.WriteString("$schema:")
 		sb.WriteString(s.SchemaTypeRef.Value)
 		sb.WriteByte('|')
 	}
 	if !s.Title.IsEmpty() {
+		sb.WriteString("title:")
 		sb.WriteString(s.Title.Value)
 		sb.WriteByte('|')
 	}
 	if !s.MultipleOf.IsEmpty() {
+		sb.WriteString("multipleOf:")
 		sb.WriteString(strconv.FormatFloat(s.MultipleOf.Value, 'g', -1, 64))
 		sb.WriteByte('|')
 	}
 	if !s.Maximum.IsEmpty() {
+		sb.WriteString("maximum:")
 		sb.WriteString(strconv.FormatFloat(s.Maximum.Value, 'g', -1, 64))
 		sb.WriteByte('|')
 	}
 	if !s.Minimum.IsEmpty() {
+		sb.WriteString("minimum:")
 		sb.WriteString(strconv.FormatFloat(s.Minimum.Value, 'g', -1, 64))
 		sb.WriteByte('|')
 	}
 	if !s.MaxLength.IsEmpty() {
+		sb.WriteString("maxLength:")
 		sb.WriteString(strconv.FormatInt(s.MaxLength.Value, 10))
 		sb.WriteByte('|')
 	}
 	if !s.MinLength.IsEmpty() {
+		sb.WriteString("minLength:")
 		sb.WriteString(strconv.FormatInt(s.MinLength.Value, 10))
 		sb.WriteByte('|')
 	}
 	if !s.Pattern.IsEmpty() {
+		sb.WriteString("pattern:")
 		sb.WriteString(s.Pattern.Value)
 		sb.WriteByte('|')
 	}
 	if !s.Format.IsEmpty() {
+		sb.WriteString("format:")
 		sb.WriteString(s.Format.Value)
 		sb.WriteByte('|')
 	}
 	if !s.MaxItems.IsEmpty() {
+		sb.WriteString("maxItems:")
 		sb.WriteString(strconv.FormatInt(s.MaxItems.Value, 10))
 		sb.WriteByte('|')
 	}
 	if !s.MinItems.IsEmpty() {
+		sb.WriteString("minItems:")
 		sb.WriteString(strconv.FormatInt(s.MinItems.Value, 10))
 		sb.WriteByte('|')
 	}
 	if !s.UniqueItems.IsEmpty() {
+		sb.WriteString("uniqueItems:")
 		sb.WriteString(strconv.FormatBool(s.UniqueItems.Value))
 		sb.WriteByte('|')
 	}
 	if !s.MaxProperties.IsEmpty() {
+		sb.WriteString("maxProperties:")
 		sb.WriteString(strconv.FormatInt(s.MaxProperties.Value, 10))
 		sb.WriteByte('|')
 	}
 	if !s.MinProperties.IsEmpty() {
+		sb.WriteString("minProperties:")
 		sb.WriteString(strconv.FormatInt(s.MinProperties.Value, 10))
 		sb.WriteByte('|')
 	}
 	if !s.AdditionalProperties.IsEmpty() {
+		sb.WriteString("additionalProperties:")
 		sb.WriteString(low.GenerateHashString(s.AdditionalProperties.Value))
 		sb.WriteByte('|')
 	}
 	if !s.Description.IsEmpty() {
+		sb.WriteString("description:")
 		sb.WriteString(s.Description.Value)
 		sb.WriteByte('|')
 	}
 	if !s.ContentEncoding.IsEmpty() {
+		sb.WriteString("contentEncoding:")
 		sb.WriteString(s.ContentEncoding.Value)
 		sb.WriteByte('|')
 	}
 	if !s.ContentMediaType.IsEmpty() {
+		sb.WriteString("contentMediaType:")
 		sb.WriteString(s.ContentMediaType.Value)
 		sb.WriteByte('|')
 	}
 	if !s.Default.IsEmpty() {
+		sb.WriteString("default:")
 		sb.WriteString(low.GenerateHashString(s.Default.Value))
 		sb.WriteByte('|')
 	}
 	if !s.Const.IsEmpty() {
+		sb.WriteString("const:")
 		sb.WriteString(low.GenerateHashString(s.Const.Value))
 		sb.WriteByte('|')
 	}
 	if !s.Nullable.IsEmpty() {
+		sb.WriteString("nullable:")
 		sb.WriteString(strconv.FormatBool(s.Nullable.Value))
 		sb.WriteByte('|')
 	}
 	if !s.ReadOnly.IsEmpty() {
+		sb.WriteString("readOnly:")
 		sb.WriteString(strconv.FormatBool(s.ReadOnly.Value))
 		sb.WriteByte('|')
 	}
 	if !s.WriteOnly.IsEmpty() {
+		sb.WriteString("writeOnly:")
 		sb.WriteString(strconv.FormatBool(s.WriteOnly.Value))
 		sb.WriteByte('|')
 	}
 	if !s.Deprecated.IsEmpty() {
+		sb.WriteString("deprecated:")
 		sb.WriteString(strconv.FormatBool(s.Deprecated.Value))
 		sb.WriteByte('|')
 	}
 	if !s.ExclusiveMaximum.IsEmpty() && s.ExclusiveMaximum.Value.IsA() {
+		sb.WriteString("exclusiveMaximum:")
 		sb.WriteString(strconv.FormatBool(s.ExclusiveMaximum.Value.A))
 		sb.WriteByte('|')
 	}
 	if !s.ExclusiveMaximum.IsEmpty() && s.ExclusiveMaximum.Value.IsB() {
+		sb.WriteString("exclusiveMaximum:")
 		sb.WriteString(strconv.FormatFloat(s.ExclusiveMaximum.Value.B, 'g', -1, 64))
 		sb.WriteByte('|')
 	}
 	if !s.ExclusiveMinimum.IsEmpty() && s.ExclusiveMinimum.Value.IsA() {
+		sb.WriteString("exclusiveMinimum:")
 		sb.WriteString(strconv.FormatBool(s.ExclusiveMinimum.Value.A))
 		sb.WriteByte('|')
 	}
 	if !s.ExclusiveMinimum.IsEmpty() && s.ExclusiveMinimum.Value.IsB() {
+		sb.WriteString("exclusiveMinimum:")
 		sb.WriteString(strconv.FormatFloat(s.ExclusiveMinimum.Value.B, 'g', -1, 64))
 		sb.WriteByte('|')
 	}
 	if !s.Type.IsEmpty() && s.Type.Value.IsA() {
+		sb.WriteString("type:")
 		sb.WriteString(s.Type.Value.A)
 		sb.WriteByte('|')
 	}
 	if !s.Type.IsEmpty() && s.Type.Value.IsB() {
+		sb.WriteString("type:")
 		scratch = resizeSchemaHashScratch(scratch, len(s.Type.Value.B))
 		for h := range s.Type.Value.B {
 			scratch[h] = s.Type.Value.B[h].Value
@@ -201,6 +232,7 @@ func (s *Schema) hash(quick bool) uint64 {
 	}
 
 	if len(s.Required.Value) > 0 {
+		sb.WriteString("required:")
 		scratch = resizeSchemaHashScratch(scratch, len(s.Required.Value))
 		for i := range s.Required.Value {
 			scratch[i] = s.Required.Value[i].Value
@@ -209,29 +241,38 @@ func (s *Schema) hash(quick bool) uint64 {
 	}
 
 	if len(s.Enum.Value) > 0 {
+		sb.WriteString("enum:")
 		scratch = resizeSchemaHashScratch(scratch, len(s.Enum.Value))
 		for i := range s.Enum.Value {
-			scratch[i] = low.ValueToString(s.Enum.Value[i].Value)
+			scratch[i] = low.GenerateHashString(s.Enum.Value[i].Value)
 		}
 		writeSortedSchemaStrings(sb, scratch, true)
 	}
 
+	if orderedmap.Len(s.Properties.Value) > 0 {
+		sb.WriteString("properties")
+		sb.WriteByte(':')
+	}
 	writeSchemaMapHashes(sb, s.Properties.Value)
 
 	if s.XML.Value != nil {
+		sb.WriteString("xml:")
 		sb.WriteString(low.GenerateHashString(s.XML.Value))
 		sb.WriteByte('|')
 	}
 	if s.ExternalDocs.Value != nil {
+		sb.WriteString("externalDocs:")
 		sb.WriteString(low.GenerateHashString(s.ExternalDocs.Value))
 		sb.WriteByte('|')
 	}
 	if s.Discriminator.Value != nil {
+		sb.WriteString("discriminator:")
 		sb.WriteString(low.GenerateHashString(s.Discriminator.Value))
 		sb.WriteByte('|')
 	}
 
 	if len(s.OneOf.Value) > 0 {
+		sb.WriteString("oneOf:")
 		scratch = resizeSchemaHashScratch(scratch, len(s.OneOf.Value))
 		for i := range s.OneOf.Value {
 			scratch[i] = low.GenerateHashString(s.OneOf.Value[i].Value)
@@ -240,6 +281,7 @@ func (s *Schema) hash(quick bool) uint64 {
 	}
 
 	if len(s.AllOf.Value) > 0 {
+		sb.WriteString("allOf:")
 		scratch = resizeSchemaHashScratch(scratch, len(s.AllOf.Value))
 		for i := range s.AllOf.Value {
 			scratch[i] = low.GenerateHashString(s.AllOf.Value[i].Value)
@@ -248,6 +290,7 @@ func (s *Schema) hash(quick bool) uint64 {
 	}
 
 	if len(s.AnyOf.Value) > 0 {
+		sb.WriteString("anyOf:")
 		scratch = resizeSchemaHashScratch(scratch, len(s.AnyOf.Value))
 		for i := range s.AnyOf.Value {
 			scratch[i] = low.GenerateHashString(s.AnyOf.Value[i].Value)
@@ -256,77 +299,113 @@ func (s *Schema) hash(quick bool) uint64 {
 	}
 
 	if !s.Not.IsEmpty() {
+		sb.WriteString("not:")
 		sb.WriteString(low.GenerateHashString(s.Not.Value))
 		sb.WriteByte('|')
 	}
 
 	if !s.Items.IsEmpty() && s.Items.Value.IsA() {
+		sb.WriteString("items:")
 		sb.WriteString(low.GenerateHashString(s.Items.Value.A))
 		sb.WriteByte('|')
 	}
 	if !s.Items.IsEmpty() && s.Items.Value.IsB() {
+		sb.WriteString("items:")
 		sb.WriteString(strconv.FormatBool(s.Items.Value.B))
 		sb.WriteByte('|')
 	}
 	if !s.If.IsEmpty() {
+		sb.WriteString("if:")
 		sb.WriteString(low.GenerateHashString(s.If.Value))
 		sb.WriteByte('|')
 	}
 	if !s.Else.IsEmpty() {
+		sb.WriteString("else:")
 		sb.WriteString(low.GenerateHashString(s.Else.Value))
 		sb.WriteByte('|')
 	}
 	if !s.Then.IsEmpty() {
+		sb.WriteString("then:")
 		sb.WriteString(low.GenerateHashString(s.Then.Value))
 		sb.WriteByte('|')
 	}
 	if !s.PropertyNames.IsEmpty() {
+		sb.WriteString("propertyNames:")
 		sb.WriteString(low.GenerateHashString(s.PropertyNames.Value))
 		sb.WriteByte('|')
 	}
 	if !s.UnevaluatedProperties.IsEmpty() {
+		sb.WriteString("unevaluatedProperties:")
 		sb.WriteString(low.GenerateHashString(s.UnevaluatedProperties.Value))
 		sb.WriteByte('|')
 	}
 	if !s.UnevaluatedItems.IsEmpty() {
+		sb.WriteString("unevaluatedItems:")
 		sb.WriteString(low.GenerateHashString(s.UnevaluatedItems.Value))
 		sb.WriteByte('|')
 	}
 	if !s.Id.IsEmpty() {
+		sb.WriteString("id:")
 		sb.WriteString(s.Id.Value)
 		sb.WriteByte('|')
 	}
 	if !s.Anchor.IsEmpty() {
+		sb.WriteString("anchor:")
 		sb.WriteString(s.Anchor.Value)
 		sb.WriteByte('|')
 	}
 	if !s.DynamicAnchor.IsEmpty() {
+		sb.WriteString("dynamicAnchor:")
 		sb.WriteString(s.DynamicAnchor.Value)
 		sb.WriteByte('|')
 	}
 	if !s.DynamicRef.IsEmpty() {
+		sb.WriteString("dynamicRef:")
 		sb.WriteString(s.DynamicRef.Value)
 		sb.WriteByte('|')
 	}
 	if !s.Comment.IsEmpty() {
+		sb.WriteString("comment:")
 		sb.WriteString(s.Comment.Value)
 		sb.WriteByte('|')
 	}
 	if !s.ContentSchema.IsEmpty() {
+		sb.WriteString("contentSchema:")
 		sb.WriteString(low.GenerateHashString(s.ContentSchema.Value))
 		sb.WriteByte('|')
 	}
+	if orderedmap.Len(s.Vocabulary.Value) > 0 {
+		sb.WriteString("vocabulary")
+		sb.WriteByte(':')
+	}
 	writeSchemaBoolMap(sb, s.Vocabulary.Value)
 
+	if orderedmap.Len(s.DependentSchemas.Value) > 0 {
+		sb.WriteString("dependentSchemas")
+		sb.WriteByte(':')
+	}
 	writeSchemaMapHashes(sb, s.DependentSchemas.Value)
 
+	if orderedmap.Len(s.DependentRequired.Value) > 0 {
+		sb.WriteString("dependentRequired")
+		sb.WriteByte(':')
+	}
 	writeSchemaDependentRequired(sb, s.DependentRequired.Value)
 
+	if orderedmap.Len(s.PatternProperties.Value) > 0 {
+		sb.WriteString("patternProperties")
+		sb.WriteByte(':')
+	}
 	writeSchemaMapHashes(sb, s.PatternProperties.Value)
 
+	if orderedmap.Len(s.Defs.Value) > 0 {
+		sb.WriteString("defs")
+		sb.WriteByte(':')
+	}
 	writeSchemaMapHashes(sb, s.Defs.Value)
 
 	if len(s.PrefixItems.Value) > 0 {
+		sb.WriteString("prefixItems:")
 		scratch = resizeSchemaHashScratch(scratch, len(s.PrefixItems.Value))
 		for i := range s.PrefixItems.Value {
 			scratch[i] = low.GenerateHashString(s.PrefixItems.Value[i].Value)
@@ -337,23 +416,28 @@ func (s *Schema) hash(quick bool) uint64 {
 	writeSchemaExtensions(sb, s.Extensions)
 
 	if s.Example.Value != nil {
+		sb.WriteString("example:")
 		sb.WriteString(low.GenerateHashString(s.Example.Value))
 		sb.WriteByte('|')
 	}
 
 	if !s.Contains.IsEmpty() {
+		sb.WriteString("contains:")
 		sb.WriteString(low.GenerateHashString(s.Contains.Value))
 		sb.WriteByte('|')
 	}
 	if !s.MinContains.IsEmpty() {
+		sb.WriteString("minContains:")
 		sb.WriteString(strconv.FormatInt(s.MinContains.Value, 10))
 		sb.WriteByte('|')
 	}
 	if !s.MaxContains.IsEmpty() {
+		sb.WriteString("maxContains:")
 		sb.WriteString(strconv.FormatInt(s.MaxContains.Value, 10))
 		sb.WriteByte('|')
 	}
 	if !s.Examples.IsEmpty() {
+		sb.WriteString("examples:")
 		for _, ex := range s.Examples.Value {
 			sb.WriteString(low.GenerateHashString(ex.Value))
 			sb.WriteByte('|')
diff --git a/datamodel/low/base/security_requirement.go b/datamodel/low/base/security_requirement.go
index ba2fa5c..c507796 100644
--- a/datamodel/low/base/security_requirement.go
+++ b/datamodel/low/base/security_requirement.go
@@ -150,6 +150,7 @@ func (s *SecurityRequirement) GetKeys() []string {
 func (s *SecurityRequirement) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		for k, v := range orderedmap.SortAlpha(s.Requirements.Value).FromOldest() {
+			h.WriteString("requirements:")
 			// Pre-allocate vals slice
 			vals := make([]string, len(v.Value))
 			for y := range v.Value {
diff --git a/datamodel/low/base/tag.go b/datamodel/low/base/tag.go
index 3438476..652e071 100644
--- a/datamodel/low/base/tag.go
+++ b/datamodel/low/base/tag.go
@@ -91,26 +91,32 @@ func (t *Tag) GetExtensions() *orderedmap.Map[low.KeyReference[string], low.Valu
 func (t *Tag) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !t.Name.IsEmpty() {
+			h.WriteString("name:")
 			h.WriteString(t.Name.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !t.Summary.IsEmpty() {
+			h.WriteString("summary:")
 			h.WriteString(t.Summary.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !t.Description.IsEmpty() {
+			h.WriteString("description:")
 			h.WriteString(t.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !t.ExternalDocs.IsEmpty() {
+			h.WriteString("externalDocs:")
 			h.WriteString(low.GenerateHashString(t.ExternalDocs.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !t.Parent.IsEmpty() {
+			h.WriteString("parent:")
 			h.WriteString(t.Parent.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !t.Kind.IsEmpty() {
+			h.WriteString("kind:")
 			h.WriteString(t.Kind.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/base/xml.go b/datamodel/low/base/xml.go
index 29d383a..0957d20 100644
--- a/datamodel/low/base/xml.go
+++ b/datamodel/low/base/xml.go
@@ -84,26 +84,32 @@ func (x *XML) GetIndex() *index.SpecIndex {
 func (x *XML) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !x.Name.IsEmpty() {
+			h.WriteString("name:")
 			h.WriteString(x.Name.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !x.Namespace.IsEmpty() {
+			h.WriteString("namespace:")
 			h.WriteString(x.Namespace.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !x.Prefix.IsEmpty() {
+			h.WriteString("prefix:")
 			h.WriteString(x.Prefix.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !x.Attribute.IsEmpty() {
+			h.WriteString("attribute:")
 			low.HashBool(h, x.Attribute.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !x.NodeType.IsEmpty() {
+			h.WriteString("nodeType:")
 			h.WriteString(x.NodeType.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !x.Wrapped.IsEmpty() {
+			h.WriteString("wrapped:")
 			low.HashBool(h, x.Wrapped.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
-- 
2.43.0


From 09a0e26ddd8e724757e3e37f1ee483a839759817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:25 +0000
Subject: [PATCH 21/60] fix: hashes of the 2.0 objects tell their fields, map
 keys and zero limits apart

Response headers were not hashed at all, renamed examples and paths hashed the
same and a limit of 0 was taken for one that is not set.
---
 datamodel/low/v2/definitions.go     |  1 +
 datamodel/low/v2/examples.go        |  4 +++-
 datamodel/low/v2/header.go          | 31 ++++++++++++------------
 datamodel/low/v2/items.go           | 37 +++++++++++++++++------------
 datamodel/low/v2/operation.go       | 12 ++++++++++
 datamodel/low/v2/parameter.go       | 34 ++++++++++++++------------
 datamodel/low/v2/path_item.go       |  1 +
 datamodel/low/v2/paths.go           |  4 +++-
 datamodel/low/v2/response.go        | 12 +++++++++-
 datamodel/low/v2/responses.go       |  1 +
 datamodel/low/v2/security_scheme.go |  8 +++++++
 11 files changed, 97 insertions(+), 48 deletions(-)

diff --git a/datamodel/low/v2/definitions.go b/datamodel/low/v2/definitions.go
index cbc6156..0086835 100644
--- a/datamodel/low/v2/definitions.go
+++ b/datamodel/low/v2/definitions.go
@@ -158,6 +158,7 @@ func (d *Definitions) Build(ctx context.Context, _, root *yaml.Node, idx *index.
 func (d *Definitions) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		for k := range orderedmap.SortAlpha(d.Schemas).KeysFromOldest() {
+			h.WriteString("schemas:")
 			h.WriteString(low.GenerateHashString(d.FindSchema(k.Value).Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v2/examples.go b/datamodel/low/v2/examples.go
index 6e18c58..dae38cb 100644
--- a/datamodel/low/v2/examples.go
+++ b/datamodel/low/v2/examples.go
@@ -56,7 +56,9 @@ func (e *Examples) Build(_ context.Context, _, root *yaml.Node, _ *index.SpecInd
 // Hash will return a consistent Hash of the Examples object
 func (e *Examples) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
-		for v := range orderedmap.SortAlpha(e.Values).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(e.Values).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v2/header.go b/datamodel/low/v2/header.go
index 6910c5d..9422168 100644
--- a/datamodel/low/v2/header.go
+++ b/datamodel/low/v2/header.go
@@ -79,46 +79,45 @@ func (h *Header) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecI
 func (hdr *Header) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if hdr.Description.Value != "" {
+			h.WriteString("description:")
 			h.WriteString(hdr.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if hdr.Type.Value != "" {
+			h.WriteString("type:")
 			h.WriteString(hdr.Type.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if hdr.Format.Value != "" {
+			h.WriteString("format:")
 			h.WriteString(hdr.Format.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if hdr.CollectionFormat.Value != "" {
+			h.WriteString("collectionFormat:")
 			h.WriteString(hdr.CollectionFormat.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if hdr.Default.Value != nil && !hdr.Default.Value.IsZero() {
+			h.WriteString("default:")
 			h.WriteString(low.GenerateHashString(hdr.Default.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		low.HashInt64(h, int64(hdr.Maximum.Value))
-		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(hdr.Minimum.Value))
-		h.WriteByte(low.HASH_PIPE)
+		hashNumber(h, hdr.Maximum)
+		hashNumber(h, hdr.Minimum)
 		low.HashBool(h, hdr.ExclusiveMinimum.Value)
 		h.WriteByte(low.HASH_PIPE)
 		low.HashBool(h, hdr.ExclusiveMaximum.Value)
 		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(hdr.MinLength.Value))
-		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(hdr.MaxLength.Value))
-		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(hdr.MinItems.Value))
-		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(hdr.MaxItems.Value))
-		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(hdr.MultipleOf.Value))
-		h.WriteByte(low.HASH_PIPE)
+		hashNumber(h, hdr.MinLength)
+		hashNumber(h, hdr.MaxLength)
+		hashNumber(h, hdr.MinItems)
+		hashNumber(h, hdr.MaxItems)
+		hashNumber(h, hdr.MultipleOf)
 		low.HashBool(h, hdr.UniqueItems.Value)
 		h.WriteByte(low.HASH_PIPE)
 		if hdr.Pattern.Value != "" {
+			h.WriteString("pattern:")
 			h.WriteString(hdr.Pattern.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
@@ -129,15 +128,17 @@ func (hdr *Header) Hash() uint64 {
 
 		keys := make([]string, len(hdr.Enum.Value))
 		for k := range hdr.Enum.Value {
-			keys[k] = low.ValueToString(hdr.Enum.Value[k].Value)
+			keys[k] = low.GenerateHashString(hdr.Enum.Value[k].Value)
 		}
 		sort.Strings(keys)
 		for _, key := range keys {
+			h.WriteString("enum:")
 			h.WriteString(key)
 			h.WriteByte(low.HASH_PIPE)
 		}
 
 		if hdr.Items.Value != nil {
+			h.WriteString("items:")
 			h.WriteString(low.GenerateHashString(hdr.Items.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v2/items.go b/datamodel/low/v2/items.go
index c84c410..053637f 100644
--- a/datamodel/low/v2/items.go
+++ b/datamodel/low/v2/items.go
@@ -55,56 +55,56 @@ func (i *Items) GetExtensions() *orderedmap.Map[low.KeyReference[string], low.Va
 func (itm *Items) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if itm.Type.Value != "" {
+			h.WriteString("type:")
 			h.WriteString(itm.Type.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if itm.Format.Value != "" {
+			h.WriteString("format:")
 			h.WriteString(itm.Format.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if itm.CollectionFormat.Value != "" {
+			h.WriteString("collectionFormat:")
 			h.WriteString(itm.CollectionFormat.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if itm.Default.Value != nil && !itm.Default.Value.IsZero() {
+			h.WriteString("default:")
 			h.WriteString(low.GenerateHashString(itm.Default.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		low.HashInt64(h, int64(itm.Maximum.Value))
-		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(itm.Minimum.Value))
-		h.WriteByte(low.HASH_PIPE)
+		hashNumber(h, itm.Maximum)
+		hashNumber(h, itm.Minimum)
 		low.HashBool(h, itm.ExclusiveMinimum.Value)
 		h.WriteByte(low.HASH_PIPE)
 		low.HashBool(h, itm.ExclusiveMaximum.Value)
 		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(itm.MinLength.Value))
-		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(itm.MaxLength.Value))
-		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(itm.MinItems.Value))
-		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(itm.MaxItems.Value))
-		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(itm.MultipleOf.Value))
-		h.WriteByte(low.HASH_PIPE)
+		hashNumber(h, itm.MinLength)
+		hashNumber(h, itm.MaxLength)
+		hashNumber(h, itm.MinItems)
+		hashNumber(h, itm.MaxItems)
+		hashNumber(h, itm.MultipleOf)
 		low.HashBool(h, itm.UniqueItems.Value)
 		h.WriteByte(low.HASH_PIPE)
 		if itm.Pattern.Value != "" {
+			h.WriteString("pattern:")
 			h.WriteString(itm.Pattern.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		keys := make([]string, len(itm.Enum.Value))
 		for k := range itm.Enum.Value {
-			keys[k] = low.ValueToString(itm.Enum.Value[k].Value)
+			keys[k] = low.GenerateHashString(itm.Enum.Value[k].Value)
 		}
 		sort.Strings(keys)
 		for _, key := range keys {
+			h.WriteString("enum:")
 			h.WriteString(key)
 			h.WriteByte(low.HASH_PIPE)
 		}
 
 		if itm.Items.Value != nil {
+			h.WriteString("items:")
 			h.WriteString(low.GenerateHashString(itm.Items.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
@@ -217,3 +217,10 @@ func (i *Items) GetEnum() *low.NodeReference[[]low.ValueReference[*yaml.Node]] {
 func (i *Items) GetMultipleOf() *low.NodeReference[int] {
 	return &i.MultipleOf
 }
+
+// hashNumber writes a numeric constraint, telling one that is zero from one that is not set.
+func hashNumber(h *maphash.Hash, ref low.NodeReference[int]) {
+	low.HashBool(h, !ref.IsEmpty())
+	low.HashInt64(h, int64(ref.Value))
+	h.WriteByte(low.HASH_PIPE)
+}
diff --git a/datamodel/low/v2/operation.go b/datamodel/low/v2/operation.go
index 1dcfa48..50ce474 100644
--- a/datamodel/low/v2/operation.go
+++ b/datamodel/low/v2/operation.go
@@ -88,26 +88,32 @@ func (o *Operation) Build(ctx context.Context, _, root *yaml.Node, idx *index.Sp
 func (o *Operation) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !o.Summary.IsEmpty() {
+			h.WriteString("summary:")
 			h.WriteString(o.Summary.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.Description.IsEmpty() {
+			h.WriteString("description:")
 			h.WriteString(o.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.OperationId.IsEmpty() {
+			h.WriteString("operationId:")
 			h.WriteString(o.OperationId.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.ExternalDocs.IsEmpty() {
+			h.WriteString("externalDocs:")
 			h.WriteString(low.GenerateHashString(o.ExternalDocs.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.Responses.IsEmpty() {
+			h.WriteString("responses:")
 			h.WriteString(low.GenerateHashString(o.Responses.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.Deprecated.IsEmpty() {
+			h.WriteString("deprecated:")
 			low.HashBool(h, o.Deprecated.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
@@ -118,6 +124,7 @@ func (o *Operation) Hash() uint64 {
 		}
 		sort.Strings(keys)
 		for _, key := range keys {
+			h.WriteString("tags:")
 			h.WriteString(key)
 			h.WriteByte(low.HASH_PIPE)
 		}
@@ -128,6 +135,7 @@ func (o *Operation) Hash() uint64 {
 		}
 		sort.Strings(keys)
 		for _, key := range keys {
+			h.WriteString("consumes:")
 			h.WriteString(key)
 			h.WriteByte(low.HASH_PIPE)
 		}
@@ -138,6 +146,7 @@ func (o *Operation) Hash() uint64 {
 		}
 		sort.Strings(keys)
 		for _, key := range keys {
+			h.WriteString("produces:")
 			h.WriteString(key)
 			h.WriteByte(low.HASH_PIPE)
 		}
@@ -148,6 +157,7 @@ func (o *Operation) Hash() uint64 {
 		}
 		sort.Strings(keys)
 		for _, key := range keys {
+			h.WriteString("schemes:")
 			h.WriteString(key)
 			h.WriteByte(low.HASH_PIPE)
 		}
@@ -158,6 +168,7 @@ func (o *Operation) Hash() uint64 {
 		}
 		sort.Strings(keys)
 		for _, key := range keys {
+			h.WriteString("parameters:")
 			h.WriteString(key)
 			h.WriteByte(low.HASH_PIPE)
 		}
@@ -168,6 +179,7 @@ func (o *Operation) Hash() uint64 {
 		}
 		sort.Strings(keys)
 		for _, key := range keys {
+			h.WriteString("security:")
 			h.WriteString(key)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v2/parameter.go b/datamodel/low/v2/parameter.go
index 43bef32..3705d65 100644
--- a/datamodel/low/v2/parameter.go
+++ b/datamodel/low/v2/parameter.go
@@ -128,22 +128,27 @@ func (p *Parameter) Build(ctx context.Context, _, root *yaml.Node, idx *index.Sp
 func (p *Parameter) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if p.Name.Value != "" {
+			h.WriteString("name:")
 			h.WriteString(p.Name.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if p.In.Value != "" {
+			h.WriteString("in:")
 			h.WriteString(p.In.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if p.Type.Value != "" {
+			h.WriteString("type:")
 			h.WriteString(p.Type.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if p.Format.Value != "" {
+			h.WriteString("format:")
 			h.WriteString(p.Format.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if p.Description.Value != "" {
+			h.WriteString("description:")
 			h.WriteString(p.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
@@ -152,48 +157,46 @@ func (p *Parameter) Hash() uint64 {
 		low.HashBool(h, p.AllowEmptyValue.Value)
 		h.WriteByte(low.HASH_PIPE)
 		if p.Schema.Value != nil {
+			h.WriteString("schema:")
 			h.WriteString(low.GenerateHashString(p.Schema.Value.Schema()))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if p.CollectionFormat.Value != "" {
+			h.WriteString("collectionFormat:")
 			h.WriteString(p.CollectionFormat.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if p.Default.Value != nil && !p.Default.Value.IsZero() {
+			h.WriteString("default:")
 			h.WriteString(low.GenerateHashString(p.Default.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		low.HashInt64(h, int64(p.Maximum.Value))
-		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(p.Minimum.Value))
-		h.WriteByte(low.HASH_PIPE)
+		hashNumber(h, p.Maximum)
+		hashNumber(h, p.Minimum)
 		low.HashBool(h, p.ExclusiveMinimum.Value)
 		h.WriteByte(low.HASH_PIPE)
 		low.HashBool(h, p.ExclusiveMaximum.Value)
 		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(p.MinLength.Value))
-		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(p.MaxLength.Value))
-		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(p.MinItems.Value))
-		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(p.MaxItems.Value))
-		h.WriteByte(low.HASH_PIPE)
-		low.HashInt64(h, int64(p.MultipleOf.Value))
-		h.WriteByte(low.HASH_PIPE)
+		hashNumber(h, p.MinLength)
+		hashNumber(h, p.MaxLength)
+		hashNumber(h, p.MinItems)
+		hashNumber(h, p.MaxItems)
+		hashNumber(h, p.MultipleOf)
 		low.HashBool(h, p.UniqueItems.Value)
 		h.WriteByte(low.HASH_PIPE)
 		if p.Pattern.Value != "" {
+			h.WriteString("pattern:")
 			h.WriteString(p.Pattern.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 
 		keys := make([]string, len(p.Enum.Value))
 		for k := range p.Enum.Value {
-			keys[k] = low.ValueToString(p.Enum.Value[k].Value)
+			keys[k] = low.GenerateHashString(p.Enum.Value[k].Value)
 		}
 		sort.Strings(keys)
 		for _, key := range keys {
+			h.WriteString("enum:")
 			h.WriteString(key)
 			h.WriteByte(low.HASH_PIPE)
 		}
@@ -203,6 +206,7 @@ func (p *Parameter) Hash() uint64 {
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if p.Items.Value != nil {
+			h.WriteString("items:")
 			low.HashUint64(h, p.Items.Value.Hash())
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v2/path_item.go b/datamodel/low/v2/path_item.go
index 57e29ac..fd8f607 100644
--- a/datamodel/low/v2/path_item.go
+++ b/datamodel/low/v2/path_item.go
@@ -229,6 +229,7 @@ func (p *PathItem) Hash() uint64 {
 		}
 		sort.Strings(keys)
 		for _, key := range keys {
+			h.WriteString("parameters:")
 			h.WriteString(key)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v2/paths.go b/datamodel/low/v2/paths.go
index b484635..e5a8004 100644
--- a/datamodel/low/v2/paths.go
+++ b/datamodel/low/v2/paths.go
@@ -156,7 +156,9 @@ func (p *Paths) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIn
 // Hash will return a consistent Hash of the Paths object
 func (p *Paths) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
-		for v := range orderedmap.SortAlpha(p.PathItems).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(p.PathItems).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v2/response.go b/datamodel/low/v2/response.go
index a5bf463..3d7c6d5 100644
--- a/datamodel/low/v2/response.go
+++ b/datamodel/low/v2/response.go
@@ -81,15 +81,25 @@ func (r *Response) Build(ctx context.Context, _, root *yaml.Node, idx *index.Spe
 func (r *Response) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if r.Description.Value != "" {
+			h.WriteString("description:")
 			h.WriteString(r.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !r.Schema.IsEmpty() {
+			h.WriteString("schema:")
 			h.WriteString(low.GenerateHashString(r.Schema.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
+		for _, hash := range low.AppendMapHashes(nil, r.Headers.Value) {
+			h.WriteString("headers:")
+			h.WriteString(hash)
+			h.WriteByte(low.HASH_PIPE)
+		}
 		if !r.Examples.IsEmpty() {
-			for v := range orderedmap.SortAlpha(r.Examples.Value.Values).ValuesFromOldest() {
+			h.WriteString("examples:")
+			for k, v := range orderedmap.SortAlpha(r.Examples.Value.Values).FromOldest() {
+				h.WriteString(k.Value)
+				h.WriteByte('-')
 				h.WriteString(low.GenerateHashString(v.Value))
 				h.WriteByte(low.HASH_PIPE)
 			}
diff --git a/datamodel/low/v2/responses.go b/datamodel/low/v2/responses.go
index f389e28..59669d5 100644
--- a/datamodel/low/v2/responses.go
+++ b/datamodel/low/v2/responses.go
@@ -99,6 +99,7 @@ func (r *Responses) Hash() uint64 {
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !r.Default.IsEmpty() {
+			h.WriteString("default:")
 			h.WriteString(low.GenerateHashString(r.Default.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v2/security_scheme.go b/datamodel/low/v2/security_scheme.go
index 6e93e7d..1292044 100644
--- a/datamodel/low/v2/security_scheme.go
+++ b/datamodel/low/v2/security_scheme.go
@@ -55,34 +55,42 @@ func (ss *SecurityScheme) Build(ctx context.Context, _, root *yaml.Node, idx *in
 func (ss *SecurityScheme) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !ss.Type.IsEmpty() {
+			h.WriteString("type:")
 			h.WriteString(ss.Type.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !ss.Description.IsEmpty() {
+			h.WriteString("description:")
 			h.WriteString(ss.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !ss.Name.IsEmpty() {
+			h.WriteString("name:")
 			h.WriteString(ss.Name.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !ss.In.IsEmpty() {
+			h.WriteString("in:")
 			h.WriteString(ss.In.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !ss.Flow.IsEmpty() {
+			h.WriteString("flow:")
 			h.WriteString(ss.Flow.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !ss.AuthorizationUrl.IsEmpty() {
+			h.WriteString("authorizationUrl:")
 			h.WriteString(ss.AuthorizationUrl.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !ss.TokenUrl.IsEmpty() {
+			h.WriteString("tokenUrl:")
 			h.WriteString(ss.TokenUrl.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !ss.Scopes.IsEmpty() {
+			h.WriteString("scopes:")
 			h.WriteString(low.GenerateHashString(ss.Scopes.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-- 
2.43.0


From 5576d1ce7f9f4d5393375b180fbf29ab2b0517e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:25 +0000
Subject: [PATCH 22/60] fix: hashes of the 3.x objects tell their fields and
 map keys apart

Renaming a component, a callback, a media type, an example, a link parameter or
a server variable, or moving a value between two fields, left the hash as it was.
---
 datamodel/low/v3/callback.go        |  4 +++-
 datamodel/low/v3/components.go      | 30 ++++++++++++++++-------------
 datamodel/low/v3/document.go        |  8 ++++++++
 datamodel/low/v3/encoding.go        |  3 +++
 datamodel/low/v3/header.go          |  6 ++++++
 datamodel/low/v3/link.go            | 10 +++++++++-
 datamodel/low/v3/media_type.go      | 18 ++++++++++++++---
 datamodel/low/v3/oauth_flows.go     |  9 +++++++++
 datamodel/low/v3/operation.go       | 16 ++++++++++++++-
 datamodel/low/v3/parameter.go       | 16 +++++++++++++--
 datamodel/low/v3/path_item.go       |  5 +++++
 datamodel/low/v3/request_body.go    |  7 ++++++-
 datamodel/low/v3/response.go        |  5 +++++
 datamodel/low/v3/responses.go       |  1 +
 datamodel/low/v3/security_scheme.go | 10 ++++++++++
 datamodel/low/v3/server.go          |  8 +++++++-
 datamodel/low/v3/server_variable.go |  7 +++++++
 17 files changed, 140 insertions(+), 23 deletions(-)

diff --git a/datamodel/low/v3/callback.go b/datamodel/low/v3/callback.go
index 1642b37..c42bb4c 100644
--- a/datamodel/low/v3/callback.go
+++ b/datamodel/low/v3/callback.go
@@ -104,7 +104,9 @@ func (cb *Callback) Build(ctx context.Context, keyNode, root *yaml.Node, idx *in
 // Hash will return a consistent Hash of the Callback object
 func (cb *Callback) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
-		for v := range orderedmap.SortAlpha(cb.Expression).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(cb.Expression).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/components.go b/datamodel/low/v3/components.go
index ce6dbdb..a785196 100644
--- a/datamodel/low/v3/components.go
+++ b/datamodel/low/v3/components.go
@@ -87,17 +87,17 @@ func (co *Components) GetKeyNode() *yaml.Node {
 // Hash will return a consistent Hash of the Components object
 func (co *Components) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
-		generateHashForObjectMap(co.Schemas.Value, h)
-		generateHashForObjectMap(co.Responses.Value, h)
-		generateHashForObjectMap(co.Parameters.Value, h)
-		generateHashForObjectMap(co.Examples.Value, h)
-		generateHashForObjectMap(co.RequestBodies.Value, h)
-		generateHashForObjectMap(co.Headers.Value, h)
-		generateHashForObjectMap(co.SecuritySchemes.Value, h)
-		generateHashForObjectMap(co.Links.Value, h)
-		generateHashForObjectMap(co.Callbacks.Value, h)
-		generateHashForObjectMap(co.PathItems.Value, h)
-		generateHashForObjectMap(co.MediaTypes.Value, h)
+		generateHashForObjectMap("schemas", co.Schemas.Value, h)
+		generateHashForObjectMap("responses", co.Responses.Value, h)
+		generateHashForObjectMap("parameters", co.Parameters.Value, h)
+		generateHashForObjectMap("examples", co.Examples.Value, h)
+		generateHashForObjectMap("requestBodies", co.RequestBodies.Value, h)
+		generateHashForObjectMap("headers", co.Headers.Value, h)
+		generateHashForObjectMap("securitySchemes", co.SecuritySchemes.Value, h)
+		generateHashForObjectMap("links", co.Links.Value, h)
+		generateHashForObjectMap("callbacks", co.Callbacks.Value, h)
+		generateHashForObjectMap("pathItems", co.PathItems.Value, h)
+		generateHashForObjectMap("mediaTypes", co.MediaTypes.Value, h)
 		for _, ext := range low.HashExtensions(co.Extensions) {
 			h.WriteString(ext)
 			h.WriteByte(low.HASH_PIPE)
@@ -106,8 +106,12 @@ func (co *Components) Hash() uint64 {
 	})
 }
 
-func generateHashForObjectMap[T any](collection *orderedmap.Map[low.KeyReference[string], low.ValueReference[T]], h *maphash.Hash) {
-	for v := range orderedmap.SortAlpha(collection).ValuesFromOldest() {
+func generateHashForObjectMap[T any](section string, collection *orderedmap.Map[low.KeyReference[string], low.ValueReference[T]], h *maphash.Hash) {
+	for k, v := range orderedmap.SortAlpha(collection).FromOldest() {
+		h.WriteString(section)
+		h.WriteByte(':')
+		h.WriteString(k.Value)
+		h.WriteByte('-')
 		h.WriteString(low.GenerateHashString(v.Value))
 		h.WriteByte(low.HASH_PIPE)
 	}
diff --git a/datamodel/low/v3/document.go b/datamodel/low/v3/document.go
index 1b7ddd4..9a6befc 100644
--- a/datamodel/low/v3/document.go
+++ b/datamodel/low/v3/document.go
@@ -135,24 +135,29 @@ func (d *Document) GetIndex() *index.SpecIndex {
 func (d *Document) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if d.Version.Value != "" {
+			h.WriteString("version:")
 			h.WriteString(d.Version.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if d.Info.Value != nil {
+			h.WriteString("info:")
 			h.WriteString(low.GenerateHashString(d.Info.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if d.JsonSchemaDialect.Value != "" {
+			h.WriteString("jsonSchemaDialect:")
 			h.WriteString(d.JsonSchemaDialect.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if d.Self.Value != "" {
+			h.WriteString("self:")
 			h.WriteString(d.Self.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 
 		// Webhooks - pre-allocate slice
 		if d.Webhooks.GetValue() != nil {
+			h.WriteString("webhooks:")
 			webhookLen := d.Webhooks.GetValue().Len()
 			if webhookLen > 0 {
 				keys := make([]string, 0, webhookLen)
@@ -182,10 +187,12 @@ func (d *Document) Hash() uint64 {
 		}
 
 		if d.Paths.Value != nil {
+			h.WriteString("paths:")
 			h.WriteString(low.GenerateHashString(d.Paths.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if d.Components.Value != nil {
+			h.WriteString("components:")
 			h.WriteString(low.GenerateHashString(d.Components.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
@@ -219,6 +226,7 @@ func (d *Document) Hash() uint64 {
 		}
 
 		if d.ExternalDocs.Value != nil {
+			h.WriteString("externalDocs:")
 			h.WriteString(low.GenerateHashString(d.ExternalDocs.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/encoding.go b/datamodel/low/v3/encoding.go
index 8f1d1dd..1666997 100644
--- a/datamodel/low/v3/encoding.go
+++ b/datamodel/low/v3/encoding.go
@@ -63,14 +63,17 @@ func (en *Encoding) GetKeyNode() *yaml.Node {
 func (en *Encoding) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if en.ContentType.Value != "" {
+			h.WriteString("contentType:")
 			h.WriteString(en.ContentType.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		for k, v := range orderedmap.SortAlpha(en.Headers.Value).FromOldest() {
+			h.WriteString("headers:")
 			h.WriteString(fmt.Sprintf("%s-%x", k.Value, v.Value.Hash()))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if en.Style.Value != "" {
+			h.WriteString("style:")
 			h.WriteString(en.Style.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/header.go b/datamodel/low/v3/header.go
index fa3466e..f4d6fe7 100644
--- a/datamodel/low/v3/header.go
+++ b/datamodel/low/v3/header.go
@@ -87,6 +87,7 @@ func (h *Header) GetExtensions() *orderedmap.Map[low.KeyReference[string], low.V
 func (h *Header) Hash() uint64 {
 	return low.WithHasher(func(hsh *maphash.Hash) uint64 {
 		if h.Description.Value != "" {
+			hsh.WriteString("description:")
 			hsh.WriteString(h.Description.Value)
 			hsh.WriteByte(low.HASH_PIPE)
 		}
@@ -97,6 +98,7 @@ func (h *Header) Hash() uint64 {
 		low.HashBool(hsh, h.AllowEmptyValue.Value)
 		hsh.WriteByte(low.HASH_PIPE)
 		if h.Style.Value != "" {
+			hsh.WriteString("style:")
 			hsh.WriteString(h.Style.Value)
 			hsh.WriteByte(low.HASH_PIPE)
 		}
@@ -105,18 +107,22 @@ func (h *Header) Hash() uint64 {
 		low.HashBool(hsh, h.AllowReserved.Value)
 		hsh.WriteByte(low.HASH_PIPE)
 		if h.Schema.Value != nil {
+			hsh.WriteString("schema:")
 			hsh.WriteString(low.GenerateHashString(h.Schema.Value))
 			hsh.WriteByte(low.HASH_PIPE)
 		}
 		if h.Example.Value != nil && !h.Example.Value.IsZero() {
+			hsh.WriteString("example:")
 			hsh.WriteString(low.GenerateHashString(h.Example.Value))
 			hsh.WriteByte(low.HASH_PIPE)
 		}
 		for k, v := range orderedmap.SortAlpha(h.Examples.Value).FromOldest() {
+			hsh.WriteString("examples:")
 			hsh.WriteString(fmt.Sprintf("%s-%x", k.Value, v.Value.Hash()))
 			hsh.WriteByte(low.HASH_PIPE)
 		}
 		for k, v := range orderedmap.SortAlpha(h.Content.Value).FromOldest() {
+			hsh.WriteString("content:")
 			hsh.WriteString(fmt.Sprintf("%s-%x", k.Value, v.Value.Hash()))
 			hsh.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/link.go b/datamodel/low/v3/link.go
index 5e262c9..9348b89 100644
--- a/datamodel/low/v3/link.go
+++ b/datamodel/low/v3/link.go
@@ -123,26 +123,34 @@ func (l *Link) Build(ctx context.Context, keyNode, root *yaml.Node, idx *index.S
 func (l *Link) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if l.Description.Value != "" {
+			h.WriteString("description:")
 			h.WriteString(l.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if l.OperationRef.Value != "" {
+			h.WriteString("operationRef:")
 			h.WriteString(l.OperationRef.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if l.OperationId.Value != "" {
+			h.WriteString("operationId:")
 			h.WriteString(l.OperationId.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if l.RequestBody.Value != "" {
+			h.WriteString("requestBody:")
 			h.WriteString(l.RequestBody.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if l.Server.Value != nil {
+			h.WriteString("server:")
 			h.WriteString(low.GenerateHashString(l.Server.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(l.Parameters.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(l.Parameters.Value).FromOldest() {
+			h.WriteString("parameters:")
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(v.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/media_type.go b/datamodel/low/v3/media_type.go
index 122e027..873b8d9 100644
--- a/datamodel/low/v3/media_type.go
+++ b/datamodel/low/v3/media_type.go
@@ -194,26 +194,38 @@ func (mt *MediaType) Build(ctx context.Context, keyNode, root *yaml.Node, idx *i
 func (mt *MediaType) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if mt.Schema.Value != nil {
+			h.WriteString("schema:")
 			h.WriteString(low.GenerateHashString(mt.Schema.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if mt.ItemSchema.Value != nil {
+			h.WriteString("itemSchema:")
 			h.WriteString(low.GenerateHashString(mt.ItemSchema.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if mt.Example.Value != nil && !mt.Example.Value.IsZero() {
+			h.WriteString("example:")
 			h.WriteString(low.GenerateHashString(mt.Example.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(mt.Examples.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(mt.Examples.Value).FromOldest() {
+			h.WriteString("examples:")
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(mt.Encoding.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(mt.Encoding.Value).FromOldest() {
+			h.WriteString("encoding:")
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(mt.ItemEncoding.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(mt.ItemEncoding.Value).FromOldest() {
+			h.WriteString("itemEncoding:")
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/oauth_flows.go b/datamodel/low/v3/oauth_flows.go
index 90dd345..3b444db 100644
--- a/datamodel/low/v3/oauth_flows.go
+++ b/datamodel/low/v3/oauth_flows.go
@@ -121,22 +121,27 @@ func (o *OAuthFlows) Build(ctx context.Context, keyNode, root *yaml.Node, idx *i
 func (o *OAuthFlows) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !o.Implicit.IsEmpty() {
+			h.WriteString("implicit:")
 			h.WriteString(low.GenerateHashString(o.Implicit.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.Password.IsEmpty() {
+			h.WriteString("password:")
 			h.WriteString(low.GenerateHashString(o.Password.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.ClientCredentials.IsEmpty() {
+			h.WriteString("clientCredentials:")
 			h.WriteString(low.GenerateHashString(o.ClientCredentials.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.AuthorizationCode.IsEmpty() {
+			h.WriteString("authorizationCode:")
 			h.WriteString(low.GenerateHashString(o.AuthorizationCode.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.Device.IsEmpty() {
+			h.WriteString("device:")
 			h.WriteString(low.GenerateHashString(o.Device.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
@@ -225,18 +230,22 @@ func (o *OAuthFlow) Build(ctx context.Context, _, root *yaml.Node, idx *index.Sp
 func (o *OAuthFlow) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !o.AuthorizationUrl.IsEmpty() {
+			h.WriteString("authorizationUrl:")
 			h.WriteString(o.AuthorizationUrl.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.TokenUrl.IsEmpty() {
+			h.WriteString("tokenUrl:")
 			h.WriteString(o.TokenUrl.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.RefreshUrl.IsEmpty() {
+			h.WriteString("refreshUrl:")
 			h.WriteString(o.RefreshUrl.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		for k, v := range orderedmap.SortAlpha(o.Scopes.Value).FromOldest() {
+			h.WriteString("scopes:")
 			h.WriteString(fmt.Sprintf("%s-%s", k.Value, v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/operation.go b/datamodel/low/v3/operation.go
index 1ed86b6..b6e6a2a 100644
--- a/datamodel/low/v3/operation.go
+++ b/datamodel/low/v3/operation.go
@@ -210,30 +210,37 @@ func (o *Operation) Build(ctx context.Context, keyNode, root *yaml.Node, idx *in
 func (o *Operation) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !o.Summary.IsEmpty() {
+			h.WriteString("summary:")
 			h.WriteString(o.Summary.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.Description.IsEmpty() {
+			h.WriteString("description:")
 			h.WriteString(o.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.OperationId.IsEmpty() {
+			h.WriteString("operationId:")
 			h.WriteString(o.OperationId.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.RequestBody.IsEmpty() {
+			h.WriteString("requestBody:")
 			h.WriteString(low.GenerateHashString(o.RequestBody.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.ExternalDocs.IsEmpty() {
+			h.WriteString("externalDocs:")
 			h.WriteString(low.GenerateHashString(o.ExternalDocs.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.Responses.IsEmpty() {
+			h.WriteString("responses:")
 			h.WriteString(low.GenerateHashString(o.Responses.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.Security.IsEmpty() {
+			h.WriteString("security:")
 			// Pre-allocate keys for sorting
 			secKeys := make([]string, len(o.Security.Value))
 			for k := range o.Security.Value {
@@ -246,12 +253,14 @@ func (o *Operation) Hash() uint64 {
 			}
 		}
 		if !o.Deprecated.IsEmpty() {
+			h.WriteString("deprecated:")
 			low.HashBool(h, o.Deprecated.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 
 		// Tags array - pre-allocate and sort
 		if len(o.Tags.Value) > 0 {
+			h.WriteString("tags:")
 			tags := make([]string, len(o.Tags.Value))
 			for k := range o.Tags.Value {
 				tags[k] = o.Tags.Value[k].Value
@@ -265,6 +274,7 @@ func (o *Operation) Hash() uint64 {
 
 		// Servers array - pre-allocate and sort
 		if len(o.Servers.Value) > 0 {
+			h.WriteString("servers:")
 			servers := make([]string, len(o.Servers.Value))
 			for k := range o.Servers.Value {
 				servers[k] = low.GenerateHashString(o.Servers.Value[k].Value)
@@ -278,6 +288,7 @@ func (o *Operation) Hash() uint64 {
 
 		// Parameters array - pre-allocate and sort
 		if len(o.Parameters.Value) > 0 {
+			h.WriteString("parameters:")
 			params := make([]string, len(o.Parameters.Value))
 			for k := range o.Parameters.Value {
 				params[k] = low.GenerateHashString(o.Parameters.Value[k].Value)
@@ -290,7 +301,10 @@ func (o *Operation) Hash() uint64 {
 		}
 
 		// Callbacks
-		for v := range orderedmap.SortAlpha(o.Callbacks.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(o.Callbacks.Value).FromOldest() {
+			h.WriteString("callbacks:")
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/parameter.go b/datamodel/low/v3/parameter.go
index 8cf942e..a984052 100644
--- a/datamodel/low/v3/parameter.go
+++ b/datamodel/low/v3/parameter.go
@@ -168,14 +168,17 @@ func (p *Parameter) Build(ctx context.Context, keyNode, root *yaml.Node, idx *in
 func (p *Parameter) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if p.Name.Value != "" {
+			h.WriteString("name:")
 			h.WriteString(p.Name.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if p.In.Value != "" {
+			h.WriteString("in:")
 			h.WriteString(p.In.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if p.Description.Value != "" {
+			h.WriteString("description:")
 			h.WriteString(p.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
@@ -186,6 +189,7 @@ func (p *Parameter) Hash() uint64 {
 		low.HashBool(h, p.AllowEmptyValue.Value)
 		h.WriteByte(low.HASH_PIPE)
 		if p.Style.Value != "" {
+			h.WriteString("style:")
 			h.WriteString(p.Style.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
@@ -194,18 +198,26 @@ func (p *Parameter) Hash() uint64 {
 		low.HashBool(h, p.AllowReserved.Value)
 		h.WriteByte(low.HASH_PIPE)
 		if p.Schema.Value != nil && p.Schema.Value.Schema() != nil {
+			h.WriteString("schema:")
 			h.WriteString(fmt.Sprintf("%x", p.Schema.Value.Schema().Hash()))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if p.Example.Value != nil && !p.Example.Value.IsZero() {
+			h.WriteString("example:")
 			h.WriteString(low.GenerateHashString(p.Example.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(p.Examples.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(p.Examples.Value).FromOldest() {
+			h.WriteString("examples:")
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(p.Content.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(p.Content.Value).FromOldest() {
+			h.WriteString("content:")
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/path_item.go b/datamodel/low/v3/path_item.go
index b7ed812..c2bc9ae 100644
--- a/datamodel/low/v3/path_item.go
+++ b/datamodel/low/v3/path_item.go
@@ -65,10 +65,12 @@ func (p *PathItem) GetContext() context.Context {
 func (p *PathItem) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !p.Description.IsEmpty() {
+			h.WriteString("description:")
 			h.WriteString(p.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !p.Summary.IsEmpty() {
+			h.WriteString("summary:")
 			h.WriteString(p.Summary.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
@@ -129,6 +131,7 @@ func (p *PathItem) Hash() uint64 {
 
 		// Process AdditionalOperations with pre-allocation and sorting
 		if p.AdditionalOperations.Value != nil && p.AdditionalOperations.Value.Len() > 0 {
+			h.WriteString("additionalOperations:")
 			keys := make([]string, 0, p.AdditionalOperations.Value.Len())
 			for k, v := range p.AdditionalOperations.Value.FromOldest() {
 				keys = append(keys, k.Value+"-"+low.GenerateHashString(v.Value))
@@ -142,6 +145,7 @@ func (p *PathItem) Hash() uint64 {
 
 		// Process Parameters with pre-allocation and sorting
 		if len(p.Parameters.Value) > 0 {
+			h.WriteString("parameters:")
 			keys := make([]string, len(p.Parameters.Value))
 			for k := range p.Parameters.Value {
 				keys[k] = low.GenerateHashString(p.Parameters.Value[k].Value)
@@ -155,6 +159,7 @@ func (p *PathItem) Hash() uint64 {
 
 		// Process Servers with pre-allocation and sorting
 		if len(p.Servers.Value) > 0 {
+			h.WriteString("servers:")
 			keys := make([]string, len(p.Servers.Value))
 			for k := range p.Servers.Value {
 				keys[k] = low.GenerateHashString(p.Servers.Value[k].Value)
diff --git a/datamodel/low/v3/request_body.go b/datamodel/low/v3/request_body.go
index 344822e..818d176 100644
--- a/datamodel/low/v3/request_body.go
+++ b/datamodel/low/v3/request_body.go
@@ -114,14 +114,19 @@ func (rb *RequestBody) Build(ctx context.Context, keyNode, root *yaml.Node, idx
 func (rb *RequestBody) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if rb.Description.Value != "" {
+			h.WriteString("description:")
 			h.WriteString(rb.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !rb.Required.IsEmpty() {
+			h.WriteString("required:")
 			low.HashBool(h, rb.Required.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(rb.Content.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(rb.Content.Value).FromOldest() {
+			h.WriteString("content:")
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/response.go b/datamodel/low/v3/response.go
index 15a94d4..f09f974 100644
--- a/datamodel/low/v3/response.go
+++ b/datamodel/low/v3/response.go
@@ -162,23 +162,28 @@ func (r *Response) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 func (r *Response) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if r.Summary.Value != "" {
+			h.WriteString("summary:")
 			h.WriteString(r.Summary.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if r.Description.Value != "" {
+			h.WriteString("description:")
 			h.WriteString(r.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 
 		for _, hash := range low.AppendMapHashes(nil, r.Headers.Value) {
+			h.WriteString("headers:")
 			h.WriteString(hash)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		for _, hash := range low.AppendMapHashes(nil, r.Content.Value) {
+			h.WriteString("content:")
 			h.WriteString(hash)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		for _, hash := range low.AppendMapHashes(nil, r.Links.Value) {
+			h.WriteString("links:")
 			h.WriteString(hash)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/responses.go b/datamodel/low/v3/responses.go
index b7891e9..4ad39e4 100644
--- a/datamodel/low/v3/responses.go
+++ b/datamodel/low/v3/responses.go
@@ -162,6 +162,7 @@ func (r *Responses) Hash() uint64 {
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !r.Default.IsEmpty() {
+			h.WriteString("default:")
 			h.WriteString(low.GenerateHashString(r.Default.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/security_scheme.go b/datamodel/low/v3/security_scheme.go
index 66185de..fe40853 100644
--- a/datamodel/low/v3/security_scheme.go
+++ b/datamodel/low/v3/security_scheme.go
@@ -115,42 +115,52 @@ func (ss *SecurityScheme) Build(ctx context.Context, keyNode, root *yaml.Node, i
 func (ss *SecurityScheme) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !ss.Type.IsEmpty() {
+			h.WriteString("type:")
 			h.WriteString(ss.Type.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !ss.Description.IsEmpty() {
+			h.WriteString("description:")
 			h.WriteString(ss.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !ss.Name.IsEmpty() {
+			h.WriteString("name:")
 			h.WriteString(ss.Name.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !ss.In.IsEmpty() {
+			h.WriteString("in:")
 			h.WriteString(ss.In.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !ss.Scheme.IsEmpty() {
+			h.WriteString("scheme:")
 			h.WriteString(ss.Scheme.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !ss.BearerFormat.IsEmpty() {
+			h.WriteString("bearerFormat:")
 			h.WriteString(ss.BearerFormat.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !ss.Flows.IsEmpty() {
+			h.WriteString("flows:")
 			h.WriteString(low.GenerateHashString(ss.Flows.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !ss.OpenIdConnectUrl.IsEmpty() {
+			h.WriteString("openIdConnectUrl:")
 			h.WriteString(ss.OpenIdConnectUrl.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !ss.OAuth2MetadataUrl.IsEmpty() {
+			h.WriteString("oAuth2MetadataUrl:")
 			h.WriteString(ss.OAuth2MetadataUrl.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !ss.Deprecated.IsEmpty() {
+			h.WriteString("deprecated:")
 			low.HashBool(h, ss.Deprecated.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/server.go b/datamodel/low/v3/server.go
index 4f8ec8a..76a6e21 100644
--- a/datamodel/low/v3/server.go
+++ b/datamodel/low/v3/server.go
@@ -117,20 +117,26 @@ func (s *Server) Build(ctx context.Context, keyNode, root *yaml.Node, idx *index
 func (s *Server) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !s.Name.IsEmpty() {
+			h.WriteString("name:")
 			h.WriteString(s.Name.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if s.Variables.Value != nil {
-			for v := range orderedmap.SortAlpha(s.Variables.Value).ValuesFromOldest() {
+			h.WriteString("variables:")
+			for k, v := range orderedmap.SortAlpha(s.Variables.Value).FromOldest() {
+				h.WriteString(k.Value)
+				h.WriteByte('-')
 				h.WriteString(low.GenerateHashString(v.Value))
 				h.WriteByte(low.HASH_PIPE)
 			}
 		}
 		if !s.URL.IsEmpty() {
+			h.WriteString("url:")
 			h.WriteString(s.URL.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !s.Description.IsEmpty() {
+			h.WriteString("description:")
 			h.WriteString(s.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/server_variable.go b/datamodel/low/v3/server_variable.go
index b9e6636..ef59999 100644
--- a/datamodel/low/v3/server_variable.go
+++ b/datamodel/low/v3/server_variable.go
@@ -47,6 +47,7 @@ func (s *ServerVariable) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		// Pre-allocate and sort enum values
 		if len(s.Enum) > 0 {
+			h.WriteString("enum:")
 			keys := make([]string, len(s.Enum))
 			for i := range s.Enum {
 				keys[i] = s.Enum[i].Value
@@ -59,13 +60,19 @@ func (s *ServerVariable) Hash() uint64 {
 		}
 
 		if !s.Default.IsEmpty() {
+			h.WriteString("default:")
 			h.WriteString(s.Default.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !s.Description.IsEmpty() {
+			h.WriteString("description:")
 			h.WriteString(s.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
+		for _, ext := range low.HashExtensions(s.Extensions) {
+			h.WriteString(ext)
+			h.WriteByte(low.HASH_PIPE)
+		}
 		return h.Sum64()
 	})
 }
-- 
2.43.0


From 8b2785739c3317f7624abb78494a0263562fa41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:25 +0000
Subject: [PATCH 23/60] fix: hashes of the Arazzo and Overlay objects tell
 their fields apart

---
 datamodel/low/arazzo/arazzo.go                    |  5 +++++
 datamodel/low/arazzo/components.go                |  4 ++++
 datamodel/low/arazzo/criterion.go                 |  3 +++
 datamodel/low/arazzo/criterion_expression_type.go |  2 ++
 datamodel/low/arazzo/failure_action.go            |  8 ++++++++
 datamodel/low/arazzo/info.go                      |  4 ++++
 datamodel/low/arazzo/parameter.go                 |  4 ++++
 datamodel/low/arazzo/payload_replacement.go       |  2 ++
 datamodel/low/arazzo/request_body.go              |  3 +++
 datamodel/low/arazzo/source_description.go        |  3 +++
 datamodel/low/arazzo/step.go                      | 11 +++++++++++
 datamodel/low/arazzo/success_action.go            |  6 ++++++
 datamodel/low/arazzo/workflow.go                  | 10 ++++++++++
 datamodel/low/overlay/action.go                   |  5 +++++
 datamodel/low/overlay/info.go                     |  3 +++
 datamodel/low/overlay/overlay.go                  |  4 ++++
 16 files changed, 77 insertions(+)

diff --git a/datamodel/low/arazzo/arazzo.go b/datamodel/low/arazzo/arazzo.go
index cf65e40..393e449 100644
--- a/datamodel/low/arazzo/arazzo.go
+++ b/datamodel/low/arazzo/arazzo.go
@@ -107,23 +107,28 @@ func (a *Arazzo) GetExtensions() *orderedmap.Map[low.KeyReference[string], low.V
 func (a *Arazzo) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !a.Arazzo.IsEmpty() {
+			h.WriteString("arazzo:")
 			h.WriteString(a.Arazzo.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !a.Info.IsEmpty() {
+			h.WriteString("info:")
 			low.HashUint64(h, a.Info.Value.Hash())
 		}
 		if !a.SourceDescriptions.IsEmpty() {
+			h.WriteString("sourceDescriptions:")
 			for _, sd := range a.SourceDescriptions.Value {
 				low.HashUint64(h, sd.Value.Hash())
 			}
 		}
 		if !a.Workflows.IsEmpty() {
+			h.WriteString("workflows:")
 			for _, w := range a.Workflows.Value {
 				low.HashUint64(h, w.Value.Hash())
 			}
 		}
 		if !a.Components.IsEmpty() {
+			h.WriteString("components:")
 			low.HashUint64(h, a.Components.Value.Hash())
 		}
 		hashExtensionsInto(h, a.Extensions)
diff --git a/datamodel/low/arazzo/components.go b/datamodel/low/arazzo/components.go
index 73eb152..ee2ebf6 100644
--- a/datamodel/low/arazzo/components.go
+++ b/datamodel/low/arazzo/components.go
@@ -107,6 +107,7 @@ func (c *Components) GetExtensions() *orderedmap.Map[low.KeyReference[string], l
 func (c *Components) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !c.Inputs.IsEmpty() && c.Inputs.Value != nil {
+			h.WriteString("inputs:")
 			for pair := c.Inputs.Value.First(); pair != nil; pair = pair.Next() {
 				h.WriteString(pair.Key().Value)
 				h.WriteByte(low.HASH_PIPE)
@@ -114,6 +115,7 @@ func (c *Components) Hash() uint64 {
 			}
 		}
 		if !c.Parameters.IsEmpty() && c.Parameters.Value != nil {
+			h.WriteString("parameters:")
 			for pair := c.Parameters.Value.First(); pair != nil; pair = pair.Next() {
 				h.WriteString(pair.Key().Value)
 				h.WriteByte(low.HASH_PIPE)
@@ -121,6 +123,7 @@ func (c *Components) Hash() uint64 {
 			}
 		}
 		if !c.SuccessActions.IsEmpty() && c.SuccessActions.Value != nil {
+			h.WriteString("successActions:")
 			for pair := c.SuccessActions.Value.First(); pair != nil; pair = pair.Next() {
 				h.WriteString(pair.Key().Value)
 				h.WriteByte(low.HASH_PIPE)
@@ -128,6 +131,7 @@ func (c *Components) Hash() uint64 {
 			}
 		}
 		if !c.FailureActions.IsEmpty() && c.FailureActions.Value != nil {
+			h.WriteString("failureActions:")
 			for pair := c.FailureActions.Value.First(); pair != nil; pair = pair.Next() {
 				h.WriteString(pair.Key().Value)
 				h.WriteByte(low.HASH_PIPE)
diff --git a/datamodel/low/arazzo/criterion.go b/datamodel/low/arazzo/criterion.go
index fa12978..16e930a 100644
--- a/datamodel/low/arazzo/criterion.go
+++ b/datamodel/low/arazzo/criterion.go
@@ -83,14 +83,17 @@ func (c *Criterion) GetExtensions() *orderedmap.Map[low.KeyReference[string], lo
 func (c *Criterion) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !c.Context.IsEmpty() {
+			h.WriteString("context:")
 			h.WriteString(c.Context.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !c.Condition.IsEmpty() {
+			h.WriteString("condition:")
 			h.WriteString(c.Condition.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !c.Type.IsEmpty() {
+			h.WriteString("type:")
 			hashYAMLNode(h, c.Type.Value)
 		}
 		hashExtensionsInto(h, c.Extensions)
diff --git a/datamodel/low/arazzo/criterion_expression_type.go b/datamodel/low/arazzo/criterion_expression_type.go
index 3f7c20c..6018079 100644
--- a/datamodel/low/arazzo/criterion_expression_type.go
+++ b/datamodel/low/arazzo/criterion_expression_type.go
@@ -77,10 +77,12 @@ func (c *CriterionExpressionType) GetExtensions() *orderedmap.Map[low.KeyReferen
 func (c *CriterionExpressionType) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !c.Type.IsEmpty() {
+			h.WriteString("type:")
 			h.WriteString(c.Type.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !c.Version.IsEmpty() {
+			h.WriteString("version:")
 			h.WriteString(c.Version.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/arazzo/failure_action.go b/datamodel/low/arazzo/failure_action.go
index e7d7336..a4e095e 100644
--- a/datamodel/low/arazzo/failure_action.go
+++ b/datamodel/low/arazzo/failure_action.go
@@ -133,34 +133,42 @@ func (f *FailureAction) GetExtensions() *orderedmap.Map[low.KeyReference[string]
 func (f *FailureAction) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !f.ComponentRef.IsEmpty() {
+			h.WriteString("componentRef:")
 			h.WriteString(f.ComponentRef.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !f.Name.IsEmpty() {
+			h.WriteString("name:")
 			h.WriteString(f.Name.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !f.Type.IsEmpty() {
+			h.WriteString("type:")
 			h.WriteString(f.Type.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !f.WorkflowId.IsEmpty() {
+			h.WriteString("workflowId:")
 			h.WriteString(f.WorkflowId.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !f.StepId.IsEmpty() {
+			h.WriteString("stepId:")
 			h.WriteString(f.StepId.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !f.RetryAfter.IsEmpty() {
+			h.WriteString("retryAfter:")
 			h.WriteString(strconv.FormatFloat(f.RetryAfter.Value, 'f', -1, 64))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !f.RetryLimit.IsEmpty() {
+			h.WriteString("retryLimit:")
 			low.HashInt64(h, f.RetryLimit.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !f.Criteria.IsEmpty() {
+			h.WriteString("criteria:")
 			for _, c := range f.Criteria.Value {
 				low.HashUint64(h, c.Value.Hash())
 			}
diff --git a/datamodel/low/arazzo/info.go b/datamodel/low/arazzo/info.go
index f332e0e..5a2855d 100644
--- a/datamodel/low/arazzo/info.go
+++ b/datamodel/low/arazzo/info.go
@@ -79,18 +79,22 @@ func (i *Info) GetExtensions() *orderedmap.Map[low.KeyReference[string], low.Val
 func (i *Info) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !i.Title.IsEmpty() {
+			h.WriteString("title:")
 			h.WriteString(i.Title.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !i.Summary.IsEmpty() {
+			h.WriteString("summary:")
 			h.WriteString(i.Summary.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !i.Description.IsEmpty() {
+			h.WriteString("description:")
 			h.WriteString(i.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !i.Version.IsEmpty() {
+			h.WriteString("version:")
 			h.WriteString(i.Version.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/arazzo/parameter.go b/datamodel/low/arazzo/parameter.go
index 2a2d694..132449c 100644
--- a/datamodel/low/arazzo/parameter.go
+++ b/datamodel/low/arazzo/parameter.go
@@ -88,18 +88,22 @@ func (p *Parameter) GetExtensions() *orderedmap.Map[low.KeyReference[string], lo
 func (p *Parameter) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !p.ComponentRef.IsEmpty() {
+			h.WriteString("componentRef:")
 			h.WriteString(p.ComponentRef.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !p.Name.IsEmpty() {
+			h.WriteString("name:")
 			h.WriteString(p.Name.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !p.In.IsEmpty() {
+			h.WriteString("in:")
 			h.WriteString(p.In.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !p.Value.IsEmpty() {
+			h.WriteString("value:")
 			hashYAMLNode(h, p.Value.Value)
 		}
 		hashExtensionsInto(h, p.Extensions)
diff --git a/datamodel/low/arazzo/payload_replacement.go b/datamodel/low/arazzo/payload_replacement.go
index 2ed85c0..74b42e0 100644
--- a/datamodel/low/arazzo/payload_replacement.go
+++ b/datamodel/low/arazzo/payload_replacement.go
@@ -79,10 +79,12 @@ func (p *PayloadReplacement) GetExtensions() *orderedmap.Map[low.KeyReference[st
 func (p *PayloadReplacement) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !p.Target.IsEmpty() {
+			h.WriteString("target:")
 			h.WriteString(p.Target.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !p.Value.IsEmpty() {
+			h.WriteString("value:")
 			hashYAMLNode(h, p.Value.Value)
 		}
 		hashExtensionsInto(h, p.Extensions)
diff --git a/datamodel/low/arazzo/request_body.go b/datamodel/low/arazzo/request_body.go
index 40381d2..91e634e 100644
--- a/datamodel/low/arazzo/request_body.go
+++ b/datamodel/low/arazzo/request_body.go
@@ -88,13 +88,16 @@ func (r *RequestBody) GetExtensions() *orderedmap.Map[low.KeyReference[string],
 func (r *RequestBody) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !r.ContentType.IsEmpty() {
+			h.WriteString("contentType:")
 			h.WriteString(r.ContentType.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !r.Payload.IsEmpty() {
+			h.WriteString("payload:")
 			hashYAMLNode(h, r.Payload.Value)
 		}
 		if !r.Replacements.IsEmpty() {
+			h.WriteString("replacements:")
 			for _, rep := range r.Replacements.Value {
 				low.HashUint64(h, rep.Value.Hash())
 			}
diff --git a/datamodel/low/arazzo/source_description.go b/datamodel/low/arazzo/source_description.go
index 17da070..05e4e9d 100644
--- a/datamodel/low/arazzo/source_description.go
+++ b/datamodel/low/arazzo/source_description.go
@@ -78,14 +78,17 @@ func (s *SourceDescription) GetExtensions() *orderedmap.Map[low.KeyReference[str
 func (s *SourceDescription) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !s.Name.IsEmpty() {
+			h.WriteString("name:")
 			h.WriteString(s.Name.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !s.URL.IsEmpty() {
+			h.WriteString("url:")
 			h.WriteString(s.URL.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !s.Type.IsEmpty() {
+			h.WriteString("type:")
 			h.WriteString(s.Type.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/arazzo/step.go b/datamodel/low/arazzo/step.go
index 43ea941..e38726d 100644
--- a/datamodel/low/arazzo/step.go
+++ b/datamodel/low/arazzo/step.go
@@ -123,49 +123,60 @@ func (s *Step) GetExtensions() *orderedmap.Map[low.KeyReference[string], low.Val
 func (s *Step) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !s.StepId.IsEmpty() {
+			h.WriteString("stepId:")
 			h.WriteString(s.StepId.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !s.Description.IsEmpty() {
+			h.WriteString("description:")
 			h.WriteString(s.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !s.OperationId.IsEmpty() {
+			h.WriteString("operationId:")
 			h.WriteString(s.OperationId.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !s.OperationPath.IsEmpty() {
+			h.WriteString("operationPath:")
 			h.WriteString(s.OperationPath.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !s.WorkflowId.IsEmpty() {
+			h.WriteString("workflowId:")
 			h.WriteString(s.WorkflowId.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !s.Parameters.IsEmpty() {
+			h.WriteString("parameters:")
 			for _, p := range s.Parameters.Value {
 				low.HashUint64(h, p.Value.Hash())
 			}
 		}
 		if !s.RequestBody.IsEmpty() {
+			h.WriteString("requestBody:")
 			low.HashUint64(h, s.RequestBody.Value.Hash())
 		}
 		if !s.SuccessCriteria.IsEmpty() {
+			h.WriteString("successCriteria:")
 			for _, c := range s.SuccessCriteria.Value {
 				low.HashUint64(h, c.Value.Hash())
 			}
 		}
 		if !s.OnSuccess.IsEmpty() {
+			h.WriteString("onSuccess:")
 			for _, a := range s.OnSuccess.Value {
 				low.HashUint64(h, a.Value.Hash())
 			}
 		}
 		if !s.OnFailure.IsEmpty() {
+			h.WriteString("onFailure:")
 			for _, a := range s.OnFailure.Value {
 				low.HashUint64(h, a.Value.Hash())
 			}
 		}
 		if !s.Outputs.IsEmpty() {
+			h.WriteString("outputs:")
 			for pair := s.Outputs.Value.First(); pair != nil; pair = pair.Next() {
 				h.WriteString(pair.Key().Value)
 				h.WriteByte(low.HASH_PIPE)
diff --git a/datamodel/low/arazzo/success_action.go b/datamodel/low/arazzo/success_action.go
index 093bfce..6d45d27 100644
--- a/datamodel/low/arazzo/success_action.go
+++ b/datamodel/low/arazzo/success_action.go
@@ -98,26 +98,32 @@ func (s *SuccessAction) GetExtensions() *orderedmap.Map[low.KeyReference[string]
 func (s *SuccessAction) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !s.ComponentRef.IsEmpty() {
+			h.WriteString("componentRef:")
 			h.WriteString(s.ComponentRef.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !s.Name.IsEmpty() {
+			h.WriteString("name:")
 			h.WriteString(s.Name.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !s.Type.IsEmpty() {
+			h.WriteString("type:")
 			h.WriteString(s.Type.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !s.WorkflowId.IsEmpty() {
+			h.WriteString("workflowId:")
 			h.WriteString(s.WorkflowId.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !s.StepId.IsEmpty() {
+			h.WriteString("stepId:")
 			h.WriteString(s.StepId.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !s.Criteria.IsEmpty() {
+			h.WriteString("criteria:")
 			for _, c := range s.Criteria.Value {
 				low.HashUint64(h, c.Value.Hash())
 			}
diff --git a/datamodel/low/arazzo/workflow.go b/datamodel/low/arazzo/workflow.go
index c2efff2..3832803 100644
--- a/datamodel/low/arazzo/workflow.go
+++ b/datamodel/low/arazzo/workflow.go
@@ -118,42 +118,51 @@ func (w *Workflow) GetExtensions() *orderedmap.Map[low.KeyReference[string], low
 func (w *Workflow) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !w.WorkflowId.IsEmpty() {
+			h.WriteString("workflowId:")
 			h.WriteString(w.WorkflowId.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !w.Summary.IsEmpty() {
+			h.WriteString("summary:")
 			h.WriteString(w.Summary.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !w.Description.IsEmpty() {
+			h.WriteString("description:")
 			h.WriteString(w.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !w.Inputs.IsEmpty() {
+			h.WriteString("inputs:")
 			hashYAMLNode(h, w.Inputs.Value)
 		}
 		if !w.DependsOn.IsEmpty() {
+			h.WriteString("dependsOn:")
 			for _, d := range w.DependsOn.Value {
 				h.WriteString(d.Value)
 				h.WriteByte(low.HASH_PIPE)
 			}
 		}
 		if !w.Steps.IsEmpty() {
+			h.WriteString("steps:")
 			for _, s := range w.Steps.Value {
 				low.HashUint64(h, s.Value.Hash())
 			}
 		}
 		if !w.SuccessActions.IsEmpty() {
+			h.WriteString("successActions:")
 			for _, a := range w.SuccessActions.Value {
 				low.HashUint64(h, a.Value.Hash())
 			}
 		}
 		if !w.FailureActions.IsEmpty() {
+			h.WriteString("failureActions:")
 			for _, a := range w.FailureActions.Value {
 				low.HashUint64(h, a.Value.Hash())
 			}
 		}
 		if !w.Outputs.IsEmpty() {
+			h.WriteString("outputs:")
 			for pair := w.Outputs.Value.First(); pair != nil; pair = pair.Next() {
 				h.WriteString(pair.Key().Value)
 				h.WriteByte(low.HASH_PIPE)
@@ -162,6 +171,7 @@ func (w *Workflow) Hash() uint64 {
 			}
 		}
 		if !w.Parameters.IsEmpty() {
+			h.WriteString("parameters:")
 			for _, p := range w.Parameters.Value {
 				low.HashUint64(h, p.Value.Hash())
 			}
diff --git a/datamodel/low/overlay/action.go b/datamodel/low/overlay/action.go
index 7b9df03..ce7cd69 100644
--- a/datamodel/low/overlay/action.go
+++ b/datamodel/low/overlay/action.go
@@ -92,22 +92,27 @@ func (a *Action) GetExtensions() *orderedmap.Map[low.KeyReference[string], low.V
 func (a *Action) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !a.Target.IsEmpty() {
+			h.WriteString("target:")
 			h.WriteString(a.Target.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !a.Description.IsEmpty() {
+			h.WriteString("description:")
 			h.WriteString(a.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !a.Update.IsEmpty() {
+			h.WriteString("update:")
 			h.WriteString(low.GenerateHashString(a.Update.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !a.Remove.IsEmpty() {
+			h.WriteString("remove:")
 			low.HashBool(h, a.Remove.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !a.Copy.IsEmpty() {
+			h.WriteString("copy:")
 			h.WriteString(a.Copy.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/overlay/info.go b/datamodel/low/overlay/info.go
index a278102..80660dc 100644
--- a/datamodel/low/overlay/info.go
+++ b/datamodel/low/overlay/info.go
@@ -78,14 +78,17 @@ func (i *Info) GetExtensions() *orderedmap.Map[low.KeyReference[string], low.Val
 func (inf *Info) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !inf.Title.IsEmpty() {
+			h.WriteString("title:")
 			h.WriteString(inf.Title.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !inf.Version.IsEmpty() {
+			h.WriteString("version:")
 			h.WriteString(inf.Version.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !inf.Description.IsEmpty() {
+			h.WriteString("description:")
 			h.WriteString(inf.Description.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/overlay/overlay.go b/datamodel/low/overlay/overlay.go
index d0e9e3f..7f14c02 100644
--- a/datamodel/low/overlay/overlay.go
+++ b/datamodel/low/overlay/overlay.go
@@ -125,18 +125,22 @@ func (o *Overlay) GetExtensions() *orderedmap.Map[low.KeyReference[string], low.
 func (o *Overlay) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		if !o.Overlay.IsEmpty() {
+			h.WriteString("overlay:")
 			h.WriteString(o.Overlay.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.Info.IsEmpty() {
+			h.WriteString("info:")
 			h.WriteString(low.GenerateHashString(o.Info.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.Extends.IsEmpty() {
+			h.WriteString("extends:")
 			h.WriteString(o.Extends.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !o.Actions.IsEmpty() {
+			h.WriteString("actions:")
 			for _, action := range o.Actions.Value {
 				h.WriteString(low.GenerateHashString(action.Value))
 				h.WriteByte(low.HASH_PIPE)
-- 
2.43.0


From 46e2efce36ca1da516c0811c2902082f9a12819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:39 +0000
Subject: [PATCH 24/60] fix: breaking totals count external docs, schema
 changes list vocabulary and content schema

---
 what-changed/model/schema.go | 9 +++++++++
 what-changed/model/tags.go   | 6 +++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 77a497b..2566330 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -180,6 +180,12 @@ func (s *SchemaChanges) GetAllChanges() []*Change {
 			}
 		}
 	}
+	if s.ContentSchemaChanges != nil {
+		changes = append(changes, s.ContentSchemaChanges.GetAllChanges()...)
+	}
+	if len(s.VocabularyChanges) > 0 {
+		changes = append(changes, s.VocabularyChanges...)
+	}
 	if s.ExternalDocChanges != nil {
 		changes = append(changes, s.ExternalDocChanges.GetAllChanges()...)
 	}
@@ -384,6 +390,9 @@ func (s *SchemaChanges) TotalBreakingChanges() int {
 			}
 		}
 	}
+	if s.ExternalDocChanges != nil {
+		t += s.ExternalDocChanges.TotalBreakingChanges()
+	}
 	if s.XMLChanges != nil {
 		t += s.XMLChanges.TotalBreakingChanges()
 	}
diff --git a/what-changed/model/tags.go b/what-changed/model/tags.go
index d839c40..2067e7a 100644
--- a/what-changed/model/tags.go
+++ b/what-changed/model/tags.go
@@ -49,7 +49,11 @@ func (t *TagChanges) TotalChanges() int {
 
 // TotalBreakingChanges returns the number of breaking changes made by Tags
 func (t *TagChanges) TotalBreakingChanges() int {
-	return t.PropertyChanges.TotalBreakingChanges()
+	c := t.PropertyChanges.TotalBreakingChanges()
+	if t.ExternalDocs != nil {
+		c += t.ExternalDocs.TotalBreakingChanges()
+	}
+	return c
 }
 
 // CompareTags will compare a left (original) and a right (new) slice of ValueReference nodes for
-- 
2.43.0


From 842ab3a422e3be489ab3dae76eff82b468d858fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:36 +0000
Subject: [PATCH 25/60] fix: $defs, $anchor, minContains and maxContains of a
 schema are compared; a removed property is the original, not the new value

---
 what-changed/model/schema.go | 77 +++++++++++++++++++++++++++++++++++-
 1 file changed, 76 insertions(+), 1 deletion(-)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 2566330..2c0a6d2 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -49,6 +49,7 @@ type SchemaChanges struct {
 	DependentSchemasChanges      map[string]*SchemaChanges `json:"dependentSchemas,omitempty" yaml:"dependentSchemas,omitempty"`
 	DependentRequiredChanges     []*Change                 `json:"dependentRequired,omitempty" yaml:"dependentRequired,omitempty"`
 	PatternPropertiesChanges     map[string]*SchemaChanges `json:"patternProperties,omitempty" yaml:"patternProperties,omitempty"`
+	DefsChanges                  map[string]*SchemaChanges `json:"$defs,omitempty" yaml:"$defs,omitempty"`
 	ContentSchemaChanges         *SchemaChanges            `json:"contentSchema,omitempty" yaml:"contentSchema,omitempty"`
 	VocabularyChanges            []*Change                 `json:"$vocabulary,omitempty" yaml:"$vocabulary,omitempty"`
 }
@@ -180,6 +181,9 @@ func (s *SchemaChanges) GetAllChanges() []*Change {
 			}
 		}
 	}
+	for n := range s.DefsChanges {
+		changes = append(changes, s.DefsChanges[n].GetAllChanges()...)
+	}
 	if s.ContentSchemaChanges != nil {
 		changes = append(changes, s.ContentSchemaChanges.GetAllChanges()...)
 	}
@@ -280,6 +284,9 @@ func (s *SchemaChanges) TotalChanges() int {
 			t += s.PatternPropertiesChanges[n].TotalChanges()
 		}
 	}
+	for n := range s.DefsChanges {
+		t += s.DefsChanges[n].TotalChanges()
+	}
 	if s.ContentSchemaChanges != nil {
 		t += s.ContentSchemaChanges.TotalChanges()
 	}
@@ -380,6 +387,9 @@ func (s *SchemaChanges) TotalBreakingChanges() int {
 			t += s.PatternPropertiesChanges[n].TotalBreakingChanges()
 		}
 	}
+	for n := range s.DefsChanges {
+		t += s.DefsChanges[n].TotalBreakingChanges()
+	}
 	if s.ContentSchemaChanges != nil {
 		t += s.ContentSchemaChanges.TotalBreakingChanges()
 	}
@@ -577,6 +587,17 @@ func CompareSchemas(l, r *base.SchemaProxy) *SchemaChanges {
 		patterns := checkMappedSchemaOfASchema(lPattProp, rPattProp, &changes)
 		sc.PatternPropertiesChanges = patterns
 
+		var lDefs, rDefs *orderedmap.Map[low.KeyReference[string], low.ValueReference[*base.SchemaProxy]]
+		if comparisonLSchema != nil {
+			lDefs = comparisonLSchema.Defs.Value
+		}
+		if comparisonRSchema != nil {
+			rDefs = comparisonRSchema.Defs.Value
+		}
+		if lDefs != nil || rDefs != nil {
+			sc.DefsChanges = checkMappedSchemaOfASchema(lDefs, rDefs, &changes)
+		}
+
 		var wg sync.WaitGroup
 		wg.Add(4)
 		go func() {
@@ -756,7 +777,7 @@ func buildProperty(lProps, rProps []string, lEntities, rEntities map[string]*bas
 				go checkProperty(propName, lEntities[propName], rEntities[propName])
 			} else {
 				CreateChange(changes, ObjectRemoved, v3.PropertiesLabel,
-					nil, lKeyNodes[propName], BreakingRemoved(CompSchema, PropProperties), lEntities[propName], nil)
+					lKeyNodes[propName], nil, BreakingRemoved(CompSchema, PropProperties), lEntities[propName], nil)
 			}
 		}
 	}
@@ -1719,6 +1740,60 @@ func checkSchemaPropertyChanges(
 	lnv = nil
 	rnv = nil
 
+	// $anchor (JSON Schema 2020-12)
+	if lSchema != nil && lSchema.Anchor.ValueNode != nil {
+		lnv = lSchema.Anchor.ValueNode
+	}
+	if rSchema != nil && rSchema.Anchor.ValueNode != nil {
+		rnv = rSchema.Anchor.ValueNode
+	}
+	props = append(props, &PropertyCheck{
+		LeftNode:  lnv,
+		RightNode: rnv,
+		Label:     v3.AnchorLabel,
+		Changes:   changes,
+		Original:  lSchema,
+		New:       rSchema,
+	})
+	lnv = nil
+	rnv = nil
+
+	// minContains
+	if lSchema != nil && lSchema.MinContains.ValueNode != nil {
+		lnv = lSchema.MinContains.ValueNode
+	}
+	if rSchema != nil && rSchema.MinContains.ValueNode != nil {
+		rnv = rSchema.MinContains.ValueNode
+	}
+	props = append(props, &PropertyCheck{
+		LeftNode:  lnv,
+		RightNode: rnv,
+		Label:     v3.MinContainsLabel,
+		Changes:   changes,
+		Original:  lSchema,
+		New:       rSchema,
+	})
+	lnv = nil
+	rnv = nil
+
+	// maxContains
+	if lSchema != nil && lSchema.MaxContains.ValueNode != nil {
+		lnv = lSchema.MaxContains.ValueNode
+	}
+	if rSchema != nil && rSchema.MaxContains.ValueNode != nil {
+		rnv = rSchema.MaxContains.ValueNode
+	}
+	props = append(props, &PropertyCheck{
+		LeftNode:  lnv,
+		RightNode: rnv,
+		Label:     v3.MaxContainsLabel,
+		Changes:   changes,
+		Original:  lSchema,
+		New:       rSchema,
+	})
+	lnv = nil
+	rnv = nil
+
 	// contentSchema (JSON Schema 2020-12) - recursive schema comparison
 	if lSchema != nil && !lSchema.ContentSchema.IsEmpty() && rSchema != nil && !rSchema.ContentSchema.IsEmpty() {
 		sc.ContentSchemaChanges = CompareSchemas(lSchema.ContentSchema.Value, rSchema.ContentSchema.Value)
-- 
2.43.0


From 232774cce35bd1e37507c52ede7f22a9db5d6b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:09 +0000
Subject: [PATCH 26/60] fix: a change beneath an allOf both sides share is
 reported once

---
 what-changed/model/schema.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 2c0a6d2..2e88f56 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -514,8 +514,12 @@ func CompareSchemas(l, r *base.SchemaProxy) *SchemaChanges {
 
 		lSchema := l.Schema()
 		rSchema := r.Schema()
-		comparisonLSchema := schemaComparisonViewForSimpleAllOfObject(l, lSchema)
-		comparisonRSchema := schemaComparisonViewForSimpleAllOfObject(r, rSchema)
+		comparisonLSchema, comparisonRSchema := lSchema, rSchema
+		if !isSimpleAllOfObjectSchema(l, lSchema) || !isSimpleAllOfObjectSchema(r, rSchema) {
+			// when both sides are composed the same way the branches are compared with each other below.
+			comparisonLSchema = schemaComparisonViewForSimpleAllOfObject(l, lSchema)
+			comparisonRSchema = schemaComparisonViewForSimpleAllOfObject(r, rSchema)
+		}
 
 		if low.AreEqual(lSchema, rSchema) {
 			// there is no point going on, we know nothing changed!
-- 
2.43.0


From 2a696bfb0e8a75754272046b3fa62221c787daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 27/60] fix: comparing maps leaves the compared documents
 untouched and reports in document order

---
 what-changed/model/comparison_functions.go | 106 +++++++--------------
 what-changed/model/schema.go               |  11 ++-
 2 files changed, 40 insertions(+), 77 deletions(-)

diff --git a/what-changed/model/comparison_functions.go b/what-changed/model/comparison_functions.go
index 27c0558..d7ca747 100644
--- a/what-changed/model/comparison_functions.go
+++ b/what-changed/model/comparison_functions.go
@@ -677,97 +677,57 @@ func checkMapForChangesInternal[T any, R any](expLeft, expRight *orderedmap.Map[
 	changes *[]*Change, label string, compareFunc func(l, r T) R, compare bool,
 	breakingAdded, breakingRemoved bool,
 ) map[string]R {
-	var chLock sync.Mutex
-
-	lHashes := make(map[string]string)
-	rHashes := make(map[string]string)
 	lValues := make(map[string]low.ValueReference[T])
 	rValues := make(map[string]low.ValueReference[T])
-
-	if expLeft != nil {
-		for k, v := range expLeft.FromOldest() {
-			lHashes[k.Value] = low.GenerateHashString(v.Value)
-			lValues[k.Value] = v
-		}
+	for k, v := range expLeft.FromOldest() {
+		lValues[k.Value] = v
 	}
-
-	if expRight != nil {
-		for k, v := range expRight.FromOldest() {
-			rHashes[k.Value] = low.GenerateHashString(v.Value)
-			rValues[k.Value] = v
-		}
+	for k, v := range expRight.FromOldest() {
+		rValues[k.Value] = v
 	}
 
 	expChanges := make(map[string]R)
 
-	checkLeft := func(k string, doneChan chan struct{}, f, g map[string]string, p, h map[string]low.ValueReference[T]) {
-		rhash := g[k]
-		if rhash == EMPTY_STR {
-			chLock.Lock()
-			if p[k].GetValueNode().Value == EMPTY_STR {
-				p[k].GetValueNode().Value = k
-			}
+	for k, l := range expLeft.FromOldest() {
+		r, ok := rValues[k.Value]
+		if !ok {
 			CreateChange(changes, ObjectRemoved, label,
-				p[k].GetValueNode(), nil, breakingRemoved,
-				p[k].GetValue(), nil)
-			chLock.Unlock()
-			doneChan <- struct{}{}
-			return
+				namedValueNode(k.Value, l.GetValueNode()), nil, breakingRemoved,
+				l.GetValue(), nil)
+			continue
 		}
-		if f[k] == g[k] {
-			doneChan <- struct{}{}
-			return
+		if !compare || low.GenerateHashString(l.Value) == low.GenerateHashString(r.Value) {
+			continue
 		}
-		if compare {
-			chLock.Lock()
-			ch := compareFunc(p[k].Value, h[k].Value)
-			// incorrect map results were being generated causing panics.
-			// https://github.com/pb33f/libopenapi/issues/61
-			if !reflect.ValueOf(&ch).Elem().IsZero() {
-				expChanges[k] = ch
-				var cr any = ch
-				pVal := p[k]
-				SetReferenceIfExists(&pVal, cr)
-			}
-			chLock.Unlock()
+		ch := compareFunc(l.Value, r.Value)
+		// incorrect map results were being generated causing panics.
+		// https://github.com/pb33f/libopenapi/issues/61
+		if !reflect.ValueOf(&ch).Elem().IsZero() {
+			expChanges[k.Value] = ch
+			var cr any = ch
+			SetReferenceIfExists(&l, cr)
 		}
-		doneChan <- struct{}{}
 	}
 
-	checkRight := func(k string, doneChan chan struct{}, f map[string]string, p map[string]low.ValueReference[T]) {
-		lhash := f[k]
-		if lhash == EMPTY_STR {
-			chLock.Lock()
-			if p[k].GetValueNode().Value == EMPTY_STR {
-				p[k].GetValueNode().Value = k
-			}
+	for k, r := range expRight.FromOldest() {
+		if _, ok := lValues[k.Value]; !ok {
 			CreateChange(changes, ObjectAdded, label,
-				nil, p[k].GetValueNode(), breakingAdded,
-				nil, p[k].GetValue())
-			chLock.Unlock()
+				nil, namedValueNode(k.Value, r.GetValueNode()), breakingAdded,
+				nil, r.GetValue())
 		}
-		doneChan <- struct{}{}
-	}
-
-	doneChan := make(chan struct{})
-	count := 0
-
-	for k := range lHashes {
-		count++
-		go checkLeft(k, doneChan, lHashes, rHashes, lValues, rValues)
-	}
-
-	for k := range rHashes {
-		count++
-		go checkRight(k, doneChan, lHashes, rValues)
 	}
+	return expChanges
+}
 
-	completed := 0
-	for completed < count {
-		<-doneChan
-		completed++
+// namedValueNode gives the node of a map entry to report: an entry without a scalar value of its own is reported by
+// its key. The node belongs to the document being compared, so it is copied and not changed.
+func namedValueNode(key string, node *yaml.Node) *yaml.Node {
+	if node == nil || node.Value != EMPTY_STR {
+		return node
 	}
-	return expChanges
+	named := *node
+	named.Value = key
+	return &named
 }
 
 // ExtractStringValueSliceChanges will compare two low level string slices for changes.
diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 2e88f56..be29b0f 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -602,29 +602,32 @@ func CompareSchemas(l, r *base.SchemaProxy) *SchemaChanges {
 			sc.DefsChanges = checkMappedSchemaOfASchema(lDefs, rDefs, &changes)
 		}
 
+		// each composition collects its own changes, so the order reported is always the same.
+		var oneOfChanges, allOfChanges, anyOfChanges, prefixChanges []*Change
 		var wg sync.WaitGroup
 		wg.Add(4)
 		go func() {
 			extractSchemaChanges(loneOf, roneOf, v3.OneOfLabel,
-				&sc.OneOfChanges, &changes)
+				&sc.OneOfChanges, &oneOfChanges)
 			wg.Done()
 		}()
 		go func() {
 			extractSchemaChanges(lallOf, rallOf, v3.AllOfLabel,
-				&sc.AllOfChanges, &changes)
+				&sc.AllOfChanges, &allOfChanges)
 			wg.Done()
 		}()
 		go func() {
 			extractSchemaChanges(lanyOf, ranyOf, v3.AnyOfLabel,
-				&sc.AnyOfChanges, &changes)
+				&sc.AnyOfChanges, &anyOfChanges)
 			wg.Done()
 		}()
 		go func() {
 			extractSchemaChanges(lprefix, rprefix, v3.PrefixItemsLabel,
-				&sc.PrefixItemsChanges, &changes)
+				&sc.PrefixItemsChanges, &prefixChanges)
 			wg.Done()
 		}()
 		wg.Wait()
+		changes = slices.Concat(changes, oneOfChanges, allOfChanges, anyOfChanges, prefixChanges)
 
 	}
 	// done
-- 
2.43.0


From c0a922ff28e4b5b19d21df797c1ca02fd2be6887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 28/60] fix: added and removed path items, server variables,
 2.0 definitions and extensions of contact and server variables are reported

---
 what-changed/model/components.go      | 49 +++++++++++++++------------
 what-changed/model/contact.go         | 21 ++++++++++--
 what-changed/model/document.go        |  3 +-
 what-changed/model/security_scheme.go |  2 +-
 what-changed/model/server.go          |  2 +-
 what-changed/model/server_variable.go | 33 +++++++++++++++++-
 6 files changed, 82 insertions(+), 28 deletions(-)

diff --git a/what-changed/model/components.go b/what-changed/model/components.go
index e646de5..ae393fe 100644
--- a/what-changed/model/components.go
+++ b/what-changed/model/components.go
@@ -125,65 +125,69 @@ func CompareComponents(l, r any) *ComponentsChanges {
 		doneChan := make(chan componentComparison)
 		comparisons := 0
 
+		// every comparison collects its own changes, so the order reported is always the same.
+		var sections []*[]*Change
+		section := func() *[]*Change {
+			collected := new([]*Change)
+			sections = append(sections, collected)
+			comparisons++
+			return collected
+		}
+
 		// run as fast as we can, thread all the things.
 		if !lComponents.Schemas.IsEmpty() || !rComponents.Schemas.IsEmpty() {
-			comparisons++
 			go runComparison(lComponents.Schemas.Value, rComponents.Schemas.Value,
-				&changes, v3.SchemasLabel, CompareSchemas, doneChan)
+				section(), v3.SchemasLabel, CompareSchemas, doneChan)
 		}
 
 		if !lComponents.Responses.IsEmpty() || !rComponents.Responses.IsEmpty() {
-			comparisons++
 			go runComparison(lComponents.Responses.Value, rComponents.Responses.Value,
-				&changes, v3.ResponsesLabel, CompareResponseV3, doneChan)
+				section(), v3.ResponsesLabel, CompareResponseV3, doneChan)
 		}
 
 		if !lComponents.Parameters.IsEmpty() || !rComponents.Parameters.IsEmpty() {
-			comparisons++
 			go runComparison(lComponents.Parameters.Value, rComponents.Parameters.Value,
-				&changes, v3.ParametersLabel, CompareParametersV3, doneChan)
+				section(), v3.ParametersLabel, CompareParametersV3, doneChan)
 		}
 
 		if !lComponents.Examples.IsEmpty() || !rComponents.Examples.IsEmpty() {
-			comparisons++
 			go runComparison(lComponents.Examples.Value, rComponents.Examples.Value,
-				&changes, v3.ExamplesLabel, CompareExamples, doneChan)
+				section(), v3.ExamplesLabel, CompareExamples, doneChan)
 		}
 
 		if !lComponents.RequestBodies.IsEmpty() || !rComponents.RequestBodies.IsEmpty() {
-			comparisons++
 			go runComparison(lComponents.RequestBodies.Value, rComponents.RequestBodies.Value,
-				&changes, v3.RequestBodiesLabel, CompareRequestBodies, doneChan)
+				section(), v3.RequestBodiesLabel, CompareRequestBodies, doneChan)
 		}
 
 		if !lComponents.Headers.IsEmpty() || !rComponents.Headers.IsEmpty() {
-			comparisons++
 			go runComparison(lComponents.Headers.Value, rComponents.Headers.Value,
-				&changes, v3.HeadersLabel, CompareHeadersV3, doneChan)
+				section(), v3.HeadersLabel, CompareHeadersV3, doneChan)
 		}
 
 		if !lComponents.SecuritySchemes.IsEmpty() || !rComponents.SecuritySchemes.IsEmpty() {
-			comparisons++
 			go runComparison(lComponents.SecuritySchemes.Value, rComponents.SecuritySchemes.Value,
-				&changes, v3.SecuritySchemesLabel, CompareSecuritySchemesV3, doneChan)
+				section(), v3.SecuritySchemesLabel, CompareSecuritySchemesV3, doneChan)
 		}
 
 		if !lComponents.Links.IsEmpty() || !rComponents.Links.IsEmpty() {
-			comparisons++
 			go runComparison(lComponents.Links.Value, rComponents.Links.Value,
-				&changes, v3.LinksLabel, CompareLinks, doneChan)
+				section(), v3.LinksLabel, CompareLinks, doneChan)
 		}
 
 		if !lComponents.Callbacks.IsEmpty() || !rComponents.Callbacks.IsEmpty() {
-			comparisons++
 			go runComparison(lComponents.Callbacks.Value, rComponents.Callbacks.Value,
-				&changes, v3.CallbacksLabel, CompareCallback, doneChan)
+				section(), v3.CallbacksLabel, CompareCallback, doneChan)
 		}
 
 		if !lComponents.MediaTypes.IsEmpty() || !rComponents.MediaTypes.IsEmpty() {
-			comparisons++
 			go runComparison(lComponents.MediaTypes.Value, rComponents.MediaTypes.Value,
-				&changes, v3.MediaTypesLabel, CompareMediaTypes, doneChan)
+				section(), v3.MediaTypesLabel, CompareMediaTypes, doneChan)
+		}
+
+		if !lComponents.PathItems.IsEmpty() || !rComponents.PathItems.IsEmpty() {
+			go runComparison(lComponents.PathItems.Value, rComponents.PathItems.Value,
+				section(), v3.PathItemsLabel, ComparePathItemsV3, doneChan)
 		}
 
 		cc.ExtensionChanges = CompareExtensions(lComponents.Extensions, rComponents.Extensions)
@@ -199,10 +203,13 @@ func CompareComponents(l, r any) *ComponentsChanges {
 				completedComponents++
 				cc.SecuritySchemeChanges = res.result.(map[string]*SecuritySchemeChanges)
 			case v3.ResponsesLabel, v3.ParametersLabel, v3.ExamplesLabel, v3.RequestBodiesLabel, v3.HeadersLabel,
-				v3.LinksLabel, v3.CallbacksLabel, v3.MediaTypesLabel:
+				v3.LinksLabel, v3.CallbacksLabel, v3.MediaTypesLabel, v3.PathItemsLabel:
 				completedComponents++
 			}
 		}
+		for _, collected := range sections {
+			changes = append(changes, *collected...)
+		}
 	}
 
 	cc.PropertyChanges = NewPropertyChanges(changes)
diff --git a/what-changed/model/contact.go b/what-changed/model/contact.go
index adcde04..dcd5261 100644
--- a/what-changed/model/contact.go
+++ b/what-changed/model/contact.go
@@ -11,6 +11,7 @@ import (
 // ContactChanges Represent changes to a Contact object that is a child of Info, part of an OpenAPI document.
 type ContactChanges struct {
 	*PropertyChanges
+	ExtensionChanges *ExtensionChanges `json:"extensions,omitempty" yaml:"extensions,omitempty"`
 }
 
 // GetAllChanges returns a slice of all changes made between Callback objects
@@ -18,7 +19,12 @@ func (c *ContactChanges) GetAllChanges() []*Change {
 	if c == nil {
 		return nil
 	}
-	return c.Changes
+	var changes []*Change
+	changes = append(changes, c.Changes...)
+	if c.ExtensionChanges != nil {
+		changes = append(changes, c.ExtensionChanges.GetAllChanges()...)
+	}
+	return changes
 }
 
 // TotalChanges represents the total number of changes that have occurred to a Contact object
@@ -26,7 +32,11 @@ func (c *ContactChanges) TotalChanges() int {
 	if c == nil {
 		return 0
 	}
-	return c.PropertyChanges.TotalChanges()
+	t := c.PropertyChanges.TotalChanges()
+	if c.ExtensionChanges != nil {
+		t += c.ExtensionChanges.TotalChanges()
+	}
+	return t
 }
 
 // TotalBreakingChanges returns the total number of breaking changes in Contact objects.
@@ -34,7 +44,11 @@ func (c *ContactChanges) TotalBreakingChanges() int {
 	if c == nil {
 		return 0
 	}
-	return c.PropertyChanges.TotalBreakingChanges()
+	t := c.PropertyChanges.TotalBreakingChanges()
+	if c.ExtensionChanges != nil {
+		t += c.ExtensionChanges.TotalBreakingChanges()
+	}
+	return t
 }
 
 // CompareContact will check a left (original) and right (new) Contact object for any changes. If there
@@ -60,6 +74,7 @@ func CompareContact(l, r *base.Contact) *ContactChanges {
 
 	dc := new(ContactChanges)
 	dc.PropertyChanges = NewPropertyChanges(changes)
+	dc.ExtensionChanges = CompareExtensions(l.Extensions, r.Extensions)
 	if dc.TotalChanges() <= 0 {
 		return nil
 	}
diff --git a/what-changed/model/document.go b/what-changed/model/document.go
index 5c9263c..fc9679a 100644
--- a/what-changed/model/document.go
+++ b/what-changed/model/document.go
@@ -215,6 +215,7 @@ func CompareDocuments(l, r any) *DocumentChanges {
 		cc.PropertyChanges = new(PropertyChanges)
 		if n := CompareComponents(lDoc.Definitions.Value, rDoc.Definitions.Value); n != nil {
 			cc.SchemaChanges = n.SchemaChanges
+			cc.Changes = append(cc.Changes, n.Changes...)
 		}
 		if n := CompareComponents(lDoc.SecurityDefinitions.Value, rDoc.SecurityDefinitions.Value); n != nil {
 			cc.SecuritySchemeChanges = n.SecuritySchemeChanges
@@ -281,7 +282,7 @@ func CompareDocuments(l, r any) *DocumentChanges {
 		}
 		if lDoc.Components.IsEmpty() && !rDoc.Components.IsEmpty() {
 			CreateChange(&changes, PropertyAdded, v3.ComponentsLabel,
-				nil, rDoc.Components.ValueNode, BreakingAdded(CompComponents, ""), nil, lDoc.Components.Value)
+				nil, rDoc.Components.ValueNode, BreakingAdded(CompComponents, ""), nil, rDoc.Components.Value)
 		}
 
 		// compare servers
diff --git a/what-changed/model/security_scheme.go b/what-changed/model/security_scheme.go
index 4b6b5d4..16f7747 100644
--- a/what-changed/model/security_scheme.go
+++ b/what-changed/model/security_scheme.go
@@ -166,7 +166,7 @@ func CompareSecuritySchemes(l, r any) *SecuritySchemeChanges {
 			BreakingModified(CompSecurityScheme, PropScheme), CompSecurityScheme, PropScheme)
 
 		addPropertyCheck(&props, lSS.BearerFormat.ValueNode, rSS.BearerFormat.ValueNode,
-			lSS.BearerFormat.Value, rSS.BearerFormat.Value, &changes, v3.SchemeLabel,
+			lSS.BearerFormat.Value, rSS.BearerFormat.Value, &changes, PropBearerFormat,
 			BreakingModified(CompSecurityScheme, PropBearerFormat), CompSecurityScheme, PropBearerFormat)
 
 		addPropertyCheck(&props, lSS.OpenIdConnectUrl.ValueNode, rSS.OpenIdConnectUrl.ValueNode,
diff --git a/what-changed/model/server.go b/what-changed/model/server.go
index 86914a0..c50e160 100644
--- a/what-changed/model/server.go
+++ b/what-changed/model/server.go
@@ -79,9 +79,9 @@ func CompareServers(l, r *v3.Server) *ServerChanges {
 
 	CheckProperties(props)
 	sc := new(ServerChanges)
-	sc.PropertyChanges = NewPropertyChanges(changes)
 	sc.ServerVariableChanges = CheckMapForChanges(l.Variables.Value, r.Variables.Value,
 		&changes, v3.VariablesLabel, CompareServerVariables)
+	sc.PropertyChanges = NewPropertyChanges(changes)
 
 	sc.ExtensionChanges = CompareExtensions(l.Extensions, r.Extensions)
 	sc.Server = r
diff --git a/what-changed/model/server_variable.go b/what-changed/model/server_variable.go
index a7a9651..85a1fa3 100644
--- a/what-changed/model/server_variable.go
+++ b/what-changed/model/server_variable.go
@@ -11,6 +11,7 @@ import (
 // ServerVariableChanges represents changes found between two OpenAPI ServerVariable Objects
 type ServerVariableChanges struct {
 	*PropertyChanges
+	ExtensionChanges *ExtensionChanges `json:"extensions,omitempty" yaml:"extensions,omitempty"`
 }
 
 // GetAllChanges returns a slice of all changes made between SecurityRequirement objects
@@ -18,7 +19,36 @@ func (s *ServerVariableChanges) GetAllChanges() []*Change {
 	if s == nil {
 		return nil
 	}
-	return s.Changes
+	var changes []*Change
+	changes = append(changes, s.Changes...)
+	if s.ExtensionChanges != nil {
+		changes = append(changes, s.ExtensionChanges.GetAllChanges()...)
+	}
+	return changes
+}
+
+// TotalChanges returns total changes found between two OpenAPI ServerVariable Objects
+func (s *ServerVariableChanges) TotalChanges() int {
+	if s == nil {
+		return 0
+	}
+	t := s.PropertyChanges.TotalChanges()
+	if s.ExtensionChanges != nil {
+		t += s.ExtensionChanges.TotalChanges()
+	}
+	return t
+}
+
+// TotalBreakingChanges returns the total number of breaking changes found between two OpenAPI ServerVariable Objects
+func (s *ServerVariableChanges) TotalBreakingChanges() int {
+	if s == nil {
+		return 0
+	}
+	t := s.PropertyChanges.TotalBreakingChanges()
+	if s.ExtensionChanges != nil {
+		t += s.ExtensionChanges.TotalBreakingChanges()
+	}
+	return t
 }
 
 // CompareServerVariables compares a left and right OpenAPI ServerVariable object for changes.
@@ -67,5 +97,6 @@ func CompareServerVariables(l, r *v3.ServerVariable) *ServerVariableChanges {
 	CheckProperties(props)
 	sc := new(ServerVariableChanges)
 	sc.PropertyChanges = NewPropertyChanges(changes)
+	sc.ExtensionChanges = CompareExtensions(l.Extensions, r.Extensions)
 	return sc
 }
-- 
2.43.0


From 8144ed281e7c582fd0f98adb235936ba273a7bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:49 +0000
Subject: [PATCH 29/60] fix: changes are reported in the same order every time

---
 what-changed/model/callback.go        |  7 +++++--
 what-changed/model/discriminator.go   |  7 +++++--
 what-changed/model/examples.go        |  7 +++++--
 what-changed/model/extensions.go      |  6 ++++--
 what-changed/model/link.go            |  7 +++++--
 what-changed/model/operation.go       | 18 +++++++++--------
 what-changed/model/path_item.go       |  6 ++++--
 what-changed/model/paths.go           | 10 ++++++----
 what-changed/model/schema.go          | 28 +++++++++++++++------------
 what-changed/model/server_variable.go |  7 +++++--
 what-changed/model/tags.go            |  7 +++++--
 11 files changed, 70 insertions(+), 40 deletions(-)

diff --git a/what-changed/model/callback.go b/what-changed/model/callback.go
index f5685b9..8a97941 100644
--- a/what-changed/model/callback.go
+++ b/what-changed/model/callback.go
@@ -4,6 +4,9 @@
 package model
 
 import (
+	"maps"
+	"slices"
+
 	"github.com/pb33f/libopenapi/datamodel/low"
 	v3 "github.com/pb33f/libopenapi/datamodel/low/v3"
 )
@@ -124,7 +127,7 @@ func CompareCallback(l, r *v3.Callback) *CallbackChanges {
 	expChanges := make(map[string]*PathItemChanges)
 
 	// check left path item hashes
-	for k := range lHashes {
+	for _, k := range slices.Sorted(maps.Keys(lHashes)) {
 		rhash := rHashes[k]
 		if rhash == "" {
 			CreateChange(&changes, ObjectRemoved, k,
@@ -140,7 +143,7 @@ func CompareCallback(l, r *v3.Callback) *CallbackChanges {
 	}
 
 	// check right path item hashes
-	for k := range rHashes {
+	for _, k := range slices.Sorted(maps.Keys(rHashes)) {
 		lhash := lHashes[k]
 		if lhash == "" {
 			CreateChange(&changes, ObjectAdded, k,
diff --git a/what-changed/model/discriminator.go b/what-changed/model/discriminator.go
index aaf3fb3..c992306 100644
--- a/what-changed/model/discriminator.go
+++ b/what-changed/model/discriminator.go
@@ -4,6 +4,9 @@
 package model
 
 import (
+	"maps"
+	"slices"
+
 	"github.com/pb33f/libopenapi/datamodel/low/base"
 )
 
@@ -70,7 +73,7 @@ func CompareDiscriminator(l, r *base.Discriminator) *DiscriminatorChanges {
 	rMap := FlattenLowLevelOrderedMap[string](r.Mapping.Value)
 
 	// check for removals, modifications and moves
-	for i := range lMap {
+	for _, i := range slices.Sorted(maps.Keys(lMap)) {
 		CheckForObjectAdditionOrRemoval[string](lMap, rMap, i, &mappingChanges, BreakingAdded(CompDiscriminator, PropMapping), BreakingRemoved(CompDiscriminator, PropMapping))
 		// if the existing tag exists, let's check it.
 		if rMap[i] != nil {
@@ -81,7 +84,7 @@ func CompareDiscriminator(l, r *base.Discriminator) *DiscriminatorChanges {
 		}
 	}
 
-	for i := range rMap {
+	for _, i := range slices.Sorted(maps.Keys(rMap)) {
 		if lMap[i] == nil {
 			CreateChange(&mappingChanges, ObjectAdded, i, nil,
 				rMap[i].GetValueNode(), BreakingAdded(CompDiscriminator, PropMapping), nil, rMap[i].GetValue())
diff --git a/what-changed/model/examples.go b/what-changed/model/examples.go
index c271c27..dae5d90 100644
--- a/what-changed/model/examples.go
+++ b/what-changed/model/examples.go
@@ -4,6 +4,9 @@
 package model
 
 import (
+	"maps"
+	"slices"
+
 	"github.com/pb33f/libopenapi/datamodel/low"
 	v2 "github.com/pb33f/libopenapi/datamodel/low/v2"
 	"go.yaml.in/yaml/v4"
@@ -55,7 +58,7 @@ func CompareExamplesV2(l, r *v2.Examples) *ExamplesChanges {
 	var changes []*Change
 
 	// check left example hashes
-	for k := range lHashes {
+	for _, k := range slices.Sorted(maps.Keys(lHashes)) {
 		rhash := rHashes[k]
 		if rhash == "" {
 			CreateChange(&changes, ObjectRemoved, k,
@@ -73,7 +76,7 @@ func CompareExamplesV2(l, r *v2.Examples) *ExamplesChanges {
 	}
 
 	// check right example hashes
-	for k := range rHashes {
+	for _, k := range slices.Sorted(maps.Keys(rHashes)) {
 		lhash := lHashes[k]
 		if lhash == "" {
 			CreateChange(&changes, ObjectAdded, k,
diff --git a/what-changed/model/extensions.go b/what-changed/model/extensions.go
index 6aa571b..a91d848 100644
--- a/what-changed/model/extensions.go
+++ b/what-changed/model/extensions.go
@@ -4,6 +4,8 @@
 package model
 
 import (
+	"maps"
+	"slices"
 	"strings"
 
 	"github.com/pb33f/libopenapi/datamodel/low"
@@ -59,7 +61,7 @@ func CompareExtensions(l, r *orderedmap.Map[low.KeyReference[string], low.ValueR
 	}
 
 	var changes []*Change
-	for i := range seenLeft {
+	for _, i := range slices.Sorted(maps.Keys(seenLeft)) {
 
 		CheckForObjectAdditionOrRemovalWithEncoding[*yaml.Node](seenLeft, seenRight, i, &changes, false, true)
 
@@ -80,7 +82,7 @@ func CompareExtensions(l, r *orderedmap.Map[low.KeyReference[string], low.ValueR
 			CheckPropertiesWithEncoding(props)
 		}
 	}
-	for i := range seenRight {
+	for _, i := range slices.Sorted(maps.Keys(seenRight)) {
 		if seenLeft[i] == nil {
 			CheckForObjectAdditionOrRemovalWithEncoding[*yaml.Node](seenLeft, seenRight, i, &changes, false, true)
 		}
diff --git a/what-changed/model/link.go b/what-changed/model/link.go
index aabdda1..40727ab 100644
--- a/what-changed/model/link.go
+++ b/what-changed/model/link.go
@@ -4,6 +4,9 @@
 package model
 
 import (
+	"maps"
+	"slices"
+
 	"github.com/pb33f/libopenapi/datamodel/low"
 	v3 "github.com/pb33f/libopenapi/datamodel/low/v3"
 )
@@ -110,7 +113,7 @@ func CompareLinks(l, r *v3.Link) *LinkChanges {
 	for k, v := range r.Parameters.Value.FromOldest() {
 		rValues[k.Value] = v
 	}
-	for k := range lValues {
+	for _, k := range slices.Sorted(maps.Keys(lValues)) {
 		if _, ok := rValues[k]; !ok {
 			CreateChange(&changes, ObjectRemoved, v3.ParametersLabel,
 				lValues[k].ValueNode, nil, BreakingRemoved(CompLink, PropParameters),
@@ -124,7 +127,7 @@ func CompareLinks(l, r *v3.Link) *LinkChanges {
 		}
 
 	}
-	for k := range rValues {
+	for _, k := range slices.Sorted(maps.Keys(rValues)) {
 		if _, ok := lValues[k]; !ok {
 			CreateChange(&changes, ObjectAdded, v3.ParametersLabel,
 				nil, rValues[k].ValueNode, BreakingAdded(CompLink, PropParameters),
diff --git a/what-changed/model/operation.go b/what-changed/model/operation.go
index 6643623..12ca57e 100644
--- a/what-changed/model/operation.go
+++ b/what-changed/model/operation.go
@@ -4,7 +4,9 @@
 package model
 
 import (
+	"maps"
 	"reflect"
+	"slices"
 	"sort"
 	"strings"
 
@@ -243,7 +245,7 @@ func CompareOperations(l, r any) *OperationChanges {
 			}
 
 			var paramChanges []*ParameterChanges
-			for n := range lv {
+			for _, n := range slices.Sorted(maps.Keys(lv)) {
 				if _, ok := rv[n]; ok {
 					if !low.AreEqual(lv[n], rv[n]) {
 						ch := CompareParameters(lv[n], rv[n])
@@ -260,7 +262,7 @@ func CompareOperations(l, r any) *OperationChanges {
 					nil)
 
 			}
-			for n := range rv {
+			for _, n := range slices.Sorted(maps.Keys(rv)) {
 				if _, ok := lv[n]; !ok {
 					CreateChange(&changes, ObjectAdded, v3.ParametersLabel,
 						nil, rv[n].Name.ValueNode, rv[n].Required.Value, nil,
@@ -352,7 +354,7 @@ func CompareOperations(l, r any) *OperationChanges {
 			}
 
 			var paramChanges []*ParameterChanges
-			for n := range lv {
+			for _, n := range slices.Sorted(maps.Keys(lv)) {
 				if _, ok := rv[n]; ok {
 					if !low.AreEqual(lv[n], rv[n]) {
 						ch := CompareParameters(lv[n], rv[n])
@@ -369,7 +371,7 @@ func CompareOperations(l, r any) *OperationChanges {
 					nil)
 
 			}
-			for n := range rv {
+			for _, n := range slices.Sorted(maps.Keys(rv)) {
 				if _, ok := lv[n]; !ok {
 					// Check configurable breaking rules first
 					breaking := BreakingAdded(CompOperation, PropParameters)
@@ -473,7 +475,7 @@ func checkServers(lServers, rServers low.NodeReference[[]low.ValueReference[*v3.
 			rv[s] = rServers.Value[i]
 		}
 
-		for k := range lv {
+		for _, k := range slices.Sorted(maps.Keys(lv)) {
 
 			var changes []*Change
 
@@ -493,7 +495,7 @@ func checkServers(lServers, rServers low.NodeReference[[]low.ValueReference[*v3.
 
 		}
 
-		for k := range rv {
+		for _, k := range slices.Sorted(maps.Keys(rv)) {
 			if _, ok := lv[k]; !ok {
 
 				var changes []*Change
@@ -567,7 +569,7 @@ func checkSecurity(lSecurity, rSecurity low.NodeReference[[]low.ValueReference[*
 	}
 
 	var secChanges []*SecurityRequirementChanges
-	for n := range lv {
+	for _, n := range slices.Sorted(maps.Keys(lv)) {
 		if _, ok := rv[n]; ok {
 			if !low.AreEqual(lv[n], rv[n]) {
 				ch := CompareSecurityRequirement(lv[n], rv[n])
@@ -588,7 +590,7 @@ func checkSecurity(lSecurity, rSecurity low.NodeReference[[]low.ValueReference[*
 			PropertyChanges: NewPropertyChanges(reqChanges),
 		})
 	}
-	for n := range rv {
+	for _, n := range slices.Sorted(maps.Keys(rv)) {
 		if _, ok := lv[n]; !ok {
 			// Whole security requirement was added - create SecurityRequirementChanges
 			// so it appears under "Security Requirements" section
diff --git a/what-changed/model/path_item.go b/what-changed/model/path_item.go
index 803be6f..9e85a63 100644
--- a/what-changed/model/path_item.go
+++ b/what-changed/model/path_item.go
@@ -4,7 +4,9 @@
 package model
 
 import (
+	"maps"
 	"reflect"
+	"slices"
 
 	"github.com/pb33f/libopenapi/datamodel/low"
 	v2 "github.com/pb33f/libopenapi/datamodel/low/v2"
@@ -449,7 +451,7 @@ func checkParameters(lParams, rParams []low.ValueReference[low.SharedParameters]
 	}
 
 	var paramChanges []*ParameterChanges
-	for n := range lv {
+	for _, n := range slices.Sorted(maps.Keys(lv)) {
 		if _, ok := rv[n]; ok {
 			if !low.AreEqual(lv[n], rv[n]) {
 				ch := CompareParameters(lv[n], rv[n])
@@ -466,7 +468,7 @@ func checkParameters(lParams, rParams []low.ValueReference[low.SharedParameters]
 			nil)
 
 	}
-	for n := range rv {
+	for _, n := range slices.Sorted(maps.Keys(rv)) {
 		if _, ok := lv[n]; !ok {
 			CreateChange(changes, ObjectAdded, v3.ParametersLabel,
 				nil, rv[n].GetName().ValueNode, rv[n].GetRequired().Value, nil,
diff --git a/what-changed/model/paths.go b/what-changed/model/paths.go
index 2b35d36..bc37c1e 100644
--- a/what-changed/model/paths.go
+++ b/what-changed/model/paths.go
@@ -4,7 +4,9 @@
 package model
 
 import (
+	"maps"
 	"reflect"
+	"slices"
 	"sync"
 
 	"github.com/pb33f/libopenapi/datamodel/low"
@@ -110,7 +112,7 @@ func ComparePaths(l, r any) *PathsChanges {
 		doneChan := make(chan struct{})
 		pathsChecked := 0
 
-		for k := range lKeys {
+		for _, k := range slices.Sorted(maps.Keys(lKeys)) {
 			if _, ok := rKeys[k]; ok {
 				go compare(k, pathChanges, lKeys[k].Value, rKeys[k].Value, doneChan)
 				pathsChecked++
@@ -122,7 +124,7 @@ func ComparePaths(l, r any) *PathsChanges {
 				p.Value, nil)
 		}
 
-		for k := range rKeys {
+		for _, k := range slices.Sorted(maps.Keys(rKeys)) {
 			if _, ok := lKeys[k]; !ok {
 				g, p := rPath.FindPathAndKey(k)
 				CreateChange(&changes, ObjectAdded, k,
@@ -184,7 +186,7 @@ func ComparePaths(l, r any) *PathsChanges {
 		doneChan := make(chan struct{})
 		pathsChecked := 0
 
-		for k := range lKeys {
+		for _, k := range slices.Sorted(maps.Keys(lKeys)) {
 			if _, ok := rKeys[k]; ok {
 				go compare(k, pathChanges, lKeys[k].Value, rKeys[k].Value, doneChan)
 				pathsChecked++
@@ -196,7 +198,7 @@ func ComparePaths(l, r any) *PathsChanges {
 				p.Value, nil)
 		}
 
-		for k := range rKeys {
+		for _, k := range slices.Sorted(maps.Keys(rKeys)) {
 			if _, ok := lKeys[k]; !ok {
 				g, p := rPath.FindPathAndKey(k)
 				CreateChange(&changes, ObjectAdded, k,
diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index be29b0f..3148f3e 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -5,6 +5,7 @@ package model
 
 import (
 	"fmt"
+	"maps"
 	"slices"
 	"sort"
 	"strings"
@@ -1413,17 +1414,17 @@ func checkSchemaPropertyChanges(
 			k[rSchema.Required.Value[i].Value] = i
 		}
 	}
-	for g := range k {
+	for _, g := range slices.Sorted(maps.Keys(k)) {
 		if _, ok := j[g]; !ok {
 			CreateChange(changes, PropertyAdded, v3.RequiredLabel,
 				nil, rSchema.Required.Value[k[g]].GetValueNode(), BreakingAdded(CompSchema, PropRequired), nil,
-				rSchema.Required.Value[k[g]].GetValue)
+				rSchema.Required.Value[k[g]].GetValue())
 		}
 	}
-	for g := range j {
+	for _, g := range slices.Sorted(maps.Keys(j)) {
 		if _, ok := k[g]; !ok {
 			CreateChange(changes, PropertyRemoved, v3.RequiredLabel,
-				lSchema.Required.Value[j[g]].GetValueNode(), nil, BreakingRemoved(CompSchema, PropRequired), lSchema.Required.Value[j[g]].GetValue,
+				lSchema.Required.Value[j[g]].GetValueNode(), nil, BreakingRemoved(CompSchema, PropRequired), lSchema.Required.Value[j[g]].GetValue(),
 				nil)
 		}
 	}
@@ -1441,17 +1442,17 @@ func checkSchemaPropertyChanges(
 			k[toString(rSchema.Enum.Value[i].Value.Value)] = i
 		}
 	}
-	for g := range k {
+	for _, g := range slices.Sorted(maps.Keys(k)) {
 		if _, ok := j[g]; !ok {
 			CreateChange(changes, PropertyAdded, v3.EnumLabel,
 				nil, rSchema.Enum.Value[k[g]].GetValueNode(), BreakingAdded(CompSchema, PropEnum), nil,
-				rSchema.Enum.Value[k[g]].GetValue)
+				rSchema.Enum.Value[k[g]].GetValue())
 		}
 	}
-	for g := range j {
+	for _, g := range slices.Sorted(maps.Keys(j)) {
 		if _, ok := k[g]; !ok {
 			CreateChange(changes, PropertyRemoved, v3.EnumLabel,
-				lSchema.Enum.Value[j[g]].GetValueNode(), nil, BreakingRemoved(CompSchema, PropEnum), lSchema.Enum.Value[j[g]].GetValue,
+				lSchema.Enum.Value[j[g]].GetValueNode(), nil, BreakingRemoved(CompSchema, PropEnum), lSchema.Enum.Value[j[g]].GetValue(),
 				nil)
 		}
 	}
@@ -2766,7 +2767,8 @@ func checkDependentRequiredChanges(
 	}
 
 	// Check for property additions and modifications
-	for prop, rightReqs := range rightMap {
+	for _, prop := range slices.Sorted(maps.Keys(rightMap)) {
+		rightReqs := rightMap[prop]
 		if leftReqs, exists := leftMap[prop]; exists {
 			// Property exists in both, check if requirements changed
 			if !slicesEqual(leftReqs, rightReqs) {
@@ -2783,7 +2785,8 @@ func checkDependentRequiredChanges(
 	}
 
 	// Check for property removals
-	for prop, leftReqs := range leftMap {
+	for _, prop := range slices.Sorted(maps.Keys(leftMap)) {
+		leftReqs := leftMap[prop]
 		if _, exists := rightMap[prop]; !exists {
 			CreateChange(&changes, PropertyRemoved, prop,
 				getNodeForProperty(left, prop), nil,
@@ -2853,7 +2856,8 @@ func checkVocabularyChanges(lVocab, rVocab *orderedmap.Map[low.KeyReference[stri
 	var vocabChanges []*Change
 
 	// check for removed or modified vocabularies
-	for uri, lVal := range lVocabMap {
+	for _, uri := range slices.Sorted(maps.Keys(lVocabMap)) {
+		lVal := lVocabMap[uri]
 		if rVal, ok := rVocabMap[uri]; ok {
 			// vocabulary exists in both - check if value changed
 			if lVal != rVal {
@@ -2888,7 +2892,7 @@ func checkVocabularyChanges(lVocab, rVocab *orderedmap.Map[low.KeyReference[stri
 	}
 
 	// check for added vocabularies
-	for uri := range rVocabMap {
+	for _, uri := range slices.Sorted(maps.Keys(rVocabMap)) {
 		if _, ok := lVocabMap[uri]; !ok {
 			// vocabulary was added
 			c := &Change{
diff --git a/what-changed/model/server_variable.go b/what-changed/model/server_variable.go
index 85a1fa3..22c05f2 100644
--- a/what-changed/model/server_variable.go
+++ b/what-changed/model/server_variable.go
@@ -4,6 +4,9 @@
 package model
 
 import (
+	"maps"
+	"slices"
+
 	"github.com/pb33f/libopenapi/datamodel/low"
 	"github.com/pb33f/libopenapi/datamodel/low/v3"
 )
@@ -68,7 +71,7 @@ func CompareServerVariables(l, r *v3.ServerVariable) *ServerVariableChanges {
 	for i := range r.Enum {
 		rValues[r.Enum[i].Value] = r.Enum[i]
 	}
-	for k := range lValues {
+	for _, k := range slices.Sorted(maps.Keys(lValues)) {
 		if _, ok := rValues[k]; !ok {
 			CreateChange(&changes, ObjectRemoved, v3.EnumLabel,
 				lValues[k].ValueNode, nil, BreakingRemoved(CompServerVariable, PropEnum),
@@ -76,7 +79,7 @@ func CompareServerVariables(l, r *v3.ServerVariable) *ServerVariableChanges {
 			continue
 		}
 	}
-	for k := range rValues {
+	for _, k := range slices.Sorted(maps.Keys(rValues)) {
 		if _, ok := lValues[k]; !ok {
 			CreateChange(&changes, ObjectAdded, v3.EnumLabel,
 				lValues[k].ValueNode, rValues[k].ValueNode, BreakingAdded(CompServerVariable, PropEnum),
diff --git a/what-changed/model/tags.go b/what-changed/model/tags.go
index 2067e7a..5d3f215 100644
--- a/what-changed/model/tags.go
+++ b/what-changed/model/tags.go
@@ -4,6 +4,9 @@
 package model
 
 import (
+	"maps"
+	"slices"
+
 	"github.com/pb33f/libopenapi/datamodel/low"
 	"github.com/pb33f/libopenapi/datamodel/low/base"
 	"github.com/pb33f/libopenapi/datamodel/low/v3"
@@ -77,7 +80,7 @@ func CompareTags(l, r []low.ValueReference[*base.Tag]) []*TagChanges {
 	// var changes []*Change
 
 	// check for removals, modifications and moves
-	for i := range seenLeft {
+	for _, i := range slices.Sorted(maps.Keys(seenLeft)) {
 		tc := new(TagChanges)
 		var changes []*Change
 
@@ -139,7 +142,7 @@ func CompareTags(l, r []low.ValueReference[*base.Tag]) []*TagChanges {
 		}
 
 	}
-	for i := range seenRight {
+	for _, i := range slices.Sorted(maps.Keys(seenRight)) {
 		if seenLeft[i] == nil {
 			tc := new(TagChanges)
 			var changes []*Change
-- 
2.43.0


From e51a43d305852f321901740c9590aa22f403b89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:17 +0000
Subject: [PATCH 30/60] fix: lists compare their values exactly; 2.0 examples
 report the new value; servers are compared without being altered; additional
 operations are compared by method

---
 what-changed/model/comparison_functions.go | 114 ++++++---------------
 what-changed/model/examples.go             |   6 +-
 what-changed/model/extensions.go           |   5 +-
 what-changed/model/operation.go            |   6 +-
 what-changed/model/path_item.go            |   2 +-
 5 files changed, 40 insertions(+), 93 deletions(-)

diff --git a/what-changed/model/comparison_functions.go b/what-changed/model/comparison_functions.go
index d7ca747..6a064db 100644
--- a/what-changed/model/comparison_functions.go
+++ b/what-changed/model/comparison_functions.go
@@ -7,7 +7,6 @@ import (
 	"bytes"
 	"fmt"
 	"reflect"
-	"strings"
 	"sync"
 
 	"github.com/pb33f/libopenapi/datamodel/low/base"
@@ -735,38 +734,8 @@ func namedValueNode(key string, node *yaml.Node) *yaml.Node {
 func ExtractStringValueSliceChanges(lParam, rParam []low.ValueReference[string],
 	changes *[]*Change, label string, breaking bool,
 ) {
-	lKeys := make([]string, len(lParam))
-	rKeys := make([]string, len(rParam))
-	lValues := make(map[string]low.ValueReference[string])
-	rValues := make(map[string]low.ValueReference[string])
-	for i := range lParam {
-		lKeys[i] = strings.ToLower(lParam[i].Value)
-		lValues[lKeys[i]] = lParam[i]
-	}
-	for i := range rParam {
-		rKeys[i] = strings.ToLower(rParam[i].Value)
-		rValues[rKeys[i]] = rParam[i]
-	}
-	for i := range lValues {
-		if _, ok := rValues[i]; !ok {
-			CreateChange(changes, PropertyRemoved, label,
-				lValues[i].ValueNode,
-				nil,
-				breaking,
-				lValues[i].Value,
-				nil)
-		}
-	}
-	for i := range rValues {
-		if _, ok := lValues[i]; !ok {
-			CreateChange(changes, PropertyAdded, label,
-				nil,
-				rValues[i].ValueNode,
-				false,
-				nil,
-				rValues[i].Value)
-		}
-	}
+	extractValueSliceChanges(lParam, rParam, changes, label, false, breaking,
+		func(value string) string { return value })
 }
 
 // ExtractStringValueSliceChangesWithRules compares two low level string slices for changes,
@@ -774,36 +743,43 @@ func ExtractStringValueSliceChanges(lParam, rParam []low.ValueReference[string],
 func ExtractStringValueSliceChangesWithRules(lParam, rParam []low.ValueReference[string],
 	changes *[]*Change, label string, component, property string,
 ) {
-	lKeys := make([]string, len(lParam))
-	rKeys := make([]string, len(rParam))
-	lValues := make(map[string]low.ValueReference[string])
-	rValues := make(map[string]low.ValueReference[string])
+	extractValueSliceChanges(lParam, rParam, changes, label,
+		BreakingAdded(component, property), BreakingRemoved(component, property),
+		func(value string) string { return value })
+}
+
+// extractValueSliceChanges reports the values only one of two slices has, in the order they stand there.
+func extractValueSliceChanges[T any](lParam, rParam []low.ValueReference[T],
+	changes *[]*Change, label string, breakingAdded, breakingRemoved bool, key func(T) string,
+) {
+	lValues := make(map[string]bool, len(lParam))
+	rValues := make(map[string]bool, len(rParam))
 	for i := range lParam {
-		lKeys[i] = strings.ToLower(lParam[i].Value)
-		lValues[lKeys[i]] = lParam[i]
+		lValues[key(lParam[i].Value)] = true
 	}
 	for i := range rParam {
-		rKeys[i] = strings.ToLower(rParam[i].Value)
-		rValues[rKeys[i]] = rParam[i]
+		rValues[key(rParam[i].Value)] = true
 	}
-	for i := range lValues {
-		if _, ok := rValues[i]; !ok {
+	for i := range lParam {
+		if k := key(lParam[i].Value); !rValues[k] {
+			rValues[k] = true // reported once.
 			CreateChange(changes, PropertyRemoved, label,
-				lValues[i].ValueNode,
+				lParam[i].ValueNode,
 				nil,
-				BreakingRemoved(component, property),
-				lValues[i].Value,
+				breakingRemoved,
+				lParam[i].Value,
 				nil)
 		}
 	}
-	for i := range rValues {
-		if _, ok := lValues[i]; !ok {
+	for i := range rParam {
+		if k := key(rParam[i].Value); !lValues[k] {
+			lValues[k] = true // reported once.
 			CreateChange(changes, PropertyAdded, label,
 				nil,
-				rValues[i].ValueNode,
-				BreakingAdded(component, property),
+				rParam[i].ValueNode,
+				breakingAdded,
 				nil,
-				rValues[i].Value)
+				rParam[i].Value)
 		}
 	}
 }
@@ -822,36 +798,10 @@ func toString(v any) string {
 func ExtractRawValueSliceChanges[T any](lParam, rParam []low.ValueReference[T],
 	changes *[]*Change, label string, breaking bool,
 ) {
-	lKeys := make([]string, len(lParam))
-	rKeys := make([]string, len(rParam))
-	lValues := make(map[string]low.ValueReference[T])
-	rValues := make(map[string]low.ValueReference[T])
-	for i := range lParam {
-		lKeys[i] = strings.ToLower(toString(lParam[i].Value))
-		lValues[lKeys[i]] = lParam[i]
-	}
-	for i := range rParam {
-		rKeys[i] = strings.ToLower(toString(rParam[i].Value))
-		rValues[rKeys[i]] = rParam[i]
-	}
-	for i := range lValues {
-		if _, ok := rValues[i]; !ok {
-			CreateChange(changes, PropertyRemoved, label,
-				lValues[i].ValueNode,
-				nil,
-				breaking,
-				lValues[i].Value,
-				nil)
-		}
-	}
-	for i := range rValues {
-		if _, ok := lValues[i]; !ok {
-			CreateChange(changes, PropertyAdded, label,
-				nil,
-				rValues[i].ValueNode,
-				false,
-				nil,
-				rValues[i].Value)
+	extractValueSliceChanges(lParam, rParam, changes, label, false, breaking, func(value T) string {
+		if node, ok := any(value).(*yaml.Node); ok {
+			return low.GenerateHashString(node)
 		}
-	}
+		return toString(value)
+	})
 }
diff --git a/what-changed/model/examples.go b/what-changed/model/examples.go
index dae5d90..87823fe 100644
--- a/what-changed/model/examples.go
+++ b/what-changed/model/examples.go
@@ -71,7 +71,7 @@ func CompareExamplesV2(l, r *v2.Examples) *ExamplesChanges {
 		}
 		CreateChange(&changes, Modified, k,
 			lValues[k].GetValueNode(), rValues[k].GetValueNode(), false,
-			lValues[k].GetValue(), lValues[k].GetValue())
+			lValues[k].GetValue(), rValues[k].GetValue())
 
 	}
 
@@ -80,8 +80,8 @@ func CompareExamplesV2(l, r *v2.Examples) *ExamplesChanges {
 		lhash := lHashes[k]
 		if lhash == "" {
 			CreateChange(&changes, ObjectAdded, k,
-				nil, lValues[k].GetValueNode(), false,
-				nil, lValues[k].GetValue())
+				nil, rValues[k].GetValueNode(), false,
+				nil, rValues[k].GetValue())
 			continue
 		}
 	}
diff --git a/what-changed/model/extensions.go b/what-changed/model/extensions.go
index a91d848..9965a61 100644
--- a/what-changed/model/extensions.go
+++ b/what-changed/model/extensions.go
@@ -6,7 +6,6 @@ package model
 import (
 	"maps"
 	"slices"
-	"strings"
 
 	"github.com/pb33f/libopenapi/datamodel/low"
 	"github.com/pb33f/libopenapi/orderedmap"
@@ -54,10 +53,10 @@ func CompareExtensions(l, r *orderedmap.Map[low.KeyReference[string], low.ValueR
 	seenRight := make(map[string]*low.ValueReference[*yaml.Node])
 
 	for k, h := range l.FromOldest() {
-		seenLeft[strings.ToLower(k.Value)] = &h
+		seenLeft[k.Value] = &h
 	}
 	for k, h := range r.FromOldest() {
-		seenRight[strings.ToLower(k.Value)] = &h
+		seenRight[k.Value] = &h
 	}
 
 	var changes []*Change
diff --git a/what-changed/model/operation.go b/what-changed/model/operation.go
index 12ca57e..78edb34 100644
--- a/what-changed/model/operation.go
+++ b/what-changed/model/operation.go
@@ -485,9 +485,8 @@ func checkServers(lServers, rServers low.NodeReference[[]low.ValueReference[*v3.
 				}
 				continue
 			}
-			lv[k].ValueNode.Value = lv[k].Value.URL.Value
 			CreateChange(&changes, ObjectRemoved, v3.ServersLabel,
-				lv[k].ValueNode, nil, BreakingRemoved(component, property), lv[k].Value,
+				namedValueNode(lv[k].Value.URL.Value, lv[k].ValueNode), nil, BreakingRemoved(component, property), lv[k].Value,
 				nil)
 			sc := new(ServerChanges)
 			sc.PropertyChanges = NewPropertyChanges(changes)
@@ -499,9 +498,8 @@ func checkServers(lServers, rServers low.NodeReference[[]low.ValueReference[*v3.
 			if _, ok := lv[k]; !ok {
 
 				var changes []*Change
-				rv[k].ValueNode.Value = rv[k].Value.URL.Value
 				CreateChange(&changes, ObjectAdded, v3.ServersLabel,
-					nil, rv[k].ValueNode, BreakingAdded(component, property), nil,
+					nil, namedValueNode(rv[k].Value.URL.Value, rv[k].ValueNode), BreakingAdded(component, property), nil,
 					rv[k].Value)
 
 				sc := new(ServerChanges)
diff --git a/what-changed/model/path_item.go b/what-changed/model/path_item.go
index 9e85a63..0976197 100644
--- a/what-changed/model/path_item.go
+++ b/what-changed/model/path_item.go
@@ -638,7 +638,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 					found = true
 					// compare the two operations
 					totalOps++
-					go checkOperation(lPath.AdditionalOperations.Value.GetOrZero(lKeys[j]).Value,
+					go checkOperation(lPath.AdditionalOperations.Value.GetOrZero(lKeys[i]).Value,
 						rPath.AdditionalOperations.Value.GetOrZero(rKeys[j]).Value, opChan, lKeys[i].Value)
 					break
 				}
-- 
2.43.0


From ead2801ef76f2f6df70714cec6f6a28777616fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:36 +0000
Subject: [PATCH 31/60] fix: enum values and schema examples are compared by
 their content

---
 what-changed/model/schema.go | 64 +++++++-----------------------------
 1 file changed, 11 insertions(+), 53 deletions(-)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 3148f3e..81cce6b 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -1401,61 +1401,19 @@ func checkSchemaPropertyChanges(
 		New:       rSchema,
 	})
 
-	// Required
-	j := make(map[string]int)
-	k := make(map[string]int)
+	// Required and enums
+	var lRequired, rRequired []low.ValueReference[string]
+	var lEnum, rEnum []low.ValueReference[*yaml.Node]
 	if lSchema != nil {
-		for i := range lSchema.Required.Value {
-			j[lSchema.Required.Value[i].Value] = i
-		}
+		lRequired, lEnum = lSchema.Required.Value, lSchema.Enum.Value
 	}
 	if rSchema != nil {
-		for i := range rSchema.Required.Value {
-			k[rSchema.Required.Value[i].Value] = i
-		}
-	}
-	for _, g := range slices.Sorted(maps.Keys(k)) {
-		if _, ok := j[g]; !ok {
-			CreateChange(changes, PropertyAdded, v3.RequiredLabel,
-				nil, rSchema.Required.Value[k[g]].GetValueNode(), BreakingAdded(CompSchema, PropRequired), nil,
-				rSchema.Required.Value[k[g]].GetValue())
-		}
-	}
-	for _, g := range slices.Sorted(maps.Keys(j)) {
-		if _, ok := k[g]; !ok {
-			CreateChange(changes, PropertyRemoved, v3.RequiredLabel,
-				lSchema.Required.Value[j[g]].GetValueNode(), nil, BreakingRemoved(CompSchema, PropRequired), lSchema.Required.Value[j[g]].GetValue(),
-				nil)
-		}
-	}
-
-	// Enums
-	j = make(map[string]int)
-	k = make(map[string]int)
-	if lSchema != nil {
-		for i := range lSchema.Enum.Value {
-			j[toString(lSchema.Enum.Value[i].Value.Value)] = i
-		}
-	}
-	if rSchema != nil {
-		for i := range rSchema.Enum.Value {
-			k[toString(rSchema.Enum.Value[i].Value.Value)] = i
-		}
-	}
-	for _, g := range slices.Sorted(maps.Keys(k)) {
-		if _, ok := j[g]; !ok {
-			CreateChange(changes, PropertyAdded, v3.EnumLabel,
-				nil, rSchema.Enum.Value[k[g]].GetValueNode(), BreakingAdded(CompSchema, PropEnum), nil,
-				rSchema.Enum.Value[k[g]].GetValue())
-		}
-	}
-	for _, g := range slices.Sorted(maps.Keys(j)) {
-		if _, ok := k[g]; !ok {
-			CreateChange(changes, PropertyRemoved, v3.EnumLabel,
-				lSchema.Enum.Value[j[g]].GetValueNode(), nil, BreakingRemoved(CompSchema, PropEnum), lSchema.Enum.Value[j[g]].GetValue(),
-				nil)
-		}
+		rRequired, rEnum = rSchema.Required.Value, rSchema.Enum.Value
 	}
+	ExtractStringValueSliceChangesWithRules(lRequired, rRequired, changes, v3.RequiredLabel, CompSchema, PropRequired)
+	extractValueSliceChanges(lEnum, rEnum, changes, v3.EnumLabel,
+		BreakingAdded(CompSchema, PropEnum), BreakingRemoved(CompSchema, PropEnum),
+		func(value *yaml.Node) string { return low.GenerateHashString(value) })
 
 	// Discriminator
 	if (lSchema != nil && lSchema.Discriminator.Value != nil) && (rSchema != nil && rSchema.Discriminator.Value != nil) {
@@ -2215,7 +2173,7 @@ func checkExamples(lSchema *base.Schema, rSchema *base.Schema, changes *[]*Chang
 	// create keys by hashing values
 	if lSchema != nil && lSchema.Examples.ValueNode != nil {
 		for i := range lSchema.Examples.ValueNode.Content {
-			key := low.GenerateHashString(lSchema.Examples.ValueNode.Content[i].Value)
+			key := low.GenerateHashString(lSchema.Examples.ValueNode.Content[i])
 			lExampKey = append(lExampKey, key)
 			lExampVal[key] = lSchema.Examples.ValueNode.Content[i].Value
 			lExampN[key] = lSchema.Examples.ValueNode.Content[i]
@@ -2224,7 +2182,7 @@ func checkExamples(lSchema *base.Schema, rSchema *base.Schema, changes *[]*Chang
 	}
 	if rSchema != nil && rSchema.Examples.ValueNode != nil {
 		for i := range rSchema.Examples.ValueNode.Content {
-			key := low.GenerateHashString(rSchema.Examples.ValueNode.Content[i].Value)
+			key := low.GenerateHashString(rSchema.Examples.ValueNode.Content[i])
 			rExampKey = append(rExampKey, key)
 			rExampVal[key] = rSchema.Examples.ValueNode.Content[i].Value
 			rExampN[key] = rSchema.Examples.ValueNode.Content[i]
-- 
2.43.0


From e3fab8e9816e9f0b6930b6b4049fc19f2598a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 32/60] fix: a node hashes the same after it was rendered

---
 datamodel/low/extraction_functions.go | 43 +++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/datamodel/low/extraction_functions.go b/datamodel/low/extraction_functions.go
index 988a985..b6cca0a 100644
--- a/datamodel/low/extraction_functions.go
+++ b/datamodel/low/extraction_functions.go
@@ -22,6 +22,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"time"
 )
 
 // stringBuilderPool is a sync.Pool that reuses strings.Builder instances to reduce memory allocations
@@ -1390,22 +1391,54 @@ func scalarTagAndValueForHash(n *yaml.Node, normalizeNumericScalars bool) (strin
 	if n == nil {
 		return "", ""
 	}
+	tag := tagForHash(n)
 	if n.Kind != yaml.ScalarNode {
-		return n.Tag, n.Value
+		return tag, n.Value
 	}
 	if !normalizeNumericScalars {
-		return n.Tag, n.Value
+		return tag, n.Value
 	}
-	if n.Tag != "!!int" && n.Tag != "!!float" {
-		return n.Tag, n.Value
+	if tag != "!!int" && tag != "!!float" {
+		return tag, n.Value
 	}
 	rat, ok := new(big.Rat).SetString(n.Value)
 	if !ok {
-		return n.Tag, n.Value
+		return tag, n.Value
 	}
 	return "!!number", rat.RatString()
 }
 
+// tagForHash returns the tag of a node. Encoding a node drops the tags that can be inferred from its content, such
+// a node has to hash as it did before.
+func tagForHash(n *yaml.Node) string {
+	if n.Tag != "" {
+		return n.Tag
+	}
+	if n.Kind != yaml.ScalarNode || n.Style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle|yaml.LiteralStyle|yaml.FoldedStyle) != 0 {
+		return n.ShortTag()
+	}
+	if n.Value == "<<" {
+		return "!!merge"
+	}
+	var v any
+	if n.Decode(&v) != nil {
+		return n.ShortTag()
+	}
+	switch v.(type) {
+	case nil:
+		return "!!null"
+	case bool:
+		return "!!bool"
+	case int, int64, uint64:
+		return "!!int"
+	case float64:
+		return "!!float"
+	case time.Time:
+		return "!!timestamp"
+	}
+	return n.ShortTag()
+}
+
 // CompareYAMLNodes compares two YAML nodes for equality without marshaling to YAML.
 // This reuses the hashNodeTree logic to generate consistent hashes for comparison,
 // avoiding the expensive yaml.Marshal operations that cause massive allocations.
-- 
2.43.0


From 282bc6968d5e82e5edd44e2ce0005c01738180be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 33/60] fix: an explode that says false is told from an absent
 one by hashes and comparisons

---
 datamodel/low/v3/encoding.go  | 2 ++
 datamodel/low/v3/header.go    | 2 ++
 datamodel/low/v3/parameter.go | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/datamodel/low/v3/encoding.go b/datamodel/low/v3/encoding.go
index 1666997..cad66b1 100644
--- a/datamodel/low/v3/encoding.go
+++ b/datamodel/low/v3/encoding.go
@@ -77,6 +77,8 @@ func (en *Encoding) Hash() uint64 {
 			h.WriteString(en.Style.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
+		// what an absent explode means depends on the style.
+		low.HashBool(h, en.Explode.ValueNode != nil)
 		low.HashBool(h, en.Explode.Value)
 		h.WriteByte(low.HASH_PIPE)
 		low.HashBool(h, en.AllowReserved.Value)
diff --git a/datamodel/low/v3/header.go b/datamodel/low/v3/header.go
index f4d6fe7..c58d9e9 100644
--- a/datamodel/low/v3/header.go
+++ b/datamodel/low/v3/header.go
@@ -102,6 +102,8 @@ func (h *Header) Hash() uint64 {
 			hsh.WriteString(h.Style.Value)
 			hsh.WriteByte(low.HASH_PIPE)
 		}
+		// what an absent explode means depends on the style.
+		low.HashBool(hsh, h.Explode.ValueNode != nil)
 		low.HashBool(hsh, h.Explode.Value)
 		hsh.WriteByte(low.HASH_PIPE)
 		low.HashBool(hsh, h.AllowReserved.Value)
diff --git a/datamodel/low/v3/parameter.go b/datamodel/low/v3/parameter.go
index a984052..334668a 100644
--- a/datamodel/low/v3/parameter.go
+++ b/datamodel/low/v3/parameter.go
@@ -193,6 +193,8 @@ func (p *Parameter) Hash() uint64 {
 			h.WriteString(p.Style.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
+		// what an absent explode means depends on the style.
+		low.HashBool(h, p.Explode.ValueNode != nil)
 		low.HashBool(h, p.Explode.Value)
 		h.WriteByte(low.HASH_PIPE)
 		low.HashBool(h, p.AllowReserved.Value)
-- 
2.43.0


From 3f8fc4aaf85c887b4c2c4c3dfd61bc33ab263f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 34/60] fix: the definitions of a 2.0 description keep their
 order

---
 datamodel/low/v2/definitions.go | 53 ++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/datamodel/low/v2/definitions.go b/datamodel/low/v2/definitions.go
index 0086835..453ade2 100644
--- a/datamodel/low/v2/definitions.go
+++ b/datamodel/low/v2/definitions.go
@@ -168,8 +168,8 @@ func (d *Definitions) Hash() uint64 {
 
 // Build will extract all ParameterDefinitions into Parameter instances.
 func (pd *ParameterDefinitions) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIndex) error {
-	errorChan := make(chan error)
-	resultChan := make(chan definitionResult[*Parameter])
+	errorChan := make(chan error, len(root.Content)/2)
+	resultChan := make(chan definitionResult[*Parameter], len(root.Content)/2)
 	var defLabel *yaml.Node
 	totalDefinitions := 0
 	buildFunc := func(label *yaml.Node, value *yaml.Node, idx *index.SpecIndex,
@@ -198,24 +198,31 @@ func (pd *ParameterDefinitions) Build(ctx context.Context, _, root *yaml.Node, i
 	}
 
 	completedDefs := 0
-	results := orderedmap.New[low.KeyReference[string], low.ValueReference[*Parameter]]()
+	built := make(map[*yaml.Node]low.ValueReference[*Parameter], totalDefinitions)
 	for completedDefs < totalDefinitions {
 		select {
 		case err := <-errorChan:
 			return err
 		case sch := <-resultChan:
 			completedDefs++
-			key := low.KeyReference[string]{
-				Value:   sch.k.Value,
-				KeyNode: sch.k,
-			}
-			results.Set(key, sch.v)
+			built[sch.k] = sch.v
 		}
 	}
-	pd.Definitions = results
+	pd.Definitions = inDocumentOrder(root, built)
 	return nil
 }
 
+// inDocumentOrder puts what was built for every label of a node in the order the labels have there.
+func inDocumentOrder[T any](root *yaml.Node, built map[*yaml.Node]low.ValueReference[T],
+) *orderedmap.Map[low.KeyReference[string], low.ValueReference[T]] {
+	results := orderedmap.New[low.KeyReference[string], low.ValueReference[T]]()
+	for i := 0; i+1 < len(root.Content); i += 2 {
+		label := root.Content[i]
+		results.Set(low.KeyReference[string]{Value: label.Value, KeyNode: label}, built[label])
+	}
+	return results
+}
+
 // re-usable struct for holding results as k/v pairs.
 type definitionResult[T any] struct {
 	k *yaml.Node
@@ -224,8 +231,8 @@ type definitionResult[T any] struct {
 
 // Build will extract all ResponsesDefinitions into Response instances.
 func (r *ResponsesDefinitions) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIndex) error {
-	errorChan := make(chan error)
-	resultChan := make(chan definitionResult[*Response])
+	errorChan := make(chan error, len(root.Content)/2)
+	resultChan := make(chan definitionResult[*Response], len(root.Content)/2)
 	var defLabel *yaml.Node
 	totalDefinitions := 0
 	buildFunc := func(label *yaml.Node, value *yaml.Node, idx *index.SpecIndex,
@@ -254,28 +261,24 @@ func (r *ResponsesDefinitions) Build(ctx context.Context, _, root *yaml.Node, id
 	}
 
 	completedDefs := 0
-	results := orderedmap.New[low.KeyReference[string], low.ValueReference[*Response]]()
+	built := make(map[*yaml.Node]low.ValueReference[*Response], totalDefinitions)
 	for completedDefs < totalDefinitions {
 		select {
 		case err := <-errorChan:
 			return err
 		case sch := <-resultChan:
 			completedDefs++
-			key := low.KeyReference[string]{
-				Value:   sch.k.Value,
-				KeyNode: sch.k,
-			}
-			results.Set(key, sch.v)
+			built[sch.k] = sch.v
 		}
 	}
-	r.Definitions = results
+	r.Definitions = inDocumentOrder(root, built)
 	return nil
 }
 
 // Build will extract all SecurityDefinitions into SecurityScheme instances.
 func (s *SecurityDefinitions) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIndex) error {
-	errorChan := make(chan error)
-	resultChan := make(chan definitionResult[*SecurityScheme])
+	errorChan := make(chan error, len(root.Content)/2)
+	resultChan := make(chan definitionResult[*SecurityScheme], len(root.Content)/2)
 	var defLabel *yaml.Node
 	totalDefinitions := 0
 
@@ -305,20 +308,16 @@ func (s *SecurityDefinitions) Build(ctx context.Context, _, root *yaml.Node, idx
 	}
 
 	completedDefs := 0
-	results := orderedmap.New[low.KeyReference[string], low.ValueReference[*SecurityScheme]]()
+	built := make(map[*yaml.Node]low.ValueReference[*SecurityScheme], totalDefinitions)
 	for completedDefs < totalDefinitions {
 		select {
 		case err := <-errorChan:
 			return err
 		case sch := <-resultChan:
 			completedDefs++
-			key := low.KeyReference[string]{
-				Value:   sch.k.Value,
-				KeyNode: sch.k,
-			}
-			results.Set(key, sch.v)
+			built[sch.k] = sch.v
 		}
 	}
-	s.Definitions = results
+	s.Definitions = inDocumentOrder(root, built)
 	return nil
 }
-- 
2.43.0


From 06bf55412a7c02c5637f0872c993902f60bb529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 35/60] fix: all changes of a report are listed in the same
 order every time; comparing leaves extension values untouched

---
 what-changed/model/callback.go             |  2 +-
 what-changed/model/comparison_functions.go |  4 ++--
 what-changed/model/components.go           |  6 ++++--
 what-changed/model/document.go             |  4 +++-
 what-changed/model/encoding.go             |  4 +++-
 what-changed/model/header.go               |  6 ++++--
 what-changed/model/media_type.go           |  8 +++++---
 what-changed/model/operation.go            |  2 +-
 what-changed/model/parameter.go            |  6 ++++--
 what-changed/model/path_item.go            |  2 +-
 what-changed/model/paths.go                |  2 +-
 what-changed/model/request_body.go         |  4 +++-
 what-changed/model/response.go             |  8 +++++---
 what-changed/model/responses.go            |  4 +++-
 what-changed/model/schema.go               | 14 +++++++-------
 what-changed/model/server.go               |  4 +++-
 16 files changed, 50 insertions(+), 30 deletions(-)

diff --git a/what-changed/model/callback.go b/what-changed/model/callback.go
index 8a97941..f7c0391 100644
--- a/what-changed/model/callback.go
+++ b/what-changed/model/callback.go
@@ -42,7 +42,7 @@ func (c *CallbackChanges) GetAllChanges() []*Change {
 	}
 	var changes []*Change
 	changes = append(changes, c.Changes...)
-	for k := range c.ExpressionChanges {
+	for _, k := range slices.Sorted(maps.Keys(c.ExpressionChanges)) {
 		changes = append(changes, c.ExpressionChanges[k].GetAllChanges()...)
 	}
 	if c.ExtensionChanges != nil {
diff --git a/what-changed/model/comparison_functions.go b/what-changed/model/comparison_functions.go
index 6a064db..565747c 100644
--- a/what-changed/model/comparison_functions.go
+++ b/what-changed/model/comparison_functions.go
@@ -188,12 +188,12 @@ func CreateChangeWithEncoding(changes *[]*Change, changeType int, property strin
 
 	// serialize complex values to YAML for extension rendering (avoid inflating memory for scalar values)
 	if leftValueNode != nil && (utils.IsNodeArray(leftValueNode) || utils.IsNodeMap(leftValueNode)) {
-		if encoded, err := yaml.Marshal(leftValueNode); err == nil {
+		if encoded, err := yaml.Marshal(utils.CloneYAMLNode(leftValueNode)); err == nil {
 			c.OriginalEncoded = string(encoded)
 		}
 	}
 	if rightValueNode != nil && (utils.IsNodeArray(rightValueNode) || utils.IsNodeMap(rightValueNode)) {
-		if encoded, err := yaml.Marshal(rightValueNode); err == nil {
+		if encoded, err := yaml.Marshal(utils.CloneYAMLNode(rightValueNode)); err == nil {
 			c.NewEncoded = string(encoded)
 		}
 	}
diff --git a/what-changed/model/components.go b/what-changed/model/components.go
index ae393fe..baf2548 100644
--- a/what-changed/model/components.go
+++ b/what-changed/model/components.go
@@ -4,7 +4,9 @@
 package model
 
 import (
+	"maps"
 	"reflect"
+	"slices"
 
 	"github.com/pb33f/libopenapi/datamodel/low"
 	"github.com/pb33f/libopenapi/datamodel/low/base"
@@ -257,10 +259,10 @@ func (c *ComponentsChanges) GetAllChanges() []*Change {
 	}
 	var changes []*Change
 	changes = append(changes, c.Changes...)
-	for k := range c.SchemaChanges {
+	for _, k := range slices.Sorted(maps.Keys(c.SchemaChanges)) {
 		changes = append(changes, c.SchemaChanges[k].GetAllChanges()...)
 	}
-	for k := range c.SecuritySchemeChanges {
+	for _, k := range slices.Sorted(maps.Keys(c.SecuritySchemeChanges)) {
 		changes = append(changes, c.SecuritySchemeChanges[k].GetAllChanges()...)
 	}
 	if c.ExtensionChanges != nil {
diff --git a/what-changed/model/document.go b/what-changed/model/document.go
index fc9679a..240eb26 100644
--- a/what-changed/model/document.go
+++ b/what-changed/model/document.go
@@ -11,7 +11,9 @@
 package model
 
 import (
+	"maps"
 	"reflect"
+	"slices"
 
 	"github.com/pb33f/libopenapi/datamodel/low"
 	"github.com/pb33f/libopenapi/datamodel/low/base"
@@ -90,7 +92,7 @@ func (d *DocumentChanges) GetAllChanges() []*Change {
 	if d.ExternalDocChanges != nil {
 		changes = append(changes, d.ExternalDocChanges.GetAllChanges()...)
 	}
-	for k := range d.WebhookChanges {
+	for _, k := range slices.Sorted(maps.Keys(d.WebhookChanges)) {
 		changes = append(changes, d.WebhookChanges[k].GetAllChanges()...)
 	}
 	for k := range d.ServerChanges {
diff --git a/what-changed/model/encoding.go b/what-changed/model/encoding.go
index f425201..024b641 100644
--- a/what-changed/model/encoding.go
+++ b/what-changed/model/encoding.go
@@ -5,6 +5,8 @@ package model
 
 import (
 	v3 "github.com/pb33f/libopenapi/datamodel/low/v3"
+	"maps"
+	"slices"
 )
 
 // EncodingChanges represent all the changes made to an Encoding object
@@ -20,7 +22,7 @@ func (e *EncodingChanges) GetAllChanges() []*Change {
 	}
 	var changes []*Change
 	changes = append(changes, e.Changes...)
-	for k := range e.HeaderChanges {
+	for _, k := range slices.Sorted(maps.Keys(e.HeaderChanges)) {
 		changes = append(changes, e.HeaderChanges[k].GetAllChanges()...)
 	}
 	return changes
diff --git a/what-changed/model/header.go b/what-changed/model/header.go
index c59a5a1..e39093e 100644
--- a/what-changed/model/header.go
+++ b/what-changed/model/header.go
@@ -4,7 +4,9 @@
 package model
 
 import (
+	"maps"
 	"reflect"
+	"slices"
 
 	"github.com/pb33f/libopenapi/datamodel/low"
 	v2 "github.com/pb33f/libopenapi/datamodel/low/v2"
@@ -31,10 +33,10 @@ func (h *HeaderChanges) GetAllChanges() []*Change {
 	}
 	var changes []*Change
 	changes = append(changes, h.Changes...)
-	for k := range h.ExamplesChanges {
+	for _, k := range slices.Sorted(maps.Keys(h.ExamplesChanges)) {
 		changes = append(changes, h.ExamplesChanges[k].GetAllChanges()...)
 	}
-	for k := range h.ContentChanges {
+	for _, k := range slices.Sorted(maps.Keys(h.ContentChanges)) {
 		changes = append(changes, h.ContentChanges[k].GetAllChanges()...)
 	}
 	if h.ExtensionChanges != nil {
diff --git a/what-changed/model/media_type.go b/what-changed/model/media_type.go
index 3ab5427..74c34a5 100644
--- a/what-changed/model/media_type.go
+++ b/what-changed/model/media_type.go
@@ -6,6 +6,8 @@ package model
 import (
 	"github.com/pb33f/libopenapi/datamodel/low"
 	"github.com/pb33f/libopenapi/datamodel/low/v3"
+	"maps"
+	"slices"
 )
 
 // MediaTypeChanges represent changes made between two OpenAPI MediaType instances.
@@ -32,13 +34,13 @@ func (m *MediaTypeChanges) GetAllChanges() []*Change {
 	if m.ItemSchemaChanges != nil {
 		changes = append(changes, m.ItemSchemaChanges.GetAllChanges()...)
 	}
-	for k := range m.ExampleChanges {
+	for _, k := range slices.Sorted(maps.Keys(m.ExampleChanges)) {
 		changes = append(changes, m.ExampleChanges[k].GetAllChanges()...)
 	}
-	for k := range m.EncodingChanges {
+	for _, k := range slices.Sorted(maps.Keys(m.EncodingChanges)) {
 		changes = append(changes, m.EncodingChanges[k].GetAllChanges()...)
 	}
-	for k := range m.ItemEncodingChanges {
+	for _, k := range slices.Sorted(maps.Keys(m.ItemEncodingChanges)) {
 		changes = append(changes, m.ItemEncodingChanges[k].GetAllChanges()...)
 	}
 	if m.ExtensionChanges != nil {
diff --git a/what-changed/model/operation.go b/what-changed/model/operation.go
index 78edb34..deb35f4 100644
--- a/what-changed/model/operation.go
+++ b/what-changed/model/operation.go
@@ -57,7 +57,7 @@ func (o *OperationChanges) GetAllChanges() []*Change {
 	for k := range o.ServerChanges {
 		changes = append(changes, o.ServerChanges[k].GetAllChanges()...)
 	}
-	for k := range o.CallbackChanges {
+	for _, k := range slices.Sorted(maps.Keys(o.CallbackChanges)) {
 		changes = append(changes, o.CallbackChanges[k].GetAllChanges()...)
 	}
 	if o.ExtensionChanges != nil {
diff --git a/what-changed/model/parameter.go b/what-changed/model/parameter.go
index 3a29d14..b7fb3e7 100644
--- a/what-changed/model/parameter.go
+++ b/what-changed/model/parameter.go
@@ -4,7 +4,9 @@
 package model
 
 import (
+	"maps"
 	"reflect"
+	"slices"
 
 	"github.com/pb33f/libopenapi/datamodel/low"
 	"github.com/pb33f/libopenapi/datamodel/low/base"
@@ -39,7 +41,7 @@ func (p *ParameterChanges) GetAllChanges() []*Change {
 	if p.SchemaChanges != nil {
 		changes = append(changes, p.SchemaChanges.GetAllChanges()...)
 	}
-	for i := range p.ExamplesChanges {
+	for _, i := range slices.Sorted(maps.Keys(p.ExamplesChanges)) {
 		changes = append(changes, p.ExamplesChanges[i].GetAllChanges()...)
 	}
 	if p.ItemsChanges != nil {
@@ -48,7 +50,7 @@ func (p *ParameterChanges) GetAllChanges() []*Change {
 	if p.ExtensionChanges != nil {
 		changes = append(changes, p.ExtensionChanges.GetAllChanges()...)
 	}
-	for i := range p.ContentChanges {
+	for _, i := range slices.Sorted(maps.Keys(p.ContentChanges)) {
 		changes = append(changes, p.ContentChanges[i].GetAllChanges()...)
 	}
 	return changes
diff --git a/what-changed/model/path_item.go b/what-changed/model/path_item.go
index 0976197..133f67f 100644
--- a/what-changed/model/path_item.go
+++ b/what-changed/model/path_item.go
@@ -65,7 +65,7 @@ func (p *PathItemChanges) GetAllChanges() []*Change {
 	if p.QueryChanges != nil {
 		changes = append(changes, p.QueryChanges.GetAllChanges()...)
 	}
-	for k := range p.AdditionalOperationChanges {
+	for _, k := range slices.Sorted(maps.Keys(p.AdditionalOperationChanges)) {
 		changes = append(changes, p.AdditionalOperationChanges[k].GetAllChanges()...)
 	}
 	for i := range p.ServerChanges {
diff --git a/what-changed/model/paths.go b/what-changed/model/paths.go
index bc37c1e..eddcf05 100644
--- a/what-changed/model/paths.go
+++ b/what-changed/model/paths.go
@@ -30,7 +30,7 @@ func (p *PathsChanges) GetAllChanges() []*Change {
 	}
 	var changes []*Change
 	changes = append(changes, p.Changes...)
-	for k := range p.PathItemsChanges {
+	for _, k := range slices.Sorted(maps.Keys(p.PathItemsChanges)) {
 		if p.PathItemsChanges[k] != nil {
 			changes = append(changes, p.PathItemsChanges[k].GetAllChanges()...)
 		}
diff --git a/what-changed/model/request_body.go b/what-changed/model/request_body.go
index 95afa63..849dae3 100644
--- a/what-changed/model/request_body.go
+++ b/what-changed/model/request_body.go
@@ -6,6 +6,8 @@ package model
 import (
 	"github.com/pb33f/libopenapi/datamodel/low"
 	"github.com/pb33f/libopenapi/datamodel/low/v3"
+	"maps"
+	"slices"
 )
 
 // RequestBodyChanges represents changes made between two OpenAPI RequestBody Objects
@@ -22,7 +24,7 @@ func (rb *RequestBodyChanges) GetAllChanges() []*Change {
 	}
 	var changes []*Change
 	changes = append(changes, rb.Changes...)
-	for k := range rb.ContentChanges {
+	for _, k := range slices.Sorted(maps.Keys(rb.ContentChanges)) {
 		changes = append(changes, rb.ContentChanges[k].GetAllChanges()...)
 	}
 	if rb.ExtensionChanges != nil {
diff --git a/what-changed/model/response.go b/what-changed/model/response.go
index dab97c3..66abd45 100644
--- a/what-changed/model/response.go
+++ b/what-changed/model/response.go
@@ -4,7 +4,9 @@
 package model
 
 import (
+	"maps"
 	"reflect"
+	"slices"
 
 	"github.com/pb33f/libopenapi/datamodel/low"
 	v3 "github.com/pb33f/libopenapi/datamodel/low/v3"
@@ -45,13 +47,13 @@ func (r *ResponseChanges) GetAllChanges() []*Change {
 	if r.ExamplesChanges != nil {
 		changes = append(changes, r.ExamplesChanges.GetAllChanges()...)
 	}
-	for k := range r.HeadersChanges {
+	for _, k := range slices.Sorted(maps.Keys(r.HeadersChanges)) {
 		changes = append(changes, r.HeadersChanges[k].GetAllChanges()...)
 	}
-	for k := range r.ContentChanges {
+	for _, k := range slices.Sorted(maps.Keys(r.ContentChanges)) {
 		changes = append(changes, r.ContentChanges[k].GetAllChanges()...)
 	}
-	for k := range r.LinkChanges {
+	for _, k := range slices.Sorted(maps.Keys(r.LinkChanges)) {
 		changes = append(changes, r.LinkChanges[k].GetAllChanges()...)
 	}
 	return changes
diff --git a/what-changed/model/responses.go b/what-changed/model/responses.go
index a7ad56d..3edaf61 100644
--- a/what-changed/model/responses.go
+++ b/what-changed/model/responses.go
@@ -4,7 +4,9 @@
 package model
 
 import (
+	"maps"
 	"reflect"
+	"slices"
 
 	"github.com/pb33f/libopenapi/datamodel/low"
 	"github.com/pb33f/libopenapi/datamodel/low/v2"
@@ -26,7 +28,7 @@ func (r *ResponsesChanges) GetAllChanges() []*Change {
 	}
 	var changes []*Change
 	changes = append(changes, r.Changes...)
-	for k := range r.ResponseChanges {
+	for _, k := range slices.Sorted(maps.Keys(r.ResponseChanges)) {
 		changes = append(changes, r.ResponseChanges[k].GetAllChanges()...)
 	}
 	if r.DefaultChanges != nil {
diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 81cce6b..493ab1f 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -61,14 +61,14 @@ func (s *SchemaChanges) GetPropertyChanges() []*Change {
 	}
 	changes := s.Changes
 	if s.SchemaPropertyChanges != nil {
-		for n := range s.SchemaPropertyChanges {
+		for _, n := range slices.Sorted(maps.Keys(s.SchemaPropertyChanges)) {
 			if s.SchemaPropertyChanges[n] != nil {
 				changes = append(changes, s.SchemaPropertyChanges[n].GetAllChanges()...)
 			}
 		}
 	}
 	if s.DependentSchemasChanges != nil {
-		for n := range s.DependentSchemasChanges {
+		for _, n := range slices.Sorted(maps.Keys(s.DependentSchemasChanges)) {
 			if s.DependentSchemasChanges[n] != nil {
 				changes = append(changes, s.DependentSchemasChanges[n].GetAllChanges()...)
 			}
@@ -78,7 +78,7 @@ func (s *SchemaChanges) GetPropertyChanges() []*Change {
 		changes = append(changes, s.DependentRequiredChanges...)
 	}
 	if s.PatternPropertiesChanges != nil {
-		for n := range s.PatternPropertiesChanges {
+		for _, n := range slices.Sorted(maps.Keys(s.PatternPropertiesChanges)) {
 			if s.PatternPropertiesChanges[n] != nil {
 				changes = append(changes, s.PatternPropertiesChanges[n].GetAllChanges()...)
 			}
@@ -159,14 +159,14 @@ func (s *SchemaChanges) GetAllChanges() []*Change {
 		changes = append(changes, s.AdditionalPropertiesChanges.GetAllChanges()...)
 	}
 	if s.SchemaPropertyChanges != nil {
-		for n := range s.SchemaPropertyChanges {
+		for _, n := range slices.Sorted(maps.Keys(s.SchemaPropertyChanges)) {
 			if s.SchemaPropertyChanges[n] != nil {
 				changes = append(changes, s.SchemaPropertyChanges[n].GetAllChanges()...)
 			}
 		}
 	}
 	if s.DependentSchemasChanges != nil {
-		for n := range s.DependentSchemasChanges {
+		for _, n := range slices.Sorted(maps.Keys(s.DependentSchemasChanges)) {
 			if s.DependentSchemasChanges[n] != nil {
 				changes = append(changes, s.DependentSchemasChanges[n].GetAllChanges()...)
 			}
@@ -176,13 +176,13 @@ func (s *SchemaChanges) GetAllChanges() []*Change {
 		changes = append(changes, s.DependentRequiredChanges...)
 	}
 	if s.PatternPropertiesChanges != nil {
-		for n := range s.PatternPropertiesChanges {
+		for _, n := range slices.Sorted(maps.Keys(s.PatternPropertiesChanges)) {
 			if s.PatternPropertiesChanges[n] != nil {
 				changes = append(changes, s.PatternPropertiesChanges[n].GetAllChanges()...)
 			}
 		}
 	}
-	for n := range s.DefsChanges {
+	for _, n := range slices.Sorted(maps.Keys(s.DefsChanges)) {
 		changes = append(changes, s.DefsChanges[n].GetAllChanges()...)
 	}
 	if s.ContentSchemaChanges != nil {
diff --git a/what-changed/model/server.go b/what-changed/model/server.go
index c50e160..b4f0408 100644
--- a/what-changed/model/server.go
+++ b/what-changed/model/server.go
@@ -6,6 +6,8 @@ package model
 import (
 	"github.com/pb33f/libopenapi/datamodel/low"
 	"github.com/pb33f/libopenapi/datamodel/low/v3"
+	"maps"
+	"slices"
 )
 
 // ServerChanges represents changes found between two OpenAPI Server Objects
@@ -23,7 +25,7 @@ func (s *ServerChanges) GetAllChanges() []*Change {
 	}
 	var changes []*Change
 	changes = append(changes, s.Changes...)
-	for k := range s.ServerVariableChanges {
+	for _, k := range slices.Sorted(maps.Keys(s.ServerVariableChanges)) {
 		changes = append(changes, s.ServerVariableChanges[k].GetAllChanges()...)
 	}
 	if s.ExtensionChanges != nil {
-- 
2.43.0


From 278000b1a1d38963d18197a49b259478d9c0bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 36/60] fix: changes of examples, header schemas, item
 encodings and parameters follow the active breaking rules

---
 what-changed/model/examples.go   |  6 +++---
 what-changed/model/header.go     | 14 +++++++++++---
 what-changed/model/media_type.go | 12 +++++++-----
 what-changed/model/operation.go  | 14 +++++++++++---
 what-changed/model/path_item.go  | 10 ++++++++--
 what-changed/model/schema.go     |  8 +++++---
 6 files changed, 45 insertions(+), 19 deletions(-)

diff --git a/what-changed/model/examples.go b/what-changed/model/examples.go
index 87823fe..87ed01c 100644
--- a/what-changed/model/examples.go
+++ b/what-changed/model/examples.go
@@ -62,7 +62,7 @@ func CompareExamplesV2(l, r *v2.Examples) *ExamplesChanges {
 		rhash := rHashes[k]
 		if rhash == "" {
 			CreateChange(&changes, ObjectRemoved, k,
-				lValues[k].GetValueNode(), nil, false,
+				lValues[k].GetValueNode(), nil, BreakingRemoved(CompResponse, PropExamples),
 				lValues[k].GetValue(), nil)
 			continue
 		}
@@ -70,7 +70,7 @@ func CompareExamplesV2(l, r *v2.Examples) *ExamplesChanges {
 			continue
 		}
 		CreateChange(&changes, Modified, k,
-			lValues[k].GetValueNode(), rValues[k].GetValueNode(), false,
+			lValues[k].GetValueNode(), rValues[k].GetValueNode(), BreakingModified(CompResponse, PropExamples),
 			lValues[k].GetValue(), rValues[k].GetValue())
 
 	}
@@ -80,7 +80,7 @@ func CompareExamplesV2(l, r *v2.Examples) *ExamplesChanges {
 		lhash := lHashes[k]
 		if lhash == "" {
 			CreateChange(&changes, ObjectAdded, k,
-				nil, rValues[k].GetValueNode(), false,
+				nil, rValues[k].GetValueNode(), BreakingAdded(CompResponse, PropExamples),
 				nil, rValues[k].GetValue())
 			continue
 		}
diff --git a/what-changed/model/header.go b/what-changed/model/header.go
index e39093e..fac4b77 100644
--- a/what-changed/model/header.go
+++ b/what-changed/model/header.go
@@ -118,9 +118,11 @@ func addOpenAPIHeaderProperties(left, right low.OpenAPIHeader, changes *[]*Chang
 		BreakingModified(CompHeader, PropExplode), CompHeader, PropExplode)
 
 	// example
-	CheckPropertyAdditionOrRemovalWithEncoding(left.GetExample().ValueNode, right.GetExample().ValueNode,
-		v3.ExampleLabel, changes,
-		BreakingAdded(CompHeader, PropExample) || BreakingRemoved(CompHeader, PropExample),
+	CheckForRemovalWithEncoding(left.GetExample().ValueNode, right.GetExample().ValueNode,
+		v3.ExampleLabel, changes, BreakingRemoved(CompHeader, PropExample),
+		left.GetExample(), right.GetExample())
+	CheckForAdditionWithEncoding(left.GetExample().ValueNode, right.GetExample().ValueNode,
+		v3.ExampleLabel, changes, BreakingAdded(CompHeader, PropExample),
 		left.GetExample(), right.GetExample())
 	CheckForModificationWithEncoding(left.GetExample().ValueNode, right.GetExample().ValueNode,
 		v3.ExampleLabel, changes, BreakingModified(CompHeader, PropExample),
@@ -284,6 +286,12 @@ func CompareHeaders(l, r any) *HeaderChanges {
 		// header
 		if !lHeader.Schema.IsEmpty() || !rHeader.Schema.IsEmpty() {
 			hc.SchemaChanges = CompareSchemas(lHeader.Schema.Value, rHeader.Schema.Value)
+			if lHeader.Schema.IsEmpty() {
+				overrideChangeCollectionBreaking(hc.SchemaChanges, BreakingAdded(CompHeader, PropSchema))
+			}
+			if rHeader.Schema.IsEmpty() {
+				overrideChangeCollectionBreaking(hc.SchemaChanges, BreakingRemoved(CompHeader, PropSchema))
+			}
 		}
 
 		// examples
diff --git a/what-changed/model/media_type.go b/what-changed/model/media_type.go
index 74c34a5..5415ca6 100644
--- a/what-changed/model/media_type.go
+++ b/what-changed/model/media_type.go
@@ -118,9 +118,11 @@ func CompareMediaTypes(l, r *v3.MediaType) *MediaTypeChanges {
 	}
 
 	// Example
-	CheckPropertyAdditionOrRemovalWithEncoding(l.Example.ValueNode, r.Example.ValueNode,
-		v3.ExampleLabel, &changes,
-		BreakingAdded(CompMediaType, PropExample) || BreakingRemoved(CompMediaType, PropExample),
+	CheckForRemovalWithEncoding(l.Example.ValueNode, r.Example.ValueNode,
+		v3.ExampleLabel, &changes, BreakingRemoved(CompMediaType, PropExample),
+		l.Example.Value, r.Example.Value)
+	CheckForAdditionWithEncoding(l.Example.ValueNode, r.Example.ValueNode,
+		v3.ExampleLabel, &changes, BreakingAdded(CompMediaType, PropExample),
 		l.Example.Value, r.Example.Value)
 	CheckForModificationWithEncoding(l.Example.ValueNode, r.Example.ValueNode,
 		v3.ExampleLabel, &changes, BreakingModified(CompMediaType, PropExample),
@@ -163,8 +165,8 @@ func CompareMediaTypes(l, r *v3.MediaType) *MediaTypeChanges {
 	}
 
 	// itemEncoding
-	mc.ItemEncodingChanges = CheckMapForChanges(l.ItemEncoding.Value, r.ItemEncoding.Value,
-		&changes, v3.ItemEncodingLabel, CompareEncoding)
+	mc.ItemEncodingChanges = CheckMapForChangesWithRules(l.ItemEncoding.Value, r.ItemEncoding.Value,
+		&changes, v3.ItemEncodingLabel, CompareEncoding, CompMediaType, PropItemEncoding)
 
 	mc.ExtensionChanges = CompareExtensions(l.Extensions, r.Extensions)
 	mc.PropertyChanges = NewPropertyChanges(changes)
diff --git a/what-changed/model/operation.go b/what-changed/model/operation.go
index deb35f4..2641499 100644
--- a/what-changed/model/operation.go
+++ b/what-changed/model/operation.go
@@ -264,8 +264,14 @@ func CompareOperations(l, r any) *OperationChanges {
 			}
 			for _, n := range slices.Sorted(maps.Keys(rv)) {
 				if _, ok := lv[n]; !ok {
+					// Check configurable breaking rules first
+					breaking := BreakingAdded(CompOperation, PropParameters)
+					// If config doesn't say breaking, fall back to semantic check (required parameter)
+					if !breaking {
+						breaking = rv[n].Required.Value
+					}
 					CreateChange(&changes, ObjectAdded, v3.ParametersLabel,
-						nil, rv[n].Name.ValueNode, rv[n].Required.Value, nil,
+						nil, rv[n].Name.ValueNode, breaking, nil,
 						rv[n])
 				}
 			}
@@ -273,12 +279,14 @@ func CompareOperations(l, r any) *OperationChanges {
 		}
 		if !lParamsUntyped.IsEmpty() && rParamsUntyped.IsEmpty() {
 			CreateChange(&changes, PropertyRemoved, v3.ParametersLabel,
-				lParamsUntyped.ValueNode, nil, true, lParamsUntyped.Value,
+				lParamsUntyped.ValueNode, nil, BreakingRemoved(CompOperation, PropParameters), lParamsUntyped.Value,
 				nil)
 		}
 		if lParamsUntyped.IsEmpty() && !rParamsUntyped.IsEmpty() {
 			rParams := rParamsUntyped.Value.([]low.ValueReference[*v2.Parameter])
-			breaking := false
+			// Check configurable breaking rules first
+			breaking := BreakingAdded(CompOperation, PropParameters)
+			// If config doesn't say breaking, fall back to semantic check (required parameter)
 			for i := range rParams {
 				if rParams[i].Value.Required.Value {
 					breaking = true
diff --git a/what-changed/model/path_item.go b/what-changed/model/path_item.go
index 133f67f..4d6e404 100644
--- a/what-changed/model/path_item.go
+++ b/what-changed/model/path_item.go
@@ -464,14 +464,20 @@ func checkParameters(lParams, rParams []low.ValueReference[low.SharedParameters]
 			continue
 		}
 		CreateChange(changes, ObjectRemoved, v3.ParametersLabel,
-			lv[n].GetName().ValueNode, nil, true, lv[n],
+			lv[n].GetName().ValueNode, nil, BreakingRemoved(CompPathItem, PropParameters), lv[n],
 			nil)
 
 	}
 	for _, n := range slices.Sorted(maps.Keys(rv)) {
 		if _, ok := lv[n]; !ok {
+			// Check configurable breaking rules first
+			breaking := BreakingAdded(CompPathItem, PropParameters)
+			// If config doesn't say breaking, fall back to semantic check (required parameter)
+			if !breaking {
+				breaking = rv[n].GetRequired().Value
+			}
 			CreateChange(changes, ObjectAdded, v3.ParametersLabel,
-				nil, rv[n].GetName().ValueNode, rv[n].GetRequired().Value, nil,
+				nil, rv[n].GetName().ValueNode, breaking, nil,
 				rv[n])
 		}
 	}
diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 493ab1f..ee9eff4 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -1375,10 +1375,12 @@ func checkSchemaPropertyChanges(
 		rnv = rSchema.Example.ValueNode
 	}
 	// Example
-	CheckPropertyAdditionOrRemovalWithEncoding(lnv, rnv,
-		v3.ExampleLabel, changes, false, lSchema, rSchema)
+	CheckForRemovalWithEncoding(lnv, rnv,
+		v3.ExampleLabel, changes, BreakingRemoved(CompSchema, PropExample), lSchema, rSchema)
+	CheckForAdditionWithEncoding(lnv, rnv,
+		v3.ExampleLabel, changes, BreakingAdded(CompSchema, PropExample), lSchema, rSchema)
 	CheckForModificationWithEncoding(lnv, rnv,
-		v3.ExampleLabel, changes, false, lSchema, rSchema)
+		v3.ExampleLabel, changes, BreakingModified(CompSchema, PropExample), lSchema, rSchema)
 	lnv = nil
 	rnv = nil
 
-- 
2.43.0


From 2e8938fec298eda5c823670515d16a86301ce55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:33 +0000
Subject: [PATCH 37/60] fix: clearing the active breaking rules restores the
 defaults after overrides were merged into them

---
 what-changed/model/breaking_rules.go           | 18 +++++++++++-------
 what-changed/model/breaking_rules_constants.go |  2 +-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/what-changed/model/breaking_rules.go b/what-changed/model/breaking_rules.go
index bc5f673..080cccb 100644
--- a/what-changed/model/breaking_rules.go
+++ b/what-changed/model/breaking_rules.go
@@ -6,13 +6,13 @@ package model
 import (
 	"reflect"
 	"strings"
-	"sync"
 )
 
 // ResetDefaultBreakingRules resets the cached default rules. This is primarily
 // intended for testing scenarios where the cache needs to be cleared.
 func ResetDefaultBreakingRules() {
-	defaultRulesOnce = sync.Once{}
+	defaultRulesMu.Lock()
+	defer defaultRulesMu.Unlock()
 	defaultRulesCache = nil
 }
 
@@ -22,6 +22,10 @@ func SetActiveBreakingRulesConfig(config *BreakingRulesConfig) {
 	activeConfigMu.Lock()
 	defer activeConfigMu.Unlock()
 	activeConfig = config
+	if config == nil {
+		// overrides may have been merged into the cached defaults, so they are built anew.
+		ResetDefaultBreakingRules()
+	}
 }
 
 // GetActiveBreakingRulesConfig returns the currently active breaking rules config.
@@ -37,18 +41,18 @@ func GetActiveBreakingRulesConfig() *BreakingRulesConfig {
 
 // ResetActiveBreakingRulesConfig clears any custom config and reverts to defaults.
 func ResetActiveBreakingRulesConfig() {
-	activeConfigMu.Lock()
-	defer activeConfigMu.Unlock()
-	activeConfig = nil
+	SetActiveBreakingRulesConfig(nil)
 }
 
 // GenerateDefaultBreakingRules returns the default breaking change rules for OpenAPI 3.x.
 // These rules match the currently hardcoded behavior in the comparison functions.
 // The returned config is cached and reused for performance.
 func GenerateDefaultBreakingRules() *BreakingRulesConfig {
-	defaultRulesOnce.Do(func() {
+	defaultRulesMu.Lock()
+	defer defaultRulesMu.Unlock()
+	if defaultRulesCache == nil {
 		defaultRulesCache = buildDefaultRules()
-	})
+	}
 	return defaultRulesCache
 }
 
diff --git a/what-changed/model/breaking_rules_constants.go b/what-changed/model/breaking_rules_constants.go
index 3654436..0651ee3 100644
--- a/what-changed/model/breaking_rules_constants.go
+++ b/what-changed/model/breaking_rules_constants.go
@@ -198,7 +198,7 @@ var (
 
 // singleton cache for default rules to avoid repeated allocations
 var (
-	defaultRulesOnce  sync.Once
+	defaultRulesMu    sync.Mutex
 	defaultRulesCache *BreakingRulesConfig
 )
 
-- 
2.43.0


From 1f69f8d0a71518c5624f0f700c7630bbfa5bd644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 38/60] fix: breaking changes of 2.0 response examples are
 counted

---
 what-changed/model/examples.go | 8 ++++++--
 what-changed/model/response.go | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/what-changed/model/examples.go b/what-changed/model/examples.go
index 87ed01c..f176558 100644
--- a/what-changed/model/examples.go
+++ b/what-changed/model/examples.go
@@ -33,9 +33,13 @@ func (a *ExamplesChanges) TotalChanges() int {
 	return a.PropertyChanges.TotalChanges()
 }
 
-// TotalBreakingChanges will always return 0. Examples cannot break a contract.
+// TotalBreakingChanges returns the number of changes made between Example instances that the active rules call
+// breaking (by default none).
 func (a *ExamplesChanges) TotalBreakingChanges() int {
-	return 0 // not supported.
+	if a == nil {
+		return 0
+	}
+	return a.PropertyChanges.TotalBreakingChanges()
 }
 
 // CompareExamplesV2 compares two Swagger Examples objects, returning a pointer to
diff --git a/what-changed/model/response.go b/what-changed/model/response.go
index 66abd45..a373e4a 100644
--- a/what-changed/model/response.go
+++ b/what-changed/model/response.go
@@ -96,6 +96,9 @@ func (r *ResponseChanges) TotalBreakingChanges() int {
 	if r.SchemaChanges != nil {
 		c += r.SchemaChanges.TotalBreakingChanges()
 	}
+	if r.ExamplesChanges != nil {
+		c += r.ExamplesChanges.TotalBreakingChanges()
+	}
 	for k := range r.HeadersChanges {
 		c += r.HeadersChanges[k].TotalBreakingChanges()
 	}
-- 
2.43.0


From f5554d35484ece7b559c1ca704d38149acc06404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:32 +0000
Subject: [PATCH 39/60] fix: a reference to a reference in another place is
 followed to its end

---
 datamodel/low/extraction_functions.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/datamodel/low/extraction_functions.go b/datamodel/low/extraction_functions.go
index b6cca0a..40d8ce4 100644
--- a/datamodel/low/extraction_functions.go
+++ b/datamodel/low/extraction_functions.go
@@ -140,6 +140,19 @@ func generateIndexCollection(idx *index.SpecIndex) []func() map[string]*index.Re
 }
 
 func LocateRefNodeWithContext(ctx context.Context, root *yaml.Node, idx *index.SpecIndex) (*yaml.Node, *index.SpecIndex, error, context.Context) {
+	return locateRefNode(ctx, root, idx, 0)
+}
+
+// followLocatedRef keeps diving while the node a reference points at is a reference itself.
+func followLocatedRef(ctx context.Context, root, node *yaml.Node, idx *index.SpecIndex, depth int) (*yaml.Node, *index.SpecIndex, error, context.Context) {
+	node = utils.NodeAlias(node)
+	if rf, _, _ := utils.IsNodeRefValue(node); !rf || node == root || depth > 100 || IsCircular(node, idx) {
+		return node, idx, nil, ctx
+	}
+	return locateRefNode(ctx, node, idx, depth+1)
+}
+
+func locateRefNode(ctx context.Context, root *yaml.Node, idx *index.SpecIndex, depth int) (*yaml.Node, *index.SpecIndex, error, context.Context) {
 	if rf, _, rv := utils.IsNodeRefValue(root); rf {
 
 		if rv == "" {
@@ -202,8 +215,8 @@ func LocateRefNodeWithContext(ctx context.Context, root *yaml.Node, idx *index.S
 					// until we hit something that isn't a ref.
 					if jh, _, _ := utils.IsNodeRefValue(foundRef.Node); jh {
 						// if this node is circular, stop drop and roll.
-						if !IsCircular(foundRef.Node, foundIndex) && foundRef.Node != root {
-							return LocateRefNodeWithContext(foundCtx, foundRef.Node, foundIndex)
+						if !IsCircular(foundRef.Node, foundIndex) && foundRef.Node != root && depth <= 100 {
+							return locateRefNode(foundCtx, foundRef.Node, foundIndex, depth+1)
 						}
 
 						crr := GetCircularReferenceResult(foundRef.Node, foundIndex)
@@ -225,7 +238,7 @@ func LocateRefNodeWithContext(ctx context.Context, root *yaml.Node, idx *index.S
 		if index.GetSchemaIdScope(ctx) == nil {
 			for _, candidate := range searchRefs {
 				if node := navigateReferenceFragment(idx.GetRootNode(), candidate); node != nil {
-					return utils.NodeAlias(node), idx, nil, ctx
+					return followLocatedRef(ctx, root, node, idx, depth)
 				}
 			}
 		}
@@ -341,7 +354,7 @@ func LocateRefNodeWithContext(ctx context.Context, root *yaml.Node, idx *index.S
 		foundRef, fIdx, newCtx := idx.SearchIndexForReferenceWithContext(ctx, rv)
 		if foundRef != nil {
 			newCtx = applyResolvedSchemaIdScope(newCtx, foundRef, fIdx)
-			return utils.NodeAlias(foundRef.Node), fIdx, nil, newCtx
+			return followLocatedRef(newCtx, root, foundRef.Node, fIdx, depth)
 		}
 
 		// let's try something else to find our references.
@@ -351,7 +364,7 @@ func LocateRefNodeWithContext(ctx context.Context, root *yaml.Node, idx *index.S
 		if friendly != "" {
 			nodes, err := utils.FindNodesWithoutDeserializingWithOptions(idx.GetRootNode(), friendly, utils.JSONPathLookupOptions{})
 			if err == nil && len(nodes) > 0 {
-				return utils.NodeAlias(nodes[0]), idx, nil, ctx
+				return followLocatedRef(ctx, root, nodes[0], idx, depth)
 			}
 		}
 		return nil, idx, fmt.Errorf("reference '%s' at line %d, column %d was not found",
-- 
2.43.0


From 6b3fa0bfe86563a36da053b75d6cfafa6850b64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:32 +0000
Subject: [PATCH 40/60] fix: a file at the path a reference spells comes before
 an overlapping path

---
 index/path_resolution.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/index/path_resolution.go b/index/path_resolution.go
index d33d1e5..a5d3b7d 100644
--- a/index/path_resolution.go
+++ b/index/path_resolution.go
@@ -37,6 +37,15 @@ func (index *SpecIndex) resolveRelativeFilePath(defRoot, ref string) string {
 			bases = append(bases, base)
 		}
 		sort.Strings(bases)
+		// the path as it is written comes before any overlap with the current directory.
+		if !filepath.IsAbs(ref) {
+			exact, _ := filepath.Abs(filepath.Join(defRoot, ref))
+			for _, base := range bases {
+				if exact != fallback && pathExistsInFS(base, index.rolodex.localFS[base], exact) {
+					return exact
+				}
+			}
+		}
 		for _, base := range bases {
 			if pathExistsInFS(base, index.rolodex.localFS[base], fallback) {
 				return fallback
-- 
2.43.0


From be24ecbad2ecda75f90d194bd39152cbbe997689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:32 +0000
Subject: [PATCH 41/60] fix: files that are indexed concurrently and need each
 other do not wait forever

---
 index/find_component_external.go |  2 +-
 index/index_model.go             |  1 +
 index/rolodex.go                 | 58 ++++++++++++++++++++++++++++++++
 index/search_index.go            | 11 +++++-
 index/spec_index_build.go        |  1 +
 index/spec_index_counts.go       |  4 +--
 index/utility_methods.go         |  2 +-
 7 files changed, 74 insertions(+), 5 deletions(-)

diff --git a/index/find_component_external.go b/index/find_component_external.go
index cf0727b..9038dea 100644
--- a/index/find_component_external.go
+++ b/index/find_component_external.go
@@ -53,7 +53,7 @@ func (index *SpecIndex) lookupRolodex(ctx context.Context, uri []string) *Refere
 			return nil
 		}
 		if rFile.GetIndex() == nil && !IsFileBeingIndexed(ctx, absoluteFileLocation) {
-			rFile.WaitForIndexing()
+			index.rolodex.waitForIndexing(rFile, absoluteFileLocation, GetIndexingFiles(ctx), index.indexingFiles)
 		}
 		if rFile.GetIndex() != nil {
 			idx = rFile.GetIndex()
diff --git a/index/index_model.go b/index/index_model.go
index 5e159d3..f33ad11 100644
--- a/index/index_model.go
+++ b/index/index_model.go
@@ -323,6 +323,7 @@ func CreateClosedAPIIndexConfig() *SpecIndexConfig {
 // everything is pre-walked if you need it.
 type SpecIndex struct {
 	specAbsolutePath                    string
+	indexingFiles                       map[string]bool                               // files that are being indexed by the call chain that builds this index.
 	rolodex                             *Rolodex                                      // the rolodex is used to fetch remote and file based documents.
 	allRefs                             map[string]*Reference                         // all (deduplicated) refs
 	rawSequencedRefs                    []*Reference                                  // all raw references in sequence as they are scanned, not deduped.
diff --git a/index/rolodex.go b/index/rolodex.go
index bd955a8..94c8a9a 100644
--- a/index/rolodex.go
+++ b/index/rolodex.go
@@ -11,6 +11,7 @@ import (
 	"log/slog"
 	"maps"
 	"math"
+	"net/url"
 	"os"
 	"path/filepath"
 	"sort"
@@ -89,6 +90,63 @@ type Rolodex struct {
 	id                         string // unique ID for the rolodex, can be used to identify it in logs or other contexts.
 	globalSchemaIdRegistry     map[string]*SchemaIdEntry
 	schemaIdRegistryLock       sync.RWMutex
+	indexWaits                 map[string]map[string]int // file being indexed -> files whose indexing it waits for
+	indexWaitsLock             sync.Mutex
+}
+
+// waitForIndexing blocks until a file has been indexed, unless the indexing of that file waits (directly or not)
+// for one of the files that the caller is in the middle of indexing: neither would ever complete.
+func (r *Rolodex) waitForIndexing(file RolodexFile, location string, indexing ...map[string]bool) {
+	key := func(f string) string {
+		if strings.HasPrefix(f, "http") {
+			if u, err := url.Parse(f); err == nil {
+				return u.Path
+			}
+		}
+		return f
+	}
+	held := make(map[string]bool)
+	for _, files := range indexing {
+		for f := range files {
+			held[key(f)] = true
+		}
+	}
+	target := key(location)
+
+	r.indexWaitsLock.Lock()
+	seen := map[string]bool{target: true}
+	for queue := []string{target}; len(queue) > 0; queue = queue[1:] {
+		if held[queue[0]] {
+			r.indexWaitsLock.Unlock()
+			return
+		}
+		for next := range r.indexWaits[queue[0]] {
+			if !seen[next] {
+				seen[next] = true
+				queue = append(queue, next)
+			}
+		}
+	}
+	if r.indexWaits == nil {
+		r.indexWaits = make(map[string]map[string]int)
+	}
+	for h := range held {
+		if r.indexWaits[h] == nil {
+			r.indexWaits[h] = make(map[string]int)
+		}
+		r.indexWaits[h][target]++
+	}
+	r.indexWaitsLock.Unlock()
+
+	file.WaitForIndexing()
+
+	r.indexWaitsLock.Lock()
+	defer r.indexWaitsLock.Unlock()
+	for h := range held {
+		if r.indexWaits[h][target]--; r.indexWaits[h][target] <= 0 {
+			delete(r.indexWaits[h], target)
+		}
+	}
 }
 
 // Release nils all fields that can pin YAML node trees, SpecIndex objects, or
diff --git a/index/search_index.go b/index/search_index.go
index e031711..a7ea78f 100644
--- a/index/search_index.go
+++ b/index/search_index.go
@@ -41,6 +41,15 @@ func AddIndexingFile(ctx context.Context, filePath string) context.Context {
 	return context.WithValue(ctx, IndexingFilesKey, newSet)
 }
 
+// buildContext is the context of lookups made while this index is built out, it carries the files that are being
+// indexed by the call chain that builds it.
+func (index *SpecIndex) buildContext() context.Context {
+	if len(index.indexingFiles) == 0 {
+		return context.Background()
+	}
+	return context.WithValue(context.Background(), IndexingFilesKey, index.indexingFiles)
+}
+
 // IsFileBeingIndexed checks if a file is currently being indexed in the call chain.
 // For HTTP URLs, it also checks if the PATH portion matches any indexed file,
 // since the same file might be referenced with different hostnames (which get normalized
@@ -80,7 +89,7 @@ func IsFileBeingIndexed(ctx context.Context, filePath string) bool {
 
 // SearchIndexForReferenceByReference searches the index for a matching reference using a background context.
 func (index *SpecIndex) SearchIndexForReferenceByReference(fullRef *Reference) (*Reference, *SpecIndex) {
-	r, idx, _ := index.SearchIndexForReferenceByReferenceWithContext(context.Background(), fullRef)
+	r, idx, _ := index.SearchIndexForReferenceByReferenceWithContext(index.buildContext(), fullRef)
 	return r, idx
 }
 
diff --git a/index/spec_index_build.go b/index/spec_index_build.go
index 544696d..d861b60 100644
--- a/index/spec_index_build.go
+++ b/index/spec_index_build.go
@@ -61,6 +61,7 @@ func createNewIndex(ctx context.Context, rootNode *yaml.Node, index *SpecIndex,
 	if rootNode == nil {
 		return index
 	}
+	index.indexingFiles = GetIndexingFiles(ctx)
 	index.nodeMapCompleted = make(chan struct{})
 	go index.MapNodes(rootNode)
 
diff --git a/index/spec_index_counts.go b/index/spec_index_counts.go
index 6c3f210..ad6614f 100644
--- a/index/spec_index_counts.go
+++ b/index/spec_index_counts.go
@@ -517,7 +517,7 @@ func (index *SpecIndex) GetOperationCount() int {
 				method = index.pathsNode.Content[x+1]
 			}
 			if isRef, _, ref := utils.IsNodeRefValue(method); isRef {
-				ctx := context.WithValue(context.Background(), CurrentPathKey, index.specAbsolutePath)
+				ctx := context.WithValue(index.buildContext(), CurrentPathKey, index.specAbsolutePath)
 				ctx = context.WithValue(ctx, RootIndexKey, index)
 				pNode := seekRefEnd(ctx, index, ref)
 				if pNode != nil {
@@ -576,7 +576,7 @@ func (index *SpecIndex) GetOperationsParameterCount() int {
 				pathPropertyNode = index.pathsNode.Content[x+1]
 			}
 			if isRef, _, ref := utils.IsNodeRefValue(pathPropertyNode); isRef {
-				ctx := context.WithValue(context.Background(), CurrentPathKey, index.specAbsolutePath)
+				ctx := context.WithValue(index.buildContext(), CurrentPathKey, index.specAbsolutePath)
 				ctx = context.WithValue(ctx, RootIndexKey, index)
 				pNode := seekRefEnd(ctx, index, ref)
 				if pNode != nil {
diff --git a/index/utility_methods.go b/index/utility_methods.go
index 105e1fe..512db54 100644
--- a/index/utility_methods.go
+++ b/index/utility_methods.go
@@ -431,7 +431,7 @@ func (index *SpecIndex) scanOperationParams(params []*yaml.Node, keyNode, pathIt
 			if paramRef == nil {
 				// could be in the rolodex
 				searchInIndex := findIndex(index, param.Content[1])
-				ctx := context.WithValue(context.Background(), CurrentPathKey, searchInIndex.specAbsolutePath)
+				ctx := context.WithValue(index.buildContext(), CurrentPathKey, searchInIndex.specAbsolutePath)
 				ctx = context.WithValue(ctx, RootIndexKey, searchInIndex)
 				ref := seekRefEnd(ctx, searchInIndex, paramRefName)
 				if ref != nil {
-- 
2.43.0


From 0888ca5255b6d57f54840a2108705da221060f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:32 +0000
Subject: [PATCH 42/60] fix: what a referenced schema holds is looked up in its
 own document

---
 datamodel/low/base/schema_build.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datamodel/low/base/schema_build.go b/datamodel/low/base/schema_build.go
index 597763a..484812f 100644
--- a/datamodel/low/base/schema_build.go
+++ b/datamodel/low/base/schema_build.go
@@ -68,7 +68,7 @@ func (s *Schema) Build(ctx context.Context, root *yaml.Node, idx *index.SpecInde
 
 	if !isTransformed {
 		if h, _, _ := utils.IsNodeRefValue(root); h {
-			ref, _, err, fctx := low.LocateRefNodeWithContext(ctx, root, idx)
+			ref, fIdx, err, fctx := low.LocateRefNodeWithContext(ctx, root, idx)
 			if ref != nil {
 				root = ref
 				if fctx != nil {
@@ -79,6 +79,10 @@ func (s *Schema) Build(ctx context.Context, root *yaml.Node, idx *index.SpecInde
 						return fmt.Errorf("build schema failed: %s", err.Error())
 					}
 				}
+				// what is in the schema is looked up from where the schema is.
+				if fIdx != nil {
+					idx = fIdx
+				}
 			} else {
 				return fmt.Errorf("build schema failed: reference cannot be found: '%s', line %d, col %d",
 					root.Content[1].Value, root.Content[1].Line, root.Content[1].Column)
-- 
2.43.0


From d8e92ebbc7760d4e775c4ce8b76090ff6270dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:35 +0000
Subject: [PATCH 43/60] fix: schemas are cached by their own position, not by
 that of the reference to them

---
 datamodel/high/base/schema_proxy.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/datamodel/high/base/schema_proxy.go b/datamodel/high/base/schema_proxy.go
index edee4df..b340cc1 100644
--- a/datamodel/high/base/schema_proxy.go
+++ b/datamodel/high/base/schema_proxy.go
@@ -444,8 +444,10 @@ func (sp *SchemaProxy) Schema() *Schema {
 	// check the high-level cache first.
 	idx := sp.schema.Value.GetIndex()
 	if idx != nil && sp.schema.Value != nil {
-		if sp.schema.Value.IsReference() && sp.schema.Value.GetReferenceNode() != nil && sp.schema.GetValueNode() != nil {
-			loc := buildCacheKey(idx.GetSpecAbsolutePath(), sp.schema.GetValueNode().Line, sp.schema.GetValueNode().Column)
+		// the node of the schema itself is the key, it belongs to the document of the index. The node the holder of the
+		// proxy knows can be the reference, which may be part of another document.
+		if vn := sp.schema.Value.GetValueNode(); sp.schema.Value.IsReference() && sp.schema.Value.GetReferenceNode() != nil && vn != nil {
+			loc := buildCacheKey(idx.GetSpecAbsolutePath(), vn.Line, vn.Column)
 			if seen, ok := idx.GetHighCache().Load(loc); ok {
 				idx.HighCacheHit()
 				// cache locally to avoid recreating on repeated access
@@ -467,8 +469,8 @@ func (sp *SchemaProxy) Schema() *Schema {
 	cached := false
 	if idx != nil {
 		// only store the schema in the cache if is a reference!
-		if sp.IsReference() && sp.GetReferenceNode() != nil && sp.schema != nil && sp.schema.GetValueNode() != nil {
-			loc := buildCacheKey(idx.GetSpecAbsolutePath(), sp.schema.GetValueNode().Line, sp.schema.GetValueNode().Column)
+		if vn := sp.schema.Value.GetValueNode(); sp.IsReference() && sp.GetReferenceNode() != nil && vn != nil {
+			loc := buildCacheKey(idx.GetSpecAbsolutePath(), vn.Line, vn.Column)
 
 			// caching is only performed on traditional $ref nodes with a reference and a value node, any 3.1 additional
 			// will not be cached as libopenapi does not yet support them.
-- 
2.43.0


From a4584506e8fcc615488aeaded612d0f613d4d45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:35 +0000
Subject: [PATCH 44/60] fix: a path item behind a reference is built with the
 index of its document

---
 datamodel/low/v3/paths.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/datamodel/low/v3/paths.go b/datamodel/low/v3/paths.go
index d8828dd..99a6936 100644
--- a/datamodel/low/v3/paths.go
+++ b/datamodel/low/v3/paths.go
@@ -182,15 +182,19 @@ func extractPathItemsMap(ctx context.Context, root *yaml.Node, idx *index.SpecIn
 			cNode := value.currentNode
 
 			foundContext := ctx
+			foundIndex := idx
 			var isRef bool
 			var refNode *yaml.Node
 			if ok, _, _ := utils.IsNodeRefValue(pNode); ok {
 				isRef = true
 				refNode = pNode
-				r, _, err, fCtx := low.LocateRefNodeWithContext(ctx, pNode, idx)
+				r, fIdx, err, fCtx := low.LocateRefNodeWithContext(ctx, pNode, idx)
 				if r != nil {
 					pNode = r
 					foundContext = fCtx
+					if fIdx != nil {
+						foundIndex = fIdx
+					}
 					if err != nil && !idx.AllowCircularReferenceResolving() {
 						return buildResult{}, fmt.Errorf("path item build failed: %s", err.Error())
 					}
@@ -202,7 +206,7 @@ func extractPathItemsMap(ctx context.Context, root *yaml.Node, idx *index.SpecIn
 
 			path := new(PathItem)
 			_ = low.BuildModel(pNode, path)
-			err := path.Build(foundContext, cNode, pNode, idx)
+			err := path.Build(foundContext, cNode, pNode, foundIndex)
 
 			if isRef {
 				path.SetReference(refNode.Content[1].Value, refNode)
-- 
2.43.0


From 196633eed33feca777e1724ae31d83d139cc717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:35 +0000
Subject: [PATCH 45/60] fix: a reference to a reference within a cycle is
 followed to its end

---
 datamodel/low/extraction_functions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datamodel/low/extraction_functions.go b/datamodel/low/extraction_functions.go
index 40d8ce4..d3b1e25 100644
--- a/datamodel/low/extraction_functions.go
+++ b/datamodel/low/extraction_functions.go
@@ -146,7 +146,7 @@ func LocateRefNodeWithContext(ctx context.Context, root *yaml.Node, idx *index.S
 // followLocatedRef keeps diving while the node a reference points at is a reference itself.
 func followLocatedRef(ctx context.Context, root, node *yaml.Node, idx *index.SpecIndex, depth int) (*yaml.Node, *index.SpecIndex, error, context.Context) {
 	node = utils.NodeAlias(node)
-	if rf, _, _ := utils.IsNodeRefValue(node); !rf || node == root || depth > 100 || IsCircular(node, idx) {
+	if rf, _, _ := utils.IsNodeRefValue(node); !rf || node == root || depth > 100 {
 		return node, idx, nil, ctx
 	}
 	return locateRefNode(ctx, node, idx, depth+1)
@@ -215,7 +215,7 @@ func locateRefNode(ctx context.Context, root *yaml.Node, idx *index.SpecIndex, d
 					// until we hit something that isn't a ref.
 					if jh, _, _ := utils.IsNodeRefValue(foundRef.Node); jh {
 						// if this node is circular, stop drop and roll.
-						if !IsCircular(foundRef.Node, foundIndex) && foundRef.Node != root && depth <= 100 {
+						if foundRef.Node != root && depth <= 100 {
 							return locateRefNode(foundCtx, foundRef.Node, foundIndex, depth+1)
 						}
 
-- 
2.43.0


From 11817d8345bb15175fdce2e5d279def9dc49cd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:35 +0000
Subject: [PATCH 46/60] fix: fragments of references are percent-decoded in
 every lookup

---
 datamodel/low/extraction_fragment.go |  5 +++++
 index/find_component_direct.go       |  3 +--
 index/find_component_entry.go        | 10 +++++-----
 index/reference_identity.go          |  9 +++++++++
 index/schema_id_resolve.go           |  3 ++-
 index/search_index.go                | 11 +++++------
 utils/utils.go                       |  8 ++++++--
 7 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/datamodel/low/extraction_fragment.go b/datamodel/low/extraction_fragment.go
index c775b1a..cb57356 100644
--- a/datamodel/low/extraction_fragment.go
+++ b/datamodel/low/extraction_fragment.go
@@ -4,6 +4,7 @@
 package low
 
 import (
+	"net/url"
 	"strings"
 
 	"github.com/pb33f/libopenapi/utils"
@@ -37,6 +38,10 @@ func navigateReferenceFragment(root *yaml.Node, fragment string) *yaml.Node {
 			continue
 		}
 
+		// a fragment is part of a URI, its characters may be percent-encoded.
+		if decoded, err := url.PathUnescape(segment); err == nil {
+			segment = decoded
+		}
 		segment = strings.ReplaceAll(segment, "~1", "/")
 		segment = strings.ReplaceAll(segment, "~0", "~")
 
diff --git a/index/find_component_direct.go b/index/find_component_direct.go
index 000c283..92d2277 100644
--- a/index/find_component_direct.go
+++ b/index/find_component_direct.go
@@ -4,7 +4,6 @@
 package index
 
 import (
-	"net/url"
 	"strings"
 	"sync"
 )
@@ -59,7 +58,7 @@ func normalizeComponentLookupID(componentID string) string {
 		seg = strings.ReplaceAll(seg, "~1", "/")
 		seg = strings.ReplaceAll(seg, "~0", "~")
 		if strings.ContainsRune(seg, '%') {
-			seg, _ = url.QueryUnescape(seg)
+			seg = unescapeReference(seg)
 		}
 		segs[i] = seg
 	}
diff --git a/index/find_component_entry.go b/index/find_component_entry.go
index 12da390..563b993 100644
--- a/index/find_component_entry.go
+++ b/index/find_component_entry.go
@@ -6,7 +6,6 @@ package index
 import (
 	"context"
 	"fmt"
-	"net/url"
 	"path/filepath"
 	"strings"
 
@@ -41,7 +40,7 @@ func (index *SpecIndex) FindComponent(ctx context.Context, componentId string) *
 		}
 	}
 
-	uri := strings.Split(componentId, "#/")
+	uri := strings.SplitN(componentId, "#/", 2)
 	if len(uri) == 2 {
 		if uri[0] != "" {
 			if index.specAbsolutePath == uri[0] {
@@ -65,8 +64,9 @@ func (index *SpecIndex) FindComponent(ctx context.Context, componentId string) *
 // The lookup prefers direct fragment navigation and direct component maps first, and falls back to
 // JSONPath traversal for legacy or non-direct component identifiers.
 func FindComponent(_ context.Context, root *yaml.Node, componentID, absoluteFilePath string, index *SpecIndex) *Reference {
+	fragment := componentID
 	if strings.Contains(componentID, "%") {
-		componentID, _ = url.QueryUnescape(componentID)
+		componentID = unescapeReference(componentID)
 	}
 
 	if fastRef := findDirectComponent(index, componentID, absoluteFilePath); fastRef != nil {
@@ -74,7 +74,7 @@ func FindComponent(_ context.Context, root *yaml.Node, componentID, absoluteFile
 	}
 
 	if strings.HasPrefix(componentID, "#/") {
-		if node := navigateToFragment(root, componentID); node != nil {
+		if node := navigateToFragment(root, fragment); node != nil {
 			name, friendlySearch := utils.ConvertComponentIdIntoFriendlyPathSearch(componentID)
 			if friendlySearch == "$." {
 				friendlySearch = "$"
@@ -106,7 +106,7 @@ func (index *SpecIndex) FindComponentInRoot(ctx context.Context, componentID str
 	if index.root != nil {
 		componentID = utils.ReplaceWindowsDriveWithLinuxPath(componentID)
 		if !strings.HasPrefix(componentID, "#/") {
-			spl := strings.Split(componentID, "#/")
+			spl := strings.SplitN(componentID, "#/", 2)
 			if len(spl) == 2 && spl[0] != "" {
 				componentID = fmt.Sprintf("#/%s", spl[1])
 			}
diff --git a/index/reference_identity.go b/index/reference_identity.go
index 6240e41..ada1648 100644
--- a/index/reference_identity.go
+++ b/index/reference_identity.go
@@ -29,3 +29,12 @@ func CanonicalReferenceIdentity(ref string) string {
 	base = strings.TrimSuffix(base, "/.")
 	return base + fragment
 }
+
+// unescapeReference decodes the percent-encoding of a reference. A reference that cannot be decoded is used as it is, it
+// may be decoded already.
+func unescapeReference(ref string) string {
+	if decoded, err := url.PathUnescape(ref); err == nil {
+		return decoded
+	}
+	return ref
+}
diff --git a/index/schema_id_resolve.go b/index/schema_id_resolve.go
index 1b1328f..ecfce5b 100644
--- a/index/schema_id_resolve.go
+++ b/index/schema_id_resolve.go
@@ -276,7 +276,8 @@ func navigateToFragment(root *yaml.Node, fragment string) *yaml.Node {
 			continue
 		}
 
-		// Decode JSON pointer escapes (~1 = /, ~0 = ~)
+		// Decode percent-encoding and JSON pointer escapes (~1 = /, ~0 = ~)
+		segment = unescapeReference(segment)
 		segment = strings.ReplaceAll(segment, "~1", "/")
 		segment = strings.ReplaceAll(segment, "~0", "~")
 
diff --git a/index/search_index.go b/index/search_index.go
index a7ea78f..223219b 100644
--- a/index/search_index.go
+++ b/index/search_index.go
@@ -180,9 +180,8 @@ func (index *SpecIndex) SearchIndexForReferenceByReferenceWithContext(ctx contex
 		absPath = index.config.BasePath
 	}
 	var roloLookup string
-	uriFile, uriFragment, uriCut := strings.Cut(ref, "#/")
-	// match strings.Split(ref, "#/") len==2 semantics: exactly one separator.
-	singleFragment := uriCut && !strings.Contains(uriFragment, "#/")
+	// the first separator ends the location, the pointer behind it can contain the same characters.
+	uriFile, uriFragment, singleFragment := strings.Cut(ref, "#/")
 	if singleFragment {
 		if uriFile != "" {
 			if strings.HasPrefix(uriFile, "http") {
@@ -226,8 +225,8 @@ func (index *SpecIndex) SearchIndexForReferenceByReferenceWithContext(ctx contex
 	}
 	if strings.Contains(ref, "%") {
 		// decode the url.
-		ref, _ = url.QueryUnescape(ref)
-		refAlt, _ = url.QueryUnescape(refAlt)
+		ref = unescapeReference(ref)
+		refAlt = unescapeReference(refAlt)
 	}
 
 	// --- Step 3: Local index lookup ---
@@ -364,7 +363,7 @@ func (index *SpecIndex) SearchIndexForReferenceByReferenceWithContext(ctx contex
 					expFile, expFragment, expCut := strings.Cut(ref, "#/")
 					compId := ref
 
-					if expCut && !strings.Contains(expFragment, "#/") {
+					if expCut {
 						compId = fmt.Sprintf("#/%s", expFragment)
 						found = FindComponent(ctx, node, compId, expFile, idx)
 					}
diff --git a/utils/utils.go b/utils/utils.go
index f903ce9..bbbd385 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -993,7 +993,9 @@ func ConvertComponentIdIntoFriendlyPathSearch(id string) (string, string) {
 		lastSeg = strings.ReplaceAll(lastSeg, "~1", "/")
 	}
 	if strings.ContainsRune(lastSeg, '%') {
-		lastSeg, _ = url.QueryUnescape(lastSeg)
+		if decoded, err := url.PathUnescape(lastSeg); err == nil {
+			lastSeg = decoded
+		}
 	}
 	name := lastSeg
 
@@ -1039,7 +1041,9 @@ func ConvertComponentIdIntoFriendlyPathSearch(id string) (string, string) {
 				t = strings.ReplaceAll(t, "~1", "/")
 			}
 			if strings.ContainsRune(t, '%') {
-				t, _ = url.QueryUnescape(t)
+				if decoded, err := url.PathUnescape(t); err == nil {
+					t = decoded
+				}
 			}
 			// the transformed segment is bracket-wrapped: never empty, ends in ']'.
 			prevNonEmpty = true
-- 
2.43.0


From 2e19190c540a18152461debe81b0427c47b3e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:35 +0000
Subject: [PATCH 47/60] fix: pointers that contain the fragment separator are
 cut at the first one

---
 index/extract_refs_lookup.go   |  4 ++--
 index/extract_refs_ref.go      |  2 +-
 index/resolver_relatives.go    | 12 ++++++------
 index/rolodex_ref_extractor.go |  4 ++--
 index/utility_methods.go       |  8 ++++----
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/index/extract_refs_lookup.go b/index/extract_refs_lookup.go
index 288ef76..b80d972 100644
--- a/index/extract_refs_lookup.go
+++ b/index/extract_refs_lookup.go
@@ -198,8 +198,8 @@ func (index *SpecIndex) ExtractComponentsFromRefs(ctx context.Context, refs []*R
 
 func (index *SpecIndex) locateRef(ctx context.Context, ref *Reference) *Reference {
 	// match strings.Split len==2 semantics: exactly one "#/" with a non-empty file part.
-	refFile, refFragment, refCut := strings.Cut(ref.FullDefinition, "#/")
-	isExternalRef := refCut && refFile != "" && !strings.Contains(refFragment, "#/")
+	refFile, _, refCut := strings.Cut(ref.FullDefinition, "#/")
+	isExternalRef := refCut && refFile != ""
 	if isExternalRef {
 		index.refLock.Lock()
 	}
diff --git a/index/extract_refs_ref.go b/index/extract_refs_ref.go
index 2aeef7f..7d45856 100644
--- a/index/extract_refs_ref.go
+++ b/index/extract_refs_ref.go
@@ -199,7 +199,7 @@ func (index *SpecIndex) registerSchemaIDAt(node *yaml.Node, keyIndex int, seenPa
 }
 
 func (index *SpecIndex) resolveReferenceTarget(value string) (string, string) {
-	uri := strings.Split(value, "#/")
+	uri := strings.SplitN(value, "#/", 2)
 
 	var defRoot string
 	if strings.HasPrefix(index.specAbsolutePath, "http") {
diff --git a/index/resolver_relatives.go b/index/resolver_relatives.go
index 4fee92f..092d290 100644
--- a/index/resolver_relatives.go
+++ b/index/resolver_relatives.go
@@ -209,7 +209,7 @@ func isInsidePropertiesNode(parent *yaml.Node) bool {
 func (resolver *Resolver) buildRelativeLookupDefinitions(ref *Reference, value, currentBase string) (string, string) {
 	definition := value
 	fullDef := ""
-	exp := strings.Split(value, "#/")
+	exp := strings.SplitN(value, "#/", 2)
 	if len(exp) == 2 {
 		// Reference contains a fragment (e.g. "other.yaml#/components/schemas/Foo").
 		definition = fmt.Sprintf("#/%s", exp[1])
@@ -220,7 +220,7 @@ func (resolver *Resolver) buildRelativeLookupDefinitions(ref *Reference, value,
 				fullDef = value
 			} else if strings.HasPrefix(ref.FullDefinition, "http") {
 				// Relative file path, but the parent ref is remote — resolve against the URL.
-				httpExp := strings.Split(ref.FullDefinition, "#/")
+				httpExp := strings.SplitN(ref.FullDefinition, "#/", 2)
 				u, _ := url.Parse(httpExp[0])
 				abs, _ := filepath.Abs(utils.CheckPathOverlap(path.Dir(u.Path), exp[0], string(filepath.Separator)))
 				u.Path = utils.ReplaceWindowsDriveWithLinuxPath(abs)
@@ -228,7 +228,7 @@ func (resolver *Resolver) buildRelativeLookupDefinitions(ref *Reference, value,
 				fullDef = fmt.Sprintf("%s#/%s", u.String(), exp[1])
 			} else {
 				// Relative file path with a local parent — resolve against the parent's directory.
-				fileDef := strings.Split(ref.FullDefinition, "#/")
+				fileDef := strings.SplitN(ref.FullDefinition, "#/", 2)
 				abs := resolver.resolveLocalRefPath(filepath.Dir(fileDef[0]), exp[0])
 				fullDef = fmt.Sprintf("%s#/%s", abs, exp[1])
 			}
@@ -239,11 +239,11 @@ func (resolver *Resolver) buildRelativeLookupDefinitions(ref *Reference, value,
 				baseLocation = ref.RemoteLocation
 			}
 			if strings.HasPrefix(baseLocation, "http") {
-				httpExp := strings.Split(baseLocation, "#/")
+				httpExp := strings.SplitN(baseLocation, "#/", 2)
 				u, _ := url.Parse(httpExp[0])
 				fullDef = fmt.Sprintf("%s#/%s", u.String(), exp[1])
 			} else {
-				fileDef := strings.Split(baseLocation, "#/")
+				fileDef := strings.SplitN(baseLocation, "#/", 2)
 				fullDef = fmt.Sprintf("%s#/%s", fileDef[0], exp[1])
 			}
 		}
@@ -256,7 +256,7 @@ func (resolver *Resolver) buildRelativeLookupDefinitions(ref *Reference, value,
 		if ref.RemoteLocation != "" {
 			baseLocation = ref.RemoteLocation
 		}
-		fileDef := strings.Split(baseLocation, "#/")
+		fileDef := strings.SplitN(baseLocation, "#/", 2)
 		if strings.HasPrefix(fileDef[0], "http") {
 			u, _ := url.Parse(fileDef[0])
 			absPath, _ := filepath.Abs(utils.CheckPathOverlap(path.Dir(u.Path), exp[0], string(filepath.Separator)))
diff --git a/index/rolodex_ref_extractor.go b/index/rolodex_ref_extractor.go
index a11b97d..c946328 100644
--- a/index/rolodex_ref_extractor.go
+++ b/index/rolodex_ref_extractor.go
@@ -29,7 +29,7 @@ type ExtractedRef struct {
 func (r *ExtractedRef) GetFile() string {
 	switch r.Type {
 	case File, HTTP:
-		location := strings.Split(r.Location, "#/")
+		location := strings.SplitN(r.Location, "#/", 2)
 		return location[0]
 	default:
 		return r.Location
@@ -40,7 +40,7 @@ func (r *ExtractedRef) GetFile() string {
 func (r *ExtractedRef) GetReference() string {
 	switch r.Type {
 	case File, HTTP:
-		location := strings.Split(r.Location, "#/")
+		location := strings.SplitN(r.Location, "#/", 2)
 		return fmt.Sprintf("#/%s", location[1])
 	default:
 		return r.Location
diff --git a/index/utility_methods.go b/index/utility_methods.go
index 512db54..ed34c87 100644
--- a/index/utility_methods.go
+++ b/index/utility_methods.go
@@ -127,12 +127,12 @@ func extractRequiredReferenceProperties(fulldef string, requiredPropDefNode *yam
 	if strings.HasPrefix(refName, "http") || filepath.IsAbs(refName) {
 		defPath = refName
 	} else {
-		exp := strings.Split(fulldef, "#/")
+		exp := strings.SplitN(fulldef, "#/", 2)
 		if len(exp) == 2 {
 			if exp[0] != "" {
 				if strings.HasPrefix(exp[0], "http") {
 					u, _ := url.Parse(exp[0])
-					r := strings.Split(refName, "#/")
+					r := strings.SplitN(refName, "#/", 2)
 					if len(r) == 2 {
 						var abs string
 						if r[0] == "" {
@@ -152,7 +152,7 @@ func extractRequiredReferenceProperties(fulldef string, requiredPropDefNode *yam
 						defPath = u.String()
 					}
 				} else {
-					r := strings.Split(refName, "#/")
+					r := strings.SplitN(refName, "#/", 2)
 					if len(r) == 2 {
 						var abs string
 						if r[0] == "" {
@@ -177,7 +177,7 @@ func extractRequiredReferenceProperties(fulldef string, requiredPropDefNode *yam
 		} else {
 			if strings.HasPrefix(exp[0], "http") {
 				u, _ := url.Parse(exp[0])
-				r := strings.Split(refName, "#/")
+				r := strings.SplitN(refName, "#/", 2)
 				if len(r) == 2 {
 					abs, _ := filepath.Abs(utils.CheckPathOverlap(filepath.Dir(u.Path), r[0], string(os.PathSeparator)))
 					u.Path = utils.ReplaceWindowsDriveWithLinuxPath(abs)
-- 
2.43.0


From 3c5db040e5c9358c0952137a4bba9cb5fe5d4440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:35 +0000
Subject: [PATCH 48/60] fix: the resolver finds files relative to the base URL,
 and cycles spelled differently

---
 index/resolver_circular.go |  6 +++++-
 index/resolver_paths.go    | 34 ++++++++++++++++++++++++++--------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/index/resolver_circular.go b/index/resolver_circular.go
index 836f4f4..f05e9d2 100644
--- a/index/resolver_circular.go
+++ b/index/resolver_circular.go
@@ -5,7 +5,8 @@ package index
 
 func (resolver *Resolver) handleCircularJourneyRelative(ref, relative *Reference, journey []*Reference) bool {
 	for loopIndex, journeyRef := range journey {
-		if journeyRef.FullDefinition != relative.FullDefinition {
+		// the same object can be reached through references that spell its location differently.
+		if journeyRef.FullDefinition != relative.FullDefinition && (journeyRef.Node == nil || journeyRef.Node != relative.Node) {
 			continue
 		}
 
@@ -99,6 +100,9 @@ func (resolver *Resolver) isInfiniteCircularDependency(
 	}
 	for refDefinition := range ref.RequiredRefProperties {
 		r, _ := resolver.specIndex.SearchIndexForReference(refDefinition)
+		if r == nil {
+			continue // not resolvable, which is reported elsewhere.
+		}
 
 		// Direct loop back to the original starting reference — infinite cycle.
 		if initialRef != nil && initialRef.FullDefinition == r.FullDefinition {
diff --git a/index/resolver_paths.go b/index/resolver_paths.go
index dc7d49e..5ddd32a 100644
--- a/index/resolver_paths.go
+++ b/index/resolver_paths.go
@@ -15,7 +15,7 @@ import (
 
 func (resolver *Resolver) buildDefPath(ref *Reference, l string) string {
 	def := ""
-	exp := strings.Split(l, "#/")
+	exp := strings.SplitN(l, "#/", 2)
 	if len(exp) == 2 {
 		// Reference contains a fragment (e.g. "file.yaml#/components/schemas/Foo" or "#/definitions/Bar").
 		if exp[0] != "" {
@@ -25,7 +25,7 @@ func (resolver *Resolver) buildDefPath(ref *Reference, l string) string {
 					// Relative file path — resolve against the parent ref's location.
 					if strings.HasPrefix(ref.FullDefinition, "http") {
 						// Parent is a remote URL: resolve relative path against the URL's directory.
-						u, _ := url.Parse(ref.FullDefinition)
+						u := parseLocation(ref.FullDefinition)
 						p, _ := filepath.Abs(utils.CheckPathOverlap(path.Dir(u.Path), exp[0], string(filepath.Separator)))
 						u.Path = utils.ReplaceWindowsDriveWithLinuxPath(p)
 						def = l
@@ -34,13 +34,13 @@ func (resolver *Resolver) buildDefPath(ref *Reference, l string) string {
 						}
 					} else {
 						// Parent is a local file path: resolve relative to the parent's directory.
-						z := strings.Split(ref.FullDefinition, "#/")
+						z := strings.SplitN(ref.FullDefinition, "#/", 2)
 						if len(z) == 2 {
 							if len(z[0]) > 0 {
 								abs := resolver.resolveLocalRefPath(filepath.Dir(z[0]), exp[0])
 								def = abs + "#/" + exp[1]
 							} else {
-								abs, _ := filepath.Abs(exp[0])
+								abs := resolver.resolveLocalRefPath(".", exp[0])
 								def = abs + "#/" + exp[1]
 							}
 						} else {
@@ -58,7 +58,7 @@ func (resolver *Resolver) buildDefPath(ref *Reference, l string) string {
 			}
 		} else if strings.HasPrefix(ref.FullDefinition, "http") {
 			// Fragment-only ref (e.g. "#/components/schemas/Foo") with a remote parent.
-			u, _ := url.Parse(ref.FullDefinition)
+			u := parseLocation(ref.FullDefinition)
 			u.Fragment = ""
 			def = u.String() + "#/" + exp[1]
 		} else if strings.HasPrefix(ref.FullDefinition, "#/") {
@@ -66,7 +66,7 @@ func (resolver *Resolver) buildDefPath(ref *Reference, l string) string {
 			def = "#/" + exp[1]
 		} else {
 			// Fragment-only ref with a local file parent — prepend the file portion.
-			fdexp := strings.Split(ref.FullDefinition, "#/")
+			fdexp := strings.SplitN(ref.FullDefinition, "#/", 2)
 			def = fdexp[0] + "#/" + exp[1]
 		}
 	} else if strings.HasPrefix(l, "http") {
@@ -74,21 +74,39 @@ func (resolver *Resolver) buildDefPath(ref *Reference, l string) string {
 		def = l
 	} else if strings.HasPrefix(ref.FullDefinition, "http") {
 		// No fragment, relative path with a remote parent — resolve against the URL.
-		u, _ := url.Parse(ref.FullDefinition)
+		u := parseLocation(ref.FullDefinition)
 		abs, _ := filepath.Abs(utils.CheckPathOverlap(path.Dir(u.Path), l, string(filepath.Separator)))
 		u.Path = utils.ReplaceWindowsDriveWithLinuxPath(abs)
 		u.Fragment = ""
 		def = u.String()
 	} else {
 		// No fragment, local relative path — resolve against the parent's directory.
-		lookupRef := strings.Split(ref.FullDefinition, "#/")
+		lookupRef := strings.SplitN(ref.FullDefinition, "#/", 2)
 		def = resolver.resolveLocalRefPath(filepath.Dir(lookupRef[0]), l)
 	}
 
 	return def
 }
 
+// parseLocation parses the URL of the document a definition is in. The fragment is no part of it, it can hold characters
+// that a URL may not contain.
+func parseLocation(definition string) *url.URL {
+	location, _, _ := strings.Cut(definition, "#")
+	u, err := url.Parse(location)
+	if err != nil {
+		return &url.URL{Path: location}
+	}
+	return u
+}
+
 func (resolver *Resolver) resolveLocalRefPath(base, ref string) string {
+	if base == "." && resolver != nil && resolver.specIndex != nil && resolver.specIndex.config != nil &&
+		resolver.specIndex.config.BaseURL != nil && !filepath.IsAbs(ref) {
+		// the referring document has no location of its own, it is at the configured base URL.
+		u := *resolver.specIndex.config.BaseURL
+		u.Path = utils.ReplaceWindowsDriveWithLinuxPath(utils.CheckPathOverlap(u.Path, ref, string(filepath.Separator)))
+		return u.String()
+	}
 	if resolver != nil && resolver.specIndex != nil {
 		return resolver.specIndex.ResolveRelativeFilePath(base, ref)
 	}
-- 
2.43.0


From 40350608b54ef43df60bd47da640822e8bbef667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 49/60] fix: high-level schema cache: the key adds the target's
 position only where it differs from the holder's

---
 datamodel/high/base/schema_proxy.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/datamodel/high/base/schema_proxy.go b/datamodel/high/base/schema_proxy.go
index b340cc1..3f3b61b 100644
--- a/datamodel/high/base/schema_proxy.go
+++ b/datamodel/high/base/schema_proxy.go
@@ -412,6 +412,17 @@ func (sp *SchemaProxy) GetValueNode() *yaml.Node {
 	return nil
 }
 
+// cacheKey identifies the schema behind the proxy in the high-level cache of an index. The node the holder of the proxy
+// knows can be the reference, which may be part of another document than the index, so the position of the schema itself
+// is part of the key as well.
+func (sp *SchemaProxy) cacheKey(idx *index.SpecIndex) string {
+	key := buildCacheKey(idx.GetSpecAbsolutePath(), sp.schema.GetValueNode().Line, sp.schema.GetValueNode().Column)
+	if vn := sp.schema.Value.GetValueNode(); vn != nil && vn != sp.schema.GetValueNode() {
+		key = buildCacheKey(key, vn.Line, vn.Column)
+	}
+	return key
+}
+
 // Schema will create a new Schema instance using NewSchema from the low-level SchemaProxy backing this high-level one.
 // If there is a problem building the Schema, then this method will return nil. Use GetBuildError to gain access
 // to that building error.
@@ -444,10 +455,8 @@ func (sp *SchemaProxy) Schema() *Schema {
 	// check the high-level cache first.
 	idx := sp.schema.Value.GetIndex()
 	if idx != nil && sp.schema.Value != nil {
-		// the node of the schema itself is the key, it belongs to the document of the index. The node the holder of the
-		// proxy knows can be the reference, which may be part of another document.
-		if vn := sp.schema.Value.GetValueNode(); sp.schema.Value.IsReference() && sp.schema.Value.GetReferenceNode() != nil && vn != nil {
-			loc := buildCacheKey(idx.GetSpecAbsolutePath(), vn.Line, vn.Column)
+		if sp.schema.Value.IsReference() && sp.schema.Value.GetReferenceNode() != nil && sp.schema.GetValueNode() != nil {
+			loc := sp.cacheKey(idx)
 			if seen, ok := idx.GetHighCache().Load(loc); ok {
 				idx.HighCacheHit()
 				// cache locally to avoid recreating on repeated access
@@ -469,8 +478,8 @@ func (sp *SchemaProxy) Schema() *Schema {
 	cached := false
 	if idx != nil {
 		// only store the schema in the cache if is a reference!
-		if vn := sp.schema.Value.GetValueNode(); sp.IsReference() && sp.GetReferenceNode() != nil && vn != nil {
-			loc := buildCacheKey(idx.GetSpecAbsolutePath(), vn.Line, vn.Column)
+		if sp.IsReference() && sp.GetReferenceNode() != nil && sp.schema != nil && sp.schema.GetValueNode() != nil {
+			loc := sp.cacheKey(idx)
 
 			// caching is only performed on traditional $ref nodes with a reference and a value node, any 3.1 additional
 			// will not be cached as libopenapi does not yet support them.
-- 
2.43.0


From b47e26d244bd9191380a9c14236ead4dba67e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 50/60] fix: references into circular nodes are followed
 deeper, the circular error is kept when that yields nothing

---
 datamodel/low/extraction_functions.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datamodel/low/extraction_functions.go b/datamodel/low/extraction_functions.go
index d3b1e25..e237d2b 100644
--- a/datamodel/low/extraction_functions.go
+++ b/datamodel/low/extraction_functions.go
@@ -215,8 +215,12 @@ func locateRefNode(ctx context.Context, root *yaml.Node, idx *index.SpecIndex, d
 					// until we hit something that isn't a ref.
 					if jh, _, _ := utils.IsNodeRefValue(foundRef.Node); jh {
 						// if this node is circular, stop drop and roll.
+						// a chain that passes through a cycle ends as well, unless it consists of references only.
 						if foundRef.Node != root && depth <= 100 {
-							return locateRefNode(foundCtx, foundRef.Node, foundIndex, depth+1)
+							n, nIdx, nErr, nCtx := locateRefNode(foundCtx, foundRef.Node, foundIndex, depth+1)
+							if !IsCircular(foundRef.Node, foundIndex) || (n != nil && nErr == nil) {
+								return n, nIdx, nErr, nCtx
+							}
 						}
 
 						crr := GetCircularReferenceResult(foundRef.Node, foundIndex)
-- 
2.43.0


From 697ac8aa9bac29ed5b48b8f645df12ed68b575e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:51 +0000
Subject: [PATCH 51/60] fix: inline bundling: chains of references are followed
 to the end, percent signs in lifted names are escaped, unbuilt operations do
 not panic

---
 bundler/composer_functions.go |  6 ++++--
 datamodel/high/shared.go      | 11 ++++++++++-
 datamodel/low/v3/path_item.go |  2 ++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/bundler/composer_functions.go b/bundler/composer_functions.go
index 548d3f7..221489e 100644
--- a/bundler/composer_functions.go
+++ b/bundler/composer_functions.go
@@ -480,11 +480,13 @@ func remapIndex(idx *index.SpecIndex, processedNodes *orderedmap.Map[string, *pr
 }
 
 // encodeJSONPointerSegment encodes a string for use in a JSON Pointer per RFC 6901.
-// The escape sequence is: ~ -> ~0, / -> ~1 (order matters: ~ must be escaped first).
+// The escape sequence is: ~ -> ~0, / -> ~1 (order matters: ~ must be escaped first). The pointer is used as a URI
+// fragment, in which a percent sign introduces an escape, so it is escaped itself.
 func encodeJSONPointerSegment(s string) string {
-	if !strings.ContainsAny(s, "~/") {
+	if !strings.ContainsAny(s, "~/%") {
 		return s
 	}
+	s = strings.ReplaceAll(s, "%", "%25")
 	s = strings.ReplaceAll(s, "~", "~0")
 	s = strings.ReplaceAll(s, "/", "~1")
 	return s
diff --git a/datamodel/high/shared.go b/datamodel/high/shared.go
index 8fca606..f2a86ec 100644
--- a/datamodel/high/shared.go
+++ b/datamodel/high/shared.go
@@ -159,8 +159,17 @@ func ResolveExternalRef[H any, L any](
 		return result, nil
 	}
 
+	// the reference may lead to another reference, follow them to the object at the end
+	node, nodeIdx := resolved.Node, resolved.Index
+	if isRef, _, _ := utils.IsNodeRefValue(node); isRef && nodeIdx != nil {
+		ctx := context.WithValue(context.Background(), index.CurrentPathKey, nodeIdx.GetSpecAbsolutePath())
+		if end, endIdx, _, _ := low.LocateRefNodeWithContext(ctx, node, nodeIdx); end != nil {
+			node, nodeIdx = end, endIdx
+		}
+	}
+
 	// build the low-level object from the resolved node
-	lowResolved, err := buildLow(resolved.Node, resolved.Index)
+	lowResolved, err := buildLow(node, nodeIdx)
 	if err != nil {
 		return result, fmt.Errorf("failed to build resolved external reference '%s': %w", ref, err)
 	}
diff --git a/datamodel/low/v3/path_item.go b/datamodel/low/v3/path_item.go
index c2bc9ae..809702f 100644
--- a/datamodel/low/v3/path_item.go
+++ b/datamodel/low/v3/path_item.go
@@ -304,6 +304,7 @@ func (p *PathItem) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 			return err
 		}
 		var op Operation
+		op.Reference = &op.reference // the build of the operation may be cut short by an error of another one
 		if err := low.BuildModel(pathNode, &op); err != nil {
 			return err
 		}
@@ -363,6 +364,7 @@ func (p *PathItem) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 						return err
 					}
 					var addOp Operation
+					addOp.Reference = &addOp.reference
 					if err := low.BuildModel(opValueNode, &addOp); err != nil {
 						return err
 					}
-- 
2.43.0


From 10866ca91c2bd4538df1edf49fb552b9e08581df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:29 +0000
Subject: [PATCH 52/60] fix: composed bundling: references are rewritten once,
 the same target lifted in two contexts, components used as aliases, contexts
 of response headers and list items; indexes are kept in the order of their
 locations

---
 bundler/bundler.go            | 37 ++++++++++++++++++--------
 bundler/bundler_composer.go   | 29 +++++++++++++++++++++
 bundler/composer_functions.go | 49 ++++++++++++++++++++++++++++++++---
 bundler/source_context.go     | 12 +++++++--
 index/rolodex.go              | 34 +++++++++++++++---------
 5 files changed, 132 insertions(+), 29 deletions(-)

diff --git a/bundler/bundler.go b/bundler/bundler.go
index 8bdadc5..ceab945 100644
--- a/bundler/bundler.go
+++ b/bundler/bundler.go
@@ -557,24 +557,28 @@ func composeWithOrigins(model *v3.Document, compositionConfig *BundleComposition
 		return 0
 	})
 
+	// Remapping gives the refs new definitions, what is inlined is found by the original ones.
+	refsByDefinition := sequencedRefsByFullDefinition(rolodex)
+
 	// Remap indexed refs.
-	remapIndex(rootIndex, processedNodes)
+	rewritten := make(map[rewriteVisitKey]struct{})
+	remapIndexRefs(rootIndex, processedNodes, rootIndex.GetSpecAbsolutePath(), rewritten)
 
 	for _, idx := range indexes {
-		remapIndex(idx, processedNodes)
+		remapIndexRefs(idx, processedNodes, rootIndex.GetSpecAbsolutePath(), rewritten)
 	}
 
 	// Update discriminator mapping values after component names are final.
 	updateDiscriminatorMappingsComposed(discriminatorMappings, processedNodes, rolodex)
 
 	// Inline anything that could not be recomposed.
-	inlinedPaths := inlineRequiredRefs(cf.inlineRequired, rolodex)
+	inlinedPaths := inlineRequired(cf.inlineRequired, refsByDefinition)
 
 	// Rewrite any remaining unindexed refs after mapping resolution loads new indexes.
 	allLoadedIndexes := rolodex.GetIndexes()
-	rewriteAllRefs(rootIndex, processedNodes, rolodex)
+	rewriteAllRefs(rootIndex, processedNodes, rolodex, rewritten)
 	for _, idx := range allLoadedIndexes {
-		rewriteAllRefs(idx, processedNodes, rolodex)
+		rewriteAllRefs(idx, processedNodes, rolodex, rewritten)
 	}
 
 	rewriteInlinedAbsoluteRefs(rolodex, allLoadedIndexes, inlinedPaths)
@@ -668,24 +672,28 @@ func compose(model *v3.Document, compositionConfig *BundleCompositionConfig) ([]
 		return 0
 	})
 
+	// Remapping gives the refs new definitions, what is inlined is found by the original ones.
+	refsByDefinition := sequencedRefsByFullDefinition(rolodex)
+
 	// Remap indexed refs.
-	remapIndex(rootIndex, processedNodes)
+	rewritten := make(map[rewriteVisitKey]struct{})
+	remapIndexRefs(rootIndex, processedNodes, rootIndex.GetSpecAbsolutePath(), rewritten)
 
 	for _, idx := range indexes {
-		remapIndex(idx, processedNodes)
+		remapIndexRefs(idx, processedNodes, rootIndex.GetSpecAbsolutePath(), rewritten)
 	}
 
 	// Update discriminator mapping values after component names are final.
 	updateDiscriminatorMappingsComposed(discriminatorMappings, processedNodes, rolodex)
 
 	// Inline anything that could not be recomposed.
-	inlinedPaths := inlineRequiredRefs(cf.inlineRequired, rolodex)
+	inlinedPaths := inlineRequired(cf.inlineRequired, refsByDefinition)
 
 	// Rewrite any remaining unindexed refs after mapping resolution loads new indexes.
 	allLoadedIndexes := rolodex.GetIndexes()
-	rewriteAllRefs(rootIndex, processedNodes, rolodex)
+	rewriteAllRefs(rootIndex, processedNodes, rolodex, rewritten)
 	for _, idx := range allLoadedIndexes {
-		rewriteAllRefs(idx, processedNodes, rolodex)
+		rewriteAllRefs(idx, processedNodes, rolodex, rewritten)
 	}
 
 	rewriteInlinedAbsoluteRefs(rolodex, allLoadedIndexes, inlinedPaths)
@@ -732,12 +740,19 @@ func rewriteInlinedAbsoluteRefs(rolodex *index.Rolodex, indexes []*index.SpecInd
 
 // inlineRequiredRefs inlines refs that cannot be represented as root components.
 func inlineRequiredRefs(required []*processRef, rolodex *index.Rolodex) map[string]*yaml.Node {
+	if len(required) == 0 {
+		return make(map[string]*yaml.Node)
+	}
+	return inlineRequired(required, sequencedRefsByFullDefinition(rolodex))
+}
+
+// inlineRequired inlines refs at every place of the supplied references that leads to them.
+func inlineRequired(required []*processRef, refsByDefinition map[string][]*index.Reference) map[string]*yaml.Node {
 	inlinedPaths := make(map[string]*yaml.Node)
 	if len(required) == 0 {
 		return inlinedPaths
 	}
 
-	refsByDefinition := sequencedRefsByFullDefinition(rolodex)
 	for _, pr := range required {
 		inlinedNode := inlineProcessRef(pr)
 		if inlinedNode == nil {
diff --git a/bundler/bundler_composer.go b/bundler/bundler_composer.go
index 5e1d11d..8c6f0c3 100644
--- a/bundler/bundler_composer.go
+++ b/bundler/bundler_composer.go
@@ -53,6 +53,26 @@ type handleIndexConfig struct {
 	compositionConfig     *BundleCompositionConfig
 	discriminatorMappings []*discriminatorMappingWithContext // mapping nodes with source context
 	origins               ComponentOriginMap                 // component origins for navigation
+	composed              map[string]*processRef             // what has been composed from where, and as what
+}
+
+// composedBefore reports whether the target of a reference has been composed as a component of the same type already,
+// through a reference in another context. The reference then shares that component.
+func (c *handleIndexConfig) composedBefore(pr *processRef, componentType string) bool {
+	key := pr.ref.FullDefinition + contextualRefKeySeparator + componentType
+	if prev := c.composed[key]; prev != nil {
+		if prev == pr || len(prev.location) < 3 {
+			return false
+		}
+		pr.location, pr.name = prev.location, prev.name
+		pr.originalName, pr.wasRenamed = prev.originalName, prev.wasRenamed
+		return true
+	}
+	if c.composed == nil {
+		c.composed = make(map[string]*processRef)
+	}
+	c.composed[key] = pr
+	return false
 }
 
 // handleIndex will recursively explore the indexes and their references, building a map of references
@@ -200,8 +220,14 @@ func processReference(model *v3.Document, pr *processRef, cf *handleIndexConfig)
 		pr.ref.FullDefinition = pr.seqRef.FullDefinition
 		if importType, ok := inferComponentTypeFromSourcePath(pr.seqRef.SourcePath); ok &&
 			canComposeContextualReference(importType, pr.ref.Node, true) {
+			if cf.composedBefore(pr, importType) {
+				return nil
+			}
 			_, location = fileImportLocationForType(importType, components, pr, cf)
 		} else if importType, ok := DetectOpenAPIComponentType(pr.ref.Node); ok {
+			if cf.composedBefore(pr, importType) {
+				return nil
+			}
 			_, location = fileImportLocationForType(importType, components, pr, cf)
 		} else {
 			// the only choice we can make here to be accurate is to inline instead of recompose.
@@ -271,6 +297,9 @@ func processReference(model *v3.Document, pr *processRef, cf *handleIndexConfig)
 					importType, ok = DetectOpenAPIComponentType(pr.ref.Node)
 				}
 				if ok {
+					if cf.composedBefore(pr, importType) {
+						return nil
+					}
 					pr.name = componentName
 					pr.location = []string{v3low.ComponentsLabel, importType, pr.name}
 					if handled, err := composeReferenceAs(importType, componentName, components, pr, idx, cf); handled || err != nil {
diff --git a/bundler/composer_functions.go b/bundler/composer_functions.go
index 221489e..eda502c 100644
--- a/bundler/composer_functions.go
+++ b/bundler/composer_functions.go
@@ -443,6 +443,16 @@ func checkForCollision[T any](schemaName, delimiter string, pr *processRef, comp
 }
 
 func remapIndex(idx *index.SpecIndex, processedNodes *orderedmap.Map[string, *processRef]) {
+	remapIndexRefs(idx, processedNodes, "", make(map[rewriteVisitKey]struct{}))
+}
+
+// remapIndexRefs is remapIndex, and notes the $ref value nodes that hold their final value in done.
+func remapIndexRefs(
+	idx *index.SpecIndex,
+	processedNodes *orderedmap.Map[string, *processRef],
+	rootPath string,
+	done map[rewriteVisitKey]struct{},
+) {
 	seq := idx.GetRawReferencesSequenced()
 
 	// Track $ref value nodes rewritten by the first loop to prevent
@@ -458,7 +468,7 @@ func remapIndex(idx *index.SpecIndex, processedNodes *orderedmap.Map[string, *pr
 		if refValNode := utils.GetRefValueNode(sequenced.Node); refValNode != nil {
 			rewiredRefNodes[refValNode] = struct{}{}
 		}
-		rewireRef(idx, sequenced, sequenced.FullDefinition, processedNodes)
+		rewireRef(idx, sequenced, sequenced.FullDefinition, processedNodes, rootPath, done)
 	}
 
 	mapped := idx.GetMappedReferences()
@@ -469,11 +479,15 @@ func remapIndex(idx *index.SpecIndex, processedNodes *orderedmap.Map[string, *pr
 		}
 		if refValNode := utils.GetRefValueNode(mRef.Node); refValNode != nil {
 			if _, ok := rewiredRefNodes[refValNode]; ok {
+				// the rewritten value is looked up when the schema around it is rendered
+				if renamed := renameRefWithSource(idx, mRef.FullDefinition, mRef, processedNodes); mapped[renamed] == nil {
+					mapped[renamed] = mRef
+				}
 				continue
 			}
 		}
 		origDef := mRef.FullDefinition
-		rewireRef(idx, mRef, mRef.FullDefinition, processedNodes)
+		rewireRef(idx, mRef, mRef.FullDefinition, processedNodes, rootPath, done)
 		mapped[mRef.FullDefinition] = mRef
 		mapped[origDef] = mRef
 	}
@@ -555,8 +569,27 @@ func renameRefWithSource(
 	return def
 }
 
-func rewireRef(idx *index.SpecIndex, ref *index.Reference, fullDef string, processedNodes *orderedmap.Map[string, *processRef]) {
+func rewireRef(
+	idx *index.SpecIndex,
+	ref *index.Reference,
+	fullDef string,
+	processedNodes *orderedmap.Map[string, *processRef],
+	rootPath string,
+	done map[rewriteVisitKey]struct{},
+) {
 	isRef, _, _ := utils.IsNodeRefValue(ref.Node)
+	refValNode := utils.GetRefValueNode(ref.Node)
+	if isRef && refValNode != nil {
+		// several references may share a node, the value the first one gave it is not a definition of this file
+		key := rewriteVisitKey{node: refValNode}
+		if _, ok := done[key]; ok {
+			return
+		}
+		toRoot := rootPath != "" && strings.HasPrefix(fullDef, rootPath+"#/")
+		if pr := processedRefFor(processedNodes, fullDef, ref); toRoot || pr != nil {
+			done[key] = struct{}{}
+		}
+	}
 
 	// extract the pr from the processed nodes.
 	if pr := processedRefFor(processedNodes, fullDef, ref); pr != nil {
@@ -730,8 +763,13 @@ func rewriteAllRefs(
 	idx *index.SpecIndex,
 	processedNodes *orderedmap.Map[string, *processRef],
 	rolodex *index.Rolodex,
+	done map[rewriteVisitKey]struct{},
 ) {
-	walkAndRewriteRefs(idx.GetRootNode(), idx, processedNodes, rolodex, false, make(map[rewriteVisitKey]struct{}))
+	visited := make(map[rewriteVisitKey]struct{}, len(done))
+	for key := range done {
+		visited[key] = struct{}{}
+	}
+	walkAndRewriteRefs(idx.GetRootNode(), idx, processedNodes, rolodex, false, visited)
 }
 
 func walkAndRewriteRefs(
@@ -779,6 +817,9 @@ func walkAndRewriteRefs(
 			childInExtension := inExtension || strings.HasPrefix(keyNode.Value, "x-")
 
 			if keyNode.Value == "$ref" && valueNode.Kind == yaml.ScalarNode && !inExtension {
+				if _, ok := visited[rewriteVisitKey{node: valueNode}]; ok {
+					continue // the value has been rewritten already, it is no longer relative to this file
+				}
 				newRef := resolveRefToComposed(valueNode.Value, sourceIdx, processedNodes, rolodex)
 				if newRef != valueNode.Value {
 					valueNode.Value = newRef
diff --git a/bundler/source_context.go b/bundler/source_context.go
index 5b75c1a..9156ea3 100644
--- a/bundler/source_context.go
+++ b/bundler/source_context.go
@@ -59,6 +59,11 @@ func inferComponentTypeFromSourcePath(sourcePath []string) (string, bool) {
 			return v3.SecuritySchemesLabel, true
 		}
 
+		// an entry of a list of parameters, the path holds no positions of list entries
+		if segment == v3.ParametersLabel && i == len(sourcePath)-1 {
+			return v3.ParametersLabel, true
+		}
+
 		if segment == v3.RequestBodyLabel {
 			return v3.RequestBodiesLabel, true
 		}
@@ -98,7 +103,9 @@ func canComposeContextualReference(componentType string, node *yaml.Node, bareFi
 		}
 		// Media Type and Header objects both use schema/content-shaped fields.
 		// In a media type slot, the source path breaks that tie.
-		if componentType != v3.MediaTypesLabel {
+		// A header and a response may both hold no more than a description and content.
+		headerLikeResponse := componentType == v3.HeadersLabel && detectedType == v3.ResponsesLabel
+		if componentType != v3.MediaTypesLabel && !headerLikeResponse {
 			return false
 		}
 	}
@@ -189,7 +196,8 @@ func isSchemaSourceSegment(sourcePath []string, index int) bool {
 
 	switch segment {
 	case "schema", "items", "additionalProperties", "unevaluatedItems", "unevaluatedProperties",
-		"contains", "not", "if", "then", "else", "propertyNames":
+		"contains", "not", "if", "then", "else", "propertyNames",
+		"allOf", "anyOf", "oneOf", "prefixItems": // the path holds no positions of list entries
 		return true
 	}
 
diff --git a/index/rolodex.go b/index/rolodex.go
index 94c8a9a..2a23861 100644
--- a/index/rolodex.go
+++ b/index/rolodex.go
@@ -236,16 +236,14 @@ func (r *Rolodex) GetIgnoredCircularReferences() []*CircularReferenceResult {
 	if len(r.ignoredCircularReferences) == 0 {
 		return nil
 	}
-	debounced := make(map[string]*CircularReferenceResult)
+	debounced := make(map[string]struct{})
+	debouncedResults := make([]*CircularReferenceResult, 0, len(r.ignoredCircularReferences))
 	for _, c := range r.ignoredCircularReferences {
 		if _, ok := debounced[c.LoopPoint.FullDefinition]; !ok {
-			debounced[c.LoopPoint.FullDefinition] = c
+			debounced[c.LoopPoint.FullDefinition] = struct{}{}
+			debouncedResults = append(debouncedResults, c)
 		}
 	}
-	debouncedResults := make([]*CircularReferenceResult, 0, len(debounced))
-	for _, v := range debounced {
-		debouncedResults = append(debouncedResults, v)
-	}
 	r.debouncedIgnoredCircRefs = debouncedResults
 	return debouncedResults
 }
@@ -280,16 +278,14 @@ func (r *Rolodex) GetSafeCircularReferences() []*CircularReferenceResult {
 		}
 	}
 
-	debounced := make(map[string]*CircularReferenceResult)
+	debounced := make(map[string]struct{})
+	debouncedResults := make([]*CircularReferenceResult, 0, len(r.safeCircularReferences))
 	for _, c := range r.safeCircularReferences {
 		if _, ok := debounced[c.LoopPoint.FullDefinition]; !ok {
-			debounced[c.LoopPoint.FullDefinition] = c
+			debounced[c.LoopPoint.FullDefinition] = struct{}{}
+			debouncedResults = append(debouncedResults, c)
 		}
 	}
-	debouncedResults := make([]*CircularReferenceResult, 0, len(debounced))
-	for _, v := range debounced {
-		debouncedResults = append(debouncedResults, v)
-	}
 	r.debouncedSafeCircRefs = debouncedResults
 	return debouncedResults
 }
@@ -377,6 +373,18 @@ func (r *Rolodex) AddIndex(idx *SpecIndex) {
 	}
 }
 
+// sortIndexes puts the indexes in the order of their locations: files that are loaded on demand are added
+// in whatever order they happen to be completed.
+func (r *Rolodex) sortIndexes() {
+	r.indexLock.Lock()
+	defer r.indexLock.Unlock()
+	sorted := append([]*SpecIndex(nil), r.indexes...)
+	sort.SliceStable(sorted, func(i, j int) bool {
+		return sorted[i].specAbsolutePath < sorted[j].specAbsolutePath
+	})
+	r.indexes = sorted
+}
+
 // AddRemoteFS adds a remote file system to the rolodex.
 func (r *Rolodex) AddRemoteFS(baseURL string, fileSystem fs.FS) {
 	if f, ok := fileSystem.(*RemoteFS); ok {
@@ -581,6 +589,7 @@ func (r *Rolodex) IndexTheRolodex(ctx context.Context) error {
 		r.rootIndex = index
 		r.logger.Debug("[rolodex] starting root index build")
 		index.BuildIndex()
+		r.sortIndexes()
 		r.logger.Debug("[rolodex] root index build completed")
 
 		if !r.indexConfig.AvoidCircularReferenceCheck {
@@ -605,6 +614,7 @@ func (r *Rolodex) IndexTheRolodex(ctx context.Context) error {
 			caughtErrors = append(caughtErrors, index.refErrors...)
 		}
 	}
+	r.sortIndexes()
 	r.indexingDuration = time.Since(started)
 	r.indexed = true
 	r.caughtErrors = caughtErrors
-- 
2.43.0


From cf21243517047c288e80f25a8e33985f94829b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:33 +0000
Subject: [PATCH 53/60] fix: files are loaded once, parsed once and failures
 stay with their location: opening again between lookup and reservation,
 waiters of failed fetches, one tree per file, references looked up during
 mutual indexing

---
 index/rolodex.go               | 57 +++++++++++++++++++++++++++++-----
 index/rolodex_file_loader.go   | 28 ++++++++++++++++-
 index/rolodex_remote_loader.go | 33 +++++++++++++++-----
 3 files changed, 101 insertions(+), 17 deletions(-)

diff --git a/index/rolodex.go b/index/rolodex.go
index 2a23861..f0ee5d0 100644
--- a/index/rolodex.go
+++ b/index/rolodex.go
@@ -373,9 +373,10 @@ func (r *Rolodex) AddIndex(idx *SpecIndex) {
 	}
 }
 
-// sortIndexes puts the indexes in the order of their locations: files that are loaded on demand are added
-// in whatever order they happen to be completed.
-func (r *Rolodex) sortIndexes() {
+// settleIndexes puts the indexes in the order of their locations: files that are loaded on demand are added
+// in whatever order they happen to be completed. References to whole files that were still being indexed when
+// they were looked up get the index of that file.
+func (r *Rolodex) settleIndexes() {
 	r.indexLock.Lock()
 	defer r.indexLock.Unlock()
 	sorted := append([]*SpecIndex(nil), r.indexes...)
@@ -383,6 +384,30 @@ func (r *Rolodex) sortIndexes() {
 		return sorted[i].specAbsolutePath < sorted[j].specAbsolutePath
 	})
 	r.indexes = sorted
+
+	byLocation := make(map[string]*SpecIndex, len(sorted))
+	for _, idx := range sorted {
+		if _, ok := byLocation[idx.specAbsolutePath]; !ok {
+			byLocation[idx.specAbsolutePath] = idx
+		}
+	}
+	settle := func(idx *SpecIndex) {
+		if idx == nil {
+			return
+		}
+		for _, mapped := range idx.GetMappedReferencesSequenced() {
+			if mapped == nil || mapped.Reference == nil || mapped.Reference.Path != "$" || !mapped.Reference.IsRemote {
+				continue
+			}
+			if target := byLocation[mapped.Reference.RemoteLocation]; target != nil {
+				mapped.Reference.Index = target
+			}
+		}
+	}
+	for _, idx := range sorted {
+		settle(idx)
+	}
+	settle(r.rootIndex)
 }
 
 // AddRemoteFS adds a remote file system to the rolodex.
@@ -589,7 +614,7 @@ func (r *Rolodex) IndexTheRolodex(ctx context.Context) error {
 		r.rootIndex = index
 		r.logger.Debug("[rolodex] starting root index build")
 		index.BuildIndex()
-		r.sortIndexes()
+		r.settleIndexes()
 		r.logger.Debug("[rolodex] root index build completed")
 
 		if !r.indexConfig.AvoidCircularReferenceCheck {
@@ -614,7 +639,7 @@ func (r *Rolodex) IndexTheRolodex(ctx context.Context) error {
 			caughtErrors = append(caughtErrors, index.refErrors...)
 		}
 	}
-	r.sortIndexes()
+	r.settleIndexes()
 	r.indexingDuration = time.Since(started)
 	r.indexed = true
 	r.caughtErrors = caughtErrors
@@ -785,6 +810,11 @@ func (r *Rolodex) OpenWithContext(ctx context.Context, location string) (Rolodex
 					"AllowRemoteLookup to true", fileLookup,
 			)
 		}
+		if len(r.remoteFS) <= 0 {
+			return nil, fmt.Errorf(
+				"the rolodex has no remote file systems configured, cannot open remote file '%s'", location,
+			)
+		}
 		remoteFile, errs := r.openRemoteLocation(ctx, fileLookup)
 		errorStack = append(errorStack, errs...)
 		if remoteFile != nil {
@@ -797,7 +827,13 @@ func (r *Rolodex) OpenWithContext(ctx context.Context, location string) (Rolodex
 
 func (r *Rolodex) openLocalLocation(ctx context.Context, location string) (*LocalFile, []error) {
 	var errorStack []error
-	for baseDir, fileSystem := range r.localFS {
+	baseDirs := make([]string, 0, len(r.localFS))
+	for baseDir := range r.localFS {
+		baseDirs = append(baseDirs, baseDir)
+	}
+	sort.Strings(baseDirs)
+	for _, baseDir := range baseDirs {
+		fileSystem := r.localFS[baseDir]
 		fileLookup := location
 		if !filepath.IsAbs(location) {
 			fileLookup, _ = filepath.Abs(utils.CheckPathOverlap(baseDir, location, string(os.PathSeparator)))
@@ -886,8 +922,13 @@ func wrapExistingRolodexFile(file RolodexFile) (*LocalFile, []error) {
 
 func (r *Rolodex) openRemoteLocation(ctx context.Context, location string) (*RemoteFile, []error) {
 	var errorStack []error
-	for _, fileSystem := range r.remoteFS {
-		file, err := openFile(ctx, location, fileSystem)
+	baseURLs := make([]string, 0, len(r.remoteFS))
+	for baseURL := range r.remoteFS {
+		baseURLs = append(baseURLs, baseURL)
+	}
+	sort.Strings(baseURLs)
+	for _, baseURL := range baseURLs {
+		file, err := openFile(ctx, location, r.remoteFS[baseURL])
 		if err != nil {
 			r.logger.Warn("[rolodex] errors opening remote file", "location", location, "error", err)
 			errorStack = append(errorStack, err)
diff --git a/index/rolodex_file_loader.go b/index/rolodex_file_loader.go
index 3a2547e..29bb640 100644
--- a/index/rolodex_file_loader.go
+++ b/index/rolodex_file_loader.go
@@ -113,15 +113,30 @@ func (l *LocalFS) OpenWithContext(ctx context.Context, name string) (fs.File, er
 			e := wait.error
 			l.logger.Debug("[rolodex file loader]: waiting done, OS load completed, returning file", "file", name, "listeners", wait.listeners)
 			wait.mu.Unlock()
+			if f == nil {
+				return nil, e
+			}
 			return f, e
 		}
 
+		// another opener may have completed between the lookup above and the reservation.
+		if f, ok := l.Files.Load(name); ok {
+			processingWaiter.file = f.(*LocalFile)
+			processingWaiter.done = true
+			l.processingFiles.Delete(name)
+			processingWaiter.mu.Unlock()
+			return f.(*LocalFile), nil
+		}
+
 		// We successfully stored our waiter, so we're responsible for processing this file
 
 		var extractedFile *LocalFile
 		var extErr error
 		l.logger.Debug("[rolodex file loader]: extracting file from OS", "file", name)
 		extractedFile, extErr = l.extractFile(name)
+		if extErr == nil && extractedFile == nil {
+			extErr = &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid} // not a type of file that can be read
+		}
 
 		if extErr != nil {
 			processingWaiter.error = extErr
@@ -254,6 +269,14 @@ func (l *LocalFile) IndexWithContext(ctx context.Context, config *SpecIndexConfi
 		if config.SpecInfo == nil {
 			config.SpecInfo = info
 		}
+		// files that refer to each other may have asked for the content before, there must be one tree only.
+		l.parseMutex.Lock()
+		if l.parsed == nil {
+			l.parsed = info.RootNode
+		} else if info.RootNode != nil {
+			info.RootNode = l.parsed
+		}
+		l.parseMutex.Unlock()
 		index := NewSpecIndexWithConfigAndContext(ctx, info.RootNode, config)
 		index.specAbsolutePath = l.fullPath
 		l.index.Store(index)
@@ -515,7 +538,10 @@ func (l *LocalFS) extractFile(p string) (*LocalFile, error) {
 		if stat != nil {
 			modTime = stat.ModTime()
 		}
-		fileData, _ = io.ReadAll(file)
+		var readError error
+		if fileData, readError = io.ReadAll(file); readError != nil {
+			return nil, readError
+		}
 
 		lf := &LocalFile{
 			filename:         p,
diff --git a/index/rolodex_remote_loader.go b/index/rolodex_remote_loader.go
index 3a81f23..ac364b7 100644
--- a/index/rolodex_remote_loader.go
+++ b/index/rolodex_remote_loader.go
@@ -411,6 +411,14 @@ func (f *RemoteFile) Index(ctx context.Context, config *SpecIndexConfig) (*SpecI
 		if config.SpecInfo == nil {
 			config.SpecInfo = info
 		}
+		// files that refer to each other may have asked for the content before, there must be one tree only.
+		f.contentLock.Lock()
+		if f.parsed == nil {
+			f.parsed = info.RootNode
+		} else if info.RootNode != nil {
+			info.RootNode = f.parsed
+		}
+		f.contentLock.Unlock()
 		index := NewSpecIndexWithConfigAndContext(ctx, info.RootNode, config)
 		index.specAbsolutePath = config.SpecAbsolutePath
 
@@ -585,6 +593,12 @@ func (i *RemoteFS) OpenWithContext(ctx context.Context, remoteURL string) (fs.Fi
 		return inFlightFile, inFlightErr
 	}
 
+	// another opener may have completed between the cache lookup and the reservation.
+	if cached := i.loadCachedRemoteFile(cacheKey, remoteParsedURL.Path); cached != nil {
+		i.releaseRemoteProcessingWaiter(processingWaiter, cacheKey, cached, nil)
+		return cached, nil
+	}
+
 	if remoteParsedURL.Scheme == "" {
 		i.releaseRemoteProcessingWaiter(processingWaiter, cacheKey, nil, nil)
 		return nil, nil // not a remote file — scheme is empty, skip processing.
@@ -595,7 +609,7 @@ func (i *RemoteFS) OpenWithContext(ctx context.Context, remoteURL string) (fs.Fi
 	response, clientErr := i.RemoteHandlerFunc(remoteParsedURL.String())
 	if clientErr != nil {
 		i.appendRemoteError(clientErr)
-		i.releaseRemoteProcessingWaiter(processingWaiter, cacheKey, nil, nil)
+		i.releaseRemoteProcessingWaiter(processingWaiter, cacheKey, nil, clientErr)
 		if response != nil && response.Body != nil {
 			_ = response.Body.Close()
 		}
@@ -607,8 +621,9 @@ func (i *RemoteFS) OpenWithContext(ctx context.Context, remoteURL string) (fs.Fi
 		return nil, clientErr
 	}
 	if response == nil {
-		i.releaseRemoteProcessingWaiter(processingWaiter, cacheKey, nil, nil)
-		return nil, fmt.Errorf("empty response from remote URL: %s", remoteParsedURL.String())
+		emptyErr := fmt.Errorf("empty response from remote URL: %s", remoteParsedURL.String())
+		i.releaseRemoteProcessingWaiter(processingWaiter, cacheKey, nil, emptyErr)
+		return nil, emptyErr
 	}
 	defer func() {
 		if response.Body != nil {
@@ -641,9 +656,7 @@ func (i *RemoteFS) OpenWithContext(ctx context.Context, remoteURL string) (fs.Fi
 	i.Files.Store(cacheKey, remoteFile)
 	i.releaseRemoteProcessingWaiter(processingWaiter, cacheKey, remoteFile, nil)
 
-	i.indexRemoteFile(ctx, remoteFile, copiedCfg, remoteParsedURL, remoteParsedURLOriginal)
-
-	return remoteFile, errors.Join(i.remoteErrors...)
+	return remoteFile, i.indexRemoteFile(ctx, remoteFile, copiedCfg, remoteParsedURL, remoteParsedURLOriginal)
 }
 
 func (i *RemoteFS) normalizeRemoteURL(remoteParsedURL *url.URL) {
@@ -741,6 +754,9 @@ func (i *RemoteFS) waitForRemoteProcessing(wait *waiterRemote, remoteURL string,
 		i.logger.Debug("[rolodex remote loader]: waiting done, remote completed, returning file", "file",
 			remoteParsedURL.String(), "listeners", wait.listeners)
 	}
+	if wait.file == nil {
+		return nil, wait.error
+	}
 	return wait.file, wait.error
 }
 
@@ -793,7 +809,7 @@ func (i *RemoteFS) indexRemoteFile(
 	remoteFile *RemoteFile,
 	copiedCfg *SpecIndexConfig,
 	remoteParsedURL, remoteParsedURLOriginal *url.URL,
-) {
+) error {
 	indexingCtx := AddIndexingFile(ctx, remoteParsedURL.Path)
 	indexingCtx = AddIndexingFile(indexingCtx, remoteParsedURL.String())
 	indexingCtx = AddIndexingFile(indexingCtx, remoteParsedURLOriginal.String())
@@ -802,7 +818,7 @@ func (i *RemoteFS) indexRemoteFile(
 	if idxError != nil && idx == nil {
 		i.appendRemoteError(idxError)
 		remoteFile.signalIndexingComplete()
-		return
+		return errors.Join(i.GetErrors()...)
 	}
 	NewResolver(idx)
 	idx.BuildIndex()
@@ -810,6 +826,7 @@ func (i *RemoteFS) indexRemoteFile(
 		i.rolodex.AddExternalIndex(idx, remoteParsedURL.String())
 	}
 	remoteFile.signalIndexingComplete()
+	return nil
 }
 
 // Open opens a file, returning it or an error. If the file is not found, the error is of type *PathError.
-- 
2.43.0


From 22ca1271b58e035c08bc7cdc6c19adf5d82b7e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:52 +0000
Subject: [PATCH 54/60] fix: what is built does not depend on the schedule:
 order of errors and late indexes, one reference per target, v2 definition
 errors, relative references are not looked up from other directories,
 component maps are guarded

---
 datamodel/low/v2/definitions.go     | 186 +++++++---------------------
 datamodel/low/v2/path_item.go       |  40 +++---
 datamodel/low/v2/swagger.go         |  17 ++-
 datamodel/low/v3/components.go      |  44 ++++---
 datamodel/low/v3/create_document.go |  15 +--
 index/extract_refs_lookup.go        |   8 +-
 index/find_component_direct.go      |  16 +--
 index/index_model.go                |   1 +
 index/rolodex.go                    |  18 ++-
 index/search_index.go               |  16 ++-
 index/search_rolodex.go             |   9 +-
 index/utility_methods.go            |  30 +++--
 12 files changed, 162 insertions(+), 238 deletions(-)

diff --git a/datamodel/low/v2/definitions.go b/datamodel/low/v2/definitions.go
index 453ade2..35ca434 100644
--- a/datamodel/low/v2/definitions.go
+++ b/datamodel/low/v2/definitions.go
@@ -167,60 +167,59 @@ func (d *Definitions) Hash() uint64 {
 }
 
 // Build will extract all ParameterDefinitions into Parameter instances.
-func (pd *ParameterDefinitions) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIndex) error {
-	errorChan := make(chan error, len(root.Content)/2)
-	resultChan := make(chan definitionResult[*Parameter], len(root.Content)/2)
-	var defLabel *yaml.Node
-	totalDefinitions := 0
-	buildFunc := func(label *yaml.Node, value *yaml.Node, idx *index.SpecIndex,
-		r chan definitionResult[*Parameter], e chan error,
-	) {
-		obj, err, _, rv := low.ExtractObjectRaw[*Parameter](ctx, label, value, idx)
-		if err != nil {
-			e <- err
-		}
+func (pd *ParameterDefinitions) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIndex) (err error) {
+	pd.Definitions, err = buildDefinitions[Parameter](ctx, root, idx)
+	return err
+}
 
-		v := low.ValueReference[*Parameter]{
-			Value:     obj,
-			ValueNode: value,
-		}
-		v.SetReference(rv, value)
+// Build will extract all ResponsesDefinitions into Response instances.
+func (r *ResponsesDefinitions) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIndex) (err error) {
+	r.Definitions, err = buildDefinitions[Response](ctx, root, idx)
+	return err
+}
 
-		r <- definitionResult[*Parameter]{k: label, v: v}
-	}
-	for i := range root.Content {
-		if i%2 == 0 {
-			defLabel = root.Content[i]
-			continue
-		}
-		totalDefinitions++
-		go buildFunc(defLabel, root.Content[i], idx, resultChan, errorChan)
-	}
+// Build will extract all SecurityDefinitions into SecurityScheme instances.
+func (s *SecurityDefinitions) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIndex) (err error) {
+	s.Definitions, err = buildDefinitions[SecurityScheme](ctx, root, idx)
+	return err
+}
 
-	completedDefs := 0
-	built := make(map[*yaml.Node]low.ValueReference[*Parameter], totalDefinitions)
-	for completedDefs < totalDefinitions {
-		select {
-		case err := <-errorChan:
-			return err
-		case sch := <-resultChan:
-			completedDefs++
-			built[sch.k] = sch.v
+// buildDefinitions builds every definition of a node at the same time. Results are in the order of the labels in the
+// document; if building fails, the error is that of the first definition that failed, whichever finishes first.
+func buildDefinitions[N any, T interface {
+	*N
+	low.Buildable[N]
+}](ctx context.Context, root *yaml.Node, idx *index.SpecIndex,
+) (*orderedmap.Map[low.KeyReference[string], low.ValueReference[T]], error) {
+	total := len(root.Content) / 2
+	built := make([]low.ValueReference[T], total)
+	failures := make([]error, total)
+	var wg sync.WaitGroup
+	wg.Add(total)
+	for i := 0; i < total; i++ {
+		go func(slot int, label, value *yaml.Node) {
+			defer wg.Done()
+			obj, err, _, rv := low.ExtractObjectRaw[T](ctx, label, value, idx)
+			if err != nil {
+				failures[slot] = err
+				return
+			}
+			built[slot] = low.ValueReference[T]{Value: obj, ValueNode: value}
+			built[slot].SetReference(rv, value)
+		}(i, root.Content[i*2], root.Content[i*2+1])
+	}
+	wg.Wait()
+	for _, err := range failures {
+		if err != nil {
+			return nil, err
 		}
 	}
-	pd.Definitions = inDocumentOrder(root, built)
-	return nil
-}
-
-// inDocumentOrder puts what was built for every label of a node in the order the labels have there.
-func inDocumentOrder[T any](root *yaml.Node, built map[*yaml.Node]low.ValueReference[T],
-) *orderedmap.Map[low.KeyReference[string], low.ValueReference[T]] {
 	results := orderedmap.New[low.KeyReference[string], low.ValueReference[T]]()
-	for i := 0; i+1 < len(root.Content); i += 2 {
-		label := root.Content[i]
-		results.Set(low.KeyReference[string]{Value: label.Value, KeyNode: label}, built[label])
+	for i, v := range built {
+		label := root.Content[i*2]
+		results.Set(low.KeyReference[string]{Value: label.Value, KeyNode: label}, v)
 	}
-	return results
+	return results, nil
 }
 
 // re-usable struct for holding results as k/v pairs.
@@ -228,96 +227,3 @@ type definitionResult[T any] struct {
 	k *yaml.Node
 	v low.ValueReference[T]
 }
-
-// Build will extract all ResponsesDefinitions into Response instances.
-func (r *ResponsesDefinitions) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIndex) error {
-	errorChan := make(chan error, len(root.Content)/2)
-	resultChan := make(chan definitionResult[*Response], len(root.Content)/2)
-	var defLabel *yaml.Node
-	totalDefinitions := 0
-	buildFunc := func(label *yaml.Node, value *yaml.Node, idx *index.SpecIndex,
-		r chan definitionResult[*Response], e chan error,
-	) {
-		obj, err, _, rv := low.ExtractObjectRaw[*Response](ctx, label, value, idx)
-		if err != nil {
-			e <- err
-		}
-
-		v := low.ValueReference[*Response]{
-			Value:     obj,
-			ValueNode: value,
-		}
-		v.SetReference(rv, value)
-
-		r <- definitionResult[*Response]{k: label, v: v}
-	}
-	for i := range root.Content {
-		if i%2 == 0 {
-			defLabel = root.Content[i]
-			continue
-		}
-		totalDefinitions++
-		go buildFunc(defLabel, root.Content[i], idx, resultChan, errorChan)
-	}
-
-	completedDefs := 0
-	built := make(map[*yaml.Node]low.ValueReference[*Response], totalDefinitions)
-	for completedDefs < totalDefinitions {
-		select {
-		case err := <-errorChan:
-			return err
-		case sch := <-resultChan:
-			completedDefs++
-			built[sch.k] = sch.v
-		}
-	}
-	r.Definitions = inDocumentOrder(root, built)
-	return nil
-}
-
-// Build will extract all SecurityDefinitions into SecurityScheme instances.
-func (s *SecurityDefinitions) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIndex) error {
-	errorChan := make(chan error, len(root.Content)/2)
-	resultChan := make(chan definitionResult[*SecurityScheme], len(root.Content)/2)
-	var defLabel *yaml.Node
-	totalDefinitions := 0
-
-	buildFunc := func(label *yaml.Node, value *yaml.Node, idx *index.SpecIndex,
-		r chan definitionResult[*SecurityScheme], e chan error,
-	) {
-		obj, err, _, rv := low.ExtractObjectRaw[*SecurityScheme](ctx, label, value, idx)
-		if err != nil {
-			e <- err
-		}
-
-		v := low.ValueReference[*SecurityScheme]{
-			Value: obj, ValueNode: value,
-		}
-		v.SetReference(rv, value)
-
-		r <- definitionResult[*SecurityScheme]{k: label, v: v}
-	}
-
-	for i := range root.Content {
-		if i%2 == 0 {
-			defLabel = root.Content[i]
-			continue
-		}
-		totalDefinitions++
-		go buildFunc(defLabel, root.Content[i], idx, resultChan, errorChan)
-	}
-
-	completedDefs := 0
-	built := make(map[*yaml.Node]low.ValueReference[*SecurityScheme], totalDefinitions)
-	for completedDefs < totalDefinitions {
-		select {
-		case err := <-errorChan:
-			return err
-		case sch := <-resultChan:
-			completedDefs++
-			built[sch.k] = sch.v
-		}
-	}
-	s.Definitions = inDocumentOrder(root, built)
-	return nil
-}
diff --git a/datamodel/low/v2/path_item.go b/datamodel/low/v2/path_item.go
index fd8f607..5e97457 100644
--- a/datamodel/low/v2/path_item.go
+++ b/datamodel/low/v2/path_item.go
@@ -8,6 +8,7 @@ import (
 	"hash/maphash"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/pb33f/libopenapi/datamodel/low"
 	"github.com/pb33f/libopenapi/index"
@@ -145,36 +146,23 @@ func (p *PathItem) Build(ctx context.Context, _, root *yaml.Node, idx *index.Spe
 
 	// all operations have been superficially built,
 	// now we need to build out the operation, we will do this asynchronously for speed.
-	opBuildChan := make(chan struct{})
-	opErrorChan := make(chan error)
-
-	buildOpFunc := func(op low.NodeReference[*Operation], ch chan<- struct{}, errCh chan<- error) {
-		er := op.Value.Build(ctx, op.KeyNode, op.ValueNode, idx)
-		if er != nil {
-			errCh <- er
-		}
-		ch <- struct{}{}
-	}
-
-	if len(ops) <= 0 {
-		return nil // nothing to do.
+	failures := make([]error, len(ops))
+	var wg sync.WaitGroup
+	wg.Add(len(ops))
+	for i, op := range ops {
+		go func(slot int, op low.NodeReference[*Operation]) {
+			defer wg.Done()
+			failures[slot] = op.Value.Build(ctx, op.KeyNode, op.ValueNode, idx)
+		}(i, op)
 	}
+	wg.Wait()
 
-	for _, op := range ops {
-		go buildOpFunc(op, opBuildChan, opErrorChan)
-	}
-
-	n := 0
-	total := len(ops)
-	for n < total {
-		select {
-		case buildError := <-opErrorChan:
-			return buildError
-		case <-opBuildChan:
-			n++
+	// report the first operation that failed, whichever finished first.
+	for _, err := range failures {
+		if err != nil {
+			return err
 		}
 	}
-
 	return nil
 }
 
diff --git a/datamodel/low/v2/swagger.go b/datamodel/low/v2/swagger.go
index 7e5211b..46f5e5f 100644
--- a/datamodel/low/v2/swagger.go
+++ b/datamodel/low/v2/swagger.go
@@ -260,18 +260,17 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 		extractTags,
 		extractSecurity,
 	}
-	doneChan := make(chan struct{})
-	errChan := make(chan error)
+	// every extraction reports to channels of its own, so errors are in the order of the extractions.
+	doneChans := make([]chan struct{}, len(extractionFuncs))
+	errChans := make([]chan error, len(extractionFuncs))
 	for i := range extractionFuncs {
-		go extractionFuncs[i](ctx, info.RootNode.Content[0], &doc, rolodex.GetRootIndex(), doneChan, errChan)
+		doneChans[i], errChans[i] = make(chan struct{}), make(chan error)
+		go extractionFuncs[i](ctx, info.RootNode.Content[0], &doc, rolodex.GetRootIndex(), doneChans[i], errChans[i])
 	}
-	completedExtractions := 0
-	for completedExtractions < len(extractionFuncs) {
+	for i := range extractionFuncs {
 		select {
-		case <-doneChan:
-			completedExtractions++
-		case e := <-errChan:
-			completedExtractions++
+		case <-doneChans[i]:
+		case e := <-errChans[i]:
 			errs = append(errs, e)
 		}
 	}
diff --git a/datamodel/low/v3/components.go b/datamodel/low/v3/components.go
index a785196..bd06105 100644
--- a/datamodel/low/v3/components.go
+++ b/datamodel/low/v3/components.go
@@ -193,88 +193,86 @@ func (co *Components) Build(ctx context.Context, root *yaml.Node, idx *index.Spe
 	co.index = idx
 	co.context = ctx
 
-	var reterr error
-	var ceMutex sync.Mutex
+	// every extraction records its failure in a slot of its own, so which failure is reported does not depend on
+	// which extraction happens to finish last.
+	var failures [11]error
 	var wg sync.WaitGroup
-	wg.Add(11)
-
-	captureError := func(err error) {
-		ceMutex.Lock()
-		defer ceMutex.Unlock()
-		if err != nil {
-			reterr = err
-		}
-	}
+	wg.Add(len(failures))
 
 	go func() {
 		schemas, err := extractComponentValues[*base.SchemaProxy](ctx, SchemasLabel, root, idx, co)
-		captureError(err)
+		failures[0] = err
 		co.Schemas = schemas
 		wg.Done()
 	}()
 	go func() {
 		parameters, err := extractComponentValues[*Parameter](ctx, ParametersLabel, root, idx, co)
-		captureError(err)
+		failures[1] = err
 		co.Parameters = parameters
 		wg.Done()
 	}()
 	go func() {
 		responses, err := extractComponentValues[*Response](ctx, ResponsesLabel, root, idx, co)
-		captureError(err)
+		failures[2] = err
 		co.Responses = responses
 		wg.Done()
 	}()
 	go func() {
 		examples, err := extractComponentValues[*base.Example](ctx, base.ExamplesLabel, root, idx, co)
-		captureError(err)
+		failures[3] = err
 		co.Examples = examples
 		wg.Done()
 	}()
 	go func() {
 		requestBodies, err := extractComponentValues[*RequestBody](ctx, RequestBodiesLabel, root, idx, co)
-		captureError(err)
+		failures[4] = err
 		co.RequestBodies = requestBodies
 		wg.Done()
 	}()
 	go func() {
 		headers, err := extractComponentValues[*Header](ctx, HeadersLabel, root, idx, co)
-		captureError(err)
+		failures[5] = err
 		co.Headers = headers
 		wg.Done()
 	}()
 	go func() {
 		securitySchemes, err := extractComponentValues[*SecurityScheme](ctx, SecuritySchemesLabel, root, idx, co)
-		captureError(err)
+		failures[6] = err
 		co.SecuritySchemes = securitySchemes
 		wg.Done()
 	}()
 	go func() {
 		links, err := extractComponentValues[*Link](ctx, LinksLabel, root, idx, co)
-		captureError(err)
+		failures[7] = err
 		co.Links = links
 		wg.Done()
 	}()
 	go func() {
 		callbacks, err := extractComponentValues[*Callback](ctx, CallbacksLabel, root, idx, co)
-		captureError(err)
+		failures[8] = err
 		co.Callbacks = callbacks
 		wg.Done()
 	}()
 	go func() {
 		pathItems, err := extractComponentValues[*PathItem](ctx, PathItemsLabel, root, idx, co)
-		captureError(err)
+		failures[9] = err
 		co.PathItems = pathItems
 		wg.Done()
 	}()
 	go func() {
 		mediaTypes, err := extractComponentValues[*MediaType](ctx, MediaTypesLabel, root, idx, co)
-		captureError(err)
+		failures[10] = err
 		co.MediaTypes = mediaTypes
 		wg.Done()
 	}()
 
 	wg.Wait()
-	return reterr
+	for _, err := range failures {
+		if err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // extractComponentValues converts all the YAML nodes of a component type to
diff --git a/datamodel/low/v3/create_document.go b/datamodel/low/v3/create_document.go
index aeb26ff..556d267 100644
--- a/datamodel/low/v3/create_document.go
+++ b/datamodel/low/v3/create_document.go
@@ -340,22 +340,19 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 	}
 
 	wg.Add(len(extractionFuncs))
-	var errsMu sync.Mutex
+	extractionErrs := make([]error, len(extractionFuncs)) // in the order of the functions, whichever finishes first.
 	if config.Logger != nil {
 		config.Logger.Debug("running extractions")
 	}
 	now = time.Now()
-	for _, f := range extractionFuncs {
-		go func(runFunc func(ctx context.Context, root *yaml.Node, n documentTopLevelNodes, d *Document, idx *index.SpecIndex) error) {
+	for i, f := range extractionFuncs {
+		go func(slot int, runFunc func(ctx context.Context, root *yaml.Node, n documentTopLevelNodes, d *Document, idx *index.SpecIndex) error) {
 			defer wg.Done()
-			if er := runFunc(ctx, rootNode, topNodes, &doc, rolodex.GetRootIndex()); er != nil {
-				errsMu.Lock()
-				errs = append(errs, er)
-				errsMu.Unlock()
-			}
-		}(f)
+			extractionErrs[slot] = runFunc(ctx, rootNode, topNodes, &doc, rolodex.GetRootIndex())
+		}(i, f)
 	}
 	wg.Wait()
+	errs = append(errs, extractionErrs...) // nil entries are ignored by errors.Join
 	done = time.Duration(time.Since(now).Milliseconds())
 	if config.Logger != nil {
 		config.Logger.Debug("extractions complete", "time", done)
diff --git a/index/extract_refs_lookup.go b/index/extract_refs_lookup.go
index b80d972..08264df 100644
--- a/index/extract_refs_lookup.go
+++ b/index/extract_refs_lookup.go
@@ -57,7 +57,9 @@ func (index *SpecIndex) ExtractComponentsFromRefs(ctx context.Context, refs []*R
 			located := index.locateRef(ctx, ref)
 			if located != nil {
 				index.refLock.Lock()
-				if index.allMappedRefs[located.FullDefinition] == nil {
+				if existing := index.allMappedRefs[located.FullDefinition]; existing != nil {
+					located = existing // found more than once: there is one reference for it, however often it was looked up.
+				} else {
 					index.allMappedRefs[located.FullDefinition] = located
 					found = append(found, located)
 				}
@@ -160,7 +162,9 @@ func (index *SpecIndex) ExtractComponentsFromRefs(ctx context.Context, refs []*R
 
 		if located != nil {
 			index.refLock.Lock()
-			if index.allMappedRefs[located.FullDefinition] == nil {
+			if existing := index.allMappedRefs[located.FullDefinition]; existing != nil {
+				located = existing // found more than once: there is one reference for it, however often it was looked up.
+			} else {
 				index.allMappedRefs[located.FullDefinition] = located
 				found = append(found, located)
 			}
diff --git a/index/find_component_direct.go b/index/find_component_direct.go
index 92d2277..7638092 100644
--- a/index/find_component_direct.go
+++ b/index/find_component_direct.go
@@ -23,21 +23,21 @@ func findDirectComponent(index *SpecIndex, componentID, absoluteFilePath string)
 	case strings.HasPrefix(normalizedComponentID, "#/components/securitySchemes/"):
 		found = loadSyncMapReference(index.allSecuritySchemes, normalizedComponentID)
 	case strings.HasPrefix(normalizedComponentID, "#/components/parameters/"):
-		found = index.allParameters[normalizedComponentID]
+		found = index.loadComponent(index.allParameters, normalizedComponentID)
 	case strings.HasPrefix(normalizedComponentID, "#/components/requestBodies/"):
-		found = index.allRequestBodies[normalizedComponentID]
+		found = index.loadComponent(index.allRequestBodies, normalizedComponentID)
 	case strings.HasPrefix(normalizedComponentID, "#/components/responses/"):
-		found = index.allResponses[normalizedComponentID]
+		found = index.loadComponent(index.allResponses, normalizedComponentID)
 	case strings.HasPrefix(normalizedComponentID, "#/components/headers/"):
-		found = index.allHeaders[normalizedComponentID]
+		found = index.loadComponent(index.allHeaders, normalizedComponentID)
 	case strings.HasPrefix(normalizedComponentID, "#/components/examples/"):
-		found = index.allExamples[normalizedComponentID]
+		found = index.loadComponent(index.allExamples, normalizedComponentID)
 	case strings.HasPrefix(normalizedComponentID, "#/components/links/"):
-		found = index.allLinks[normalizedComponentID]
+		found = index.loadComponent(index.allLinks, normalizedComponentID)
 	case strings.HasPrefix(normalizedComponentID, "#/components/callbacks/"):
-		found = index.allCallbacks[normalizedComponentID]
+		found = index.loadComponent(index.allCallbacks, normalizedComponentID)
 	case strings.HasPrefix(normalizedComponentID, "#/components/pathItems/"):
-		found = index.allComponentPathItems[normalizedComponentID]
+		found = index.loadComponent(index.allComponentPathItems, normalizedComponentID)
 	}
 
 	if found == nil {
diff --git a/index/index_model.go b/index/index_model.go
index f33ad11..7744139 100644
--- a/index/index_model.go
+++ b/index/index_model.go
@@ -416,6 +416,7 @@ type SpecIndex struct {
 	summaryCount                        int
 	refLock                             sync.RWMutex
 	nodeMapLock                         sync.RWMutex
+	componentMapsLock                   sync.RWMutex
 	componentLock                       sync.RWMutex
 	errorLock                           sync.RWMutex
 	circularReferences                  []*CircularReferenceResult // only available when the resolver has been used.
diff --git a/index/rolodex.go b/index/rolodex.go
index f0ee5d0..e7019d1 100644
--- a/index/rolodex.go
+++ b/index/rolodex.go
@@ -14,6 +14,7 @@ import (
 	"net/url"
 	"os"
 	"path/filepath"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -69,6 +70,7 @@ type Rolodex struct {
 	remoteFS                   map[string]fs.FS
 	indexed                    bool
 	built                      bool
+	settled                    bool // the indexes are in the order of their locations, guarded by indexLock
 	manualBuilt                bool
 	resolved                   bool
 	circChecked                bool
@@ -179,6 +181,7 @@ func (r *Rolodex) Release() {
 	r.indexingDuration = 0
 	r.indexed = false
 	r.built = false
+	r.settled = false
 	r.manualBuilt = false
 	r.resolved = false
 	r.circChecked = false
@@ -357,7 +360,13 @@ func (r *Rolodex) AddExternalIndex(idx *SpecIndex, location string) {
 		}
 	}
 
-	r.indexes = append(r.indexes, idx)
+	if r.settled {
+		// a file that is loaded after the rolodex has been indexed takes its place in the order of locations.
+		at := sort.Search(len(r.indexes), func(i int) bool { return r.indexes[i].specAbsolutePath > idx.specAbsolutePath })
+		r.indexes = slices.Insert(slices.Clone(r.indexes), at, idx)
+	} else {
+		r.indexes = append(r.indexes, idx)
+	}
 	if r.indexMap[location] == nil {
 		r.indexMap[location] = idx
 	}
@@ -384,6 +393,7 @@ func (r *Rolodex) settleIndexes() {
 		return sorted[i].specAbsolutePath < sorted[j].specAbsolutePath
 	})
 	r.indexes = sorted
+	r.settled = true
 
 	byLocation := make(map[string]*SpecIndex, len(sorted))
 	for _, idx := range sorted {
@@ -703,7 +713,7 @@ func (r *Rolodex) collectResolvers() []*Resolver {
 			resolvers = append(resolvers, resolver)
 		}
 	}
-	for _, idx := range r.indexes {
+	for _, idx := range r.GetIndexes() {
 		if resolver := idx.GetResolver(); resolver != nil {
 			resolvers = append(resolvers, resolver)
 		}
@@ -731,7 +741,7 @@ func (r *Rolodex) BuildIndexes() {
 	if r.manualBuilt {
 		return
 	}
-	for _, idx := range r.indexes {
+	for _, idx := range r.GetIndexes() {
 		idx.BuildIndex()
 	}
 	if r.rootIndex != nil {
@@ -1113,7 +1123,7 @@ func (r *Rolodex) ClearIndexCaches() {
 	if r.rootIndex != nil {
 		r.rootIndex.GetHighCache().Clear()
 	}
-	for _, idx := range r.indexes {
+	for _, idx := range r.GetIndexes() {
 		idx.GetHighCache().Clear()
 	}
 }
diff --git a/index/search_index.go b/index/search_index.go
index 223219b..44bed62 100644
--- a/index/search_index.go
+++ b/index/search_index.go
@@ -384,7 +384,11 @@ func (index *SpecIndex) SearchIndexForReferenceByReferenceWithContext(ctx contex
 	// last ditch effort: search all rolodex indexes and root index.
 	// this is decoupled from the logger guard so search works even without a logger.
 	if rolo := index.GetRolodex(); rolo != nil {
+		relative := isRelativeFileRef(ref)
 		for _, i := range rolo.GetIndexes() {
+			if relative && filepath.Dir(i.specAbsolutePath) != filepath.Dir(index.specAbsolutePath) {
+				continue // the same spelling means another file there.
+			}
 			v := i.FindComponent(ctx, ref)
 			if v != nil {
 				return v, v.Index, ctx
@@ -435,12 +439,18 @@ func (index *SpecIndex) SearchIndexForReferenceByReferenceWithContext(ctx contex
 	return nil, index, ctx
 }
 
+// isRelativeFileRef is true for references that name a file relative to the file that holds the reference.
+func isRelativeFileRef(ref string) bool {
+	file, _, _ := strings.Cut(ref, "#")
+	return file != "" && !filepath.IsAbs(file) && !strings.HasPrefix(file, "http") && !strings.HasPrefix(file, "file:")
+}
+
 func (index *SpecIndex) extractIndex(r *Reference) *SpecIndex {
 	idx := r.Index
 	if idx != nil && r.Index.GetSpecAbsolutePath() != r.RemoteLocation {
-		for i := range r.Index.rolodex.indexes {
-			if r.Index.rolodex.indexes[i].GetSpecAbsolutePath() == r.RemoteLocation {
-				idx = r.Index.rolodex.indexes[i]
+		for _, candidate := range r.Index.rolodex.GetIndexes() {
+			if candidate.GetSpecAbsolutePath() == r.RemoteLocation {
+				idx = candidate
 				break
 			}
 		}
diff --git a/index/search_rolodex.go b/index/search_rolodex.go
index d61c6c5..e1f7ba0 100644
--- a/index/search_rolodex.go
+++ b/index/search_rolodex.go
@@ -41,8 +41,7 @@ func (r *Rolodex) FindNodeOriginWithValue(key, value, refNode *yaml.Node, refVal
 			}
 		} else {
 			// the value is not in the root index, so we need to search all indexes
-			for i := range r.indexes {
-				idx := r.indexes[i]
+			for _, idx := range r.GetIndexes() {
 				if keyOrigin == nil {
 					keyOrigin = idx.FindNodeOrigin(key)
 				}
@@ -83,8 +82,7 @@ func (r *Rolodex) FindNodeOrigin(node *yaml.Node) *NodeOrigin {
 	if found != nil {
 		return found
 	}
-	for i := range r.indexes {
-		idx := r.indexes[i]
+	for _, idx := range r.GetIndexes() {
 		n := idx.FindNodeOrigin(node)
 		if n != nil {
 			return n
@@ -176,8 +174,7 @@ func checkOrigin(check originCheck) (*NodeOrigin, bool) {
 		}
 	} else {
 		// no hit on the root, but we know the value is in the spec, so we need to search all indexes
-		for i := range check.rolodex.indexes {
-			idx := check.rolodex.indexes[i]
+		for _, idx := range check.rolodex.GetIndexes() {
 			n := idx.FindNodeOrigin(check.value)
 			if n != nil && n.Node != nil {
 				// do the hashes match?
diff --git a/index/utility_methods.go b/index/utility_methods.go
index ed34c87..c8fefac 100644
--- a/index/utility_methods.go
+++ b/index/utility_methods.go
@@ -219,7 +219,7 @@ func (index *SpecIndex) extractComponentParameters(paramsNode *yaml.Node, pathPr
 			Node:       param,
 			KeyNode:    keyNode,
 		}
-		index.allParameters[def] = ref
+		index.storeComponent(index.allParameters, def, ref)
 	}
 }
 
@@ -239,7 +239,7 @@ func (index *SpecIndex) extractComponentRequestBodies(requestBodiesNode *yaml.No
 			Node:       reqBod,
 			KeyNode:    keyNode,
 		}
-		index.allRequestBodies[def] = ref
+		index.storeComponent(index.allRequestBodies, def, ref)
 	}
 }
 
@@ -259,7 +259,7 @@ func (index *SpecIndex) extractComponentResponses(responsesNode *yaml.Node, path
 			Node:       response,
 			KeyNode:    keyNode,
 		}
-		index.allResponses[def] = ref
+		index.storeComponent(index.allResponses, def, ref)
 	}
 }
 
@@ -279,7 +279,7 @@ func (index *SpecIndex) extractComponentHeaders(headersNode *yaml.Node, pathPref
 			Node:       header,
 			KeyNode:    keyNode,
 		}
-		index.allHeaders[def] = ref
+		index.storeComponent(index.allHeaders, def, ref)
 	}
 }
 
@@ -299,7 +299,7 @@ func (index *SpecIndex) extractComponentCallbacks(callbacksNode *yaml.Node, path
 			Node:       callback,
 			KeyNode:    keyNode,
 		}
-		index.allCallbacks[def] = ref
+		index.storeComponent(index.allCallbacks, def, ref)
 	}
 }
 
@@ -319,7 +319,7 @@ func (index *SpecIndex) extractComponentPathItems(pathItemsNode *yaml.Node, path
 			Node:       pathItemName,
 			KeyNode:    keyNode,
 		}
-		index.allComponentPathItems[def] = ref
+		index.storeComponent(index.allComponentPathItems, def, ref)
 	}
 }
 
@@ -339,7 +339,7 @@ func (index *SpecIndex) extractComponentLinks(linksNode *yaml.Node, pathPrefix s
 			Node:       link,
 			KeyNode:    keyNode,
 		}
-		index.allLinks[def] = ref
+		index.storeComponent(index.allLinks, def, ref)
 	}
 }
 
@@ -359,7 +359,7 @@ func (index *SpecIndex) extractComponentExamples(examplesNode *yaml.Node, pathPr
 			Node:       example,
 			KeyNode:    keyNode,
 		}
-		index.allExamples[def] = ref
+		index.storeComponent(index.allExamples, def, ref)
 	}
 }
 
@@ -389,6 +389,20 @@ func (index *SpecIndex) extractComponentSecuritySchemes(securitySchemesNode *yam
 	}
 }
 
+// storeComponent adds a component to one of the component maps, which other files may be looking into meanwhile.
+func (index *SpecIndex) storeComponent(components map[string]*Reference, def string, ref *Reference) {
+	index.componentMapsLock.Lock()
+	components[def] = ref
+	index.componentMapsLock.Unlock()
+}
+
+// loadComponent looks into one of the component maps, which may be growing meanwhile.
+func (index *SpecIndex) loadComponent(components map[string]*Reference, def string) *Reference {
+	index.componentMapsLock.RLock()
+	defer index.componentMapsLock.RUnlock()
+	return components[def]
+}
+
 func (index *SpecIndex) countUniqueInlineDuplicates() int {
 	if index.componentsInlineParamUniqueCount > 0 {
 		return index.componentsInlineParamUniqueCount
-- 
2.43.0


From 74116fd2a6d1a6997341523e2244d6340a7aee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:04 +0000
Subject: [PATCH 55/60] fix: a reference to another document is not looked for
 in this one, and skipped external references are neither fetched nor half
 built

---
 datamodel/low/extraction_functions.go | 12 +++++++++++-
 index/search_index.go                 |  3 +++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/datamodel/low/extraction_functions.go b/datamodel/low/extraction_functions.go
index e237d2b..54e0600 100644
--- a/datamodel/low/extraction_functions.go
+++ b/datamodel/low/extraction_functions.go
@@ -364,7 +364,11 @@ func locateRefNode(ctx context.Context, root *yaml.Node, idx *index.SpecIndex, d
 		// let's try something else to find our references.
 
 		// cant be found? last resort is to try a path lookup
-		_, friendly := utils.ConvertComponentIdIntoFriendlyPathSearch(rv)
+		// in this document, which is not where a reference to another one leads.
+		friendly := ""
+		if location, _, ok := strings.Cut(rv, "#"); !ok || location == "" || location == idx.GetSpecAbsolutePath() {
+			_, friendly = utils.ConvertComponentIdIntoFriendlyPathSearch(rv)
+		}
 		if friendly != "" {
 			nodes, err := utils.FindNodesWithoutDeserializingWithOptions(idx.GetRootNode(), friendly, utils.JSONPathLookupOptions{})
 			if err == nil && len(nodes) > 0 {
@@ -688,6 +692,12 @@ func initEmbeddedReference(obj any) {
 	if f.Type() == reflect.TypeOf((*Reference)(nil)) {
 		f.Set(reflect.ValueOf(new(Reference)))
 	}
+	// an object that was never built has no node map either, and its parent stores the key node in there.
+	if nm := v.FieldByName("NodeMap"); nm.IsValid() && nm.CanAddr() {
+		if m, ok := nm.Addr().Interface().(*NodeMap); ok && m.Nodes == nil {
+			m.Nodes = &sync.Map{}
+		}
+	}
 }
 
 // ExtractArray will extract a slice of []ValueReference[T] from a root yaml.Node that is defined as a sequence.
diff --git a/index/search_index.go b/index/search_index.go
index 44bed62..349bed6 100644
--- a/index/search_index.go
+++ b/index/search_index.go
@@ -283,6 +283,9 @@ func (index *SpecIndex) SearchIndexForReferenceByReferenceWithContext(ctx contex
 			}
 			return r, index, ctx
 		}
+		if index.config != nil && index.config.SkipExternalRefResolution {
+			return nil, index, ctx // what is outside of this document is left alone.
+		}
 		rFile, err := index.rolodex.Open(roloLookup)
 		if err != nil {
 			return nil, index, ctx
-- 
2.43.0


From a8f4740e123afd86adb0bd6e57987551993b5d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:37 +0000
Subject: [PATCH 56/60] fix: what an optional property requires is not required
 of the schema, and schemas that are references refer from where they are

---
 index/utility_methods.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/index/utility_methods.go b/index/utility_methods.go
index c8fefac..2dbc445 100644
--- a/index/utility_methods.go
+++ b/index/utility_methods.go
@@ -52,10 +52,12 @@ func extractDefinitionRequiredRefProperties(schemaNode *yaml.Node, reqRefProps m
 	}
 
 	// If the node we're looking at is a direct ref to another model without any properties, mark it as required, but still continue to look for required properties
-	isRef, _, defPath := utils.IsNodeRefValue(schemaNode)
+	isRef, _, _ := utils.IsNodeRefValue(schemaNode)
 	if isRef {
-		if _, ok := reqRefProps[defPath]; !ok {
-			reqRefProps[defPath] = []string{}
+		for defPath := range extractRequiredReferenceProperties(fulldef, schemaNode, "", map[string][]string{}) {
+			if _, ok := reqRefProps[defPath]; !ok {
+				reqRefProps[defPath] = []string{}
+			}
 		}
 	}
 
@@ -77,6 +79,9 @@ func extractDefinitionRequiredRefProperties(schemaNode *yaml.Node, reqRefProps m
 			name = param.Value
 			continue
 		}
+		if !listsValue(requiredSeqNode, name) {
+			continue // whatever an optional property requires, it can be left out.
+		}
 
 		// Check to see if the current property is directly embedded within the current schema, and handle its properties if so
 		_, paramPropertiesMapNode := utils.FindKeyNodeTop("properties", param.Content)
@@ -108,6 +113,15 @@ func extractDefinitionRequiredRefProperties(schemaNode *yaml.Node, reqRefProps m
 	return reqRefProps
 }
 
+func listsValue(seq *yaml.Node, value string) bool {
+	for _, n := range seq.Content {
+		if n.Value == value {
+			return true
+		}
+	}
+	return false
+}
+
 // extractRequiredReferenceProperties returns a map of definition names to the property or properties which reference it within a node
 func extractRequiredReferenceProperties(fulldef string, requiredPropDefNode *yaml.Node, propName string, reqRefProps map[string][]string) map[string][]string {
 	isRef, _, refName := utils.IsNodeRefValue(requiredPropDefNode)
-- 
2.43.0


From 0316164a6eebbc25b3cf4bf83842c3d1a3b6ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:00 +0000
Subject: [PATCH 57/60] fix: resolving polymorphic cycles in place ends

---
 index/resolver_relatives.go | 7 +++++++
 index/resolver_walk.go      | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/index/resolver_relatives.go b/index/resolver_relatives.go
index 092d290..a629b4f 100644
--- a/index/resolver_relatives.go
+++ b/index/resolver_relatives.go
@@ -41,6 +41,13 @@ func (resolver *Resolver) extractRelativesWithState(
 		return resolver.handleRelativeDepthLimit(ref, state)
 	}
 
+	if node != nil && state.resolve {
+		if state.walked[node] {
+			return nil
+		}
+		state.walked[node] = true
+	}
+
 	state = state.withNodeBase(resolver, node)
 	var found []*Reference
 
diff --git a/index/resolver_walk.go b/index/resolver_walk.go
index b70636f..d18b037 100644
--- a/index/resolver_walk.go
+++ b/index/resolver_walk.go
@@ -11,6 +11,7 @@ type relativeWalkState struct {
 	resolve        bool
 	depth          int
 	schemaIDBase   string
+	walked         map[*yaml.Node]bool // what was looked at already: resolving in place makes trees share, and contain, each other.
 }
 
 func newRelativeWalkState(
@@ -26,6 +27,7 @@ func newRelativeWalkState(
 		resolve:        resolve,
 		depth:          depth,
 		schemaIDBase:   schemaIDBase,
+		walked:         make(map[*yaml.Node]bool),
 	}
 }
 
-- 
2.43.0


From 551be2e44f04b77636f82bab72714ed39a8c033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:00 +0000
Subject: [PATCH 58/60] fix: a schema that was found to be on one cycle is
 still searched for others

---
 index/resolver_relatives.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/index/resolver_relatives.go b/index/resolver_relatives.go
index a629b4f..ba8bbf9 100644
--- a/index/resolver_relatives.go
+++ b/index/resolver_relatives.go
@@ -118,9 +118,6 @@ func (resolver *Resolver) extractNestedRelatives(
 	childState := state.descend()
 	foundRef, _, _ := resolver.searchReferenceWithContext(ref, ref)
 	if foundRef != nil {
-		if foundRef.Circular {
-			return nil
-		}
 		return resolver.extractRelativesWithState(foundRef, node, parent, childState)
 	}
 	return resolver.extractRelativesWithState(ref, node, parent, childState)
-- 
2.43.0


From 885d447aeba0f19be7817ae95685b54531f7865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:00 +0000
Subject: [PATCH 59/60] fix: the journey of a reported cycle is not overwritten
 by later ones

---
 index/resolver_circular.go    | 3 ++-
 index/resolver_polymorphic.go | 2 +-
 index/resolver_relatives.go   | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/index/resolver_circular.go b/index/resolver_circular.go
index f05e9d2..40dbd8a 100644
--- a/index/resolver_circular.go
+++ b/index/resolver_circular.go
@@ -31,7 +31,8 @@ func (resolver *Resolver) buildCircularReferenceResult(
 	journey []*Reference,
 	loopIndex int,
 ) *CircularReferenceResult {
-	loop := append(journey, foundDup)
+	// the journey is still being travelled, the record needs one of its own.
+	loop := append(append([]*Reference(nil), journey...), foundDup)
 	visitedDefinitions := make(map[string]bool)
 	isInfiniteLoop, _ := resolver.isInfiniteCircularDependency(foundDup, visitedDefinitions, nil)
 
diff --git a/index/resolver_polymorphic.go b/index/resolver_polymorphic.go
index 530d836..1b9fbe8 100644
--- a/index/resolver_polymorphic.go
+++ b/index/resolver_polymorphic.go
@@ -73,7 +73,7 @@ func (resolver *Resolver) visitPolymorphicReference(
 		return
 	}
 
-	loop := append(state.journey, mappedRefs)
+	loop := append(append([]*Reference(nil), state.journey...), mappedRefs)
 	circRef := &CircularReferenceResult{
 		ParentNode:          parentNode,
 		Journey:             loop,
diff --git a/index/resolver_relatives.go b/index/resolver_relatives.go
index ba8bbf9..442b936 100644
--- a/index/resolver_relatives.go
+++ b/index/resolver_relatives.go
@@ -95,7 +95,7 @@ func (resolver *Resolver) handleRelativeDepthLimit(ref *Reference, state relativ
 			"reference", def)
 	}
 
-	loop := append(state.journey, ref)
+	loop := append(append([]*Reference(nil), state.journey...), ref)
 	circRef := &CircularReferenceResult{
 		Journey:        loop,
 		Start:          ref,
-- 
2.43.0


From 7e8548dd5c88059ca934cf1774a6e37e8b5223ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:00 +0000
Subject: [PATCH 60/60] fix: ignoring polymorphic cycles does not ignore those
 that meet no polymorphic keyword

---
 index/resolver_circular.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/index/resolver_circular.go b/index/resolver_circular.go
index 40dbd8a..291e84c 100644
--- a/index/resolver_circular.go
+++ b/index/resolver_circular.go
@@ -3,6 +3,8 @@
 
 package index
 
+import "go.yaml.in/yaml/v4"
+
 func (resolver *Resolver) handleCircularJourneyRelative(ref, relative *Reference, journey []*Reference) bool {
 	for loopIndex, journeyRef := range journey {
 		// the same object can be reached through references that spell its location differently.
@@ -51,7 +53,7 @@ func (resolver *Resolver) recordCircularReferenceResult(circRef *CircularReferen
 	if circRef == nil {
 		return
 	}
-	if resolver.IgnorePoly && !circRef.IsArrayResult {
+	if resolver.IgnorePoly && !circRef.IsArrayResult && loopIsPolymorphic(circRef) {
 		resolver.ignoredPolyReferences = append(resolver.ignoredPolyReferences, circRef)
 		return
 	}
@@ -64,6 +66,39 @@ func (resolver *Resolver) recordCircularReferenceResult(circRef *CircularReferen
 	}
 }
 
+// loopIsPolymorphic reports whether any of the objects a loop passes through uses a polymorphic keyword. A loop that meets
+// none of them is not a polymorphic one.
+func loopIsPolymorphic(circRef *CircularReferenceResult) bool {
+	if len(circRef.Journey) == 0 {
+		return true // nothing is known about it.
+	}
+	for i := circRef.LoopIndex; i >= 0 && i < len(circRef.Journey); i++ {
+		if usesPolymorphicKeyword(circRef.Journey[i].Node, 0) {
+			return true
+		}
+	}
+	return false
+}
+
+func usesPolymorphicKeyword(node *yaml.Node, depth int) bool {
+	if node == nil || depth > 500 {
+		return false
+	}
+	for i, n := range node.Content {
+		if node.Kind == yaml.MappingNode && i%2 == 0 {
+			switch n.Value {
+			case "allOf", "anyOf", "oneOf":
+				return true
+			}
+			continue
+		}
+		if usesPolymorphicKeyword(n, depth+1) {
+			return true
+		}
+	}
+	return false
+}
+
 func (resolver *Resolver) markReferencesCircular(relative, duplicate *Reference) {
 	if relative != nil {
 		relative.Seen = true
-- 
2.43.0

