------------------------------ MODULE OasModel ------------------------------
(* The object model of OpenAPI 3.0-3.2 and Swagger 2: object types, their   *)
(* fields, what each field holds and since which version it exists.         *)
(*  k: str bool int num any strs anys       scalars, raw values and lists    *)
(*     mstr mbool mstrs                     maps to string / bool / [string] *)
(*     obj list map                         objects of type t                *)
(*     self                                 pattern keys of the object hold t*)
(*     selfs                                pattern keys hold lists of string*)
(*     sob                                  schema or boolean                *)
(*     types                                string or list of strings        *)
(*     excl                                 boolean (3.0) or number (3.1)    *)
EXTENDS Tree
F(n, k, t, v) == [n |-> n, k |-> k, t |-> t, v |-> v]
S(n) == F(n, "str", "", 30)
S31(n) == F(n, "str", "", 31)
S32(n) == F(n, "str", "", 32)
B(n) == F(n, "bool", "", 30)
I(n) == F(n, "int", "", 30)
N(n) == F(n, "num", "", 30)
A(n) == F(n, "any", "", 30)
L(n) == F(n, "strs", "", 30)
O(n, t) == F(n, "obj", t, 30)
Ls(n, t) == F(n, "list", t, 30)
M(n, t) == F(n, "map", t, 30)
SB(n) == F(n, "sob", "Schema", 31)
Self(t) == F("", "self", t, 30)
V3(v, f) == [f EXCEPT !.v = v]

Fields(T) ==
 CASE T = "Document" -> <<S("openapi"), O("info","Info"), S31("jsonSchemaDialect"), S32("$self"), Ls("servers","Server"), O("paths","Paths"),
        V3(31,M("webhooks","PathItem")), O("components","Components"), Ls("security","SecurityRequirement"), Ls("tags","Tag"), O("externalDocs","ExternalDoc")>>
 [] T = "Info" -> <<S("title"), S31("summary"), S("description"), S("termsOfService"), O("contact","Contact"), O("license","License"), S("version")>>
 [] T = "Contact" -> <<S("name"), S("url"), S("email")>>
 [] T = "License" -> <<S("name"), S("url"), S31("identifier")>>
 [] T = "Server" -> <<S32("name"), S("url"), S("description"), M("variables","ServerVariable")>>
 [] T = "ServerVariable" -> <<L("enum"), S("default"), S("description")>>
 [] T = "Tag" -> <<S("name"), S32("summary"), S("description"), O("externalDocs","ExternalDoc"), S32("parent"), S32("kind")>>
 [] T = "ExternalDoc" -> <<S("description"), S("url")>>
 [] T = "SecurityRequirement" -> <<F("", "selfs", "", 30)>>
 [] T = "Paths" -> <<Self("PathItem")>>
 [] T = "PathItem" -> <<S("description"), S("summary"), O("get","Operation"), O("put","Operation"), O("post","Operation"), O("delete","Operation"),
        O("options","Operation"), O("head","Operation"), O("patch","Operation"), O("trace","Operation"), V3(32,O("query","Operation")),
        V3(32,M("additionalOperations","Operation")), Ls("servers","Server"), Ls("parameters","Parameter")>>
 [] T = "Operation" -> <<L("tags"), S("summary"), S("description"), O("externalDocs","ExternalDoc"), S("operationId"), Ls("parameters","Parameter"),
        O("requestBody","RequestBody"), O("responses","Responses"), M("callbacks","Callback"), B("deprecated"), Ls("security","SecurityRequirement"), Ls("servers","Server")>>
 [] T = "Parameter" -> <<S("name"), S("in"), S("description"), B("required"), B("deprecated"), B("allowEmptyValue"), S("style"), B("explode"), B("allowReserved"),
        O("schema","Schema"), A("example"), M("examples","Example"), M("content","MediaType")>>
 [] T = "Header" -> <<S("description"), B("required"), B("deprecated"), B("allowEmptyValue"), S("style"), B("explode"), B("allowReserved"),
        O("schema","Schema"), A("example"), M("examples","Example"), M("content","MediaType")>>
 [] T = "RequestBody" -> <<S("description"), M("content","MediaType"), B("required")>>
 [] T = "MediaType" -> <<O("schema","Schema"), V3(32,O("itemSchema","Schema")), A("example"), M("examples","Example"), M("encoding","Encoding"), V3(32,M("itemEncoding","Encoding"))>>
 [] T = "Encoding" -> <<S("contentType"), M("headers","Header"), S("style"), B("explode"), B("allowReserved")>>
 [] T = "Responses" -> <<O("default","Response"), Self("Response")>>
 [] T = "Response" -> <<S32("summary"), S("description"), M("headers","Header"), M("content","MediaType"), M("links","Link")>>
 [] T = "Link" -> <<S("operationRef"), S("operationId"), F("parameters","mstr","",30), S("requestBody"), S("description"), O("server","Server")>>
 [] T = "Callback" -> <<Self("PathItem")>>
 [] T = "Example" -> <<S("summary"), S("description"), A("value"), S("externalValue"), V3(32,A("dataValue")), S32("serializedValue")>>
 [] T = "Components" -> <<M("schemas","Schema"), M("responses","Response"), M("parameters","Parameter"), M("examples","Example"), M("requestBodies","RequestBody"),
        M("headers","Header"), M("securitySchemes","SecurityScheme"), M("links","Link"), M("callbacks","Callback"), V3(31,M("pathItems","PathItem")), V3(32,M("mediaTypes","MediaType"))>>
 [] T = "SecurityScheme" -> <<S("type"), S("description"), S("name"), S("in"), S("scheme"), S("bearerFormat"), O("flows","OAuthFlows"), S("openIdConnectUrl"),
        S32("oauth2MetadataUrl"), V3(32,B("deprecated"))>>
 [] T = "OAuthFlows" -> <<O("implicit","OAuthFlow"), O("password","OAuthFlow"), O("clientCredentials","OAuthFlow"), O("authorizationCode","OAuthFlow"), V3(32,O("device","OAuthFlow"))>>
 [] T = "OAuthFlow" -> <<S("authorizationUrl"), S("tokenUrl"), S("refreshUrl"), F("scopes","mstr","",30)>>
 [] T = "Discriminator" -> <<S("propertyName"), F("mapping","mstr","",30), S32("defaultMapping")>>
 [] T = "XML" -> <<S("name"), S("namespace"), S("prefix"), B("attribute"), S32("nodeType"), B("wrapped")>>
 [] T = "Schema" -> <<S31("$schema"), F("exclusiveMaximum","excl","",30), F("exclusiveMinimum","excl","",30), F("type","types","",30),
        Ls("allOf","Schema"), Ls("oneOf","Schema"), Ls("anyOf","Schema"), O("discriminator","Discriminator"), F("examples","anys","",31),
        V3(31,Ls("prefixItems","Schema")), V3(31,O("contains","Schema")), V3(31,I("minContains")), V3(31,I("maxContains")),
        V3(31,O("if","Schema")), V3(31,O("else","Schema")), V3(31,O("then","Schema")), V3(31,M("dependentSchemas","Schema")), F("dependentRequired","mstrs","",31),
        V3(31,M("patternProperties","Schema")), V3(31,M("$defs","Schema")), V3(31,O("propertyNames","Schema")), V3(31,O("unevaluatedItems","Schema")),
        SB("unevaluatedProperties"), SB("items"), S31("$id"), S31("$anchor"), S31("$dynamicAnchor"), S31("$dynamicRef"), S31("$comment"),
        V3(31,O("contentSchema","Schema")), F("$vocabulary","mbool","",31), O("not","Schema"), M("properties","Schema"), S("title"),
        N("multipleOf"), N("maximum"), N("minimum"), I("maxLength"), I("minLength"), S("pattern"), S("format"), I("maxItems"), I("minItems"), B("uniqueItems"),
        I("maxProperties"), I("minProperties"), L("required"), F("enum","anys","",30), F("additionalProperties","sob","Schema",30), S("description"),
        S31("contentEncoding"), S31("contentMediaType"), A("default"), V3(31,A("const")), B("nullable"), B("readOnly"), B("writeOnly"), O("xml","XML"),
        O("externalDocs","ExternalDoc"), A("example"), B("deprecated")>>
 \* ---- Swagger 2
 [] T = "Swagger" -> <<S("swagger"), O("info","Info"), S("host"), S("basePath"), L("schemes"), L("consumes"), L("produces"), O("paths","Paths2"),
        M("definitions","Schema2"), M("parameters","Parameter2"), M("responses","Response2"), M("securityDefinitions","SecurityScheme2"),
        Ls("security","SecurityRequirement"), Ls("tags","Tag"), O("externalDocs","ExternalDoc")>>
 [] T = "Paths2" -> <<Self("PathItem2")>>
 [] T = "PathItem2" -> <<O("get","Operation2"), O("put","Operation2"), O("post","Operation2"), O("delete","Operation2"), O("options","Operation2"),
        O("head","Operation2"), O("patch","Operation2"), Ls("parameters","Parameter2")>>
 [] T = "Operation2" -> <<L("tags"), S("summary"), S("description"), O("externalDocs","ExternalDoc"), S("operationId"), L("consumes"), L("produces"),
        Ls("parameters","Parameter2"), O("responses","Responses2"), L("schemes"), B("deprecated"), Ls("security","SecurityRequirement")>>
 [] T = "Parameter2" -> <<S("name"), S("in"), S("type"), S("format"), S("description"), B("required"), B("allowEmptyValue"), O("schema","Schema2"), O("items","Items2"),
        S("collectionFormat"), A("default"), I("maximum"), B("exclusiveMaximum"), I("minimum"), B("exclusiveMinimum"), I("maxLength"), I("minLength"), S("pattern"),
        I("maxItems"), I("minItems"), B("uniqueItems"), F("enum","anys","",30), I("multipleOf")>>
 [] T = "Items2" -> <<S("type"), S("format"), O("items","Items2"), S("collectionFormat"), A("default"), I("maximum"), B("exclusiveMaximum"), I("minimum"),
        B("exclusiveMinimum"), I("maxLength"), I("minLength"), S("pattern"), I("maxItems"), I("minItems"), B("uniqueItems"), F("enum","anys","",30), I("multipleOf")>>
 [] T = "Header2" -> <<S("type"), S("format"), S("description"), O("items","Items2"), S("collectionFormat"), A("default"), I("maximum"), B("exclusiveMaximum"), I("minimum"),
        B("exclusiveMinimum"), I("maxLength"), I("minLength"), S("pattern"), I("maxItems"), I("minItems"), B("uniqueItems"), F("enum","anys","",30), I("multipleOf")>>
 [] T = "Responses2" -> <<O("default","Response2"), Self("Response2")>>
 [] T = "Response2" -> <<S("description"), O("schema","Schema2"), M("headers","Header2"), F("examples","many","",30)>>
 [] T = "SecurityScheme2" -> <<S("type"), S("description"), S("name"), S("in"), S("flow"), S("authorizationUrl"), S("tokenUrl"), F("scopes","mstr","",30)>>
 [] T = "Schema2" -> <<B("exclusiveMaximum"), B("exclusiveMinimum"), S("type"), Ls("allOf","Schema2"), F("discriminator","str","",99), M("properties","Schema2"), S("title"),
        N("multipleOf"), N("maximum"), N("minimum"), I("maxLength"), I("minLength"), S("pattern"), S("format"), I("maxItems"), I("minItems"), B("uniqueItems"),
        I("maxProperties"), I("minProperties"), L("required"), F("enum","anys","",30), F("additionalProperties","sob","Schema2",30), S("description"), O("items","Schema2"),
        A("default"), B("readOnly"), O("xml","XML"), O("externalDocs","ExternalDoc"), A("example")>>

Types3 == <<"Document","Info","Contact","License","Server","ServerVariable","Tag","ExternalDoc","SecurityRequirement","Paths","PathItem","Operation","Parameter","Header",
  "RequestBody","MediaType","Encoding","Responses","Response","Link","Callback","Example","Components","SecurityScheme","OAuthFlows","OAuthFlow","Discriminator","XML","Schema">>
Types2 == <<"Swagger","Info","Contact","License","Tag","ExternalDoc","SecurityRequirement","Paths2","PathItem2","Operation2","Parameter2","Items2","Header2","Responses2",
  "Response2","SecurityScheme2","XML","Schema2">>
\* objects that may carry x- extensions
NoExt == {"Discriminator", "SecurityRequirement", "Encoding"}
\* kinds whose value is (or holds) another object
Holds == {"obj", "list", "map", "self", "sob"}
FieldsAt(T, ver) == SelectSeq(Fields(T), LAMBDA f : f.v <= ver)
\* fields a valid object of the type has
Required(T) == CASE T = "Document" -> {"openapi","info"} [] T = "Swagger" -> {"swagger","info","paths"} [] T = "Info" -> {"title","version"} [] T = "License" -> {"name"}
  [] T = "Server" -> {"url"} [] T = "ServerVariable" -> {"default"} [] T \in {"Tag"} -> {"name"} [] T = "ExternalDoc" -> {"url"} [] T \in {"Parameter","Parameter2"} -> {"name","in"}
  [] T \in {"Response","Response2"} -> {"description"} [] T \in {"SecurityScheme","SecurityScheme2"} -> {"type"} [] T = "OAuthFlow" -> {"scopes"} [] T = "Discriminator" -> {"propertyName"}
  [] OTHER -> {}
\* an empty list says the same as none, except that no security is not the default security
Omittable(f, v) == (v.t = "seq" /\ Len(v.c) = 0 /\ f.k \in {"strs","anys","list"} /\ f.t # "SecurityRequirement")
                   \/ (v.t = "map" /\ Len(v.c) = 0 /\ f.n = "$defs")
\* components section of the types that may be given by reference
Section(T) == CASE T = "Schema" -> "schemas" [] T = "Response" -> "responses" [] T = "Parameter" -> "parameters" [] T = "Example" -> "examples"
  [] T = "RequestBody" -> "requestBodies" [] T = "Header" -> "headers" [] T = "SecurityScheme" -> "securitySchemes" [] T = "Link" -> "links"
  [] T = "Callback" -> "callbacks" [] T = "PathItem" -> "pathItems" [] T = "MediaType" -> "mediaTypes"
  [] T = "Schema2" -> "definitions" [] T = "Response2" -> "responses" [] T = "Parameter2" -> "parameters" [] OTHER -> ""
SinceRef(T) == CASE T = "PathItem" -> 31 [] T = "MediaType" -> 32 [] OTHER -> 20
\* fields every object of the type has in the generated documents, with their value
Base(T) == CASE T = "Info" -> MapN(<<"title","version">>, <<StrN("t"),StrN("1.0.0")>>)
  [] T = "License" -> MapN(<<"name">>, <<StrN("lic")>>)
  [] T = "Server" -> MapN(<<"url">>, <<StrN("https://one.example")>>)
  [] T = "ServerVariable" -> MapN(<<"default">>, <<StrN("dv")>>)
  [] T = "Tag" -> MapN(<<"name">>, <<StrN("tagone")>>)
  [] T = "ExternalDoc" -> MapN(<<"url">>, <<StrN("https://docs.example")>>)
  [] T = "SecurityRequirement" -> MapN(<<"sec1">>, <<SeqN(<<>>)>>)
  [] T \in {"Parameter","Parameter2"} -> MapN(<<"name","in">>, <<StrN("par"),StrN("query")>>)
  [] T \in {"Response","Response2"} -> MapN(<<"description">>, <<StrN("ok")>>)
  [] T = "SecurityScheme" -> MapN(<<"type">>, <<StrN("oauth2")>>)
  [] T = "SecurityScheme2" -> MapN(<<"type">>, <<StrN("oauth2")>>)
  [] T = "OAuthFlow" -> MapN(<<"scopes">>, <<MapN(<<"read">>, <<StrN("r")>>)>>)
  [] T = "Discriminator" -> MapN(<<"propertyName">>, <<StrN("kind")>>)
  [] T = "Schema" -> MapN(<<"type">>, <<StrN("object")>>)
  [] T = "Schema2" -> MapN(<<"type">>, <<StrN("object")>>)
  [] T \in {"Items2","Header2"} -> MapN(<<"type">>, <<StrN("string")>>)
  [] T = "Encoding" -> MapN(<<"contentType">>, <<StrN("text/plain")>>)
  [] T = "Link" -> MapN(<<"operationId">>, <<StrN("op")>>)
  [] T = "Example" -> MapN(<<"summary">>, <<StrN("ex")>>)
  [] T = "Header" -> MapN(<<"description">>, <<StrN("hdr")>>)
  [] T = "MediaType" -> MapN(<<"schema">>, <<MapN(<<"type">>, <<StrN("string")>>)>>)
  [] T = "RequestBody" -> MapN(<<"description">>, <<StrN("body")>>)
  [] T \in {"Operation","Operation2"} -> MapN(<<"summary">>, <<StrN("an op")>>)
  [] T = "PathItem" -> MapN(<<"description">>, <<StrN("pi")>>)
  [] T = "PathItem2" -> MapN(<<"x-pi">>, <<StrN("pi")>>)
  [] T = "Contact" -> MapN(<<"name">>, <<StrN("me")>>)
  [] T = "XML" -> MapN(<<"name">>, <<StrN("xm")>>)
  [] OTHER -> MapN(<<>>, <<>>)
\* how entries of a list of the type are told apart
IdKey(T) == CASE T \in {"Parameter","Parameter2","Tag"} -> "name" [] T = "Server" -> "url" [] OTHER -> ""
\* key used for the i-th entry of a map or pattern object holding T
EntryKey(P, f, i) == CASE f.t \in {"PathItem","PathItem2"} /\ P \in {"Paths","Paths2"} -> <<"/one", "/two/{id}", "/three">>[i]
  [] P \in {"Responses","Responses2"} -> <<"200", "404", "5XX">>[i]
  [] P = "Callback" -> <<"{$request.body#/url}", "https://cb.example/x", "{$url}">>[i]
  [] f.t = "MediaType" /\ f.n = "content" -> <<"application/json", "text/plain", "a/b+c">>[i]
  [] f.n = "patternProperties" -> <<"^a.*$", "^b", "z$">>[i]
  [] P = "SecurityRequirement" -> <<"sec1", "sec2", "sec3">>[i]
  [] OTHER -> <<"alpha", "beta", "gamma">>[i]
\* the i-th entry of type T, distinguishable from the others
Entry(T, i) == LET b == Base(T) IN
  IF i = 1 THEN b ELSE
  IF T = "SecurityRequirement" THEN MapN(<<"sec" \o ToString(i)>>, <<SeqN(<<>>)>>) ELSE
  IF IdKey(T) # "" THEN SetKey(b, IdKey(T), StrN(Child(b, IdKey(T)).v \o ToString(i))) ELSE
  IF T = "Schema" \/ T = "Schema2" THEN SetKey(b, "title", StrN("entry" \o ToString(i))) ELSE
  IF T \in NoExt THEN b ELSE SetKey(b, "x-entry", IntN(i))

\* ---- sample values of a field: the i-th value of the kind
StrVals(n) ==
  CASE n = "$id" -> <<"https://id.example/a", "https://id.example/b">>
  [] n = "$schema" -> <<"https://json-schema.org/draft/2020-12/schema", "https://spec.openapis.org/oas/3.1/dialect/base">>
  [] n = "jsonSchemaDialect" -> <<"https://json-schema.org/draft/2020-12/schema", "https://spec.openapis.org/oas/3.1/dialect/base">>
  [] n = "$self" -> <<"https://self.example/a.yaml", "https://self.example/b.yaml">>
  [] n = "$dynamicRef" -> <<"#dyn", "#other">>
  [] n = "in" -> <<"query", "header">>
  [] n = "type" -> <<"string", "integer">>
  [] n = "url" -> <<"https://one.example/u", "https://two.example/u">>
  [] n = "openapi" -> <<>> [] n = "swagger" -> <<>>
  [] n \in {"$anchor","$dynamicAnchor"} -> <<"dyn", "other">>
  [] OTHER -> <<n \o " one", n \o " two", "true", "12", "Case", "case">>
\* texts that must survive rendering as strings
OddStrs == <<"", "null", "~", "1.50", "1e3", "0x1F", "2001-01-01", "yes", "- a", "key: v # c", "a\nb\n", " lead", "trail ", "@at", "*star", "&amp", "'q'", "a\\b", "{x}", "[y]", "%p", "!t", "|", ">", "é", "x-odd", "parameters", "$ref", "get", "schema", "#/a">>
AnyVals == <<StrN("text"), IntN(5), BoolN(FALSE), FltN("1.5"), SeqN(<<StrN("a"), IntN(2)>>), MapN(<<"p","q">>, <<StrN("x"), SeqN(<<IntN(1)>>)>>),
   StrN("5"), StrN("false"), MapN(<<"q","p">>, <<SeqN(<<IntN(2)>>), StrN("x")>>), SeqN(<<IntN(2), StrN("a")>>), StrN("Text")>>
OddAnys == <<NullN, StrN(""), MapN(<<>>, <<>>), SeqN(<<>>), IntN(0), MapN(<<"n">>, <<NullN>>), SeqN(<<NullN, MapN(<<>>, <<>>)>>), StrN("null"), StrN("a\nb\n"), FltN("1e3"), MapN(<<"example","schema","parameters">>, <<IntN(1), IntN(2), SeqN(<<>>)>>)>>
StrList(ss) == SeqN([i \in 1..Len(ss) |-> StrN(ss[i])])
StrMap(ks, vs) == MapN(ks, [i \in 1..Len(vs) |-> StrN(vs[i])])
Vals(P, f, ver) ==
  CASE f.k = "str" -> [i \in 1..Len(StrVals(f.n)) |-> StrN(StrVals(f.n)[i])]
  [] f.k = "bool" -> <<BoolN(TRUE), BoolN(FALSE)>>
  [] f.k = "int" -> <<IntN(3), IntN(7), IntN(0)>>
  [] f.k = "num" -> <<IntN(3), FltN("2.5"), IntN(0), FltN("-0.25"), IntN(1000000)>>
  [] f.k = "any" -> AnyVals
  [] f.k = "strs" -> <<StrList(<<"a">>), StrList(<<"a","b">>), StrList(<<"b","c">>), StrList(<<"A">>)>>
  [] f.k = "anys" -> <<SeqN(<<StrN("a")>>), SeqN(<<StrN("a"), StrN("b")>>), SeqN(<<IntN(1), IntN(2)>>), SeqN(<<StrN("A")>>), SeqN(<<StrN("1")>>)>>
  [] f.k = "mstr" -> <<StrMap(<<"alpha">>, <<"x">>), StrMap(<<"alpha">>, <<"y">>), StrMap(<<"alpha","beta">>, <<"x","z">>), StrMap(<<"beta">>, <<"x">>), StrMap(<<"beta","gamma">>, <<"x","y">>)>>
  [] f.k = "many" -> <<MapN(<<"application/json">>, <<StrN("x")>>), MapN(<<"application/json">>, <<StrN("y")>>), MapN(<<"application/json","text/plain">>, <<StrN("x"), IntN(1)>>),
                       MapN(<<"text/plain">>, <<StrN("x")>>)>>
  [] f.k = "mbool" -> <<MapN(<<"https://v.example/a">>, <<BoolN(TRUE)>>), MapN(<<"https://v.example/a">>, <<BoolN(FALSE)>>), MapN(<<"https://v.example/a","https://v.example/b">>, <<BoolN(TRUE), BoolN(TRUE)>>)>>
  [] f.k = "mstrs" -> <<MapN(<<"alpha">>, <<StrList(<<"a">>)>>), MapN(<<"alpha">>, <<StrList(<<"a","b">>)>>), MapN(<<"alpha","beta">>, <<StrList(<<"a">>), StrList(<<"c">>)>>), MapN(<<"beta">>, <<StrList(<<"a">>)>>)>>
  [] f.k = "types" -> <<StrN("string"), StrN("integer")>> \o (IF ver >= 31 THEN <<StrList(<<"string","null">>), StrList(<<"integer","null">>)>> ELSE <<>>)
  [] f.k = "excl" -> IF ver >= 31 THEN <<IntN(3), FltN("2.5"), IntN(0)>> ELSE <<BoolN(TRUE), BoolN(FALSE)>>
  [] f.k = "sob" -> <<Entry(f.t, 1), Entry(f.t, 2), BoolN(TRUE), BoolN(FALSE)>>
  [] f.k = "obj" -> IF f.t \in {"Paths","Paths2"} THEN <<MapN(<<EntryKey(f.t, [F("","self","PathItem",30) EXCEPT !.t = IF f.t = "Paths" THEN "PathItem" ELSE "PathItem2"], 1)>>, <<Base(IF f.t = "Paths" THEN "PathItem" ELSE "PathItem2")>>)>>
                     ELSE IF f.t \in {"Responses","Responses2"} THEN <<MapN(<<"200">>, <<Base("Response")>>)>>
                     ELSE IF f.t = "Components" THEN <<MapN(<<"schemas">>, <<MapN(<<"alpha">>, <<Base("Schema")>>)>>)>>
                     ELSE IF f.t = "OAuthFlows" THEN <<MapN(<<"implicit">>, <<Base("OAuthFlow")>>)>>
                     ELSE <<Base(f.t)>>
  [] f.k = "list" -> <<SeqN(<<Entry(f.t, 1)>>), SeqN(<<Entry(f.t, 1), Entry(f.t, 2)>>), SeqN(<<Entry(f.t, 2)>>), SeqN(<<Entry(f.t, 2), Entry(f.t, 3)>>)>>
  [] f.k = "map" -> LET e(i) == IF f.t = "Callback" THEN MapN(<<"{$request.body#/url}">>, <<Entry("PathItem", i)>>) ELSE Entry(f.t, i) IN
                    <<MapN(<<EntryKey(P, f, 1)>>, <<e(1)>>), MapN(<<EntryKey(P, f, 1), EntryKey(P, f, 2)>>, <<e(1), e(2)>>), MapN(<<EntryKey(P, f, 2)>>, <<e(1)>>),
                      MapN(<<EntryKey(P, f, 1)>>, <<e(3)>>), MapN(<<EntryKey(P, f, 2), EntryKey(P, f, 3)>>, <<e(2), e(1)>>)>>
  [] OTHER -> <<>>
Zero(P, f) == CASE f.k = "str" /\ f.n \notin {"$id","$schema","$self","jsonSchemaDialect","openapi","swagger"} -> [i \in 1..Len(OddStrs) |-> StrN(OddStrs[i])]
  [] f.k = "any" -> OddAnys
  [] f.k = "anys" -> <<SeqN(<<>>), SeqN(<<NullN>>), SeqN(<<StrN("1"), IntN(1), StrN("true"), BoolN(TRUE), StrN("null"), NullN, StrN("1.0"), FltN("1.5")>>), SeqN(<<MapN(<<"a">>, <<IntN(1)>>), SeqN(<<IntN(1)>>)>>)>>
  [] f.k = "strs" -> <<SeqN(<<>>), StrList(<<"1","true","null","">>), StrList(<<"b","a">>)>>
  [] f.k = "num" -> <<IntN(-4), FltN("0.1"), FltN("1e3"), FltN("100.0"), FltN("0.30000000000000004"), IntN(1234567890)>>
  [] f.k = "int" -> <<IntN(-1), IntN(1234567890)>>
  [] f.k = "excl" -> <<>>
  [] f.k = "mstr" -> <<MapN(<<>>, <<>>), StrMap(<<"1","true","null">>, <<"2","false","null">>)>>
  [] f.k = "mstrs" -> <<MapN(<<>>, <<>>), MapN(<<"a">>, <<SeqN(<<>>)>>)>>
  [] f.k = "list" -> <<SeqN(<<>>)>>
  [] f.k = "map" -> <<MapN(<<>>, <<>>), MapN(<<"Alpha","ALPHA","alpha">>, <<Entry(f.t, 1), Entry(f.t, 2), Entry(f.t, 3)>>), MapN(<<EntryKey(P, f, 3), EntryKey(P, f, 1), EntryKey(P, f, 2)>>, <<Entry(f.t, 1), Entry(f.t, 2), Entry(f.t, 3)>>)>>
  [] f.k = "obj" -> <<MapN(<<>>, <<>>)>>
  [] OTHER -> <<>>
=============================================================================
