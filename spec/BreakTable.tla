----------------------------- MODULE BreakTable -----------------------------
(* Which changes are breaking unless it is decided otherwise: for each object *)
(* and field whether it is when added, modified, removed (three digits).      *)
EXTENDS VIO
R(c, p, w) == [c |-> c, p |-> p, w |-> w]
RulesOf(c, ps) == [i \in 1..Len(ps) |-> R(c, ps[i][1], ps[i][2])]
RuleTable == RulesOf("$self", <<<<"","111">>>>)
  \o RulesOf("callback", <<<<"expressions","001">>>>)
  \o RulesOf("components", <<<<"","001">>>>)
  \o RulesOf("contact", <<<<"email","000">>, <<"name","000">>, <<"url","000">>>>)
  \o RulesOf("discriminator", <<<<"defaultMapping","111">>, <<"mapping","011">>, <<"propertyName","111">>>>)
  \o RulesOf("encoding", <<<<"allowReserved","000">>, <<"contentType","111">>, <<"explode","111">>, <<"style","111">>>>)
  \o RulesOf("example", <<<<"dataValue","000">>, <<"description","000">>, <<"externalValue","000">>, <<"serializedValue","000">>, <<"summary","000">>, <<"value","000">>>>)
  \o RulesOf("externalDocs", <<<<"description","000">>, <<"url","000">>>>)
  \o RulesOf("header", <<<<"allowEmptyValue","111">>, <<"allowReserved","000">>, <<"deprecated","000">>, <<"description","000">>, <<"example","000">>, <<"examples","000">>, <<"explode","000">>, <<"items","101">>, <<"required","111">>, <<"schema","101">>, <<"style","000">>>>)
  \o RulesOf("info", <<<<"contact","000">>, <<"description","000">>, <<"license","000">>, <<"summary","000">>, <<"termsOfService","000">>, <<"title","000">>, <<"version","000">>>>)
  \o RulesOf("jsonSchemaDialect", <<<<"","111">>>>)
  \o RulesOf("license", <<<<"identifier","000">>, <<"name","000">>, <<"url","000">>>>)
  \o RulesOf("link", <<<<"description","000">>, <<"operationId","111">>, <<"operationRef","111">>, <<"parameters","111">>, <<"requestBody","111">>, <<"server","101">>>>)
  \o RulesOf("mediaType", <<<<"example","000">>, <<"examples","000">>, <<"itemEncoding","001">>, <<"itemSchema","101">>, <<"schema","101">>>>)
  \o RulesOf("oauthFlow", <<<<"authorizationUrl","111">>, <<"refreshUrl","111">>, <<"scopes","011">>, <<"tokenUrl","111">>>>)
  \o RulesOf("oauthFlows", <<<<"authorizationCode","001">>, <<"clientCredentials","001">>, <<"device","001">>, <<"implicit","001">>, <<"password","001">>>>)
  \o RulesOf("openapi", <<<<"","111">>>>)
  \o RulesOf("operation", <<<<"callbacks","001">>, <<"deprecated","000">>, <<"description","000">>, <<"externalDocs","000">>, <<"operationId","111">>, <<"parameters","001">>, <<"requestBody","101">>, <<"responses","001">>, <<"security","001">>, <<"servers","001">>, <<"summary","000">>, <<"tags","001">>>>)
  \o RulesOf("parameter", <<<<"allowEmptyValue","111">>, <<"allowReserved","111">>, <<"deprecated","000">>, <<"description","000">>, <<"example","000">>, <<"examples","000">>, <<"explode","000">>, <<"in","111">>, <<"items","101">>, <<"name","111">>, <<"required","010">>, <<"schema","101">>, <<"style","000">>>>)
  \o RulesOf("pathItem", <<<<"additionalOperations","001">>, <<"delete","001">>, <<"description","000">>, <<"get","001">>, <<"head","001">>, <<"options","001">>, <<"parameters","001">>, <<"patch","001">>, <<"post","001">>, <<"put","001">>, <<"query","001">>, <<"servers","001">>, <<"summary","000">>, <<"trace","001">>>>)
  \o RulesOf("paths", <<<<"path","001">>>>)
  \o RulesOf("requestBody", <<<<"description","000">>, <<"required","111">>>>)
  \o RulesOf("response", <<<<"description","000">>, <<"examples","000">>, <<"schema","101">>, <<"summary","000">>>>)
  \o RulesOf("responses", <<<<"codes","001">>, <<"default","001">>>>)
  \o RulesOf("schema", <<<<"$comment","000">>, <<"$dynamicAnchor","011">>, <<"$dynamicRef","011">>, <<"$id","111">>, <<"$ref","000">>, <<"$vocabulary","111">>, <<"additionalProperties","111">>, <<"allOf","001">>, <<"anyOf","001">>, <<"const","010">>, <<"contains","101">>, <<"contentEncoding","010">>, <<"contentMediaType","010">>, <<"contentSchema","111">>, <<"default","010">>, <<"dependentRequired","011">>, <<"deprecated","000">>, <<"description","000">>, <<"discriminator","101">>, <<"else","101">>, <<"enum","001">>, <<"example","000">>, <<"examples","000">>, <<"exclusiveMaximum","010">>, <<"exclusiveMinimum","010">>, <<"externalDocs","000">>, <<"format","010">>, <<"if","101">>, <<"items","111">>, <<"maxItems","010">>, <<"maxLength","010">>, <<"maxProperties","010">>, <<"maximum","010">>, <<"minItems","010">>, <<"minLength","010">>, <<"minProperties","010">>, <<"minimum","010">>, <<"multipleOf","010">>, <<"not","101">>, <<"nullable","010">>, <<"oneOf","001">>, <<"pattern","010">>, <<"prefixItems","001">>, <<"properties","001">>, <<"propertyNames","101">>, <<"readOnly","010">>, <<"required","101">>, <<"schemaDialect","111">>, <<"then","101">>, <<"title","000">>, <<"type","010">>, <<"unevaluatedItems","101">>, <<"unevaluatedProperties","111">>, <<"uniqueItems","010">>, <<"writeOnly","010">>, <<"xml","001">>>>)
  \o RulesOf("schemas", <<<<"","101">>>>)
  \o RulesOf("security", <<<<"","001">>>>)
  \o RulesOf("securityRequirement", <<<<"schemes","001">>, <<"scopes","001">>>>)
  \o RulesOf("securityScheme", <<<<"authorizationUrl","111">>, <<"bearerFormat","000">>, <<"deprecated","000">>, <<"description","000">>, <<"flow","111">>, <<"flows","001">>, <<"in","111">>, <<"name","111">>, <<"oauth2MetadataUrl","000">>, <<"openIdConnectUrl","000">>, <<"scheme","111">>, <<"scopes","001">>, <<"tokenUrl","111">>, <<"type","111">>>>)
  \o RulesOf("server", <<<<"description","000">>, <<"name","111">>, <<"url","111">>>>)
  \o RulesOf("serverVariable", <<<<"default","111">>, <<"description","000">>, <<"enum","001">>>>)
  \o RulesOf("servers", <<<<"","001">>>>)
  \o RulesOf("tag", <<<<"description","000">>, <<"externalDocs","000">>, <<"kind","000">>, <<"name","011">>, <<"parent","111">>, <<"summary","000">>>>)
  \o RulesOf("tags", <<<<"","001">>>>)
  \o RulesOf("xml", <<<<"attribute","111">>, <<"name","111">>, <<"namespace","111">>, <<"nodeType","111">>, <<"prefix","111">>, <<"wrapped","111">>>>)
Kinds == {"added","modified","removed"}
Simple == {"openapi","jsonSchemaDialect","$self","components","schemas","servers","tags","security"}
HasRule(c, p) == \E i \in 1..Len(RuleTable) : RuleTable[i].c = c /\ RuleTable[i].p = p
Default(c, p) == RuleTable[CHOOSE i \in 1..Len(RuleTable) : RuleTable[i].c = c /\ RuleTable[i].p = p].w
=============================================================================
