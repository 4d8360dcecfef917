------------------------------- MODULE OasBreak -------------------------------
(* The rule that decides whether a change is breaking: every edit of a        *)
(* description that is reported at the edited object itself, with the rule    *)
(* (object and field) that governs it.                                        *)
EXTENDS OasEdit, BreakTable
\* the object a rule calls by this name
Comp(T) == CASE T = "Info" -> "info" [] T = "Contact" -> "contact" [] T = "License" -> "license" [] T = "Server" -> "server" [] T = "ServerVariable" -> "serverVariable"
  [] T = "Tag" -> "tag" [] T = "ExternalDoc" -> "externalDocs" [] T = "SecurityRequirement" -> "securityRequirement" [] T \in {"Paths","Paths2"} -> "paths"
  [] T \in {"PathItem","PathItem2"} -> "pathItem" [] T \in {"Operation","Operation2"} -> "operation" [] T \in {"Parameter","Parameter2"} -> "parameter"
  [] T \in {"Header","Header2"} -> "header" [] T = "RequestBody" -> "requestBody" [] T = "MediaType" -> "mediaType" [] T = "Encoding" -> "encoding"
  [] T \in {"Responses","Responses2"} -> "responses" [] T \in {"Response","Response2"} -> "response" [] T = "Link" -> "link" [] T = "Callback" -> "callback"
  [] T = "Example" -> "example" [] T \in {"SecurityScheme","SecurityScheme2"} -> "securityScheme" [] T = "OAuthFlows" -> "oauthFlows" [] T = "OAuthFlow" -> "oauthFlow"
  [] T = "Discriminator" -> "discriminator" [] T = "XML" -> "xml" [] T \in {"Schema","Schema2"} -> "schema" [] OTHER -> ""
NoRule == [c |-> "", p |-> "", as |-> ""]
Rl(c, p) == IF HasRule(c, p) THEN [c |-> c, p |-> p, as |-> ""] ELSE NoRule
RuleOf(e, f) == LET T == e.f.t IN
  CASE T \in {"Document", "Swagger"} -> IF f.n = "swagger" THEN Rl("openapi", "") ELSE Rl(f.n, "")
  [] T = "Components" -> NoRule
  \* the changes of an example are those of the examples it is one of
  [] T = "Example" -> IF e.p \in {"Parameter", "Header", "MediaType"} THEN [c |-> Comp(e.p), p |-> "examples", as |-> "M"] ELSE NoRule
  [] T = "SecurityRequirement" -> Rl("securityRequirement", "scopes")
  [] T \in {"Paths", "Paths2"} -> Rl("paths", "path")
  [] T \in {"Responses", "Responses2"} /\ f.k = "self" -> Rl("responses", "codes")
  [] T = "Callback" -> Rl("callback", "expressions")
  [] T \in {"Schema", "Schema2"} /\ f.n = "$schema" -> Rl("schema", "schemaDialect")
  [] OTHER -> Rl(Comp(T), f.n)
\* the report of the edit is about the field itself, not about what the field holds
Direct(f, leaf, ed) == LET old == ValOf(leaf, ed.key) IN
  CASE ed.kind = "ext" \/ ~ed.q \/ ed.bad -> FALSE
  [] f.n = "" -> (f.k = "self" /\ (ed.op = "del" \/ old.t = "none")) \/ (f.k = "selfs" /\ ed.op = "set" /\ old.t # "none")
  [] f.n = IdKey("") -> FALSE
  [] f.k \in {"obj", "sob"} -> old.t = "none" \/ ed.op = "del"
  [] f.k = "map" -> old.t = "none" \/ ed.op = "del" \/ \A i \in 1..Len(old.k) : HasKey(ed.v, old.k[i]) => SameContent(old.c[i], Child(ed.v, old.k[i]))
  [] f.k = "list" -> f.n # "allOf" /\ (old.t = "none" \/ ed.op = "del" \/ \A i \in 1..Len(ed.r) : ed.r[i].c \in {"A", "R"})
  [] OTHER -> TRUE
FieldOf(T, ver, ed) == LET fs == FieldsAt(T, Lvl(ver)) IN
   LET hit == SelectSeq(fs, LAMBDA f : IF ed.kind \in {"self", "selfs"} THEN f.k = ed.kind ELSE f.n = ed.key) IN IF Len(hit) = 0 THEN F("", "none", "", 0) ELSE hit[1]
\* entries of the scopes a security scheme of 2.0 has are scopes of a flow
RuleFor(e, f, leaf, ed) == IF e.f.t = "SecurityScheme2" /\ f.n = "scopes" /\ ed.op = "set" /\ HasKey(leaf, "scopes") THEN Rl("oauthFlow", "scopes") ELSE RuleOf(e, f)
\* a new parameter that must be given is breaking, whatever the rules say
Must(s, leaf) == LET T == s.e.f.t  req == SetKey(Base("Parameter"), "required", BoolN(TRUE))
     other == SetKey(SetKey(req, "name", StrN("must")), "in", StrN("header"))
     old == ValOf(leaf, "parameters")
     put == SeqN(IF old.t = "none" THEN <<other>> ELSE Append(old.c, other)) IN
   IF T \notin {"PathItem", "PathItem2", "Operation", "Operation2"} THEN <<>> ELSE
   <<[ed |-> Ed("set", "parameters", "list", put, <<>>, TRUE), rl |-> [Rl(Comp(T), "parameters") EXCEPT !.as = "must"]]>>
Ruled(s, leaf) == LET T == s.e.f.t
    cand == Tup(SelectSeq(Edits(s.ver, T, leaf), LAMBDA e : e.kind # "ext" /\ e.q /\ ~e.bad))
    with == Tup([i \in 1..Len(cand) |-> [ed |-> cand[i], f |-> FieldOf(T, s.ver, cand[i])]])
    pick == Tup(SelectSeq(with, LAMBDA x : x.f.k # "none" /\ (x.f.n = "" \/ x.f.n # IdKey(T)) /\ Direct(x.f, leaf, x.ed)))
    ruled == Tup([i \in 1..Len(pick) |-> [ed |-> pick[i].ed, rl |-> RuleFor(s.e, pick[i].f, leaf, pick[i].ed)]])
  IN Tup(SelectSeq(ruled, LAMBDA x : x.rl.c # "")) \o Must(s, leaf)
BLine(s, way, leaf, r) == [ver |-> s.ver, t |-> s.e.f.t, base |-> s.base, at |-> AddrOf(way), cmp |-> TRUE, doc |-> DocOf(s, leaf), ruled |-> r]
BShow == /\ st.ph = "doc"
         /\ \E way \in {WayOf(st.ver, st.e)} : \E leaf \in {LeafOf(st.ver, st.e.f.t, st.base)} :
              IF ~Compared(way) THEN TRUE ELSE \E r \in {Ruled(st, leaf)} : Len(r) > 0 => Emit(BLine(st, way, leaf, r))
         /\ st' = [st EXCEPT !.ph = "shown"]
BNext == Open \/ BShow
BSpec == Init /\ [][BNext]_st
\* the table has each rule once
OnceEach == \A i, j \in 1..Len(RuleTable) : (RuleTable[i].c = RuleTable[j].c /\ RuleTable[i].p = RuleTable[j].p) => i = j
ASSUME OnceEach
=============================================================================
