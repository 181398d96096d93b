------------------------------ MODULE Messages ------------------------------
(***************************************************************************)
(* The messages of the API as declared by the .proto contract               *)
(* (messages.json): what an encoding keeps, what it names, and where a      *)
(* remote call arrives. A message is described by a sequence of settings    *)
(* [p |-> path of field names, key |-> key of a map field, v |-> value];    *)
(* setting a field inside a repeated message adds an element.               *)
(***************************************************************************)
EXTENDS Base, Json

MReg == JsonDeserialize("messages.json")
Types == DOMAIN MReg.messages
FieldsOf(t) == MReg.messages[t]
Fld(t, n) == FieldsOf(t)[CHOOSE i \in DOMAIN FieldsOf(t) : FieldsOf(t)[i].n = n]
RECURSIVE Leaf(_, _)
Leaf(t, p) == IF Len(p) = 1 THEN Fld(t, p[1]) ELSE Leaf(Fld(t, p[1]).t, Tail(p))
Pre(p, i) == SubSeq(p, 1, i)
At(t, p, i) == Leaf(t, Pre(p, i))
ZeroOf(f) == CASE f.k \in {"string", "bytes", "message", "map"} -> "" [] f.k = "bool" -> "false" [] f.k = "enum" -> MReg.enums[f.t][1].n [] OTHER -> "0"

\* settings overridden by later ones
Elem(t, p, i) == \E k \in 1..i : At(t, p, k).p = "repeated"
Dead(t, q, j) == \E h \in j+1..Len(q) :
  \/ q[h].p = q[j].p /\ q[h].key = q[j].key /\ ~Elem(t, q[j].p, Len(q[j].p))
  \/ \E i \in 1..Min2(Len(q[h].p), Len(q[j].p)) :
        /\ Pre(q[h].p, i - 1) = Pre(q[j].p, i - 1) /\ (i > 1 => ~Elem(t, q[j].p, i - 1))
        /\ At(t, q[j].p, i).of # "" /\ At(t, q[h].p, i).of = At(t, q[j].p, i).of /\ q[h].p[i] # q[j].p[i]
Live(t, q) == { j \in DOMAIN q : ~Dead(t, q, j) }

\* the name of what a setting sets
Idx(t, q, j, i) == IF i > 1 /\ Elem(t, q[j].p, i - 1) THEN 0 ELSE Cardinality({ h \in 1..j-1 : Len(q[h].p) >= i /\ Pre(q[h].p, i) = Pre(q[j].p, i) })
Seg(t, q, j, i) == LET f == At(t, q[j].p, i) IN
  f.n \o (CASE f.p = "repeated" -> "[" \o ToString(Idx(t, q, j, i)) \o "]" [] f.p = "map" -> "[" \o q[j].key \o "]" [] OTHER -> "")
RECURSIVE Name(_, _, _, _)
Name(t, q, j, i) == IF i = 1 THEN Seg(t, q, j, 1) ELSE Name(t, q, j, i - 1) \o "." \o Seg(t, q, j, i)
LeafZero(t, q, j) == LET f == Leaf(t, q[j].p) IN f.k # "message" /\ q[j].v = ZeroOf(f)
Held(t, q, j, all) == LET f == Leaf(t, q[j].p) IN ~LeafZero(t, q, j) \/ f.p \in {"repeated", "map"} \/ (all /\ f.p \in {"optional", "oneof"})
Value(t, q, j) == IF Leaf(t, q[j].p).k = "message" THEN "{}" ELSE q[j].v
\* everything the message holds; all: also the zero values set explicitly
Lines(t, q, all) == UNION { { Name(t, q, j, i) \o "={}" : i \in 1..Len(q[j].p) - 1 }
                            \cup (IF Held(t, q, j, all) THEN { Name(t, q, j, Len(q[j].p)) \o "=" \o Value(t, q, j) } ELSE {}) : j \in Live(t, q) }
\* fields written on the wire, fields written in JSON
Written(t, q) == { Fld(t, q[j].p[1]) : j \in { h \in Live(t, q) : Len(q[h].p) > 1 \/ Held(t, q, h, TRUE) } }
JsonNames(t, q) == { f.n : f \in { x \in Range(FieldsOf(t)) : x.p \notin {"optional", "oneof"} } \cup Written(t, q) }

MsgO == {"M01"}
MsFields(s, e) == LET a == e.a r == e.r L == Lines(a.type, a.set, TRUE) IN
  IF a.cut >= 0
  THEN << G("a part of an encoding holds nothing else", r.done => Range(r.got) \subseteq L, MsgO) >>
  ELSE << G("encoded", r.enc_ok, MsgO), G("decoded", r.done, MsgO), G("size announced", r.sized, MsgO),
          G("content after " \o a.enc \o " to " \o a.dec, Range(r.got) = L /\ Len(r.got) = Cardinality(L), MsgO),
          G("accessors", Range(r.get) = Lines(a.type, a.set, FALSE), MsgO),
          G("field numbers", a.enc \in {"vt", "pb"} => Range(r.nums) = { f.no : f \in Written(a.type, a.set) }, MsgO),
          G("field names", a.enc = "json" => Range(r.names) = JsonNames(a.type, a.set), MsgO),
          G("a message of nothing", r.nothing, MsgO) >>
EnFields(s, e) == LET a == e.a x == MReg.enums[a.type] IN
  << G("named", e.r.name = (IF \E i \in DOMAIN x : x[i].no = a.no THEN x[CHOOSE i \in DOMAIN x : x[i].no = a.no].n ELSE ToString(a.no)), MsgO) >>

\* remote calls
Services == DOMAIN MReg.services
RpcO == {"M01"}
RpcFields(s, e) == LET a == e.a r == e.r m == MReg.services[a.svc][CHOOSE i \in DOMAIN MReg.services[a.svc] : MReg.services[a.svc][i].n = a.method] IN
  << G("path", r.path = "/" \o a.svc \o "/" \o a.method /\ (a.icpt => r.ipath = r.path), RpcO),
     G("method reached", r.called = (IF a.mode = "unimpl" THEN <<>> ELSE << a.svc \o "/" \o a.method >>), RpcO),
     G("request", a.mode # "unimpl" => Range(r.got) = Lines(m.in, a.set, TRUE), RpcO),
     G("response", a.mode = "ok" => Range(r.back) = Lines(m.out, a.rset, TRUE), RpcO),
     G("status", r.status = (CASE a.mode = "ok" -> "OK" [] a.mode = "unimpl" -> "Unimplemented" [] OTHER -> "PermissionDenied"), RpcO) >>
=============================================================================
