------------------------------- MODULE Formats -------------------------------
(* Operations on formats, helpers and the SDK client: uniform view, used by Solid. *)
EXTENDS Authn, SdkClient, Stores, Messages

FOwner(e) ==
  CASE e.op \in {"pkj", "ctx"} -> {"F01"} [] e.op = "att" -> {"F02"}
    [] e.op \in {"vclaims", "vemb", "vset", "vsig"} -> {"G03"} [] e.op = "sign" -> (IF e.a.form = "jwt" THEN {"G03"} ELSE {"G10"}) [] e.op = "encrypt" -> {"G11"}
    [] e.op \in {"jarmenc", "jarmdec"} -> {"G01"} [] e.op = "reqobj" -> {"G02"}
    [] e.op \in {"vgen", "vext"} -> {"G04"} [] e.op \in {"pkcegen", "pkceval"} -> {"G05"} [] e.op = "pair" -> {"G06"} [] e.op = "gtok" -> {"G07"}
    [] e.op \in {"gintro", "usable"} -> {"G08"} [] e.op \in {"gen", "validate"} -> {"G09"} [] e.op = "profile" -> {"I01"}
    [] e.op \in {"strs", "equal"} -> {"K01"} [] e.op \in {"rand", "rglob"} -> {"K02"} [] e.op = "rfcerr" -> {"K03"} [] e.op \in {"prover", "cleanurl", "proofurl"} -> {"E01"}
    [] e.op \in {"sdknew", "sdkkeys", "sdkcc", "sdkintro", "sdkassert", "sdkpar"} -> {"J01"}
    [] e.op \in {"msg", "enum", "rpc"} -> MsgO
    [] e.op = "store" -> StO(e.a)
    [] OTHER -> {}

FGuards(s, e) ==
  CASE e.op = "pkj" -> PkjGuards(s, e) [] e.op = "att" -> AttGuards(s, e) [] e.op \in {"vclaims", "vemb", "vset", "vsig"} -> VGuards(s, e) [] e.op = "sign" -> SignGuards(s, e)
    [] e.op = "encrypt" -> EncGuards(s, e) [] e.op = "jarmenc" -> JeGuards(s, e) [] e.op = "jarmdec" -> JdGuards(s, e) [] e.op = "reqobj" -> RqGuards(s, e)
    [] e.op = "vgen" -> VgGuards(s, e) [] e.op = "vext" -> VxGuards(s, e) [] e.op = "pkceval" -> PvGuards(s, e) [] e.op = "pair" -> PwGuards(s, e) [] e.op = "gtok" -> GtGuards(s, e)
    [] e.op = "gintro" -> GiGuards(s, e) [] e.op = "validate" -> VlGuards(s, e) [] e.op = "prover" -> PvrGuards(s, e) [] e.op = "proofurl" -> PuGuards(s, e)
    [] e.op = "sdknew" -> SnGuards(s, e) [] e.op = "sdkkeys" -> SkGuards(s, e) [] e.op \in {"sdkcc", "sdkintro"} -> ScGuards(s, e) [] e.op = "sdkassert" -> SaGuards(s, e)
    [] e.op = "store" -> StGuards(s, e)
    [] OTHER -> <<>>
FFields(s, e) ==
  CASE e.op = "pkj" -> PkjFields(s, e) [] e.op = "ctx" -> CtxFields(s, e) [] e.op = "att" -> AttFields(s, e) [] e.op \in {"vclaims", "vemb", "vset", "vsig"} -> VFields(s, e) [] e.op = "sign" -> SignFields(s, e)
    [] e.op = "encrypt" -> EncFields(s, e) [] e.op = "jarmenc" -> JeFields(s, e) [] e.op = "jarmdec" -> JdFields(s, e) [] e.op = "reqobj" -> RqFields(s, e)
    [] e.op = "vgen" -> VgFields(s, e) [] e.op = "vext" -> VxFields(s, e) [] e.op = "pkcegen" -> PgFields(s, e) [] e.op = "pkceval" -> PvFields(s, e) [] e.op = "pair" -> PwFields(s, e)
    [] e.op = "gtok" -> GtFields(s, e) [] e.op = "gintro" -> GiFields(s, e) [] e.op = "usable" -> UsFields(s, e) [] e.op = "gen" -> GnFields(s, e) [] e.op = "profile" -> PrFields(s, e)
    [] e.op = "strs" -> TyFields(s, e) [] e.op = "equal" -> EqFields(s, e) [] e.op = "rand" -> RnFields(s, e) [] e.op = "rglob" -> RgFields(s, e) [] e.op = "rfcerr" -> ErFields(s, e)
    [] e.op = "prover" -> PvrFields(s, e) [] e.op = "cleanurl" -> CuFields(s, e)
    [] e.op = "sdknew" -> SnFields(s, e) [] e.op = "sdkkeys" -> SkFields(s, e) [] e.op = "sdkpar" -> SpFields(s, e) [] e.op = "sdkcc" -> ScFields(s, e) [] e.op = "sdkintro" -> SiFields(s, e) [] e.op = "sdkassert" -> SaFields(s, e)
    [] e.op = "msg" -> MsFields(s, e) [] e.op = "enum" -> EnFields(s, e) [] e.op = "rpc" -> RpcFields(s, e)
    [] e.op = "store" -> StFields(s, e)
    [] OTHER -> <<>>
FErr(s, e) ==
  CASE e.op \in {"pkj", "att"} -> AuthnErr(s, e) [] e.op \in {"vclaims", "vemb", "vset"} -> VErr(s, e) [] e.op = "encrypt" -> EncErr(s, e) [] e.op = "vext" -> VxErr(s, e) [] e.op = "pkceval" -> PvErr(s, e) [] e.op = "pair" -> PwErr(s, e)
    [] e.op = "sdknew" -> SnErr(s, e) [] e.op = "sdkkeys" -> SkErr(s, e) [] e.op \in {"sdkcc", "sdkintro"} -> ScErr(s, e) [] e.op = "store" -> StErr(s, e) [] OTHER -> <<>>
FPost(s, e) == IF e.op = "sdkpar" THEN SpPost(s, e) ELSE
  { CASE e.op = "jarmenc" -> JePost(s, e) [] e.op = "vgen" -> VgPost(s, e)
      [] e.op = "pkcegen" -> Mem(s, <<"pk", e.r.ver>>, [is |-> "verifier"])
      [] e.op = "pair" -> (IF e.r.ok THEN Mem(s, PwKey(e), [out |-> e.r.out]) ELSE s)
      [] e.op = "gen" -> GnPost(s, e) [] e.op = "prover" -> (IF e.r.ok THEN Mem(s, <<"pj", e.r.jti>>, [is |-> "jti"]) ELSE s)
      [] e.op = "sdknew" -> SnPost(s, e) [] e.op = "sdkkeys" -> SkPost(s, e) [] e.op = "sdkassert" -> SaPost(s, e) [] e.op = "store" -> StPost(s, e)
      [] OTHER -> s }
=============================================================================
