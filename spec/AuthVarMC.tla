----------------------------- MODULE AuthVarMC -----------------------------
(* Variables written, then damaged in one place or cut short. *)
EXTENDS AuthVar, Json
VARIABLES msg, phase, good
vars == <<msg, phase, good>>
Times == {<<2020, 2, 29, 23, 59, 59>>, <<1, 1, 1, 0, 0, 0>>, <<1900, 2, 28, 12, 0, 1>>}
Certs == {<<>>, <<48, 1>>}
Payloads == {<<>>, <<7>>, Enc([New("sha256") EXCEPT !.hs = 0]), Enc(Add(SetHeader(New("x509"), 18).l, [o |-> Rep(3, 16), d |-> <<1, 2>>]).l)}
Init == \E t \in Times, c \in Certs, p \in Payloads, k \in {"guid", "pkcs1"} :
          /\ good = [t |-> t, c |-> c, p |-> p, k |-> k]
          /\ msg = EncVar(t, IF k = "guid" THEN EncGuidCert(c) ELSE EncPkcs1(Rep(9, 16), c), p) /\ phase = "ok"
Cut == \E n \in 0..(Len(msg) - 1) : msg' = At(msg, 1, n) /\ phase' = "cut"
Hit == \E i \in (1..24) \cup {32, 40}, v \in {0, 1, 30, 60, 255} : i <= Len(msg) /\ msg[i] # v /\ msg' = [msg EXCEPT ![i] = v] /\ phase' = "hit"
Next == phase = "ok" /\ (Cut \/ Hit) /\ UNCHANGED good
Spec == Init /\ [][Next]_vars
ReadsBack == phase = "ok" => IF good.k = "pkcs1" /\ good.c = <<>> /\ good.p = <<>> THEN VarKind(msg) = "refused"
              ELSE /\ VarKind(msg) = good.k
                   /\ Var(msg).time = good.t /\ Var(msg).cert = good.c /\ Var(msg).payload = good.p
                   /\ EncVar(Var(msg).time, CertBytes(From(msg, 17)), Var(msg).payload) = msg
\* cut inside the time or the certificate: refused; cut inside the payload: only the payload is shorter
CutRefused == phase = "cut" => IF Len(msg) < 40 + Len(good.c) THEN VarKind(msg) \in {"refused", "none"} ELSE (VarKind(msg) = "refused" \/ Var(msg).cert = good.c)
Accounted == VarKind(msg) \in {"guid", "pkcs1"} => Len(msg) = 16 + Len(CertBytes(From(msg, 17))) + Len(Var(msg).payload)
Emit == PrintT("@@" \o ToJson(msg))
=============================================================================
