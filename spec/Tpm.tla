-------------------------------- MODULE Tpm --------------------------------
(***************************************************************************)
(* TPM 2.0: policies and their digests, command streams, the exchange with *)
(* the simulator, and the tables of command and response codes.            *)
(* A primitive: [k "loc", v localities] or [k "cc", s name of a command].  *)
(* A policy: a primitive alone [k "solo", c], conjunctions of primitives   *)
(* [k "and", cs] and disjunctions [k "or", cs].                            *)
(***************************************************************************)
EXTENDS Bytes, TLC
Commands ==
  {<<287, "TPM_CC_NV_UndefineSpaceSpecial">>, <<288, "TPM_CC_EvictControl">>, <<289, "TPM_CC_HierarchyControl">>, <<290, "TPM_CC_NV_UndefineSpace">>,
   <<292, "TPM_CC_ChangeEPS">>, <<293, "TPM_CC_ChangePPS">>, <<294, "TPM_CC_Clear">>, <<295, "TPM_CC_ClearControl">>, <<296, "TPM_CC_ClockSet">>,
   <<297, "TPM_CC_HierarchyChangeAuth">>, <<298, "TPM_CC_NV_DefineSpace">>, <<299, "TPM_CC_PCR_Allocate">>, <<300, "TPM_CC_PCR_SetAuthPolicy">>, <<301, "TPM_CC_PP_Commands">>,
   <<302, "TPM_CC_SetPrimaryPolicy">>, <<303, "TPM_CC_FieldUpgradeStart">>, <<304, "TPM_CC_ClockRateAdjust">>, <<305, "TPM_CC_CreatePrimary">>,
   <<306, "TPM_CC_NV_GlobalWriteLock">>, <<307, "TPM_CC_GetCommandAuditDigest">>, <<308, "TPM_CC_NV_Increment">>, <<309, "TPM_CC_NV_SetBits">>, <<310, "TPM_CC_NV_Extend">>,
   <<311, "TPM_CC_NV_Write">>, <<312, "TPM_CC_NV_WriteLock">>, <<313, "TPM_CC_DictionaryAttackLockReset">>, <<314, "TPM_CC_DictionaryAttackParameters">>,
   <<315, "TPM_CC_NV_ChangeAuth">>, <<316, "TPM_CC_PCR_Event">>, <<317, "TPM_CC_PCR_Reset">>, <<318, "TPM_CC_SequenceComplete">>, <<319, "TPM_CC_SetAlgorithmSet">>,
   <<320, "TPM_CC_SetCommandCodeAuditStatus">>, <<321, "TPM_CC_FieldUpgradeData">>, <<322, "TPM_CC_IncrementalSelfTest">>, <<323, "TPM_CC_SelfTest">>,
   <<324, "TPM_CC_Startup">>, <<325, "TPM_CC_Shutdown">>, <<326, "TPM_CC_StirRandom">>, <<327, "TPM_CC_ActivateCredential">>, <<328, "TPM_CC_Certify">>,
   <<329, "TPM_CC_PolicyNV">>, <<330, "TPM_CC_CertifyCreation">>, <<331, "TPM_CC_Duplicate">>, <<332, "TPM_CC_GetTime">>, <<333, "TPM_CC_GetSessionAuditDigest">>,
   <<334, "TPM_CC_NV_Read">>, <<335, "TPM_CC_NV_ReadLock">>, <<336, "TPM_CC_ObjectChangeAuth">>, <<337, "TPM_CC_PolicySecret">>, <<338, "TPM_CC_Rewrap">>,
   <<339, "TPM_CC_Create">>, <<340, "TPM_CC_ECDH_ZGen">>, <<341, "TPM_CC_HMAC">>, <<342, "TPM_CC_Import">>, <<343, "TPM_CC_Load">>, <<344, "TPM_CC_Quote">>,
   <<345, "TPM_CC_RSA_Decrypt">>, <<347, "TPM_CC_HMAC_Start">>, <<348, "TPM_CC_SequenceUpdate">>, <<349, "TPM_CC_Sign">>, <<350, "TPM_CC_Unseal">>,
   <<352, "TPM_CC_PolicySigned">>, <<353, "TPM_CC_ContextLoad">>, <<354, "TPM_CC_ContextSave">>, <<355, "TPM_CC_ECDH_KeyGen">>, <<356, "TPM_CC_EncryptDecrypt">>,
   <<357, "TPM_CC_FlushContext">>, <<359, "TPM_CC_LoadExternal">>, <<360, "TPM_CC_MakeCredential">>, <<361, "TPM_CC_NV_ReadPublic">>, <<362, "TPM_CC_PolicyAuthorize">>,
   <<363, "TPM_CC_PolicyAuthValue">>, <<364, "TPM_CC_PolicyCommandCode">>, <<365, "TPM_CC_PolicyCounterTimer">>, <<366, "TPM_CC_PolicyCpHash">>,
   <<367, "TPM_CC_PolicyLocality">>, <<368, "TPM_CC_PolicyNameHash">>, <<369, "TPM_CC_PolicyOR">>, <<370, "TPM_CC_PolicyTicket">>, <<371, "TPM_CC_ReadPublic">>,
   <<372, "TPM_CC_RSA_Encrypt">>, <<374, "TPM_CC_StartAuthSession">>, <<375, "TPM_CC_VerifySignature">>, <<376, "TPM_CC_ECC_Parameters">>, <<377, "TPM_CC_FirmwareRead">>,
   <<378, "TPM_CC_GetCapability">>, <<379, "TPM_CC_GetRandom">>, <<380, "TPM_CC_GetTestResult">>, <<381, "TPM_CC_Hash">>, <<382, "TPM_CC_PCR_Read">>,
   <<383, "TPM_CC_PolicyPCR">>, <<384, "TPM_CC_PolicyRestart">>, <<385, "TPM_CC_ReadClock">>, <<386, "TPM_CC_PCR_Extend">>, <<387, "TPM_CC_PCR_SetAuthValue">>,
   <<388, "TPM_CC_NV_Certify">>, <<389, "TPM_CC_EventSequenceComplete">>, <<390, "TPM_CC_HashSequenceStart">>, <<391, "TPM_CC_PolicyPhysicalPresence">>,
   <<392, "TPM_CC_PolicyDuplicationSelect">>, <<393, "TPM_CC_PolicyGetDigest">>, <<394, "TPM_CC_TestParms">>, <<395, "TPM_CC_Commit">>, <<396, "TPM_CC_PolicyPassword">>,
   <<397, "TPM_CC_ZGen_2Phase">>, <<398, "TPM_CC_EC_Ephemeral">>}
GenericErrors ==
  {<<0, "TPM_RC_INITIALIZE">>, <<1, "TPM_RC_FAILURE">>, <<3, "TPM_RC_SEQUENCE">>, <<11, "TPM_RC_PRIVATE">>, <<25, "TPM_RC_HMAC">>, <<32, "TPM_RC_DISABLED">>,
   <<33, "TPM_RC_EXCLUSIVE">>, <<36, "TPM_RC_AUTH_TYPE">>, <<37, "TPM_RC_AUTH_MISSING">>, <<38, "TPM_RC_POLICY">>, <<39, "TPM_RC_PCR">>, <<40, "TPM_RC_PCR_CHANGED">>,
   <<45, "TPM_RC_UPGRADE">>, <<46, "TPM_RC_TOO_MANY_CONTEXTS">>, <<47, "TPM_RC_AUTH_UNAVAILABLE">>, <<48, "TPM_RC_REBOOT">>, <<49, "TPM_RC_UNBALANCED">>,
   <<66, "TPM_RC_COMMAND_SIZE">>, <<67, "TPM_RC_COMMAND_CODE">>, <<68, "TPM_RC_AUTHSIZE">>, <<69, "TPM_RC_AUTH_CONTEXT">>, <<70, "TPM_RC_NV_RANGE">>, <<71, "TPM_RC_NV_SIZE">>,
   <<72, "TPM_RC_NV_LOCKED">>, <<73, "TPM_RC_NV_AUTHORIZATION">>, <<74, "TPM_RC_NV_UNINITIALIZED">>, <<75, "TPM_RC_NV_SPACE">>, <<76, "TPM_RC_NV_DEFINED">>,
   <<80, "TPM_RC_BAD_CONTEXT">>, <<81, "TPM_RC_CPHASH">>, <<82, "TPM_RC_PARENT">>, <<83, "TPM_RC_NEEDS_TEST">>, <<84, "TPM_RC_NO_RESULT">>, <<85, "TPM_RC_SENSITIVE">>}
HandleErrors ==
  {<<1, "TPM_RC_ASYMMETRIC">>, <<2, "TPM_RC_ATTRIBUTES">>, <<3, "TPM_RC_HASH">>, <<4, "TPM_RC_VALUE">>, <<5, "TPM_RC_HIERARCHY">>, <<7, "TPM_RC_KEY_SIZE">>,
   <<8, "TPM_RC_MGF">>, <<9, "TPM_RC_MODE">>, <<10, "TPM_RC_TYPE">>, <<11, "TPM_RC_HANDLE">>, <<12, "TPM_RC_KDF">>, <<13, "TPM_RC_RANGE">>, <<14, "TPM_RC_AUTH_FAIL">>,
   <<15, "TPM_RC_NONCE">>, <<16, "TPM_RC_PP">>, <<18, "TPM_RC_SCHEME">>, <<21, "TPM_RC_SIZE">>, <<22, "TPM_RC_SYMMETRIC">>, <<23, "TPM_RC_TAG">>, <<24, "TPM_RC_SELECTOR">>,
   <<26, "TPM_RC_INSUFFICIENT">>, <<27, "TPM_RC_SIGNATURE">>, <<28, "TPM_RC_KEY">>, <<29, "TPM_RC_POLICY_FAIL">>, <<31, "TPM_RC_INTEGRITY">>, <<32, "TPM_RC_TICKET">>,
   <<33, "TPM_RC_RESERVED_BITS">>, <<34, "TPM_RC_BAD_AUTH">>, <<35, "TPM_RC_EXPIRED">>, <<36, "TPM_RC_POLICY_CC">>, <<37, "TPM_RC_BINDING">>, <<38, "TPM_RC_CURVE">>,
   <<39, "TPM_RC_ECC_POINT">>}
Warnings ==
  {<<1, "TPM_RC_CONTEXT_GAP">>, <<2, "TPM_RC_OBJECT_MEMORY">>, <<3, "TPM_RC_SESSION_MEMORY">>, <<4, "TPM_RC_MEMORY">>, <<5, "TPM_RC_SESSION_HANDLES">>,
   <<6, "TPM_RC_OBJECT_HANDLES">>, <<7, "TPM_RC_LOCALITY">>, <<8, "TPM_RC_YIELDED">>, <<9, "TPM_RC_CANCELED">>, <<10, "TPM_RC_TESTING">>, <<16, "TPM_RC_REFERENCE_H0">>,
   <<17, "TPM_RC_REFERENCE_H1">>, <<18, "TPM_RC_REFERENCE_H2">>, <<19, "TPM_RC_REFERENCE_H3">>, <<20, "TPM_RC_REFERENCE_H4">>, <<21, "TPM_RC_REFERENCE_H5">>,
   <<22, "TPM_RC_REFERENCE_H6">>, <<24, "TPM_RC_REFERENCE_S0">>, <<25, "TPM_RC_REFERENCE_S1">>, <<26, "TPM_RC_REFERENCE_S2">>, <<27, "TPM_RC_REFERENCE_S3">>,
   <<28, "TPM_RC_REFERENCE_S4">>, <<29, "TPM_RC_REFERENCE_S5">>, <<30, "TPM_RC_REFERENCE_S6">>, <<32, "TPM_RC_NV_RATE">>, <<33, "TPM_RC_LOCKOUT">>, <<34, "TPM_RC_RETRY">>,
   <<35, "TPM_RC_NV_UNAVAILABLE">>}
Known(name) == \E c \in Commands : c[2] = name
Code(name) == (CHOOSE c \in Commands : c[2] = name)[1]
NameOf(T, n) == IF \E c \in T : c[1] = n THEN (CHOOSE c \in T : c[1] = n)[2] ELSE "none"

\* what a response code says: class, where, number, code, name
Bit(x, i) == (x \div (2 ^ i)) % 2
Unknown == <<"unknown">>
Response(x) ==
  IF x = 0 THEN <<"Success", "None", "0", "TPM_RC_SUCCESS", "NA">>
  ELSE IF Bit(x, 7) = 0 /\ Bit(x, 8) = 0 THEN <<"Tpm1.2 Response", "None", "0", "0", "NA">>
  ELSE IF Bit(x, 7) = 0 THEN
    IF Bit(x, 10) = 1 THEN <<"Vendor Defined Code", "None", "0", "0", "NA">>
    ELSE LET c == x % 128 T == IF Bit(x, 11) = 1 THEN Warnings ELSE GenericErrors IN
         IF NameOf(T, c) = "none" THEN Unknown
         ELSE IF Bit(x, 11) = 1 THEN <<"Warning", "None", "0", NameOf(T, c), "NA">> ELSE <<"Error", "None", "0", ToString(c), NameOf(T, c)>>
  ELSE LET c == x % 64 IN
       IF Bit(x, 6) = 1 THEN <<"Error", "Parameter", ToString((x \div 256) % 16), ToString(c), "NA">>
       ELSE IF Bit(x, 11) = 1 THEN <<"Error", "Session", ToString((x \div 256) % 8), ToString(c), "NA">>
       ELSE IF NameOf(HandleErrors, c) = "none" THEN Unknown ELSE <<"Error", "Handle", ToString((x \div 256) % 8), ToString(c), NameOf(HandleErrors, c)>>
Simple(x) == IF x >= 256 /\ x < 384 THEN NameOf(GenericErrors, x - 256) ELSE "none"

----------------------------------------------------------------------------
\* localities 0 to 4 may be combined, one of 32 to 255 stands alone
Lower(x) == x >= 0 /\ x < 5
Upper(x) == x >= 32 /\ x < 256
PrimOk(p) == IF p.k = "loc" THEN \A i \in 1..Len(p.v) : Lower(p.v[i]) \/ (Upper(p.v[i]) /\ Len(p.v) = 1)
             ELSE Known(p.s)
RECURSIVE SumPow(_)
SumPow(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN 2 ^ x + SumPow(S \ {x})
Bits(v) == IF Len(v) = 1 /\ Upper(v[1]) THEN v[1] ELSE SumPow({v[i] : i \in 1..Len(v)})
PrimBytes(p) == IF p.k = "loc" THEN BEn(Code("TPM_CC_PolicyLocality"), 4) \o <<Bits(p.v)>>
                ELSE BEn(Code("TPM_CC_PolicyCommandCode"), 4) \o BEn(Code(p.s), 4)
IsPrim(c) == c.k \in {"loc", "cc"}
\* whether it can be put together
RECURSIVE Built(_)
Built(c) == CASE IsPrim(c) -> PrimOk(c)
              [] c.k = "solo" -> IsPrim(c.c) /\ PrimOk(c.c)
              [] c.k = "and" -> \A i \in 1..Len(c.cs) : IsPrim(c.cs[i]) /\ PrimOk(c.cs[i])
              [] OTHER -> Len(c.cs) <= 8 /\ \A i \in 1..Len(c.cs) : Built(c.cs[i])
\* whether it is a policy throughout
RECURSIVE Valid(_)
Valid(c) == ~IsPrim(c) /\ (c.k = "or" => \A i \in 1..Len(c.cs) : Valid(c.cs[i]))
\* everything that is hashed goes through H(_), given as a set of <<input, output>> pairs or as the brackets of the model
Zeros(n) == Rep(0, n)
Lookup(T, b) == IF \E i \in 1..Len(T) : T[i].i = b THEN T[CHOOSE i \in 1..Len(T) : T[i].i = b].o ELSE <<>>
Hashed(T, b) == IF T = <<>> THEN <<1000>> \o b \o <<1001>> ELSE Lookup(T, b)
RECURSIVE AndFrom(_, _, _)
AndFrom(T, cur, cs) == IF cs = <<>> THEN cur ELSE AndFrom(T, Hashed(T, cur \o PrimBytes(cs[1])), Tail(cs))
RECURSIVE Digest(_, _, _)
Digest(T, n, c) ==
  CASE c.k = "solo" -> Hashed(T, Zeros(n) \o PrimBytes(c.c))
    [] c.k = "and" -> AndFrom(T, Zeros(n), c.cs)
    [] OTHER -> Hashed(T, Zeros(n) \o BEn(Code("TPM_CC_PolicyOR"), 4) \o Cat([i \in 1..Len(c.cs) |-> Digest(T, n, c.cs[i])]))

----------------------------------------------------------------------------
\* a command: [tag, code, els]; an element: [k "int", w width, v 8 bytes big endian] or [k "2b", d data]
Fits(e) == IF e.k = "2b" THEN Len(e.d) < 65536 ELSE e.w \in {1, 2, 4, 8} /\ \A i \in 1..(8 - e.w) : e.v[i] = 0
ElBytes(e) == IF e.k = "2b" THEN BEn(Len(e.d), 2) \o e.d ELSE SubSeq(e.v, 9 - e.w, 8)
ElsBytes(els) == Cat([i \in 1..Len(els) |-> ElBytes(els[i])])
CommandBytes(c) == c.tag \o BEn(10 + Len(ElsBytes(c.els)), 4) \o c.code \o ElsBytes(c.els)

\* the exchange with the simulator
Hello == BEn(2, 4) \o BEn(1, 4) \o BEn(11, 4)
Request(d) == BEn(8, 4) \o <<3>> \o BEn(Len(d), 4) \o d
Startup(t) == CommandBytes([tag |-> <<128, 1>>, code |-> BEn(Code("TPM_CC_Startup"), 4), els |-> <<[k |-> "int", w |-> 2, v |-> Zeros(6) \o BEn(t, 2)]>>])
\* the response: empty ones are waited over; n is the number of bytes used
RECURSIVE Answer(_)
Answer(s) == IF Len(s) < 4 THEN [ok |-> FALSE]
             ELSE LET n == RdBE(s, 1, 4) IN
                  IF n = 0 THEN Answer(From(s, 5))
                  ELSE IF Len(s) < 4 + n THEN [ok |-> FALSE] ELSE [ok |-> TRUE, d |-> At(s, 5, n), rest |-> From(s, 5 + n)]
=============================================================================
