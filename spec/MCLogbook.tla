------------------------------- MODULE MCLogbook -------------------------------
(* Two loggers, enabling and disabling, restarts, failing values, rollover              *)
EXTENDS Logbook, Json
CONSTANTS MaxOps
VARIABLES conf, en, files, hist, log
vars == <<conf, en, files, hist, log>>
L == {"a", "b"}
Size(r) == 1 + Len(r.kv)
Init == /\ conf \in [on : BOOLEAN, max : {0, 4}, rot : {0, 1, 2}] /\ (conf.max = 0 => conf.rot = 0)
        /\ en = [x \in L |-> "none"] /\ files = <<>> /\ hist = <<>> /\ log = <<>>
Now == Len(log)
Did(o) == log' = Append(log, o) /\ UNCHANGED conf
Get(x) == en' = [en EXCEPT ![x] = IF conf.on THEN "on" ELSE IF en[x] = "none" THEN "off" ELSE @]
          /\ Did([op |-> "get", x |-> x]) /\ UNCHANGED <<files, hist>>
Set(x, v) == en[x] # "none" /\ en' = [en EXCEPT ![x] = v] /\ Did([op |-> v, x |-> x]) /\ UNCHANGED <<files, hist>>
Log(x, n) == /\ en[x] # "none"
             /\ LET r == [t |-> Now, kv |-> [i \in 1..n |-> <<x, Now>>]] IN
                IF en[x] = "on" THEN files' = Write(files, r, conf.max, conf.rot, Size) /\ hist' = Append(hist, r)
                ELSE UNCHANGED <<files, hist>>
             /\ Did([op |-> "log" \o ToString(n), x |-> x]) /\ UNCHANGED en
Fail(x) == en[x] # "none" /\ Did([op |-> "fail", x |-> x]) /\ UNCHANGED <<en, files, hist>>
Plain(x) == en[x] # "none" /\ Did([op |-> "plain", x |-> x]) /\ UNCHANGED <<en, files, hist>>
Restart == en' = [x \in L |-> "none"] /\ Did([op |-> "restart", x |-> "-"]) /\ UNCHANGED <<files, hist>>
Next == Len(log) < MaxOps /\ (Restart \/ \E x \in L : Get(x) \/ Set(x, "on") \/ Set(x, "off") \/ Log(x, 1) \/ Log(x, 2) \/ Fail(x) \/ Plain(x))
Spec == Init /\ [][Next]_vars
Chain == FlattenSeq(files)
ChainIsSuffix == IsSuffixOf(Chain, hist)
NothingLostUntilFull == Len(files) <= conf.rot \/ conf.rot = 0 => Chain = hist
Bounded == /\ Len(files) <= conf.rot + 1
           /\ conf.max > 0 /\ conf.rot > 0 => \A i \in 1..Len(files) : Bytes(files[i], Size) < conf.max \/ Len(files[i]) = 1
ReadAll == LET rd == Read(Chain, [all |-> TRUE, ks |-> <<>>], [from |-> -1, to |-> -1]) IN rd = Chain
Windows == \A t \in 0..MaxOps : LET lo == Read(Chain, [all |-> TRUE, ks |-> <<>>], [from |-> -1, to |-> t])
                                    hi == Read(Chain, [all |-> TRUE, ks |-> <<>>], [from |-> t + 1, to |-> -1]) IN lo \o hi = Chain
Report == (Len(log) = MaxOps) => Emit(ToJson([conf |-> conf, log |-> log]))
=============================================================================
