--------------------------------- MODULE TLogbook ---------------------------------
EXTENDS Logbook, TraceBase
VARIABLES c, en, hist, chain      \* chain: the records of every file, oldest file first
vars == <<l, c, en, hist, chain>>
Init == l = 1 /\ c = <<>> /\ en = <<>> /\ hist = <<>> /\ chain = <<>>
Keep == UNCHANGED <<c, en, hist, chain>>
Begin == c' = Ev /\ en' = <<>> /\ hist' = <<>> /\ chain' = <<>>
(* nothing may appear in any file other than records: Ev.files is the observed chain,     *)
(* oldest first, each [n, bytes]: number of record starts and size                        *)
NFiles == Len(Ev.files)
Contents == << <<"no_stray_files", Ev.stray = 0>>,
               <<"chain_bounded", NFiles <= c.rot + 1 /\ (c.max > 0 /\ c.rot > 0 => \A i \in 1..NFiles :
                     Ev.files[i].bytes <= c.max \/ Ev.files[i].n = 1)>> >>
Kept(h) == SubSeq(h, Len(h) - MinI(Len(h), SumSeq([i \in 1..NFiles |-> Ev.files[i].n])) + 1, Len(h))
Upto(i) == SumSeq([k \in 1..i |-> Ev.files[k].n])
Cut(h) == LET t == Kept(h) IN [i \in 1..NFiles |-> SubSeq(t, Upto(i - 1) + 1, MinI(Upto(i), Len(t)))]
Started == << <<"configured_file", c.path = Ev.path>> >>
Start == UNCHANGED <<c, hist, chain>> /\ en' = <<>> /\ Judge(Started)
Get == /\ UNCHANGED <<c, hist, chain>>
       /\ en' = (Ev.x :> (IF c.on THEN "on" ELSE IF Ev.x \in DOMAIN en THEN en[Ev.x] ELSE "off")) @@ en
Set == UNCHANGED <<c, hist, chain>> /\ en' = (Ev.x :> Ev.v) @@ en
Log == LET w == en[Ev.x] = "on"  h == IF w THEN Append(hist, [t |-> Ev.t, kv |-> Ev.kv]) ELSE hist
           tot == SumSeq([i \in 1..NFiles |-> Ev.files[i].n]) IN
       /\ UNCHANGED <<c, en>> /\ hist' = h /\ chain' = Cut(h)
       /\ Judge(<<
            <<"written_only_when_enabled", en[Ev.x] # "on" => ~Ev.changed>>,
            <<"nothing_lost_until_the_chain_is_full", (c.rot = 0 \/ c.max = 0 \/ NFiles <= c.rot) => tot = Len(h)>>,
            <<"newest_record_kept", w => NFiles >= 1 /\ Ev.files[NFiles].n >= 1>>,
            <<"no_value_on_the_console", ~Ev.leak>> >> \o Contents)
(* a value whose text cannot be produced: the call raises, nothing is written              *)
Fail == Keep /\ Judge(<< <<"failed_call_writes_nothing", ~Ev.changed>>, <<"failure_reported", en[Ev.x] = "on" => Ev.raised>> >>)
Plain == Keep /\ Judge(<< <<"message_printed_once", Ev.lines = 1>>, <<"message_not_in_the_log_file", ~Ev.changed>> >>)
ReadBack == LET pick == FlattenSeq([i \in 1..Len(Ev.sel) |-> IF Ev.sel[i] <= Len(chain) THEN chain[Ev.sel[i]] ELSE <<>>])
                want == Read(pick, Ev.keys, Ev.w) IN
        Keep /\ Judge(<<
        <<"exactly_the_logged_values_in_order", Ev.rows = want>>,
        <<"log_files_oldest_first", Ev.listed = [i \in 1..Len(Ev.listed) |-> Len(Ev.listed) - i]>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> Begin
             [] Ev.ev = "start" -> Start
             [] Ev.ev = "get" -> Get
             [] Ev.ev = "set" -> Set
             [] Ev.ev = "log" -> Log
             [] Ev.ev = "fail" -> Fail
             [] Ev.ev = "plain" -> Plain
             [] Ev.ev = "read" -> ReadBack
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
