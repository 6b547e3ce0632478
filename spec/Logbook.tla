--------------------------------- MODULE Logbook ---------------------------------
(* File logging (C20).  A record is [t, kv]: time (seconds) and the sequence of          *)
(* <<key, text>> pairs of one call.  All loggers of a process write to one chain of       *)
(* files, oldest first; the reader sees the concatenation of the chain.                    *)
EXTENDS Common

(* ---- writing with size-based rollover ------------------------------------------------- *)
(* files: chain, oldest first, the last being written; size: bytes of a record             *)
Bytes(f, size(_)) == SumSeq([i \in 1..Len(f) |-> size(f[i])])
Rolls(cur, r, max, rot, size(_)) == max > 0 /\ rot > 0 /\ cur # <<>> /\ Bytes(cur, size) + size(r) >= max
Write(files, r, max, rot, size(_)) ==
   IF files = <<>> THEN << <<r>> >>
   ELSE IF Rolls(files[Len(files)], r, max, rot, size)
        THEN LET all == Append(files, <<r>>) IN IF Len(all) > rot + 1 THEN SubSeq(all, Len(all) - rot, Len(all)) ELSE all
        ELSE [files EXCEPT ![Len(files)] = Append(@, r)]
IsSuffixOf(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, Len(t) - Len(s) + 1, Len(t))
(* ---- reading ------------------------------------------------------------------------------ *)
Pick(r, keys) == [t |-> r.t, kv |-> IF keys.all THEN r.kv ELSE SelectSeq(r.kv, LAMBDA p : \E i \in 1..Len(keys.ks) : keys.ks[i] = p[1])]
InWindow(r, w) == (w.from < 0 \/ r.t >= w.from) /\ (w.to < 0 \/ r.t <= w.to)
Read(rs, keys, w) == LET a == SelectSeq(rs, LAMBDA r : InWindow(r, w)) IN
                     SelectSeq([i \in 1..Len(a) |-> Pick(a[i], keys)], LAMBDA r : r.kv # <<>>)
=============================================================================
