----------------------------- MODULE TraceArith -----------------------------
EXTENDS Arith, TraceBase

TraceInit == l = 1

(* A batch of alignments by one function of one width to one multiple.       *)
TAlign ==
    /\ IsEvent("align")
    /\ Len(Event.in) = Len(Event.out)
    /\ \A i \in DOMAIN Event.in :
          Same("C18", <<Event.op, Event.width, Event.n, Event.in[i]>>,
               Event.out[i], Aligned(Event.op, Event.in[i], Event.n))

(* Conversions of counts to depths.                                          *)
TConvert ==
    /\ IsEvent("convert")
    /\ \A i \in DOMAIN Event.in :
          Same("C19", <<"is a depth", Event.width, Event.in[i]>>, Event.out[i], IsDepth(Event.in[i]))

(* Pairwise comparison; inf marks infinity.                                  *)
Order(x, y) ==
    IF x.inf THEN IF y.inf THEN 0 ELSE 1
    ELSE IF y.inf THEN -1 ELSE Compare(x.v, y.v)
TCompare ==
    /\ IsEvent("depths")
    /\ \A i, j \in DOMAIN Event.pool :
          LET o == Order(Event.pool[i], Event.pool[j])
              what == <<Event.pool[i], Event.pool[j]>> IN
          /\ Same("C19", <<"cmp", what>>, Event.cmp[i][j], o)
          /\ Same("C19", <<"partial_cmp", what>>, Event.pcmp[i][j], o)
          /\ Same("C19", <<"==", what>>, Event.eq[i][j], o = 0)

TPanic ==
    /\ IsEvent("panic")
    /\ Wrong(IF Event.op = "align" THEN {"C18"} ELSE {"C19"}, "panic", Event.msg, "an answer")

TraceNext == TAlign \/ TConvert \/ TCompare \/ TPanic
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
