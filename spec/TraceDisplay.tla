---------------------------- MODULE TraceDisplay ----------------------------
(* Judges what the real code shows of families of objects: vs are the       *)
(* values (tokens, or octets of commands and frames), r what was seen.      *)
EXTENDS Display, Json, IOUtils
Trace  == ndJsonDeserialize(IOEnv.TRACE)
N      == Len(Trace)
Stride == LET s == atoi(IOEnv.STRIDE) IN IF s < N THEN s ELSE N

Without(toks, names) == SelectSeq(toks, LAMBDA x : x[1] \notin names)
\* what the text of a command shows: its tag, whether it is executed (and if so, how it ended), the actions, the status
CmdShown(c) == [tag |-> c.tag, done |-> c.done, err |-> IF c.done = 1 THEN c.err ELSE 0,
                actions |-> [k \in 1..Len(c.actions) |-> Without(c.actions[k], Silent)], status |-> Without(c.status, Silent)]
Value(e, v) == CASE e.t = "cmd" -> DecCmd(v).cmd [] e.t = "fg" -> DecFg(v).f [] OTHER -> v
ShownValue(e, v) ==
  CASE e.t = "cmd" -> CmdShown(DecCmd(v).cmd)
    [] e.t = "fg" -> DecFg(v).f
    [] e.t = "struct" /\ e.n \in Textless -> <<>>
    [] OTHER -> Without(v, Silent)
Legal(e, v) ==
  CASE e.t = "cmd" -> DecCmd(v).why = "" [] e.t = "fg" -> DecFg(v).why = "" [] e.t = "act" -> EncAction(v).ok
    [] e.t = "file" -> EncFile(e.n, v).ok [] e.t = "struct" -> Enc(StructLayout[e.n], v).ok [] OTHER -> TRUE

Field(toks, name) == SelectSeq(toks, LAMBDA x : x[1] = name)
LabelOK(toks, l, shown) ==
  LET f == Field(toks, l[2])  want == IF f = <<>> THEN {} ELSE TextsOf(l[3], f[1][2]) IN
  want = {} \/ shown = <<>> \/ \E k \in 1..Len(shown) : shown[k] \in want
\* indices at which the two sequences tell different stories
Differ(vals, seen, i, j) == vals[i] # vals[j] /\ seen[i] = seen[j]
Split(vals, seen, i, j) == vals[i] = vals[j] /\ seen[i] # seen[j]

Verdict(e) ==
  IF "dead" \in DOMAIN e.r THEN "the code does not return"
  ELSE IF \E k \in 1..Len(e.vs) : ~Legal(e, e.vs[k]) THEN "machinery: not a value of the specification"
  ELSE IF e.r.exc # "" THEN "looking at an object fails"
  ELSE LET n == Len(e.vs)
           full == [k \in 1..n |-> Value(e, e.vs[k])]
           inText == [k \in 1..n |-> ShownValue(e, e.vs[k])]
           ls == Labels(e.t, e.n)
           Some(P(_, _)) == \E i \in 1..n : \E j \in 1..n : P(i, j) IN
  IF e.r.kept # 1 THEN "looking at an object changes it"
  ELSE IF \E k \in 1..Len(e.r.odd) : TRUE THEN e.r.odd[1]
  ELSE IF \E k \in 1..n : e.r.cls[k] # 1 THEN "the dictionary does not name the class"
  ELSE IF \E a \in 1..Len(e.r.fields) : \E b \in 1..(a - 1) : e.r.fields[a][1] = e.r.fields[b][1] /\ e.r.fields[a][1] \notin Growing
       THEN "a field is missing in the dictionary"
  ELSE IF Some(LAMBDA i, j : i < j /\ Differ(inText, e.r.text, i, j)) THEN "a field that differs is not shown in the text"
  ELSE IF Some(LAMBDA i, j : i < j /\ Differ(full, e.r.dict, i, j)) THEN "a field that differs is missing in the dictionary"
  ELSE IF Some(LAMBDA i, j : i < j /\ Split(full, e.r.text, i, j)) THEN "equal objects have different texts"
  ELSE IF Some(LAMBDA i, j : i < j /\ Split(full, e.r.dict, i, j)) THEN "equal objects have different dictionaries"
  ELSE IF e.t \notin {"cmd", "fg"} /\ \E k \in 1..n : \E m \in 1..Len(ls) : ~LabelOK(e.vs[k], ls[m], e.r.shown[k][m]) THEN "a value shown is not that of its field"
  ELSE IF \E k \in 1..Len(e.r.descr) : e.r.descr[k][1] # e.r.descr[k][2] THEN "the description does not list the actions in order"
  ELSE IF e.cmp = 1 /\ Some(LAMBDA i, j : e.r.eq[i][j] # 2 /\ (e.r.eq[i][j] = 1) # (full[i] = full[j])) THEN "equality is not equality of the values"
  ELSE IF e.cmp = 1 /\ Some(LAMBDA i, j : e.r.eq[i][j] # 2 /\ e.r.ne[i][j] # 2 /\ e.r.eq[i][j] = e.r.ne[i][j]) THEN "inequality is not the negation of equality"
  ELSE ""

VARIABLE i
Init == i \in (1 - Stride)..0
Next == /\ i + Stride <= N
        /\ i' = i + Stride
        /\ LET v == Verdict(Trace[i']) IN IF v = "" THEN TRUE ELSE PrintT(<<"FAIL", i', v>>)
=============================================================================
