------------------------------ MODULE RegTrace ------------------------------
(* Histories of RegisterHandler (op names) and PrefixTree (pt:...) operations against Registers.
   CASES: ops (op, a, b, ok, r, size, regs), end *)
EXTENDS Registers, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, l
tvars == <<vars, k, l>>
Ops == Cases[k].ops
Op == Ops[l]

TInit == Init /\ l = 1 /\ \E c \in DOMAIN Cases : k = c

Fails(A) == IF ENABLED A THEN A /\ Op.ok ELSE ~Op.ok /\ UNCHANGED vars
Step ==
    /\ UNCHANGED k
    /\ l <= Len(Ops) /\ l' = l + 1
    /\ CASE Op.op = "add" -> Fails(Add(Op.a, Op.b))
         [] Op.op = "set" -> Fails(Set(Op.a, Op.b))
         [] Op.op = "copy" -> Fails(CopyTo(Op.a, Op.b))
         [] Op.op = "app" -> Fails(AppendTo(Op.a, Op.b))
         [] Op.op = "get" -> IF IsReg(Op.a) THEN Op.ok /\ Op.r = History(Op.a) /\ UNCHANGED vars
                             ELSE ~Op.ok /\ UNCHANGED vars
         [] Op.op = "pt:insert" -> Fails(Insert(Op.a, Op.b)) /\ (Op.ok => Op.r = <<Len(val')>>)
         [] Op.op = "pt:set" -> Fails(SetCell(Op.a, Op.b))
         [] Op.op = "pt:get" -> IF IsCell(Op.a) THEN Op.ok /\ Op.r = Positions(Op.a) /\ UNCHANGED vars
                                ELSE ~Op.ok /\ UNCHANGED vars
    /\ Op.size >= 0 => Op.size = Len(val') + 1   \* with the root
    /\ Op.seen => Op.regs = All'
Accept == /\ l = Len(Ops) + 1 /\ Cases[k].end = "end"
          /\ PrintT(<<"ACCEPT", k>>)
          /\ l' = l + 1 /\ UNCHANGED <<vars, k>>
TSpec == TInit /\ [][Step \/ Accept]_tvars
Explains == l <= Len(Ops) => ENABLED Step
=============================================================================
