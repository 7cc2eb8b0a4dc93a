---- MODULE MC_Chunking_TTrace_1795135976 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, MC_Chunking

_expression ==
    LET MC_Chunking_TEExpression == INSTANCE MC_Chunking_TEExpression
    IN MC_Chunking_TEExpression!expression
----

_trace ==
    LET MC_Chunking_TETrace == INSTANCE MC_Chunking_TETrace
    IN MC_Chunking_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        call = ("halo")
        /\
        todo = ({})
        /\
        a = ((<<1, 1>> :> 0 @@ <<1, 2>> :> 0 @@ <<1, 3>> :> 0 @@ <<2, 1>> :> 0 @@ <<2, 2>> :> 0 @@ <<2, 3>> :> 1))
        /\
        acols = (<<2, 1>>)
        /\
        brows = (<<2>>)
        /\
        b = ((<<1, 1>> :> 2 @@ <<1, 2>> :> 0 @@ <<1, 3>> :> 1 @@ <<2, 1>> :> 0 @@ <<2, 2>> :> 1 @@ <<2, 3>> :> 2))
        /\
        arows = (<<2>>)
        /\
        bcols = (<<3>>)
        /\
        out = ((<<1, 1>> :> 0 @@ <<1, 2>> :> 0 @@ <<1, 3>> :> 1 @@ <<2, 1>> :> 0 @@ <<2, 2>> :> 0 @@ <<2, 3>> :> 1))
    )
----

_init ==
    /\ a = _TETrace[1].a
    /\ b = _TETrace[1].b
    /\ call = _TETrace[1].call
    /\ acols = _TETrace[1].acols
    /\ arows = _TETrace[1].arows
    /\ bcols = _TETrace[1].bcols
    /\ brows = _TETrace[1].brows
    /\ todo = _TETrace[1].todo
    /\ out = _TETrace[1].out
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ a  = _TETrace[i].a
        /\ a' = _TETrace[j].a
        /\ b  = _TETrace[i].b
        /\ b' = _TETrace[j].b
        /\ call  = _TETrace[i].call
        /\ call' = _TETrace[j].call
        /\ acols  = _TETrace[i].acols
        /\ acols' = _TETrace[j].acols
        /\ arows  = _TETrace[i].arows
        /\ arows' = _TETrace[j].arows
        /\ bcols  = _TETrace[i].bcols
        /\ bcols' = _TETrace[j].bcols
        /\ brows  = _TETrace[i].brows
        /\ brows' = _TETrace[j].brows
        /\ todo  = _TETrace[i].todo
        /\ todo' = _TETrace[j].todo
        /\ out  = _TETrace[i].out
        /\ out' = _TETrace[j].out

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("MC_Chunking_TTrace_1795135976.json", _TETrace)

=============================================================================

 Note that you can extract this module `MC_Chunking_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `MC_Chunking_TEExpression.tla` file takes precedence 
  over the module `MC_Chunking_TEExpression` below).

---- MODULE MC_Chunking_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, MC_Chunking

expression == 
    [
        \* To hide variables of the `MC_Chunking` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        a |-> a
        ,b |-> b
        ,call |-> call
        ,acols |-> acols
        ,arows |-> arows
        ,bcols |-> bcols
        ,brows |-> brows
        ,todo |-> todo
        ,out |-> out
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_aUnchanged |-> a = a'
        
        \* Format the `a` variable as Json value.
        \* ,_aJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(a)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_aModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].a # _TETrace[s-1].a
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE MC_Chunking_TETrace ----
\*EXTENDS IOUtils, TLC, MC_Chunking
\*
\*trace == IODeserialize("MC_Chunking_TTrace_1795135976.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE MC_Chunking_TETrace ----
EXTENDS TLC, MC_Chunking

trace == 
    <<
    ([call |-> "halo",todo |-> {<<1, 1>>, <<1, 2>>},a |-> (<<1, 1>> :> 0 @@ <<1, 2>> :> 0 @@ <<1, 3>> :> 0 @@ <<2, 1>> :> 0 @@ <<2, 2>> :> 0 @@ <<2, 3>> :> 1),acols |-> <<2, 1>>,brows |-> <<2>>,b |-> (<<1, 1>> :> 2 @@ <<1, 2>> :> 0 @@ <<1, 3>> :> 1 @@ <<2, 1>> :> 0 @@ <<2, 2>> :> 1 @@ <<2, 3>> :> 2),arows |-> <<2>>,bcols |-> <<3>>,out |-> <<>>]),
    ([call |-> "halo",todo |-> {<<1, 2>>},a |-> (<<1, 1>> :> 0 @@ <<1, 2>> :> 0 @@ <<1, 3>> :> 0 @@ <<2, 1>> :> 0 @@ <<2, 2>> :> 0 @@ <<2, 3>> :> 1),acols |-> <<2, 1>>,brows |-> <<2>>,b |-> (<<1, 1>> :> 2 @@ <<1, 2>> :> 0 @@ <<1, 3>> :> 1 @@ <<2, 1>> :> 0 @@ <<2, 2>> :> 1 @@ <<2, 3>> :> 2),arows |-> <<2>>,bcols |-> <<3>>,out |-> (<<1, 1>> :> 0 @@ <<1, 2>> :> 0 @@ <<2, 1>> :> 0 @@ <<2, 2>> :> 0)]),
    ([call |-> "halo",todo |-> {},a |-> (<<1, 1>> :> 0 @@ <<1, 2>> :> 0 @@ <<1, 3>> :> 0 @@ <<2, 1>> :> 0 @@ <<2, 2>> :> 0 @@ <<2, 3>> :> 1),acols |-> <<2, 1>>,brows |-> <<2>>,b |-> (<<1, 1>> :> 2 @@ <<1, 2>> :> 0 @@ <<1, 3>> :> 1 @@ <<2, 1>> :> 0 @@ <<2, 2>> :> 1 @@ <<2, 3>> :> 2),arows |-> <<2>>,bcols |-> <<3>>,out |-> (<<1, 1>> :> 0 @@ <<1, 2>> :> 0 @@ <<1, 3>> :> 1 @@ <<2, 1>> :> 0 @@ <<2, 2>> :> 0 @@ <<2, 3>> :> 1)])
    >>
----


=============================================================================

---- CONFIG MC_Chunking_TTrace_1795135976 ----
CONSTANTS
    H = 2
    W = 3
    VALS = { 0 , 1 }
    CALLS = { "binary" , "halo" , "coarsen" , "total" }
    BROKEN = "margin"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 00:53:16 UTC 2026