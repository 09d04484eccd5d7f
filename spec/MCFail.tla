------------------------------- MODULE MCFail -------------------------------
EXTENDS Fail
CONSTANTS Keys, Errors, Labels, MaxRuns
MCBegin == \E s \in Keys, n \in 0..Cardinality(Labels), r \in 1..MaxRuns : (\A y \in stored : y[1] < r) /\ Begin(r, s, n)
MCNext == \/ MCBegin
          \/ Work \/ (begun = Len(got) /\ Start)
          \/ \E x \in Errors : Raise(x) \/ Caught(x)
          \/ \E b \in Labels, w \in BOOLEAN : Ready(b, <<key, b>>, w)
          \/ \E n \in 0..Cardinality(Labels) : Returned(n, key)
MCSpec == FInit /\ [][MCNext]_vars
\* Nothing that was stored is lost
NothingLost == [][stored \subseteq stored']_vars
\* The only thing that follows an error is that the caller gets it
ErrorIsLast == [][open # 0 => (open' = 0 /\ run' = 0 /\ got' = got /\ stored' = stored /\ ref' = ref) \/ UNCHANGED vars]_vars
\* Results are returned only if there were no errors and all of them are ready
Complete == [][ref' # ref => open = 0 /\ Len(got) = due]_vars
InOrder == NoDup(got) /\ Len(got) <= due
=============================================================================
