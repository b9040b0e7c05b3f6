---- MODULE Capability ----
(* What a backend provides decides what its statistical model offers and which route a query takes. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Emit
Optional == {"expected_data", "sampler", "nll", "asimov_nll", "min", "min_asimov", "hessian", "gradient"}
VARIABLES P, contract
vars == <<P, contract>>
Asymptotic == "expected_data" \in P \/ {"asimov_nll", "min_asimov"} \subseteq P
Toy == "sampler" \in P
Calculators == (IF Toy THEN <<"toy">> ELSE <<>>) \o (IF Asymptotic THEN <<"asymptotic">> ELSE <<>>) \o <<"chi_square">>
\* own implementation first, generic route otherwise
Lik == IF "nll" \in P THEN "own" ELSE "generic"
Max == IF "min" \in P THEN "own" ELSE "generic"
AsimovData == IF "expected_data" \in P THEN "generic" ELSE "unavailable"
AsimovLik == IF "asimov_nll" \in P THEN "own" ELSE IF AsimovData = "unavailable" THEN "unavailable" ELSE Lik \o "-on-asimov"
AsimovMax == IF "min_asimov" \in P THEN "own" ELSE IF AsimovData = "unavailable" THEN "unavailable" ELSE Max \o "-on-asimov"
Route == [lik |-> Lik, max |-> Max, asimov |-> AsimovData, asimov_lik |-> AsimovLik, asimov_max |-> AsimovMax,
          sampler |-> IF Toy THEN "own" ELSE "unavailable", hessian |-> IF "hessian" \in P THEN "own" ELSE "unavailable",
          sigma |-> IF "hessian" \in P THEN "hessian" ELSE IF Asymptotic THEN "asimov" ELSE "unavailable"]
Init == P \in SUBSET Optional /\ contract \in {"documented", "interface"}
Next == UNCHANGED vars
\* everything an available calculator needs has a route
Supported == Asymptotic => AsimovLik # "unavailable" /\ AsimovMax # "unavailable"
Monotone == \A X \in SUBSET Optional : X \subseteq P /\ X # P => ~({"expected_data"} \subseteq X /\ ~Asymptotic)
EmitOut == Emit => PrintT("@" \o ToJson([P |-> P, contract |-> contract, calc |-> Calculators, route |-> Route]))
====
