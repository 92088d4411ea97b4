--------------------------------- MODULE Bind ---------------------------------
(* The Python module: what it offers, and which of the functions behind a name a      *)
(* call reaches.  A call is a name and the kinds of its arguments; the functions      *)
(* registered for the name are tried in the order of registration, twice when there   *)
(* is more than one: the first time the arguments must be what is asked for, the       *)
(* second time they may be converted.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* kinds of argument: "one" is a vector with one entry, "col" a matrix with one column, "list" a list of numbers
Plain(t) == CASE t \in {"int", "uint"} -> {"int", "bool"}
              [] t = "float" -> {"float"}
              [] t = "bool" -> {"bool"}
              [] t = "str" -> {"str"}
              [] t = "vec" -> {"vec", "one", "col"}
              [] t = "mat" -> {"mat", "col", "vec", "one"}
              [] t = "seq" -> {"list", "vec", "one"}
              [] t = "callable" -> {"callable"}
              [] OTHER -> {t}                                  \* a class of the module
Converted(t) == Plain(t) \cup
    CASE t = "float" -> {"int", "bool", "one"}
      [] t = "bool" -> {"int", "float", "none"}
      [] t \in {"vec", "mat"} -> {"list"}
      [] t = "callable" -> {"none"}
      [] OTHER -> {}

\* an overload is [sig, dflt]: the types of its parameters, how many of the last have a default
Fits(o, args, convert) ==
    /\ Len(args) <= Len(o.sig) /\ Len(args) >= Len(o.sig) - o.dflt
    /\ \A k \in 1..Len(args) : args[k] \in IF convert THEN Converted(o.sig[k]) ELSE Plain(o.sig[k])
First(os, args, convert) ==
    LET S == {k \in 1..Len(os) : Fits(os[k], args, convert)} IN
    IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
\* 0: refused
Reached(os, args) ==
    LET p == IF Len(os) > 1 THEN First(os, args, FALSE) ELSE 0 IN
    IF p # 0 THEN p ELSE First(os, args, TRUE)

\* ---------------------------------------------------------------- what is promised
O(s, d) == [sig |-> s, dflt |-> d]
Seven == <<"int", "int", "int", "int", "int", "int", "int">>
Both == [optimize |-> <<O(<<"vec", "vec">>, 0)>>, getLastResult |-> <<O(<<>>, 0)>>, getOptimalSequence |-> <<O(<<>>, 0)>>,
         getExecutionStats |-> <<O(<<>>, 0)>>, resetStats |-> <<O(<<>>, 0)>>,
         setLoggerLevel |-> <<O(<<"LoggerLevel">>, 0)>>, setLoggerPrefix |-> <<O(<<"str">>, 0)>>,
         setStateBounds |-> <<O(<<"mat", "mat">>, 0), O(<<"vec", "vec", "HorizonSlice">>, 0)>>,
         setInputBounds |-> <<O(<<"mat", "mat">>, 0), O(<<"vec", "vec", "HorizonSlice">>, 0)>>,
         setOutputBounds |-> <<O(<<"mat", "mat">>, 0), O(<<"vec", "vec", "HorizonSlice">>, 0)>>]
Nl == [__init__ |-> <<O(Seven, 0)>>, setOptimizerParameters |-> <<O(<<"NLParameters">>, 0)>>,
       setDiscretizationSamplingTime |-> <<O(<<"float">>, 0)>>, setInputScale |-> <<O(<<"vec">>, 0)>>, setStateScale |-> <<O(<<"vec">>, 0)>>,
       setObjectiveFunction |-> <<O(<<"callable">>, 0)>>, setOutputFunction |-> <<O(<<"callable">>, 0)>>,
       setStateSpaceFunction |-> <<O(<<"callable", "float">>, 1)>>, setIneqConFunction |-> <<O(<<"callable", "float">>, 1)>>,
       setEqConFunction |-> <<O(<<"callable", "float">>, 1)>>]
Lin == [__init__ |-> <<O(SubSeq(Seven, 1, 6), 0)>>, setOptimizerParameters |-> <<O(<<"LParameters">>, 0)>>,
        setStateSpaceModel |-> <<O(<<"mat", "mat", "mat">>, 0)>>, setDisturbances |-> <<O(<<"mat", "mat">>, 0)>>,
        getSolverWarmStartPrimal |-> <<O(<<>>, 0)>>, getSolverWarmStartDual |-> <<O(<<>>, 0)>>, setSolverWarmStart |-> <<O(<<"seq", "seq">>, 0)>>,
        setObjectiveWeights |-> <<O(<<"mat", "mat", "mat">>, 0), O(<<"vec", "vec", "vec", "HorizonSlice">>, 0)>>,
        setReferences |-> <<O(<<"mat", "mat", "mat">>, 0), O(<<"vec", "vec", "vec", "HorizonSlice">>, 0)>>,
        setExogenousInputs |-> <<O(<<"mat">>, 0), O(<<"vec", "HorizonSlice">>, 0)>>,
        setScalarConstraint |-> <<O(<<"uint", "float", "float", "vec", "vec">>, 0), O(<<"float", "float", "vec", "vec", "HorizonSlice">>, 0)>>]
Offered == [NLMPC |-> Both @@ Nl, LMPC |-> Both @@ Lin,
            HorizonSlice |-> [__init__ |-> <<O(<<"int", "int">>, 0)>>, all |-> <<O(<<>>, 0)>>],
            NLParameters |-> [__init__ |-> <<O(<<>>, 0)>>], LParameters |-> [__init__ |-> <<O(<<>>, 0)>>]]
Common == {"maximum_iteration", "time_limit", "enable_warm_start"}
Attrs == [Result |-> {"solver_status", "solver_status_msg", "cost", "cmd", "status", "is_feasible"},
          OptSequence |-> {"state", "input", "output"},
          SolutionStats |-> {"totalSolutionTime", "numberOfSolutions", "minSolutionTime", "maxSolutionTime", "averageSolutionTime", "standardDeviation", "solutionsStates"},
          NLParameters |-> Common \cup {"relative_ftol", "relative_xtol", "absolute_ftol", "absolute_xtol", "hard_constraints"},
          LParameters |-> Common \cup {"alpha", "rho", "eps_rel", "eps_abs", "eps_prim_inf", "eps_dual_inf", "verbose", "adaptive_rho", "polish"}]
Settable == {"NLParameters", "LParameters"}
Values == [LoggerLevel |-> {"DEEP", "NORMAL", "ALERT", "NONE"}, ResultStatus |-> {"SUCCESS", "MAX_ITERATION", "INFEASIBLE", "ERROR", "UNKNOWN"}]

\* ---------------------------------------------------------------- the calls Python code makes of an overload
\* as documented, with whole numbers where numbers are asked for, with vectors of one entry, matrices of one column
\* and lists in place of arrays, and with the trailing defaults left out
Forms == {"plain", "int", "one", "list", "none"}
Form(t, f) == CASE t \in {"int", "uint"} -> "int"
                [] t = "float" /\ f = "int" -> "int"
                [] t = "vec" /\ f = "one" -> "one"
                [] t = "mat" /\ f = "one" -> "col"
                [] t = "vec" /\ f = "list" -> "list"
                [] t = "seq" -> "list"
                [] t = "callable" /\ f = "none" -> "none"
                [] OTHER -> t
Calls(o) == {[k \in 1..n |-> Form(o.sig[k], f)] : f \in Forms, n \in (Len(o.sig) - o.dflt)..Len(o.sig)}
\* every such call reaches the overload it is meant for, whatever else is registered under the name
Reaches(os, o) == \A a \in Calls(o) : LET k == Reached(os, a) IN k # 0 /\ os[k].sig = o.sig
===============================================================================
