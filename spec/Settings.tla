------------------------------ MODULE Settings ------------------------------
(* The settings dictionary: each option has one place, one type, a default.  *)
(* Values are integers: floats in quarters (Inf for infinity), strings as    *)
(* indices of a table (0 is the default), flags 0/1, nvel itself, windows    *)
(* as quarters of the taper (0: no options).                                 *)
EXTENDS Integers, Sequences, FiniteSets
Inf == 1000000000
Opt == [workflow     |-> [at |-> "workflow", type |-> "str", def |-> 0],
        trim         |-> [at |-> "pre-processing/trim/apply", type |-> "bool", def |-> 0],
        trim_begin   |-> [at |-> "pre-processing/trim/begin", type |-> "float", def |-> 0],
        trim_end     |-> [at |-> "pre-processing/trim/end", type |-> "float", def |-> 4],
        mute         |-> [at |-> "pre-processing/mute/apply", type |-> "bool", def |-> 0],
        method       |-> [at |-> "pre-processing/mute/method", type |-> "str", def |-> 0],
        window_kwargs|-> [at |-> "pre-processing/mute/window_kwargs", type |-> "dict", def |-> 0],
        pad          |-> [at |-> "pre-processing/pad/apply", type |-> "bool", def |-> 0],
        df           |-> [at |-> "pre-processing/pad/df", type |-> "float", def |-> 4],
        min_offset   |-> [at |-> "pre-processing/offsets/min", type |-> "float", def |-> 0],
        max_offset   |-> [at |-> "pre-processing/offsets/max", type |-> "float", def |-> Inf],
        transform    |-> [at |-> "processing/transform", type |-> "str", def |-> 0],
        fmin         |-> [at |-> "processing/fmin", type |-> "float", def |-> 20],
        fmax         |-> [at |-> "processing/fmax", type |-> "float", def |-> 400],
        vmin         |-> [at |-> "processing/vmin", type |-> "float", def |-> 400],
        vmax         |-> [at |-> "processing/vmax", type |-> "float", def |-> 4000],
        nvel         |-> [at |-> "processing/nvel", type |-> "int", def |-> 200],
        vspace       |-> [at |-> "processing/vspace", type |-> "str", def |-> 0],
        weighting    |-> [at |-> "processing/fdbf-specific/weighting", type |-> "str", def |-> 0],
        steering     |-> [at |-> "processing/fdbf-specific/steering", type |-> "str", def |-> 0],
        snr          |-> [at |-> "signal-to-noise/perform", type |-> "bool", def |-> 0],
        noise_begin  |-> [at |-> "signal-to-noise/noise/begin", type |-> "float", def |-> -2],
        noise_end    |-> [at |-> "signal-to-noise/noise/end", type |-> "float", def |-> 0],
        signal_begin |-> [at |-> "signal-to-noise/signal/begin", type |-> "float", def |-> 0],
        signal_end   |-> [at |-> "signal-to-noise/signal/end", type |-> "float", def |-> 2],
        pad_snr      |-> [at |-> "signal-to-noise/pad/apply", type |-> "bool", def |-> 1],
        df_snr       |-> [at |-> "signal-to-noise/pad/df", type |-> "float", def |-> 4]]
Options == DOMAIN Opt
Places == {Opt[o].at : o \in Options}
At(p) == CHOOSE o \in Options : Opt[o].at = p
\* given: a function from some options to values
Value(given, o) == IF o \in DOMAIN given THEN given[o] ELSE Opt[o].def
Dict(given) == [p \in Places |-> [type |-> Opt[At(p)].type, v |-> Value(given, At(p))]]
\* P15
OnePlaceEach == Cardinality(Places) = Cardinality(Options)
Independent(given, o, v) ==
  LET g2 == [x \in DOMAIN given \cup {o} |-> IF x = o THEN v ELSE given[x]]
  IN \A p \in Places : p # Opt[o].at => Dict(g2)[p] = Dict(given)[p]
=============================================================================
