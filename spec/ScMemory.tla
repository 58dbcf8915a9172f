------------------------------ MODULE ScMemory ------------------------------
(***************************************************************************)
(* The vocabulary of calls for the memory discipline, with the layouts of  *)
(* the array arguments, and a small heap machine on which TLC confirms     *)
(* that fresh result cells are exactly what separation needs.              *)
(***************************************************************************)
EXTENDS Memory, Json, IOUtils, TLC, SequencesExt, Integers, Sequences, FiniteSets

CONSTANTS Sharing          \* TRUE: the machine may hand out argument cells (then Separate fails)

ArrayFns == {"staircase", "hessenberg_abc", "cmat_model", "omat_model", "controllability_matrix", "observability_matrix", "is_kalman_controllable",
             "is_kalman_observable", "controllability_indices", "transmission_zeros", "cancellation_distance",
             "lyapunov_c", "lyapunov_d", "lyapunov_ce", "lyapunov_de", "haroldsvd", "haroldker", "matrix_slice", "pair_complex_numbers",
             "haroldcompanion", "haroldgcd", "haroldlcm", "haroldpoly", "haroldpolyadd", "haroldpolymul", "haroldpolydiv",
             "State", "State_gain", "Transfer", "Transfer_mimo", "Transfer_common", "Transfer_gain", "set_a", "set_b", "set_c", "set_d", "set_num", "set_den",
             "set_lft", "set_lft_t", "simulate", "simulate_x0", "step", "impulse", "freqresp", "lqr", "lqr_cross", "ackermann", "discretize_q",
             "undiscretize_q", "bin_array", "rbin_array", "feedback_array", "minimal_raw", "t2s_raw", "s2t_raw", "is_kalman_raw",
             "bode", "nyquist", "step_plot"}
ModelFns == {"neg", "index", "add", "sub", "mul", "matmul", "div", "feedback", "minimal", "t2s", "s2t", "t2s_mat", "s2t_poly", "to_array",
             "dcgain", "poleprops", "kalman_decomposition", "hessenberg", "concatenate", "norm2", "norminf", "discretize", "undiscretize",
             "zoh", "foh", "matrices", "freqresp_auto", "step_auto", "impulse_auto", "bode_list", "repr"}
Layouts == {"C", "F", "int", "view", "list"}
Kinds == {"S", "T"}
Sizes == {"siso", "mimo", "wide"}
Calls == [fn : ArrayFns, lay : Layouts, k : {"S"}, size : {"siso", "mimo", "one"}, gain : {FALSE}]
         \cup [fn : ModelFns, lay : {"C"}, k : Kinds, size : Sizes, gain : BOOLEAN]
         \cup [fn : {"bin_array", "rbin_array", "feedback_array", "simulate", "freqresp"}, lay : Layouts, k : {"T"}, size : Sizes, gain : BOOLEAN]

----------------------------------------------------------------------------
(* heap machine: objects 1..3, cells with versions *)
VARIABLES owns, heap, seen, last
Objs == 1..3
Cells == 1..4
Init == /\ owns = [o \in Objs |-> IF o = 1 THEN {1} ELSE {}]
        /\ heap = [c \in Cells |-> 0] /\ seen = [o \in Objs |-> 0] /\ last = 0
Content(o) == [c \in owns[o] |-> heap[c]]
Used == UNION { owns[o] : o \in Objs }
Call(o) == /\ owns[o] = {}
           /\ \E c \in Cells : (c \notin Used \/ Sharing) /\ owns' = [owns EXCEPT ![o] = {c}]
           /\ last' = 0 /\ UNCHANGED <<heap, seen>>
Write(o) == /\ owns[o] # {} /\ \A c \in owns[o] : heap[c] < 2
            /\ heap' = [c \in Cells |-> IF c \in owns[o] THEN heap[c] + 1 ELSE heap[c]]
            /\ seen' = [seen EXCEPT ![o] = @ + 1]
            /\ last' = o /\ UNCHANGED owns
Next == \E o \in Objs : Call(o) \/ Write(o)
Spec == Init /\ [][Next]_<<owns, heap, seen, last>>
(* what an object shows is decided by the writes through that object alone *)
Separate == \A o \in Objs : \A c \in owns[o] : heap[c] = seen[o]
Disjoint == \A o, q \in Objs : o # q => owns[o] \cap owns[q] = {}

ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Calls))
=============================================================================
