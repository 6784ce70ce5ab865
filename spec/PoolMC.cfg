SPECIFICATION Spec
CONSTANTS W = {w1, w2, w3} Batches <- BatchesDef Variant = "good"
INVARIANT OnceOnly
PROPERTIES Refines Finishes
