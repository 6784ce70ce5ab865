SPECIFICATION Spec
CONSTANTS W = {w1, w2, w3} Batches <- BatchesDef Variant = "oldclose"
INVARIANT OnceOnly
PROPERTIES Refines Finishes
