SPECIFICATION Spec
CONSTANTS W = {w1, w2, w3} Batches <- BatchesDef Variant = "latebusy"
INVARIANT OnceOnly
PROPERTIES Refines Finishes
