INIT Init
NEXT Next
INVARIANTS SelectedIsIt CropIsIt ListIsIt BackInPlace OffsetsOnce
CHECK_DEADLOCK FALSE
