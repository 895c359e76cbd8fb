"""notes per check and reasons for the properties that are not claimed"""
NOTES = {}
NA = dict(
 P02="the detector keeps hash maps of per-byte access records merged at barriers and at the end of groups and launches; the happens-before relation over those maps was not brought under contract, and a bounded exploration of it would be another technique",
 P04="'derives from values never written' quantifies over the data flow of whole programs; the shadow rules are heuristics per LLVM instruction (some deliberately coarse), so no sound and complete postcondition exists that the current code satisfies",
 B06="the contract of the image functions needs rounding, reciprocal and fractional-part arithmetic in floating point (normalised coordinates, mirrored repeat) for every image size; the solvers here do not discharge the resulting floating-point obligations, and only integer coordinates would be decided")
