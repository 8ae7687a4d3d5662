GENERIC = ("The TLA+ specification is model checked by TLC over the bounds given in DESIGN.md; the code is bound to it by running generated and enumerated "
           "inputs through the real code (built from the working tree with AddressSanitizer) and letting TLC decide for every recorded call whether the specification allows it. "
           "Assurance is exhaustive for the model bounds and by sampling (boundary-biased) beyond; TLC, the driver and clang are trusted.")
TECH = {}
NOTE = {}
