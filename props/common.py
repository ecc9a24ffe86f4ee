LEVEL = "proof"
NOTE = "every obligation is discharged by the abstract interpreter on every abstract path; relative to clang's IR generation, the interpreter and its library contracts"
TECH = "abstract interpretation of the compiler's IR (bit-level value provenance, intervals, linear relations, heap shape), obligations stated over the public API"
