"""Trust base and assumptions reported in every evidence file."""
TRUSTED = [
    "clang 18 -O0 as the extraction front end (C++ -> LLVM IR)",
    "the IR semantics and verification-condition generator in /verif/engine",
    "z3 5.3.2 / cvc5 as deciding back ends",
]
ASSUMPTIONS = [
    "double arithmetic is treated as exact real arithmetic (no rounding, overflow, NaN or infinities)",
    "signed integer arithmetic flagged nsw does not overflow; other integer arithmetic is modelled with wrap-around",
    "containers hold at most 2^40 elements; allocation never fails",
    "std::string values are opaque totally ordered tokens",
    "exception unwinding paths are not followed; throwing/asserting is an obligation that the call is unreachable",
    "termination is not proved",
]
NOTES = {}
