package main

import "verif/checker/sa"

type propDef struct {
	explain string
	rule    string
	assume  []string
	parts   []func(c *ctx) *sa.Report
}

var props = map[string]*propDef{
	"C33": {
		explain: "Typestate analysis over the SSA form of every library function: from each call that reports an error, all paths on which the error is non-nil are followed through phis, captured variables and wrappers, and each must end in a return that reports an error (or a panic); every return is checked not to give neither a result nor an error. A call whose error is dropped is excused if abstract interpretation of every exported operation that can get there shows that the error cannot arise in a run that succeeds.",
		rule:    "error-swallowed, neither-result-nor-error",
		assume:  []string{"hashes never fail to write", "closures passed to btree Scan run only during the call"},
		parts:   []func(c *ctx) *sa.Report{errPart},
	},
	"C19": {
		explain: "The hash-to-anything primitive and the seed derivation are reached through abstract interpretation of every operation that has a specification or a documented list of separators; the separators that arrive there (constants, with input-dependent parts marked) are collected for the operation and compared with the documented purposes: an operation must keep as many separators as it has purposes, must keep its input-dependent ones, and no separator may serve two operations without a purpose in common.",
		rule:    "separators-merged, separator-constant, separator-shared",
		assume:  []string{"purposes are those of the documented separators", "slice lengths and node indices below 2^32"},
		parts:   []func(c *ctx) *sa.Report{sepPart},
	},
	"C22": {
		explain: "Effect analysis of every library function over SSA: calls and variables that read a clock, the environment, system or global randomness, addresses or map order; goroutines and selects; stores that keep argument-dependent values in package-level variables, maps or synchronised containers (followed through static calls); built-in map iterations whose order reaches a slice, a generator, a writer or a result. In addition every exported operation is interpreted abstractly and the memory created by package initialisation is compared before and after.",
		rule:    "ambient-input, goroutine, schedule, kept-between-calls, map-order, package-state-changed",
		assume:  []string{"dependencies are deterministic functions of their arguments unless listed as ambient", "generators and seeds are the only arguments with a state of their own"},
		parts:   []func(c *ctx) *sa.Report{func(c *ctx) *sa.Report { return sa.Determinism(c.load()) }, statePart},
	},
	"C34": {
		explain: "Forward taint analysis over the SSA of every library function with per-function summaries (which parameters and secrets reach which results, memory and text outputs), resolved through static calls, interface methods of library types and function literals. Secret are values of the secret types (private keys, openings and their encodings, polynomials, seeds, generators, secrets to be shared), scalars and encodings of scalars given to exported operations, and what is computed from them except verdicts, kinds, indices, commitments and proofs. Text outputs are error messages, panics, printing and logging calls, writes to files and the results of String, Error, ToString, GoString, Format and MarshalText methods. What a formatting verb shows is derived from the type (addresses of nested pointers and %T show nothing; text methods show what they return).",
		rule:    "secret-in-text",
		assume:  []string{"points are public except Diffie-Hellman values in packages mega and complaints", "encodings that are not text (CBOR, byte strings) are not text output", "signature shares and proofs are sent to other parties"},
		parts:   []func(c *ctx) *sa.Report{func(c *ctx) *sa.Report { return sa.Secrets(c.load()) }},
	},
	"C31": {
		explain: "Every exported function and method of the library is interpreted abstractly on symbolic arguments (" + specExplain + ") and the memory reachable from each argument when it returns is compared with the memory before the call. Receivers of arithmetic methods, generators, oracles being filled and output buffers are the documented exceptions; where an operation has a specification, an argument may change only if the specification changes it.",
		rule:    "argument-modified",
		assume:  specAssume[:2],
		parts:   []func(c *ctx) *sa.Report{argsPart},
	},
	"C35": {
		explain: specExplain + " In addition every return of every library function is checked structurally not to give neither a result nor an error.",
		rule:    specRule + "; neither-result-nor-error",
		assume:  specAssume,
		parts:   []func(c *ctx) *sa.Report{specPart("C35"), func(c *ctx) *sa.Report { return sa.Empty(c.load()) }},
	},
}

// specProps are the properties decided by specification functions alone.
var specProps = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C11", "C12", "C37", "C38", "C07", "C13", "C14", "C15", "C16", "C17", "C18", "C20", "C21", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C32", "C36", "C41"}

func init() {
	for _, id := range specProps {
		props[id] = &propDef{explain: specExplain, rule: specRule, assume: specAssume,
			parts: []func(c *ctx) *sa.Report{specPart(id)}}
	}
}

const specExplain = "Value-graph comparison: the library functions named by the obligations and the specification functions that state the property (laid over the packages in memory only) are interpreted over an abstract domain of normalised terms (gated SSA: memory and values are joined under decision-diagram guards, loops are summarised as sums, products, folds or maps, curve and hash primitives are algebraic or uninterpreted functions), and the resulting terms for success, results, panics and written memory must be identical. Nothing is executed and no path is enumerated. A difference is reported only if the difference survives random interpretation of the terms, i.e. it is not an artefact of normalisation."

const specRule = "every input on which the specification function returns: the library function returns, with the same success, results and effects; every law holds"

var specAssume = []string{
	"slice lengths and node indices below 2^32, no 64-bit overflow of integers derived from them",
	"pointers and interfaces inside structured arguments are non-nil unless the specification tests them; interface values have a type the library converts to that interface",
	"the specification functions state the property",
	"hash functions are free functions (two different inputs have unrelated outputs)",
}
