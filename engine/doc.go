package main

import (
	"encoding/json"
	"go/ast"
	"os"
	"path/filepath"
)

func docText(n any) string {
	if fd, ok := n.(*ast.FuncDecl); ok && fd.Doc != nil {
		return fd.Doc.Text()
	}
	return ""
}

func writeEvidence(path, prop, tier string, seed int, reps []HarnessReport, fns []string, samples []any, wall float64, nviol int) {
	if path == "" {
		return
	}
	var paths, trans, val, vcs int64
	var q, mism int
	var ss float64
	var bounds []string
	complete := true
	for _, r := range reps {
		paths += r.Paths
		trans += r.Steps
		vcs += r.VCs
		val += int64(r.Validated)
		mism += r.Mismatch
		q += r.Queries
		ss += r.SolverS
		bounds = append(bounds, r.Name+": "+r.Bounds)
		complete = complete && r.Complete
	}
	doc := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": paths, "transitions": trans, "traces_validated_against_impl": val, "samples": samples,
			"verification_conditions": vcs, "solver_queries": q, "solver_s": ss, "replay_mismatches": mism,
			"complete_within_bounds": complete,
			"functions_encoded":      fns,
			"bounds":                 bounds, "harnesses": reps,
			"other": "states = symbolic paths explored (each stands for all inputs satisfying its path condition; per path the solver confirms (verification_conditions, of which the first 1000 paths' and a sample of the later ones are posed as recorded over the full alphabets and the others over the classes of values they tell apart; solver_queries were distinct, the rest answered from the cache of earlier answers) satisfiability and that every implied branch and assertion follows from it); transitions = SSA instructions executed; traces_validated = paths whose solver model was replayed on the compiled code with equal observations.",
		},
		"wall_s": wall,
		"assumptions": []string{
			"go/ssa gives the semantics of the compiled Go code; checked by replaying sampled path models on the native build",
			"modelled library functions: fmt (formatting deferred until the text is looked at), the standard log package (no effect), strings/unicode case and class functions (tables taken from the running Go library), pkg/errors stack capture (empty), os files (in memory; read errors other than a missing file are not modelled), ioutil/x-text readers (ASCII only; in L01 their code is executed)",
			"map iteration in insertion order unless the harness varies it",
			"inputs outside the stated bounds are not covered",
		},
		"violations": nviol,
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, append(b, '\n'), 0o644)
}
