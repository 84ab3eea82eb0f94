package main

import (
	"encoding/json"
	"os"
)

type repOb struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Result string `json:"result"`
	Solver string `json:"solver"`
	Ms     int64  `json:"ms"`
	At     string `json:"at"`
	OK     bool   `json:"ok"`
}

type repUnit struct {
	Name       string   `json:"name"`
	Obligs     []repOb  `json:"obligations"`
	Invariants []string `json:"invariants"`
	Inlined    []string `json:"inlined"`
	Called     []string `json:"called"`
	Trusted    []string `json:"trusted"`
	Err        string   `json:"error,omitempty"`
	Mode       string   `json:"integers"`
}

type Report struct {
	Units   []repUnit `json:"units"`
	SolverS float64   `json:"solver_s"`
	Queries int       `json:"queries"`
}

func report(P *Prog, specs *Specs, units []*Unit, s *Solver) *Report {
	r := &Report{SolverS: s.totalS, Queries: s.nq}
	for _, u := range units {
		ru := repUnit{Name: u.name, Err: u.err, Inlined: sortedKeys(u.inlined), Called: sortedKeys(u.called), Trusted: sortedKeys(u.trusted), Mode: "mathematical with explicit ranges"}
		if u.enc.bv {
			ru.Mode = "bit vectors"
		}
		for _, o := range u.obls {
			if o.cand != nil {
				if o.cand.active {
					ru.Obligs = append(ru.Obligs, repOb{o.name, o.kind, o.result, o.solver, o.ms, o.at, true})
				}
				continue
			}
			ru.Obligs = append(ru.Obligs, repOb{o.name, o.kind, o.result, o.solver, o.ms, o.at, o.ok()})
		}
		for _, c := range u.cands {
			if c.active {
				ru.Invariants = append(ru.Invariants, c.name)
			}
		}
		r.Units = append(r.Units, ru)
	}
	return r
}

func (r *Report) write(f string) {
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(f, b, 0o644)
}
