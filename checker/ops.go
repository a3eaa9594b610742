package main

import (
	"go/types"
	"strings"
)

// Storage operations are recognised by method name and signature, so that it
// does not matter through which interface they are called.

var opNames = []string{"Set", "Get", "Exists", "Delete", "Scan", "Commit", "Discard", "NewTransaction", "Open", "Close", "WriteBatch", "StartTS"}

func (w *World) opOf(m *types.Func) string {
	if w.opSigs == nil {
		w.opSigs = map[string][]*types.Signature{}
		p := w.spkgs["mondis"]
		if p != nil {
			for _, n := range []string{"KVDB", "ProviderTxn", "ProviderWriteBatch", "KVOP", "Txn"} {
				tn, _ := p.Pkg.Scope().Lookup(n).(*types.TypeName)
				if tn == nil {
					continue
				}
				it, _ := tn.Type().Underlying().(*types.Interface)
				if it == nil {
					continue
				}
				for i := 0; i < it.NumMethods(); i++ {
					mm := it.Method(i)
					w.opSigs[mm.Name()] = append(w.opSigs[mm.Name()], mm.Type().(*types.Signature))
				}
			}
		}
	}
	sig := m.Type().(*types.Signature)
	if sig.Recv() != nil {
		if _, ok := sig.Recv().Type().Underlying().(*types.Interface); !ok {
			return ""
		}
	}
	if m.Pkg() == nil || !strings.HasPrefix(m.Pkg().Path(), modPath) {
		return ""
	}
	for _, s := range w.opSigs[m.Name()] {
		if types.Identical(stripRecv(s), stripRecv(sig)) {
			return m.Name()
		}
	}
	return ""
}

func stripRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}
