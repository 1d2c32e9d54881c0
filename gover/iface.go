package main

import (
	"go/types"
	"sort"
	"strings"
)

// implementers gives the contract of an interface method to every type of the repository that
// implements the interface; a call through the interface is checked against that contract only.
func (r *Run) implementers(c *Contract) []string {
	f := strings.Split(c.Key, ".")
	o := c.Pkg.Types.Scope().Lookup(f[1])
	if o == nil {
		return nil
	}
	ifc, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []string
	var pks []string
	for p := range r.prog.Pkgs {
		pks = append(pks, p)
	}
	sort.Strings(pks)
	for _, pn := range pks {
		p := r.prog.Pkgs[pn]
		if p.Types == nil {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			if !types.Implements(tn.Type(), ifc) && !types.Implements(types.NewPointer(tn.Type()), ifc) {
				continue
			}
			key := p.Types.Name() + "." + n + "." + f[2]
			own := r.db.Contracts[key]
			if own == nil {
				own = &Contract{Key: key, Pkg: p, Attrs: map[string]bool{}, Args: map[string]string{}, Props: map[string]bool{}, Where: c.Where}
				own.Params = append([]string{"recv_"}, c.Params[1:]...)
				own.Results = c.Results
				r.db.Contracts[key] = own
			}
			own.Iface = c
			out = append(out, key)
		}
	}
	return out
}
