package checks

import "verif/internal/mc"

func init() {
	reg := func(prop string, fams []family, oracle func(*mc.T, *Loaded), extra ...mc.Engine) {
		mc.Register(&mc.Check{Prop: prop, Level: "model_checking", Setup: buildCommands, Bounds: graphBounds + "  The built command against the library for every combination of the flags concerned.  Agreement of the views of about 3400 programs reaching a function in the ways of C03 and C26 (wrappers, method values, instances).", Assume: graphAssume,
			Engines: append(graphEngines(fams, oracle), extra...)})
	}
	mc.Register(&mc.Check{Prop: "C02", Level: "model_checking", Setup: buildCommands, Bounds: graphBounds + "  Call sites of real cgo code, through the built command.", Assume: graphAssume,
		Engines: append(graphEngines(graphFamilies, oracleSound), sitesEngine)})
	reg("C12", graphFamilies, oracleGranularity, commandEngine([]string{"", "json", "v", "m"}, dimGran, dimPkgs, dimOmit), viewEngine(viewGranularity))
	reg("C13", append(modeFamilies[:len(modeFamilies):len(modeFamilies)], famCounts), oracleModes, commandEngine(c20Outs[:9], dimMap, dimPkgs), viewEngine(viewModes))
	reg("C15", modeFamilies, oracleGraph, append(graphEngines([]family{famG4, famLarge}, func(t *mc.T, l *Loaded) { graphWith(t, l, "") }), commandEngine([]string{"graph", "g"}, dimCaps, dimMap, dimPkgs), namesEngine, viewEngine(viewGraph))...)
	reg("C22", modeFamilies, oracleOmit, commandEngine(c20Outs[:5], dimOmit, dimGran, dimMap), viewEngine(viewOmit))
	reg("C23", []family{famG3s, famExtras, famKinds, famLayouts, famPkgEntries, famInits, famBig, famStyles}, oracleLabels, chainEngine(), commandEngine([]string{"json", "v"}, dimPkgs, dimGran, dimMap), viewEngine(viewLabels))
}
