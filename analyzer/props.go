package main

var props = []propSpec{
	{id: "C01", rules: []func(*program) *ruleRun{setRule("alg/")}, files: []string{"alg/exec/exec.go", "alg/ensemble/ensemble.go", "alg/dict/dict.go", "alg/dict/runs.go", "alg/contfrac/contfrac.go", "alg/heuristic/heuristic.go", "alg/binary/binary.go", "alg/opt/opt.go", "alg/alg.go", "chain.go"}},
	{id: "C02", rules: []func(*program) *ruleRun{setRule("addchain.")}, files: []string{"chain.go", "program.go"}, only: []string{"internal/bigints.*", "internal/bigint.*"}},
	{id: "C03", rules: []func(*program) *ruleRun{grammarRule}, files: []string{"acc/parse/parse.go", "acc/ast/ast.go", "acc/translate.go", "acc/pass/eval.go", "program.go", "acc/acc.go"}, only: []string{"(*cmd/addchain.eval).*"}},
	{id: "C04", rules: []func(*program) *ruleRun{grammarRule}, files: []string{"acc/decompile.go", "acc/build.go", "acc/printer/printer.go", "acc/translate.go", "acc/pass/eval.go", "acc/pass/naming.go", "acc/pass/validation.go", "acc/pass/pass.go"}, roots: []string{"acc.LoadString", "acc.String"}, only: []string{"(*cmd/addchain.search).*"}},
	{id: "C05", files: []string{"acc/pass/alloc.go", "acc/pass/pass.go", "acc/eval/interp.go", "acc/ir/ir.go"}, only: []string{"acc/pass.Name*"}},
	{id: "C06", rules: []func(*program) *ruleRun{templateRule}, files: []string{"internal/gen/gen.go", "internal/gen/functions.go", "acc/pass/alloc.go", "acc/pass/validation.go"}, only: []string{"(*cmd/addchain.generate).*", "(acc/ir.Operand).*", "acc/printer.String", "(acc/pass.Func).Execute"}, strs: true},
	{id: "C07", rules: []func(*program) *ruleRun{grammarRule, keywordRule}, files: []string{"acc/printer/printer.go", "acc/ast/ast.go", "internal/print/printer.go", "acc/parse/parse.go"}, only: []string{"(*cmd/addchain.format).*"}},
	{id: "C08", rules: []func(*program) *ruleRun{setRule("alg/contfrac", "alg/heuristic")}, files: []string{"alg/contfrac/contfrac.go", "alg/heuristic/heuristic.go", "alg/alg.go", "chain.go", "internal/bigints/bigints.go"}},
	{id: "C09", roots: []string{"(alg/dict.FixedWindow).*", "(alg/dict.SlidingWindow).*", "(alg/dict.RunLength).*", "(alg/dict.Hybrid).*", "(alg/dict.Sum).*", "(alg/dict.Term).*"}},
	{id: "C10", rules: []func(*program) *ruleRun{orderRule("alg/opt")}, files: []string{"chain.go"}, roots: []string{"alg/opt.Optimize"}, only: []string{"(alg/opt.Algorithm).*", "alg/opt.*"}},
	{id: "C11", roots: []string{"alg/dict.RunsChain"}},
	{id: "C12", only: []string{"alg/exec.*", "(*alg/exec.Parallel).*", "(alg/exec.Parallel).*"}, rules: []func(*program) *ruleRun{concRule("alg/exec"), pureRule, detRule([]string{"alg/exec/exec.go"}, nil)}},
	{id: "C13", files: []string{"internal/calc/calc.go"}, only: []string{"(*cmd/addchain.search).Execute"}},
	{id: "C14", rules: []func(*program) *ruleRun{costRule, detRule([]string{"cmd/addchain/search.go", "cmd/addchain/eval.go", "cmd/addchain/fmt.go", "cmd/addchain/gen.go"}, nil)}, files: []string{"cmd/addchain/search.go", "cmd/addchain/eval.go", "cmd/addchain/fmt.go", "cmd/addchain/gen.go", "cmd/addchain/main.go", "internal/cli/cmd.go", "internal/calc/calc.go", "alg/exec/exec.go", "acc/decompile.go", "acc/build.go", "acc/printer/printer.go"}},
	{id: "C15", rules: []func(*program) *ruleRun{grammarRule, powRule("internal/calc", "cmd/addchain", "acc", "acc/pass", "acc/eval", "acc/ir", "internal/gen")}, files: []string{"cmd/addchain/search.go", "cmd/addchain/eval.go", "cmd/addchain/fmt.go", "cmd/addchain/gen.go", "internal/cli/cmd.go", "internal/calc/calc.go", "acc/build.go", "acc/ir/ir.go", "acc/pass/alloc.go", "alg/exec/exec.go", "alg/dict/dict.go", "acc/parse/parse.go", "acc/translate.go", "internal/gen/gen.go"}},
	{id: "C16", files: []string{"acc/pass/naming.go", "acc/build.go", "acc/pass/pass.go"}},
	{id: "C17", rules: []func(*program) *ruleRun{poolRule}, files: []string{"acc/pass/alloc.go"}},
	{id: "C18", rules: []func(*program) *ruleRun{appendRule}, files: []string{"program.go", "chain.go"}},
	{id: "C19", files: []string{"internal/bigint/bigint.go", "internal/bigints/bigints.go", "internal/bigvector/bigvector.go"}},
	{id: "C20", files: []string{"internal/metavars/metavars.go", "meta/vars.go", "internal/tools/release/bump.go"}},
}
