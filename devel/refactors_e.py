# refactorings written as probes against the comparison
R=[]
def r(id,*edits): R.append((id,list(edits)))
r('p-m1',
  ('alg/dict/dict.go', '\t\tl := max(h-int(w.K), 0)\n', '\t\tl := h - int(w.K)\n\t\tif l < 0 {\n\t\t\tl = 0\n\t\t}\n'))
r('p-m2',
  ('alg/dict/dict.go', '\tcur := bigint.Clone(sum[k].D)\n\tfor ; k > 0; k-- {', '\tcur := new(big.Int).Set(sum[k].D)\n\tfor k >= 1 {'),
  ('alg/dict/dict.go', '\t\tcur.Add(cur, sum[k-1].D)\n\t\tc.AppendClone(cur)\n', '\t\tk--\n\t\tcur.Add(cur, sum[k].D)\n\t\tc.AppendClone(cur)\n'))
r('p-m3',
  ('alg/dict/dict.go', '\tfor i := sum[0].E; i > 0; i-- {\n\t\tcur.Lsh(cur, 1)\n\t\tc.AppendClone(cur)\n\t}\n\n\treturn c', '\treturn double(c, cur, sum[0].E)'),
  ('alg/dict/dict.go', '// primitive removes', 'func double(c addchain.Chain, x *big.Int, n uint) addchain.Chain {\n\tfor j := uint(0); j < n; j++ {\n\t\tx.Lsh(x, 1)\n\t\tc.AppendClone(x)\n\t}\n\treturn c\n}\n\n// primitive removes'))
r('p-m4',
  ('alg/dict/dict.go', '\t\tfor i := sum[k].E; i > sum[k-1].E; i-- {\n\t\t\tcur.Lsh(cur, 1)\n\t\t\tc.AppendClone(cur)\n', '\t\tgap := sum[k].E - sum[k-1].E\n\t\tfor n := uint(1); n <= gap; n++ {\n\t\t\tc = append(c, new(big.Int).Lsh(cur, n))\n'),
  ('alg/dict/dict.go', '\t\t// Add in the dictionary term', '\t\tcur.Lsh(cur, gap)\n\t\t// Add in the dictionary term'))
r('p-m5',
  ('alg/dict/runs.go', '\t\tfor ; s[lb] < la; s[lb]++ {\n\t\t\tshift := new(big.Int).Lsh(rb, s[lb]+1)\n\t\t\tc = append(c, shift)\n\t\t}\n', '\t\tfor s[lb] < la {\n\t\t\ts[lb]++\n\t\t\tc = append(c, new(big.Int).Lsh(rb, s[lb]))\n\t\t}\n'))
r('p-m6',
  ('program.go', '\tfor ; s > 0; s-- {\n\t\tnext, err := p.Double(i)\n\t\tif err != nil {\n\t\t\treturn 0, err\n\t\t}\n\t\ti = next\n\t}\n\treturn i, nil', '\tif s == 0 {\n\t\treturn i, nil\n\t}\n\tnext, err := p.Double(i)\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\treturn p.Shift(next, s-1)'))
r('p-m7',
  ('program.go', '\t\tbitset := new(big.Int).Or(bitsets[op.I], bitsets[op.J])\n', '\t\tbitset := bigint.Clone(bitsets[op.I])\n\t\tif !op.IsDouble() {\n\t\t\tbitset.Or(bitset, bitsets[op.J])\n\t\t}\n'))
r('p-m8',
  ('program.go', '\t\tif op.IsDouble() {\n\t\t\tdoubles++\n\t\t} else {\n\t\t\tadds++\n\t\t}\n\t}\n\treturn', '\t\tif op.IsDouble() {\n\t\t\tdoubles++\n\t\t}\n\t}\n\tadds = len(p) - doubles\n\treturn'))
r('p-m9',
  ('acc/decompile.go', '\t\tj := i + 1\n\t\tfor ; j < len(p) && numreads[j] == 1 && p[j].I == j && p[j].J == j; j++ {\n\t\t}\n\n\t\ts := j - i\n', '\t\ts := 1\n\t\tfor {\n\t\t\tj := i + s\n\t\t\tif j >= len(p) || numreads[j] != 1 || p[j].I != j || p[j].J != j {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\ts++\n\t\t}\n\t\tj := i + s\n'))
r('p-m10',
  ('acc/translate.go', '\ts.n += int(sh.S)\n\tout := ir.Index(s.n - 1)\n', '\tout := ir.Index(s.n + int(sh.S) - 1)\n'),
  ('acc/translate.go', '\ts.prog.AddInstruction(inst)\n\n\treturn out, nil\n}\n\nfunc (s *state) define', '\ts.prog.AddInstruction(inst)\n\ts.n = out.Index + 1\n\n\treturn out, nil\n}\n\nfunc (s *state) define'))
r('p-m11',
  ('acc/pass/alloc.go', '\tfor i := len(p.Instructions) - 1; i >= 0; i-- {\n\t\tinst := p.Instructions[i]\n', '\tfor n := len(p.Instructions); n > 0; n-- {\n\t\tinst := p.Instructions[n-1]\n'))
r('p-m12',
  ('acc/pass/alloc.go', "\t// If there's nothing available, we'll need another variable.\n\tif len(a.available) == 0 {\n\t\ta.available = append(a.available, a.n)\n\t\ta.n++\n\t}\n", '\tif len(a.available) == 0 {\n\t\ta.variable[i] = a.n\n\t\ta.n++\n\t\treturn\n\t}\n'))
r('p-m13',
  ('acc/pass/naming.go', '\t\tn := uint(x.BitLen())\n\t\tif !bigint.Equal(x, bigint.Ones(n)) {\n\t\t\treturn ""\n\t\t}\n\t\treturn fmt.Sprintf(format, n)', '\t\tn := uint(x.BitLen())\n\t\tif x.Cmp(bigint.Ones(n)) == 0 {\n\t\t\treturn fmt.Sprintf(format, n)\n\t\t}\n\t\treturn ""'))
r('p-m14',
  ('alg/opt/opt.go', '\tremove := []int{}\n', '\tvar remove []int\n'),
  ('alg/opt/opt.go', '\tpruned := addchain.Chain{}\n\tfor i, x := range c {\n\t\tif len(remove) > 0 && remove[0] == i {\n\t\t\tremove = remove[1:]\n\t\t\tcontinue\n\t\t}\n\t\tpruned = append(pruned, x)\n\t}', '\tpruned := addchain.Chain{}\n\tnext := 0\n\tfor i, x := range c {\n\t\tif next < len(remove) && remove[next] == i {\n\t\t\tnext++\n\t\t} else {\n\t\t\tpruned = append(pruned, x)\n\t\t}\n\t}'))
r('p-m15',
  ('alg/opt/opt.go', '\tfiltered := ops[:0]\n', '\tfiltered := make([]addchain.Op, 0, len(ops))\n'))
r('p-m16',
  ('internal/bigint/bigint.go', '\tfor IsNonZero(z) {\n\t\tword.And(z, mask)\n\t\twords = append(words, word.Uint64())\n\t\tz.Rsh(z, 64)\n\t}', '\tfor z.Sign() != 0 {\n\t\twords = append(words, word.And(z, mask).Uint64())\n\t\tz.Rsh(z, 64)\n\t}'))
r('p-m17',
  ('internal/bigint/bigint.go', '\te := Mask(l, h)\n\te.And(e, x)\n\treturn e.Rsh(e, l)', '\te := new(big.Int).And(x, Mask(l, h))\n\te.Rsh(e, l)\n\treturn e'))
r('p-m18',
  ('internal/bigint/bigint.go', '\te := x.BitLen()\n\tif e == 0 {\n\t\treturn false\n\t}\n\treturn Equal(x, Pow2(uint(e-1)))', '\tif IsZero(x) {\n\t\treturn false\n\t}\n\treturn Equal(x, Pow2(uint(x.BitLen()-1)))'))
r('p-m19',
  ('alg/exec/exec.go', '\tlimit := p.limit\n\tif limit > len(as) {\n\t\tlimit = len(as)\n\t}\n', '\tlimit := len(as)\n\tif p.limit < limit {\n\t\tlimit = p.limit\n\t}\n'))
r('p-m20',
  ('alg/exec/exec.go', '\t\t\tp.logger.Printf("done: %s", a)\n\t\t\t<-sem\n\t\t}(i, a)', '\t\t\tp.logger.Printf("done: %s", a)\n\t\t\t<-sem\n\t\t}(i, a)\n'))
r('p-m21',
  ('alg/exec/exec.go', '\t\t\tp.logger.Printf("start: %s", a)\n\t\t\trs[i] = Execute(n, a)\n\t\t\tp.logger.Printf("done: %s", a)\n\t\t\t<-sem\n', '\t\t\tdefer func() { <-sem }()\n\t\t\tp.logger.Printf("start: %s", a)\n\t\t\trs[i] = Execute(n, a)\n\t\t\tp.logger.Printf("done: %s", a)\n'))
r('p-m22',
  ('acc/printer/printer.go', '\tif e.Precedence() < prec {\n\t\tp.Printf("(")\n\t\tp.expr(e, ast.LowestPrec)\n\t\tp.Printf(")")\n\t\treturn\n\t}\n', '\tif e.Precedence() < prec {\n\t\tp.parens(e)\n\t\treturn\n\t}\n'),
  ('acc/printer/printer.go', 'func (p *printer) add(', 'func (p *printer) parens(e ast.Expr) {\n\tp.Printf("(")\n\tp.expr(e, ast.LowestPrec)\n\tp.Printf(")")\n}\n\nfunc (p *printer) add('))
r('p-m23',
  ('chain.go', '\t\t\tif cmp == 0 {\n\t\t\t\tops = append(ops, Op{l, r})\n\t\t\t}\n\t\t\tif cmp <= 0 {\n\t\t\t\tl++\n\t\t\t} else {\n\t\t\t\tr--\n\t\t\t}\n', '\t\t\tswitch {\n\t\t\tcase cmp < 0:\n\t\t\t\tl++\n\t\t\tcase cmp > 0:\n\t\t\t\tr--\n\t\t\tdefault:\n\t\t\t\tops = append(ops, Op{l, r})\n\t\t\t\tl++\n\t\t\t}\n'))
r('p-m24',
  ('chain.go', '\tfor i := 0; i < k; i++ {\n\t\tfor j := i; j < k; j++ {\n\t\t\ts.Add(c[i], c[j])\n\t\t\tif s.Cmp(c[k]) == 0 {\n\t\t\t\tops = append(ops, Op{i, j})\n\t\t\t}\n\t\t}\n\t}', '\tfor i, x := range c[:k] {\n\t\tfor j := i; j < k; j++ {\n\t\t\tif s.Add(x, c[j]).Cmp(c[k]) != 0 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tops = append(ops, Op{I: i, J: j})\n\t\t}\n\t}'))
r('p-m25',
  ('chain.go', '\tfor i := 0; i < len(c); i++ {\n\t\tfor j := i + 1; j < len(c); j++ {\n\t\t\tif bigint.Equal(c[i], c[j]) {', '\tfor i, x := range c {\n\t\tfor j := i + 1; j < len(c); j++ {\n\t\t\tif x.Cmp(c[j]) == 0 {'))
r('p-m26',
  ('chain.go', '\tfor _, x := range b[1:] {\n\t\ty := new(big.Int).Mul(last, x)\n\t\tc = append(c, y)\n\t}', '\tfor i := 1; i < len(b); i++ {\n\t\tc = append(c, new(big.Int).Mul(b[i], last))\n\t}'))
r('p-m27',
  ('alg/contfrac/contfrac.go', '\tfor k.Cmp(n) < 0 {\n\t\tks = append(ks, bigint.Clone(k))\n\t\tk.Add(k, one)\n\t}', '\tfor ; k.Cmp(n) < 0; k.Add(k, one) {\n\t\tks = append(ks, bigint.Clone(k))\n\t}'))
r('p-m28',
  ('alg/contfrac/contfrac.go', '\tvar min addchain.Chain\n\tfor _, k := range a.strategy.K(n) {\n\t\tc := a.chain([]*big.Int{k, n})\n\t\tif min == nil || len(c) < len(min) {\n\t\t\tmin = c\n\t\t}\n\t}\n\n\treturn min', '\treturn a.best(n)'),
  ('alg/contfrac/contfrac.go', '// chain produces', 'func (a Algorithm) best(n *big.Int) addchain.Chain {\n\tvar min addchain.Chain\n\tfor _, k := range a.strategy.K(n) {\n\t\tif c := a.chain([]*big.Int{k, n}); min == nil || len(min) > len(c) {\n\t\t\tmin = c\n\t\t}\n\t}\n\treturn min\n}\n\n// chain produces'))
r('p-m29',
  ('alg/contfrac/contfrac.go', '\tif bigint.IsZero(r) {\n\t\treturn addchain.Product(a.chain(remaining), cq)\n\t}\n\n\tremaining = bigints.InsertSortedUnique(remaining, r)\n\treturn addchain.Plus(addchain.Product(a.chain(remaining), cq), r)', '\texact := bigint.IsZero(r)\n\tif !exact {\n\t\tremaining = bigints.InsertSortedUnique(remaining, r)\n\t}\n\tc := addchain.Product(a.chain(remaining), cq)\n\tif exact {\n\t\treturn c\n\t}\n\treturn addchain.Plus(c, r)'))
r('p-m30',
  ('alg/heuristic/heuristic.go', '\tkshifts := []*big.Int{}\n\tfor e := 0; e <= u; e++ {\n\t\tkshift := new(big.Int).Lsh(k, uint(e))\n\t\tkshifts = append(kshifts, kshift)\n\t}\n', '\tkshifts := make([]*big.Int, u+1)\n\tfor e := range kshifts {\n\t\tkshifts[e] = new(big.Int).Lsh(k, uint(e))\n\t}\n'))
r('p-m31',
  ('alg/heuristic/heuristic.go', '\tu := r.BitLen() - 1\n', '\tu := 0\n\tfor r.Cmp(bigint.One()) > 0 {\n\t\tr.Rsh(r, 1)\n\t\tu++\n\t}\n'))
r('p-m32',
  ('alg/heuristic/heuristic.go', '\t\tif first || delta.Cmp(mindelta) < 0 {\n\t\t\tmindelta.Set(delta)\n\t\t\tbest.Set(insert)\n\t\t\tfirst = false\n\t\t}\n', '\t\tbetter := first\n\t\tif !better {\n\t\t\tbetter = delta.Cmp(mindelta) < 0\n\t\t}\n\t\tif better {\n\t\t\tfirst = false\n\t\t\tmindelta.Set(delta)\n\t\t\tbest.Set(insert)\n\t\t}\n'))
r('p-m33',
  ('alg/binary/binary.go', '\t\t\tif x == nil {\n\t\t\t\tx = bigint.Clone(d)\n\t\t\t} else {\n\t\t\t\tx.Add(x, d)\n\t\t\t\tc.AppendClone(x)\n\t\t\t}\n', '\t\t\tif x != nil {\n\t\t\t\tx = new(big.Int).Add(x, d)\n\t\t\t\tc = append(c, x)\n\t\t\t} else {\n\t\t\t\tx = bigint.Clone(d)\n\t\t\t}\n'))
r('p-m34',
  ('internal/calc/calc.go', '\tx, ok := new(big.Int).SetString(string(b[:i]), 0)\n\tif !ok {\n\t\treturn nil, nil, errors.New("expected number")\n\t}\n\n\treturn x, b[i:], nil', '\tliteral, rest := b[:i], b[i:]\n\tif x, ok := new(big.Int).SetString(string(literal), 0); ok {\n\t\treturn x, rest, nil\n\t}\n\treturn nil, nil, errors.New("expected number")'))
r('p-m35',
  ('internal/calc/calc.go', '\ttop := len(y.operators) - 1\n\top := y.operators[top]\n\ty.operators = y.operators[:top]\n\treturn op', '\top := y.peek()\n\ty.operators = y.operators[:len(y.operators)-1]\n\treturn op'))
r('p-m36',
  ('internal/bigints/bigints.go', '\tu := make([]*big.Int, 1, len(xs))\n\tu[0] = xs[0]\n\tfor _, x := range xs[1:] {\n\t\tlast := u[len(u)-1]\n\t\tif !bigint.Equal(x, last) {\n\t\t\tu = append(u, x)\n\t\t}\n\t}', '\tu := []*big.Int{xs[0]}\n\tlast := xs[0]\n\tfor _, x := range xs[1:] {\n\t\tif bigint.Equal(x, last) {\n\t\t\tcontinue\n\t\t}\n\t\tu = append(u, x)\n\t\tlast = x\n\t}'))
r('p-m37',
  ('internal/bigints/bigints.go', '\tfor i, x := range xs {\n\t\tif bigint.Equal(n, x) {\n\t\t\treturn i\n\t\t}\n\t}\n\treturn -1', '\ti := 0\n\tfor i < len(xs) && !bigint.Equal(n, xs[i]) {\n\t\ti++\n\t}\n\tif i == len(xs) {\n\t\treturn -1\n\t}\n\treturn i'))
r('p-m38',
  ('internal/bigints/bigints.go', '\ti := sort.Search(len(xs), func(i int) bool { return xs[i].Cmp(n) >= 0 })\n\treturn i < len(xs) && bigint.Equal(xs[i], n)', '\tatleast := func(i int) bool { return n.Cmp(xs[i]) <= 0 }\n\ti := sort.Search(len(xs), atleast)\n\tif i == len(xs) {\n\t\treturn false\n\t}\n\treturn bigint.Equal(n, xs[i])'))
r('p-m39',
  ('acc/translate.go', '\tif _, found := s.variable[name]; found {\n\t\treturn fmt.Errorf("cannot redefine %q", name)\n\t}\n', '\tif s.variable[name] != nil {\n\t\treturn fmt.Errorf("cannot redefine %q", name)\n\t}\n'))
r('p-n1',
  ('cmd/addchain/search.go', '\tbest := 0\n\tmincost := math.Inf(+1)\n\tfor i, r := range rs {\n', '\tvar best exec.Result\n\tmincost := math.Inf(+1)\n\tfor _, r := range rs {\n'),
  ('cmd/addchain/search.go', '\t\t\tbest = i\n\t\t\tmincost', '\t\t\tbest = r\n\t\t\tmincost'),
  ('cmd/addchain/search.go', '\tb := rs[best]\n', '\tb := best\n'))
r('p-n2',
  ('cmd/addchain/search.go', '\t\tcost := cmd.double*float64(doubles) + cmd.add*float64(adds)\n', '\t\tcost := cmd.price(doubles, adds)\n'),
  ('cmd/addchain/search.go', '// Debugf prints', 'func (cmd *search) price(doubles, adds int) float64 {\n\treturn cmd.double*float64(doubles) + cmd.add*float64(adds)\n}\n\n// Debugf prints'))
r('p-n3',
  ('cmd/addchain/search.go', '\t\tif cost < mincost {\n\t\t\tbest = i\n\t\t\tmincost = cost\n\t\t}', '\t\tif cost >= mincost {\n\t\t\tcontinue\n\t\t}\n\t\tbest, mincost = i, cost'))
r('p-n4',
  ('cmd/addchain/search.go', '\tas := ensemble.Ensemble()\n\trs := ex.Execute(n, as)\n', '\trs := ex.Execute(n, ensemble.Ensemble())\n'))
r('p-n5',
  ('internal/metavars/metavars.go', '\tif p := f.get(name); p != nil {\n\t\treturn p.Value, true\n\t}\n\treturn "", false', '\tp := f.get(name)\n\tif p == nil {\n\t\treturn "", false\n\t}\n\treturn p.Value, true'))
r('p-n6',
  ('internal/metavars/metavars.go', '\tfor i := range f.Properties {\n\t\tp := &f.Properties[i]\n\t\tif p.Name == name {\n\t\t\treturn p\n\t\t}\n\t}\n\treturn nil', '\tfor i, p := range f.Properties {\n\t\tif p.Name == name {\n\t\t\treturn &f.Properties[i]\n\t\t}\n\t}\n\treturn nil'))
r('p-n8',
  ('internal/metavars/metavars.go', '\texpr := v.Values[0]\n\tlit, ok := expr.(*ast.BasicLit)\n\tif !ok {', '\tlit, ok := v.Values[0].(*ast.BasicLit)\n\tif !ok {'))
r('p-n9',
  ('internal/metavars/metavars.go', '\t\tif !strings.HasPrefix(comment.Text, leader) {\n\t\t\tb.seterrorf("expected documentation to have %q leader", leader)\n\t\t\treturn\n\t\t}\n\t\tp.Doc = strings.TrimPrefix(comment.Text, leader)', '\t\tif !strings.HasPrefix(comment.Text, leader) {\n\t\t\tb.seterrorf("expected documentation to have %q leader", leader)\n\t\t\treturn\n\t\t}\n\t\tp.Doc = comment.Text[len(leader):]'))
r('p-n10',
  ('acc/pass/validation.go', '\toutputset := map[int]bool{0: true}\n', '\toutputset := map[int]struct{}{0: {}}\n'),
  ('acc/pass/validation.go', '\t\t\tif !outputset[input.Index] {', '\t\t\tif _, ok := outputset[input.Index]; !ok {'),
  ('acc/pass/validation.go', '= true', '= struct{}{}'))
r('p-n11',
  ('acc/pass/pass.go', '\t\t\texisting, found := p.Operands[operand.Index]\n\t\t\tif !found {\n\t\t\t\tp.Operands[operand.Index] = operand\n\t\t\t\tcontinue\n\t\t\t}\n\n\t\t\tif existing == operand {\n\t\t\t\tcontinue\n\t\t\t}\n', '\t\t\texisting, found := p.Operands[operand.Index]\n\t\t\tswitch {\n\t\t\tcase !found:\n\t\t\t\tp.Operands[operand.Index] = operand\n\t\t\t\tcontinue\n\t\t\tcase existing == operand:\n\t\t\t\tcontinue\n\t\t\t}\n'))
r('p-n12',
  ('acc/pass/pass.go', '\t\t\tif operand.Identifier != "" {\n\t\t\t\texisting.Identifier = operand.Identifier\n\t\t\t}\n', '\t\t\tif existing.Identifier == "" {\n\t\t\t\texisting.Identifier = operand.Identifier\n\t\t\t}\n'))
r('p-n13',
  ('acc/pass/pass.go', '\t\tswitch op := i.Op.(type) {\n\t\tcase ir.Add:\n\t\t\ti.Op = ir.Add{\n\t\t\t\tX: p.Operands[op.X.Index],\n\t\t\t\tY: p.Operands[op.Y.Index],\n\t\t\t}\n', '\t\tswitch op := i.Op.(type) {\n\t\tcase ir.Add:\n\t\t\tx, y := p.Operands[op.X.Index], p.Operands[op.Y.Index]\n\t\t\ti.Op = ir.Add{X: x, Y: y}\n'))
r('p-n14',
  ('acc/pass/pass.go', '\tfor index := range p.Operands {\n\t\tp.Indexes = append(p.Indexes, index)\n\t}\n\n\tsort.Ints(p.Indexes)\n', '\tindexes := make([]int, 0, len(p.Operands))\n\tfor index := range p.Operands {\n\t\tindexes = append(indexes, index)\n\t}\n\tsort.Ints(indexes)\n\tp.Indexes = indexes\n'))
r('p-n15',
  ('acc/eval/interp.go', '\tif x, ok := i.Load(operand.Identifier); ok {\n\t\treturn x\n\t}\n\tx := new(big.Int)\n\ti.Store(operand.Identifier, x)\n\treturn x', '\tx, ok := i.Load(operand.Identifier)\n\tif !ok {\n\t\tx = new(big.Int)\n\t\ti.Store(operand.Identifier, x)\n\t}\n\treturn x'))
r('p-n16',
  ('acc/eval/interp.go', '\t\tx, err := i.operands(op.X, op.Y)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\toutput.Add(x[0], x[1])\n', '\t\tx, err := i.operand(op.X)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\ty, err := i.operand(op.Y)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\toutput.Add(x, y)\n'))
r('p-n17',
  ('acc/eval/interp.go', '\t\toutput.Add(x, x)\n', '\t\toutput.Lsh(x, 1)\n'))
r('p-n18',
  ('acc/build.go', '\t\tanon := out.Identifier == ""\n\t\tusedonce := b.prog.ReadCount[out.Index] == 1\n\t\tusednext := i+1 < n && ir.HasInput(insts[i+1].Op, out.Index)\n\t\tif anon && usedonce && usednext && complexity < complexitylimit {\n\t\t\tcontinue\n\t\t}\n\n\t\t// Otherwise write a statement for it.\n\t\tb.commit(inst.Output)\n\t\tcomplexity = 0\n', '\t\tinline := complexity < complexitylimit && out.Identifier == "" &&\n\t\t\tb.prog.ReadCount[out.Index] == 1 &&\n\t\t\ti+1 < n && ir.HasInput(insts[i+1].Op, out.Index)\n\t\tif !inline {\n\t\t\t// Write a statement for it.\n\t\t\tb.commit(out)\n\t\t\tcomplexity = 0\n\t\t}\n'))
r('p-n19',
  ('acc/build.go', '\tfor i := 0; i < n; i++ {\n\t\tcomplexity++\n\t\tinst := insts[i]\n', '\tfor i, inst := range insts {\n\t\tcomplexity++\n'))
r('p-n20',
  ('acc/build.go', '\te, ok := b.expr[op.Index]\n\tif !ok {\n\t\treturn ast.Operand(op.Index)\n\t}\n\treturn e', '\tif e, ok := b.expr[op.Index]; ok {\n\t\treturn e\n\t}\n\treturn ast.Operand(op.Index)'))
r('p-n21',
  ('acc/build.go', '\tx := b.operand(a.X)\n\ty := b.operand(a.Y)\n\n\tswitch {\n\tcase ast.IsOp(x) && ast.IsOp(y):\n\t\treturn nil, errutil.AssertionFailure("only one of x and y should be an operator expression")\n\tcase ast.IsOp(y):\n\t\tx, y = y, x\n\tcase ast.IsOp(x):\n\t\t// Nothing, it\'s already the first operand.\n\t}\n', '\tx, y := b.operand(a.X), b.operand(a.Y)\n\tif ast.IsOp(y) {\n\t\tif ast.IsOp(x) {\n\t\t\treturn nil, errutil.AssertionFailure("only one of x and y should be an operator expression")\n\t\t}\n\t\tx, y = y, x\n\t}\n'))
r('p-n22',
  ('acc/build.go', '\tname := ast.Identifier(b.name(op))\n\tstmt := ast.Statement{\n\t\tName: name,\n\t\tExpr: b.operand(op),\n\t}\n\tb.chain.Statements = append(b.chain.Statements, stmt)\n\tb.expr[op.Index] = name', '\texpr := b.operand(op)\n\tname := ast.Identifier(b.name(op))\n\tb.expr[op.Index] = name\n\tb.chain.Statements = append(b.chain.Statements, ast.Statement{Name: name, Expr: expr})'))
r('p-n23',
  ('acc/ir/ir.go', '\tfor _, input := range op.Inputs() {\n\t\tif input.Index == idx {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false', '\tinputs := op.Inputs()\n\tfor i := len(inputs) - 1; i >= 0; i-- {\n\t\tif inputs[i].Index == idx {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false'))
r('p-n24',
  ('acc/ir/ir.go', '\treturn append(i.Op.Inputs(), i.Output)', '\toperands := i.Op.Inputs()\n\toperands = append(operands, i.Output)\n\treturn operands'))
r('p-n25',
  ('alg/ensemble/ensemble.go', '\tfor _, decomp := range decomposers {\n\t\tfor _, seqalg := range seqalgs {\n\t\t\ta := dict.NewAlgorithm(decomp, seqalg)\n\t\t\tas = append(as, a)\n\t\t}\n\t}', '\tfor i := range decomposers {\n\t\tfor j := range seqalgs {\n\t\t\tas = append(as, dict.NewAlgorithm(decomposers[i], seqalgs[j]))\n\t\t}\n\t}'))
r('p-n26',
  ('alg/ensemble/ensemble.go', '\tfor i, a := range as {\n\t\tas[i] = opt.Algorithm{Algorithm: a}\n\t}\n\n\treturn as', '\twrapped := make([]alg.ChainAlgorithm, 0, len(as))\n\tfor _, a := range as {\n\t\twrapped = append(wrapped, opt.Algorithm{Algorithm: a})\n\t}\n\n\treturn wrapped'))
r('p-n27',
  ('alg/ensemble/ensemble.go', '\tfor k := uint(4); k <= 128; k *= 2 {\n\t\tdecomposers = append(decomposers, dict.SlidingWindow{K: k})\n\t}\n', '\tfor _, k := range []uint{4, 8, 16, 32, 64, 128} {\n\t\tdecomposers = append(decomposers, dict.SlidingWindow{K: k})\n\t}\n'))
r('p-n28',
  ('alg/ensemble/ensemble.go', '\tfor t := uint(16); t <= 128; t *= 2 {\n', '\tfor t := uint(16); t <= 128; t <<= 1 {\n'))
r('p-n29',
  ('alg/dict/dict.go', '\tsum := a.decomp.Decompose(n)\n\tsum.SortByExponent()\n\n\t// Extract dictionary.\n\tdict := sum.Dictionary()\n\n\t// Use the sequence algorithm to produce a chain for each element of the dictionary.\n\tc, err := a.seqalg.FindSequence(dict)\n', '\tsum := a.decomp.Decompose(n)\n\tsum.SortByExponent()\n\n\tc, err := a.seqalg.FindSequence(sum.Dictionary())\n'))
r('p-n30',
  ('alg/dict/dict.go', '\tdc := dictsumchain(sum)\n\tc = append(c, dc...)\n\tbigints.Sort(c)\n\tc = addchain.Chain(bigints.Unique(c))\n\n\treturn c, nil\n}\n\n// dictsumchain', '\treturn finish(c, sum), nil\n}\n\nfunc finish(c addchain.Chain, sum Sum) addchain.Chain {\n\tc = append(c, dictsumchain(sum)...)\n\tbigints.Sort(c)\n\treturn bigints.Unique(c)\n}\n\n// dictsumchain'))
r('p-n31',
  ('alg/dict/dict.go', '\t\tfor h >= 0 && x.Bit(h) == 0 {\n\t\t\th--\n\t\t}\n\n\t\tif h < 0 {\n\t\t\tbreak\n\t\t}\n\n\t\t// Look down', '\t\tif x.Bit(h) == 0 {\n\t\t\th--\n\t\t\tcontinue\n\t\t}\n\n\t\t// Look down'))
r('p-n32',
  ('alg/dict/dict.go', '\t\tfor x.Bit(l) == 0 {\n\t\t\tl++\n\t\t}\n\n\t\tsum = append(sum, Term{\n\t\t\tD: bigint.Extract(x, uint(l), uint(h+1)),\n\t\t\tE: uint(l),\n\t\t})\n', '\t\tfor ; x.Bit(l) != 1; l++ {\n\t\t}\n\n\t\tlo, hi := uint(l), uint(h+1)\n\t\tsum = append(sum, Term{D: bigint.Extract(x, lo, hi), E: lo})\n'))
r('p-n33',
  ('alg/dict/dict.go', '\t\ts := i\n\t\tfor i >= 0 && x.Bit(i) == 1 && (r.T == 0 || uint(s-i) < r.T) {\n\t\t\ti--\n\t\t}\n\n\t\t// We have a run from s to i+1.\n\t\tsum = append(sum, Term{\n\t\t\tD: bigint.Ones(uint(s - i)),\n\t\t\tE: uint(i + 1),\n\t\t})', '\t\tn := uint(0)\n\t\tfor i >= 0 && x.Bit(i) == 1 && (r.T == 0 || n < r.T) {\n\t\t\ti--\n\t\t\tn++\n\t\t}\n\n\t\t// We have a run of n bits.\n\t\tsum = append(sum, Term{\n\t\t\tD: bigint.Ones(n),\n\t\t\tE: uint(i + 1),\n\t\t})'))
r('p-n34',
  ('alg/dict/dict.go', '\t\tn := uint(s - i)\n\t\tif n <= h.K {\n\t\t\tcontinue\n\t\t}\n\n\t\t// Add it to the sum and remove it from the integer.\n\t\tsum = append(sum, Term{\n\t\t\tD: bigint.Ones(n),\n\t\t\tE: uint(i + 1),\n\t\t})\n\n\t\ty.Xor(y, bigint.Mask(uint(i+1), uint(s+1)))\n', '\t\tif n := uint(s - i); n > h.K {\n\t\t\t// Add it to the sum and remove it from the integer.\n\t\t\trun := Term{D: bigint.Ones(n), E: uint(i + 1)}\n\t\t\tsum = append(sum, run)\n\t\t\ty.AndNot(y, bigint.Mask(uint(i+1), uint(s+1)))\n\t\t}\n'))
r('p-n35',
  ('alg/dict/dict.go', '\tw := SlidingWindow{K: h.K}\n\trem := w.Decompose(y)\n\n\tsum = append(sum, rem...)\n\tsum.SortByExponent()\n\n\treturn sum', '\tfor _, t := range (SlidingWindow{K: h.K}).Decompose(y) {\n\t\tsum = append(sum, t)\n\t}\n\tsum.SortByExponent()\n\n\treturn sum'))
r('p-n36',
  ('alg/dict/runs.go', '\tfor _, run := range runs {\n\t\tlength := int64(run.BitLen())\n\t\tlengths = append(lengths, big.NewInt(length))\n\t}', '\tfor i := 0; i < len(runs); i++ {\n\t\tlengths = append(lengths, big.NewInt(int64(runs[i].BitLen())))\n\t}'))
r('p-n37',
  ('alg/dict/runs.go', '\tp, err := lc.Program()\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\tfor _, l := range lc {\n\t\tif !l.IsUint64() {\n\t\t\treturn nil, errors.New("values in lengths chain are far too large")\n\t\t}\n\t}\n', '\tp, err := lc.Program()\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\tif !lengthsok(lc) {\n\t\treturn nil, errors.New("values in lengths chain are far too large")\n\t}\n'),
  ('alg/dict/runs.go', '// RunsChain takes', 'func lengthsok(lc addchain.Chain) bool {\n\tfor _, l := range lc {\n\t\tif !l.IsUint64() {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true\n}\n\n// RunsChain takes'))
r('p-n38',
  ('alg/dict/runs.go', '\t\ta, b := bigint.MinMax(lc[op.I], lc[op.J])\n\t\tla := uint(a.Uint64())\n\t\tlb := uint(b.Uint64())\n', '\t\tla, lb := uint(lc[op.I].Uint64()), uint(lc[op.J].Uint64())\n\t\tif la > lb {\n\t\t\tla, lb = lb, la\n\t\t}\n'))
r('p-n39',
  ('program.go', '\tswitch {\n\tcase i < 0:\n\t\treturn fmt.Errorf("negative index %d", i)\n\tcase i > n:\n\t\treturn fmt.Errorf("index %d out of bounds", i)\n\t}\n\treturn nil', '\tif i < 0 {\n\t\treturn fmt.Errorf("negative index %d", i)\n\t}\n\tif n < i {\n\t\treturn fmt.Errorf("index %d out of bounds", i)\n\t}\n\treturn nil'))
r('p-n40',
  ('program.go', '\tif err := p.boundscheck(i); err != nil {\n\t\treturn 0, err\n\t}\n\tif err := p.boundscheck(j); err != nil {\n\t\treturn 0, err\n\t}\n', '\tfor _, idx := range []int{i, j} {\n\t\tif err := p.boundscheck(idx); err != nil {\n\t\t\treturn 0, err\n\t\t}\n\t}\n'))
r('p-n41',
  ('program.go', '\t\tfor _, i := range op.Operands() {\n\t\t\treads[i]++\n\t\t}', '\t\treads[op.I]++\n\t\tif !op.IsDouble() {\n\t\t\treads[op.J]++\n\t\t}'))
r('p-n42',
  ('program.go', '\tc := New()\n\tfor _, op := range p {\n\t\tsum := new(big.Int).Add(c[op.I], c[op.J])\n\t\tc = append(c, sum)\n\t}', '\tc := make(Chain, 1, len(p)+1)\n\tc[0] = bigint.One()\n\tfor _, op := range p {\n\t\tc = append(c, new(big.Int).Add(c[op.I], c[op.J]))\n\t}'))
r('p-n43',
  ('program.go', '\tdoubles, _ := p.Count()\n\treturn doubles', '\tn := 0\n\tfor _, op := range p {\n\t\tif op.IsDouble() {\n\t\t\tn++\n\t\t}\n\t}\n\treturn n'))
r('p-n44',
  ('program.go', '\tif o.IsDouble() {\n\t\treturn []int{o.I}\n\t}\n\treturn []int{o.I, o.J}', '\toperands := []int{o.I}\n\tif !o.IsDouble() {\n\t\toperands = append(operands, o.J)\n\t}\n\treturn operands'))
r('p-n45',
  ('alg/opt/opt.go', '\t\t\tif len(ops[l]) == 1 {\n\t\t\t\tfor _, i := range ops[l][0].Operands() {\n\t\t\t\t\tcounts[i]++\n\t\t\t\t}\n\t\t\t}\n', '\t\t\tbump(counts, ops[l])\n'),
  ('alg/opt/opt.go', '// pruneuses removes', 'func bump(counts []int, ops []addchain.Op) {\n\tif len(ops) != 1 {\n\t\treturn\n\t}\n\tfor _, i := range ops[0].Operands() {\n\t\tcounts[i]++\n\t}\n}\n\n// pruneuses removes'))
r('p-n46',
  ('alg/opt/opt.go', '\tfor k := 1; k < len(c)-1; k++ {\n\t\tif counts[k] > 0 {\n\t\t\tcontinue\n\t\t}\n', '\tfor k := 1; k < len(c)-1; k++ {\n\t\tneeded := counts[k] != 0\n\t\tif needed {\n\t\t\tcontinue\n\t\t}\n'))
r('p-n47',
  ('alg/opt/opt.go', '\topt, err := Optimize(c)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\treturn opt, nil', '\treturn Optimize(c)'))
r('p-n48',
  ('alg/exec/exec.go', '\t// Wait for completion.\n\tfor i := 0; i < limit; i++ {\n\t\tsem <- token{}\n\t}\n', '\t// Wait for completion.\n\tfor n := limit; n > 0; n-- {\n\t\tsem <- token{}\n\t}\n'))
r('p-n49',
  ('alg/exec/exec.go', '\t\tgo func(i int, a alg.ChainAlgorithm) {\n\t\t\tp.logger.Printf("start: %s", a)\n\t\t\trs[i] = Execute(n, a)\n', '\t\tgo func(r *Result, a alg.ChainAlgorithm) {\n\t\t\tp.logger.Printf("start: %s", a)\n\t\t\t*r = Execute(n, a)\n'),
  ('alg/exec/exec.go', '}(i, a)', '}(&rs[i], a)'))
r('p-n50',
  ('acc/pass/naming.go', '\t\tif x.BitLen() > k {\n\t\t\treturn ""\n\t\t}\n\t\treturn fmt.Sprintf(format, x)', '\t\tname := ""\n\t\tif x.BitLen() <= k {\n\t\t\tname = fmt.Sprintf(format, x)\n\t\t}\n\t\treturn name'))
r('p-n51',
  ('acc/pass/naming.go', '\t\t\tidx := operand.Index\n\t\t\tif idx >= len(p.Chain) {', '\t\t\tidx := operand.Index\n\t\t\tif len(p.Chain) <= idx {'))
r('p-n53',
  ('acc/pass/alloc.go', '\tlastinputread := 0\n\tfor _, inst := range p.Instructions {\n\t\tfor _, input := range inst.Op.Inputs() {\n\t\t\tif input.Index == 0 {\n\t\t\t\tlastinputread = inst.Output.Index\n\t\t\t}\n\t\t}\n\t}\n', '\tlastinputread := 0\n\tfor _, inst := range p.Instructions {\n\t\tif ir.HasInput(inst.Op, 0) {\n\t\t\tlastinputread = inst.Output.Index\n\t\t}\n\t}\n'))
r('p-n54',
  ('acc/pass/alloc.go', '\t\tswitch {\n\t\t// Operand index 0 is the input.\n\t\tcase op.Index == 0:\n\t\t\top.Identifier = a.Input\n', '\t\tif index == 0 {\n\t\t\top.Identifier = a.Input\n\t\t\tcontinue\n\t\t}\n\t\tswitch {\n'))
r('p-l2-bad',
  ('alg/dict/dict.go', '\tcur := bigint.Clone(sum[k].D)\n', '\tcur := bigint.Clone(sum[k].D)\n\tprev := []*big.Int{cur}\n'),
  ('alg/dict/dict.go', '\t\tcur.Add(cur, sum[k-1].D)\n\t\tc.AppendClone(cur)\n', '\t\tcur.Add(cur, sum[k-1].D)\n\t\tprev = append(prev, bigint.Clone(cur))\n\t\tc.AppendClone(prev[len(prev)-1])\n'))
r('p-l2-a',
  ('alg/dict/dict.go', '\t\tcur.Add(cur, sum[k-1].D)\n\t\tc.AppendClone(cur)\n', '\t\tcur.Add(cur, sum[k-1].D)\n\t\ty := bigint.Clone(cur)\n\t\tc.AppendClone(y)\n'))
r('p-l2-b',
  ('alg/dict/dict.go', '\t\tcur.Add(cur, sum[k-1].D)\n\t\tc.AppendClone(cur)\n', '\t\tcur.Add(cur, sum[k-1].D)\n\t\tprev := []*big.Int{bigint.Clone(cur)}\n\t\tc.AppendClone(prev[0])\n'))
r('p-l2-c',
  ('alg/dict/dict.go', '\tcur := bigint.Clone(sum[k].D)\n', '\tcur := bigint.Clone(sum[k].D)\n\tprev := []*big.Int{}\n'),
  ('alg/dict/dict.go', '\t\tcur.Add(cur, sum[k-1].D)\n\t\tc.AppendClone(cur)\n', '\t\tcur.Add(cur, sum[k-1].D)\n\t\tprev = append(prev, bigint.Clone(cur))\n\t\tc.AppendClone(prev[len(prev)-1])\n'))
r('p-o1',
  ('alg/opt/opt.go', '\t\t\tops[l] = pruneuses(ops[l], k)\n', '\t\t\tbefore := len(ops[l])\n\t\t\tops[l] = pruneuses(ops[l], k)\n\t\t\tif len(ops[l]) == before {\n\t\t\t\tcontinue\n\t\t\t}\n'))
r('p-o2',
  ('internal/bigint/bigint.go', '\tif x.Cmp(y) < 0 {\n\t\treturn x, y\n\t}\n\treturn y, x\n', '\tif x.Cmp(y) > 0 {\n\t\treturn y, x\n\t}\n\treturn x, y\n'))
r('p-o3',
  ('alg/dict/dict.go', '\t\ty.Xor(y, bigint.Mask(uint(i+1), uint(s+1)))\n', '\t\ty.AndNot(y, bigint.Mask(uint(i+1), uint(s+1)))\n'))
r('p-o4',
  ('acc/pass/alloc.go', '\tlastinputread := 0\n\tfor _, inst := range p.Instructions {\n\t\tfor _, input := range inst.Op.Inputs() {\n\t\t\tif input.Index == 0 {\n\t\t\t\tlastinputread = inst.Output.Index\n\t\t\t}\n\t\t}\n\t}\n', '\tlastinputread := 0\n\tfor _, inst := range p.Instructions {\n\t\tif readsInput(inst) {\n\t\t\tlastinputread = inst.Output.Index\n\t\t}\n\t}\n'),
  ('acc/pass/alloc.go', 'type allocation struct {', 'func readsInput(inst *ir.Instruction) bool {\n\tfor _, input := range inst.Op.Inputs() {\n\t\tif input.Index == 0 {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}\n\ntype allocation struct {'))
r('p-o5',
  ('acc/pass/alloc.go', '\tlastinputread := 0\n\tfor _, inst := range p.Instructions {\n\t\tfor _, input := range inst.Op.Inputs() {\n\t\t\tif input.Index == 0 {\n\t\t\t\tlastinputread = inst.Output.Index\n\t\t\t}\n\t\t}\n\t}\n', '\tlastinputread := 0\n\tfor i := len(p.Instructions) - 1; i >= 0 && lastinputread == 0; i-- {\n\t\tinst := p.Instructions[i]\n\t\tfor _, input := range inst.Op.Inputs() {\n\t\t\tif input.Index == 0 {\n\t\t\t\tlastinputread = inst.Output.Index\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t}\n'))
r('p-o6',
  ('alg/opt/opt.go', '\tpruned := addchain.Chain{}\n\tfor i, x := range c {\n\t\tif len(remove) > 0 && remove[0] == i {\n\t\t\tremove = remove[1:]\n\t\t\tcontinue\n\t\t}\n\t\tpruned = append(pruned, x)\n\t}\n', '\tdrop := make(map[int]bool, len(remove))\n\tfor _, k := range remove {\n\t\tdrop[k] = true\n\t}\n\tpruned := addchain.Chain{}\n\tfor i, x := range c {\n\t\tif drop[i] {\n\t\t\tcontinue\n\t\t}\n\t\tpruned = append(pruned, x)\n\t}\n'))
r('p-o7',
  ('alg/dict/dict.go', '\t\tn := uint(s - i)\n\t\tif n <= h.K {\n\t\t\tcontinue\n\t\t}\n', '\t\tn := uint(s - i)\n\t\tif n < h.K+1 {\n\t\t\tcontinue\n\t\t}\n'))
r('p-o8',
  ('alg/dict/dict.go', '\t\tl := max(h-int(w.K)+1, 0)\n\n\t\t// Advance to the next 1.\n\t\tfor x.Bit(l) == 0 {\n\t\t\tl++\n\t\t}\n', '\t\tl := lowest(x, max(h-int(w.K)+1, 0))\n'),
  ('alg/dict/dict.go', '// RunLength decomposes integers', 'func lowest(x *big.Int, l int) int {\n\tfor x.Bit(l) != 1 {\n\t\tl++\n\t}\n\treturn l\n}\n\n// RunLength decomposes integers'))
r('p-p3',
  ('alg/opt/opt.go', '\tcounts := make([]int, len(c))\n', '\tcounts := make([]int, len(ops))\n'))
r('p-p4',
  ('alg/opt/opt.go', '\t\tif len(ops[k]) != 1 {\n\t\t\tcontinue\n\t\t}\n\t\tfor _, i := range ops[k][0].Operands() {\n\t\t\tcounts[i]++\n\t\t}\n', '\t\tif len(ops[k]) == 1 {\n\t\t\top := ops[k][0]\n\t\t\tfor _, i := range op.Operands() {\n\t\t\t\tcounts[i] = counts[i] + 1\n\t\t\t}\n\t\t}\n'))
r('p-p5',
  ('alg/opt/opt.go', '\tfor i, x := range c {\n\t\tif len(remove) > 0 && remove[0] == i {\n\t\t\tremove = remove[1:]\n\t\t\tcontinue\n\t\t}\n\t\tpruned = append(pruned, x)\n\t}\n', '\tnext := 0\n\tfor i, x := range c {\n\t\tif next < len(remove) && remove[next] == i {\n\t\t\tnext++\n\t\t\tcontinue\n\t\t}\n\t\tpruned = append(pruned, x)\n\t}\n'))
r('p-p6',
  ('alg/dict/dict.go', '\trem := w.Decompose(y)\n\n\tsum = append(sum, rem...)\n', '\tfor _, t := range w.Decompose(y) {\n\t\tsum = append(sum, t)\n\t}\n'))
r('p-p7',
  ('alg/dict/dict.go', '\t\tif n <= h.K {\n\t\t\tcontinue\n\t\t}\n\n\t\t// Add it to the sum and remove it from the integer.\n\t\tsum = append(sum, Term{\n\t\t\tD: bigint.Ones(n),\n\t\t\tE: uint(i + 1),\n\t\t})\n\n\t\ty.Xor(y, bigint.Mask(uint(i+1), uint(s+1)))\n', '\t\tif n > h.K {\n\t\t\trun := Term{D: bigint.Ones(n), E: uint(i + 1)}\n\t\t\tsum = append(sum, run)\n\t\t\ty.Xor(y, bigint.Mask(run.E, run.E+n))\n\t\t}\n'))
r('p-p10',
  ('acc/pass/alloc.go', '\tname := map[int]string{}\n', '\tname := map[int]string{}\n\tp.Temporaries = p.Temporaries[:len(p.Temporaries):len(p.Temporaries)]\n'))
r('p-p11',
  ('acc/pass/alloc.go', "\t// If there's nothing available, we'll need another variable.\n\tif len(a.available) == 0 {\n\t\ta.available = append(a.available, a.n)\n\t\ta.n++\n\t}\n\n\t// Assign from the available list.\n\tlast := len(a.available) - 1\n\ta.variable[i] = a.available[last]\n\ta.available = a.available[:last]\n", "\t// If there's nothing available, we'll need another variable.\n\tlast := len(a.available) - 1\n\tif last < 0 {\n\t\ta.variable[i] = a.n\n\t\ta.n++\n\t\treturn\n\t}\n\n\t// Assign from the available list.\n\ta.variable[i] = a.available[last]\n\ta.available = a.available[:last]\n"))
r('p-p8b',
  ('acc/pass/alloc.go', '\t\tv := allocation.Variable(op.Index)\n\t\t_, ok := name[v]\n\t\tswitch {\n\t\t// Operand index 0 is the input.\n\t\tcase op.Index == 0:\n\t\t\top.Identifier = a.Input\n', '\t\t// Operand index 0 is the input.\n\t\tif op.Index == 0 {\n\t\t\top.Identifier = a.Input\n\t\t\tcontinue\n\t\t}\n\t\tv := allocation.Variable(op.Index)\n\t\t_, ok := name[v]\n\t\tswitch {\n'))
r('p-p8c',
  ('acc/pass/alloc.go', '\t\tv := allocation.Variable(op.Index)\n\t\t_, ok := name[v]\n\t\tswitch {\n\t\t// Operand index 0 is the input.\n\t\tcase op.Index == 0:\n\t\t\top.Identifier = a.Input\n', '\t\tif index == 0 {\n\t\t\top.Identifier = a.Input\n\t\t\tcontinue\n\t\t}\n\t\tv := allocation.Variable(op.Index)\n\t\t_, ok := name[v]\n\t\tswitch {\n'))
r('p-p13',
  ('alg/opt/opt.go', '\tfor k := 1; k < len(c)-1; k++ {\n\t\tif counts[k] > 0 {', '\tlast := len(c) - 1\n\tfor k := 1; k < last; k++ {\n\t\tif counts[k] > 0 {'))
r('p-p14',
  ('alg/opt/opt.go', '\tfor k := 1; k < len(c)-1; k++ {\n\t\tif counts[k] > 0 {', '\tfor k := 1; k+1 < len(ops); k++ {\n\t\tif counts[k] > 0 {'))
r('p-p15',
  ('alg/opt/opt.go', '\tremove := []int{}\n\tfor k := 1; k < len(c)-1; k++ {\n\t\tif counts[k] > 0 {', '\tremove := []int{}\n\tfor k, used := range counts[:len(c)-1] {\n\t\tif k == 0 || used > 0 || counts[k] > 0 {'))
