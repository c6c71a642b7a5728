# Behaviour-preserving edits, fourth set: written from the source alone, after
# the rules about edits. Comments and blank lines are removed first.
STRIP=True
R=[]
def r(i,*es): R.append((i,list(es)))
C='chain.go'; P='program.go'; T='acc/translate.go'; B='acc/build.go'; D='alg/dict/dict.go'; RU='alg/dict/runs.go'; O='alg/opt/opt.go'
H='alg/heuristic/heuristic.go'; F='alg/contfrac/contfrac.go'; E='alg/exec/exec.go'; BI='internal/bigint/bigint.go'; BS='internal/bigints/bigints.go'
K='internal/calc/calc.go'; M='internal/metavars/metavars.go'; PR='acc/printer/printer.go'; S='cmd/addchain/search.go'; G='internal/gen/gen.go'
AL='acc/pass/alloc.go'; NA='acc/pass/naming.go'; VA='acc/pass/validation.go'; PA='acc/pass/pass.go'; EV='acc/pass/eval.go'; IN='acc/eval/interp.go'; IR='acc/ir/ir.go'; DE='acc/decompile.go'; EN='alg/ensemble/ensemble.go'

r('d-ops-split',(C,'''	if c[:k].IsAscending() {
		for l, r := 0, k-1; l <= r; {
			s.Add(c[l], c[r])
			cmp := s.Cmp(c[k])
			if cmp == 0 {
				ops = append(ops, Op{l, r})
			}
			if cmp <= 0 {
				l++
			} else {
				r--
			}
		}
		return ops
	}
''','''	if c[:k].IsAscending() {
		return c.ascendingops(k)
	}
'''),(C,'''func (c Chain) Op(k int)''','''func (c Chain) ascendingops(k int) []Op {
	ops := []Op{}
	s := new(big.Int)
	target := c[k]
	l, r := 0, k-1
	for l <= r {
		s.Add(c[l], c[r])
		switch cmp := s.Cmp(target); {
		case cmp == 0:
			ops = append(ops, Op{l, r})
			l++
		case cmp < 0:
			l++
		default:
			r--
		}
	}
	return ops
}
func (c Chain) Op(k int)'''))
r('d-ops-fresh',(C,'''			s.Add(c[i], c[j])
			if s.Cmp(c[k]) == 0 {''','''			sum := new(big.Int).Add(c[i], c[j])
			if sum.Cmp(c[k]) == 0 {'''))
r('d-program-check',(C,'''	if c[0].Cmp(big.NewInt(1)) != 0 {
		return nil, errors.New("chain must start with 1")
	}
	if bigints.Contains''','''	first := c[0]
	if startsok := bigint.EqualInt64(first, 1); !startsok {
		return nil, errors.New("chain must start with 1")
	}
	if bigints.Contains'''))
r('d-program-dup',(C,'''	for i := 0; i < len(c); i++ {
		for j := i + 1; j < len(c); j++ {
			if bigint.Equal(c[i], c[j]) {
				return nil, fmt''','''	for i, x := range c {
		for j := i + 1; j < len(c); j++ {
			if y := c[j]; x.Cmp(y) == 0 {
				return nil, fmt'''))
r('d-program-loop',(C,'''	for k := 1; k < len(c); k++ {
		op, err := c.Op(k)
		if err != nil {
			return nil, err
		}
		p = append(p, op)
	}
	return p, nil''','''	for k := range c[1:] {
		op, err := c.Op(k + 1)
		if err != nil {
			return nil, err
		}
		p = append(p, op)
	}
	return p, nil'''))
r('d-produces-named',(C,'''	if c.End().Cmp(target) != 0 {
		return errors.New("chain does not end with target")
	}
	return nil''','''	var err error
	if end := c.End(); !bigint.Equal(end, target) {
		err = errors.New("chain does not end with target")
	}
	return err'''))
r('d-asc-neg',(C,'''	for i := 1; i < len(c); i++ {
		if c[i-1].Cmp(c[i]) >= 0 {
			return false
		}
	}
	return true''','''	prev := c[0]
	for _, x := range c[1:] {
		if !(prev.Cmp(x) < 0) {
			return false
		}
		prev = x
	}
	return true'''))
r('d-product-alias',(C,'''	c := a.Clone()
	last := c.End()
	for _, x := range b[1:] {
		y := new(big.Int).Mul(last, x)
		c = append(c, y)
	}
	return c''','''	c := a.Clone()
	last := a.End()
	for i := 1; i < len(b); i++ {
		c = append(c, new(big.Int).Mul(b[i], last))
	}
	return c'''))
r('d-add-loop',(P,'''	if err := p.boundscheck(i); err != nil {
		return 0, err
	}
	if err := p.boundscheck(j); err != nil {
		return 0, err
	}
	*p = append''','''	err := p.boundscheck(i)
	if err == nil {
		err = p.boundscheck(j)
	}
	if err != nil {
		return 0, err
	}
	*p = append'''))
r('d-shift-range',(P,'''	for ; s > 0; s-- {
		next, err := p.Double(i)
		if err != nil {
			return 0, err
		}
		i = next
	}
	return i, nil''','''	var err error
	for n := uint(0); n < s; n++ {
		if i, err = p.Double(i); err != nil {
			return 0, err
		}
	}
	return i, nil'''))
r('d-count',(P,'''	for _, op := range p {
		if op.IsDouble() {
			doubles++
		} else {
			adds++
		}
	}
	return
''','''	for _, op := range p {
		if op.IsDouble() {
			doubles++
		}
	}
	return doubles, len(p) - doubles
'''))
r('d-reads',(P,'''	for _, op := range p {
		for _, i := range op.Operands() {
			reads[i]++
		}
	}
	return reads''','''	for _, op := range p {
		reads[op.I]++
		if op.J != op.I {
			reads[op.J]++
		}
	}
	return reads'''))
r('d-deps',(P,'''		bitset := new(big.Int).Or(bitsets[op.I], bitsets[op.J])
		bitset.SetBit(bitset, i+1, 1)
		bitsets = append(bitsets, bitset)''','''		l, r := bitsets[op.I], bitsets[op.J]
		used := new(big.Int)
		used.Or(l, r)
		bitsets = append(bitsets, used.SetBit(used, i+1, 1))'''))
r('d-tr-add',(T,'''	if x.Index > y.Index {
		x, y = y, x
	}
	out := ir.Index(s.n)
	inst := &ir.Instruction{
		Output: out,
		Op:     ir.Add{X: x, Y: y},
	}
	s.prog.AddInstruction(inst)
	s.n++
	return out, nil''','''	op := ir.Add{X: x, Y: y}
	if op.X.Index > op.Y.Index {
		op.X, op.Y = op.Y, op.X
	}
	out := ir.Index(s.n)
	s.n++
	s.prog.AddInstruction(&ir.Instruction{Output: out, Op: op})
	return out, nil'''))
r('d-tr-operands',(T,'''	x, err := s.expr(a.X)
	if err != nil {
		return nil, err
	}
	y, err := s.expr(a.Y)
	if err != nil {
		return nil, err
	}
''','''	var xs [2]*ir.Operand
	for i, e := range []ast.Expr{a.X, a.Y} {
		x, err := s.expr(e)
		if err != nil {
			return nil, err
		}
		xs[i] = x
	}
	x, y := xs[0], xs[1]
'''))
r('d-tr-define',(T,'''	if err := s.define(stmt.Name, out); err != nil {
		return err
	}
	return nil''','''	return s.define(stmt.Name, out)'''))
r('d-tr-shift',(T,'''	s.n += int(sh.S)
	out := ir.Index(s.n - 1)
''','''	last := s.n + int(sh.S) - 1
	s.n = last + 1
	out := ir.Index(last)
'''))
r('d-dec-switch',(DE,'''		if !op.IsDouble() {''','''		if double := op.I == op.J; !double {'''))
r('d-dec-next',(DE,'''		for ; j < len(p) && numreads[j] == 1 && p[j].I == j && p[j].J == j; j++ {
		}
''','''		for j < len(p) {
			if numreads[j] != 1 || p[j].I != j || p[j].J != j {
				break
			}
			j++
		}
'''))
r('d-build-flag',(B,'''		if anon && usedonce && usednext && complexity < complexitylimit {
			continue
		}
		b.commit(inst.Output)
		complexity = 0
''','''		if !anon || !usedonce || !usednext || complexity >= complexitylimit {
			b.commit(out)
			complexity = 0
		}
'''))
r('d-build-empty',(B,'''	if n == 0 {
		b.chain.Statements = append(b.chain.Statements, ast.Statement{
			Expr: b.operand(ir.One),
		})
		return nil
	}
''','''	if n == 0 {
		stmt := ast.Statement{Expr: b.operand(ir.One)}
		b.chain.Statements = append(b.chain.Statements, stmt)
		return nil
	}
'''))
r('d-build-add',(B,'''	switch {
	case ast.IsOp(x) && ast.IsOp(y):
		return nil, errutil.AssertionFailure("only one of x and y should be an operator expression")
	case ast.IsOp(y):
		x, y = y, x
	case ast.IsOp(x):
	}
	return''','''	if ast.IsOp(y) {
		if ast.IsOp(x) {
			return nil, errutil.AssertionFailure("only one of x and y should be an operator expression")
		}
		x, y = y, x
	}
	return'''))
r('d-fixed',(D,'''	h := x.BitLen()
	for h > 0 {
		l := max(h-int(w.K), 0)
		d := bigint.Extract(x, uint(l), uint(h))
		if bigint.IsNonZero(d) {
			sum = append(sum, Term{D: d, E: uint(l)})
		}
		h = l
	}
''','''	k := int(w.K)
	for h, l := x.BitLen(), 0; h > 0; h = l {
		l = max(h-k, 0)
		d := bigint.Extract(x, uint(l), uint(h))
		if bigint.IsZero(d) {
			continue
		}
		sum = append(sum, Term{D: d, E: uint(l)})
	}
'''))
r('d-sliding-trailing',(D,'''		for x.Bit(l) == 0 {
			l++
		}
		sum = append(sum, Term{
			D: bigint.Extract(x, uint(l), uint(h+1)),
			E: uint(l),
		})
		h = l - 1''','''		for ; x.Bit(l) != 1; l++ {
		}
		t := Term{E: uint(l)}
		t.D = bigint.Extract(x, t.E, uint(h)+1)
		sum = append(sum, t)
		h = l - 1'''))
r('d-hybrid-order',(D,'''	w := SlidingWindow{K: h.K}
	rem := w.Decompose(y)
	sum = append(sum, rem...)
	sum.SortByExponent()''','''	for _, t := range (SlidingWindow{K: h.K}).Decompose(y) {
		sum = append(sum, t)
	}
	sum.SortByExponent()'''))
r('d-sum-int',(D,'''	x := bigint.Zero()
	for _, t := range s {
		x.Add(x, t.Int())
	}
	return x''','''	total := new(big.Int)
	for i := range s {
		total = total.Add(total, s[i].Int())
	}
	return total'''))
r('d-findchain-merge',(D,'''	dc := dictsumchain(sum)
	c = append(c, dc...)
	bigints.Sort(c)
	c = addchain.Chain(bigints.Unique(c))
	return c, nil
}
func dictsumchain''','''	return finish(c, sum), nil
}
func finish(c addchain.Chain, sum Sum) addchain.Chain {
	c = append(c, dictsumchain(sum)...)
	bigints.Sort(c)
	return addchain.Chain(bigints.Unique(c))
}
func dictsumchain'''))
r('d-dictsum',(D,'''		for i := sum[k].E; i > sum[k-1].E; i-- {
			cur.Lsh(cur, 1)
			c.AppendClone(cur)
		}
		cur.Add(cur, sum[k-1].D)
		c.AppendClone(cur)''','''		next := sum[k-1]
		for i := sum[k].E; i > next.E; i-- {
			cur.Add(cur, cur)
			c.AppendClone(cur)
		}
		cur.Add(cur, next.D)
		c.AppendClone(cur)'''))
r('d-prim-out',(D,'''		for _, e := range bigint.BitsSet(v.Idx(i)) {
			out = append(out, Term{
				D: c[i],
				E: uint(e),
			})
		}''','''		bits := bigint.BitsSet(v.Idx(i))
		for j := range bits {
			out = append(out, Term{D: c[i], E: uint(bits[j])})
		}'''))
r('d-prim-reads',(D,'''	for i, numreads := range reads {
		if numreads < 2 {
			continue
		}
		primitive[i] = true
		for _, j''','''	for i := range reads {
		if reads[i] <= 1 {
			continue
		}
		primitive[i] = true
		for _, j'''))
r('d-runs-loop',(RU,'''		for ; s[lb] < la; s[lb]++ {
			shift := new(big.Int).Lsh(rb, s[lb]+1)
			c = append(c, shift)
		}
''','''		for s[lb] < la {
			s[lb]++
			c = append(c, new(big.Int).Lsh(rb, s[lb]))
		}
'''))
r('d-runs-lengths',(RU,'''		length := int64(run.BitLen())
		lengths = append(lengths, big.NewInt(length))''','''		n := run.BitLen()
		lengths = append(lengths, big.NewInt(int64(n)))'''))
r('d-opt-counts',(O,'''		if len(ops[k]) != 1 {
			continue
		}
		for _, i := range ops[k][0].Operands() {
			counts[i]++
		}
	}
	remove''','''		if len(ops[k]) == 1 {
			only := ops[k][0]
			for _, i := range only.Operands() {
				counts[i]++
			}
		}
	}
	remove'''))
r('d-opt-prune',(O,'''	for i, x := range c {
		if len(remove) > 0 && remove[0] == i {
			remove = remove[1:]
			continue
		}
		pruned = append(pruned, x)
	}''','''	for i, x := range c {
		if len(remove) == 0 || remove[0] != i {
			pruned = append(pruned, x)
		} else {
			remove = remove[1:]
		}
	}'''))
r('d-heur-step',(H,'''		top := len(proto) - 1
		target := proto[top]
		proto = proto[:top]
		c = bigints.InsertSortedUnique(c, target)
		insert := h.heuristic.Suggest(proto, target)
		if insert == nil {
			return nil, errors.New("failed to find sequence")
		}
		proto = bigints.MergeUnique(proto, insert)''','''		n := len(proto)
		target, rest := proto[n-1], proto[:n-1]
		insert := h.heuristic.Suggest(rest, target)
		if insert == nil {
			return nil, errors.New("failed to find sequence")
		}
		c = bigints.InsertSortedUnique(c, target)
		proto = bigints.MergeUnique(rest, insert)'''))
r('d-approx-min',(H,'''		if first || delta.Cmp(mindelta) < 0 {
			mindelta.Set(delta)
			best.Set(insert)
			first = false
		}
		l++''','''		better := first
		if !better {
			better = delta.Cmp(mindelta) < 0
		}
		if better {
			first = false
			best.Set(insert)
			mindelta.Set(delta)
		}
		l++'''))
r('d-approx-delta',(H,'''		delta.Add(a, b)
		delta.Sub(target, delta)
		if delta.Sign() < 0 {
			r--
			continue
		}
''','''		sum := new(big.Int).Add(a, b)
		if sum.Cmp(target) > 0 {
			r--
			continue
		}
		delta.Sub(target, sum)
'''))
r('d-halving-half',(H,'''	if r.BitLen() < 2 {
		return nil
	}
	u := r.BitLen() - 1
''','''	bits := r.BitLen()
	if bits <= 1 {
		return nil
	}
	u := bits - 1
'''))
r('d-halving-zero',(H,'''	if bigint.IsZero(d) {
		return kshifts[:u]
	}
	return bigints.InsertSortedUnique(kshifts, d)''','''	if d.Sign() != 0 {
		return bigints.InsertSortedUnique(kshifts, d)
	}
	return kshifts[:u]'''))
r('d-cf-min',(F,'''		c := a.chain([]*big.Int{k, n})
		if min == nil || len(c) < len(min) {
			min = c
		}
	}
	return min''','''		pair := []*big.Int{k, n}
		if c := a.chain(pair); min == nil || len(min) > len(c) {
			min = c
		}
	}
	return min'''))
r('d-cf-chain',(F,'''	q, r := new(big.Int), new(big.Int)
	q.DivMod(ns[k-1], ns[k-2], r)
	cq := a.minchain(q)
	remaining''','''	top, next := ns[k-1], ns[k-2]
	r := new(big.Int)
	q, _ := new(big.Int).DivMod(top, next, r)
	cq := a.minchain(q)
	remaining'''))
r('d-cf-fermat',(F,'''	for k.Cmp(one) > 0 {
		ks = append(ks, bigint.Clone(k))
		k.Rsh(k, s)
		s *= 2
	}''','''	for ; k.Cmp(one) > 0; s <<= 1 {
		ks = append(ks, bigint.Clone(k))
		k.Rsh(k, s)
	}'''))
r('d-exec-split',(E,'''	r.Program, r.Err = r.Chain.Program()
	if r.Err != nil {
		return r
	}
	if !bigint.Equal(r.Chain.End(), n) {
		r.Err = errors.New("did not produce the required value")
	}
	return r''','''	p, err := r.Chain.Program()
	r.Program = p
	switch {
	case err != nil:
		r.Err = err
	case r.Chain.End().Cmp(n) != 0:
		r.Err = errors.New("did not produce the required value")
	}
	return r'''))
r('d-par-results',(E,'''	for i, a := range as {
		sem <- token{}
		go func(i int, a alg.ChainAlgorithm) {
			p.logger.Printf("start: %s", a)
			rs[i] = Execute(n, a)
			p.logger.Printf("done: %s", a)
			<-sem
		}(i, a)
	}
	for i := 0; i < limit; i++ {
		sem <- token{}
	}
	return rs''','''	for i := range as {
		sem <- token{}
		go func(i int) {
			defer func() { <-sem }()
			p.logger.Printf("start: %s", as[i])
			rs[i] = Execute(n, as[i])
			p.logger.Printf("done: %s", as[i])
		}(i)
	}
	for i := 0; i < cap(sem); i++ {
		sem <- token{}
	}
	return rs'''))
r('d-par-chan',(E,'''	sem := make(chan token, limit)
	for i, a := range as {
		sem <- token{}
		go func(i int, a alg.ChainAlgorithm) {
			p.logger.Printf("start: %s", a)
			rs[i] = Execute(n, a)
			p.logger.Printf("done: %s", a)
			<-sem
		}(i, a)
	}
	for i := 0; i < limit; i++ {
		sem <- token{}
	}
	return rs''','''	sem := make(chan token, limit)
	done := make(chan token)
	for i, a := range as {
		sem <- token{}
		go func(i int, a alg.ChainAlgorithm) {
			p.logger.Printf("start: %s", a)
			rs[i] = Execute(n, a)
			p.logger.Printf("done: %s", a)
			<-sem
			done <- token{}
		}(i, a)
	}
	for range as {
		<-done
	}
	return rs'''))
r('d-bi-bits',(BI,'''	for i := 0; i < x.BitLen(); i++ {
		if x.Bit(i) == 1 {
			set = append(set, i)
		}
	}
	return set''','''	for i, n := 0, x.BitLen(); i < n; i++ {
		if x.Bit(i) == 0 {
			continue
		}
		set = append(set, i)
	}
	return set'''))
r('d-bi-extract',(BI,'''	e := Mask(l, h)
	e.And(e, x)
	return e.Rsh(e, l)''','''	e := new(big.Int).And(Mask(l, h), x)
	return e.Rsh(e, l)'''))
r('d-bi-minmax',(BI,'''	if x.Cmp(y) < 0 {
		return x, y
	}
	return y, x''','''	min, max = y, x
	if x.Cmp(y) < 0 {
		min, max = x, y
	}
	return min, max'''))
r('d-bs-unique',(BS,'''	for _, x := range xs[1:] {
		last := u[len(u)-1]
		if !bigint.Equal(x, last) {
			u = append(u, x)
		}
	}
	return u''','''	for i := 1; i < len(xs); i++ {
		if bigint.Equal(xs[i], u[len(u)-1]) {
			continue
		}
		u = append(u, xs[i])
	}
	return u'''))
r('d-bs-merge',(BS,'''		switch xs[0].Cmp(ys[0]) {
		case -1:
			r = append(r, xs[0])
			xs = xs[1:]
		case 0:
			r = append(r, xs[0])
			xs = xs[1:]
			ys = ys[1:]
		case 1:
			r = append(r, ys[0])
			ys = ys[1:]
		}
''','''		x, y := xs[0], ys[0]
		cmp := x.Cmp(y)
		if cmp > 0 {
			r = append(r, y)
		} else {
			r = append(r, x)
			xs = xs[1:]
		}
		if cmp >= 0 {
			ys = ys[1:]
		}
'''))
r('d-calc-op',(K,'''		if top.precedence < op.precedence || (top.precedence == op.precedence && op.associativity != leftassociative) {
			break
		}
''','''		if top.precedence < op.precedence {
			break
		}
		if top.precedence == op.precedence && op.associativity == rightassociative {
			break
		}
'''))
r('d-calc-eval',(K,'''		op, ok := operators[b[0]]
		if !ok {
			return nil, errors.New("expected operator")
		}
		if err := y.operator(op); err != nil {
			return nil, err
		}
		b = b[1:]
		operand = true
''','''		op, ok := operators[b[0]]
		b = b[1:]
		operand = true
		if !ok {
			return nil, errors.New("expected operator")
		}
		if err := y.operator(op); err != nil {
			return nil, err
		}
'''))
r('d-calc-num',(K,'''	isdigit := isdecimal
	switch {
	case bytes.HasPrefix(b[i:], []byte("0b")):
		isdigit = isbinary
		i += 2
	case bytes.HasPrefix(b[i:], []byte("0x")):
		isdigit = ishex
		i += 2
	}
''','''	isdigit := isdecimal
	if bytes.HasPrefix(b[i:], []byte("0b")) {
		isdigit = isbinary
	} else if bytes.HasPrefix(b[i:], []byte("0x")) {
		isdigit = ishex
	}
	if bytes.HasPrefix(b[i:], []byte("0b")) || bytes.HasPrefix(b[i:], []byte("0x")) {
		i += 2
	}
'''))
r('d-mv-get',(M,'''	for i := range f.Properties {
		p := &f.Properties[i]
		if p.Name == name {
			return p
		}
	}
	return nil''','''	for i := 0; i < len(f.Properties); i++ {
		if f.Properties[i].Name == name {
			return &f.Properties[i]
		}
	}
	return nil'''))
r('d-mv-doc',(M,'''		comment := v.Doc.List[0]
		if !strings.HasPrefix(comment.Text, leader) {
			b.seterrorf("expected documentation to have %q leader", leader)
			return
		}
		p.Doc = strings.TrimPrefix(comment.Text, leader)''','''		text := v.Doc.List[0].Text
		if !strings.HasPrefix(text, leader) {
			b.seterrorf("expected documentation to have %q leader", leader)
			return
		}
		p.Doc = text[len(leader):]'''))
r('d-pr-paren',(PR,'''	if e.Precedence() < prec {
		p.Printf("(")
		p.expr(e, ast.LowestPrec)
		p.Printf(")")
		return
	}
''','''	if parens := prec > e.Precedence(); parens {
		p.Printf("(")
		defer p.Printf(")")
		p.expr(e, ast.LowestPrec)
		return
	}
'''))
r('d-search-min',(S,'''		if cost < mincost {
			best = i
			mincost = cost
		}
''','''		if mincost > cost {
			best, mincost = i, cost
		}
'''))
r('d-gen-prep',(G,'''	if err := pass.Exec(p, pass.Validate, cfg.Allocator, pass.Func(pass.Eval)); err != nil {
		return nil, err
	}
''','''	for _, step := range []pass.Interface{pass.Validate, cfg.Allocator, pass.Func(pass.Eval)} {
		if err := step.Execute(p); err != nil {
			return nil, err
		}
	}
'''))
r('d-al-last',(AL,'''	lastinputread := 0
	for _, inst := range p.Instructions {
		for _, input := range inst.Op.Inputs() {
			if input.Index == 0 {
				lastinputread = inst.Output.Index
			}
		}
	}
''','''	lastinputread := lastread(p, 0)
'''),(AL,'''type allocation struct {''','''func lastread(p *ir.Program, idx int) int {
	last := 0
	for _, inst := range p.Instructions {
		if ir.HasInput(inst.Op, idx) {
			last = inst.Output.Index
		}
	}
	return last
}
type allocation struct {'''))
r('d-al-pop',(AL,'''	if len(a.available) == 0 {
		a.available = append(a.available, a.n)
		a.n++
	}
	last := len(a.available) - 1
	a.variable[i] = a.available[last]
	a.available = a.available[:last]''','''	if len(a.available) == 0 {
		a.variable[i] = a.n
		a.n++
		return
	}
	last := len(a.available) - 1
	a.variable[i] = a.available[last]
	a.available = a.available[:last]'''))
r('d-al-names',(AL,'''		_, ok := name[v]
		switch {
		case op.Index == 0:
			op.Identifier = a.Input
		case v == outv && op.Index >= lastinputread:
			op.Identifier = a.Output
		case !ok:
			name[v] = fmt.Sprintf(a.Format, len(p.Temporaries))
			p.Temporaries = append(p.Temporaries, name[v])
			fallthrough
		default:
			op.Identifier = name[v]
		}''','''		if op.Index == 0 {
			op.Identifier = a.Input
			continue
		}
		if v == outv && op.Index >= lastinputread {
			op.Identifier = a.Output
			continue
		}
		if _, ok := name[v]; !ok {
			name[v] = fmt.Sprintf(a.Format, len(p.Temporaries))
			p.Temporaries = append(p.Temporaries, name[v])
		}
		op.Identifier = name[v]'''))
r('d-na-ops',(NA,'''			idx := operand.Index
			if idx >= len(p.Chain) {
				return errutil.AssertionFailure("operand index %d out of bounds", idx)
			}
			x := p.Chain[idx]
			operand.Identifier = name(idx, x)''','''			if operand.Index >= len(p.Chain) {
				return errutil.AssertionFailure("operand index %d out of bounds", operand.Index)
			}
			operand.Identifier = name(operand.Index, p.Chain[operand.Index])'''))
r('d-va-known',(VA,'''	for _, i := range p.Instructions {
		for _, input := range i.Op.Inputs() {
			if !outputset[input.Index] {''','''	for _, i := range p.Instructions {
		for _, input := range i.Op.Inputs() {
			if _, known := outputset[input.Index]; !known {'''))
r('d-pa-canon',(PA,'''			if !found {
				p.Operands[operand.Index] = operand
				continue
			}
			if existing == operand {
				continue
			}
''','''			switch {
			case !found:
				p.Operands[operand.Index] = operand
				continue
			case existing == operand:
				continue
			}
'''))
r('d-pa-reads',(PA,'''	p.ReadCount = map[int]int{}
	for _, i := range p.Instructions {
		for _, input := range i.Op.Inputs() {
			p.ReadCount[input.Index]++
		}
	}
	return nil''','''	counts := make(map[int]int, len(p.Instructions))
	for _, i := range p.Instructions {
		for _, input := range i.Op.Inputs() {
			counts[input.Index]++
		}
	}
	p.ReadCount = counts
	return nil'''))
r('d-pa-sort',(PA,'''	for index := range p.Operands {
		p.Indexes = append(p.Indexes, index)
	}
	sort.Ints(p.Indexes)
	return nil''','''	indexes := make([]int, 0, len(p.Operands))
	for index := range p.Operands {
		indexes = append(indexes, index)
	}
	sort.Ints(indexes)
	p.Indexes = indexes
	return nil'''))
r('d-ev-helper',(EV,'''	for _, i := range p.Instructions {
		var out int
		var err error
		switch op := i.Op.(type) {
		case ir.Add:
			out, err = p.Program.Add(op.X.Index, op.Y.Index)
		case ir.Double:
			out, err = p.Program.Double(op.X.Index)
		case ir.Shift:
			out, err = p.Program.Shift(op.X.Index, op.S)
		default:
			return errutil.UnexpectedType(op)
		}
		if err != nil {
			return err
		}
''','''	for _, i := range p.Instructions {
		out, err := compile(&p.Program, i.Op)
		if err != nil {
			return err
		}
'''),(EV,'''func Eval(''','''func compile(p *addchain.Program, op ir.Op) (int, error) {
	switch op := op.(type) {
	case ir.Add:
		return p.Add(op.X.Index, op.Y.Index)
	case ir.Double:
		return p.Double(op.X.Index)
	case ir.Shift:
		return p.Shift(op.X.Index, op.S)
	default:
		return 0, errutil.UnexpectedType(op)
	}
}
func Eval('''))
r('d-in-add',(IN,'''		x, err := i.operands(op.X, op.Y)
		if err != nil {
			return err
		}
		output.Add(x[0], x[1])''','''		x, err := i.operand(op.X)
		if err != nil {
			return err
		}
		y, err := i.operand(op.Y)
		if err != nil {
			return err
		}
		output.Add(x, y)'''),(IN,'''func (i *Interpreter) operands(operands ...*ir.Operand) ([]*big.Int, error) {
	xs := make([]*big.Int, 0, len(operands))
	for _, operand := range operands {
		x, err := i.operand(operand)
		if err != nil {
			return nil, err
		}
		xs = append(xs, x)
	}
	return xs, nil
}
''',''))
r('d-ir-out',(IR,'''	last := len(p.Instructions) - 1
	return p.Instructions[last].Output''','''	insts := p.Instructions
	return insts[len(insts)-1].Output'''))
r('d-ir-clone',(IR,'''	c := &Program{}
	for _, inst := range p.Instructions {
		c.Instructions = append(c.Instructions, inst.Clone())
	}
	return c''','''	c := new(Program)
	for i := range p.Instructions {
		c.AddInstruction(p.Instructions[i].Clone())
	}
	return c'''))
r('d-en-wrap',(EN,'''	for i, a := range as {
		as[i] = opt.Algorithm{Algorithm: a}
	}
	return as''','''	optimized := make([]alg.ChainAlgorithm, len(as))
	for i, a := range as {
		optimized[i] = opt.Algorithm{Algorithm: a}
	}
	return optimized'''))
r('d-en-rl',(EN,'''	decomposers = append(decomposers, dict.RunLength{T: 0})
	for t''','''	unlimited := dict.RunLength{}
	decomposers = append(decomposers, unlimited)
	for t'''))
