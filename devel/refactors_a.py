R=[]
def r(id,*edits): R.append((id,list(edits)))

# ---- chain.go ----
r('ops-helper',('chain.go','''	// Fallback to quadratic.
	for i := 0; i < k; i++ {
		for j := i; j < k; j++ {
			s.Add(c[i], c[j])
			if s.Cmp(c[k]) == 0 {
				ops = append(ops, Op{i, j})
			}
		}
	}

	return ops
}
''','''	// Fallback to quadratic.
	return c.quadraticOps(k)
}

// quadraticOps searches all pairs of earlier elements.
func (c Chain) quadraticOps(k int) []Op {
	ops := []Op{}
	s := new(big.Int)
	for i := 0; i < k; i++ {
		for j := i; j < k; j++ {
			s.Add(c[i], c[j])
			if s.Cmp(c[k]) == 0 {
				ops = append(ops, Op{i, j})
			}
		}
	}
	return ops
}
'''))
r('ops-switch',('chain.go','''			cmp := s.Cmp(c[k])
			if cmp == 0 {
				ops = append(ops, Op{l, r})
			}
			if cmp <= 0 {
				l++
			} else {
				r--
			}
''','''			switch cmp := s.Cmp(c[k]); {
			case cmp == 0:
				ops = append(ops, Op{l, r})
				l++
			case cmp < 0:
				l++
			default:
				r--
			}
'''))
r('ops-forloop',('chain.go','''		for l, r := 0, k-1; l <= r; {
			s.Add''','''		l, r := 0, k-1
		for l <= r {
			s.Add'''))
r('ops-target',('chain.go','''	ops := []Op{}
	s := new(big.Int)

	// If''','''	var (
		ops    = []Op{}
		s      = new(big.Int)
		target = c[k]
	)

	// If'''),('chain.go','''			cmp := s.Cmp(c[k])''','''			cmp := s.Cmp(target)'''),('chain.go','''			if s.Cmp(c[k]) == 0 {''','''			if s.Cmp(target) == 0 {'''))
r('op-first',('chain.go','''	ops := c.Ops(k)
	if len(ops) == 0 {
		return Op{}, fmt.Errorf("position %d is not the sum of previous entries", k)
	}
	return ops[0], nil''','''	if ops := c.Ops(k); len(ops) > 0 {
		return ops[0], nil
	}
	return Op{}, fmt.Errorf("position %d is not the sum of previous entries", k)'''))
r('program-dup-helper',('chain.go','''	for i := 0; i < len(c); i++ {
		for j := i + 1; j < len(c); j++ {
			if bigint.Equal(c[i], c[j]) {
				return nil, fmt.Errorf("chain contains duplicate: %v at positions %d and %d", c[i], i, j)
			}
		}
	}

	// Produce the program.
	p := Program{}
	for k := 1; k < len(c); k++ {
		op, err := c.Op(k)
		if err != nil {
			return nil, err
		}
		p = append(p, op)
	}

	return p, nil
}
''','''	if err := c.checkDistinct(); err != nil {
		return nil, err
	}

	// Produce the program.
	p := Program{}
	for k := 1; k < len(c); k++ {
		op, err := c.Op(k)
		if err != nil {
			return nil, err
		}
		p = append(p, op)
	}

	return p, nil
}

func (c Chain) checkDistinct() error {
	for i := 0; i < len(c); i++ {
		for j := i + 1; j < len(c); j++ {
			if bigint.Equal(c[i], c[j]) {
				return fmt.Errorf("chain contains duplicate: %v at positions %d and %d", c[i], i, j)
			}
		}
	}
	return nil
}
'''))
r('program-duprange',('chain.go','''	for i := 0; i < len(c); i++ {
		for j := i + 1; j < len(c); j++ {
			if bigint.Equal(c[i], c[j]) {
				return nil, fmt.Errorf("chain contains duplicate: %v at positions %d and %d", c[i], i, j)''','''	for i, x := range c {
		for j := i + 1; j < len(c); j++ {
			if bigint.Equal(x, c[j]) {
				return nil, fmt.Errorf("chain contains duplicate: %v at positions %d and %d", x, i, j)'''))
r('program-one',('chain.go','''	if c[0].Cmp(big.NewInt(1)) != 0 {''','''	if !bigint.EqualInt64(c[0], 1) {'''))
r('program-prealloc',('chain.go','''	p := Program{}
	for k := 1; k < len(c); k++ {
		op, err''','''	p := make(Program, 0, len(c)-1)
	for k := 1; k < len(c); k++ {
		op, err'''))
r('program-reorder',('chain.go','''	if c[0].Cmp(big.NewInt(1)) != 0 {
		return nil, errors.New("chain must start with 1")
	}

	if bigints.Contains(bigint.Zero(), c) {
		return nil, errors.New("chain contains zero")
	}
''','''	if one := bigint.One(); !bigint.Equal(one, c[0]) {
		return nil, errors.New("chain must start with 1")
	}

	for _, x := range c {
		if bigint.IsZero(x) {
			return nil, errors.New("chain contains zero")
		}
	}
'''))
r('validate-if',('chain.go','''	_, err := c.Program()
	return err
''','''	if _, err := c.Program(); err != nil {
		return err
	}
	return nil
'''))
r('produces-switch',('chain.go','''	if c.End().Cmp(target) != 0 {
		return errors.New("chain does not end with target")
	}
	return nil''','''	if bigint.Equal(c.End(), target) {
		return nil
	}
	return errors.New("chain does not end with target")'''))
r('superset-index',('chain.go','''	for _, target := range targets {
		if !bigints.Contains(target, c) {
			return fmt.Errorf("chain does not contain %v", target)
		}
	}
	return nil''','''	for i := 0; i < len(targets); i++ {
		if bigints.Index(targets[i], c) < 0 {
			return fmt.Errorf("chain does not contain %v", targets[i])
		}
	}
	return nil'''))
r('ascending-prev',('chain.go','''	for i := 1; i < len(c); i++ {
		if c[i-1].Cmp(c[i]) >= 0 {
			return false
		}
	}
	return true''','''	prev := c[0]
	for _, x := range c[1:] {
		if x.Cmp(prev) <= 0 {
			return false
		}
		prev = x
	}
	return true'''))
r('ascending-split',('chain.go','''	if len(c) == 0 || !bigint.EqualInt64(c[0], 1) {
		return false
	}
	for i''','''	if len(c) == 0 {
		return false
	}
	if !bigint.EqualInt64(c[0], 1) {
		return false
	}
	for i'''))
r('product-idx',('chain.go','''	for _, x := range b[1:] {
		y := new(big.Int).Mul(last, x)
		c = append(c, y)
	}
	return c''','''	for i := 1; i < len(b); i++ {
		c = append(c, new(big.Int).Mul(last, b[i]))
	}
	return c'''))
r('plus-var',('chain.go','''	y := new(big.Int).Add(c.End(), x)
	return append(c, y)''','''	sum := new(big.Int)
	sum.Add(c.End(), x)
	c = append(c, sum)
	return c'''))

# ---- program.go ----
r('operands-switch',('program.go','''	if o.IsDouble() {
		return []int{o.I}
	}
	return []int{o.I, o.J}''','''	ops := []int{o.I}
	if !o.IsDouble() {
		ops = append(ops, o.J)
	}
	return ops'''))
r('shift-for',('program.go','''	for ; s > 0; s-- {
		next, err := p.Double(i)
		if err != nil {
			return 0, err
		}
		i = next
	}
	return i, nil''','''	out := i
	for n := uint(0); n < s; n++ {
		next, err := p.Double(out)
		if err != nil {
			return 0, err
		}
		out = next
	}
	return out, nil'''))
r('shift-err',('program.go','''		next, err := p.Double(i)
		if err != nil {
			return 0, err
		}
		i = next
	}
	return i, nil''','''		var err error
		if i, err = p.Double(i); err != nil {
			return 0, err
		}
	}
	return i, nil'''))
r('add-loop',('program.go','''	if err := p.boundscheck(i); err != nil {
		return 0, err
	}
	if err := p.boundscheck(j); err != nil {
		return 0, err
	}
	*p''','''	for _, k := range []int{i, j} {
		if err := p.boundscheck(k); err != nil {
			return 0, err
		}
	}
	*p'''))
r('bounds-if',('program.go','''	n := len(p)
	switch {
	case i < 0:
		return fmt.Errorf("negative index %d", i)
	case i > n:
		return fmt.Errorf("index %d out of bounds", i)
	}
	return nil''','''	if i < 0 {
		return fmt.Errorf("negative index %d", i)
	}
	if i >= len(p)+1 {
		return fmt.Errorf("index %d out of bounds", i)
	}
	return nil'''))
r('count-explicit',('program.go','''	for _, op := range p {
		if op.IsDouble() {
			doubles++
		} else {
			adds++
		}
	}
	return
''','''	for _, op := range p {
		if op.IsDouble() {
			doubles++
		}
	}
	adds = len(p) - doubles
	return doubles, adds
'''))
r('count-continue',('program.go','''		if op.IsDouble() {
			doubles++
		} else {
			adds++
		}
''','''		if op.IsDouble() {
			doubles++
			continue
		}
		adds++
'''))
r('evaluate-index',('program.go','''	for _, op := range p {
		sum := new(big.Int).Add(c[op.I], c[op.J])
		c = append(c, sum)
	}
	return c''','''	for k := range p {
		x, y := c[p[k].I], c[p[k].J]
		c = append(c, new(big.Int).Add(x, y))
	}
	return c'''))
r('readcounts-inline',('program.go','''		for _, i := range op.Operands() {
			reads[i]++
		}
''','''		reads[op.I]++
		if !op.IsDouble() {
			reads[op.J]++
		}
'''))
r('deps-prealloc',('program.go','''	bitsets := []*big.Int{bigint.One()}
	for i, op := range p {
		bitset := new(big.Int).Or(bitsets[op.I], bitsets[op.J])
		bitset.SetBit(bitset, i+1, 1)
		bitsets = append(bitsets, bitset)
	}
	return bitsets''','''	bitsets := make([]*big.Int, 0, len(p)+1)
	bitsets = append(bitsets, bigint.One())
	for i, op := range p {
		x, y := bitsets[op.I], bitsets[op.J]
		union := new(big.Int).Or(x, y)
		bitsets = append(bitsets, union.SetBit(union, i+1, 1))
	}
	return bitsets'''))

# ---- dict.go ----
r('fixed-helper',('alg/dict/dict.go','''		l := max(h-int(w.K), 0)
		d := bigint.Extract(x, uint(l), uint(h))
		if bigint.IsNonZero(d) {
			sum = append(sum, Term{D: d, E: uint(l)})
		}
		h = l
''','''		l := h - int(w.K)
		if l < 0 {
			l = 0
		}
		if d := bigint.Extract(x, uint(l), uint(h)); !bigint.IsZero(d) {
			sum = append(sum, Term{D: d, E: uint(l)})
		}
		h = l
'''))
r('fixed-for',('alg/dict/dict.go','''	h := x.BitLen()
	for h > 0 {
		l := max(h-int(w.K), 0)
		d := bigint.Extract(x, uint(l), uint(h))
		if bigint.IsNonZero(d) {
			sum = append(sum, Term{D: d, E: uint(l)})
		}
		h = l
	}
''','''	var l int
	for h := x.BitLen(); h > 0; h = l {
		l = max(h-int(w.K), 0)
		d := bigint.Extract(x, uint(l), uint(h))
		if bigint.IsZero(d) {
			continue
		}
		sum = append(sum, Term{D: d, E: uint(l)})
	}
'''))
r('sliding-continue',('alg/dict/dict.go','''		// Find first 1.
		for h >= 0 && x.Bit(h) == 0 {
			h--
		}

		if h < 0 {
			break
		}

		// Look down k positions.
''','''		// Skip zeros.
		if x.Bit(h) == 0 {
			h--
			continue
		}

		// Look down k positions.
'''))
r('sliding-helper',('alg/dict/dict.go','''		for h >= 0 && x.Bit(h) == 0 {
			h--
		}

		if h < 0 {
			break
		}

		// Look down k positions.
''','''		h = skipzeros(x, h)
		if h < 0 {
			break
		}

		// Look down k positions.
'''),('alg/dict/dict.go','''func max(a, b int) int {''','''// skipzeros returns the first set bit at or below i, or -1.
func skipzeros(x *big.Int, i int) int {
	for i >= 0 && x.Bit(i) == 0 {
		i--
	}
	return i
}

func max(a, b int) int {'''))
r('runlength-len',('alg/dict/dict.go','''		// We have a run from s to i+1.
		sum = append(sum, Term{
			D: bigint.Ones(uint(s - i)),
			E: uint(i + 1),
		})
''','''		// We have a run from s to i+1.
		length := uint(s - i)
		term := Term{D: bigint.Ones(length), E: uint(i + 1)}
		sum = append(sum, term)
'''))
r('runlength-helper',('alg/dict/dict.go','''		// Look for the end of the run.
		s := i
		for i >= 0 && x.Bit(i) == 1 && (r.T == 0 || uint(s-i) < r.T) {
			i--
		}

		// We have a run from s to i+1.
''','''		// Look for the end of the run.
		s := i
		i = r.endofrun(x, s)

		// We have a run from s to i+1.
'''),('alg/dict/dict.go','''func (r RunLength) String()''','''func (r RunLength) endofrun(x *big.Int, s int) int {
	i := s
	for i >= 0 && x.Bit(i) == 1 && (r.T == 0 || uint(s-i) < r.T) {
		i--
	}
	return i
}

func (r RunLength) String()'''))
r('hybrid-invert',('alg/dict/dict.go','''		n := uint(s - i)
		if n <= h.K {
			continue
		}

		// Add it to the sum and remove it from the integer.
		sum = append(sum, Term{
			D: bigint.Ones(n),
			E: uint(i + 1),
		})

		y.Xor(y, bigint.Mask(uint(i+1), uint(s+1)))
	}
''','''		if n := uint(s - i); n > h.K {
			// Add it to the sum and remove it from the integer.
			sum = append(sum, Term{
				D: bigint.Ones(n),
				E: uint(i + 1),
			})

			y.Xor(y, bigint.Mask(uint(i+1), uint(s+1)))
		}
	}
'''))
r('hybrid-inline-window',('alg/dict/dict.go','''	w := SlidingWindow{K: h.K}
	rem := w.Decompose(y)

	sum = append(sum, rem...)
	sum.SortByExponent()
''','''	sum = append(sum, SlidingWindow{K: h.K}.Decompose(y)...)
	sum.SortByExponent()
'''))
r('dictionary-make',('alg/dict/dict.go','''	dict := make([]*big.Int, 0, len(s))
	for _, t := range s {
		dict = append(dict, t.D)
	}
''','''	dict := make([]*big.Int, len(s))
	for i, t := range s {
		dict[i] = t.D
	}
'''))
r('sumint-index',('alg/dict/dict.go','''	x := bigint.Zero()
	for _, t := range s {
		x.Add(x, t.Int())
	}
	return x''','''	total := new(big.Int)
	for i := range s {
		total.Add(total, s[i].Int())
	}
	return total'''))
r('sortby-var',('alg/dict/dict.go','''	sort.Slice(s, func(i, j int) bool { return s[i].E < s[j].E })''','''	less := func(i, j int) bool {
		return s[i].E < s[j].E
	}
	sort.Slice(s, less)'''))
r('dictsum-shift-helper',('alg/dict/dict.go','''	for i := sum[0].E; i > 0; i-- {
		cur.Lsh(cur, 1)
		c.AppendClone(cur)
	}

	return c
}''','''	return appendshifts(c, cur, sum[0].E)
}

func appendshifts(c addchain.Chain, cur *big.Int, n uint) addchain.Chain {
	for ; n > 0; n-- {
		cur.Lsh(cur, 1)
		c.AppendClone(cur)
	}
	return c
}'''))
r('dictsum-kloop',('alg/dict/dict.go','''	k := len(sum) - 1
	cur := bigint.Clone(sum[k].D)
	for ; k > 0; k-- {
		// Shift until the next exponent.
		for i := sum[k].E; i > sum[k-1].E; i-- {
			cur.Lsh(cur, 1)
			c.AppendClone(cur)
		}

		// Add in the dictionary term at this position.
		cur.Add(cur, sum[k-1].D)
		c.AppendClone(cur)
	}
''','''	last := len(sum) - 1
	cur := bigint.Clone(sum[last].D)
	for k := last; k > 0; k-- {
		t, next := sum[k], sum[k-1]

		// Shift until the next exponent.
		for i := t.E; i > next.E; i-- {
			cur.Lsh(cur, 1)
			c.AppendClone(cur)
		}

		// Add in the dictionary term at this position.
		cur.Add(cur, next.D)
		c.AppendClone(cur)
	}
'''))
r('primitive-buildidx',('alg/dict/dict.go','''	idx := map[string]int{}
	for i, x := range c {
		idx[x.String()] = i
	}
''','''	idx := make(map[string]int, n)
	for i := 0; i < n; i++ {
		idx[c[i].String()] = i
	}
'''))
r('primitive-mark',('alg/dict/dict.go','''		if numreads < 2 {
			continue
		}
		primitive[i] = true
		for _, j := range bigint.BitsSet(deps[i]) {
			primitive[j] = true
		}
''','''		if numreads >= 2 {
			primitive[i] = true
			for _, j := range bigint.BitsSet(deps[i]) {
				primitive[j] = true
			}
		}
'''))
r('primitive-rebuild-helper',('alg/dict/dict.go','''	out := Sum{}
	for i := 0; i < v.Len(); i++ {
		for _, e := range bigint.BitsSet(v.Idx(i)) {
			out = append(out, Term{
				D: c[i],
				E: uint(e),
			})
		}
	}

	out.SortByExponent()
''','''	out := rebuild(v, c)
'''),('alg/dict/dict.go','''func max(a, b int) int {''','''func rebuild(v bigvector.Vector, c addchain.Chain) Sum {
	out := Sum{}
	for i := 0; i < v.Len(); i++ {
		for _, e := range bigint.BitsSet(v.Idx(i)) {
			out = append(out, Term{
				D: c[i],
				E: uint(e),
			})
		}
	}
	out.SortByExponent()
	return out
}

func max(a, b int) int {'''))
r('primitive-next',('alg/dict/dict.go','''		var next bigvector.Vector
		if primitive[i+1] {
			next = bigvector.NewBasis(n, i+1)
		} else {
			next = bigvector.Add(vc[op.I], vc[op.J])
		}
		vc = append(vc, next)
''','''		if primitive[i+1] {
			vc = append(vc, bigvector.NewBasis(n, i+1))
			continue
		}
		vc = append(vc, bigvector.Add(vc[op.I], vc[op.J]))
'''))
r('dict-findchain-helper',('alg/dict/dict.go','''	// Build chain for n out of the dictionary.
	dc := dictsumchain(sum)
	c = append(c, dc...)
	bigints.Sort(c)
	c = addchain.Chain(bigints.Unique(c))

	return c, nil
}
''','''	return assemble(sum, c), nil
}

// assemble builds a chain out of the dictionary.
func assemble(sum Sum, c addchain.Chain) addchain.Chain {
	dc := dictsumchain(sum)
	c = append(c, dc...)
	bigints.Sort(c)
	return addchain.Chain(bigints.Unique(c))
}
'''),('alg/dict/runs.go','''	dc := dictsumchain(sum)
	c = append(c, dc...)
	bigints.Sort(c)
	c = addchain.Chain(bigints.Unique(c))

	return c, nil
''','''	return assemble(sum, c), nil
'''),('alg/dict/runs.go','''	"github.com/mmcloughlin/addchain/internal/bigints"
''',''))
r('max-rename',('alg/dict/dict.go','''func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}''','''func max(x, y int) int {
	if y >= x {
		return y
	}
	return x
}'''))

# ---- runs.go ----
r('runs-shiftvar',('alg/dict/runs.go','''		for ; s[lb] < la; s[lb]++ {
			shift := new(big.Int).Lsh(rb, s[lb]+1)
			c = append(c, shift)
		}
''','''		for s[lb] < la {
			s[lb]++
			c = append(c, new(big.Int).Lsh(rb, s[lb]))
		}
'''))
r('runs-local',('alg/dict/runs.go','''		for ; s[lb] < la; s[lb]++ {
			shift := new(big.Int).Lsh(rb, s[lb]+1)
			c = append(c, shift)
		}
''','''		cur := s[lb]
		for ; cur < la; cur++ {
			shift := new(big.Int).Lsh(rb, cur+1)
			c = append(c, shift)
		}
		s[lb] = cur
'''))
r('runs-lengths-make',('alg/dict/runs.go','''	lengths := []*big.Int{}
	for _, run := range runs {
		length := int64(run.BitLen())
		lengths = append(lengths, big.NewInt(length))
	}
''','''	lengths := make([]*big.Int, 0, len(runs))
	for i := range runs {
		lengths = append(lengths, big.NewInt(int64(runs[i].BitLen())))
	}
'''))
r('runs-check-helper',('alg/dict/runs.go','''	for _, l := range lc {
		if !l.IsUint64() {
			return nil, errors.New("values in lengths chain are far too large")
		}
	}

	c := addchain.New()''','''	if err := checklengths(lc); err != nil {
		return nil, err
	}

	c := addchain.New()'''),('alg/dict/runs.go','''// RunsChain''','''func checklengths(lc addchain.Chain) error {
	for _, l := range lc {
		if !l.IsUint64() {
			return errors.New("values in lengths chain are far too large")
		}
	}
	return nil
}

// RunsChain'''))
r('runs-check-first',('alg/dict/runs.go','''		a, b := bigint.MinMax(lc[op.I], lc[op.J])
		la := uint(a.Uint64())
		lb := uint(b.Uint64())
''','''		min, max := bigint.MinMax(lc[op.I], lc[op.J])
		la, lb := uint(min.Uint64()), uint(max.Uint64())
'''))
# ---- contfrac ----
r('contfrac-minchain-switch',('alg/contfrac/contfrac.go','''	if bigint.IsPow2(n) {
		return bigint.Pow2UpTo(n)
	}

	if bigint.EqualInt64(n, 3) {
		return bigints.Int64s(1, 2, 3)
	}

	var min''','''	switch {
	case bigint.IsPow2(n):
		return bigint.Pow2UpTo(n)
	case bigint.EqualInt64(n, 3):
		return bigints.Int64s(1, 2, 3)
	}

	var min'''))
r('contfrac-chain-vars',('alg/contfrac/contfrac.go','''	k := len(ns)
	if k == 1 || ns[k-2].Cmp(bigint.One()) <= 0 {
		return a.minchain(ns[k-1])
	}

	q, r := new(big.Int), new(big.Int)
	q.DivMod(ns[k-1], ns[k-2], r)
''','''	k := len(ns)
	last := ns[k-1]
	if k == 1 {
		return a.minchain(last)
	}
	next := ns[k-2]
	if next.Cmp(bigint.One()) <= 0 {
		return a.minchain(last)
	}

	q, r := new(big.Int).DivMod(last, next, new(big.Int))
'''))
r('contfrac-chain-else',('alg/contfrac/contfrac.go','''	if bigint.IsZero(r) {
		return addchain.Product(a.chain(remaining), cq)
	}

	remaining = bigints.InsertSortedUnique(remaining, r)
	return addchain.Plus(addchain.Product(a.chain(remaining), cq), r)
''','''	if !bigint.IsZero(r) {
		remaining = bigints.InsertSortedUnique(remaining, r)
		product := addchain.Product(a.chain(remaining), cq)
		return addchain.Plus(product, r)
	}

	return addchain.Product(a.chain(remaining), cq)
'''))
r('contfrac-total-for',('alg/contfrac/contfrac.go','''	k := big.NewInt(2)
	one := bigint.One()
	for k.Cmp(n) < 0 {
		ks = append(ks, bigint.Clone(k))
		k.Add(k, one)
	}
	return ks''','''	one := bigint.One()
	for k := big.NewInt(2); k.Cmp(n) < 0; k.Add(k, one) {
		ks = append(ks, bigint.Clone(k))
	}
	return ks'''))
r('contfrac-cobinary',('alg/contfrac/contfrac.go','''	k := bigint.Clone(n)
	if k.Bit(0) == 1 {
		k.Add(k, bigint.One())
	}
	k.Rsh(k, 1)
	return []*big.Int{k}''','''	k := new(big.Int).Set(n)
	odd := k.Bit(0) != 0
	if odd {
		k.Add(k, bigint.One())
	}
	return []*big.Int{k.Rsh(k, 1)}'''))
r('contfrac-dichotomic',('alg/contfrac/contfrac.go','''	l := n.BitLen()
	h := uint(l) / 2
	k := new(big.Int).Div(n, bigint.Pow2(h))
	return []*big.Int{k}''','''	half := uint(n.BitLen()) / 2
	return []*big.Int{new(big.Int).Div(n, bigint.Pow2(half))}'''))
r('contfrac-findseq',('alg/contfrac/contfrac.go','''	bigints.Sort(targets)
	return a.chain(targets), nil''','''	bigints.Sort(targets)
	c := a.chain(targets)
	return c, nil'''))
# ---- heuristic ----
r('heur-loop',('alg/heuristic/heuristic.go','''		top := len(proto) - 1
		target := proto[top]
		proto = proto[:top]
		c = bigints''','''		var target *big.Int
		target, proto = proto[len(proto)-1], proto[:len(proto)-1]
		c = bigints'''))
r('heur-init-helper',('alg/heuristic/heuristic.go','''	leader := bigints.Int64s(1, 2)
	proto := bigints.Concat(leader, targets)
	bigints.Sort(proto)
	proto = bigints.Unique(proto)
	c := []*big.Int{}
''','''	leader := bigints.Int64s(1, 2)
	proto := protosequence(leader, targets)
	c := []*big.Int{}
'''),('alg/heuristic/heuristic.go','''// DeltaLargest''','''func protosequence(leader, targets []*big.Int) []*big.Int {
	proto := bigints.Concat(leader, targets)
	bigints.Sort(proto)
	return bigints.Unique(proto)
}

// DeltaLargest'''))
r('heur-delta',('alg/heuristic/heuristic.go','''	n := len(f)
	delta := new(big.Int).Sub(target, f[n-1])
	if delta.Sign() <= 0 {
		panic("delta must be positive")
	}
	return []*big.Int{delta}''','''	largest := f[len(f)-1]
	delta := new(big.Int).Sub(target, largest)
	if delta.Sign() > 0 {
		return []*big.Int{delta}
	}
	panic("delta must be positive")'''))
r('heur-approx-else',('alg/heuristic/heuristic.go','''		if first || delta.Cmp(mindelta) < 0 {
			mindelta.Set(delta)
			best.Set(insert)
			first = false
		}
''','''		if better := first || delta.Cmp(mindelta) < 0; better {
			first = false
			best.Set(insert)
			mindelta.Set(delta)
		}
'''))
r('heur-approx-loop',('alg/heuristic/heuristic.go','''	for l, r := 0, len(f)-1; l <= r; {
		a, b := f[l], f[r]
''','''	l, r := 0, len(f)-1
	for l <= r {
		a := f[l]
		b := f[r]
'''))
r('heur-halving',('alg/heuristic/heuristic.go','''	kshifts := []*big.Int{}
	for e := 0; e <= u; e++ {
		kshift := new(big.Int).Lsh(k, uint(e))
		kshifts = append(kshifts, kshift)
	}
''','''	kshifts := make([]*big.Int, u+1)
	for e := range kshifts {
		kshifts[e] = new(big.Int).Lsh(k, uint(e))
	}
'''))
r('heur-halving-tail',('alg/heuristic/heuristic.go','''	d := new(big.Int).Sub(max, kshifts[u])
	if bigint.IsZero(d) {
		return kshifts[:u]
	}

	return bigints.InsertSortedUnique(kshifts, d)''','''	if d := new(big.Int).Sub(max, kshifts[u]); bigint.IsNonZero(d) {
		return bigints.InsertSortedUnique(kshifts, d)
	}
	return kshifts[:u]'''))
r('heur-halving-names',('alg/heuristic/heuristic.go','''	n := len(f)
	max, next := target, f[n-1]

	// Check the condition f / f₁ ⩾ 2ᵘ
	r := new(big.Int).Div(max, next)
	if r.BitLen() < 2 {
		return nil
	}
	u := r.BitLen() - 1
''','''	max, next := target, f[len(f)-1]

	// Check the condition f / f₁ ⩾ 2ᵘ
	u := new(big.Int).Div(max, next).BitLen() - 1
	if u < 1 {
		return nil
	}
'''))
r('heur-usefirst',('alg/heuristic/heuristic.go','''		if insert := heuristic.Suggest(f, target); insert != nil {
			return insert
		}
''','''		insert := heuristic.Suggest(f, target)
		if insert == nil {
			continue
		}
		return insert
'''))
# ---- opt ----
r('opt-helper',('alg/opt/opt.go','''	ops := make([][]addchain.Op, len(c))
	for k := 1; k < len(c); k++ {
		ops[k] = c.Ops(k)
	}
''','''	ops := allops(c)
'''),('alg/opt/opt.go','''// pruneuses''','''func allops(c addchain.Chain) [][]addchain.Op {
	ops := make([][]addchain.Op, len(c))
	for k := 1; k < len(c); k++ {
		ops[k] = c.Ops(k)
	}
	return ops
}

// pruneuses'''))
r('opt-count-helper',('alg/opt/opt.go','''		if len(ops[k]) != 1 {
			continue
		}
		for _, i := range ops[k][0].Operands() {
			counts[i]++
		}
''','''		countonly(ops[k], counts)
'''),('alg/opt/opt.go','''			if len(ops[l]) == 1 {
				for _, i := range ops[l][0].Operands() {
					counts[i]++
				}
			}
''','''			countonly(ops[l], counts)
'''),('alg/opt/opt.go','''// pruneuses''','''func countonly(ops []addchain.Op, counts []int) {
	if len(ops) == 1 {
		for _, i := range ops[0].Operands() {
			counts[i]++
		}
	}
}

// pruneuses'''))
r('opt-prune-index',('alg/opt/opt.go','''	filtered := ops[:0]
	for _, op := range ops {
		if !op.Uses(i) {
			filtered = append(filtered, op)
		}
	}
	return filtered''','''	filtered := ops[:0]
	for _, op := range ops {
		if op.Uses(i) {
			continue
		}
		filtered = append(filtered, op)
	}
	return filtered'''))
r('opt-prune-n',('alg/opt/opt.go','''	filtered := ops[:0]
	for _, op := range ops {
		if !op.Uses(i) {
			filtered = append(filtered, op)
		}
	}
	return filtered''','''	n := 0
	for _, op := range ops {
		if !op.Uses(i) {
			ops[n] = op
			n++
		}
	}
	return ops[:n]'''))
r('opt-findchain',('alg/opt/opt.go','''	opt, err := Optimize(c)
	if err != nil {
		return nil, err
	}

	return opt, nil''','''	return Optimize(c)'''))
r('opt-removed-set',('alg/opt/opt.go','''	remove := []int{}
	for k := 1''','''	remove := make([]bool, len(c))
	for k := 1'''),('alg/opt/opt.go','''		remove = append(remove, k)''','''		remove[k] = true'''),('alg/opt/opt.go','''		if len(remove) > 0 && remove[0] == i {
			remove = remove[1:]
			continue
		}
		pruned''','''		if remove[i] {
			continue
		}
		pruned'''))
# ---- binary ----
r('binary-switch',('alg/binary/binary.go','''		if b.Bit(0) == 1 {
			if x == nil {
				x = bigint.Clone(d)
			} else {
				x.Add(x, d)
				c.AppendClone(x)
			}
		}
''','''		switch {
		case b.Bit(0) == 0:
		case x == nil:
			x = bigint.Clone(d)
		default:
			x.Add(x, d)
			c.AppendClone(x)
		}
'''))
r('binary-for',('alg/binary/binary.go','''	b := new(big.Int).Set(n)
	d := bigint.One()
	var x *big.Int
	for bigint.IsNonZero(b) {''','''	b, d := bigint.Clone(n), bigint.One()
	var x *big.Int
	for b.Sign() != 0 {'''))
# ---- exec ----
r('exec-early',('alg/exec/exec.go','''	r := Result{
		Target:    n,
		Algorithm: a,
	}

	r.Chain, r.Err = a.FindChain(n)
	if r.Err != nil {
		return r
	}
''','''	r := Result{Target: n, Algorithm: a}

	c, err := a.FindChain(n)
	r.Chain, r.Err = c, err
	if err != nil {
		return r
	}
'''))
r('exec-validate-helper',('alg/exec/exec.go','''	if !bigint.Equal(r.Chain.End(), n) {
		r.Err = errors.New("did not produce the required value")
	}

	return r''','''	end := r.Chain.End()
	if end.Cmp(n) == 0 {
		return r
	}
	r.Err = errors.New("did not produce the required value")
	return r'''),('alg/exec/exec.go','''	"github.com/mmcloughlin/addchain/internal/bigint"
''',''))
r('parallel-worker',('alg/exec/exec.go','''			p.logger.Printf("start: %s", a)
			rs[i] = Execute(n, a)
			p.logger.Printf("done: %s", a)
			<-sem
''','''			defer func() { <-sem }()
			p.logger.Printf("start: %s", a)
			rs[i] = Execute(n, a)
			p.logger.Printf("done: %s", a)
'''))
r('parallel-method',('alg/exec/exec.go','''			p.logger.Printf("start: %s", a)
			rs[i] = Execute(n, a)
			p.logger.Printf("done: %s", a)
			<-sem
''','''			rs[i] = p.run(n, a)
			<-sem
'''),('alg/exec/exec.go','''// Execute all algorithms''','''func (p Parallel) run(n *big.Int, a alg.ChainAlgorithm) Result {
	p.logger.Printf("start: %s", a)
	r := Execute(n, a)
	p.logger.Printf("done: %s", a)
	return r
}

// Execute all algorithms'''))
r('parallel-waitgroup',('alg/exec/exec.go','''	sem := make(chan token, limit)

	for i, a := range as {
		sem <- token{}
		go func(i int, a alg.ChainAlgorithm) {
			p.logger.Printf("start: %s", a)
			rs[i] = Execute(n, a)
			p.logger.Printf("done: %s", a)
			<-sem
		}(i, a)
	}

	// Wait for completion.
	for i := 0; i < limit; i++ {
		sem <- token{}
	}
''','''	sem := make(chan token, limit)

	var wg sync.WaitGroup
	for i, a := range as {
		sem <- token{}
		wg.Add(1)
		go func(i int, a alg.ChainAlgorithm) {
			defer wg.Done()
			p.logger.Printf("start: %s", a)
			rs[i] = Execute(n, a)
			p.logger.Printf("done: %s", a)
			<-sem
		}(i, a)
	}

	// Wait for completion.
	wg.Wait()
'''),('alg/exec/exec.go','''	"runtime"
''','''	"runtime"
	"sync"
'''))
r('parallel-emptystruct',('alg/exec/exec.go','''	type token struct{}
	limit := p.limit''','''	limit := p.limit'''),('alg/exec/exec.go','''	sem := make(chan token, limit)

	for i, a := range as {
		sem <- token{}
''','''	sem := make(chan struct{}, limit)

	for i, a := range as {
		sem <- struct{}{}
'''),('alg/exec/exec.go','''	for i := 0; i < limit; i++ {
		sem <- token{}
	}''','''	for remaining := limit; remaining > 0; remaining-- {
		sem <- struct{}{}
	}'''))
# ---- ensemble ----
r('ensemble-helper',('alg/ensemble/ensemble.go','''	// Build decomposers.
	decomposers := []dict.Decomposer{}
''','''	// Build decomposers.
	var decomposers []dict.Decomposer
'''),('alg/ensemble/ensemble.go','''			a := dict.NewAlgorithm(decomp, seqalg)
			as = append(as, a)
''','''			as = append(as, dict.NewAlgorithm(decomp, seqalg))
'''))
r('ensemble-extract',('alg/ensemble/ensemble.go','''	// Wrap in an optimization layer.
	for i, a := range as {
		as[i] = opt.Algorithm{Algorithm: a}
	}

	return as
}''','''	return optimized(as)
}

// optimized wraps algorithms in an optimization layer.
func optimized(as []alg.ChainAlgorithm) []alg.ChainAlgorithm {
	for i := range as {
		as[i] = opt.Algorithm{Algorithm: as[i]}
	}
	return as
}'''))
# ---- bigint ----
r('bigint-mask',('internal/bigint/bigint.go','''	mask := Pow2(h)
	return mask.Sub(mask, Pow2(l))''','''	hi, lo := Pow2(h), Pow2(l)
	return hi.Sub(hi, lo)'''))
r('bigint-extract',('internal/bigint/bigint.go','''	e := Mask(l, h)
	e.And(e, x)
	return e.Rsh(e, l)''','''	masked := new(big.Int).And(x, Mask(l, h))
	return masked.Rsh(masked, l)'''))
r('bigint-bitsset',('internal/bigint/bigint.go','''	set := []int{}
	for i := 0; i < x.BitLen(); i++ {
		if x.Bit(i) == 1 {''','''	set := []int{}
	n := x.BitLen()
	for i := 0; i < n; i++ {
		if x.Bit(i) != 0 {'''))
r('bigint-ispow2',('internal/bigint/bigint.go','''	e := x.BitLen()
	if e == 0 {
		return false
	}
	return Equal(x, Pow2(uint(e-1)))''','''	if n := x.BitLen(); n > 0 {
		return Equal(x, Pow2(uint(n-1)))
	}
	return false'''))
r('bigint-minmax',('internal/bigint/bigint.go','''	if x.Cmp(y) < 0 {
		return x, y
	}
	return y, x''','''	min, max = x, y
	if y.Cmp(x) <= 0 {
		min, max = y, x
	}
	return min, max'''))
r('bigint-uint64s',('internal/bigint/bigint.go','''	z := Clone(x)
	mask := Ones(64)
	word := new(big.Int)
	words := []uint64{}
	for IsNonZero(z) {
		word.And(z, mask)
		words = append(words, word.Uint64())
		z.Rsh(z, 64)
	}
	return words''','''	words := []uint64{}
	mask := Ones(64)
	word := new(big.Int)
	for z := Clone(x); IsNonZero(z); z.Rsh(z, 64) {
		words = append(words, word.And(z, mask).Uint64())
	}
	return words'''))
r('bigint-bytesle',('internal/bigint/bigint.go','''	b := x.Bytes()
	for l, r := 0, len(b)-1; l < r; l, r = l+1, r-1 {
		b[l], b[r] = b[r], b[l]
	}
	return b''','''	b := x.Bytes()
	n := len(b)
	for i := 0; i < n/2; i++ {
		b[i], b[n-1-i] = b[n-1-i], b[i]
	}
	return b'''))
r('bigint-pow2upto',('internal/bigint/bigint.go','''	p := One()
	ps := []*big.Int{}
	for p.Cmp(x) <= 0 {
		ps = append(ps, Clone(p))
		p.Lsh(p, 1)
	}
	return ps''','''	ps := []*big.Int{}
	for p := One(); p.Cmp(x) <= 0; p = new(big.Int).Lsh(p, 1) {
		ps = append(ps, p)
	}
	return ps'''))
# ---- bigints ----
r('bigints-contains',('internal/bigints/bigints.go','''	return Index(n, xs) >= 0''','''	for _, x := range xs {
		if bigint.Equal(x, n) {
			return true
		}
	}
	return false'''))
r('bigints-clone',('internal/bigints/bigints.go','''	return append([]*big.Int{}, xs...)''','''	clone := make([]*big.Int, len(xs))
	copy(clone, xs)
	return clone'''))
r('bigints-unique',('internal/bigints/bigints.go','''	u := make([]*big.Int, 1, len(xs))
	u[0] = xs[0]
	for _, x := range xs[1:] {
		last := u[len(u)-1]
		if !bigint.Equal(x, last) {
			u = append(u, x)
		}
	}
	return u''','''	u := make([]*big.Int, 0, len(xs))
	u = append(u, xs[0])
	for i := 1; i < len(xs); i++ {
		if bigint.Equal(xs[i], u[len(u)-1]) {
			continue
		}
		u = append(u, xs[i])
	}
	return u'''))
r('bigints-merge-if',('internal/bigints/bigints.go','''		switch xs[0].Cmp(ys[0]) {
		case -1:
			r = append(r, xs[0])
			xs = xs[1:]
		case 0:
			r = append(r, xs[0])
			xs = xs[1:]
			ys = ys[1:]
		case 1:
			r = append(r, ys[0])
			ys = ys[1:]
		}
''','''		x, y := xs[0], ys[0]
		cmp := x.Cmp(y)
		if cmp <= 0 {
			r = append(r, x)
			xs = xs[1:]
		} else {
			r = append(r, y)
		}
		if cmp >= 0 {
			ys = ys[1:]
		}
'''))
r('bigints-merge-idx',('internal/bigints/bigints.go','''	for len(xs) > 0 && len(ys) > 0 {
		switch xs[0].Cmp(ys[0]) {
		case -1:
			r = append(r, xs[0])
			xs = xs[1:]
		case 0:
			r = append(r, xs[0])
			xs = xs[1:]
			ys = ys[1:]
		case 1:
			r = append(r, ys[0])
			ys = ys[1:]
		}
	}

	r = append(r, xs...)
	r = append(r, ys...)
''','''	i, j := 0, 0
	for i < len(xs) && j < len(ys) {
		switch xs[i].Cmp(ys[j]) {
		case -1:
			r = append(r, xs[i])
			i++
		case 0:
			r = append(r, xs[i])
			i++
			j++
		case 1:
			r = append(r, ys[j])
			j++
		}
	}

	r = append(r, xs[i:]...)
	r = append(r, ys[j:]...)
'''))
r('bigints-containssorted',('internal/bigints/bigints.go','''	i := sort.Search(len(xs), func(i int) bool { return xs[i].Cmp(n) >= 0 })
	return i < len(xs) && bigint.Equal(xs[i], n)''','''	i := sort.Search(len(xs), func(i int) bool { return n.Cmp(xs[i]) <= 0 })
	if i == len(xs) {
		return false
	}
	return bigint.Equal(n, xs[i])'''))
r('bigints-insert',('internal/bigints/bigints.go','''	return MergeUnique([]*big.Int{x}, xs)''','''	single := []*big.Int{x}
	return MergeUnique(single, xs)'''))
# ---- bigvector ----
r('bigvector-add',('internal/bigvector/bigvector.go','''	n := u.Len()
	w := make(vector, n)
	for i := 0; i < n; i++ {
		w[i].Add(u.Idx(i), v.Idx(i))
	}
	return w''','''	w := make(vector, u.Len())
	for i := range w {
		w[i].Add(u.Idx(i), v.Idx(i))
	}
	return w'''))
r('bigvector-basis',('internal/bigvector/bigvector.go','''	switch {
	case i >= b.n:
		panic("bigvector: index out of range")
	case i == b.i:
		return one
	default:
		return zero
	}''','''	if i >= b.n {
		panic("bigvector: index out of range")
	}
	if i != b.i {
		return zero
	}
	return one'''))
