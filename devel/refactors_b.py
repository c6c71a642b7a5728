R=[]
def r(id,*edits): R.append((id,list(edits)))
r('tr-statement',('acc/translate.go','''	if err := s.define(stmt.Name, out); err != nil {
		return err
	}
	return nil''','''	return s.define(stmt.Name, out)'''))
r('tr-emit',('acc/translate.go','''	out := ir.Index(s.n)
	inst := &ir.Instruction{
		Output: out,
		Op:     ir.Add{X: x, Y: y},
	}
	s.prog.AddInstruction(inst)
	s.n++

	return out, nil''','''	return s.emit(ir.Add{X: x, Y: y}), nil'''),('acc/translate.go','''	out := ir.Index(s.n)
	inst := &ir.Instruction{
		Output: out,
		Op:     ir.Double{X: x},
	}
	s.prog.AddInstruction(inst)
	s.n++

	return out, nil''','''	return s.emit(ir.Double{X: x}), nil'''),('acc/translate.go','''func (s *state) double(''','''func (s *state) emit(op ir.Op) *ir.Operand {
	out := ir.Index(s.n)
	s.prog.AddInstruction(&ir.Instruction{Output: out, Op: op})
	s.n++
	return out
}

func (s *state) double('''))
r('tr-shift',('acc/translate.go','''	s.n += int(sh.S)
	out := ir.Index(s.n - 1)
	inst := &ir.Instruction{
		Output: out,
		Op:     ir.Shift{X: x, S: sh.S},
	}
	s.prog.AddInstruction(inst)
''','''	out := ir.Index(s.n + int(sh.S) - 1)
	s.prog.AddInstruction(&ir.Instruction{
		Output: out,
		Op:     ir.Shift{X: x, S: sh.S},
	})
	s.n = out.Index + 1
'''))
r('tr-add-order',('acc/translate.go','''	if x.Index > y.Index {
		x, y = y, x
	}

	out := ir.Index(s.n)
	inst := &ir.Instruction{
		Output: out,
		Op:     ir.Add{X: x, Y: y},
	}
''','''	op := ir.Add{X: x, Y: y}
	if y.Index < x.Index {
		op = ir.Add{X: y, Y: x}
	}

	out := ir.Index(s.n)
	inst := &ir.Instruction{
		Output: out,
		Op:     op,
	}
'''))
r('tr-lookup',('acc/translate.go','''	operand, ok := s.variable[name]
	if !ok {
		return nil, fmt.Errorf("variable %q undefined", name)
	}
	return operand, nil''','''	if operand, ok := s.variable[name]; ok {
		return operand, nil
	}
	return nil, fmt.Errorf("variable %q undefined", name)'''))
r('tr-all',('acc/translate.go','''	for _, stmt := range c.Statements {
		if err := s.statement(stmt); err != nil {
			return nil, err
		}
	}''','''	for i := range c.Statements {
		err := s.statement(c.Statements[i])
		if err != nil {
			return nil, err
		}
	}'''))
r('dec-helper',('acc/decompile.go','''		j := i + 1
		for ; j < len(p) && numreads[j] == 1 && p[j].I == j && p[j].J == j; j++ {
		}

		s := j - i
''','''		j := doublings(p, numreads, i)
		s := j - i
'''),('acc/decompile.go','''// Decompile''','''// doublings returns the end of the chain of doublings starting at i.
func doublings(p addchain.Program, numreads []int, i int) int {
	j := i + 1
	for j < len(p) && numreads[j] == 1 && p[j].I == j && p[j].J == j {
		j++
	}
	return j
}

// Decompile'''))
r('dec-op',('acc/decompile.go','''		if s == 1 {
			r.AddInstruction(&ir.Instruction{
				Output: ir.Index(i + 1),
				Op: ir.Double{
					X: ir.Index(op.I),
				},
			})
			continue
		}

		i = j - 1
		r.AddInstruction(&ir.Instruction{
			Output: ir.Index(i + 1),
			Op: ir.Shift{
				X: ir.Index(op.I),
				S: uint(s),
			},
		})
''','''		var o ir.Op = ir.Double{X: ir.Index(op.I)}
		if s > 1 {
			o = ir.Shift{
				X: ir.Index(op.I),
				S: uint(s),
			}
		}

		r.AddInstruction(&ir.Instruction{
			Output: ir.Index(j),
			Op:     o,
		})
		i = j - 1
'''))
r('dec-while',('acc/decompile.go','''		for ; j < len(p) && numreads[j] == 1 && p[j].I == j && p[j].J == j; j++ {
		}
''','''		for j < len(p) {
			if numreads[j] != 1 || p[j] != (addchain.Op{I: j, J: j}) {
				break
			}
			j++
		}
'''))
r('build-anon-helper',('acc/build.go','''		anon := out.Identifier == ""
		usedonce := b.prog.ReadCount[out.Index] == 1
		usednext := i+1 < n && ir.HasInput(insts[i+1].Op, out.Index)
		if anon && usedonce && usednext && complexity < complexitylimit {
			continue
		}
''','''		if complexity < complexitylimit && b.inlineable(i) {
			continue
		}
'''),('acc/build.go','''func (b *builder) operator(''','''// inlineable reports whether the output of instruction i is anonymous and only
// used by the following instruction.
func (b *builder) inlineable(i int) bool {
	insts := b.prog.Instructions
	out := insts[i].Output
	if out.Identifier != "" || b.prog.ReadCount[out.Index] != 1 {
		return false
	}
	return i+1 < len(insts) && ir.HasInput(insts[i+1].Op, out.Index)
}

func (b *builder) operator('''))
r('build-last',('acc/build.go','''	b.chain.Statements[len(b.chain.Statements)-1].Name = ""
''','''	last := len(b.chain.Statements) - 1
	b.chain.Statements[last].Name = ""
'''))
r('build-range',('acc/build.go','''	for i := 0; i < n; i++ {
		complexity++
		inst := insts[i]
		out''','''	for i, inst := range insts {
		complexity++
		out'''))
r('build-add-if',('acc/build.go','''	switch {
	case ast.IsOp(x) && ast.IsOp(y):
		return nil, errutil.AssertionFailure("only one of x and y should be an operator expression")
	case ast.IsOp(y):
		x, y = y, x
	case ast.IsOp(x):
		// Nothing, it's already the first operand.
	}
''','''	if ast.IsOp(y) {
		if ast.IsOp(x) {
			return nil, errutil.AssertionFailure("only one of x and y should be an operator expression")
		}
		x, y = y, x
	}
'''))
r('build-name',('acc/build.go','''	if op.Identifier != "" {
		return op.Identifier
	}
	return fmt.Sprintf("i%d", op.Index)''','''	name := op.Identifier
	if len(name) == 0 {
		name = fmt.Sprintf("i%d", op.Index)
	}
	return name'''))
r('build-operand',('acc/build.go','''	e, ok := b.expr[op.Index]
	if !ok {
		return ast.Operand(op.Index)
	}
	return e''','''	if e, ok := b.expr[op.Index]; ok {
		return e
	}
	return ast.Operand(op.Index)'''))
r('build-commit',('acc/build.go','''	name := ast.Identifier(b.name(op))
	stmt := ast.Statement{
		Name: name,
		Expr: b.operand(op),
	}
	b.chain.Statements = append(b.chain.Statements, stmt)
	b.expr[op.Index] = name''','''	name, expr := ast.Identifier(b.name(op)), b.operand(op)
	b.expr[op.Index] = name
	b.chain.Statements = append(b.chain.Statements, ast.Statement{Name: name, Expr: expr})'''))
r('pr-parens',('acc/printer/printer.go','''	if e.Precedence() < prec {
		p.Printf("(")
		p.expr(e, ast.LowestPrec)
		p.Printf(")")
		return
	}

	switch e := e.(type) {''','''	if e.Precedence() < prec {
		p.parens(e)
		return
	}

	switch e := e.(type) {'''),('acc/printer/printer.go','''func (p *printer) add(''','''func (p *printer) parens(e ast.Expr) {
	p.Printf("(")
	p.expr(e, ast.LowestPrec)
	p.Printf(")")
}

func (p *printer) add('''))
r('pr-statement',('acc/printer/printer.go','''	if len(stmt.Name) > 0 {
		p.Printf("%s\\t=\\t", stmt.Name)
	} else {
		p.Printf("return\\t\\t")
	}
''','''	if stmt.Name == "" {
		p.Printf("return\\t\\t")
	} else {
		p.Printf("%s\\t=\\t", stmt.Name)
	}
'''))
r('pr-operand',('acc/printer/printer.go','''	if op == 0 {
		p.Printf("1")
	} else {
		// Index literals are unsigned.
		p.Printf("[%d]", uint(op))
	}''','''	if op == 0 {
		p.Printf("1")
		return
	}
	// Index literals are unsigned.
	idx := uint(op)
	p.Printf("[%d]", idx)'''))
r('pr-add',('acc/printer/printer.go','''	p.expr(a.X, a.Precedence())
	p.Printf(" + ")
	p.expr(a.Y, a.Precedence()+1)''','''	prec := a.Precedence()
	p.expr(a.X, prec)
	p.Printf(" + ")
	p.expr(a.Y, prec+1)'''))
r('print-printf',('internal/print/printer.go','''	if p.pending {
		indent := strings.Repeat(p.indent, p.level)
		format = indent + format
		p.pending = false
	}
''','''	if p.pending {
		format = strings.Repeat(p.indent, p.level) + format
	}
	p.pending = false
'''))
r('alloc-lastread',('acc/pass/alloc.go','''	lastinputread := 0
	for _, inst := range p.Instructions {
		for _, input := range inst.Op.Inputs() {
			if input.Index == 0 {
				lastinputread = inst.Output.Index
			}
		}
	}
''','''	lastinputread := lastread(p, 0)
'''),('acc/pass/alloc.go','''type allocation struct''','''// lastread returns the output index of the last instruction that reads idx.
func lastread(p *ir.Program, idx int) int {
	last := 0
	for _, inst := range p.Instructions {
		for _, input := range inst.Op.Inputs() {
			if input.Index == idx {
				last = inst.Output.Index
			}
		}
	}
	return last
}

type allocation struct'''))
r('alloc-hasinput',('acc/pass/alloc.go','''		for _, input := range inst.Op.Inputs() {
			if input.Index == 0 {
				lastinputread = inst.Output.Index
			}
		}
''','''		if ir.HasInput(inst.Op, 0) {
			lastinputread = inst.Output.Index
		}
'''))
r('alloc-name-if',('acc/pass/alloc.go','''		_, ok := name[v]
		switch {
		// Operand index 0 is the input.
		case op.Index == 0:
			op.Identifier = a.Input
		// Use the output variable name after the last use of the input.
		case v == outv && op.Index >= lastinputread:
			op.Identifier = a.Output
		// Unnamed variable: allocate a temporary.
		case !ok:
			name[v] = fmt.Sprintf(a.Format, len(p.Temporaries))
			p.Temporaries = append(p.Temporaries, name[v])
			fallthrough
		default:
			op.Identifier = name[v]
		}
''','''		// Operand index 0 is the input.
		if op.Index == 0 {
			op.Identifier = a.Input
			continue
		}
		// Use the output variable name after the last use of the input.
		if v == outv && op.Index >= lastinputread {
			op.Identifier = a.Output
			continue
		}
		// Unnamed variable: allocate a temporary.
		if _, ok := name[v]; !ok {
			name[v] = fmt.Sprintf(a.Format, len(p.Temporaries))
			p.Temporaries = append(p.Temporaries, name[v])
		}
		op.Identifier = name[v]
'''))
r('alloc-allocate',('acc/pass/alloc.go','''	// If there's nothing available, we'll need another variable.
	if len(a.available) == 0 {
		a.available = append(a.available, a.n)
		a.n++
	}

	// Assign from the available list.
	last := len(a.available) - 1
	a.variable[i] = a.available[last]
	a.available = a.available[:last]
''','''	a.variable[i] = a.take()
'''),('acc/pass/alloc.go','''func (a *allocation) Variable(''','''// take a variable from the pool, or create a new one.
func (a *allocation) take() int {
	if n := len(a.available); n > 0 {
		v := a.available[n-1]
		a.available = a.available[:n-1]
		return v
	}
	v := a.n
	a.n++
	return v
}

func (a *allocation) Variable('''))
r('alloc-free-inline',('acc/pass/alloc.go','''		v := allocation.Variable(inst.Output.Index)
		allocation.Free(v)
''','''		allocation.Free(allocation.Variable(inst.Output.Index))
'''))
r('alloc-errs',('acc/pass/alloc.go','''	if err := Exec(p, Func(CanonicalizeOperands), Func(Indexes), Func(ClearNames)); err != nil {
		return err
	}
''','''	for _, f := range []Func{CanonicalizeOperands, Indexes, ClearNames} {
		if err := f(p); err != nil {
			return err
		}
	}
'''))
r('eval-shape',('acc/pass/eval.go','''		if err != nil {
			return err
		}
		if out != i.Output.Index {
			return errors.New("incorrect output index")
		}
''','''		switch {
		case err != nil:
			return err
		case out != i.Output.Index:
			return errors.New("incorrect output index")
		}
'''))
r('name-operands-flip',('acc/pass/naming.go','''			if operand.Identifier != "" {
				continue
			}

			// Fetch referenced value.
			idx := operand.Index
			if idx >= len(p.Chain) {
				return errutil.AssertionFailure("operand index %d out of bounds", idx)
			}
			x := p.Chain[idx]

			// Set name.
			operand.Identifier = name(idx, x)
''','''			if operand.Identifier == "" {
				// Fetch referenced value.
				idx := operand.Index
				if idx >= len(p.Chain) {
					return errutil.AssertionFailure("operand index %d out of bounds", idx)
				}

				// Set name.
				operand.Identifier = name(idx, p.Chain[idx])
			}
'''))
r('name-binary-flip',('acc/pass/naming.go','''		if x.BitLen() > k {
			return ""
		}
		return fmt.Sprintf(format, x)''','''		if x.BitLen() <= k {
			return fmt.Sprintf(format, x)
		}
		return ""'''))
r('canon-conflict',('acc/pass/pass.go','''			if existing == operand {
				continue
			}

			// They're different objects. Check for a name conflict.
			if existing.Identifier != "" && operand.Identifier != "" && existing.Identifier != operand.Identifier {
				return fmt.Errorf("identifier conflict: index %d named %q and %q", operand.Index, operand.Identifier, existing.Identifier)
			}

			if operand.Identifier != "" {
				existing.Identifier = operand.Identifier
			}
''','''			if existing == operand || operand.Identifier == "" {
				continue
			}

			// They're different objects. Check for a name conflict.
			if existing.Identifier != "" && existing.Identifier != operand.Identifier {
				return fmt.Errorf("identifier conflict: index %d named %q and %q", operand.Index, operand.Identifier, existing.Identifier)
			}

			existing.Identifier = operand.Identifier
'''))
r('indexes-local',('acc/pass/pass.go','''	for index := range p.Operands {
		p.Indexes = append(p.Indexes, index)
	}

	sort.Ints(p.Indexes)

	return nil''','''	indexes := make([]int, 0, len(p.Operands))
	for index := range p.Operands {
		indexes = append(indexes, index)
	}
	sort.Ints(indexes)
	p.Indexes = indexes

	return nil'''))
r('readcount-local',('acc/pass/pass.go','''	p.ReadCount = map[int]int{}
	for _, i := range p.Instructions {
		for _, input := range i.Op.Inputs() {
			p.ReadCount[input.Index]++
		}
	}
	return nil''','''	counts := map[int]int{}
	for _, inst := range p.Instructions {
		for _, input := range inst.Op.Inputs() {
			counts[input.Index]++
		}
	}
	p.ReadCount = counts
	return nil'''))
r('dangling-helper',('acc/pass/validation.go','''		for _, input := range i.Op.Inputs() {
			if !outputset[input.Index] {
				return fmt.Errorf("no output instruction for input index %d", input.Index)
			}
		}
		outputset''','''		if err := checkinputs(i.Op, outputset); err != nil {
			return err
		}
		outputset'''),('acc/pass/validation.go','''// CheckDanglingInputs''','''func checkinputs(op ir.Op, outputset map[int]bool) error {
	for _, input := range op.Inputs() {
		if !outputset[input.Index] {
			return fmt.Errorf("no output instruction for input index %d", input.Index)
		}
	}
	return nil
}

// CheckDanglingInputs'''))
r('dangling-set',('acc/pass/validation.go','''	outputset := map[int]bool{0: true}
''','''	outputset := map[int]struct{}{0: {}}
'''),('acc/pass/validation.go','''			if !outputset[input.Index] {''','''			if _, ok := outputset[input.Index]; !ok {'''),('acc/pass/validation.go','''		outputset[i.Output.Index] = true''','''		outputset[i.Output.Index] = struct{}{}'''))
r('interp-output',('acc/eval/interp.go','''	if x, ok := i.Load(operand.Identifier); ok {
		return x
	}
	x := new(big.Int)
	i.Store(operand.Identifier, x)
	return x''','''	x, ok := i.Load(operand.Identifier)
	if !ok {
		x = new(big.Int)
		i.Store(operand.Identifier, x)
	}
	return x'''))
r('interp-add',('acc/eval/interp.go','''		x, err := i.operands(op.X, op.Y)
		if err != nil {
			return err
		}
		output.Add(x[0], x[1])''','''		x, err := i.operand(op.X)
		if err != nil {
			return err
		}
		y, err := i.operand(op.Y)
		if err != nil {
			return err
		}
		output.Add(x, y)'''))
r('ir-output',('acc/ir/ir.go','''	last := len(p.Instructions) - 1
	return p.Instructions[last].Output''','''	return p.Instructions[len(p.Instructions)-1].Output'''))
r('ir-hasinput',('acc/ir/ir.go','''	for _, input := range op.Inputs() {
		if input.Index == idx {
			return true
		}
	}
	return false''','''	inputs := op.Inputs()
	found := false
	for i := 0; i < len(inputs) && !found; i++ {
		found = inputs[i].Index == idx
	}
	return found'''))
r('ast-isop',('acc/ast/ast.go','''	switch e.(type) {
	case Add, Shift, Double:
		return true
	}
	return false''','''	switch e.(type) {
	case Add, Shift, Double:
		return true
	default:
		return false
	}'''))
# calc
r('calc-operator-cond',('internal/calc/calc.go','''		if top.precedence < op.precedence || (top.precedence == op.precedence && op.associativity != leftassociative) {
			break
		}
		if err''','''		tighter := top.precedence > op.precedence
		same := top.precedence == op.precedence
		if !tighter && !(same && op.associativity == leftassociative) {
			break
		}
		if err'''))
r('calc-operator-helper',('internal/calc/calc.go','''		if top.precedence < op.precedence || (top.precedence == op.precedence && op.associativity != leftassociative) {
			break
		}
		if err''','''		if !binds(top, op) {
			break
		}
		if err'''),('internal/calc/calc.go','''func (y *yard) apply(''','''// binds reports whether the operator on the stack must be applied before op.
func binds(top, op operator) bool {
	if top.precedence == op.precedence {
		return op.associativity == leftassociative
	}
	return top.precedence > op.precedence
}

func (y *yard) apply('''))
r('calc-apply',('internal/calc/calc.go','''	z := op.apply(new(big.Int), y.operands[n-2], y.operands[n-1])
	if z == nil {
		return errors.New("division by zero")
	}
	y.operands = append(y.operands[:n-2], z)
''','''	lhs, rhs := y.operands[n-2], y.operands[n-1]
	y.operands = y.operands[:n-2]
	z := op.apply(new(big.Int), lhs, rhs)
	if z == nil {
		return errors.New("division by zero")
	}
	y.operand(z)
'''))
r('calc-result',('internal/calc/calc.go','''		if err := y.apply(y.pop()); err != nil {
			return nil, err
		}
	}
	if len(y.operands) != 1 {
		return nil, errors.New("wrong operand count")
	}
	return y.operands[0], nil''','''		op := y.pop()
		if err := y.apply(op); err != nil {
			return nil, err
		}
	}
	if len(y.operands) == 1 {
		return y.operands[0], nil
	}
	return nil, errors.New("wrong operand count")'''))
r('calc-pop',('internal/calc/calc.go','''	top := len(y.operators) - 1
	op := y.operators[top]
	y.operators = y.operators[:top]
	return op''','''	op := y.peek()
	y.operators = y.operators[:len(y.operators)-1]
	return op'''))
r('calc-eval-switch',('internal/calc/calc.go','''		// Expect an operator.
		op, ok := operators[b[0]]
		if !ok {
			return nil, errors.New("expected operator")
		}
		if err := y.operator(op); err != nil {
			return nil, err
		}
		b = b[1:]
		operand = true
	}''','''		// Expect an operator.
		c := b[0]
		if op, ok := operators[c]; !ok {
			return nil, errors.New("expected operator")
		} else if err := y.operator(op); err != nil {
			return nil, err
		}
		operand = true
		b = b[1:]
	}'''))
r('calc-number-digits',('internal/calc/calc.go','''	for ; i < len(b) && isdigit(b[i]); i++ {
	}
''','''	for i < len(b) {
		if !isdigit(b[i]) {
			break
		}
		i++
	}
'''))
r('calc-number-if',('internal/calc/calc.go','''	switch {
	case bytes.HasPrefix(b[i:], []byte("0b")):
		isdigit = isbinary
		i += 2
	case bytes.HasPrefix(b[i:], []byte("0x")):
		isdigit = ishex
		i += 2
	}
''','''	if bytes.HasPrefix(b[i:], []byte("0x")) {
		isdigit = ishex
		i += 2
	} else if bytes.HasPrefix(b[i:], []byte("0b")) {
		isdigit = isbinary
		i += 2
	}
'''))
r('calc-isbinary',('internal/calc/calc.go','''	return b == '0' || b == '1'
''','''	switch b {
	case '0', '1':
		return true
	}
	return false
'''))
r('calc-ishex',('internal/calc/calc.go','''	return isdecimal(b) || ('a' <= b && b <= 'f') || ('A' <= b && b <= 'F')''','''	switch {
	case b >= '0' && b <= '9':
		return true
	case b >= 'a' && b <= 'f':
		return true
	case b >= 'A' && b <= 'F':
		return true
	}
	return false'''))
r('calc-exp-func',('internal/calc/calc.go','''apply: func(z, x, y *big.Int) *big.Int { return z.Exp(x, y, nil) }},''','''apply: exp},'''),('internal/calc/calc.go','''// div''' if False else '''type yard struct {''','''func exp(z, x, y *big.Int) *big.Int {
	return z.Exp(x, y, nil)
}

type yard struct {'''))
# metavars
r('mv-get',('internal/metavars/metavars.go','''	for i := range f.Properties {
		p := &f.Properties[i]
		if p.Name == name {
			return p
		}
	}
	return nil''','''	for i := 0; i < len(f.Properties); i++ {
		if f.Properties[i].Name == name {
			return &f.Properties[i]
		}
	}
	return nil'''))
r('mv-Get',('internal/metavars/metavars.go','''	if p := f.get(name); p != nil {
		return p.Value, true
	}
	return "", false''','''	p := f.get(name)
	if p == nil {
		return "", false
	}
	return p.Value, true'''))
r('mv-set',('internal/metavars/metavars.go','''	if p := f.get(name); p != nil {
		p.Value = value
		return nil
	}
	return fmt.Errorf("unknown property %q", name)''','''	p := f.get(name)
	if p == nil {
		return fmt.Errorf("unknown property %q", name)
	}
	p.Value = value
	return nil'''))
r('mv-add',('internal/metavars/metavars.go','''	if q := f.get(p.Name); q != nil {''','''	if _, exists := f.Get(p.Name); exists {'''))
r('mv-write-helper',('internal/metavars/metavars.go','''		if prop.Doc != "" {
			p.Linef("// %s", prop.Doc)
		}
		p.Linef("%s = %q", prop.Name, prop.Value)
	}''','''		writeproperty(&p, prop)
	}'''),('internal/metavars/metavars.go','''// WriteFile''','''func writeproperty(p *print.Printer, prop Property) {
	if prop.Doc != "" {
		p.Linef("// %s", prop.Doc)
	}
	p.Linef("%s = %q", prop.Name, prop.Value)
}

// WriteFile'''))
r('mv-valuespec-lit',('internal/metavars/metavars.go','''	expr := v.Values[0]
	lit, ok := expr.(*ast.BasicLit)
	if !ok {
		b.seterrorf("expected basic literal")
		return
	}

	if lit.Kind != token.STRING {
		b.seterrorf("expected string literal")
		return
	}

	s, err := strconv.Unquote(lit.Value)
	if err != nil {
		b.seterrorf("parse string literal: %w", err)
		return
	}

	p.Value = s
''','''	lit, ok := v.Values[0].(*ast.BasicLit)
	if !ok {
		b.seterrorf("expected basic literal")
		return
	}

	if lit.Kind != token.STRING {
		b.seterrorf("expected string literal")
		return
	}

	var err error
	if p.Value, err = strconv.Unquote(lit.Value); err != nil {
		b.seterrorf("parse string literal: %w", err)
		return
	}
'''))
r('mv-doc-helper',('internal/metavars/metavars.go','''	if v.Doc != nil {
		const leader = "// "
		if len(v.Doc.List) != 1 {
			b.seterrorf("expect single line documentation")
			return
		}
		comment := v.Doc.List[0]
		if !strings.HasPrefix(comment.Text, leader) {
			b.seterrorf("expected documentation to have %q leader", leader)
			return
		}
		p.Doc = strings.TrimPrefix(comment.Text, leader)
	}
''','''	if v.Doc != nil {
		const leader = "// "
		if n := len(v.Doc.List); n != 1 {
			b.seterrorf("expect single line documentation")
			return
		}
		text := v.Doc.List[0].Text
		if !strings.HasPrefix(text, leader) {
			b.seterrorf("expected documentation to have %q leader", leader)
			return
		}
		p.Doc = text[len(leader):]
	}
'''))
r('mv-parse',('internal/metavars/metavars.go','''	b := &builder{f: &File{}}
	b.file(f)

	if b.err != nil {
		return nil, b.err
	}

	return b.f, nil''','''	var b builder
	b.f = &File{}
	b.file(f)
	if b.err == nil {
		return b.f, nil
	}
	return nil, b.err'''))
# gen / cmd
r('gen-prepare',('internal/gen/gen.go','''	if err := pass.Exec(p, pass.Validate, cfg.Allocator, pass.Func(pass.Eval)); err != nil {
		return nil, err
	}
''','''	passes := []pass.Interface{
		pass.Validate,
		cfg.Allocator,
		pass.Func(pass.Eval),
	}
	if err := pass.Exec(p, passes...); err != nil {
		return nil, err
	}
'''))
r('gen-generate',('internal/gen/gen.go','''	funcs := template.FuncMap{}
	for _, f := range Functions {
		funcs[f.Name] = f.Func
	}

	// Parse template.
	t, err := template.New("").Funcs(funcs).Parse(tmpl)
''','''	// Parse template.
	t, err := template.New("").Funcs(funcmap()).Parse(tmpl)
'''),('internal/gen/gen.go','''// Generate''','''func funcmap() template.FuncMap {
	funcs := template.FuncMap{}
	for _, f := range Functions {
		funcs[f.Name] = f.Func
	}
	return funcs
}

// Generate'''))
r('search-cost-helper',('cmd/addchain/search.go','''		cost := cmd.double*float64(doubles) + cmd.add*float64(adds)
''','''		cost := cmd.cost(doubles, adds)
'''),('cmd/addchain/search.go','''func (cmd *search) Debugf(''','''func (cmd *search) cost(doubles, adds int) float64 {
	return cmd.double*float64(doubles) + cmd.add*float64(adds)
}

func (cmd *search) Debugf('''))
r('search-best',('cmd/addchain/search.go','''		if cost < mincost {
			best = i
			mincost = cost
		}
''','''		if mincost > cost {
			mincost, best = cost, i
		}
'''))
r('search-output-helper',('cmd/addchain/search.go','''	p, err := acc.Decompile(b.Program)
	if err != nil {
		return cmd.Error(err)
	}

	syntax, err := acc.Build(p)
	if err != nil {
		return cmd.Error(err)
	}

	if err := printer.Print(syntax); err != nil {
		return cmd.Error(err)
	}

	return subcommands.ExitSuccess
}
''','''	if err := output(b.Program); err != nil {
		return cmd.Error(err)
	}

	return subcommands.ExitSuccess
}

// output prints the script for a program.
func output(prog addchain.Program) error {
	p, err := acc.Decompile(prog)
	if err != nil {
		return err
	}

	syntax, err := acc.Build(p)
	if err != nil {
		return err
	}

	return printer.Print(syntax)
}
'''),('cmd/addchain/search.go','''	"github.com/mmcloughlin/addchain/acc"
''','''	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc"
'''))
r('search-index',('cmd/addchain/search.go','''	for i, r := range rs {
		cmd.Debugf("algorithm: %s", r.Algorithm)
''','''	for i := range rs {
		r := rs[i]
		cmd.Debugf("algorithm: %s", r.Algorithm)
'''))
r('fmt-rebuild',('cmd/addchain/fmt.go','''	if cmd.build {
		r, err := acc.Translate(s)
		if err != nil {
			return cmd.Error(err)
		}

		s, err = acc.Build(r)
		if err != nil {
			return cmd.Error(err)
		}
	}
''','''	if cmd.build {
		s, err = rebuild(s)
		if err != nil {
			return cmd.Error(err)
		}
	}
'''),('cmd/addchain/fmt.go','''func (cmd *format) Execute''','''func rebuild(s *ast.Chain) (*ast.Chain, error) {
	p, err := acc.Translate(s)
	if err != nil {
		return nil, err
	}
	return acc.Build(p)
}

func (cmd *format) Execute'''),('cmd/addchain/fmt.go','''	"github.com/mmcloughlin/addchain/acc/parse"
''','''	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/parse"
'''))
r('eval-load',('cmd/addchain/eval.go','''	doubles, adds := p.Program.Count()
	fmt.Printf("total: %d\\tdoubles: \\t%d adds: %d\\n", doubles+adds, doubles, adds)
''','''	doubles, adds := p.Program.Count()
	total := doubles + adds
	fmt.Printf("total: %d\\tdoubles: \\t%d adds: %d\\n", total, doubles, adds)
'''))
r('loadtmpl',('cmd/addchain/gen.go','''	if cmd.tmpl != "" {
		b, err := os.ReadFile(cmd.tmpl)
		if err != nil {
			return "", err
		}
		return string(b), nil
	}

	// Lookup type name in builtin templates.
	if cmd.typ == "" {
		return "", errors.New("no builtin template specified")
	}

	s, err := gen.BuiltinTemplate(cmd.typ)
	if err != nil {
		return "", err
	}

	return s, nil''','''	switch {
	case cmd.tmpl != "":
		b, err := os.ReadFile(cmd.tmpl)
		if err != nil {
			return "", err
		}
		return string(b), nil
	case cmd.typ == "":
		return "", errors.New("no builtin template specified")
	}

	// Lookup type name in builtin templates.
	return gen.BuiltinTemplate(cmd.typ)'''))
r('accstring',('acc/acc.go','''	var buf bytes.Buffer
	if err := Write(&buf, p); err != nil {
		return "", err
	}
	return buf.String(), nil''','''	buf := new(bytes.Buffer)
	err := Write(buf, p)
	if err != nil {
		return "", err
	}
	return buf.String(), nil'''))
r('accwrite',('acc/acc.go','''	if err := printer.Fprint(w, s); err != nil {
		return err
	}

	return nil''','''	return printer.Fprint(w, s)'''))
r('parsecast',('acc/parse/parse.go','''	if err != nil {
		return nil, err
	}
	return i.(*ast.Chain), nil''','''	if err == nil {
		return i.(*ast.Chain), nil
	}
	return nil, err'''))
r('cli-close',('internal/cli/cmd.go','''	if err := cl.Close(); err != nil {
		*statusp = c.Error(err)
	}''','''	err := cl.Close()
	if err == nil {
		return
	}
	*statusp = c.Error(err)'''))
