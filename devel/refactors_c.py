# Behaviour-preserving edits, third set: functions the first two left alone,
# and larger rewrites.
B='acc/build.go'; IR='acc/ir/ir.go'; T='acc/translate.go'; PA='acc/pass/pass.go'; PR='acc/printer/printer.go'; IN='acc/eval/interp.go'
R=[
('c-build-range',[(B,'''	complexity := 0
	for i := 0; i < n; i++ {
		complexity++
		inst := insts[i]
		out := inst.Output
''','''	complexity := 0
	for i, inst := range insts {
		complexity++
		out := inst.Output
''')]),
('c-build-usednext',[(B,'''		usednext := i+1 < n && ir.HasInput(insts[i+1].Op, out.Index)
''','''		last := i == n-1
		usednext := !last && ir.HasInput(insts[i+1].Op, out.Index)
''')]),
('c-build-commitif',[(B,'''		if anon && usedonce && usednext && complexity < complexitylimit {
			continue
		}

		// Otherwise write a statement for it.
		b.commit(inst.Output)
		complexity = 0
''','''		inline := anon && usedonce && usednext && complexity < complexitylimit
		if !inline {
			// Write a statement for it.
			b.commit(out)
			complexity = 0
		}
''')]),
('c-build-method',[(B,'''	anon := out.Identifier == ""
		usedonce := b.prog.ReadCount[out.Index] == 1
		usednext := i+1 < n && ir.HasInput(insts[i+1].Op, out.Index)
		if anon && usedonce && usednext && complexity < complexitylimit {
			continue
		}
''','''	if complexity < complexitylimit && b.inlinable(i) {
			continue
		}
'''),(B,'''func (b *builder) operator(op ir.Op)''','''// inlinable reports whether instruction i needs no statement of its own.
func (b *builder) inlinable(i int) bool {
	insts := b.prog.Instructions
	out := insts[i].Output
	if out.Identifier != "" || b.prog.ReadCount[out.Index] != 1 {
		return false
	}
	return i+1 < len(insts) && ir.HasInput(insts[i+1].Op, out.Index)
}

func (b *builder) operator(op ir.Op)''')]),
('c-build-return',[(B,'''	case ir.Double:
		return ast.Double{
			X: b.operand(o.X),
		}, nil
''','''	case ir.Double:
		x := b.operand(o.X)
		return ast.Double{X: x}, nil
''')]),
('c-build-new',[(B,'''	return &builder{
		chain: &ast.Chain{},
		prog:  p,
		expr:  map[int]ast.Expr{},
	}
''','''	b := new(builder)
	b.prog = p
	b.chain = new(ast.Chain)
	b.expr = make(map[int]ast.Expr)
	return b
''')]),
('c-ir-output',[(IR,'''	last := len(p.Instructions) - 1
	return p.Instructions[last].Output
''','''	n := len(p.Instructions)
	return p.Instructions[n-1].Output
''')]),
('c-ir-clone',[(IR,'''	c := &Program{}
	for _, inst := range p.Instructions {
		c.Instructions = append(c.Instructions, inst.Clone())
	}
	return c
''','''	var c Program
	for i := range p.Instructions {
		c.AddInstruction(p.Instructions[i].Clone())
	}
	return &c
''')]),
('c-ir-newoperand',[(IR,'''	return NewOperand("", i)
''','''	return &Operand{Index: i}
''')]),
('c-ir-opclone',[(IR,'''	clone := o
	return &clone
''','''	return NewOperand(o.Identifier, o.Index)
''')]),
('c-ir-operands',[(IR,'''	return append(i.Op.Inputs(), i.Output)
''','''	operands := i.Op.Inputs()
	operands = append(operands, i.Output)
	return operands
''')]),
('c-ir-inputs',[(IR,'''	return []*Operand{a.X, a.Y}
''','''	inputs := make([]*Operand, 2)
	inputs[0], inputs[1] = a.X, a.Y
	return inputs
''')]),
('c-ir-shiftclone',[(IR,'''	return Shift{
		X: s.X.Clone(),
		S: s.S,
	}
''','''	c := s
	c.X = s.X.Clone()
	return c
''')]),
('c-ir-hasinput-idx',[(IR,'''	for _, input := range op.Inputs() {
		if input.Index == idx {
			return true
		}
	}
	return false
''','''	inputs := op.Inputs()
	for i := 0; i < len(inputs); i++ {
		if inputs[i].Index == idx {
			return true
		}
	}
	return false
''')]),
('c-ir-hasinput-found',[(IR,'''	for _, input := range op.Inputs() {
		if input.Index == idx {
			return true
		}
	}
	return false
''','''	found := false
	for _, input := range op.Inputs() {
		if input.Index == idx {
			found = true
			break
		}
	}
	return found
''')]),
('c-tr-statement',[(T,'''	if err := s.define(stmt.Name, out); err != nil {
		return err
	}
	return nil
}
''','''	return s.define(stmt.Name, out)
}
''')]),
('c-tr-operand',[(T,'''		return &ir.Operand{Index: int(e)}, nil
''','''		return ir.Index(int(e)), nil
''')]),
('c-tr-emit',[(T,'''	out := ir.Index(s.n)
	inst := &ir.Instruction{
		Output: out,
		Op:     ir.Add{X: x, Y: y},
	}
	s.prog.AddInstruction(inst)
	s.n++

	return out, nil
''','''	return s.emit(ir.Add{X: x, Y: y}), nil
'''),(T,'''	out := ir.Index(s.n)
	inst := &ir.Instruction{
		Output: out,
		Op:     ir.Double{X: x},
	}
	s.prog.AddInstruction(inst)
	s.n++

	return out, nil
}
''','''	return s.emit(ir.Double{X: x}), nil
}

// emit appends an instruction producing the next index.
func (s *state) emit(op ir.Op) *ir.Operand {
	out := ir.Index(s.n)
	s.n++
	s.prog.AddInstruction(&ir.Instruction{Output: out, Op: op})
	return out
}
''')]),
('c-tr-minmax',[(T,'''	if x.Index > y.Index {
		x, y = y, x
	}

	out := ir.Index(s.n)
	inst := &ir.Instruction{
		Output: out,
		Op:     ir.Add{X: x, Y: y},
	}
''','''	op := ir.Add{X: x, Y: y}
	if y.Index < x.Index {
		op = ir.Add{X: y, Y: x}
	}

	out := ir.Index(s.n)
	inst := &ir.Instruction{
		Output: out,
		Op:     op,
	}
''')]),
('c-tr-shiftidx',[(T,'''	s.n += int(sh.S)
	out := ir.Index(s.n - 1)
''','''	last := s.n + int(sh.S) - 1
	out := ir.Index(last)
	s.n = last + 1
''')]),
('c-pass-concat',[(PA,'''	return Func(func(p *ir.Program) error {
		for _, pass := range passes {
			if err := pass.Execute(p); err != nil {
				return err
			}
		}
		return nil
	})
''','''	run := func(p *ir.Program) error {
		for i := range passes {
			err := passes[i].Execute(p)
			if err != nil {
				return err
			}
		}
		return nil
	}
	return Func(run)
''')]),
('c-pass-canon-continue',[(PA,'''			existing, found := p.Operands[operand.Index]
			if !found {
				p.Operands[operand.Index] = operand
				continue
			}

			if existing == operand {
				continue
			}
''','''			existing, found := p.Operands[operand.Index]
			switch {
			case !found:
				p.Operands[operand.Index] = operand
				continue
			case existing == operand:
				continue
			}
''')]),
('c-pass-canon-helper',[(PA,'''			// They're different objects. Check for a name conflict.
			if existing.Identifier != "" && operand.Identifier != "" && existing.Identifier != operand.Identifier {
				return fmt.Errorf("identifier conflict: index %d named %q and %q", operand.Index, operand.Identifier, existing.Identifier)
			}

			if operand.Identifier != "" {
				existing.Identifier = operand.Identifier
			}
''','''			// They're different objects.
			if err := merge(existing, operand); err != nil {
				return err
			}
'''),(PA,'''// Indexes computes the sorted''','''// merge the name of operand into existing, checking for a name conflict.
func merge(existing, operand *ir.Operand) error {
	if operand.Identifier == "" {
		return nil
	}
	if existing.Identifier != "" && existing.Identifier != operand.Identifier {
		return fmt.Errorf("identifier conflict: index %d named %q and %q", operand.Index, operand.Identifier, existing.Identifier)
	}
	existing.Identifier = operand.Identifier
	return nil
}

// Indexes computes the sorted''')]),
('c-pass-canon-second',[(PA,'''		case ir.Double:
			i.Op = ir.Double{
				X: p.Operands[op.X.Index],
			}
		case ir.Shift:
			i.Op = ir.Shift{
				X: p.Operands[op.X.Index],
				S: op.S,
			}
''','''		case ir.Double:
			op.X = p.Operands[op.X.Index]
			i.Op = op
		case ir.Shift:
			op.X = p.Operands[op.X.Index]
			i.Op = op
''')]),
('c-pass-indexes-cap',[(PA,'''	for index := range p.Operands {
		p.Indexes = append(p.Indexes, index)
	}

	sort.Ints(p.Indexes)
''','''	indexes := make([]int, 0, len(p.Operands))
	for index := range p.Operands {
		indexes = append(indexes, index)
	}
	sort.Ints(indexes)
	p.Indexes = indexes
''')]),
('c-pass-reads',[(PA,'''	p.ReadCount = map[int]int{}
	for _, i := range p.Instructions {
		for _, input := range i.Op.Inputs() {
			p.ReadCount[input.Index]++
		}
	}
	return nil
''','''	counts := make(map[int]int)
	for _, inst := range p.Instructions {
		inputs := inst.Op.Inputs()
		for _, input := range inputs {
			counts[input.Index] += 1
		}
	}
	p.ReadCount = counts
	return nil
''')]),
('c-pr-stmt',[(PR,'''	if len(stmt.Name) > 0 {
		p.Printf("%s\\t=\\t", stmt.Name)
	} else {
		p.Printf("return\\t\\t")
	}
''','''	if stmt.Name == "" {
		p.Printf("return\\t\\t")
	} else {
		p.Printf("%s\\t=\\t", stmt.Name)
	}
''')]),
('c-pr-expr-else',[(PR,'''	if e.Precedence() < prec {
		p.Printf("(")
		p.expr(e, ast.LowestPrec)
		p.Printf(")")
		return
	}

	switch''','''	if prec > e.Precedence() {
		p.parens(e)
		return
	}

	switch'''),(PR,'''func (p *printer) add(a ast.Add) {''','''// parens prints e in parentheses.
func (p *printer) parens(e ast.Expr) {
	p.Printf("(")
	p.expr(e, ast.LowestPrec)
	p.Printf(")")
}

func (p *printer) add(a ast.Add) {''')]),
('c-pr-add',[(PR,'''	p.expr(a.X, a.Precedence())
	p.Printf(" + ")
	p.expr(a.Y, a.Precedence()+1)
''','''	prec := a.Precedence()
	p.expr(a.X, prec)
	p.Printf(" + ")
	p.expr(a.Y, prec+1)
''')]),
('c-pr-operand',[(PR,'''	if op == 0 {
		p.Printf("1")
	} else {
		// Index literals are unsigned.
		p.Printf("[%d]", uint(op))
	}
''','''	if op == 0 {
		p.Printf("1")
		return
	}
	// Index literals are unsigned.
	idx := uint(op)
	p.Printf("[%d]", idx)
''')]),
('c-pr-operand-switch',[(PR,'''	if op == 0 {
		p.Printf("1")
	} else {
''','''	switch op {
	case 0:
		p.Printf("1")
	default:
''')]),
('c-pr-bytes',[(PR,'''	var buf bytes.Buffer
	if err := Fprint(&buf, n); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
''','''	buf := new(bytes.Buffer)
	err := Fprint(buf, n)
	if err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
''')]),
('c-pr-node',[(PR,'''		for _, stmt := range n.Statements {
			p.statement(stmt)
		}
''','''		for i := range n.Statements {
			p.statement(n.Statements[i])
		}
''')]),
('c-in-operands',[(IN,'''	xs := make([]*big.Int, 0, len(operands))
	for _, operand := range operands {
		x, err := i.operand(operand)
		if err != nil {
			return nil, err
		}
		xs = append(xs, x)
	}
	return xs, nil
''','''	xs := make([]*big.Int, len(operands))
	for k, operand := range operands {
		x, err := i.operand(operand)
		if err != nil {
			return nil, err
		}
		xs[k] = x
	}
	return xs, nil
''')]),
('c-in-add2',[(IN,'''		x, err := i.operands(op.X, op.Y)
		if err != nil {
			return err
		}
		output.Add(x[0], x[1])
''','''		x, err := i.operand(op.X)
		if err != nil {
			return err
		}
		y, err := i.operand(op.Y)
		if err != nil {
			return err
		}
		output.Add(x, y)
''')]),
('c-in-output',[(IN,'''	if x, ok := i.Load(operand.Identifier); ok {
		return x
	}
	x := new(big.Int)
	i.Store(operand.Identifier, x)
	return x
''','''	x, ok := i.Load(operand.Identifier)
	if !ok {
		x = new(big.Int)
		i.Store(operand.Identifier, x)
	}
	return x
''')]),
('c-in-exec',[(IN,'''	for _, inst := range p.Instructions {
		if err := i.instruction(inst); err != nil {
			return err
		}
	}
	return nil
''','''	for n := 0; n < len(p.Instructions); n++ {
		err := i.instruction(p.Instructions[n])
		if err != nil {
			return err
		}
	}
	return nil
''')]),
('c-in-double',[(IN,'''		output.Add(x, x)
''','''		output.Lsh(x, 1)
''')]),
('c-in-init',[(IN,'''	if _, ok := i.Load(v); ok {
		return fmt.Errorf("variable %q is already defined", v)
	}
	i.Store(v, x)
	return nil
''','''	_, defined := i.Load(v)
	if defined {
		return fmt.Errorf("variable %q is already defined", v)
	}
	i.Store(v, x)
	return nil
''')]),
]
