SEEDS=[]
def add(id,prop,edits,pkg,demo,needs,breaks,flags=''):
    SEEDS.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,demo=demo,needs=needs,breaks=breaks,flags=flags))

add('C08-repeat','C08',[('alg/heuristic/heuristic.go','''	proto := bigints.Concat(leader, targets)
	bigints.Sort(proto)
	proto = bigints.Unique(proto)
''','''	proto := bigints.Clone(targets)
	bigints.Sort(proto)
	proto = bigints.MergeUnique(leader, proto)
''')],'alg/heuristic','''
package heuristic

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for n := int64(3); n < 40; n++ {
		targets := []*big.Int{big.NewInt(n), big.NewInt(n), big.NewInt(n + 5)}
		c, err := NewAlgorithm(UseFirst(Halving{}, DeltaLargest{})).FindSequence(targets)
		if err != nil {
			t.Fatal(err)
		}
		if err := c.Validate(); err != nil {
			t.Fatal(n, c, err)
		}
		if err := c.Superset(targets); err != nil {
			t.Fatal(n, c, err)
		}
	}
}
''','targets with repeats','the sequence has a zero in it')

add('C10-order','C10',[('alg/opt/opt.go','		pruned = append(pruned, x)','		pruned = bigints.InsertSortedUnique(pruned, x)'),
('alg/opt/opt.go','''	"github.com/mmcloughlin/addchain/alg"
''','''	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/internal/bigints"
''')],'alg/opt','''
package opt

import (
	"testing"

	"github.com/mmcloughlin/addchain"
)

func TestZZDemo(t *testing.T) {
	c, err := Optimize(addchain.Int64s(1, 2, 4, 8, 3))
	if err != nil {
		t.Fatal(err)
	}
	if c.End().Int64() != 3 {
		t.Fatal(c)
	}
}
''','a chain that is not ascending and whose last element is not the largest that stays','the last element changes')

add('C11-reset','C11',[('alg/dict/runs.go','''		for ; s[lb] < la; s[lb]++ {
			shift := new(big.Int).Lsh(rb, s[lb]+1)
			c = append(c, shift)
		}''','''		for i := s[lb]; i < la; i++ {
			c = append(c, new(big.Int).Lsh(rb, i+1))
		}
		s[lb] = la''')],'alg/dict','''
package dict

import (
	"testing"

	"github.com/mmcloughlin/addchain"
)

func TestZZDemo(t *testing.T) {
	c, err := RunsChain(addchain.Int64s(1, 2, 4, 5, 10, 15, 11, 14))
	if err != nil {
		t.Fatal(err)
	}
	if err := c.Validate(); err != nil {
		t.Fatal(err)
	}
}
''','a chain of lengths that is not ascending, with one larger operand combined with a large, a small and a medium length in that order','the derived chain repeats values')

add('C13-skip','C13',[('internal/calc/calc.go',"	return b == ' '","	return b == ' ' || b == '_'")],'internal/calc','''
package calc

import "testing"

func TestZZDemo(t *testing.T) {
	if x, err := Eval("1 + _2"); err == nil {
		t.Fatal(x)
	}
}
''','an underscore between an operator and its operand','a malformed expression has a value')

add('C15-prefix','C15',[('internal/calc/calc.go','''	case bytes.HasPrefix(b[i:], []byte("0b")):''','''	case len(b) > 1 && b[i] == '0' && b[i+1] == 'b':''')],'internal/calc','''
package calc

import "testing"

func TestZZDemo(t *testing.T) {
	if x, err := Eval("-0"); err == nil && x.Sign() != 0 {
		t.Fatal(x)
	}
}
''','an expression that ends in a negative zero','evaluation panics')

add('C18-shift','C18',[('program.go','''		next, err := p.Double(i)
		if err != nil {
			return 0, err
		}
		i = next
	}
	return i, nil''','''		*p = append(*p, Op{i, i})
		i = len(*p)
	}
	return i, p.boundscheck(i)''')],'','''
package addchain

import "testing"

func TestZZDemo(t *testing.T) {
	p := Program{}
	if _, err := p.Shift(3, 2); err == nil {
		t.Fatal(p)
	}
	if len(p) != 0 {
		t.Fatal(p)
	}
}
''','a shift of an index that is out of bounds','an invalid operation is appended without an error')

add('C19-words','C19',[('internal/bigint/bigint.go','for IsNonZero(z) {','for z.Sign() > 0 || len(words) == 0 {')],'internal/bigint','''
package bigint

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	if w := Uint64s(big.NewInt(0)); len(w) != 0 {
		t.Fatal(w)
	}
}
''','the value zero','the word list of zero has an element')

add('C05-shiftread','C05',[('acc/pass/alloc.go','''	for _, inst := range p.Instructions {
		for _, input := range inst.Op.Inputs() {
			if input.Index == 0 {
				lastinputread = inst.Output.Index
			}
		}
	}
''','''	for _, inst := range p.Instructions {
		if _, ok := inst.Op.(ir.Shift); ok {
			continue
		}
		for _, input := range inst.Op.Inputs() {
			if input.Index == 0 {
				lastinputread = inst.Output.Index
			}
		}
	}
''')],'acc/pass','''
package pass

import (
	"math/big"
	"testing"

	"github.com/mmcloughlin/addchain/acc/eval"
	"github.com/mmcloughlin/addchain/acc/ir"
)

func TestZZDemo(t *testing.T) {
	p := &ir.Program{Instructions: []*ir.Instruction{
		{Output: ir.Index(1), Op: ir.Double{X: ir.Index(0)}},
		{Output: ir.Index(3), Op: ir.Shift{X: ir.Index(0), S: 2}},
		{Output: ir.Index(4), Op: ir.Add{X: ir.Index(1), Y: ir.Index(3)}},
	}}
	for _, output := range []string{"z", "x"} {
		a := Allocator{Input: "x", Output: output, Format: "t%d"}
		if err := a.Execute(p); err != nil {
			t.Fatal(err)
		}
		i := eval.NewInterpreter()
		x := big.NewInt(1)
		i.Store("x", x)
		i.Store(output, x)
		if err := i.Execute(p); err != nil {
			t.Fatal(err)
		}
		if z, _ := i.Load(output); z.Int64() != 6 {
			t.Fatal(output, z)
		}
		p.Temporaries = nil
	}
}
''','a shift is the last instruction that reads the input, output aliased to input','the input is overwritten before it is read')

