SEEDS=[]
def add(id,prop,edits,pkg,demo,needs,breaks,flags=''):
    SEEDS.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,demo=demo,needs=needs,breaks=breaks,flags=flags))

add('C02-dup','C02',[('chain.go','''		for j := i + 1; j < len(c); j++ {
			if bigint''','''		for j := i + 1; j < len(c) && j <= i+2; j++ {
			if bigint''')],'','''
package addchain

import "testing"

func TestZZDemo(t *testing.T) {
	if Int64s(1, 2, 3, 4, 2).Validate() == nil {
		t.Fatal("duplicate accepted")
	}
}
''','a repeated value more than two positions apart','validation accepts chains with a repeated value')

add('C02-superset','C02',[('chain.go','if !bigints.Contains(target, c) {','if !bigints.ContainsSorted(target, c) {')],'','''
package addchain

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	if err := Int64s(1, 2, 4, 3).Superset([]*big.Int{big.NewInt(3)}); err != nil {
		t.Fatal(err)
	}
}
''','a valid chain that is not ascending','Superset rejects a chain that contains the targets')

add('C04-decompile','C04',[('acc/decompile.go','numreads[j] == 1 && p[j].I == j && p[j].J == j;','numreads[j] == 1 && p[j].I == j;')],'acc','''
package acc

import (
	"testing"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc/pass"
)

func TestZZDemo(t *testing.T) {
	p := addchain.Program{{I: 0, J: 0}, {I: 1, J: 0}}
	r, err := Decompile(p)
	if err != nil {
		t.Fatal(err)
	}
	if err := pass.Eval(r); err != nil {
		t.Fatal(err)
	}
	if r.Chain.End().Int64() != 3 {
		t.Fatal(r.Chain)
	}
}
''','an addition that lists its operands in descending order right after a doubling','an addition is folded into a shift')

add('C06-dangling','C06',[('acc/pass/validation.go','''		for _, input := range i.Op.Inputs() {
			if !outputset[input.Index] {
				return fmt.Errorf("no output instruction for input index %d", input.Index)
			}
		}
''','''		input := i.Op.Inputs()[0]
		if !outputset[input.Index] {
			return fmt.Errorf("no output instruction for input index %d", input.Index)
		}
''')],'internal/gen','''
package gen

import (
	"testing"

	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
)

func TestZZDemo(t *testing.T) {
	s, err := parse.String("a = 1 << 3\\nreturn a + [2] + 1\\n")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := PrepareData(Config{Allocator: pass.Allocator{Input: "x", Output: "z", Format: "t%d"}}, s); err == nil {
		t.Fatal("dangling read accepted")
	}
	s, _ = parse.String("a = 1 << 3\\nreturn 1 + [2]\\n")
	if _, err := PrepareData(Config{Allocator: pass.Allocator{Input: "x", Output: "z", Format: "t%d"}}, s); err == nil {
		t.Fatal("dangling read accepted")
	}
}
''','a script that reads the inside of a shift as second operand','the listing reads a temporary nothing wrote')

add('C06-shift1','C06',[('internal/gen/functions.go','if s, ok := op.(ir.Shift); ok {','if s, ok := op.(ir.Shift); ok && s.S > 1 {')],'internal/gen','''
package gen

import (
	"bytes"
	"strings"
	"testing"

	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
)

func TestZZDemo(t *testing.T) {
	s, err := parse.String("a = 1 + 1\\nreturn a << 1\\n")
	if err != nil {
		t.Fatal(err)
	}
	d, err := PrepareData(Config{Allocator: pass.Allocator{Input: "x", Output: "z", Format: "t%d"}}, s)
	if err != nil {
		t.Fatal(err)
	}
	tmpl, _ := BuiltinTemplate("listing")
	var b bytes.Buffer
	if err := Generate(&b, tmpl, d); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), "shift") {
		t.Fatal(b.String())
	}
}
''','a script with a shift by one','the listing omits the instruction')

add('C07-double','C07',[('acc/ast/ast.go','func (Double) Precedence() int { return 3 }','func (Double) Precedence() int { return HighestPrec }')],'acc/printer','''
package printer_test

import (
	"reflect"
	"testing"

	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/printer"
)

func TestZZDemo(t *testing.T) {
	c := &ast.Chain{Statements: []ast.Statement{{Expr: ast.Shift{X: ast.Double{X: ast.Operand(0)}, S: 3}}}}
	s, err := printer.String(c)
	if err != nil {
		t.Fatal(err)
	}
	d, err := parse.String(s)
	if err != nil || !reflect.DeepEqual(c, d) {
		t.Fatal(s, err, d)
	}
}
''','a double under a shift or a double','the printed script does not parse')

add('C08-merge','C08',[('alg/heuristic/heuristic.go','''	proto := bigints.Concat(leader, targets)
	bigints.Sort(proto)
	proto = bigints.Unique(proto)
''','''	proto := bigints.MergeUnique(leader, targets)
''')],'alg/heuristic','''
package heuristic

import (
	"testing"

	"github.com/mmcloughlin/addchain/internal/bigints"
)

func TestZZDemo(t *testing.T) {
	targets := bigints.Int64s(23, 7, 7, 19)
	a := NewAlgorithm(UseFirst(Halving{}, DeltaLargest{}))
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	c, err := a.FindSequence(bigints.Clone(targets))
	if err != nil {
		t.Fatal(err)
	}
	if err := c.Superset(targets); err != nil {
		t.Fatal(err)
	}
}
''','targets that are unsorted or repeated','the sequence is not a valid chain for the targets')

add('C12-race','C12',[('alg/exec/exec.go','''			rs[i] = Execute(n, a)
			p.logger.Printf("done: %s", a)
			<-sem
''','''			r := Execute(n, a)
			<-sem
			p.logger.Printf("done: %s", a)
			rs[i] = r
''')],'alg/exec','''
package exec

import (
	"io"
	"log"
	"math/big"
	"testing"
	"time"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg"
)

type one struct{}

func (one) String() string { return "one" }
func (one) FindChain(n *big.Int) (addchain.Chain, error) {
	return addchain.Int64s(1), nil
}

type slow struct{ io.Writer }

func (slow) Write(b []byte) (int, error) {
	time.Sleep(50 * time.Millisecond)
	return len(b), nil
}

func TestZZDemo(t *testing.T) {
	p := NewParallel()
	p.SetConcurrency(2)
	p.SetLogger(log.New(slow{}, "", 0))
	for i, r := range p.Execute(big.NewInt(1), []alg.ChainAlgorithm{one{}, one{}, one{}}) {
		if r.Algorithm == nil {
			t.Fatal("missing result", i)
		}
	}
}
''','the main goroutine takes the last token before a worker stores its result','Execute returns before all results are stored')

add('C12-limit','C12',[('alg/exec/exec.go','	p.limit = limit\n','	p.limit = limit + limit%2\n')],'alg/exec','''
package exec

import (
	"math/big"
	"sync/atomic"
	"testing"
	"time"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg"
)

var running, most int32

type counting struct{}

func (counting) String() string { return "counting" }
func (counting) FindChain(n *big.Int) (addchain.Chain, error) {
	if k := atomic.AddInt32(&running, 1); k > atomic.LoadInt32(&most) {
		atomic.StoreInt32(&most, k)
	}
	time.Sleep(20 * time.Millisecond)
	atomic.AddInt32(&running, -1)
	return addchain.Int64s(1), nil
}

func TestZZDemo(t *testing.T) {
	p := NewParallel()
	p.SetConcurrency(1)
	p.Execute(big.NewInt(1), []alg.ChainAlgorithm{counting{}, counting{}, counting{}, counting{}})
	if most > 1 {
		t.Fatal(most)
	}
}
''','an odd limit','more algorithms run at once than configured')

add('C14-cost','C14',[('cmd/addchain/search.go','		if cost < mincost {\n','		if cost < mincost && !(mincost-cost < 0.5) {\n')],'cmd/addchain','''
package main

import (
	"bytes"
	"math/big"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"testing"

	"github.com/mmcloughlin/addchain/alg/ensemble"
	algexec "github.com/mmcloughlin/addchain/alg/exec"
)

func TestZZDemo(t *testing.T) {
	bin := filepath.Join(t.TempDir(), "addchain")
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	for _, n := range []string{"1087", "382", "60000001", "1234567891011"} {
		x, _ := new(big.Int).SetString(n, 10)
		best := 1e18
		for _, r := range algexec.NewParallel().Execute(x, ensemble.Ensemble()) {
			d, a := r.Program.Count()
			if c := 0.1*float64(d) + 0.11*float64(a); c < best {
				best = c
			}
		}
		var e bytes.Buffer
		cmd := exec.Command(bin, "search", "-double", "0.1", "-add", "0.11", n)
		cmd.Stderr = &e
		if err := cmd.Run(); err != nil {
			t.Fatal(err)
		}
		m := regexp.MustCompile("cost: (.*)").FindStringSubmatch(e.String())
		if m == nil {
			t.Fatal(e.String())
		}
		if c, _ := strconv.ParseFloat(m[1], 64); c > best+1e-9 {
			t.Fatal(n, c, best)
		}
	}
}
''','fractional add or double costs','the printed script is not the cheapest found')

add('C16-last','C16',[('acc/build.go','	b.chain.Statements[len(b.chain.Statements)-1].Name = ""\n','''	if last := len(b.chain.Statements) - 1; last > 0 {
		b.chain.Statements[last].Name = ""
	}
''')],'acc','''
package acc

import (
	"testing"

	"github.com/mmcloughlin/addchain"
)

func TestZZDemo(t *testing.T) {
	p, err := Decompile(addchain.Program{{I: 0, J: 0}})
	if err != nil {
		t.Fatal(err)
	}
	c, err := Build(p)
	if err != nil {
		t.Fatal(err)
	}
	if n := c.Statements[len(c.Statements)-1].Name; n != "" {
		t.Fatal(n)
	}
}
''','a program that becomes a single statement','the final statement has a name, so the script does not parse')

add('C16-runs','C16',[('acc/pass/naming.go','if !bigint.Equal(x, bigint.Ones(n)) {','if n < 64 && !bigint.Equal(x, bigint.Ones(n)) || n >= 64 && x.Uint64() != bigint.Ones(n).Uint64() {')],'acc','''
package acc

import (
	"math/big"
	"strings"
	"testing"

	"github.com/mmcloughlin/addchain/alg/binary"
)

func TestZZDemo(t *testing.T) {
	n := new(big.Int).Lsh(big.NewInt(1), 70)
	n.Add(n, new(big.Int).SetUint64(1<<64-1))
	n.Lsh(n, 1)
	c, err := binary.RightToLeft{}.FindChain(n)
	if err != nil {
		t.Fatal(err)
	}
	_ = c
	// a chain through 2^70 + 2^64 - 1
	c, err = binary.RightToLeft{}.FindChain(new(big.Int).Rsh(n, 1))
	if err != nil {
		t.Fatal(err)
	}
	c.AppendClone(n)
	p, err := c.Program()
	if err != nil {
		t.Fatal(err)
	}
	r, err := Decompile(p)
	if err != nil {
		t.Fatal(err)
	}
	s, err := Build(r)
	if err != nil {
		t.Fatal(err)
	}
	for _, st := range s.Statements {
		if strings.HasPrefix(string(st.Name), "x71") {
			t.Fatal(st.Name)
		}
	}
}
''','a value above 64 bits whose low 64 bits are all ones','a value is named xN although it is not 2^N-1')

add('C17-free','C17',[('acc/pass/alloc.go','''	a.available = append(a.available, v)
}''','''	if len(a.available) < 16 {
		a.available = append(a.available, v)
	}
}''')],'acc/pass','''
package pass

import (
	"testing"

	"github.com/mmcloughlin/addchain/acc/ir"
)

func TestZZDemo(t *testing.T) {
	// Two blocks, each with 40 values alive at once.
	p := &ir.Program{}
	n := 0
	add := func(x, y int) {
		n++
		p.AddInstruction(&ir.Instruction{Output: ir.Index(n), Op: ir.Add{X: ir.Index(x), Y: ir.Index(y)}})
	}
	for b := 0; b < 2; b++ {
		base := n
		for i := 0; i < 40; i++ {
			add(0, n)
		}
		acc := n
		for i := 1; i < 40; i++ {
			add(base+i, acc)
			acc = n
		}
	}
	a := Allocator{Input: "x", Output: "z", Format: "t%d"}
	if err := a.Execute(p); err != nil {
		t.Fatal(err)
	}
	if len(p.Temporaries) > 41 {
		t.Fatal(len(p.Temporaries))
	}
}
''','more than sixteen temporaries free at once','temporaries are declared although free ones exist')

add('C18-plus','C18',[('chain.go','''	c := a.Clone()
	y := new(big.Int).Add(c.End(), x)
	return append(c, y)
''','''	y := new(big.Int).Add(a.End(), x)
	return append(a, y)
''')],'','''
package addchain

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	c := New()
	for i := 0; i < 4; i++ {
		c = append(c, new(big.Int).Lsh(c.End(), 1))
	}
	base := c[:3]
	p := Plus(base, big.NewInt(1))
	q := Plus(base, big.NewInt(2))
	if p.End().Int64() != 5 || q.End().Int64() != 6 || c[3].Int64() != 8 {
		t.Fatal(p, q, c)
	}
}
''','an argument slice with spare capacity','plus overwrites memory shared with its argument')

add('C19-insert','C19',[('internal/bigints/bigints.go','''	return MergeUnique([]*big.Int{x}, xs)
''','''	i := sort.Search(len(xs), func(i int) bool { return xs[i].Cmp(x) >= 0 })
	if i < len(xs) && bigint.Equal(xs[i], x) {
		return xs
	}
	xs = append(xs, x)
	copy(xs[i+1:], xs[i:])
	xs[i] = x
	return xs
''')],'internal/bigints','''
package bigints

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	all := Int64s(1, 5, 9, 12)
	xs := all[:3]
	ys := InsertSortedUnique(xs, big.NewInt(3))
	if len(ys) != 4 || ys[1].Int64() != 3 {
		t.Fatal(ys)
	}
	if xs[1].Int64() != 5 || all[3].Int64() != 12 {
		t.Fatal("argument modified", all)
	}
}
''','a list with spare capacity','sorted insertion modifies the list it is given')

add('C20-fold','C20',[('internal/metavars/metavars.go','if p.Name == name {','if strings.EqualFold(p.Name, name) {')],'internal/metavars','''
package metavars

import "testing"

func TestZZDemo(t *testing.T) {
	f := &File{Package: "p"}
	if err := f.Add(Property{Name: "version", Value: "1"}); err != nil {
		t.Fatal(err)
	}
	if err := f.Add(Property{Name: "Version", Value: "2"}); err != nil {
		t.Fatal(err)
	}
	if v, ok := f.Get("Version"); !ok || v != "2" {
		t.Fatal(v)
	}
}
''','two names that differ only in letter case','looking up a property returns another one')

add('C20-trim','C20',[('internal/metavars/metavars.go','	p.Value = s\n','	p.Value = strings.TrimSpace(s)\n')],'internal/metavars','''
package metavars

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	f := &File{Package: "p", Properties: []Property{{Name: "a", Value: " x\\n"}}}
	var b bytes.Buffer
	if err := Write(&b, f); err != nil {
		t.Fatal(err)
	}
	g, err := Read(&b)
	if err != nil {
		t.Fatal(err)
	}
	if g.Properties[0].Value != " x\\n" {
		t.Fatalf("%q", g.Properties[0].Value)
	}
}
''','a value with leading or trailing white space','values lose white space in a round trip')

add('C09-hybrid','C09',[('alg/dict/dict.go','(h.T == 0 || uint(s-i) < h.T)','(h.T == 0 || uint(s-i) < h.T || h.T <= h.K)')],'alg/dict','''
package dict

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	x := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 20), big.NewInt(1))
	for _, term := range (Hybrid{K: 4, T: 3}).Decompose(x) {
		if term.D.BitLen() > 4 {
			t.Fatal(term)
		}
	}
}
''','a run limit not above the window size','hybrid terms exceed the run limit')

add('C03-bounds','C03',[('program.go','	case i > n:\n','	case i > n+1:\n')],'acc','''
package acc

import "testing"

func TestZZDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if _, err := LoadString("return 1 + [1]\\n"); err == nil {
		t.Fatal("accepted")
	}
}
''','an index operand one past the last computed element','an element that is not computed yet is read')

