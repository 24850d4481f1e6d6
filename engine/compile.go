package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Loader holds the SSA form of the harness, the code under test and all of
// their dependencies, built from the current source on every run.
type Loader struct {
	prog    *ssa.Program
	harness *ssa.Package
	pkgs    map[string]*ssa.Package
	mu      sync.Mutex
	msets   map[types.Type]*types.MethodSet
}

const repoPath = "github.com/ilius/go-table"

func Load(dir, pattern string) (*Loader, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ()}
	initial, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	var msgs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			msgs = append(msgs, p.PkgPath+": "+e.Error())
		}
	})
	if len(msgs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(msgs, "; "))
	}
	prog, pk := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	ld := &Loader{prog: prog, harness: pk[0], pkgs: map[string]*ssa.Package{}, msets: map[types.Type]*types.MethodSet{}}
	for _, p := range prog.AllPackages() {
		ld.pkgs[p.Pkg.Path()] = p
	}
	return ld, nil
}

func pkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if p := fn.Parent(); p != nil {
		return pkgPath(p)
	}
	return ""
}

func isRepo(path string) bool { return path == repoPath || strings.HasPrefix(path, repoPath+"/") }

func isOurs(path string) bool {
	return isRepo(path) || strings.HasPrefix(path, "github.com/ilius/") || strings.HasPrefix(path, "verif/harness")
}

// ---- compiled functions ----

type opnd struct {
	r int
	v Value
}

type opc uint8

const (
	iBinOp opc = iota
	iUnOp
	iLoad
	iStore
	iCall
	iDefer
	iGo
	iRet
	iJump
	iIf
	iPanic
	iRunDefers
	iAlloc
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iLookup
	iMapUpdate
	iMakeSlice
	iMakeMap
	iMakeChan
	iMakeClosure
	iMakeIface
	iChangeIface
	iChangeType
	iConvert
	iTypeAssert
	iExtract
	iSlice
	iRange
	iNext
	iSliceToArr
	iNop
	iUnsup
)

type CInstr struct {
	op   opc
	tok  token.Token
	dst  int
	a    opnd
	b    opnd
	c    opnd
	d    opnd
	args []opnd
	t    types.Type // result or element type
	t2   types.Type
	n    int
	m    int
	flag bool
	w    uint8
	sg   bool
	call *ssa.CallCommon
	fn   *ssa.Function
	ins  ssa.Instruction
}

type cphi struct {
	dst   int
	edges []opnd
}

type CBlk struct {
	phis []cphi
	ins  []CInstr
	succ [2]int
	pred []int
	reg  *region
	regX bool // region analysis done
}

type CFn struct {
	fn     *ssa.Function
	name   string
	nregs  int
	params []int
	free   []int
	blks   []*CBlk
	ipdom  []int
	recov  int
	ours   bool
	path   string
	merge  bool // result types can merge
	calls  int
}

func (e *Engine) cfn(fn *ssa.Function) *CFn {
	if c := e.cfns[fn]; c != nil {
		return c
	}
	c := e.compile(fn)
	e.cfns[fn] = c
	return c
}

func mergeableType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsBoolean|types.IsInteger|types.IsString) != 0
	case *types.Array:
		return u.Len() <= 16 && mergeableType(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !mergeableType(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if !mergeableType(u.At(i).Type()) {
				return false
			}
		}
		return u.Len() > 0
	}
	return false
}

func (e *Engine) compile(fn *ssa.Function) *CFn {
	if fn.Blocks == nil {
		panic(unsupported("function without Go body: " + fn.String()))
	}
	c := &CFn{fn: fn, name: fn.String(), recov: -1, path: pkgPath(fn)}
	c.ours = isRepo(c.path)
	c.merge = mergeableType(fn.Signature.Results())
	reg := map[ssa.Value]int{}
	nr := func(v ssa.Value) int {
		r := c.nregs
		c.nregs++
		reg[v] = r
		return r
	}
	for _, p := range fn.Params {
		c.params = append(c.params, nr(p))
	}
	for _, p := range fn.FreeVars {
		c.free = append(c.free, nr(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				nr(v)
			}
		}
	}
	op := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{r: -1}
		}
		if r, ok := reg[v]; ok {
			return opnd{r: r}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{r: -1, v: e.constVal(x)}
		case *ssa.Global:
			return opnd{r: -1, v: Ptr{obj: e.global(x)}}
		case *ssa.Function:
			return opnd{r: -1, v: &Closure{fn: x}}
		case *ssa.Builtin:
			return opnd{r: -1, v: &Closure{bi: x}}
		}
		panic(unsupported(fmt.Sprintf("operand %T", v)))
	}
	for _, b := range fn.Blocks {
		cb := &CBlk{succ: [2]int{-1, -1}}
		for i, s := range b.Succs {
			if i < 2 {
				cb.succ[i] = s.Index
			}
		}
		for _, p := range b.Preds {
			cb.pred = append(cb.pred, p.Index)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				cp := cphi{dst: reg[ph]}
				for _, x := range ph.Edges {
					cp.edges = append(cp.edges, op(x))
				}
				cb.phis = append(cb.phis, cp)
				continue
			}
			ci := CInstr{dst: -1, ins: in}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = reg[v]
			}
			e.compInstr(&ci, in, op)
			if ci.op == iNop {
				continue
			}
			cb.ins = append(cb.ins, ci)
		}
		c.blks = append(c.blks, cb)
	}
	if fn.Recover != nil {
		c.recov = fn.Recover.Index
	}
	return c
}

func (e *Engine) compInstr(ci *CInstr, in ssa.Instruction, op func(ssa.Value) opnd) {
	switch x := in.(type) {
	case *ssa.DebugRef:
		ci.op = iNop
	case *ssa.BinOp:
		ci.op, ci.tok, ci.a, ci.b = iBinOp, x.Op, op(x.X), op(x.Y)
		ci.t = x.X.Type()
		ci.w, ci.sg, ci.flag = scalarType(x.X.Type())
		if x.Op == token.SHL || x.Op == token.SHR {
			ci.t2 = x.Y.Type()
		}
	case *ssa.UnOp:
		ci.a = op(x.X)
		ci.tok = x.Op
		ci.t = x.Type()
		if x.Op == token.MUL {
			ci.op = iLoad
			ci.flag = isAgg(x.Type())
		} else {
			ci.op = iUnOp
			ci.w, ci.sg, _ = scalarType(x.X.Type())
		}
	case *ssa.Store:
		ci.op, ci.a, ci.b, ci.t = iStore, op(x.Addr), op(x.Val), x.Val.Type()
	case *ssa.Call:
		ci.op = iCall
		e.compCall(ci, &x.Call, op)
	case *ssa.Defer:
		ci.op = iDefer
		e.compCall(ci, &x.Call, op)
	case *ssa.Go:
		ci.op = iGo
		e.compCall(ci, &x.Call, op)
	case *ssa.Return:
		ci.op = iRet
		for _, r := range x.Results {
			ci.args = append(ci.args, op(r))
		}
	case *ssa.Jump:
		ci.op = iJump
	case *ssa.If:
		ci.op, ci.a = iIf, op(x.Cond)
	case *ssa.Panic:
		ci.op, ci.a = iPanic, op(x.X)
	case *ssa.RunDefers:
		ci.op = iRunDefers
	case *ssa.Alloc:
		ci.op = iAlloc
		ci.t = x.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.FieldAddr:
		ci.op, ci.a = iFieldAddr, op(x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		ci.n = e.fieldOff(st, x.Field)
	case *ssa.Field:
		ci.op, ci.a = iField, op(x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		ci.n = e.fieldOff(st, x.Field)
		ci.t = x.Type()
		ci.m = e.flatSize(x.Type())
	case *ssa.IndexAddr:
		ci.op, ci.a, ci.b = iIndexAddr, op(x.X), op(x.Index)
		ci.w, ci.sg, _ = scalarType(x.Index.Type())
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			ci.n = -1
			ci.m = e.flatSize(u.Elem())
		case *types.Pointer:
			arr := u.Elem().Underlying().(*types.Array)
			ci.n = int(arr.Len())
			ci.m = e.flatSize(arr.Elem())
		}
	case *ssa.Index:
		ci.op, ci.a, ci.b = iIndex, op(x.X), op(x.Index)
		ci.w, ci.sg, _ = scalarType(x.Index.Type())
		ci.t = x.Type()
		if arr, ok := x.X.Type().Underlying().(*types.Array); ok {
			ci.n = int(arr.Len())
			ci.m = e.flatSize(arr.Elem())
		} else {
			ci.n = -1
		}
	case *ssa.Lookup:
		ci.op, ci.a, ci.b, ci.flag = iLookup, op(x.X), op(x.Index), x.CommaOk
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			ci.t = mt.Elem()
		} else {
			ci.n = -1 // string
			ci.w, ci.sg, _ = scalarType(x.Index.Type())
		}
	case *ssa.MapUpdate:
		ci.op, ci.a, ci.b, ci.c = iMapUpdate, op(x.Map), op(x.Key), op(x.Value)
	case *ssa.MakeSlice:
		ci.op, ci.a, ci.b = iMakeSlice, op(x.Len), op(x.Cap)
		ci.t = x.Type().Underlying().(*types.Slice).Elem()
		ci.m = e.flatSize(ci.t)
		ci.w, ci.sg, _ = scalarType(x.Len.Type())
	case *ssa.MakeMap:
		ci.op = iMakeMap
		mt := x.Type().Underlying().(*types.Map)
		ci.t, ci.t2 = mt.Key(), mt.Elem()
	case *ssa.MakeChan:
		ci.op = iMakeChan
	case *ssa.MakeClosure:
		ci.op = iMakeClosure
		ci.fn = x.Fn.(*ssa.Function)
		for _, b := range x.Bindings {
			ci.args = append(ci.args, op(b))
		}
	case *ssa.MakeInterface:
		ci.op, ci.a, ci.t = iMakeIface, op(x.X), x.X.Type()
	case *ssa.ChangeInterface:
		ci.op, ci.a = iChangeIface, op(x.X)
	case *ssa.ChangeType:
		ci.op, ci.a = iChangeType, op(x.X)
	case *ssa.Convert:
		ci.op, ci.a, ci.t, ci.t2 = iConvert, op(x.X), x.Type(), x.X.Type()
	case *ssa.MultiConvert:
		ci.op, ci.a, ci.t, ci.t2 = iConvert, op(x.X), x.Type(), x.X.Type()
	case *ssa.TypeAssert:
		ci.op, ci.a, ci.t, ci.flag = iTypeAssert, op(x.X), x.AssertedType, x.CommaOk
	case *ssa.Extract:
		ci.op, ci.a, ci.n = iExtract, op(x.Tuple), x.Index
	case *ssa.Slice:
		ci.op, ci.a, ci.b, ci.c, ci.d = iSlice, op(x.X), op(x.Low), op(x.High), op(x.Max)
		ci.t = x.X.Type()
		ci.flag = x.Low != nil
		ci.n, ci.m = 0, 0
		if x.High != nil {
			ci.n = 1
		}
		if x.Max != nil {
			ci.m = 1
		}
	case *ssa.Range:
		ci.op, ci.a, ci.t = iRange, op(x.X), x.X.Type()
	case *ssa.Next:
		ci.op, ci.a, ci.flag = iNext, op(x.Iter), x.IsString
		ci.t = x.Type()
	case *ssa.SliceToArrayPointer:
		ci.op, ci.a = iSliceToArr, op(x.X)
		arr := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		ci.n = int(arr.Len())
	default:
		ci.op = iUnsup
	}
}

func (e *Engine) compCall(ci *CInstr, c *ssa.CallCommon, op func(ssa.Value) opnd) {
	ci.call = c
	if c.IsInvoke() {
		ci.a = op(c.Value)
	} else if f := c.StaticCallee(); f != nil {
		ci.fn = f
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			ci.a = op(mc)
		} else {
			ci.a = opnd{r: -1, v: &Closure{fn: f}}
		}
	} else {
		ci.a = op(c.Value)
	}
	for _, a := range c.Args {
		ci.args = append(ci.args, op(a))
	}
}

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		// type parameter or interface
		if _, isI := t.Underlying().(*types.Interface); isI {
			return Iface{}
		}
		panic(unsupported("constant of type " + t.String()))
	}
	if w, _ := widthOfBasic(b.Kind()); w != 255 {
		if w == 0 {
			return e.tc.Bool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return e.tc.Const(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return e.tc.Const(w, u)
	}
	switch {
	case b.Info()&types.IsString != 0:
		return cs(constant.StringVal(c.Value))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	}
	return &Opaque{kind: "const"}
}

func (e *Engine) global(g *ssa.Global) *Object {
	if o := e.globs[g]; o != nil {
		return o
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	var cells []Value
	if e.flatSize(t) < 1<<22 {
		cells = e.zeroCells(t, nil)
	}
	o := &Object{cells: cells, name: g.String(), glob: true}
	e.nextGlob--
	o.id = e.nextGlob
	e.globs[g] = o
	if g.Pkg != nil && !isOurs(g.Pkg.Pkg.Path()) && g.Name() != "init$guard" {
		e.lazyInit(g.Pkg)
	}
	return o
}

// lazyInit runs the initialiser of a library package the first time one of its
// variables is used.
func (e *Engine) lazyInit(p *ssa.Package) {
	if e.inited[p] {
		return
	}
	e.inited[p] = true
	if noInit[p.Pkg.Path()] {
		return
	}
	if f := p.Func("init"); f != nil {
		if err := e.runConcrete(f); err != "" {
			e.initErr[p.Pkg.Path()] = err
		}
	}
}

var noInit = map[string]bool{"runtime": true, "os": true, "fmt": true, "reflect": true, "regexp": true, "regexp/syntax": true, "syscall": true, "time": true, "internal/poll": true, "sync": true, "internal/bytealg": true, "internal/cpu": true, "math/rand": true}

// runConcrete runs a function outside of any path; its effects are permanent.
func (e *Engine) runConcrete(f *ssa.Function, args ...Value) (errs string) {
	frames, im, mm, ml, cf, ns, ret := e.frames, e.instrMark, e.mergeMark, e.mergeLvl, e.cfMode, e.noSolver, e.retVal
	reads, mreads, race, steps := e.reads, e.mreads, e.race, e.steps
	e.mergeMark, e.mergeLvl, e.cfMode, e.noSolver, e.reads, e.mreads, e.race = 0, 0, 0, 0, nil, nil, nil
	e.noTrail++
	tl := len(e.trail)
	e.steps = 0
	defer func() {
		e.noTrail--
		if len(e.trail) > tl {
			e.trail = e.trail[:tl]
		}
		e.frames, e.instrMark, e.mergeMark, e.mergeLvl, e.cfMode, e.noSolver, e.retVal = frames, im, mm, ml, cf, ns, ret
		e.reads, e.mreads, e.race, e.steps = reads, mreads, race, steps
	}()
	fr := e.newFrame(f, args, nil)
	fr.base = true
	e.frames = []*Frame{fr}
	ev := e.run()
	if ev.kind != "ret" {
		return fmt.Sprintf("%s: %s %s %s", f, ev.kind, ev.end.kind, ev.end.msg)
	}
	return ""
}

// ipdoms: immediate postdominators (-1 = none/exit).
func (c *CFn) postdoms() []int {
	if c.ipdom != nil {
		return c.ipdom
	}
	n := len(c.blks)
	// iterative set-based computation on small functions
	full := make([]map[int]bool, n)
	exit := n
	succs := func(i int) []int {
		var s []int
		for _, x := range c.blks[i].succ {
			if x >= 0 {
				s = append(s, x)
			}
		}
		if len(s) == 0 {
			s = []int{exit}
		}
		return s
	}
	all := map[int]bool{exit: true}
	for i := 0; i < n; i++ {
		all[i] = true
	}
	get := func(i int) map[int]bool {
		if i == exit {
			return map[int]bool{exit: true}
		}
		if full[i] == nil {
			return all
		}
		return full[i]
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			var s map[int]bool
			for k, x := range succs(i) {
				g := get(x)
				if k == 0 {
					s = map[int]bool{}
					for y := range g {
						s[y] = true
					}
				} else {
					for y := range s {
						if !g[y] {
							delete(s, y)
						}
					}
				}
			}
			s[i] = true
			if full[i] == nil || len(full[i]) != len(s) {
				full[i] = s
				changed = true
			}
		}
	}
	c.ipdom = make([]int, n)
	for i := 0; i < n; i++ {
		c.ipdom[i] = -1
		// the strict postdominator that is postdominated by all the others
		for x := range full[i] {
			if x == i || x == exit {
				continue
			}
			if len(full[x]) == len(full[i])-1 {
				c.ipdom[i] = x
			}
		}
	}
	return c.ipdom
}
