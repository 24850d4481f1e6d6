package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrFn func(e *Engine, args []Value) Value

// intrinsic returns the built-in model of a function, or nil.
func (e *Engine) intrinsic(fn *ssa.Function) intrFn {
	if e.intrX[fn] {
		return e.intr[fn]
	}
	e.intrX[fn] = true
	var in intrFn
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f, ok := intrTable[name]; ok {
		in = f
	} else if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Pkg != nil && fn.Synthetic != "" && !isOurs(pkgPath(fn)) {
		in = func(e *Engine, args []Value) Value { return nil } // library packages initialise lazily
	} else if fn.Name() == "visualWidth" && pkgPath(fn) == repoPath && fn.Signature.Recv() == nil {
		if fn.Signature.Params().Len() == 1 && fn.Signature.Results().Len() == 1 {
			in = e.ropeWidthFn(fn)
		}
	} else if fn.Blocks == nil {
		panic(unsupported("function without Go body: " + name))
	}
	if in != nil && strings.HasPrefix(name, "verif/harness/v.") {
		inner := in
		in = func(e *Engine, args []Value) Value {
			if e.mergeLvl > 0 || e.cfMode > 0 {
				panic(mergeAbort{"harness primitive"})
			}
			return inner(e, args)
		}
	}
	e.intr[fn] = in
	return in
}

// str returns a concrete Go string argument.
func (e *Engine) cstrArg(v Value) string {
	s := e.force(v.(*Str))
	if s.isConc() {
		return s.c
	}
	buf := make([]byte, len(s.b))
	for i, x := range s.b {
		buf[i] = byte(e.concretize(x.t, "text"))
	}
	return string(buf)
}

func (e *Engine) k64(v int) *Term { return e.tc.Const(64, uint64(v)) }

var intrTable map[string]intrFn

func init() {
	intrTable = map[string]intrFn{
		// ---- strings ----
		"strings.Repeat": func(e *Engine, a []Value) Value {
			s, n := a[0].(*Str), a[1].(*Term)
			if e.truth(e.tc.Slt(n, e.k64(0))) {
				panic(goPanicReq{v: Iface{t: types.Typ[types.String], v: cs("strings: negative Repeat count")}, msg: "strings: negative Repeat count"})
			}
			if v, ok := e.constOf(n); ok {
				if int64(v) > 1<<22 {
					panic(unsupported("very long text"))
				}
				if s.isConc() {
					return cs(strings.Repeat(s.c, int(v)))
				}
				r := emptyStr
				for i := uint64(0); i < v; i++ {
					r = e.concat(r, s)
				}
				return r
			}
			if s.isConc() {
				if s.c == "" {
					return emptyStr
				}
				return e.normRope([]StrPart{{rep: s.c, cnt: n}})
			}
			v := e.concretize(n, "repeat count")
			r := emptyStr
			for i := uint64(0); i < v; i++ {
				r = e.concat(r, s)
			}
			return r
		},
		"strings.Join": func(e *Engine, a []Value) Value {
			l, sep := a[0].(Slice), a[1].(*Str)
			r := emptyStr
			if l.len > 0 {
				e.noteRead(l.obj)
			}
			for i := 0; i < l.len; i++ {
				if i > 0 {
					r = e.concat(r, sep)
				}
				r = e.concat(r, l.obj.cells[l.off+i].(*Str))
			}
			return r
		},
		"strings.ToLower":   func(e *Engine, a []Value) Value { return e.mapCase(a[0].(*Str), false) },
		"strings.ToUpper":   func(e *Engine, a []Value) Value { return e.mapCase(a[0].(*Str), true) },
		"strings.HasPrefix": func(e *Engine, a []Value) Value { return e.hasPrefix(a[0].(*Str), a[1].(*Str)) },
		"strings.HasSuffix": func(e *Engine, a []Value) Value { return e.hasSuffix(a[0].(*Str), a[1].(*Str)) },
		"strings.Clone":     func(e *Engine, a []Value) Value { return a[0] },
		"strings.EqualFold": func(e *Engine, a []Value) Value {
			return e.strEq(e.mapCase(a[0].(*Str), false), e.mapCase(a[1].(*Str), false))
		},
		"strings.IndexByte":     func(e *Engine, a []Value) Value { return e.indexByte(a[0].(*Str), a[1].(*Term), false) },
		"strings.LastIndexByte": func(e *Engine, a []Value) Value { return e.indexByte(a[0].(*Str), a[1].(*Term), true) },
		"strings.Index":         func(e *Engine, a []Value) Value { return e.indexStr(a[0].(*Str), a[1].(*Str)) },
		"strings.Contains": func(e *Engine, a []Value) Value {
			return e.tc.Not(e.tc.Eq(e.indexStr(a[0].(*Str), a[1].(*Str)).(*Term), e.tc.Const(64, ^uint64(0))))
		},
		"internal/bytealg.IndexByteString":     func(e *Engine, a []Value) Value { return e.indexByte(a[0].(*Str), a[1].(*Term), false) },
		"internal/bytealg.IndexByte":           func(e *Engine, a []Value) Value { return e.indexByte(e.bytesToStr(a[0].(Slice)), a[1].(*Term), false) },
		"internal/bytealg.LastIndexByteString": func(e *Engine, a []Value) Value { return e.indexByte(a[0].(*Str), a[1].(*Term), true) },
		"internal/bytealg.IndexString":         func(e *Engine, a []Value) Value { return e.indexStr(a[0].(*Str), a[1].(*Str)) },
		"internal/bytealg.CountString":         func(e *Engine, a []Value) Value { return e.countByte(a[0].(*Str), a[1].(*Term)) },
		"internal/bytealg.Count":               func(e *Engine, a []Value) Value { return e.countByte(e.bytesToStr(a[0].(Slice)), a[1].(*Term)) },
		"internal/bytealg.Equal": func(e *Engine, a []Value) Value {
			return e.strEq(e.bytesToStr(a[0].(Slice)), e.bytesToStr(a[1].(Slice)))
		},
		"bytes.Equal": func(e *Engine, a []Value) Value {
			return e.strEq(e.bytesToStr(a[0].(Slice)), e.bytesToStr(a[1].(Slice)))
		},
		"internal/bytealg.MakeNoZero": func(e *Engine, a []Value) Value {
			n := int(e.concretize(a[0].(*Term), "length"))
			return e.newSlice(types.Typ[types.Byte], n, n)
		},
		"internal/bytealg.Compare": func(e *Engine, a []Value) Value {
			x, y := e.bytesToStr(a[0].(Slice)), e.bytesToStr(a[1].(Slice))
			return e.tc.Ite(e.strLess(x, y), e.tc.Const(64, ^uint64(0)), e.tc.Ite(e.strEq(x, y), e.k64(0), e.k64(1)))
		},
		"internal/bytealg.CompareString": func(e *Engine, a []Value) Value {
			x, y := a[0].(*Str), a[1].(*Str)
			return e.tc.Ite(e.strLess(x, y), e.tc.Const(64, ^uint64(0)), e.tc.Ite(e.strEq(x, y), e.k64(0), e.k64(1)))
		},
		"internal/stringslite.HasPrefix": func(e *Engine, a []Value) Value { return e.hasPrefix(a[0].(*Str), a[1].(*Str)) },
		"internal/stringslite.HasSuffix": func(e *Engine, a []Value) Value { return e.hasSuffix(a[0].(*Str), a[1].(*Str)) },
		"internal/stringslite.Index":     func(e *Engine, a []Value) Value { return e.indexStr(a[0].(*Str), a[1].(*Str)) },
		"internal/stringslite.IndexByte": func(e *Engine, a []Value) Value { return e.indexByte(a[0].(*Str), a[1].(*Term), false) },
		"internal/stringslite.Clone":     func(e *Engine, a []Value) Value { return a[0] },

		// ---- strings.Builder, bytes.Buffer ----
		"(*strings.Builder).WriteString": func(e *Engine, a []Value) Value {
			s := a[1].(*Str)
			e.bufAppend(a[0].(Ptr), 1, s)
			return Tuple{e.strLen(s), Iface{}}
		},
		"(*strings.Builder).WriteByte": func(e *Engine, a []Value) Value {
			e.bufAppend(a[0].(Ptr), 1, e.mkBytes([]SB{{t: a[1].(*Term)}}))
			return Iface{}
		},
		"(*strings.Builder).WriteRune": func(e *Engine, a []Value) Value {
			s := e.convert(a[1], types.Typ[types.Int32], types.Typ[types.String]).(*Str)
			e.bufAppend(a[0].(Ptr), 1, s)
			return Tuple{e.strLen(s), Iface{}}
		},
		"(*strings.Builder).Write": func(e *Engine, a []Value) Value {
			s := e.bytesToStr(a[1].(Slice))
			e.bufAppend(a[0].(Ptr), 1, s)
			return Tuple{e.strLen(s), Iface{}}
		},
		"(*strings.Builder).String": func(e *Engine, a []Value) Value { return e.bufGet(a[0].(Ptr), 1) },
		"(*strings.Builder).Len":    func(e *Engine, a []Value) Value { return e.strLen(e.bufGet(a[0].(Ptr), 1)) },
		"(*strings.Builder).Cap":    func(e *Engine, a []Value) Value { return e.strLen(e.bufGet(a[0].(Ptr), 1)) },
		"(*strings.Builder).Grow": func(e *Engine, a []Value) Value {
			if e.truth(e.tc.Slt(a[1].(*Term), e.k64(0))) {
				panic(goPanicReq{v: Iface{t: types.Typ[types.String], v: cs("strings.Builder.Grow: negative count")}, msg: "negative Grow"})
			}
			return nil
		},
		"(*strings.Builder).Reset": func(e *Engine, a []Value) Value { e.bufSet(a[0].(Ptr), 1, emptyStr); return nil },
		"(*bytes.Buffer).WriteString": func(e *Engine, a []Value) Value {
			s := a[1].(*Str)
			e.bufAppend(a[0].(Ptr), 0, s)
			return Tuple{e.strLen(s), Iface{}}
		},
		"(*bytes.Buffer).Write": func(e *Engine, a []Value) Value {
			s := e.bytesToStr(a[1].(Slice))
			e.bufAppend(a[0].(Ptr), 0, s)
			return Tuple{e.strLen(s), Iface{}}
		},
		"(*bytes.Buffer).WriteByte": func(e *Engine, a []Value) Value {
			e.bufAppend(a[0].(Ptr), 0, e.mkBytes([]SB{{t: a[1].(*Term)}}))
			return Iface{}
		},
		"(*bytes.Buffer).WriteRune": func(e *Engine, a []Value) Value {
			s := e.convert(a[1], types.Typ[types.Int32], types.Typ[types.String]).(*Str)
			e.bufAppend(a[0].(Ptr), 0, s)
			return Tuple{e.strLen(s), Iface{}}
		},
		"(*bytes.Buffer).String": func(e *Engine, a []Value) Value { return e.bufGet(a[0].(Ptr), 0) },
		"(*bytes.Buffer).Bytes":  func(e *Engine, a []Value) Value { return e.bytesOf(e.bufGet(a[0].(Ptr), 0)) },
		"(*bytes.Buffer).Len":    func(e *Engine, a []Value) Value { return e.strLen(e.bufGet(a[0].(Ptr), 0)) },
		"(*bytes.Buffer).Reset":  func(e *Engine, a []Value) Value { e.bufSet(a[0].(Ptr), 0, emptyStr); return nil },
		"(*bytes.Buffer).Grow":   func(e *Engine, a []Value) Value { return nil },
		"(*bytes.Buffer).WriteTo": func(e *Engine, a []Value) Value {
			s := e.bufGet(a[0].(Ptr), 0)
			p := a[0].(Ptr)
			return e.writeTo(a[1].(Iface), s, func(e *Engine, v Value) Value {
				e.bufSet(p, 0, emptyStr)
				return v
			})
		},

		// ---- utf8 ----
		"unicode/utf8.DecodeRuneInString":     func(e *Engine, a []Value) Value { return e.decodeFirst(a[0].(*Str)) },
		"unicode/utf8.DecodeRune":             func(e *Engine, a []Value) Value { return e.decodeFirst(e.bytesToStr(a[0].(Slice))) },
		"unicode/utf8.DecodeLastRuneInString": func(e *Engine, a []Value) Value { return e.decodeLast(a[0].(*Str)) },
		"unicode/utf8.RuneCountInString":      func(e *Engine, a []Value) Value { return e.runeCount(a[0].(*Str)) },
		"unicode/utf8.RuneCount":              func(e *Engine, a []Value) Value { return e.runeCount(e.bytesToStr(a[0].(Slice))) },
		"unicode/utf8.RuneLen": func(e *Engine, a []Value) Value {
			r := a[0].(*Term)
			if !e.validRune(r) {
				return e.tc.Const(64, ^uint64(0))
			}
			return e.runeLen(r)
		},
		"unicode/utf8.ValidString": func(e *Engine, a []Value) Value {
			s := a[0].(*Str)
			if s.isConc() {
				return e.tc.Bool(utf8.ValidString(s.c))
			}
			for _, it := range e.items(s) {
				if it.n.isConst() && it.n.c == 1 && it.r.isConst() && it.r.c == utf8.RuneError {
					return e.tc.F
				}
			}
			return e.tc.T
		},
		"unicode/utf8.AppendRune": func(e *Engine, a []Value) Value {
			s := e.convert(a[1], types.Typ[types.Int32], types.Typ[types.String]).(*Str)
			return e.appendSlice(a[0].(Slice), e.bytesOf(e.force(s)))
		},
		"unicode/utf8.EncodeRune": func(e *Engine, a []Value) Value {
			s := e.force(e.convert(a[1], types.Typ[types.Int32], types.Typ[types.String]).(*Str))
			d := a[0].(Slice)
			n := s.fixedLen()
			if d.len < n {
				panic(e.rtPanic("index out of range"))
			}
			for i := 0; i < n; i++ {
				e.setCell(d.obj, d.off+i, e.byteAt(s, i).t)
			}
			return e.k64(n)
		},

		// ---- fmt, errors ----
		"fmt.Fprintln": func(e *Engine, a []Value) Value { return e.writeTo(a[0].(Iface), e.sprint(a[1].(Slice), true), nil) },
		"fmt.Fprint":   func(e *Engine, a []Value) Value { return e.writeTo(a[0].(Iface), e.sprint(a[1].(Slice), false), nil) },
		"fmt.Fprintf": func(e *Engine, a []Value) Value {
			return e.writeTo(a[0].(Iface), e.sprintf(e.cstrArg(a[1]), a[2].(Slice)), nil)
		},
		"fmt.Sprintln": func(e *Engine, a []Value) Value { return e.sprint(a[0].(Slice), true) },
		"fmt.Sprint":   func(e *Engine, a []Value) Value { return e.sprint(a[0].(Slice), false) },
		"fmt.Sprintf":  func(e *Engine, a []Value) Value { return e.sprintf(e.cstrArg(a[0]), a[1].(Slice)) },
		"fmt.Errorf": func(e *Engine, a []Value) Value {
			f := e.cstrArg(a[0])
			args := a[1].(Slice)
			s := e.sprintf(f, args)
			if strings.Contains(f, "%w") {
				for i := 0; i < args.len; i++ {
					x := args.obj.cells[args.off+i].(Iface)
					if x.t != nil && types.Implements(x.t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
						if t := e.namedType("fmt", "wrapError"); t != nil {
							o := e.alloc([]Value{s, x}, "wrapError")
							return Iface{t: types.NewPointer(t), v: Ptr{obj: o}}
						}
					}
				}
			}
			return e.newError(s)
		},
		"errors.New": func(e *Engine, a []Value) Value { return e.newError(a[0].(*Str)) },
		"errors.Is": func(e *Engine, a []Value) Value {
			x, y := a[0].(Iface), a[1].(Iface)
			for k := 0; k < 8; k++ {
				if x.t == nil {
					return e.tc.Bool(y.t == nil)
				}
				if types.Comparable(x.t) && y.t != nil && e.truth(e.eqValue(x, y)) {
					return e.tc.T
				}
				if p, ok := x.v.(Ptr); ok && p.obj != nil && p.obj.name == "wrapError" {
					x = p.obj.cells[1].(Iface)
					continue
				}
				return e.tc.F
			}
			return e.tc.F
		},
		"io.WriteString": func(e *Engine, a []Value) Value {
			return e.writeTo(a[0].(Iface), a[1].(*Str), nil)
		},

		// ---- environment ----
		"os.Getenv": func(e *Engine, a []Value) Value {
			if s := e.env[e.cstrArg(a[0])]; s != nil {
				return s
			}
			return emptyStr
		},
		"os.LookupEnv": func(e *Engine, a []Value) Value {
			if s := e.env[e.cstrArg(a[0])]; s != nil {
				return Tuple{s, e.tc.T}
			}
			return Tuple{emptyStr, e.tc.F}
		},
		"os.Setenv":   func(e *Engine, a []Value) Value { e.setEnv(e.cstrArg(a[0]), a[1].(*Str)); return Iface{} },
		"os.Unsetenv": func(e *Engine, a []Value) Value { e.setEnv(e.cstrArg(a[0]), nil); return Iface{} },

		// ---- runtime, sync ----
		"runtime.KeepAlive":       func(e *Engine, a []Value) Value { return nil },
		"runtime.GC":              func(e *Engine, a []Value) Value { return nil },
		"(*sync.Mutex).Lock":      func(e *Engine, a []Value) Value { e.lockEv(a[0].(Ptr), "lock"); return nil },
		"(*sync.Mutex).Unlock":    func(e *Engine, a []Value) Value { e.lockEv(a[0].(Ptr), "unlock"); return nil },
		"(*sync.Mutex).TryLock":   func(e *Engine, a []Value) Value { e.lockEv(a[0].(Ptr), "lock"); return e.tc.T },
		"(*sync.RWMutex).Lock":    func(e *Engine, a []Value) Value { e.lockEv(a[0].(Ptr), "lock"); return nil },
		"(*sync.RWMutex).Unlock":  func(e *Engine, a []Value) Value { e.lockEv(a[0].(Ptr), "unlock"); return nil },
		"(*sync.RWMutex).RLock":   func(e *Engine, a []Value) Value { e.lockEv(a[0].(Ptr), "rlock"); return nil },
		"(*sync.RWMutex).RUnlock": func(e *Engine, a []Value) Value { e.lockEv(a[0].(Ptr), "runlock"); return nil },
		"(*sync.Pool).Put":        func(e *Engine, a []Value) Value { return nil },
		"(*sync.Pool).Get": func(e *Engine, a []Value) Value {
			p := a[0].(Ptr)
			cl, _ := p.obj.cells[len(p.obj.cells)-1].(*Closure)
			if cl == nil {
				return Iface{}
			}
			return &tailCall{fn: cl.fn, free: cl.free}
		},
		"(*sync.Map).Load": func(e *Engine, a []Value) Value {
			m := e.syncMap(a[0].(Ptr))
			e.lockEv(a[0].(Ptr), "lock")
			defer e.lockEv(a[0].(Ptr), "unlock")
			anyT := types.Universe.Lookup("any").Type()
			if en := e.mapFind(m, a[1]); en != nil {
				return Tuple{en.val, e.tc.T}
			}
			return Tuple{e.zero(anyT), e.tc.F}
		},
		"(*sync.Map).Store": func(e *Engine, a []Value) Value {
			m := e.syncMap(a[0].(Ptr))
			e.lockEv(a[0].(Ptr), "lock")
			e.mapUpdate(m, a[1], a[2])
			e.lockEv(a[0].(Ptr), "unlock")
			return nil
		},
		"(*sync.Map).Delete": func(e *Engine, a []Value) Value {
			m := e.syncMap(a[0].(Ptr))
			e.lockEv(a[0].(Ptr), "lock")
			e.mapDelete(m, a[1])
			e.lockEv(a[0].(Ptr), "unlock")
			return nil
		},
		"(*sync.Map).LoadOrStore": func(e *Engine, a []Value) Value {
			m := e.syncMap(a[0].(Ptr))
			e.lockEv(a[0].(Ptr), "lock")
			defer e.lockEv(a[0].(Ptr), "unlock")
			if en := e.mapFind(m, a[1]); en != nil {
				return Tuple{en.val, e.tc.T}
			}
			e.mapUpdate(m, a[1], a[2])
			return Tuple{a[2], e.tc.F}
		},

		// ---- harness primitives ----
		"verif/harness/v.Int": func(e *Engine, a []Value) Value {
			lo, hi := int64(a[1].(*Term).c), int64(a[2].(*Term).c)
			if e.job.Narrow && uint64(hi-lo) > 64 {
				lo = max(lo, -2)
				hi = min(hi, max(lo, 0)+24)
			}
			return e.inInt(e.cstrArg(a[0]), lo, hi)
		},
		"verif/harness/v.U16": func(e *Engine, a []Value) Value {
			lo, hi := a[1].(*Term).c, a[2].(*Term).c
			if e.job.Narrow && hi-lo > 64 {
				hi = lo + 10
			}
			nm := e.inName(e.cstrArg(a[0]))
			t := e.tc.Var(fmt.Sprintf("%s|u16|%d|%d", nm, lo, hi), 16, lo, hi)
			e.addInput(Input{name: nm, kind: "int", t: t})
			if lo == hi {
				return e.tc.Const(16, lo)
			}
			return t
		},
		"verif/harness/v.Bool": func(e *Engine, a []Value) Value {
			nm := e.inName(e.cstrArg(a[0]))
			t := e.tc.Var(nm+"|b", 0, 0, 1)
			e.addInput(Input{name: nm, kind: "int", t: t})
			return t
		},
		"verif/harness/v.Choose": func(e *Engine, a []Value) Value {
			n := a[1].(*Term).c
			raw := e.cstrArg(a[0])
			nm := fmt.Sprintf("%s#%d", raw, e.inNames[raw])
			t := e.tc.Var(fmt.Sprintf("%s|c|%d", nm, n), 16, 0, n-1)
			v := e.concretize(t, "choice")
			e.inName(raw)
			e.addInput(Input{name: nm, kind: "int", t: e.tc.Const(64, v)})
			return e.tc.Const(64, v)
		},
		"verif/harness/v.Rune": func(e *Engine, a []Value) Value {
			return e.inRune(e.cstrArg(a[0]), a[1].(*Term).c, a[2].(*Term).c)
		},
		"verif/harness/v.RuneStr": func(e *Engine, a []Value) Value { return e.runeStr(a[0].(*Term)) },
		"verif/harness/v.Bytes": func(e *Engine, a []Value) Value {
			nm := e.inName(e.cstrArg(a[0]))
			n := int(a[1].(*Term).c)
			bs := make([]SB, n)
			for i := range bs {
				bs[i] = SB{t: e.tc.Var(fmt.Sprintf("%s[%d]|y", nm, i), 8, 0, 255)}
			}
			s := e.mkBytes(bs)
			e.addInput(Input{name: nm, kind: "str", s: s})
			return s
		},
		"verif/harness/v.BytesIn": func(e *Engine, a []Value) Value {
			nm := e.inName(e.cstrArg(a[0]))
			n := int(a[1].(*Term).c)
			al := e.cstrArg(a[2])
			bs := make([]SB, n)
			for i := range bs {
				x := e.tc.Var(fmt.Sprintf("%s[%d]|a%s", nm, i, hexOf(al)), 8, uint64(minByte(al)), uint64(maxByte(al)))
				cond := e.tc.F
				for k := 0; k < len(al); k++ {
					cond = e.tc.Or(cond, e.tc.Eq(x, e.tc.Const(8, uint64(al[k]))))
				}
				e.assume(cond, true)
				e.fixModel(x, uint64(al[0]))
				bs[i] = SB{t: x}
			}
			s := e.mkBytes(bs)
			e.addInput(Input{name: nm, kind: "str", s: s})
			return s
		},
		"verif/harness/v.Assume": func(e *Engine, a []Value) Value { e.doAssume(a[0].(*Term)); return nil },
		"verif/harness/v.Assert": func(e *Engine, a []Value) Value { e.doAssert(a[0].(*Term), e.cstrArg(a[1])); return nil },
		"verif/harness/v.Reach":  func(e *Engine, a []Value) Value { e.stats.reach(e.cstrArg(a[0])); return nil },
		"verif/harness/v.ObsInt": func(e *Engine, a []Value) Value {
			e.obs = append(e.obs, Obs{e.cstrArg(a[0]), a[1]})
			return nil
		},
		"verif/harness/v.ObsStr": func(e *Engine, a []Value) Value {
			e.obs = append(e.obs, Obs{e.cstrArg(a[0]), a[1]})
			return nil
		},
		"verif/harness/v.Param": func(e *Engine, a []Value) Value {
			nm := e.cstrArg(a[0])
			v := e.params[nm] // 0 when not set
			return e.tc.Const(64, uint64(v))
		},
		"verif/harness/v.Env": func(e *Engine, a []Value) Value {
			nm := e.cstrArg(a[0])
			e.setEnv(nm, a[1].(*Str))
			e.addInput(Input{name: "env:" + nm, kind: "str", s: a[1].(*Str)})
			return nil
		},
		"verif/harness/v.Unset":     func(e *Engine, a []Value) Value { e.setEnv(e.cstrArg(a[0]), nil); return nil },
		"verif/harness/v.Start":     func(e *Engine, a []Value) Value { return e.restart() },
		"verif/harness/v.Symbolic":  func(e *Engine, a []Value) Value { return e.tc.T },
		"verif/harness/v.parThread": func(e *Engine, a []Value) Value { e.parThread(int(a[0].(*Term).c)); return nil },
	}
	for _, ty := range []string{"Int32", "Uint32", "Int64", "Uint64", "Uintptr", "Pointer"} {
		intrTable["sync/atomic.Load"+ty] = func(e *Engine, a []Value) Value {
			p := a[0].(Ptr)
			e.atomicEv(p)
			return p.obj.cells[p.off]
		}
		intrTable["sync/atomic.Store"+ty] = func(e *Engine, a []Value) Value {
			p := a[0].(Ptr)
			e.atomicEv(p)
			e.setCell(p.obj, p.off, a[1])
			return nil
		}
		intrTable["sync/atomic.Swap"+ty] = func(e *Engine, a []Value) Value {
			p := a[0].(Ptr)
			e.atomicEv(p)
			o := p.obj.cells[p.off]
			e.setCell(p.obj, p.off, a[1])
			return o
		}
		intrTable["sync/atomic.CompareAndSwap"+ty] = func(e *Engine, a []Value) Value {
			p := a[0].(Ptr)
			e.atomicEv(p)
			if e.truth(e.eqValue(p.obj.cells[p.off], a[1])) {
				e.setCell(p.obj, p.off, a[2])
				return e.tc.T
			}
			return e.tc.F
		}
		if ty != "Pointer" {
			intrTable["sync/atomic.Add"+ty] = func(e *Engine, a []Value) Value {
				p := a[0].(Ptr)
				e.atomicEv(p)
				n := e.tc.Add(p.obj.cells[p.off].(*Term), a[1].(*Term))
				e.setCell(p.obj, p.off, n)
				return n
			}
		}
	}
	for n, f := range map[string]func(uint64) int{"Len64": bits.Len64, "TrailingZeros64": bits.TrailingZeros64, "OnesCount64": bits.OnesCount64} {
		f := f
		intrTable["math/bits."+n] = func(e *Engine, a []Value) Value {
			return e.k64(f(e.concretize(a[0].(*Term), "bits")))
		}
	}
	regexpIntrinsics()
}

func hexOf(s string) string { return fmt.Sprintf("%x", s) }
func minByte(s string) byte {
	m := byte(255)
	for i := 0; i < len(s); i++ {
		m = min(m, s[i])
	}
	return m
}
func maxByte(s string) byte {
	m := byte(0)
	for i := 0; i < len(s); i++ {
		m = max(m, s[i])
	}
	return m
}

// ---- helpers ----

func (e *Engine) fixModel(x *Term, v uint64) {
	m := make(map[*Term]uint64, len(e.model)+1)
	for k, y := range e.model {
		m[k] = y
	}
	m[x] = v
	e.setModel(m)
}

func (e *Engine) inName(raw string) string {
	n := fmt.Sprintf("%s#%d", raw, e.inNames[raw])
	e.inNames[raw]++
	return n
}

func (e *Engine) addInput(i Input) { e.inputs = append(e.inputs, i) }

func (e *Engine) inInt(name string, lo, hi int64) Value {
	nm := e.inName(name)
	if lo == hi {
		t := e.tc.Const(64, uint64(lo))
		e.addInput(Input{name: nm, kind: "int", t: t})
		return t
	}
	if lo >= 0 {
		// keep the variable narrow
		w := roundW(bitsFor(uint64(hi)))
		t := e.tc.Zext(e.tc.Var(fmt.Sprintf("%s|i|%d|%d", nm, lo, hi), w, uint64(lo), uint64(hi)), 64)
		e.addInput(Input{name: nm, kind: "int", t: t})
		return t
	}
	// signed range: offset encoding
	w := roundW(bitsFor(uint64(hi - lo)))
	x := e.tc.Var(fmt.Sprintf("%s|s|%d|%d", nm, lo, hi), w, 0, uint64(hi-lo))
	t := e.tc.Add(e.tc.Zext(x, 64), e.tc.Const(64, uint64(lo)))
	e.addInput(Input{name: nm, kind: "int", t: t})
	return t
}

func (e *Engine) inRune(name string, lo, hi uint64) Value {
	nm := e.inName(name)
	if lo == hi && int32(lo) >= 0 {
		t := e.tc.Const(32, lo)
		e.addInput(Input{name: nm, kind: "int", t: t})
		return t
	}
	var t *Term
	if int32(lo) < 0 {
		// any 32-bit value
		t = e.tc.Var(fmt.Sprintf("%s|r32", nm), 32, 0, 0xffffffff)
	} else {
		t = e.tc.Var(fmt.Sprintf("%s|r|%x|%x", nm, lo, hi), 32, lo, hi)
		c := e.tc
		sur := c.And(c.Ule(c.Const(32, 0xD800), t), c.Ule(t, c.Const(32, 0xDFFF)))
		if !sur.isConst() {
			e.assume(sur, false)
			if v, ok := e.model[t]; ok && v >= 0xD800 && v <= 0xDFFF {
				e.fixModel(t, lo)
			}
		}
	}
	e.addInput(Input{name: nm, kind: "int", t: t})
	return t
}

func (e *Engine) setEnv(k string, v *Str) {
	old, had := e.env[k]
	if v == nil {
		delete(e.env, k)
	} else {
		e.env[k] = v
	}
	e.pushUndo(func() {
		if had {
			e.env[k] = old
		} else {
			delete(e.env, k)
		}
	})
}

func (e *Engine) bufGet(p Ptr, off int) *Str {
	if p.obj == nil {
		panic(e.rtPanic("invalid memory address or nil pointer dereference"))
	}
	e.noteRead(p.obj)
	e.access(p, false)
	s := p.obj.cells[p.off+off].(Slice)
	return e.bytesToStr(s)
}

func (e *Engine) bufSet(p Ptr, off int, s *Str) {
	e.access(p, true)
	e.setCell(p.obj, p.off+off, Slice{rope: s, esz: 1})
}

func (e *Engine) bufAppend(p Ptr, off int, s *Str) {
	e.bufSet(p, off, e.concat(e.bufGet(p, off), s))
}

func (e *Engine) indexByte(s *Str, b *Term, last bool) Value {
	if s.isConc() && b.isConst() {
		if last {
			return e.tc.Const(64, uint64(int64(strings.LastIndexByte(s.c, byte(b.c)))))
		}
		return e.tc.Const(64, uint64(int64(strings.IndexByte(s.c, byte(b.c)))))
	}
	s = e.force(s)
	n := s.fixedLen()
	r := e.tc.Const(64, ^uint64(0))
	for i := 0; i < n; i++ {
		k := n - 1 - i
		if last {
			k = i
		}
		r = e.tc.Ite(e.tc.Eq(e.byteAt(s, k).t, b), e.k64(k), r)
	}
	return r
}

func (e *Engine) indexStr(s, sub *Str) Value {
	if s.isConc() && sub.isConc() {
		return e.tc.Const(64, uint64(int64(strings.Index(s.c, sub.c))))
	}
	s, sub = e.force(s), e.force(sub)
	n, m := s.fixedLen(), sub.fixedLen()
	r := e.tc.Const(64, ^uint64(0))
	for i := n - m; i >= 0; i-- {
		r = e.tc.Ite(e.strEq(e.substr(s, i, i+m), sub), e.k64(i), r)
	}
	return r
}

func (e *Engine) countByte(s *Str, b *Term) Value {
	s = e.force(s)
	r := e.k64(0)
	for i := 0; i < s.fixedLen(); i++ {
		r = e.tc.Add(r, e.tc.Ite(e.tc.Eq(e.byteAt(s, i).t, b), e.k64(1), e.k64(0)))
	}
	return r
}

func (e *Engine) decodeFirst(s *Str) Value {
	it, ok := e.firstItem(s)
	if !ok {
		return Tuple{e.tc.Const(32, utf8.RuneError), e.k64(0)}
	}
	return Tuple{it.r, it.n}
}

func (e *Engine) decodeLast(s *Str) Value {
	if s.isConc() {
		r, n := utf8.DecodeLastRuneInString(s.c)
		return Tuple{e.tc.Const(32, uint64(r)), e.k64(n)}
	}
	if _, ok := e.runeSeq(s); !ok {
		panic(unsupported("last rune of a symbolic text"))
	}
	its := e.items(s)
	it := its[len(its)-1]
	return Tuple{it.r, it.n}
}

func (e *Engine) runeCount(s *Str) Value {
	if s.isConc() {
		return e.k64(utf8.RuneCountInString(s.c))
	}
	n := e.k64(0)
	var rest []StrPart
	for _, p := range s.asParts() {
		if p.cnt != nil && utf8.ValidString(p.rep) {
			n = e.tc.Add(n, e.tc.Mul(p.cnt, e.k64(utf8.RuneCountInString(p.rep))))
			if len(rest) > 0 {
				n = e.tc.Add(n, e.k64(len(e.items(e.normRope(rest)))))
				rest = nil
			}
			continue
		}
		rest = append(rest, p)
	}
	if len(rest) > 0 {
		n = e.tc.Add(n, e.k64(len(e.items(e.normRope(rest)))))
	}
	return n
}

func (e *Engine) namedType(pkg, name string) types.Type {
	p := e.ld.pkgs[pkg]
	if p == nil {
		return nil
	}
	if o := p.Pkg.Scope().Lookup(name); o != nil {
		return o.Type()
	}
	return nil
}

func (e *Engine) newError(s *Str) Value {
	t := e.namedType("errors", "errorString")
	if t == nil {
		panic(unsupported("errors package not loaded"))
	}
	o := e.alloc([]Value{s}, "errorString")
	return Iface{t: types.NewPointer(t), v: Ptr{obj: o}}
}

// fmtVal renders one operand in the default format.
func (e *Engine) fmtVal(v Value, verb byte) *Str {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return cs("<nil>")
		}
		errI := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
		if x.t != rtErrType && types.Implements(x.t, errI) {
			if p, ok := x.v.(Ptr); ok && p.obj != nil && (p.obj.name == "errorString" || p.obj.name == "wrapError") {
				return p.obj.cells[0].(*Str)
			}
			return cs("<error>") // the text of foreign errors is not modelled
		}
		if _, ok := x.v.(*Str); !ok {
			if ms := types.NewMethodSet(x.t); ms.Lookup(nil, "String") != nil {
				panic(unsupported("formatting of a Stringer"))
			}
		}
		if t, ok := x.v.(*Term); ok {
			w, sg, _ := scalarType(x.t)
			_ = w
			val := e.concretize(t, "formatted number")
			if t.w == 0 {
				return cs(strconv.FormatBool(val != 0))
			}
			if verb == 'c' {
				return cs(string(rune(val)))
			}
			if verb == 'x' {
				return cs(strconv.FormatUint(val, 16))
			}
			if sg {
				return cs(strconv.FormatInt(sext64(val, t.w), 10))
			}
			return cs(strconv.FormatUint(val, 10))
		}
		return e.fmtVal(x.v, verb)
	case *Str:
		if verb == 'q' {
			return cs(strconv.Quote(e.cstrArg(x)))
		}
		return x
	case float64:
		return cs(strconv.FormatFloat(x, 'g', -1, 64))
	case Slice:
		if x.rope != nil {
			return x.rope
		}
		if verb == 's' {
			return e.bytesToStr(x)
		}
	}
	panic(unsupported(fmt.Sprintf("formatting of %T", v)))
}

func (e *Engine) sprint(args Slice, ln bool) *Str {
	s := emptyStr
	prevStr := true
	for i := 0; i < args.len; i++ {
		x := args.obj.cells[args.off+i].(Iface)
		_, isStr := x.v.(*Str)
		if i > 0 && (ln || (!isStr && !prevStr)) {
			s = e.concat(s, cs(" "))
		}
		s = e.concat(s, e.fmtVal(x, 'v'))
		prevStr = isStr
	}
	if ln {
		s = e.concat(s, cs("\n"))
	}
	return s
}

func (e *Engine) sprintf(f string, args Slice) *Str {
	s := emptyStr
	k := 0
	arg := func() Value {
		if k >= args.len {
			panic(unsupported("missing format operand"))
		}
		v := args.obj.cells[args.off+k]
		k++
		return v
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			s = e.concat(s, cs(f[i:i+j]))
			i += j - 1
			continue
		}
		i++
		left, zero, width := false, false, -1
		for i < len(f) && (f[i] == '-' || f[i] == '0' || f[i] == '+' || f[i] == '#' || f[i] == ' ') {
			switch f[i] {
			case '-':
				left = true
			case '0':
				zero = true
			default:
				panic(unsupported("format flag " + f))
			}
			i++
		}
		var wt *Term
		if i < len(f) && f[i] == '*' {
			wt = e.to64(arg().(Iface).v.(*Term), true)
			i++
		} else {
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				if width < 0 {
					width = 0
				}
				width = width*10 + int(f[i]-'0')
				i++
			}
		}
		if i >= len(f) {
			panic(unsupported("format " + f))
		}
		switch f[i] {
		case '%':
			s = e.concat(s, cs("%"))
			continue
		case 's', 'v', 'd', 'w', 'q', 'c', 'x', 't':
		default:
			panic(unsupported("format " + f))
		}
		if width >= 0 {
			wt = e.k64(width)
		}
		r := e.fmtVal(arg(), f[i])
		if wt != nil {
			if zero && f[i] == 'd' {
				panic(unsupported("format " + f))
			}
			n := e.runeCount(r).(*Term)
			if e.truth(e.tc.Slt(n, wt)) {
				pad := e.normRope([]StrPart{{rep: " ", cnt: e.tc.Sub(wt, n)}})
				if left {
					r = e.concat(r, pad)
				} else {
					r = e.concat(pad, r)
				}
			}
		}
		s = e.concat(s, r)
	}
	if k < args.len {
		panic(unsupported("extra format operand"))
	}
	return s
}

// writeTo continues in the writer's Write method.
func (e *Engine) writeTo(w Iface, s *Str, conv func(e *Engine, v Value) Value) Value {
	if w.t == nil {
		panic(e.rtPanic("invalid memory address or nil pointer dereference"))
	}
	e.ld.mu.Lock()
	fn := e.prog.LookupMethod(w.t, nil, "Write")
	e.ld.mu.Unlock()
	if fn == nil {
		panic(unsupported("writer without Write: " + w.t.String()))
	}
	arg := e.bytesOf(s)
	if in := e.intrinsic(fn); in != nil {
		v := in(e, []Value{w.v, arg})
		if _, ok := v.(*tailCall); !ok && conv != nil {
			v = conv(e, v)
		}
		return v
	}
	return &tailCall{fn: fn, args: []Value{w.v, arg}, conv: conv}
}

func (e *Engine) syncMap(p Ptr) *MapObj {
	if m, ok := p.obj.cells[p.off].(*MapObj); ok {
		return m
	}
	anyT := types.Universe.Lookup("any").Type()
	m := e.allocMap(anyT, anyT)
	e.setCell(p.obj, p.off, m)
	return m
}

// ---- builtins ----

func (e *Engine) builtin(f *Frame, b *ssa.Builtin, args []Value, ci *CInstr) Value {
	c := e.tc
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return e.strLen(x)
		case Slice:
			return e.sliceLen(x)
		case *MapObj:
			if x == nil {
				return e.k64(0)
			}
			e.mapRead(x)
			return e.k64(x.live)
		case Ptr:
			return e.k64(int(ci.call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		case *Agg:
			return e.k64(int(ci.call.Args[0].Type().Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			if x.rope != nil {
				return e.strLen(x.rope)
			}
			return e.k64(x.cap)
		}
	case "append":
		s := args[0].(Slice)
		switch y := args[1].(type) {
		case *Str:
			return e.appendBytes(s, y)
		case Slice:
			if y.rope != nil {
				return e.appendBytes(s, y.rope)
			}
			return e.appendSlice(s, y)
		}
	case "copy":
		d := args[0].(Slice)
		var src Slice
		switch y := args[1].(type) {
		case *Str:
			src = e.bytesOf(e.force(y))
		case Slice:
			src = y
			if src.rope != nil {
				src = e.matSlice(src)
			}
		}
		n := min(d.len, src.len)
		if n > 0 {
			e.noteRead(src.obj)
			e.access(Ptr{obj: src.obj, off: src.off}, false)
			e.access(Ptr{obj: d.obj, off: d.off}, true)
			tmp := append([]Value{}, src.obj.cells[src.off:src.off+n*src.esz]...)
			for i, v := range tmp {
				e.setCell(d.obj, d.off+i, v)
			}
			if d.esz == 1 && src.obj.tags != nil && d.obj.tags == nil && d.off == 0 && src.off == 0 {
				// keep the rune structure for whole copies
				d.obj.tags = append([]SB{}, src.obj.tags[:min(n, len(src.obj.tags))]...)
			}
		}
		return e.k64(n)
	case "delete":
		e.mapDelete(args[0].(*MapObj), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			e.mapClear(x)
			return nil
		case Slice:
			if x.len > 0 {
				z := e.zeroCells(x.obj.elem, nil)
				for i := 0; i < x.len; i++ {
					for k, v := range z {
						e.setCell(x.obj, x.off+i*x.esz+k, v)
					}
				}
			}
			return nil
		}
	case "min", "max":
		if r, ok := args[0].(*Term); ok {
			_, sg, _ := scalarType(ci.call.Args[0].Type())
			for _, y := range args[1:] {
				t := y.(*Term)
				var lt *Term
				if sg {
					lt = c.Slt(t, r)
				} else {
					lt = c.Ult(t, r)
				}
				if b.Name() == "max" {
					if sg {
						lt = c.Slt(r, t)
					} else {
						lt = c.Ult(r, t)
					}
				}
				if v, ok := e.quick(lt, 0); ok {
					lt = c.Bool(v)
				}
				r = c.Ite(lt, t, r)
			}
			return r
		}
	case "print", "println":
		return nil
	case "recover":
		n := len(e.frames)
		if n >= 2 && e.frames[n-1].isDefer {
			g := e.frames[n-2]
			if g.panicking && !g.recovered {
				g.recovered = true
				return g.pval
			}
		}
		return Iface{}
	case "panic":
		panic(goPanicReq{v: args[0], msg: "panic: " + e.describe(args[0])})
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == nil {
			panic(e.rtPanic("invalid memory address or nil pointer dereference"))
		}
		return args[0]
	case "SliceData":
		s := args[0].(Slice)
		if s.rope != nil {
			s = e.matSlice(s)
		}
		return Ptr{obj: s.obj, off: s.off}
	case "StringData":
		s := e.bytesOf(e.force(args[0].(*Str)))
		return Ptr{obj: s.obj, off: s.off}
	case "String":
		p := args[0].(Ptr)
		n := int(e.concretize(args[1].(*Term), "length"))
		if n == 0 {
			return emptyStr
		}
		return e.bytesToStr(Slice{obj: p.obj, off: p.off, len: n, cap: n, esz: 1})
	case "Slice":
		p := args[0].(Ptr)
		n := int(e.concretize(args[1].(*Term), "length"))
		return Slice{obj: p.obj, off: p.off, len: n, cap: n, esz: 1}
	}
	panic(unsupported("builtin " + b.Name()))
}

// appendBytes appends text to a byte slice, staying lazy for texts of
// undecided length.
func (e *Engine) appendBytes(s Slice, y *Str) Value {
	if s.rope != nil || y.isRope() {
		if s.rope == nil && s.len == 0 {
			return Slice{rope: y, esz: 1}
		}
		return Slice{rope: e.concat(e.bytesToStr(s), y), esz: 1}
	}
	return e.appendSlice(s, e.bytesOf(y))
}

func (e *Engine) appendSlice(s, y Slice) Value {
	if s.rope != nil || y.rope != nil {
		return e.appendBytes(s, e.bytesToStr(y))
	}
	if y.len == 0 {
		return s
	}
	esz := y.esz
	n := s.len + y.len
	e.noteRead(y.obj)
	e.access(Ptr{obj: y.obj, off: y.off}, false)
	if n <= s.cap && s.obj != nil {
		e.access(Ptr{obj: s.obj, off: s.off}, true)
		src := append([]Value{}, y.obj.cells[y.off:y.off+y.len*esz]...)
		for i, v := range src {
			e.setCell(s.obj, s.off+s.len*esz+i, v)
		}
		return Slice{obj: s.obj, off: s.off, len: n, cap: s.cap, esz: esz}
	}
	cp := max(2*s.cap, n)
	if s.cap >= 256 {
		cp = max(s.cap+(s.cap+768)/4, n)
	}
	if n < 5 && cp < 4 && esz == 1 {
		cp = max(cp, 1)
	}
	cells := make([]Value, 0, cp*esz)
	if s.len > 0 {
		e.noteRead(s.obj)
		e.access(Ptr{obj: s.obj, off: s.off}, false)
		cells = append(cells, s.obj.cells[s.off:s.off+s.len*esz]...)
	}
	cells = append(cells, y.obj.cells[y.off:y.off+y.len*esz]...)
	// zero the spare capacity with a like value
	el := s.obj
	if el == nil || el.elem == nil {
		el = y.obj
	}
	if el.elem != nil && e.flatSize(el.elem) == esz {
		z := e.zeroCells(el.elem, nil)
		for len(cells) < cp*esz {
			cells = append(cells, z...)
		}
	} else {
		cp = n
	}
	o := e.alloc(cells, "")
	if el.elem != nil {
		o.elem = el.elem
	}
	return Slice{obj: o, len: n, cap: cp, esz: esz}
}

// ---- text of symbolic length: display width ----

// ropeWidthFn models the width function on texts with repetitions of symbolic
// count as linear in the counts; offset and slopes come from running the real
// function on counts 0, 1, 2 and 300. All other texts run the real code.
func (e *Engine) ropeWidthFn(fn *ssa.Function) intrFn {
	return func(e *Engine, args []Value) Value {
		s, ok := args[0].(*Str)
		has := false
		if ok && s.isRope() {
			for _, p := range s.parts {
				if p.cnt != nil {
					if v, c := e.constOf(p.cnt); c {
						_ = v
						continue
					}
					has = true
				}
			}
		}
		if !has {
			return &tailCall{fn: fn, args: args}
		}
		return e.ropeWidth(fn, s)
	}
}

func (e *Engine) ropeWidth(fn *ssa.Function, s *Str) Value {
	at := func(i int, k uint64) uint64 {
		ps := append([]StrPart{}, s.parts...)
		for j := range ps {
			if ps[j].cnt != nil {
				n := uint64(0)
				if j == i {
					n = k
				}
				ps[j].cnt = e.tc.Const(64, n)
			}
		}
		v := e.subCall(fn, []Value{e.normRope(ps)})
		t, ok := v.(*Term)
		if !ok || !t.isConst() {
			panic(unsupported("width of a text of symbolic length with symbolic content"))
		}
		return t.c
	}
	base := at(-1, 0)
	rt := fn.Signature.Results().At(0).Type()
	w, _, _ := scalarType(rt)
	r := e.tc.Const(w, base)
	sum := e.tc.Const(64, base)
	for i, p := range s.parts {
		if p.cnt == nil {
			continue
		}
		d := (at(i, 1) - base) & maskOf(w)
		for _, k := range []uint64{2, 300} {
			if (at(i, k)-base)&maskOf(w) != (d*k)&maskOf(w) {
				panic(unsupported("width is not linear in the length of a repeated text"))
			}
		}
		r = e.tc.Add(r, e.tc.Mul(e.tc.Extract(p.cnt, w), e.tc.Const(w, d)))
		sum = e.tc.Add(sum, e.tc.Mul(p.cnt, e.tc.Const(64, d)))
	}
	// linear growth is only taken for granted while the result fits its type
	if !e.truth(e.tc.Ule(sum, e.tc.Const(64, maskOf(w)))) {
		panic(unsupported("width of a text of symbolic length beyond the range of its type"))
	}
	return r
}

// subCall runs a function to completion on the current path and discards its
// effects.
func (e *Engine) subCall(fn *ssa.Function, args []Value) Value {
	saved, savedRet, im, mm := e.frames, e.retVal, e.instrMark, e.mergeMark
	mark := len(e.trail)
	race := e.race
	e.race = nil
	defer func() {
		e.undoTo(mark)
		e.frames, e.retVal, e.instrMark, e.mergeMark = saved, savedRet, im, mm
		e.mergeLvl--
		e.race = race
	}()
	e.mergeLvl++
	e.mergeMark = -1 << 62
	fr := e.newFrame(fn, args, nil)
	fr.base = true
	e.frames = []*Frame{fr}
	ev := e.run()
	if ev.kind != "ret" {
		panic(unsupported("sub-run of " + fn.String() + " ended with " + ev.kind + " " + ev.why + ev.end.msg))
	}
	return e.retVal
}
