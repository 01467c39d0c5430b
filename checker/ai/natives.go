package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type native func(fr *frame, st *State, ins ssa.CallInstruction, args []Val, k func(*State, Val)) []*State

var natives map[string]native

func str(st *State, in *Interp, v Val) VStr {
	if s, ok := v.(VStr); ok {
		return s
	}
	return in.anyStr(st)
}

func ret(st *State, k func(*State, Val), v Val) []*State {
	k(st, v)
	return []*State{st}
}

func init() {
	natives = map[string]native{
		"strings.HasPrefix": func(fr *frame, st *State, ins ssa.CallInstruction, a []Val, k func(*State, Val)) []*State {
			return fr.hasPrefix(st, str(st, fr.in, a[0]), a[1], func(s *State, ok bool) { k(s, cbool(ok)) })
		},
		"strings.HasSuffix": func(fr *frame, st *State, ins ssa.CallInstruction, a []Val, k func(*State, Val)) []*State {
			return fr.hasSuffix(st, str(st, fr.in, a[0]), a[1], func(s *State, ok bool) { k(s, cbool(ok)) })
		},
		"strings.TrimPrefix": func(fr *frame, st *State, ins ssa.CallInstruction, a []Val, k func(*State, Val)) []*State {
			x := str(st, fr.in, a[0])
			return fr.hasPrefix(st, x, a[1], func(s *State, ok bool) {
				if ok {
					k(s, fr.substr(s, x, fr.lenOf(s, a[1], nil), x.Len))
				} else {
					k(s, x)
				}
			})
		},
		"strings.TrimSuffix": func(fr *frame, st *State, ins ssa.CallInstruction, a []Val, k func(*State, Val)) []*State {
			x := str(st, fr.in, a[0])
			return fr.hasSuffix(st, x, a[1], func(s *State, ok bool) {
				if ok {
					hi, _ := x.Len.sub(fr.lenOf(s, a[1], nil))
					k(s, fr.substr(s, x, LC(0), hi))
				} else {
					k(s, x)
				}
			})
		},
		"strings.CutPrefix": func(fr *frame, st *State, ins ssa.CallInstruction, a []Val, k func(*State, Val)) []*State {
			x := str(st, fr.in, a[0])
			return fr.hasPrefix(st, x, a[1], func(s *State, ok bool) {
				if ok {
					k(s, VTuple{[]Val{fr.substr(s, x, fr.lenOf(s, a[1], nil), x.Len), cbool(true)}})
				} else {
					k(s, VTuple{[]Val{x, cbool(false)}})
				}
			})
		},
		"strings.CutSuffix": func(fr *frame, st *State, ins ssa.CallInstruction, a []Val, k func(*State, Val)) []*State {
			x := str(st, fr.in, a[0])
			return fr.hasSuffix(st, x, a[1], func(s *State, ok bool) {
				if ok {
					hi, _ := x.Len.sub(fr.lenOf(s, a[1], nil))
					k(s, VTuple{[]Val{fr.substr(s, x, LC(0), hi), cbool(true)}})
				} else {
					k(s, VTuple{[]Val{x, cbool(false)}})
				}
			})
		},
		"strings.Cut": func(fr *frame, st *State, ins ssa.CallInstruction, a []Val, k func(*State, Val)) []*State {
			x := str(st, fr.in, a[0])
			n := fr.lenOf(st, a[1], nil)
			f := st.clone()
			k(f, VTuple{[]Val{x, cstr(""), cbool(false)}})
			i := st.fresh(I(0), maxLen)
			e, _ := i.add(n)
			d, _ := x.Len.sub(e)
			if !st.P.addGE(d) {
				return []*State{f}
			}
			if c, ok := a[1].(VStr); ok && c.IsC && len(c.C) == 1 {
				st.setByte(x, i, LC(int64(c.C[0])))
			}
			k(st, VTuple{[]Val{fr.substr(st, x, LC(0), i), fr.substr(st, x, e, x.Len), cbool(true)}})
			return []*State{f, st}
		},
		"strings.Contains": func(fr *frame, st *State, ins ssa.CallInstruction, a []Val, k func(*State, Val)) []*State {
			x := str(st, fr.in, a[0])
			f := st.clone()
			k(f, cbool(false))
			d, _ := x.Len.sub(fr.lenOf(st, a[1], nil))
			if !st.P.addGE(d) {
				return []*State{f}
			}
			k(st, cbool(true))
			return []*State{f, st}
		},
		"unicode.IsSpace": func(fr *frame, st *State, ins ssa.CallInstruction, a []Val, k func(*State, Val)) []*State {
			if l, ok := asInt(a[0]); ok {
				if c, ok := st.P.norm(l).constVal(); ok {
					return ret(st, k, cbool(unicode.IsSpace(rune(c))))
				}
			}
			f := st.clone()
			k(f, cbool(false))
			k(st, cbool(true))
			return []*State{f, st}
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"fmt.Sprintf":      anyString,
		"fmt.Sprint":       anyString,
		"fmt.Sprintln":     anyString,
		"strings.Repeat": func(fr *frame, st *State, ins ssa.CallInstruction, a []Val, k func(*State, Val)) []*State {
			if l, ok := asInt(a[1]); ok {
				if !fr.require(st, "repeat", ins, l, func() string { return "strings: negative Repeat count" }) {
					return nil
				}
			}
			return ret(st, k, fr.in.anyStr(st))
		},
	}
	for _, n := range []string{"Index", "LastIndex", "IndexByte", "LastIndexByte", "IndexRune", "IndexAny", "LastIndexAny", "IndexFunc", "LastIndexFunc"} {
		n := n
		natives["strings."+n] = func(fr *frame, st *State, ins ssa.CallInstruction, a []Val, k func(*State, Val)) []*State {
			return fr.indexOf(st, ins, n, a, k)
		}
		natives["bytes."+n] = natives["strings."+n]
	}
	for _, n := range []string{"TrimSpace", "Trim", "TrimLeft", "TrimRight", "TrimFunc", "TrimLeftFunc", "TrimRightFunc"} {
		n := n
		natives["strings."+n] = func(fr *frame, st *State, ins ssa.CallInstruction, a []Val, k func(*State, Val)) []*State {
			x := str(st, fr.in, a[0])
			lo, hi := LC(0), x.Len
			if x.IsC && n == "TrimSpace" {
				return ret(st, k, cstr(strings.TrimSpace(x.C)))
			}
			if !strings.HasPrefix(n, "TrimRight") {
				lo = st.fresh(I(0), maxLen)
			}
			if !strings.HasPrefix(n, "TrimLeft") {
				hi = st.fresh(I(0), maxLen)
				d, _ := x.Len.sub(hi)
				st.P.addGE(d)
			}
			d, _ := hi.sub(lo)
			st.P.addGE(d)
			r := fr.substr(st, x, lo, hi)
			r.Prov = nil
			if len(a) > 1 {
				if f, ok := a[1].(VFunc); ok {
					fr.callOnce(st, ins, f)
				}
			}
			return ret(st, k, r)
		}
	}
	for _, n := range []string{"Split", "SplitAfter", "SplitN", "SplitAfterN", "Fields"} {
		n := n
		natives["strings."+n] = func(fr *frame, st *State, ins ssa.CallInstruction, a []Val, k func(*State, Val)) []*State {
			return fr.split(st, ins, n, a, k)
		}
	}
}

// callOnce runs a callback with arbitrary arguments for its obligations.
func (fr *frame) callOnce(st *State, ins ssa.CallInstruction, f VFunc) {
	s := st.clone()
	var fa []Val
	for i := 0; i < f.Fn.Signature.Params().Len(); i++ {
		fa = append(fa, fr.in.force(s, fr.in.anyVal(s, f.Fn.Signature.Params().At(i).Type(), false), false))
	}
	fr.callFn(s, ins, f.Fn, fa, f.Bind, func(*State, Val) {})
}

func anyString(fr *frame, st *State, ins ssa.CallInstruction, a []Val, k func(*State, Val)) []*State {
	return ret(st, k, fr.in.anyStr(st))
}

func (fr *frame) hasPrefix(st *State, x VStr, pv Val, k func(*State, bool)) []*State {
	p := str(st, fr.in, pv)
	if !p.IsC {
		f := st.clone()
		k(f, false)
		d, _ := x.Len.sub(p.Len)
		if !st.P.addGE(d) {
			return []*State{f}
		}
		k(st, true)
		return []*State{f, st}
	}
	if known, ok := st.strPrefix(x); ok && len(known) >= len(p.C) && known[:len(p.C)] == p.C {
		// certainly a prefix (the root's bytes exist only if long enough)
		if st.P.entails(x.Len.addC(-int64(len(p.C)))) {
			k(st, true)
			return []*State{st}
		}
	}
	f := st.clone()
	var out []*State
	if s := fr.assumePrefix(st, x, p.C); s != nil {
		k(s, true)
		out = append(out, s)
	}
	if len(p.C) == 0 {
		return out
	}
	if x.IsC && strings.HasPrefix(x.C, p.C) {
		return out
	}
	if known, ok := f.strPrefix(x); ok && len(known) >= len(p.C) && known[:len(p.C)] == p.C {
		if !f.P.addGE(x.Len.neg().addC(int64(len(p.C)) - 1)) {
			return out
		}
	}
	k(f, false)
	return append(out, f)
}

func (fr *frame) hasSuffix(st *State, x VStr, pv Val, k func(*State, bool)) []*State {
	p := str(st, fr.in, pv)
	if x.IsC && p.IsC {
		k(st, strings.HasSuffix(x.C, p.C))
		return []*State{st}
	}
	f := st.clone()
	var out []*State
	d, _ := x.Len.sub(p.Len)
	if st.P.addGE(d) {
		ok := true
		if known, has := st.strPrefix(x); has && p.IsC && len(p.C) > 0 {
			// places where the suffix cannot end
			i := len(p.C) - 1
			for i < len(known) && known[i] != p.C[len(p.C)-1] {
				i++
			}
			ok = st.P.addGE(x.Len.addC(-int64(i) - 1))
		}
		if ok && p.IsC && len(p.C) > 0 {
			at := x.Len.addC(-1)
			c := LC(int64(p.C[len(p.C)-1]))
			if v, has := st.byteAt(x, at); has {
				e, _ := v.sub(c)
				ok = st.P.addEQ(e)
			} else {
				st.setByte(x, at, c)
			}
		}
		if ok {
			k(st, true)
			out = append(out, st)
		}
	}
	if p.IsC && len(p.C) == 1 {
		if v, has := f.byteAt(x, x.Len.addC(-1)); has && f.P.entailsEQ(v.addC(-int64(p.C[0]))) && f.P.entails(x.Len.addC(-1)) {
			return out
		}
	}
	k(f, false)
	return append(out, f)
}

func (fr *frame) indexOf(st *State, ins ssa.CallInstruction, n string, a []Val, k func(*State, Val)) []*State {
	f := st.clone()
	k(f, cint(-1))
	var ln Lin
	x, isStr := a[0].(VStr)
	if isStr {
		ln = x.Len
	} else {
		ln = fr.lenOf(st, a[0], nil)
	}
	w := LC(1)
	if n == "Index" || n == "LastIndex" {
		w = fr.lenOf(st, a[1], nil)
	}
	if fn, ok := a[1].(VFunc); ok {
		fr.callOnce(st, ins, fn)
	}
	r := st.fresh(I(0), maxLen)
	d, _ := ln.sub(r)
	d, _ = d.sub(w)
	if !st.P.addGE(d) {
		return []*State{f}
	}
	if isStr && !x.IsC {
		switch n {
		case "IndexByte", "LastIndexByte", "IndexRune":
			if l, ok := asInt(a[1]); ok {
				if c, ok := st.P.norm(l).constVal(); ok && c < 128 {
					st.setByte(x, r, LC(c))
				}
			}
		case "Index", "LastIndex":
			if c, ok := a[1].(VStr); ok && c.IsC && len(c.C) > 0 {
				st.setByte(x, r, LC(int64(c.C[0])))
			}
		}
		// a known first byte that differs moves the match
		if n == "IndexByte" || n == "IndexRune" {
			if p, ok := st.strPrefix(x); ok {
				if l, ok := asInt(a[1]); ok {
					if c, ok := st.P.norm(l).constVal(); ok && c < 128 {
						if i := strings.IndexByte(p, byte(c)); i >= 0 {
							st.P.addEQ(r.addC(-int64(i)))
						} else {
							st.P.addGE(r.addC(-int64(len(p))))
						}
					}
				}
			}
		}
	}
	k(st, VInt{L: st.P.norm(r)})
	return []*State{f, st}
}

// split models the splitting functions: the number of parts, and for the
// first parts what is known of their length.
func (fr *frame) split(st *State, ins ssa.CallInstruction, n string, a []Val, k func(*State, Val)) []*State {
	in := fr.in
	x := str(st, in, a[0])
	strT := types.Typ[types.String]
	mk := func(s *State, parts []Val) Val {
		id := in.newObj(s, &Obj{T: types.NewArray(strT, int64(len(parts))), C: VArr{parts}, Site: "split"})
		ln := LC(int64(len(parts)))
		return VSlice{Obj: id, Off: LC(0), Len: ln, Cap: ln}
	}
	limit := int64(-1)
	sep := ""
	if n != "Fields" {
		if p, ok := a[1].(VStr); ok && p.IsC {
			sep = p.C
		}
		if len(a) > 2 {
			if l, ok := asInt(a[2]); ok {
				if c, ok := st.P.norm(l).constVal(); ok {
					limit = c
				}
			}
		}
	}
	if limit == 0 {
		return ret(st, k, VNil{})
	}
	if sep == "" || limit < 0 || limit > 8 {
		lo := int64(1)
		if n == "Fields" || sep == "" {
			lo = 0
		}
		v := in.anySlice(st, strT, false).(VSlice)
		st.P.addGE(v.Len.addC(-lo))
		if limit > 0 {
			st.P.addGE(v.Len.neg().addC(limit))
		}
		return ret(st, k, v)
	}
	// exactly parts pieces
	var out []*State
	w := int64(len(sep))
	after := strings.Contains(n, "After")
	for parts := int64(1); parts <= limit; parts++ {
		s := st
		if parts < limit {
			s = st.clone()
		}
		var vs []Val
		ok := true
		at := LC(0)
		for i := int64(0); i < parts; i++ {
			if i == parts-1 {
				vs = append(vs, fr.substr(s, x, at, x.Len))
				break
			}
			e := s.fresh(I(0), maxLen) // separator position
			d, _ := e.sub(at)
			ok = ok && s.P.addGE(d)
			d, _ = x.Len.sub(e)
			ok = ok && s.P.addGE(d.addC(-w))
			if !ok {
				break
			}
			if !x.IsC {
				s.setByte(x, e, LC(int64(sep[0])))
			}
			if i == 0 {
				if p, has := s.strPrefix(x); has {
					if j := strings.Index(p, sep); j >= 0 {
						ok = ok && s.P.addEQ(e.addC(-int64(j)))
					} else {
						// the first place where sep may still match
						j := 0
						for j < len(p) {
							n := len(p) - j
							if n > len(sep) {
								n = len(sep)
							}
							if p[j:j+n] == sep[:n] {
								break
							}
							j++
						}
						ok = ok && s.P.addGE(e.addC(-int64(j)))
					}
				}
			}
			if !ok {
				break
			}
			end := e
			if after {
				end = e.addC(w)
			}
			vs = append(vs, fr.substr(s, x, at, end))
			at = e.addC(w)
		}
		if !ok {
			continue
		}
		k(s, mk(s, vs))
		out = append(out, s)
	}
	return out
}

func sortSlice(fr *frame, st *State, ins ssa.CallInstruction, a []Val, k func(*State, Val)) []*State {
	v := a[0]
	if i, ok := v.(VIface); ok {
		v = i.V
	}
	less, _ := a[1].(VFunc)
	return fr.cases(st, v, func(st *State, v Val) []*State {
		sl, ok := v.(VSlice)
		if !ok {
			k(st, VTuple{})
			return []*State{st}
		}
		if o := st.obj(sl.Obj); o != nil {
			fr.noteStore(st, ins, VPtr{sl.Obj, sl.Path}, o)
			if st.heap[sl.Obj] != nil && !o.Sum {
				c := contentAt(o.C, sl.Path)
				if sm, ok := c.(VSmash); ok {
					full := sm.Cen
					sm.Seq, sm.Prov = nil, nil
					if full != nil {
						n := *full
						n.Cur, n.Last = LC(0), -1
						for i := range n.Cnt {
							n.Cnt[i] = LC(0)
						}
						sm.Cen = &n
					}
					n := *o
					n.C = replaceAt(o.C, sl.Path, sm)
					st.heap[sl.Obj] = &n
				} else if sm, ok := fr.in.asSmashIn(st, c); ok {
					if sm.T == nil {
						if at, ok := under(o.T).(*types.Array); ok {
							sm.T = at.Elem()
						}
					}
					n := *o
					n.C = replaceAt(o.C, sl.Path, sm)
					st.heap[sl.Obj] = &n
				}
			}
		}
		if less.Fn != nil {
			// the callback sees some two positions
			s := st.clone()
			i, j := s.fresh(I(0), maxLen), s.fresh(I(0), maxLen)
			d1, _ := sl.Len.sub(i)
			d2, _ := sl.Len.sub(j)
			if s.P.addGE(d1.addC(-1)) && s.P.addGE(d2.addC(-1)) {
				fr.callFn(s, ins, less.Fn, []Val{VInt{L: i}, VInt{L: j}}, less.Bind, func(*State, Val) {})
			}
		}
		k(st, VTuple{})
		return []*State{st}
	})
}

// ---- intrinsics of the harness ----

func constString(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return ""
}

// intrinsic executes a body-less function of the overlay.
func (fr *frame) intrinsic(st *State, ins ssa.CallInstruction, fn *ssa.Function, a []Val, k func(*State, Val)) []*State {
	in := fr.in
	n := fn.Name()
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	switch {
	case strings.HasPrefix(n, "vCast"):
		return ret(st, k, a[0])
	case strings.HasPrefix(n, "vAny"):
		// an arbitrary value of the result type
		t := fn.Signature.Results().At(0).Type()
		ext := strings.HasPrefix(n, "vAnyExt")
		v := in.lazyVal(st, VLazy{T: t, NN: true}, ext)
		return ret(st, k, in.force(st, v, ext))
	}
	arg := func(i int) Lin {
		l, ok := asInt(a[i])
		if !ok {
			return st.fresh(I(0), maxLen)
		}
		return l
	}
	ext := func(v Val) (*Obj, []PE, int) {
		if i, ok := v.(VIface); ok {
			v = i.V
		}
		if p, ok := v.(VPtr); ok {
			return st.obj(p.Obj), p.Path, p.Obj
		}
		return nil, nil, 0
	}
	switch n {
	case "vBool":
		f := st.clone()
		k(f, cbool(false))
		k(st, cbool(true))
		return []*State{f, st}
	case "vInt":
		l := st.fresh(pow2(63).neg(), pow2(63).sub(I(1)))
		d, _ := l.sub(arg(0))
		e, _ := arg(1).sub(l)
		if !st.P.addGE(d) || !st.P.addGE(e) {
			return nil
		}
		return ret(st, k, VInt{L: l})
	case "vErr":
		return ret(st, k, in.someErr())
	case "vIOErr":
		// any error but io.EOF
		return ret(st, k, VIface{sentinelPtr, VPtr{Obj: in.ioErr()}})
	case "vUnknownErr":
		return fr.cases(st, a[0], func(s *State, v Val) []*State {
			k(s, cbool(in.unknownErr(v)))
			return []*State{s}
		})
	case "vLine":
		l := VStr{Root: in.id(), Off: LC(0), Len: st.fresh(I(1), maxLen)}
		st.setByte(l, l.Len.addC(-1), LC('\n'))
		return ret(st, k, l)
	case "vBytes":
		id := in.newObj(st, &Obj{T: types.NewSlice(types.Typ[types.Uint8]), C: in.newSmash(types.Typ[types.Uint8], arg(0), VRange{Lo: I(0), Hi: I(255)}), Site: "bytes"})
		return ret(st, k, VSlice{Obj: id, Off: LC(0), Len: arg(0), Cap: arg(0)})
	case "vStrN":
		return ret(st, k, VStr{Root: in.id(), Off: LC(0), Len: arg(0)})
	case "vHavoc":
		return fr.cases(st, a[0], func(s *State, v Val) []*State {
			if sl, ok := v.(VSlice); ok {
				fr.havocSlice(s, ins, sl)
			}
			k(s, VTuple{})
			return []*State{s}
		})
	case "vAssume":
		l := arg(0)
		if !st.P.addGE(l.addC(-1)) {
			return nil
		}
		return ret(st, k, VTuple{})
	case "vAssert":
		l := arg(0)
		cc := ins.Common()
		ok := st.P.entails(l.addC(-1))
		fr.check("assert:"+constString(cc.Args[1]), ins, ok, st, func() string {
			return constString(cc.Args[2])
		})
		if !ok {
			st.P.addGE(l.addC(-1))
		}
		return ret(st, k, VTuple{})
	case "vNonNilElems":
		in.nnElems = true
		return ret(st, k, VTuple{})
	case "vMarkExt":
		return fr.cases(st, a[0], func(s *State, v Val) []*State {
			if i, ok := v.(VIface); ok {
				v = i.V
			}
			id := 0
			switch x := v.(type) {
			case VSlice:
				id = x.Obj
			case VPtr:
				id = x.Obj
			}
			if o := s.heap[id]; o != nil {
				n := *o
				n.Ext = true
				s.heap[id] = &n
			}
			k(s, VTuple{})
			return []*State{s}
		})
	case "vReach":
		in.Reached[constString(ins.Common().Args[0])] = true
		return ret(st, k, VTuple{})
	case "vSetAny":
		return fr.cases(st, a[0], func(s *State, v Val) []*State {
			if sl, ok := v.(VSlice); ok {
				fr.havocSlice(s, ins, sl)
			}
			k(s, VTuple{})
			return []*State{s}
		})
	case "vGet":
		o, p, _ := ext(a[0])
		if o != nil {
			if x, ok := contentAt(o.C, p).(VExt); ok {
				return ret(st, k, VInt{L: x.N})
			}
		}
		return ret(st, k, VInt{L: st.fresh(I(0), maxLen)})
	case "vSet":
		o, p, id := ext(a[0])
		if o != nil && st.heap[id] != nil && !o.Sum {
			x := *o
			if len(p) == 0 {
				x.C = VExt{arg(1)}
			} else {
				x.C = fr.wr(st, o.C, p, VExt{arg(1)}, nil)
			}
			st.heap[id] = &x
		}
		return ret(st, k, VTuple{})
	case "vWrapArg":
		// the operand of %w
		f := str(st, in, a[0])
		idx := -1
		if f.IsC {
			idx = verbIndex(f.C, 'w')
		}
		if sl, ok := a[1].(VSlice); ok && idx >= 0 {
			if o := st.obj(sl.Obj); o != nil {
				if arr, ok := contentAt(o.C, sl.Path).(VArr); ok && idx < len(arr.E) {
					return ret(st, k, arr.E[idx])
				}
			}
			return ret(st, k, VTop{})
		}
		return ret(st, k, VNil{})
	case "vLineBytes", "vLineStr":
		// one whole source line
		v := a[0]
		p := &Prov{Kind: 1, L: arg(1)}
		switch x := v.(type) {
		case VSlice:
			x.Prov = p
			v = x
		case VStr:
			x.Prov = p
			v = x
		}
		return ret(st, k, v)
	case "vProvKind":
		kind := int64(0)
		if p := provOf(a[0]); p != nil {
			kind = int64(p.Kind)
		}
		return ret(st, k, cint(kind))
	case "vProvLine":
		if p := provOf(a[0]); p != nil {
			return ret(st, k, VInt{L: p.L})
		}
		return ret(st, k, cint(-1))
	case "vCount":
		return fr.cases(st, a[0], func(s *State, v Val) []*State {
			c, ok := arg(1).constVal()
			if isNil(v) {
				k(s, cint(0))
				return []*State{s}
			}
			if sl, is := v.(VSlice); is && ok {
				if o := s.obj(sl.Obj); o != nil {
					if sm, is := contentAt(o.C, sl.Path).(VSmash); is && sm.Cen != nil {
						if e, _ := sl.Len.sub(sm.N); s.P.entailsEQ(e) && s.P.entailsEQ(sl.Off) {
							k(s, VInt{L: sm.Cen.Tot[c]})
							return []*State{s}
						}
					}
				}
			}
			k(s, VInt{L: s.fresh(I(0), maxLen)})
			return []*State{s}
		})
	case "vLastCur", "vLastClass":
		// the most recently visited line of a census slice
		if sl, is := a[0].(VSlice); is {
			if o := st.obj(sl.Obj); o != nil {
				if sm, is := contentAt(o.C, sl.Path).(VSmash); is && sm.Cen != nil {
					if n == "vLastCur" {
						return ret(st, k, VInt{L: sm.Cen.Cur})
					}
					return ret(st, k, cint(int64(sm.Cen.Last)))
				}
			}
		}
		return ret(st, k, cint(-1))
	case "vNewLines":
		// n source lines, the first of which is number from
		bt := types.NewSlice(types.Typ[types.Uint8])
		sm := in.newSmash(bt, arg(0), VAnySlice{types.Typ[types.Uint8]})
		l := arg(1)
		sm.Prov, sm.ProvN = &l, arg(0)
		id := in.newObj(st, &Obj{T: types.NewSlice(bt), C: sm, Site: "lines"})
		return ret(st, k, VSlice{Obj: id, Off: LC(0), Len: arg(0), Cap: arg(0)})
	case "vSetLines":
		// elements of the array behind a[0] become source lines from a[1]
		return fr.cases(st, a[0], func(s *State, v Val) []*State {
			sl, ok := v.(VSlice)
			if ok {
				if o := s.obj(sl.Obj); o != nil && s.heap[sl.Obj] != nil {
					fr.noteStore(s, ins, VPtr{sl.Obj, sl.Path}, o)
					bt := types.NewSlice(types.Typ[types.Uint8])
					n := *o
					c := contentAt(o.C, sl.Path)
					var cn Lin
					switch y := c.(type) {
					case VSmash:
						cn = y.N
					case VArr:
						cn = LC(int64(len(y.E)))
					}
					sm := in.newSmash(bt, cn, VAnySlice{types.Typ[types.Uint8]})
					l := arg(1)
					end, _ := sl.Off.add(sl.Len)
					if old, is := c.(VSmash); is && old.Prov != nil {
						// lines that continue those already there
						if first, ok := l.sub(sl.Off); ok {
							d, _ := first.sub(*old.Prov)
							e, _ := old.ProvN.sub(sl.Off)
							if s.P.entailsEQ(d) && s.P.entailsEQ(e) {
								sm.Prov, sm.ProvN = old.Prov, s.P.norm(end)
							}
						}
					}
					if sm.Prov == nil && s.P.entailsEQ(sl.Off) {
						sm.Prov, sm.ProvN = &l, s.P.norm(end)
					}
					n.C = replaceAt(o.C, sl.Path, sm)
					s.heap[sl.Obj] = &n
				}
			}
			k(s, VTuple{})
			return []*State{s}
		})
	case "vFindLines":
		// the object through which an applier reads lines
		for _, id := range keysOf(st.heap) {
			o := st.heap[id]
			n, ok := o.T.(*types.Named)
			if !ok || o.Keep || n.Obj().Pkg() == nil || n.Obj().Pkg() != in.Pkg.Pkg || strings.HasPrefix(n.Obj().Name(), "v") {
				continue
			}
			tn, ok := in.Pkg.Members["LineReaderAt"].(*ssa.Type)
			if !ok {
				break
			}
			it, ok := tn.Type().Underlying().(*types.Interface)
			if pt := types.NewPointer(o.T); ok && types.Implements(pt, it) {
				return ret(st, k, VIface{pt, VPtr{Obj: id}})
			}
		}
		return ret(st, k, VNil{})
	case "vDump":
		if in.Debug || os.Getenv("AI_DUMP") != "" {
			fmt.Fprintf(os.Stderr, "dump %s: %s | %s\n", in.Fset.Position(ins.Pos()), valsStr(a), st.P.String())
			for id, o := range st.heap {
				if !o.Keep {
					fmt.Fprintf(os.Stderr, "   o%d(%s): %s\n", id, o.Site, valStr(o.C))
				}
			}
		}
		return ret(st, k, VTuple{})
	case "vTypeIs":
		// dynamic type by name
		want := constString(ins.Common().Args[1])
		return fr.cases(st, a[0], func(s *State, v Val) []*State {
			r := false
			if i, ok := v.(VIface); ok {
				r = strings.HasSuffix(typeKey(i.T), want)
			}
			k(s, cbool(r))
			return []*State{s}
		})
	}
	in.fail("unknown intrinsic %s", n)
	return nil
}

func provOf(v Val) *Prov {
	switch x := v.(type) {
	case VIface:
		return provOf(x.V)
	case VSlice:
		return x.Prov
	case VStr:
		return x.Prov
	}
	return nil
}

// verbIndex returns which operand the first verb v of a format consumes.
func verbIndex(f string, v byte) int {
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == v {
			return n
		}
		n++
	}
	return -1
}

var _ = token.NoPos
