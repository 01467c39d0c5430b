package ai

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. Values are immutable trees.
type Val interface{}

// VInt is an integer or a boolean (0/1).
type VInt struct {
	L Lin
	B bool // boolean
}

// VStr is a window [Off, Off+Len) of an immutable string root, or a constant.
type VStr struct {
	Root     int
	Off, Len Lin
	C        string
	IsC      bool
	Prov     *Prov // provenance of the whole value
}

// Prov marks a byte slice or string as one whole source line (number L), or a
// fragment line's text.
type Prov struct {
	Kind int // 1: source line L; 2: text of fragment line at cursor L of object Obj
	L    Lin
	Obj  int
}

type VNil struct{}

// VPtr points into an object.
type VPtr struct {
	Obj  int
	Path []PE
}

// PE is a path element: a field or an array index.
type PE struct {
	F     int
	IsIdx bool
	Idx   Lin
}

// VSlice views the array content found at Obj/Path.
type VSlice struct {
	Obj           int
	Path          []PE
	Off, Len, Cap Lin
	Prov          *Prov
}

type VIface struct {
	T types.Type
	V Val
}
type VFunc struct {
	Fn   *ssa.Function
	Bind []Val
}
type VStruct struct{ F []Val }
type VArr struct{ E []Val }

// VSmash is an array whose elements are summarised by a symbol-free template.
type VSmash struct {
	T    types.Type // element type
	N    Lin        // array length
	El   Val        // template
	Cen  *Census
	Seq  *Seq
	Prov *Lin // element i < ProvN is source line Prov+i

	ProvN Lin
}

// Census counts the elements of an array by class and follows an in-order
// traversal.
type Census struct {
	Tot  [4]Lin // context, delete, add, other
	Cnt  [4]Lin // counts among the first Cur elements
	Cur  Lin
	Last int // class of element Cur-1, or -1
}

// Seq says the first N elements are non-decreasing and the last is Last.
type Seq struct {
	N, Last Lin
	Root    int // names the elements in ByteFacts
}

type VTuple struct{ V []Val }
type VLazy struct {
	T   types.Type
	NN  bool // pointers are non-nil
	Ext bool // owned by the caller
}

// VAlt is one of several structural alternatives; equal IDs always choose
// the same alternative.
type VAlt struct {
	ID   int
	Alts []Val
}

// VExt is an opaque value of a type defined elsewhere, with a ghost counter.
type VExt struct{ N Lin }
type VTop struct{}
type VBot struct{}
type VMap struct {
	K, V   Val // templates
	Consts map[string]Val
	Closed bool // Consts holds every entry
}
type VIter struct {
	Of  Val
	Pos Lin
}

// templates
type VRange struct {
	Lo, Hi I128
	B      bool
}
type VAnyStr struct{}
type VAnySlice struct{ T types.Type }

// Obj is a heap object.
type Obj struct {
	T    types.Type
	C    Val
	Site string
	Ext  bool // owned by the caller
	Sum  bool // stands for many objects
	Keep bool // read-only package data
	Glob bool // a variable of the package, or reached from one
}

func isNil(v Val) bool { _, ok := v.(VNil); return ok }

func cint(c int64) VInt { return VInt{L: LC(c)} }
func cbool(b bool) VInt {
	if b {
		return VInt{LC(1), true}
	}
	return VInt{LC(0), true}
}
func cstr(s string) VStr { return VStr{C: s, IsC: true, Len: LC(int64(len(s)))} }

func under(t types.Type) types.Type { return t.Underlying() }

// opaqueStruct reports whether a struct type is treated as a black box.
func (in *Interp) opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil || n.Obj().Pkg().Path() == in.PkgPath {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() {
			return false
		}
	}
	return true
}

func intRange(t types.Type) (lo, hi I128, ok bool) {
	b, is := under(t).(*types.Basic)
	if !is {
		return
	}
	bits := 0
	uns := false
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		bits = 64
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Uint, types.Uint64, types.Uintptr:
		bits, uns = 64, true
	case types.Uint8:
		bits, uns = 8, true
	case types.Uint16:
		bits, uns = 16, true
	case types.Uint32:
		bits, uns = 32, true
	case types.Bool, types.UntypedBool:
		return I(0), I(1), true
	default:
		return
	}
	if uns {
		hi = pow2(bits).sub(I(1))
		return I(0), hi, true
	}
	return pow2(bits - 1).neg(), pow2(bits - 1).sub(I(1)), true
}

func pow2(n int) I128 {
	if n < 64 {
		return I128{0, 1 << uint(n)}
	}
	return I128{1 << uint(n-64), 0}
}

func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

var maxLen = pow2(48)

// zero returns the zero value of t.
func (in *Interp) zero(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return cbool(false)
		case u.Info()&types.IsInteger != 0:
			return cint(0)
		case u.Info()&types.IsString != 0:
			return cstr("")
		case u.Kind() == types.UnsafePointer:
			return VNil{}
		}
		return VTop{}
	case *types.Struct:
		if in.opaqueStruct(t) {
			return VExt{LC(0)}
		}
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = in.zero(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Array:
		if u.Len() <= maxPrecise {
			e := make([]Val, u.Len())
			for i := range e {
				e[i] = in.zero(u.Elem())
			}
			return VArr{e}
		}
		return in.newSmash(u.Elem(), LC(u.Len()), in.tmpl(nil, in.zero(u.Elem()), u.Elem()))
	case *types.Tuple:
		v := make([]Val, u.Len())
		for i := range v {
			v[i] = in.zero(u.At(i).Type())
		}
		return VTuple{v}
	}
	return VNil{}
}

const maxPrecise = 40

func (in *Interp) newSmash(elem types.Type, n Lin, el Val) VSmash {
	s := VSmash{T: elem, N: n, El: el}
	return s
}

// isCensus reports whether slices of t are tracked by class.
func (in *Interp) isCensus(t types.Type) (field int, ok bool) {
	if !in.Watch {
		return 0, false
	}
	n, is := types.Unalias(t).(*types.Named)
	if !is || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != in.PkgPath || n.Obj().Name() != "Line" {
		return 0, false
	}
	s, is := n.Underlying().(*types.Struct)
	if !is {
		return 0, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Op" && isInt(s.Field(i).Type()) {
			return i, true
		}
	}
	return 0, false
}

// anyVal returns an arbitrary value of type t. Pointers may be nil unless
// nonNil is set.
func (in *Interp) anyVal(st *State, t types.Type, ext bool) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&(types.IsInteger|types.IsBoolean) != 0:
			lo, hi, _ := intRange(t)
			return VInt{st.fresh(lo, hi), u.Info()&types.IsBoolean != 0}
		case u.Info()&types.IsString != 0:
			return in.anyStr(st)
		}
		return VTop{}
	case *types.Struct:
		if in.opaqueStruct(t) {
			return VExt{st.fresh(I(0), maxLen)}
		}
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = VLazy{T: u.Field(i).Type(), Ext: ext}
		}
		return VStruct{f}
	case *types.Array:
		if u.Len() <= maxPrecise {
			e := make([]Val, u.Len())
			for i := range e {
				e[i] = VLazy{T: u.Elem(), Ext: ext}
			}
			return VArr{e}
		}
		return in.newSmash(u.Elem(), LC(u.Len()), VLazy{T: u.Elem(), Ext: ext})
	case *types.Slice:
		return in.anySlice(st, u.Elem(), ext)
	case *types.Pointer:
		id := in.newObj(st, &Obj{T: u.Elem(), C: VLazy{T: u.Elem(), Ext: ext}, Ext: ext, Site: "any " + u.Elem().String()})
		return VAlt{in.id(), []Val{VNil{}, VPtr{Obj: id}}}
	case *types.Interface:
		return VTop{}
	}
	return VTop{}
}

func (in *Interp) anyStr(st *State) VStr {
	return VStr{Root: in.id(), Len: st.fresh(I(0), maxLen)}
}

func (in *Interp) anySlice(st *State, elem types.Type, ext bool) Val {
	n := st.fresh(I(0), maxLen)
	sm := in.newSmash(elem, n, VLazy{T: elem, Ext: ext, NN: in.nnElems})
	if _, ok := in.isCensus(elem); ok {
		c := &Census{Cur: LC(0), Last: -1}
		sum := LC(0)
		for i := range c.Tot {
			c.Tot[i] = st.fresh(I(0), maxLen)
			c.Cnt[i] = LC(0)
			sum, _ = sum.add(c.Tot[i])
		}
		d, _ := sum.sub(n)
		st.P.addEQ(d)
		sm.Cen = c
	}
	id := in.newObj(st, &Obj{T: types.NewSlice(elem), C: sm, Ext: ext, Site: "any []" + elem.String()})
	c := n
	if ext && isByte(elem) {
		c = st.fresh(I(0), maxLen)
		d, _ := c.sub(n)
		st.P.addGE(d)
	}
	return VSlice{Obj: id, Off: LC(0), Len: n, Cap: c}
}

func valStr(v Val) string {
	switch v := v.(type) {
	case VInt:
		return v.L.String()
	case VStr:
		if v.IsC {
			return fmt.Sprintf("%q", v.C)
		}
		return fmt.Sprintf("str%d[%v:+%v]", v.Root, v.Off, v.Len)
	case VNil:
		return "nil"
	case VPtr:
		return fmt.Sprintf("&o%d%s", v.Obj, pathStr(v.Path))
	case VSlice:
		return fmt.Sprintf("o%d%s[%v:+%v:%v]", v.Obj, pathStr(v.Path), v.Off, v.Len, v.Cap)
	case VIface:
		return fmt.Sprintf("iface(%v,%s)", v.T, valStr(v.V))
	case VFunc:
		return "func " + v.Fn.String()
	case VStruct:
		return "{" + valsStr(v.F) + "}"
	case VArr:
		return "[" + valsStr(v.E) + "]"
	case VTuple:
		return "(" + valsStr(v.V) + ")"
	case VSmash:
		s := fmt.Sprintf("smash(n=%v,%s", v.N, valStr(v.El))
		if v.Cen != nil {
			s += fmt.Sprintf(",cen tot=%v cur=%v cnt=%v last=%d", v.Cen.Tot, v.Cen.Cur, v.Cen.Cnt, v.Cen.Last)
		}
		if v.Seq != nil {
			s += fmt.Sprintf(",seq n=%v last=%v", v.Seq.N, v.Seq.Last)
		}
		if v.Prov != nil {
			s += fmt.Sprintf(",prov=%v<%v", *v.Prov, v.ProvN)
		}
		return s + ")"
	case VLazy:
		return "any"
	case VAlt:
		return fmt.Sprintf("alt%d<%s>", v.ID, valsStr(v.Alts))
	case VExt:
		return fmt.Sprintf("ext(%v)", v.N)
	case VTop:
		return "top"
	case VBot:
		return "bot"
	case VRange:
		return fmt.Sprintf("[%v..%v]", v.Lo, v.Hi)
	case VAnyStr:
		return "anystr"
	case VAnySlice:
		return "anyslice"
	case VMap:
		return "map"
	case nil:
		return "<none>"
	}
	return fmt.Sprintf("%T", v)
}
func valsStr(vs []Val) string {
	out := make([]string, len(vs))
	for i, v := range vs {
		out[i] = valStr(v)
	}
	return strings.Join(out, ", ")
}
func pathStr(p []PE) string {
	s := ""
	for _, e := range p {
		if e.IsIdx {
			s += "[" + e.Idx.String() + "]"
		} else {
			s += fmt.Sprintf(".%d", e.F)
		}
	}
	return s
}
