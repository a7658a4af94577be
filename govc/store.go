package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Files of stored values: a sequence of JSON values, or of gob frames each led
// by its length. Reading one past the last value ends the file, or fails if the
// file is damaged there.

type storeState struct {
	items   *SliceV // the values stored
	cuts    *SliceV // frames: frame k is items[cuts[k]:cuts[k+1]]
	damaged *Term
	pos     int // cell: frames or values read
	phase   int // cell: 0 before a length, 1 before the bytes of a frame
}

func (d *storeState) count() *Term {
	if d.cuts != nil {
		return Sub(d.cuts.Len, Int(1))
	}
	return d.items.Len
}

func (x *Exec) openStore(st *State, path *Term, pos token.Pos) []exit {
	s := *st.cells[gitCell("store")].(*OpaqueV).Data.(*storeState)
	x.oblig(st, "requires", "the file opened is the one named", Eq(st.cells[gitCell("storepath")].(*Term), path), pos)
	e := Fresh("openerr", SInt)
	st.assume(Le(Int(0), e))
	missing := Fresh("missing", SBool)
	st.assume(Imp(missing, And(Lt(Int(0), e), Eq(s.items.Len, Int(0)), Not(s.damaged), Le(s.count(), Int(0)))))
	for _, pkg := range []string{"io/fs", "os"} {
		g := tm(x.globalByName(pkg, "ErrNotExist"))
		st.assume(Not(Eq(e, g)))
		st.assume(Eq(App("errIs", SBool, e, g), missing))
	}
	x.noteFlag(st, "failed", And(Not(Eq(e, Int(0))), Not(missing)))
	s.pos = x.namedCell(st, st.top().path+"!storepos", Int(0))
	s.phase = x.namedCell(st, st.top().path+"!phase", Int(0))
	x.scanCells[s.pos] = &scanState{avail: s.count(), cell: s.pos}
	x.zeroCells[s.phase] = true
	return one(st, &OpaqueV{Kind: "store", Data: &s}, e)
}

func (x *Exec) isZeroVal(v Val, t types.Type) *Term {
	if s, ok := v.(*SliceV); ok {
		return Eq(s.Len, Int(0))
	}
	if s, ok := v.(*StructV); ok && !isTime(t) {
		u := s.T.Underlying().(*types.Struct)
		r := TTrue
		for i, f := range s.F {
			r = And(r, x.isZeroVal(f, u.Field(i).Type()))
		}
		return r
	}
	return Eq(x.T.toTerm(v, t), x.T.toTerm(x.T.zero(t), t))
}

// ends: reading at the end of the file.
func (x *Exec) storeEnd(st *State, d *storeState, atEnd *Term) (*State, *State) {
	end, bad := st, st.clone()
	end.assume(And(atEnd, Not(d.damaged)))
	bad.assume(And(atEnd, d.damaged))
	return end, bad
}

func (x *Exec) badRead(st *State) *Term {
	e := Fresh("readerr", SInt)
	st.assume(And(Lt(Int(0), e), Not(Eq(e, tm(x.globalByName("io", "EOF"))))))
	return e
}

// decodeInto stores a decoded value; the target must be fresh.
func (x *Exec) decodeInto(st *State, target Val, el types.Type, v func() Val, pos token.Pos) {
	p, ok := ifaceInner(target).(*PtrV)
	if !ok || !types.Identical(p.Elem, el) {
		unsupported("decoding into %T", ifaceInner(target))
	}
	cur := x.load(st, p, pos)
	x.oblig(st, "requires", "a value is decoded into an empty variable", x.isZeroVal(cur, el), pos)
	nv := v()
	if s, ok := nv.(*SliceV); ok {
		c := *s
		c.Tok = newTok()
		nv = &c
	}
	x.store(st, p, nv, pos)
}

func storeOf(v Val) (*storeState, bool) {
	o, ok := ifaceInner(v).(*OpaqueV)
	if !ok || o.Kind != "store" {
		return nil, false
	}
	return o.Data.(*storeState), true
}

// fillBytes gives a byte slice its content.
func (x *Exec) fillBytes(st *State, v Val, arr *Term) {
	s, ok := v.(*SliceV)
	if !ok || s.Arr == nil || s.Tok == 0 {
		unsupported("reading into %T", v)
	}
	x.replaceTok(st, s.Tok, arr)
}

func storeArr(name string, k *Term) *Term { return App(name, SArr(SInt, SInt), k) }

func (x *Exec) frameSize(st *State, arr *Term) *Term {
	n := Fresh("size", SInt)
	st.assume(And(Le(Int(0), n), Lt(n, Int(1<<32))))
	if arr.Op == "app" && arr.Name == "framelen" {
		n = App("framesize", SInt, arr.Args[0])
		st.assume(And(Le(Int(0), n), Lt(n, Int(1<<32))))
	}
	return n
}

func (x *Exec) littleEndian(v Val) bool {
	i, ok := v.(*IfaceV)
	return ok && i.T != nil && i.T.String() == "encoding/binary.littleEndian"
}

func init() {
	more := map[string]intrin{
		"encoding/json.NewDecoder": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			d, ok := storeOf(args[0])
			if !ok || d.cuts != nil {
				unsupported("JSON decoder of an unknown file")
			}
			return one(st, &OpaqueV{Kind: "jsondec", Data: d})
		},
		"(*encoding/json.Decoder).Decode": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			d := opaque(args[0], "jsondec").Data.(*storeState)
			p := tm(st.cells[d.pos])
			more := st.clone()
			end, bad := x.storeEnd(st, d, Le(d.count(), p))
			more.assume(Lt(p, d.count()))
			x.decodeInto(more, args[1], d.items.Elem, func() Val { return x.sliceGet(more, d.items, p, nil) }, pos)
			more.cells[d.pos] = Add(p, Int(1))
			x.noteFlag(bad, "failed", TTrue)
			return []exit{one(more, Int(0))[0], one(end, x.globalByName("io", "EOF"))[0], one(bad, x.badRead(bad))[0]}
		},
		"io.ReadFull": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			d, ok := storeOf(args[0])
			if !ok || d.cuts == nil {
				unsupported("io.ReadFull of an unknown file")
			}
			s, ok := args[1].(*SliceV)
			if !ok {
				unsupported("reading into %T", args[1])
			}
			p := tm(st.cells[d.pos])
			ph := tm(st.cells[d.phase])
			if ph.Op != "int" {
				unsupported("a file read to an unknown place")
			}
			eof := tm(x.globalByName("io", "EOF"))
			more := st.clone()
			more.assume(Lt(p, d.count()))
			if ph.N.Sign() == 0 {
				x.oblig(st, "requires", "a length is read from four bytes", Eq(s.Len, Int(4)), pos)
				end, bad := x.storeEnd(st, d, Le(d.count(), p))
				x.fillBytes(more, s, storeArr("framelen", p))
				more.cells[d.phase] = Int(1)
				// damaged: no length, or one of something else
				worse := bad.clone()
				x.noteFlag(bad, "failed", TTrue)
				x.noteFlag(worse, "failed", TTrue)
				x.fillBytes(worse, s, Fresh("badlen", SArr(SInt, SInt)))
				worse.cells[d.phase] = Int(1)
				return []exit{one(more, s.Len, Int(0))[0], one(end, Int(0), eof)[0], one(bad, Fresh("n", SInt), x.badRead(bad))[0], one(worse, s.Len, Int(0))[0]}
			}
			bad := st
			bad.assume(Le(d.count(), p))
			x.oblig(more, "requires", "the bytes read are the frame's", Eq(s.Len, App("framesize", SInt, p)), pos)
			x.fillBytes(more, s, storeArr("framedata", p))
			more.cells[d.phase] = Int(0)
			more.cells[d.pos] = Add(p, Int(1))
			worse := bad.clone()
			e := Fresh("readerr", SInt) // may well be io.EOF
			bad.assume(Lt(Int(0), e))
			x.fillBytes(worse, s, Fresh("baddata", SArr(SInt, SInt)))
			worse.cells[d.phase] = Int(0)
			return []exit{one(more, s.Len, Int(0))[0], one(bad, Fresh("n", SInt), e)[0], one(worse, s.Len, Int(0))[0]}
		},
		"bytes.NewReader": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			s, ok := args[0].(*SliceV)
			if !ok || s.Arr == nil {
				unsupported("bytes.NewReader of %T", args[0])
			}
			return one(st, &OpaqueV{Kind: "bytesreader", Data: s})
		},
		"encoding/binary.Read": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			p, ok := ifaceInner(args[2]).(*PtrV)
			if !ok || !types.Identical(p.Elem, types.Typ[types.Uint32]) {
				unsupported("binary.Read into %T", ifaceInner(args[2]))
			}
			s := opaque(args[0], "bytesreader").Data.(*SliceV)
			x.oblig(st, "requires", "a length is little-endian", Bool(x.littleEndian(args[1])), pos)
			x.oblig(st, "requires", "a length is read from four bytes", Eq(s.Len, Int(4)), pos)
			x.store(st, p, x.frameSize(st, s.Arr), pos)
			return one(st, Int(0))
		},
		"(encoding/binary.littleEndian).Uint32": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			s, ok := args[1].(*SliceV)
			if !ok || s.Arr == nil {
				unsupported("Uint32 of %T", args[1])
			}
			x.oblig(st, "requires", "a length is read from four bytes", Eq(s.Len, Int(4)), pos)
			return one(st, x.frameSize(st, s.Arr))
		},
		"encoding/gob.NewDecoder": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, &OpaqueV{Kind: "gobdec", Data: opaque(ifaceInner(args[0]), "bytesreader").Data})
		},
		"(*encoding/gob.Decoder).Decode": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			s := opaque(args[0], "gobdec").Data.(*SliceV)
			o, ok := st.cells[gitCell("store")].(*OpaqueV)
			if !ok || s.Arr.Op != "app" && s.Arr.Op != "sym" {
				unsupported("decoding unknown bytes")
			}
			if s.Arr.Name != "framedata" {
				e := Fresh("decerr", SInt)
				st.assume(Lt(Int(0), e))
				return one(st, e)
			}
			d := o.Data.(*storeState)
			k := s.Arr.Args[0]
			at := func(i *Term) *Term { return tm(x.sliceGet(st, d.cuts, i, nil)) }
			lo, hi := at(k), at(Add(k, Int(1)))
			x.decodeInto(st, args[1], types.NewSlice(d.items.Elem), func() Val {
				n := *d.items
				n.Off = Add(n.Off, lo)
				n.Len = Sub(hi, lo)
				return &n
			}, pos)
			return one(st, Int(0))
		},
		"bufio.NewReader": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			if _, ok := storeOf(args[0]); !ok {
				unsupported("bufio.NewReader of %T", ifaceInner(args[0]))
			}
			return one(st, ifaceInner(args[0]))
		},
	}
	writers := map[string]intrin{
		"os.OpenFile": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			p, ok := st.cells[gitCell("writepath")].(*Term)
			fl := tm(args[1])
			if !ok || fl.Op != "int" {
				unsupported("os.OpenFile of an unknown file")
			}
			f := fl.N.Int64()
			x.oblig(st, "requires", "the file opened is the one named", Eq(p, tm(args[0])), pos)
			x.oblig(st, "requires", "what is added goes to the end of the file, which is made if need be", Bool(f&0x400 != 0 && f&0x40 != 0 && f&0x200 == 0 && f&3 != 0), pos)
			return one(st, &OpaqueV{Kind: "wfile"}, x.extErr(st, "openerr"))
		},
		"encoding/json.NewEncoder": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			opaque(args[0], "wfile")
			return one(st, &OpaqueV{Kind: "jsonenc"})
		},
		"(*encoding/json.Encoder).Encode": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			opaque(args[0], "jsonenc")
			v, t := x.encoded(st, args[1], pos)
			e := x.extErr(st, "writeerr")
			x.append2(st, x.T.toTerm(v, t), Eq(e, Int(0)))
			return one(st, e)
		},
		"encoding/gob.NewEncoder": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			p, ok := ifaceInner(args[0]).(*PtrV)
			if !ok || !isStrBuf(p.Elem) {
				unsupported("gob encoder to %T", ifaceInner(args[0]))
			}
			return one(st, &OpaqueV{Kind: "gobenc", Data: p})
		},
		"(*encoding/gob.Encoder).Encode": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			p := opaque(args[0], "gobenc").Data.(*PtrV)
			v, t := x.encoded(st, args[1], pos)
			x.builderAppend(st, p, App("gobof", SStr, x.T.toTerm(v, t)), pos)
			return one(st, x.extErr(st, "encerr"))
		},
		"encoding/binary.Write": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			opaque(args[0], "wfile")
			i, ok := args[2].(*IfaceV)
			if !ok || i.T == nil || !types.Identical(i.T, types.Typ[types.Uint32]) {
				unsupported("binary.Write of %T", args[2])
			}
			x.oblig(st, "requires", "a length is little-endian", Bool(x.littleEndian(args[1])), pos)
			x.oblig(st, "requires", "a length fits", And(Le(Int(0), tm(i.V)), Lt(tm(i.V), Int(1<<32))), pos)
			x.oblig(st, "requires", "a length follows a frame", Eq(tm(st.cells[gitCell("pending")]), Int(-1)), pos)
			st.cells[gitCell("pending")] = tm(i.V)
			return one(st, x.extErr(st, "writeerr"))
		},
		"(*os.File).Write": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			opaque(args[0], "wfile")
			d := opaque(args[1], "bytes").Data.(*Term)
			if d.Op != "app" || d.Name != "gobof" {
				unsupported("writing unknown bytes")
			}
			x.oblig(st, "requires", "the length is that of the frame", Eq(tm(st.cells[gitCell("pending")]), StrLen(d)), pos)
			st.cells[gitCell("pending")] = Int(-1)
			e := x.extErr(st, "writeerr")
			x.append2(st, d.Args[0], Eq(e, Int(0)))
			return one(st, StrLen(d), e)
		},
		"(*bytes.Buffer).Len": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, StrLen(x.loadP(st, args[0], pos)))
		},
		"(*bytes.Buffer).Bytes": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, &OpaqueV{Kind: "bytes", Data: x.loadP(st, args[0], pos)})
		},
	}
	for k, v := range writers {
		intrinsics[k] = v
	}
	for k, v := range more {
		intrinsics[k] = v
	}
	cl := intrinsics["(*os.File).Close"]
	intrinsics["(*os.File).Close"] = func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
		if o, ok := args[0].(*OpaqueV); ok && o.Kind == "wfile" {
			return one(st, x.extErr(st, "closeerr"))
		}
		return cl(x, st, fn, args, pos)
	}
	open := intrinsics["os.Open"]
	intrinsics["os.Open"] = func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
		if _, ok := st.cells[gitCell("store")]; ok {
			return x.openStore(st, tm(args[0]), pos)
		}
		return open(x, st, fn, args, pos)
	}
}

// setStore names a file of stored values.
func (x *Exec) setStore(st *State, args []Val) *Term {
	it := *args[0].(*SliceV)
	it.Tok = newTok()
	d := &storeState{items: &it, damaged: tm(args[len(args)-1])}
	if len(args) == 3 {
		c := *args[1].(*SliceV)
		c.Tok = newTok()
		d.cuts = &c
	}
	st.cells[gitCell("store")] = &OpaqueV{Kind: "storefile", Data: d}
	p := Fresh("filepath", SStr)
	st.assume(Lt(Int(0), StrLen(p)))
	st.cells[gitCell("storepath")] = p
	return p
}

// encoded: the value given to an encoder, or pointed to.
func (x *Exec) encoded(st *State, v Val, pos token.Pos) (Val, types.Type) {
	i, ok := v.(*IfaceV)
	if !ok || i.T == nil {
		unsupported("encoding an unknown value")
	}
	if p, ok := i.V.(*PtrV); ok {
		return x.load(st, p, pos), p.Elem
	}
	return i.V, i.T
}

func (x *Exec) append2(st *State, v, ok *Term) {
	id := gitCell("written")
	t, known := st.cells[id].(*TraceV)
	if !known || t.Arr.Sort != SArr(SInt, v.Sort) {
		unsupported("writing a value that is not stored")
	}
	st.cells[id] = &TraceV{Arr: Ite(ok, Store(t.Arr, t.Len, v), t.Arr), Len: Ite(ok, Add(t.Len, Int(1)), t.Len)}
}

// newStore names a file values of type t are added to.
func (x *Exec) newStore(st *State, t types.Type) *Term {
	st.cells[gitCell("written")] = &TraceV{Arr: Sym("written0", SArr(SInt, x.T.sortOf(t))), Len: Int(0)}
	st.cells[gitCell("pending")] = Int(-1)
	p := Fresh("filepath", SStr)
	st.assume(Lt(Int(0), StrLen(p)))
	st.cells[gitCell("writepath")] = p
	return p
}
