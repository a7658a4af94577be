package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Subprocesses and scanners: a git command is its argument list, the tokens it
// writes to standard output and whether it exits with an error.

type procState struct {
	Args Val
	Exit *Term   // error of Wait
	Out  *SliceV // tokens written to standard output
	Text *Term   // the whole of it
	In   int     // cell of the text written to standard input
}

func gitCell(name string) int {
	k := "git:" + name
	id, ok := cellIDs[k]
	if !ok {
		id = 500000 + len(cellIDs)
		cellIDs[k] = id
	}
	return id
}

var strSlice = types.NewSlice(types.Typ[types.String])

func (x *Exec) newCmd(st *State, args Val) *OpaqueV {
	p := &procState{Args: args}
	st.cells[gitCell("args")] = args
	p.Exit = Fresh("exit", SInt)
	st.assume(Le(Int(0), p.Exit))
	if f, ok := st.cells[gitCell("fail")].(*Term); ok {
		st.assume(Eq(f, Not(Eq(p.Exit, Int(0)))))
	}
	if o, ok := st.cells[gitCell("out")].(*SliceV); ok {
		p.Out = o
	} else {
		p.Out = x.T.sym("gitout", strSlice).(*SliceV)
		st.assume(Le(Int(0), p.Out.Len))
	}
	if t, ok := st.cells[gitCell("text")].(*Term); ok {
		p.Text = t
	} else {
		p.Text = Fresh("gittext", SStr)
	}
	p.In = x.namedCell(st, st.top().path+"!stdin", Str(""))
	return &OpaqueV{Kind: "cmd", Data: p}
}

type scanState struct {
	out   *SliceV
	avail *Term
	err   *Term
	cell  int
	nul   bool
}

func opaque(v Val, kind string) *OpaqueV {
	if i, ok := v.(*IfaceV); ok {
		v = i.V
	}
	o, ok := v.(*OpaqueV)
	if !ok || o.Kind != kind {
		unsupported("expected a known %s, got %T", kind, v)
	}
	return o
}

func (x *Exec) extErr(st *State, name string) *Term {
	e := Fresh(name, SInt)
	st.assume(Le(Int(0), e))
	x.noteFlag(st, "failed", Not(Eq(e, Int(0))))
	return e
}

func pipeOp(kind string) intrin {
	return func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
		c := opaque(args[0], "cmd")
		e := x.extErr(st, "piperr")
		x.noteFlag(st, "spawnfailed", Not(Eq(e, Int(0))))
		return one(st, &OpaqueV{Kind: kind, Data: c.Data}, e)
	}
}

func init() {
	more := map[string]intrin{
		"os/exec.CommandContext": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, x.newCmd(st, x.cmdArgs(st, args[1], args[2])))
		},
		"os/exec.Command": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, x.newCmd(st, x.cmdArgs(st, args[0], args[1])))
		},
		"(*os/exec.Cmd).StdoutPipe": pipeOp("stdout"),
		"(*os/exec.Cmd).StderrPipe": pipeOp("stderr"),
		"(*os/exec.Cmd).StdinPipe":  pipeOp("stdin"),
		"(*os/exec.Cmd).Start": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			p := opaque(args[0], "cmd").Data.(*procState)
			e := x.extErr(st, "starterr")
			x.noteFlag(st, "spawnfailed", Not(Eq(e, Int(0))))
			// whether or not anybody waits for it, a failing command is a failure
			x.noteFlag(st, "failed", Not(Eq(p.Exit, Int(0))))
			return one(st, e)
		},
		"(*os/exec.Cmd).Wait": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, opaque(args[0], "cmd").Data.(*procState).Exit)
		},
		"(*os.ProcessState).ExitCode": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, Fresh("exitcode", SInt))
		},
		"io.ReadAll": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			v := args[0]
			if i, ok := v.(*IfaceV); ok {
				v = i.V
			}
			o, ok := v.(*OpaqueV)
			if !ok {
				unsupported("io.ReadAll of %T", v)
			}
			t := Fresh("text", SStr)
			if o.Kind == "stdout" {
				t = o.Data.(*procState).Text
			}
			e := x.extErr(st, "readerr")
			return one(st, &OpaqueV{Kind: "bytes", Data: t}, e)
		},
		"bufio.NewScanner": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			r, _ := ifaceInner(args[0]).(*OpaqueV)
			if r == nil || r.Kind != "stdout" && r.Kind != "file" {
				unsupported("bufio.NewScanner of %T", ifaceInner(args[0]))
			}
			p := r.Data.(*procState)
			s := &scanState{out: p.Out}
			s.err = x.extErr(st, "scanerr")
			s.avail = Fresh("avail", SInt)
			st.assume(And(Le(Int(0), s.avail), Le(s.avail, p.Out.Len)))
			st.assume(Imp(Eq(s.err, Int(0)), Eq(s.avail, p.Out.Len)))
			s.cell = x.namedCell(st, st.top().path+"!scanpos", Int(0))
			x.scanCells[s.cell] = s
			return one(st, &OpaqueV{Kind: "scanner", Data: s})
		},
		"os.Open": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			p := &procState{}
			if path, ok := st.cells[gitCell("path")].(*Term); ok {
				x.oblig(st, "requires", "the file opened is the one named", Eq(path, tm(args[0])), pos)
				p.Out = st.cells[gitCell("file")].(*SliceV)
			} else {
				p.Out = x.T.sym("file", strSlice).(*SliceV)
				st.assume(Le(Int(0), p.Out.Len))
			}
			return one(st, &OpaqueV{Kind: "file", Data: p}, x.extErr(st, "openerr"))
		},
		"(*os.File).Close": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			e := Fresh("closeerr", SInt)
			st.assume(Le(Int(0), e))
			return one(st, e)
		},
		"(*bufio.Scanner).Split": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			s := opaque(args[0], "scanner").Data.(*scanState)
			x.splitNul(st, args[1], pos)
			s.nul = true
			return one(st)
		},
		"(*bufio.Scanner).Buffer": noop,
		"(*bufio.Scanner).Scan": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			s := opaque(args[0], "scanner").Data.(*scanState)
			p := tm(st.cells[s.cell])
			ok := Lt(p, s.avail)
			st.cells[s.cell] = Ite(ok, Add(p, Int(1)), p)
			return one(st, ok)
		},
		"(*bufio.Scanner).Text": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			s := opaque(args[0], "scanner").Data.(*scanState)
			p := tm(st.cells[s.cell])
			return one(st, Select(s.out.Arr, Add(s.out.Off, Sub(p, Int(1)))))
		},
		"(*bufio.Scanner).Err": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, opaque(args[0], "scanner").Data.(*scanState).err)
		},
		"bytes.IndexByte": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			d := opaque(args[0], "bytes").Data.(*Term)
			return one(st, x.indexOf(st, d, runeStr(tm(args[1]))))
		},
		"bytes.Index": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, x.indexOf(st, opaque(args[0], "bytes").Data.(*Term), opaque(args[1], "bytes").Data.(*Term)))
		},
		"bufio.NewWriter": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, &OpaqueV{Kind: "writer", Data: opaque(args[0], "stdin").Data})
		},
		"fmt.Fprintln": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			if o, ok := ifaceInner(args[0]).(*OpaqueV); ok && o.Kind == "writer" {
				return x.stdinWrite(st, o, args[1], pos)
			}
			return one(st, Fresh("n", SInt), Int(0))
		},
		"(*bufio.Writer).Flush": func(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []exit {
			return one(st, x.inputErr(st, "flusherr"))
		},
	}
	for k, v := range more {
		intrinsics[k] = v
	}
	opaqueMethods["stdin.Close"] = func(x *Exec, st *State, r *OpaqueV, args []Val, pos token.Pos) []exit {
		return one(st, x.extErr(st, "closeerr"))
	}
}

func ifaceInner(v Val) Val {
	if i, ok := v.(*IfaceV); ok {
		return i.V
	}
	return v
}

// lines written to a command's standard input are recorded in a trace.
func (x *Exec) stdinWrite(st *State, o *OpaqueV, args Val, pos token.Pos) []exit {
	vs := variadic(args)
	if len(vs) != 1 {
		unsupported("writing %d values to a subprocess", len(vs))
	}
	id := gitCell("stdin")
	t, ok := st.cells[id].(*TraceV)
	if !ok {
		t = &TraceV{Arr: Sym("stdin0", SArr(SInt, SStr)), Len: Int(0)}
	}
	st.cells[id] = &TraceV{Arr: Store(t.Arr, t.Len, x.fmtArg(st, vs[0])), Len: Add(t.Len, Int(1))}
	return one(st, Fresh("n", SInt), x.inputErr(st, "writeerr"))
}

// inputErr: a failure to write to git's standard input. Git stops reading its
// input only when it fails, so this is git's failure, seen when it ends.
func (x *Exec) inputErr(st *State, name string) *Term {
	e := Fresh(name, SInt)
	st.assume(Le(Int(0), e))
	return e
}

func (x *Exec) indexOf(st *State, d, sep *Term) *Term {
	i := App("indexof", SInt, d, sep)
	st.assume(And(Le(Int(-1), i), Lt(i, Add(StrLen(d), Int(1)))))
	if sep.Op == "str" && len(sep.Name) > 0 {
		st.assume(Imp(Le(Int(0), i), Le(Add(i, StrLen(sep)), StrLen(d))))
		st.assume(Imp(Le(Int(0), i), Not(StrOp("str.contains", SBool, substr(d, Int(0), i), sep))))
		st.assume(Eq(Le(Int(0), i), StrOp("str.contains", SBool, d, sep)))
		st.assume(Imp(Le(Int(0), i), Eq(substr(d, i, StrLen(sep)), sep)))
	}
	return i
}

// splitNul: the split function given to a scanner must cut the input at NULs,
// deliver the rest at the end and ask for more otherwise.
func (x *Exec) splitNul(st *State, f Val, pos token.Pos) {
	if x.scout > 0 || st.gmode > 0 {
		return
	}
	s := st.clone()
	d := Fresh("data", SStr)
	eof := Fresh("atEOF", SBool)
	i := x.indexOf(s, d, Str("\x00"))
	outs := x.callVal(s, f, []Val{&OpaqueV{Kind: "bytes", Data: d}, eof}, nil, pos)
	text := func(v Val) (*Term, bool) {
		switch t := v.(type) {
		case *OpaqueV:
			if t.Kind == "bytes" {
				return t.Data.(*Term), true
			}
		case *SliceV:
			if t.Len.Op == "int" && t.Len.N.Sign() == 0 {
				return nil, true
			}
		}
		unsupported("token of a split function: %T", v)
		return nil, false
	}
	final := tm(x.globalByName("bufio", "ErrFinalToken"))
	for _, o := range outs {
		adv, err := tm(o.ret[0]), tm(o.ret[2])
		t, _ := text(o.ret[1])
		found, more := Le(Int(0), i), And(Lt(i, Int(0)), Not(eof))
		rest := And(Lt(i, Int(0)), eof)
		if t == nil {
			x.oblig(o.st, "requires", "split function delivers a token at a NUL and at the end", And(Not(found), Not(rest)), pos)
			x.oblig(o.st, "requires", "split function asks for more", Imp(more, And(Eq(adv, Int(0)), Eq(err, Int(0)))), pos)
			continue
		}
		x.oblig(o.st, "requires", "split function cuts at the first NUL", Imp(found, And(Eq(adv, Add(i, Int(1))), Eq(err, Int(0)), Eq(t, substr(d, Int(0), i)))), pos)
		x.oblig(o.st, "requires", "split function delivers the rest at the end", Imp(rest, And(Eq(t, d), Eq(err, final))), pos)
		x.oblig(o.st, "requires", "split function asks for more", Not(more), pos)
	}
}

func (x *Exec) globalByName(pkg, name string) Val {
	for _, p := range x.P.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				return x.globalInit(g, g.Type().Underlying().(*types.Pointer).Elem())
			}
		}
	}
	unsupported("no global %s.%s", pkg, name)
	return nil
}
