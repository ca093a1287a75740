package main

import (
	"fmt"
	"os"
	"strings"

	"ofxcheck/eng"
)

func debugFns(w *eng.World, args []string) {
	fz, ev, und := w.Freeze()
	if len(args) == 1 && args[0] == "cmds" {
		debugCmds(w)
		return
	}
	fmt.Println("freeze undecided:", und, "events:", len(ev), "frozen cells", len(fz.St.Cells()))
	for _, a := range args {
		merge := false
		if strings.HasPrefix(a, "merge:") {
			merge = true
			a = a[6:]
		}
		f := w.LibFunc(a)
		if f == nil {
			f = w.CmdFunc(a)
		}
		if f == nil {
			fmt.Println("no function", a)
			continue
		}
		n := 0
		r := &eng.Run{W: w, Frozen: fz, Merge: merge}
		if f.Pkg == w.Cmd {
			c := &C{W: w, Fz: fz}
			r = c.cmdRun(f)
		}
		r.OnOblig = func(o eng.Obligation) {
			if !o.OK {
				n++
				if n < 20 {
					fmt.Println("  OBLIG", o.Kind, w.InstrPos(o.Instr), o.Desc, "|", o.St.F.Path())
				}
			}
		}
		outs, _ := r.Analyze(f, nil)
		fmt.Println("==", a, "outcomes", len(outs), "calls", r.Calls, "branches", r.Branches, "undecided", r.Undecided)
		for i, o := range outs {
			if i > 12 {
				break
			}
			fmt.Println(" --", o.Kind, o.Res, w.InstrPos(o.Site))
			fmt.Println("     facts:", o.St.F.Path())
			for _, e := range o.St.Events(nil) {
				if os.Getenv("EV") != "" {
					dumpEv(w, e, "     ")
				}
			}
		}
	}
}

func dumpEv(w *eng.World, e *eng.Event, ind string) {
	switch e.Kind {
	case "alt":
		fmt.Println(ind+"alt", len(e.Alts))
		for _, a := range e.Alts {
			fmt.Println(ind + " |")
			for _, x := range a.Events {
				dumpEv(w, x, ind+"   ")
			}
		}
	case "loop":
		fmt.Println(ind+"loop backs", len(e.Loop.Backs), "ind", len(e.Loop.Ind))
		for _, b := range e.Loop.Backs {
			fmt.Println(ind+" back:", b.St.F.Path())
			for _, x := range b.St.Events(b.From) {
				dumpEv(w, x, ind+"   ")
			}
		}
	default:
		fmt.Println(ind+e.Kind, e.Callee, e.Cont, w.InstrPos(e.Site), e.Args)
	}
}

func debugCmds(w *eng.World) {
	fz, ev, _ := w.Freeze()
	c := &C{W: w, Fz: fz, Init: ev, obl: map[string]bool{}, rules: map[string]int{}}
	for _, d := range c.cliCmds() {
		fmt.Println(d.name, d.do, d.check)
		for _, f := range d.flags {
			fmt.Println("   ", f.kind, f.name, f.global, f.def)
		}
	}
	fmt.Println(c.Viols)
}
