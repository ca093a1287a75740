// ofxcheck decides the properties of /verif/properties.jsonl from the source
// of aclindsa/ofxgo without running it.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"time"

	"ofxcheck/eng"
)

var checks = map[string]func(*C){}
var explanations = map[string]string{}
var levels = map[string]string{}
var floors = map[string]int{}

// reg registers a check: floor is the number of obligations confirmed by
// hand below which the rules no longer match the code.
func reg(id string, floor int, explanation string, f func(*C)) {
	checks[id], floors[id], explanations[id], levels[id] = f, floor, explanation, "other"
}

func newC(id, tier string) *C {
	return &C{ID: id, Tier: tier, obl: map[string]bool{}, rules: map[string]int{}, funcs: map[string]bool{}}
}

func (c *C) exec(repo string, env []string, overlay map[string][]byte) {
	defer func() {
		if x := recover(); x != nil {
			c.Fail("undecided", c.ID, "", "the analysis failed: %v", x)
			if os.Getenv("OFXCHECK_DEBUG") != "" {
				fmt.Println(string(debug.Stack()))
			}
		}
	}()
	w, err := eng.Load(repo, env, overlay)
	if err != nil {
		c.Fail("build", c.ID, "", "the code does not load: %v", err)
		return
	}
	c.W = w
	c.Fz, c.Init, c.InitUnd = w.Freeze()
	for _, u := range c.InitUnd {
		c.Fail("undecided", "package initialisation", "", "%s", u)
	}
	checks[c.ID](c)
}

func main() {
	start := time.Now()
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	dump := flag.String("dump-tables", "", "write the tables found in the repository")
	list := flag.Bool("list", false, "list the checks")
	flag.Parse()
	if *dump != "" {
		dumpTables(*repo, *dump)
		return
	}
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if *prop == "" && flag.NArg() > 0 {
		w, err := eng.Load(*repo, nil, nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debugFns(w, flag.Args())
		return
	}
	if *prop == "all" {
		bad := 0
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			c := newC(id, *tier)
			t := time.Now()
			c.exec(*repo, nil, nil)
			if c.finish(*verif, t, 1) != 0 {
				bad++
				if os.Getenv("OFXCHECK_FIRST") != "" {
					break
				}
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
		return
	}
	if checks[*prop] == nil {
		fmt.Println("no such check:", *prop)
		os.Exit(2)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := newC(*prop, *tier)
	c.exec(*repo, nil, nil)
	if *tier == "thorough" {
		thorough(c, *repo)
	}
	os.Exit(c.finish(*verif, start, seed))
}

// thorough repeats the analysis for other build targets.
func thorough(c *C, repo string) {
	for _, v := range [][2]string{{"linux", "386"}, {"windows", "amd64"}, {"darwin", "arm64"}} {
		c.variant = v[0] + "/" + v[1]
		c.exec(repo, []string{"GOOS=" + v[0], "GOARCH=" + v[1], "CGO_ENABLED=0"}, nil)
	}
	c.variant = ""
}
