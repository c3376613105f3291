// Command native replays harness traces and runs the ANTLR-generated parser.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/antlr/antlr4/runtime/Go/antlr"
	"github.com/cloudprivacylabs/opencypher/parser"
	_ "verif/harness/h"
	"verif/harness/vf"
)

type req struct {
	H     string  `json:"h"`
	Trace []vf.Ev `json:"trace"`
	Tries int     `json:"tries"`
}

type res struct {
	Status string   `json:"status"`
	ID     string   `json:"id"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func run1(r req) (out res) {
	f := vf.Registry[r.H]
	if f == nil {
		return res{Status: "missing", Msg: "no harness " + r.H}
	}
	vf.Cur = &vf.State{Trace: r.Trace}
	defer func() {
		out.Obs = vf.Cur.Obs
		if p := recover(); p != nil {
			if s, ok := p.(vf.Stop); ok {
				out.Status, out.ID, out.Msg = s.Status, s.ID, s.Msg
				return
			}
			out.Status, out.Msg = "panic", fmt.Sprint(p)
			if os.Getenv("VERIF_STACK") != "" {
				out.Msg += "\n" + string(debug.Stack())
			}
		}
	}()
	f()
	out.Status = "ok"
	return
}

func replay() {
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	debug.SetMaxStack(256 << 20)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var r req
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			fmt.Println("@R {\"status\":\"missing\"}")
			continue
		}
		var out res
		for i := 0; i == 0 || i < r.Tries; i++ {
			out = run1(r)
			if out.Status == "assert" || out.Status == "panic" {
				break
			}
		}
		b, _ := json.Marshal(out)
		os.Stdout.WriteString("\n@R " + string(b) + "\n")
	}
}

type pnode struct {
	T   string   `json:"t"`
	R   int      `json:"r,omitempty"`
	S   int      `json:"s"`
	E   int      `json:"e"`
	Err bool     `json:"x,omitempty"`
	C   []*pnode `json:"c,omitempty"`
}

type ptok struct {
	Type  int    `json:"t"`
	Name  string `json:"n"`
	Text  string `json:"x"`
	Start int    `json:"s"`
	Stop  int    `json:"e"`
	Idx   int    `json:"i"`
	Line  int    `json:"l"`
	Col   int    `json:"c"`
	Chan  int    `json:"h"`
}

type perr struct {
	Line int    `json:"l"`
	Col  int    `json:"c"`
	Msg  string `json:"m"`
}

type presult struct {
	Root *pnode  `json:"root"`
	Toks []*ptok `json:"toks"`
	LErr []perr  `json:"lerr"`
	PErr []perr  `json:"perr"`
	Fail string  `json:"fail"`
}

type lst struct {
	antlr.DefaultErrorListener
	out *[]perr
}

func (l *lst) SyntaxError(recognizer antlr.Recognizer, offendingSymbol interface{}, line, column int, msg string, e antlr.RecognitionException) {
	*l.out = append(*l.out, perr{line, column, hex.EncodeToString([]byte(msg))})
}

// The prediction caches of the parser are kept from one text to the next;
// NewCypherParser starts with empty ones, which is many times slower.
var warm struct {
	dfa   []*antlr.DFA
	cache *antlr.PredictionContextCache
	n     int
}

func warmUp(p *parser.CypherParser) {
	atn := p.GetATN()
	if warm.n%5000 == 0 {
		warm.dfa = make([]*antlr.DFA, len(atn.DecisionToState))
		for i, ds := range atn.DecisionToState {
			warm.dfa[i] = antlr.NewDFA(ds, i)
		}
		warm.cache = antlr.NewPredictionContextCache()
	}
	warm.n++
	p.Interpreter = antlr.NewParserATNSimulator(p, atn, warm.dfa, warm.cache)
}

func parse1(rule, input string, cold bool) (out *presult) {
	out = &presult{}
	defer func() {
		if p := recover(); p != nil {
			out.Fail = fmt.Sprint(p)
		}
	}()
	lexer := parser.NewCypherLexer(antlr.NewInputStream(input))
	lexer.RemoveErrorListeners()
	lexer.AddErrorListener(&lst{out: &out.LErr})
	p := parser.NewCypherParser(antlr.NewCommonTokenStream(lexer, 0))
	p.RemoveErrorListeners()
	p.AddErrorListener(&lst{out: &out.PErr})
	p.BuildParseTrees = true
	if !cold {
		warmUp(p)
	}
	r := reflect.ValueOf(p).MethodByName(rule).Call(nil)[0].Interface().(antlr.Tree)
	ids := map[antlr.Token]int{}
	tok := func(t antlr.Token) int {
		if t == nil || reflect.ValueOf(t).IsNil() {
			return -1
		}
		if i, ok := ids[t]; ok {
			return i
		}
		i := len(out.Toks)
		ids[t] = i
		name := ""
		if k := t.GetTokenType(); k >= 0 && k < len(lexer.SymbolicNames) {
			name = lexer.SymbolicNames[k]
		}
		out.Toks = append(out.Toks, &ptok{Type: t.GetTokenType(), Name: name, Text: hex.EncodeToString([]byte(t.GetText())), Start: t.GetStart(), Stop: t.GetStop(), Idx: t.GetTokenIndex(), Line: t.GetLine(), Col: t.GetColumn(), Chan: t.GetChannel()})
		return i
	}
	var walk func(t antlr.Tree) *pnode
	walk = func(t antlr.Tree) *pnode {
		switch x := t.(type) {
		case antlr.ErrorNode:
			return &pnode{Err: true, S: tok(x.GetSymbol())}
		case antlr.TerminalNode:
			return &pnode{S: tok(x.GetSymbol())}
		case antlr.ParserRuleContext:
			n := &pnode{T: reflect.TypeOf(x).Elem().Name(), R: x.GetRuleIndex(), S: tok(x.GetStart()), E: tok(x.GetStop())}
			for _, c := range x.GetChildren() {
				n.C = append(n.C, walk(c))
			}
			return n
		}
		panic(fmt.Sprintf("tree node %T", t))
	}
	out.Root = walk(r)
	return
}

func parse() {
	so := os.Stdout
	os.Stdout = os.Stderr
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var m map[string]string
		json.Unmarshal(sc.Bytes(), &m)
		in, _ := hex.DecodeString(m["input"])
		b, _ := json.Marshal(parse1(m["rule"], string(in), false))
		if os.Getenv("SYM_PARSE_CHECK") != "" {
			c, _ := json.Marshal(parse1(m["rule"], string(in), true))
			if string(b) != string(c) {
				fmt.Fprintf(os.Stderr, "PARSE DIFFERS %q\n", in)
			}
		}
		so.Write(append(b, '\n'))
	}
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	switch os.Args[1] {
	case "replay":
		replay()
	case "parse":
		parse()
	case "list":
		var n []string
		for k := range vf.Registry {
			n = append(n, k)
		}
		fmt.Println(strings.Join(n, "\n"))
	}
}
