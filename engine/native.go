package main

// The native side: the same harness functions compiled by the Go compiler,
// used to replay solver models and to run the ANTLR-generated parser.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type Native struct {
	bin string

	pmu   sync.Mutex
	idle  []*parseProc
	all   []*parseProc
	pmemo map[string]*ParseResult

	mu      sync.Mutex
	replays int
}

type NativeRes struct {
	Status string   `json:"status"` // ok assert assume panic diverged; crash, timeout added here
	ID     string   `json:"id"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func (n *Native) replay(h string, tr []Ev, tries int) NativeRes {
	rs := n.batch([]map[string]any{{"h": h, "trace": tr, "tries": tries}}, 10*time.Second)
	return rs[0]
}

func (n *Native) batch(reqs []map[string]any, timeout time.Duration) []NativeRes {
	n.mu.Lock()
	n.replays += len(reqs)
	n.mu.Unlock()
	out := make([]NativeRes, len(reqs))
	for i := range out {
		out[i] = NativeRes{Status: "missing"}
	}
	start := 0
	for start < len(reqs) {
		var in strings.Builder
		for _, r := range reqs[start:] {
			b, _ := json.Marshal(r)
			in.Write(b)
			in.WriteByte('\n')
		}
		cmd := exec.Command(n.bin, "replay")
		cmd.Stdin = strings.NewReader(in.String())
		cmd.Env = append(os.Environ(), "TZ=UTC", "GOMEMLIMIT=2GiB")
		so, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			for i := start; i < len(reqs); i++ {
				out[i] = NativeRes{Status: "missing", Msg: err.Error()}
			}
			return out
		}
		lines := make(chan string)
		go func() {
			sc := bufio.NewScanner(so)
			sc.Buffer(make([]byte, 1<<20), 1<<26)
			for sc.Scan() {
				lines <- sc.Text()
			}
			close(lines)
		}()
		i := start
		why := "crash"
	loop:
		for i < len(reqs) {
			select {
			case l, ok := <-lines:
				if !ok {
					break loop
				}
				if !strings.HasPrefix(l, "@R ") {
					continue
				}
				var r NativeRes
				if json.Unmarshal([]byte(l[3:]), &r) == nil {
					out[i] = r
					i++
				}
			case <-time.After(timeout):
				why = "timeout"
				break loop
			}
		}
		cmd.Process.Kill()
		go func() {
			for range lines {
			}
		}()
		cmd.Wait()
		if i < len(reqs) {
			out[i] = NativeRes{Status: why}
			i++
		}
		start = i
	}
	return out
}

// ---------- parse trees

type PNode struct {
	T   string   `json:"t"`           // context type name, "" for terminals
	R   int      `json:"r,omitempty"` // rule index
	S   int      `json:"s"`           // start token, -1 none; the token itself for terminals
	E   int      `json:"e"`           // stop token
	Err bool     `json:"x,omitempty"` // error node
	C   []*PNode `json:"c,omitempty"`
}

type PTok struct {
	Type  int    `json:"t"`
	Name  string `json:"n"`
	Text  string `json:"x"`
	Start int    `json:"s"` // rune offsets
	Stop  int    `json:"e"`
	Idx   int    `json:"i"`
	Line  int    `json:"l"`
	Col   int    `json:"c"`
	Chan  int    `json:"h"`
}

type PErr struct {
	Line int    `json:"l"`
	Col  int    `json:"c"`
	Msg  string `json:"m"`
}

type ParseResult struct {
	Root *PNode  `json:"root"`
	Toks []*PTok `json:"toks"`
	LErr []PErr  `json:"lerr"`
	PErr []PErr  `json:"perr"`
	Fail string  `json:"fail"`
}

type parseProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func (p *parseProc) start(bin string) error {
	p.cmd = exec.Command(bin, "parse")
	if os.Getenv("SYM_PARSE_CHECK") != "" {
		p.cmd.Stderr = os.Stderr
	}
	p.in, _ = p.cmd.StdinPipe()
	out, _ := p.cmd.StdoutPipe()
	if err := p.cmd.Start(); err != nil {
		p.cmd = nil
		return err
	}
	p.out = bufio.NewReaderSize(out, 1<<20)
	return nil
}

func (n *Native) parse(rule, input string) *ParseResult {
	k := rule + "\x00" + input
	n.pmu.Lock()
	if r, ok := n.pmemo[k]; ok {
		n.pmu.Unlock()
		return r
	}
	var p *parseProc
	if l := len(n.idle); l > 0 {
		p = n.idle[l-1]
		n.idle = n.idle[:l-1]
	} else {
		p = &parseProc{}
		n.all = append(n.all, p)
	}
	n.pmu.Unlock()
	r := &ParseResult{Fail: "parser process failed"}
	for try := 0; try < 2; try++ {
		if p.cmd == nil && p.start(n.bin) != nil {
			break
		}
		b, _ := json.Marshal(map[string]string{"rule": rule, "input": fmt.Sprintf("%x", input)})
		timer := time.AfterFunc(20*time.Second, func() { p.cmd.Process.Kill() })
		p.in.Write(append(b, '\n'))
		line, err := p.out.ReadString('\n')
		timer.Stop()
		if err != nil {
			p.cmd.Process.Kill()
			p.cmd.Wait()
			p.cmd = nil
			continue
		}
		var pr ParseResult
		if err := json.Unmarshal([]byte(line), &pr); err == nil {
			r = &pr
		}
		break
	}
	n.pmu.Lock()
	if n.pmemo == nil || len(n.pmemo) > 20000 {
		n.pmemo = map[string]*ParseResult{}
	}
	n.pmemo[k] = r
	n.idle = append(n.idle, p)
	n.pmu.Unlock()
	return r
}

func (n *Native) close() {
	n.pmu.Lock()
	defer n.pmu.Unlock()
	for _, p := range n.all {
		if p.cmd != nil {
			p.cmd.Process.Kill()
			p.cmd.Wait()
		}
	}
}
