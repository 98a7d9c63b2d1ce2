package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Native compiles the harnesses of one package against the real code and runs them.
type Native struct {
	dir string
	bin string
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type nresult struct {
	OK      bool     `json:"ok"`
	Assume  bool     `json:"assume"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
	Reached []string `json:"reached"`
}

func (eng *Engine) buildNative(pkg string, hs []*Harness, extra map[string][]byte) (*Native, error) {
	dir, err := os.MkdirTemp("", "gosym-native-")
	if err != nil {
		return nil, err
	}
	n := &Native{dir: dir}
	ov, err := eng.overlay([]string{"v", "hx", pkg})
	if err != nil {
		return n, err
	}
	i := 0
	for k, b := range extra {
		i++
		f := filepath.Join(dir, fmt.Sprintf("extra%d.go", i))
		os.WriteFile(f, b, 0o644)
		ov[k] = f
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t%q\n\th %q\n)\n\nfunc main() {\n\tv.Main(map[string]func(){\n", vPath, zzPath+"/"+pkg)
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", h.name, h.name)
	}
	sb.WriteString("\t})\n}\n")
	mainf := filepath.Join(dir, "main.go")
	os.WriteFile(mainf, []byte(sb.String()), 0o644)
	ov[filepath.Join(eng.repo, "zz_verif", "run_"+pkg, "main.go")] = mainf
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, b, 0o644)
	n.bin = filepath.Join(dir, "run")
	env := goEnv()
	gobin := "go"
	if _, err := os.Stat(goRoot + "/bin/go"); err == nil {
		gobin = goRoot + "/bin/go"
	}
	c := exec.Command(gobin, "build", "-overlay", ovf, "-o", n.bin, "./zz_verif/run_"+pkg)
	c.Dir = eng.repo
	c.Env = env
	if out, err := c.CombinedOutput(); err != nil {
		return n, fmt.Errorf("native build: %v\n%s", err, out)
	}
	return n, nil
}

func (n *Native) start() error {
	if n.cmd != nil {
		return nil
	}
	n.cmd = exec.Command(n.bin)
	n.cmd.Stderr = nil
	in, err := n.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := n.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	n.in, n.out = in, bufio.NewReaderSize(out, 1<<20)
	return n.cmd.Start()
}

func (n *Native) stop() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

func (n *Native) close() {
	n.stop()
	if n.dir != "" && strings.Contains(n.dir, "gosym-native-") {
		os.RemoveAll(n.dir)
	}
}

// run executes a harness natively; a crash of the process is reported as a panic.
func (n *Native) run(h string, in map[string]uint64, repeat int, timeout time.Duration) (nresult, error) {
	if err := n.start(); err != nil {
		return nresult{}, err
	}
	b, _ := json.Marshal(map[string]any{"harness": h, "inputs": in, "repeat": repeat, "timeout_ms": int(timeout / time.Millisecond)})
	if _, err := n.in.Write(append(b, '\n')); err != nil {
		n.stop()
		return nresult{}, err
	}
	type lr struct {
		l   string
		err error
	}
	ch := make(chan lr, 1)
	go func() {
		l, err := n.out.ReadString('\n')
		ch <- lr{l, err}
	}()
	var l lr
	select {
	case l = <-ch:
	case <-time.After(timeout*time.Duration(max(repeat, 1)) + 20*time.Second):
		n.stop()
		return nresult{Msg: "timeout: the process hangs"}, nil
	}
	if l.err != nil {
		n.stop()
		return nresult{Msg: "panic: the process crashed"}, nil
	}
	var r nresult
	if err := json.Unmarshal([]byte(l.l), &r); err != nil {
		return r, err
	}
	if strings.HasPrefix(r.Msg, "timeout") {
		n.stop()
	}
	return r, nil
}
