package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"time"
)

// Native runs harnesses compiled by the ordinary Go compiler from the same
// source tree.
type Native struct {
	bin string
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	ch  chan nativeReply
}

type nativeReq struct {
	H  string `json:"h"`
	In []byte `json:"in"`
}

type NativeRes struct {
	Fails    []string `json:"fails"`
	Obs      [][]byte `json:"obs"`
	Panic    string   `json:"panic"`
	Assumed  bool     `json:"assumed"`
	crash    bool
	timedOut bool
}

type nativeReply struct {
	line []byte
	err  error
}

func (n *Native) start() error {
	n.cmd = exec.Command(n.bin)
	in, err := n.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := n.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := n.cmd.Start(); err != nil {
		return err
	}
	n.in = in
	n.out = bufio.NewReaderSize(out, 1<<16)
	ch := make(chan nativeReply, 1)
	n.ch = ch
	rd := n.out
	go func() {
		for {
			l, err := rd.ReadBytes('\n')
			ch <- nativeReply{l, err}
			if err != nil {
				return
			}
		}
	}()
	return nil
}

func (n *Native) stop() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

func (n *Native) run(h, in string, timeout time.Duration) NativeRes {
	if n.cmd == nil {
		if err := n.start(); err != nil {
			return NativeRes{crash: true, Panic: err.Error()}
		}
	}
	b, _ := json.Marshal(nativeReq{h, []byte(in)})
	b = append(b, '\n')
	if _, err := n.in.Write(b); err != nil {
		n.stop()
		return NativeRes{crash: true, Panic: "process died"}
	}
	t := time.NewTimer(timeout)
	defer t.Stop()
	select {
	case r := <-n.ch:
		if r.err != nil {
			n.stop()
			return NativeRes{crash: true, Panic: "process died (fatal error)"}
		}
		var res NativeRes
		if err := json.Unmarshal(r.line, &res); err != nil {
			n.stop()
			return NativeRes{crash: true, Panic: "bad reply"}
		}
		return res
	case <-t.C:
		n.stop()
		return NativeRes{timedOut: true}
	}
}

// buildNative compiles the harness against the tree under test.
func (e *Engine) buildNative(dir string) (string, error) {
	ov := map[string]map[string]string{"Replace": {
		filepath.Join(e.repo, "zzverif", "main.go"): filepath.Join(e.verif, "harness", "main.go"),
	}}
	for _, f := range e.harnessFiles() {
		ov["Replace"][filepath.Join(e.repo, "parser", filepath.Base(f))] = f
	}
	b, _ := json.Marshal(ov)
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "native")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", bin, "./zzverif")
	cmd.Dir = e.repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	return bin, nil
}

// harnessFiles lists the files added to the package under test.
func (e *Engine) harnessFiles() []string {
	fs, _ := filepath.Glob(filepath.Join(e.verif, "harness", "zz_*.go"))
	return fs
}
