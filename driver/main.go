// Command verifdrv executes histories against the real STFS code and records
// what can be observed as traces. It is compiled into the module with
// `go build -overlay` and never becomes part of /repo.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"
)

// J is a JSON object
type J = map[string]interface{}

// Runner executes one job and returns its trace
type Runner func(job json.RawMessage) (J, error)

var runners = map[string]Runner{}

// scratch is the directory in which all effects of the code under test are kept
var scratch string

// Time zones in which jobs are executed, some of which have no abbreviation
var zones = map[string]*time.Location{
	"UTC": time.UTC, "CET": time.FixedZone("CET", 3600), "Kathmandu": time.FixedZone("+0545", 5*3600+45*60),
	"Marquesas": time.FixedZone("-0930", -9*3600-30*60), "Kiritimati": time.FixedZone("+14", 14*3600),
}

type jobHead struct {
	ID      int    `json:"id"`
	Kind    string `json:"kind"`
	Timeout int    `json:"timeout"` // Seconds
	Zone    string `json:"zone"`    // Time zone
}

func worker() {
	debug.SetGCPercent(200)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err == io.EOF {
			return
		}
		if err != nil {
			fatal(err)
		}

		var head jobHead
		if err := json.Unmarshal(line, &head); err != nil {
			fatal(err)
		}
		run, ok := runners[head.Kind]
		if !ok {
			fatal(fmt.Errorf("unknown job kind %q", head.Kind))
		}
		if head.Timeout <= 0 {
			head.Timeout = 60
		}

		if z := zones[head.Zone]; z != nil && time.Local != z {
			time.Local = z
		}

		// A call that never returns must not keep the machinery from answering
		done := make(chan struct{})
		go watch(head, done)
		res, err := run(line)
		close(done)
		if err != nil {
			fatal(fmt.Errorf("job %v: %w", head.ID, err))
		}
		res["id"] = head.ID
		b, err := json.Marshal(res)
		if err != nil {
			fatal(err)
		}
		out.Write(b)
		out.WriteByte('\n')
		if err := out.Flush(); err != nil {
			fatal(err)
		}
	}
}

// watch ends the process if a job does not return: if the process has done nothing at all for a while, or if it has been
// busy for much longer than any job is
func watch(head jobHead, done chan struct{}) {
	idle := 0
	last := cpuTime()
	for t := 0; ; t += 3 {
		select {
		case <-done:
			return
		case <-time.After(3 * time.Second):
		}
		now := cpuTime()
		if now-last < 30*time.Millisecond {
			idle++
		} else {
			idle = 0
		}
		last = now
		if idle >= 5 || t > 3*head.Timeout {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "VERIF-HANG job %v\n%s\n", head.ID, buf[:n])
			os.Exit(97)
		}
	}
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "VERIF-ERROR", err)
	os.Exit(98)
}

type child struct {
	cmd    *exec.Cmd
	stdin  io.WriteCloser
	stdout *bufio.Reader
	stderr *bytes.Buffer
	jobs   int
}

func spawn() (*child, error) {
	cmd := exec.Command(os.Args[0], "-worker", "-scratch", scratch)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMAXPROCS=2")
	c := &child{cmd: cmd, stderr: &bytes.Buffer{}}
	var err error
	if c.stdin, err = cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	c.stdout = bufio.NewReaderSize(o, 1<<20)
	cmd.Stderr = &limited{c.stderr, 1 << 20}
	return c, cmd.Start()
}

type limited struct {
	b   *bytes.Buffer
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.max {
		l.b.Write(p)
	}
	return len(p), nil
}

func (c *child) stop() {
	c.stdin.Close()
	_ = c.cmd.Wait()
}

// runParent runs all jobs in child processes, so that crashes, hangs and leaks of the code under test stay contained
func runParent(jobsPath, outPath string, parallel, perChild int) error {
	jobs, err := os.ReadFile(jobsPath)
	if err != nil {
		return err
	}
	lines := bytes.Split(bytes.TrimSpace(jobs), []byte("\n"))
	outF, err := os.Create(outPath)
	if err != nil {
		return err
	}
	defer outF.Close()
	out := bufio.NewWriterSize(outF, 1<<20)
	defer out.Flush()

	results := make([][]byte, len(lines))
	var wg sync.WaitGroup
	var mu sync.Mutex
	next := 0
	var failed error
	fails := 0
	for i := 0; i < parallel; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var c *child
			defer func() {
				if c != nil {
					c.stop()
				}
			}()
			for {
				mu.Lock()
				n := next
				next++
				stop := failed != nil
				enough := fails >= 6
				mu.Unlock()
				if n >= len(lines) || stop {
					return
				}
				if enough {
					// The verdict is clear
					var head jobHead
					_ = json.Unmarshal(lines[n], &head)
					results[n], _ = json.Marshal(J{"id": head.ID, "skipped": true})
					continue
				}
				if c == nil {
					var err error
					if c, err = spawn(); err != nil {
						mu.Lock()
						failed = err
						mu.Unlock()
						return
					}
				}
				_, werr := c.stdin.Write(append(append([]byte{}, lines[n]...), '\n'))
				res, err := c.stdout.ReadBytes('\n')
				if werr != nil || err != nil {
					c.stdin.Close()
					_ = c.cmd.Wait()
					code := c.cmd.ProcessState.ExitCode()
					serr := c.stderr.String()
					c = nil
					if code == 98 || code < 0 || strings.Contains(serr, "out of memory") || strings.Contains(serr, "cannot allocate") {
						// The machinery itself failed, or someone else ended the process
						mu.Lock()
						failed = fmt.Errorf("driver: exit code %v: %v", code, serr)
						mu.Unlock()
						return
					}
					var head jobHead
					_ = json.Unmarshal(lines[n], &head)
					fail := "crash"
					if code == 97 {
						fail = "hang"
					}
					if strings.Contains(serr, "WARNING: DATA RACE") {
						fail = "race"
					}
					if len(serr) > 60000 {
						serr = serr[:60000]
					}
					b, _ := json.Marshal(J{"id": head.ID, "fail": fail, "detail": serr})
					results[n] = b
					mu.Lock()
					fails++
					mu.Unlock()
					continue
				}
				results[n] = bytes.TrimSpace(res)
				c.jobs++
				if perChild > 0 && c.jobs >= perChild {
					c.stop()
					c = nil
				}
			}
		}()
	}
	wg.Wait()
	if failed != nil {
		return failed
	}
	for _, r := range results {
		if r == nil {
			continue
		}
		out.Write(r)
		out.WriteByte('\n')
	}
	return nil
}

func main() {
	isWorker := flag.Bool("worker", false, "")
	jobs := flag.String("jobs", "", "")
	outp := flag.String("out", "", "")
	parallel := flag.Int("parallel", 8, "")
	perChild := flag.Int("per-child", 40, "")
	flag.StringVar(&scratch, "scratch", "", "")
	flag.Parse()

	if *isWorker {
		var lim syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim); err == nil {
			lim.Cur = lim.Max
			_ = syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
		}
		worker()
		return
	}
	if err := runParent(*jobs, *outp, *parallel, *perChild); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(98)
	}
}
