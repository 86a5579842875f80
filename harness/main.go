// The harness executes operations on the real code and records what has been
// observed, as scenarios for the validation against the specification.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

func jsonOf(v interface{}) string {
	var b strings.Builder
	var e = json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return strings.TrimSuffix(b.String(), "\n")
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

type recorder struct {
	mu    sync.Mutex
	out   *bufio.Writer
	cur   *os.File
	id    string
	steps []M
	op    M
	since time.Time
}

func (rc *recorder) start(id string) {
	rc.mu.Lock()
	defer rc.mu.Unlock()
	rc.id, rc.steps, rc.op, rc.since = id, []M{}, nil, time.Now()
	rc.cur.Truncate(0)
	rc.cur.Seek(0, 0)
	fmt.Fprintln(rc.cur, jsonOf(id))
}

// begin records an operation that is going to be executed.
func (rc *recorder) begin(o M) {
	rc.mu.Lock()
	defer rc.mu.Unlock()
	rc.op, rc.since = o, time.Now()
	fmt.Fprintln(rc.cur, jsonOf(M{"begin": o}))
}

func (rc *recorder) emit(x M) {
	rc.mu.Lock()
	defer rc.mu.Unlock()
	rc.op = nil
	rc.steps = append(rc.steps, x)
	fmt.Fprintln(rc.cur, jsonOf(x))
}

func (rc *recorder) finish() {
	rc.mu.Lock()
	defer rc.mu.Unlock()
	if len(rc.steps) > 0 {
		fmt.Fprintln(rc.out, jsonOf(M{"id": rc.id, "steps": rc.steps}))
	}
	rc.steps = nil
}

func crashStep(o M, what string) M {
	return M{"o": o, "ok": false, "crash": what, "out": []string{},
		"ret":  M{"nil": true, "same": 0, "chain": []string{}},
		"dump": []M{}, "loose": []M{}, "rootseen": false}
}

// watch ends the run when an operation doesn't return.
func (rc *recorder) watch(limit time.Duration) {
	for {
		time.Sleep(200 * time.Millisecond)
		rc.mu.Lock()
		if rc.op != nil && time.Since(rc.since) > limit {
			rc.steps = append(rc.steps, crashStep(rc.op, "hang"))
			fmt.Fprintln(rc.out, jsonOf(M{"id": rc.id, "steps": rc.steps}))
			rc.out.Flush()
			os.Exit(0)
		}
		rc.mu.Unlock()
	}
}

// asks are the operations that only ask.
var asks = map[string]bool{
	"Registered": true, "RegisteredHost": true, "HostNamed": true, "ChildNamed": true,
	"ParentOf": true, "HostOf": true, "Has": true, "Get": true, "GetAt": true, "URL": true,
	"Req": true, "Conc": true, "Match": true, "Apply": true, "Sim": true, "Parse": true,
	"Vals": true, "Common": true,
}

func main() {
	var (
		prof    = flag.String("profile", "base", "profile of the random scenarios")
		n       = flag.Int("n", 100, "number of the random scenarios")
		seed    = flag.Int64("seed", 1, "seed")
		outName = flag.String("out", "trace.ndjson", "trace")
		curName = flag.String("cur", "", "progress file")
		hdrName = flag.String("header", "", "file for the constants of the specification")
		replay  = flag.String("replay", "", "file with scenarios to execute")
		dump    = flag.Bool("dump", false, "dump the tree after every replayed operation")
		dumps   = flag.Bool("dumps", false, "dump the tree after every replayed operation that may change it")
		procs   = flag.Int("procs", 1, "GOMAXPROCS")
		limit   = flag.Duration("limit", 20*time.Second, "time limit of an operation")
	)
	flag.Parse()
	runtime.GOMAXPROCS(*procs)
	debug.SetMaxStack(128 << 20)

	if *hdrName != "" {
		check(os.WriteFile(*hdrName, []byte(jsonOf(header())), 0644))
	}
	var f, err = os.Create(*outName)
	check(err)
	if *curName == "" {
		*curName = *outName + ".cur"
	}
	var cur, err2 = os.Create(*curName)
	check(err2)
	var rc = &recorder{out: bufio.NewWriterSize(f, 1<<20), cur: cur}
	go rc.watch(*limit)

	if *replay != "" {
		var in, err = os.Open(*replay)
		check(err)
		var sc = bufio.NewScanner(in)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for i := 1; sc.Scan(); i++ {
			var s M
			check(json.Unmarshal(sc.Bytes(), &s))
			var id = str(s, "id")
			if id == "" {
				id = fmt.Sprintf("replay-%d", i)
			}
			rc.start(id)
			var wd = newWorld()
			for _, st := range list(s, "steps") {
				var o, d = st, *dump
				if _, ok := st["o"]; ok {
					o = obj(st, "o")
					var l, _ = st["dump"].([]interface{})
					d = d || len(l) > 0
				}
				d = d || *dumps && !asks[str(o, "op")]
				rc.begin(o)
				var x = wd.exec(o, d)
				rc.emit(x)
				if x["crash"] != "" {
					break
				}
			}
			rc.finish()
		}
		check(sc.Err())
	} else {
		var mk, ok = profiles[*prof]
		if !ok {
			check(fmt.Errorf("no profile %q", *prof))
		}
		for i := 0; i < *n; i++ {
			var s = *seed*1000003 + int64(i)
			rc.start(fmt.Sprintf("%s-%d-%d", *prof, *seed, i))
			var pr = mk()
			if i%4 == 3 {
				blend(&pr)
			}
			if i%4 == 1 {
				sparse(&pr)
			}
			var g = &gen{
				r: rand.New(rand.NewSource(s)), p: pr, wd: newWorld(), info: map[int]ginfo{},
				emit: rc.emit, begin: rc.begin,
			}
			g.run()
			rc.finish()
		}
	}
	rc.mu.Lock()
	check(rc.out.Flush())
	check(f.Close())
	os.Remove(*curName)
	os.Exit(0)
}
