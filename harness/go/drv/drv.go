// Package drv is the implementation-independent half of the Go conformance
// drivers: it reads one script per line on stdin, performs its steps through
// an Impl, and writes the trace of what was observed as one line on stdout.
package drv

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
)

type Init struct {
	M   string `json:"m"`
	N   int    `json:"n"`
	Cap int    `json:"cap"`
}

type Step struct {
	O string `json:"o"`
	K int    `json:"k"`
	A int    `json:"a"`
	B int    `json:"b"`
	V []int  `json:"v"`
	N int    `json:"n"`
	// destination slice handed to Bytes: absent, or its length and capacity
	DL int `json:"dl"`
	DC int `json:"dc"`
}

type Case struct {
	ID   int    `json:"id"`
	Init Init   `json:"init"`
	S    []Step `json:"s"`
	// a group of cases that run together: T says whose step is next, and
	// without it they run in parallel
	G []Case `json:"g"`
	T []int  `json:"t"`
}

// Event is what is recorded; every field is present in every event so that
// the specification can refer to any of them.
type Event struct {
	O   string `json:"o"`
	K   int    `json:"k"`
	A   int    `json:"a"`
	B   int    `json:"b"`
	V   []int  `json:"v"`   // argument of an encode / input of a decoder / result of a decode
	D   []int  `json:"d"`   // bytes appended by an encode
	N   int    `json:"n"`   // total length of the output; or argument of Grow/MoveOffset
	R   string `json:"r"`   // ok, no, or anomaly
	E   int    `json:"e"`   // kind named by the error, -1 if the API names none
	P   int    `json:"p"`   // bytes remaining in the decoder, -1 if the API hides it
	C   int    `json:"c"`   // room left in the buffer (capacity - length), -1 if hidden
	OK  bool   `json:"ok"`  // bytes already written / values already returned / arguments are untouched
	Mem int    `json:"mem"` // bytes allocated by the call, -1 if not measured
	X   string `json:"x"`   // diagnostic text, not judged
}

type Impl interface {
	NewEncoder(i Init)
	Encode(s Step, payload []byte) // payload: expanded V of blob kinds, raw bytes otherwise
	Out() []byte
	Room() int
	ResetOut()
	Raw(b []byte) int
	Grow(n int) bool
	Move(n int) bool
	Open(b []byte)
	// Decode returns the value (fixed-width big endian or payload), ok, the
	// error's kind, and a live reference to any memory returned.
	Decode(s Step, dst []byte) (val []byte, ok bool, ekind int, live []byte, text string)
	Remaining() int
	Close()
}

// blobLen and pat: see BlobPat in Wire.tla.
func blobLen(m int) int {
	if m < 17<<24 {
		return m
	}
	return m & (1<<24 - 1)
}

const unit = "\u00e9\u20ac\U0001f600"

func pat(m int) []byte {
	n, p := blobLen(m), 0
	if m >= 17<<24 {
		p = m>>24 - 16
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte((i*7+n+(i>>8))%26)
	}
	if p == 1 || p == 2 {
		for i, j := n%9, 0; i < n; i, j = i+9, j+1 {
			copy(b[i:], unit)
			x := 0x80 + byte((j*7+n)%64)
			b[i+1], b[i+4], b[i+8] = x, x, x
		}
	}
	switch p {
	case 2:
		b[n/2] = 0xff
	case 3:
		b[n-1] = 0xc3
	case 4:
		b[n/2] = 0
	}
	return b
}

func expand(v []int) []byte {
	var b []byte
	for _, x := range v {
		if x < 0 {
			b = append(b, pat(-x)...)
		} else {
			b = append(b, byte(x))
		}
	}
	return b
}

// roomy is a copy of b, in the middle of a larger storage if so wanted: after it
// come bytes that are none of its own, as far as its capacity.
func roomy(b []byte, room bool) []byte {
	n := len(b)
	if !room {
		return append(make([]byte, 0, n), b...)
	}
	t := append(make([]byte, 0, n+24), b...)
	for i := n; i < cap(t); i++ {
		t[:cap(t)][i] = spare
	}
	return t
}

const spare = 7

// guarded reports whether what follows b in its storage is untouched.
func guarded(b []byte) bool {
	for _, x := range b[len(b):cap(b)] {
		if x != spare {
			return false
		}
	}
	return true
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

// patOf returns the blob that b is, if it is one.
func patOf(b []byte) int {
	for p := 1; p < 5 && len(b) < 1<<24; p++ {
		if m := (16+p)<<24 | len(b); bytes.Equal(b, pat(m)) {
			return m
		}
	}
	return len(b)
}

// compress writes a byte string as integers, with a trailing run that is a
// known blob as one negative element.
func compress(b []byte, blob int) []int {
	if n := blobLen(blob); blob > 0 && len(b) >= n && bytes.Equal(b[len(b)-n:], pat(blob)) {
		return append(ints(b[:len(b)-n]), -blob)
	}
	if len(b) > 2048 {
		return append(ints(b[:64]), -1)
	}
	return ints(b)
}

func blobOf(v []int) int {
	for _, x := range v {
		if x < 0 {
			return -x
		}
	}
	return 0
}

func isBlobKind(k int) bool { return k == 4 || k == 5 || k == 6 }

type held struct {
	live []byte
	text string
	copy []byte
}

// again makes another instance, to measure a call a second time.
var again func() Impl

// allocated is the memory f takes: the least of up to four measurements, the
// first of f itself and the others of g (after prep), as the runtime allocates now and then too.
func allocated(f, prep, g func()) int {
	least := 0
	for i := 0; i < 4; i++ {
		if i > 0 {
			prep()
		}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		if m0.HeapAlloc > 256<<20 {
			runtime.GC()
			runtime.ReadMemStats(&m0)
		}
		if i == 0 {
			f()
		} else {
			g()
		}
		runtime.ReadMemStats(&m1)
		if n := int(m1.TotalAlloc - m0.TotalAlloc); i == 0 || n < least {
			least = n
		}
		if least <= 4096 {
			break
		}
	}
	return least
}

func Run(mk func() Impl) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	measure := os.Getenv("DRV_MEM") == "1"
	again = mk
	if measure { // the collector runs between measurements only
		runtime.GC()
		debug.SetGCPercent(-1)
	}
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var c Case
			if e := json.Unmarshal(line, &c); e != nil {
				fmt.Fprintln(os.Stderr, "bad case:", e)
				os.Exit(3)
			}
			fmt.Fprintf(w, "BEGIN %d\n", c.ID)
			w.Flush()
			var ev any
			if len(c.G) > 0 {
				ev = runGroup(mk, c)
			} else {
				ev = runCase(mk(), c, measure, func() {})
			}
			o, _ := json.Marshal(struct {
				ID int `json:"id"`
				Ev any `json:"ev"`
			}{c.ID, ev})
			w.Write(o)
			w.WriteByte('\n')
			w.Flush()
		}
		if err != nil {
			return
		}
	}
}

// runGroup runs the cases of c together, one goroutine each.
func runGroup(mk func() Impl, c Case) [][]Event {
	n := len(c.G)
	res := make([][]Event, n)
	var wg sync.WaitGroup
	wg.Add(n)
	if len(c.T) == 0 {
		start := make(chan bool)
		for i := range c.G {
			go func(i int) {
				defer wg.Done()
				im := mk()
				<-start
				res[i] = runCase(im, c.G[i], false, func() {})
			}(i)
		}
		close(start)
		wg.Wait()
		return res
	}
	turn, done := make([]chan bool, n), make([]chan bool, n)
	for i := range c.G {
		turn[i], done[i] = make(chan bool), make(chan bool)
		go func(i int) {
			defer wg.Done()
			defer close(done[i])
			<-turn[i]
			first := true
			res[i] = runCase(mk(), c.G[i], false, func() {
				if !first {
					done[i] <- true
					<-turn[i]
				}
				first = false
			})
		}(i)
	}
	over := make([]bool, n)
	step := func(i int) {
		if !over[i] {
			turn[i] <- true
			_, more := <-done[i]
			over[i] = !more
		}
	}
	for _, i := range c.T {
		step(i)
	}
	for i := range c.G {
		for !over[i] {
			step(i)
		}
	}
	wg.Wait()
	return res
}

func runCase(im Impl, c Case, measure bool, turn func()) (evs []Event) {
	var cur Event
	var before []byte
	var holds []held
	var views [][]byte // of the output, since the last reset or move
	var input, input0 []byte
	var since []Step // decodes since the input was opened
	defer func() {
		if r := recover(); r != nil {
			cur.R = "panic"
			cur.X = fmt.Sprint(r)
			evs = append(evs, cur)
		}
	}()
	same := func() bool {
		for _, h := range holds {
			if h.live != nil && !bytes.Equal(h.live, h.copy) {
				return false
			}
			if h.text != string(h.copy) && h.live == nil {
				return false
			}
		}
		return true
	}
	blank := func(s Step) Event {
		return Event{O: s.O, K: s.K, A: s.A, B: s.B, V: []int{}, D: []int{}, R: "ok", E: -1, P: -1, C: -1, OK: true, Mem: -1}
	}
	cur = blank(Step{O: "N"})
	im.NewEncoder(c.Init)
	cur.N = len(im.Out())
	cur.C = im.Room()
	evs = append(evs, cur)
	for _, s := range c.S {
		turn()
		cur = blank(s)
		switch s.O {
		case "E", "W":
			pay := expand(s.V)
			arg := roomy(pay, len(evs)%2 == 1)
			cur.V = s.V
			own := s.DC > 0 // the argument is a part of what was written
			if own {
				o := im.Out()
				i := min(s.DL, len(o))
				arg = o[i:min(i+s.DC, len(o))]
				pay = append([]byte{}, arg...)
				cur.V = ints(pay)
			}
			if cur.V == nil {
				cur.V = []int{}
			}
			if s.O == "E" {
				im.Encode(s, arg)
			} else {
				if n := im.Raw(arg); n != len(pay) {
					cur.R = "short"
				}
			}
			cur.OK = own || bytes.Equal(arg, pay) && guarded(arg)
			for i := range arg {
				if own {
					break
				}
				arg[i] = 0xA5 // the caller reuses its own memory
			}
			o := im.Out()
			cur.N = len(o)
			if len(o) < len(before) || !bytes.Equal(o[:len(before)], before) {
				cur.OK = false
			}
			if len(o) >= len(before) {
				cur.D = compress(o[len(before):], blobOf(s.V))
			}
			if len(o) <= 4096 { // what was handed out earlier still reads the same
				for _, v := range views {
					cur.OK = cur.OK && len(v) <= len(o) && bytes.Equal(v, o[:len(v)])
				}
				if len(views) < 4 {
					views = append(views, o)
				}
			}
			cur.C = im.Room()
			before = append(before[:0], o...)
		case "R":
			im.ResetOut()
			views = nil
			before = before[:0]
			cur.N = len(im.Out())
			cur.C = im.Room()
		case "G":
			if !im.Grow(s.N) {
				continue
			}
			o := im.Out()
			cur.V = []int{s.N}
			cur.N = len(o)
			cur.OK = bytes.Equal(o, before)
			cur.C = im.Room()
		case "M":
			if s.N > im.Room() || !im.Move(s.N) { // only within the capacity
				continue
			}
			views = nil
			o := im.Out()
			cur.V = []int{s.N}
			cur.N = len(o)
			cur.C = im.Room()
			m := len(before)
			if len(o) < m {
				m = len(o)
			}
			cur.OK = bytes.Equal(o[:m], before[:m])
			cur.D = ints(o[m:])
			before = append(before[:0], o...)
		case "L", "X":
			if s.O == "L" {
				input = roomy(expand(s.V), c.ID&1 == 1)
				cur.V = s.V
				if cur.V == nil {
					cur.V = []int{}
				}
			} else {
				input = roomy(im.Out(), c.ID&1 == 1)
				cur.N = len(input)
			}
			input0 = append(input0[:0], input...)
			im.Close()
			im.Open(input)
			since = since[:0]
			cur.P = im.Remaining()
		case "C": // the owner of the input buffer overwrites it
			for i := range input {
				input[i] = byte(s.N)
			}
			input0 = append(input0[:0], input...)
			cur.N = s.N
			cur.OK = same()
		case "D":
			var dst []byte
			if s.DC > 0 {
				dst = make([]byte, s.DL, s.DC)
				for i := range dst[:s.DC] {
					dst[:s.DC][i] = 0xEE
				}
			}
			cur.N = s.DC
			var v, live []byte
			var ok bool
			var ek int
			var text string
			if measure {
				other := again()
				run := func(s Step) {
					other.Decode(s, make([]byte, min(s.DL, s.DC), s.DC))
				}
				cur.Mem = allocated(func() { v, ok, ek, live, text = im.Decode(s, dst) }, func() {
					other.Close()
					other.Open(append([]byte{}, input...))
					for _, s := range since {
						run(s)
					}
				}, func() { run(s) })
				other.Close()
				since = append(since, s)
			} else {
				v, ok, ek, live, text = im.Decode(s, dst)
			}
			if ok {
				if isBlobKind(s.K) && len(v) > 256 {
					cur.V = compress(v, patOf(v))
				} else {
					cur.V = ints(v)
				}
				if s.K == 6 && ek == -3 {
					cur.R = "notequal" // error does not match its own text
				}
				if live != nil || text != "" {
					holds = append(holds, held{live, text, append([]byte{}, v...)})
				}
			} else {
				cur.R = "no"
				cur.E = ek
				cur.V = ints(v)
			}
			cur.P = im.Remaining()
			cur.OK = bytes.Equal(input, input0) && guarded(input)
		case "S": // the owner of the byte string returned last writes all over it, and appends to it
			i := len(holds) - 1
			for i >= 0 && cap(holds[i].live) == 0 {
				i--
			}
			if i < 0 {
				continue
			}
			all := holds[i].live[:cap(holds[i].live)]
			for j := range all {
				all[j] = byte(s.N)
			}
			copy(holds[i].copy, holds[i].live)
			cur.N = s.N
			cur.OK = same() && bytes.Equal(input, input0) && guarded(input) && bytes.Equal(im.Out(), before)
		case "Z":
			o := im.Out()
			cur.N = len(o)
			cur.OK = bytes.Equal(o, before) && same()
		default:
			cur.R = "badop"
		}
		evs = append(evs, cur)
	}
	return evs
}

func BE(n uint64, w int) []byte {
	b := make([]byte, w)
	for i := 0; i < w; i++ {
		b[w-1-i] = byte(n >> (8 * i))
	}
	return b
}

func U(b []byte) (n uint64) {
	for _, x := range b {
		n = n<<8 | uint64(x)
	}
	return
}
