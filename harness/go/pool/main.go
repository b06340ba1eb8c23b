// Command pool drives the buffer pools of Go v2 and the decoder pool of Go v1,
// from one goroutine (scripts) or many (random use), and writes what happened.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	p1 "github.com/loopholelabs/polyglot"
	p2 "github.com/loopholelabs/polyglot/v2"
)

type Step struct {
	O string `json:"o"`
	G int    `json:"g"`
	K int    `json:"k"`
	V []int  `json:"v"`
	N int    `json:"n"`
}
type Case struct {
	ID     int    `json:"id"`
	What   string `json:"what"` // own, global, cross (both), dec
	S      []Step `json:"s"`
	Par    int    `json:"par"` // > 0: that many goroutines, Rounds each
	Rounds int    `json:"rounds"`
	Seed   int64  `json:"seed"`
	Inputs [][]int
}
type Event struct {
	O   string `json:"o"`
	G   int    `json:"g"`
	I   int    `json:"i"`
	K   int    `json:"k"`
	V   []int  `json:"v"`
	D   []int  `json:"d"`
	N   int    `json:"n"`
	R   string `json:"r"`
	X   string `json:"x"`
	seq int64
	obj any
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}
func bs(v []int) []byte {
	b := make([]byte, len(v))
	for i, x := range v {
		b[i] = byte(x)
	}
	return b
}
func num(v []int) (n uint64) {
	for _, x := range v {
		n = n<<8 | uint64(x)
	}
	return
}

type pool struct {
	what string
	own  *p2.Pool
	n    atomic.Int64
}

func (p *pool) get() *p2.Buffer {
	if p.what == "own" || p.what == "cross" && p.n.Add(1)%3 == 0 {
		return p.own.Get()
	}
	return p2.GetBuffer()
}
func (p *pool) put(b *p2.Buffer) {
	if p.what == "own" || p.what == "cross" && p.n.Add(1)%3 == 0 {
		p.own.Put(b)
	} else {
		p2.PutBuffer(b)
	}
}

var seq atomic.Int64

// taker is one user of the pool; it holds at most one object at a time.
type taker struct {
	p   *pool
	b   *p2.Buffer
	d   *p1.Decoder
	log []Event
	n   int
}

func (t *taker) rec(e Event, o any) {
	if e.V == nil {
		e.V = []int{}
	}
	if e.D == nil {
		e.D = []int{}
	}
	if e.R == "" {
		e.R = "ok"
	}
	e.seq, e.obj = seq.Add(1), o
	t.log = append(t.log, e)
}

func (t *taker) do(s Step) {
	e := Event{O: s.O, G: s.G, K: s.K, V: s.V}
	defer func() {
		if r := recover(); r != nil {
			e.R, e.X = "panic", fmt.Sprint(r)
			t.rec(e, nil)
		}
	}()
	see := func() {
		b := t.b.Bytes()
		e.D, e.N = ints(b), t.b.Len()
		t.rec(e, t.b)
	}
	switch s.O {
	case "T":
		t.b = t.p.get()
		see()
	case "F":
		switch {
		case s.N == 0:
			t.b = p2.NewBuffer()
		case s.N > 0:
			t.b = p2.NewBufferSize(s.N)
		case s.N == -1:
			t.b = p2.NewBufferFromBytes(make([]byte, 3, 40))
		default:
			t.b = new(p2.Buffer)
		}
		see()
	case "FD":
		t.d = new(p1.Decoder)
		t.rec(e, t.d)
	case "TD":
		t.d = p1.GetDecoder(bs(s.V))
		t.rec(e, t.d)
	case "P":
		t.n++
		if t.d != nil {
			d := t.d
			t.rec(e, d)
			t.d = nil
			if t.n%2 == 0 {
				d.Return()
			} else {
				p1.ReturnDecoder(d)
			}
		} else {
			b := t.b
			t.rec(e, b)
			t.b = nil
			t.p.put(b)
		}
	case "PN":
		if t.p.what == "dec" {
			p1.ReturnDecoder(nil)
		} else {
			t.p.put(nil)
		}
		t.rec(e, nil)
	case "W":
		t.b.Write(bs(s.V))
		see()
	case "E":
		enc := p2.Encoder(t.b)
		switch s.K {
		case 0:
			enc.Nil()
		case 4:
			enc.Bytes(bs(s.V))
		case 5:
			enc.String(string(bs(s.V)))
		case 10:
			enc.Uint32(uint32(num(s.V)))
		case 13:
			enc.Int64(int64(num(s.V)))
		}
		see()
	case "M":
		t.b.MoveOffset(-s.V[0])
		see()
	case "R":
		t.b.Reset()
		see()
	case "G":
		t.b.Grow(s.N)
		see()
	case "S":
		see()
	case "D":
		var err error
		no := func() { e.R = "no"; e.V = nil }
		be := func(x uint64, w int) {
			if err != nil {
				no()
				return
			}
			e.V = make([]int, w)
			for i := range e.V {
				e.V[w-1-i] = int(byte(x >> (8 * i)))
			}
		}
		switch s.K {
		case 0:
			if !t.d.Nil() {
				no()
			}
		case 4:
			var v []byte
			if v, err = t.d.Bytes(nil); err != nil {
				no()
			} else {
				e.V = ints(v)
			}
		case 5:
			var v string
			if v, err = t.d.String(); err != nil {
				no()
			} else {
				e.V = ints([]byte(v))
			}
		case 10:
			var v uint32
			v, err = t.d.Uint32()
			be(uint64(v), 4)
		case 13:
			var v int64
			v, err = t.d.Int64()
			be(uint64(v), 8)
		}
		t.rec(e, t.d)
	}
}

func runSeq(c Case, p *pool) []Event {
	ts := map[int]*taker{}
	for _, s := range c.S {
		t := ts[s.G]
		if t == nil {
			t = &taker{p: p}
			ts[s.G] = t
		}
		t.do(s)
	}
	return merge(ts)
}

var texts = []string{"", "a", "pool", "0123456789abcdef"}

func runPar(c Case, p *pool) []Event {
	ts := map[int]*taker{}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 1; g <= c.Par; g++ {
		t := &taker{p: p}
		ts[g] = t
		r := rand.New(rand.NewSource(c.Seed*1000 + int64(g)))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for i := 0; i < c.Rounds; i++ {
				if p.what == "dec" {
					t.do(Step{O: "TD", G: g, V: c.Inputs[r.Intn(len(c.Inputs))]})
					for n := r.Intn(4); n > 0; n-- {
						t.do(Step{O: "D", G: g, K: []int{0, 4, 5, 10, 13}[r.Intn(5)]})
						if r.Intn(3) == 0 {
							runtime.Gosched()
						}
					}
				} else {
					if c.What == "cross" && r.Intn(6) == 0 {
						t.do(Step{O: "F", G: g, N: r.Intn(4) - 2})
					} else {
						t.do(Step{O: "T", G: g})
					}
					for n := r.Intn(4); n > 0; n-- {
						switch r.Intn(6) {
						case 0:
							t.do(Step{O: "W", G: g, V: []int{g, i & 255, n}})
						case 1:
							t.do(Step{O: "E", G: g, K: 10, V: []int{g, 0, i & 255, n}})
						case 2:
							t.do(Step{O: "E", G: g, K: 5, V: ints([]byte(texts[r.Intn(4)]))})
						case 3:
							t.do(Step{O: "G", G: g, N: 40 << uint(r.Intn(6))})
						case 4:
							t.do(Step{O: "S", G: g})
						case 5:
							t.do(Step{O: "R", G: g})
						}
						if r.Intn(3) == 0 {
							runtime.Gosched()
						}
					}
					t.do(Step{O: "S", G: g})
				}
				if r.Intn(8) == 0 {
					t.do(Step{O: "PN", G: g})
				}
				t.do(Step{O: "P", G: g})
				if r.Intn(2) == 0 {
					runtime.Gosched()
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	return merge(ts)
}

func merge(ts map[int]*taker) (all []Event) {
	for _, t := range ts {
		all = append(all, t.log...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].seq < all[j].seq })
	ids := map[any]int{}
	for i := range all {
		if o := all[i].obj; o != nil {
			if ids[o] == 0 {
				ids[o] = len(ids) + 1
			}
			all[i].I = ids[o]
		}
	}
	return
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if len(strings.TrimSpace(string(line))) > 1 {
			var c Case
			if e := json.Unmarshal(line, &c); e != nil {
				fmt.Fprintln(os.Stderr, "bad case:", e)
				os.Exit(3)
			}
			fmt.Fprintf(w, "BEGIN %d\n", c.ID)
			w.Flush()
			p := &pool{what: c.What, own: p2.NewPool()}
			var ev []Event
			if c.Par > 0 {
				ev = runPar(c, p)
			} else {
				ev = runSeq(c, p)
			}
			o, _ := json.Marshal(struct {
				ID int     `json:"id"`
				Ev []Event `json:"ev"`
			}{c.ID, ev})
			w.Write(o)
			w.WriteByte('\n')
			w.Flush()
		}
		if err != nil {
			return
		}
	}
}
