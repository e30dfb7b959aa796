// Interpreter of simulated programs over the Go binding. A program is a list of lines on standard input;
// every decision (operands, when the collector runs, when a task is suspended) is in the program.
package main

// #include <stdint.h>
// void sim_mark(void); long sim_live(void); long sim_written(void); void sim_seed(uint64_t);
// extern int sim_gc; extern int sim_armed; extern long sim_ev, sim_gc_at, sim_sw_at, sim_seams, sim_frees;
import "C"

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"ecgo"
	"encoding/hex"
	"fmt"
	"hash"
	"math/big"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
)

const NREG = 24

type task struct {
	F   [NREG]*ecgo.FieldElement
	P   [NREG]*ecgo.Point
	C   [NREG]*ecgo.Curve
	S   [NREG]*ecgo.ECDSASignatureScheme
	G   [NREG]*ecgo.ECDSASignature
	E   [NREG]*ecgo.ECElgamalCiphertext
	cmd chan []string
	res chan int
	id  int
}

var tasks [4]*task
var status = make(chan string)
var cur *task
var out = bufio.NewWriter(os.Stdout)
var collections, suspensions int

// ---- the collector, at an instant the simulator chose
type sentinel struct{ x [4]*int }

func collect() {
	C.sim_gc++
	// a batch of finalizers is complete when the sentinel of the next one ran; chains of objects take
	// several cycles: go on until nothing was released for some of them
	for i, quiet := 0, 0; i < 4 || (quiet < 3 && i < 60); i++ {
		before := C.sim_frees
		ch := make(chan int, 1)
		func() {
			s := new(sentinel)
			runtime.SetFinalizer(s, func(*sentinel) { ch <- 1 })
		}()
		runtime.GC()
		<-ch
		if C.sim_frees == before {
			quiet++
		} else {
			quiet = 0
		}
	}
	C.sim_gc--
	collections++
}

//export goSeam
func goSeam(kind C.int) {
	if kind&1 != 0 {
		collect()
	}
	if kind&2 != 0 {
		t := cur
		ev, g, s := C.sim_ev, C.sim_gc_at, C.sim_sw_at
		C.sim_armed = 0
		suspensions++
		status <- "suspended"
		<-t.res
		cur = t
		C.sim_ev, C.sim_gc_at, C.sim_sw_at = ev, g, s
		C.sim_armed = 1
	}
}
func goEvent() { // the same seam for Go code of the program (hash functions)
	if C.sim_armed == 0 || C.sim_gc != 0 {
		return
	}
	C.sim_ev++
	k := C.int(0)
	if C.sim_ev == C.sim_gc_at {
		k |= 1
	}
	if C.sim_ev == C.sim_sw_at {
		k |= 2
	}
	if k != 0 {
		goSeam(k)
	}
}

type seamHash struct{ hash.Hash }

func (h seamHash) Write(p []byte) (int, error) { goEvent(); return h.Hash.Write(p) }
func (h seamHash) Sum(b []byte) []byte         { goEvent(); return h.Hash.Sum(b) }

func newHash(n string) hash.Hash {
	switch n {
	case "sha1":
		return seamHash{sha1.New()}
	case "sha224":
		return seamHash{sha256.New224()}
	case "sha256":
		return seamHash{sha256.New()}
	case "sha384":
		return seamHash{sha512.New384()}
	case "sha512":
		return seamHash{sha512.New()}
	}
	panic("HARNESS hash " + n)
}

// ---- operands of an operation: big integers and byte slices are compared with their text afterwards
type operands struct {
	z []*big.Int
	s []string
	b [][]byte
	c [][]byte
}

func (o *operands) num(s string) *big.Int {
	z, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("HARNESS number " + s)
	}
	o.z = append(o.z, z)
	o.s = append(o.s, s)
	return z
}
func (o *operands) raw(s string) []byte {
	b, err := hex.DecodeString(s[1:])
	if err != nil {
		panic("HARNESS bytes " + s)
	}
	// room behind the slice belongs to the caller too
	w := append(append(make([]byte, 0, len(b)+160), b...), bytes.Repeat([]byte{0x5c}, 160)...)
	o.b = append(o.b, w)
	o.c = append(o.c, append([]byte(nil), w...))
	return w[:len(b)]
}
func (o *operands) changed() string {
	for i := range o.z {
		if o.z[i].Text(16) != o.s[i] {
			return fmt.Sprintf(" MODIFIED integer %d from %s to %s", i, o.s[i], o.z[i].Text(16))
		}
	}
	for i := range o.b {
		if !bytes.Equal(o.b[i], o.c[i]) {
			return fmt.Sprintf(" MODIFIED bytes %d from %x to %x", i, o.c[i], o.b[i])
		}
	}
	return ""
}

// a register operand; the text ends with '!' when this is its last use: the register is emptied first
func reg(s string) (int, bool) {
	last := strings.HasSuffix(s, "!")
	n, err := strconv.Atoi(strings.TrimSuffix(s, "!"))
	if err != nil {
		panic("HARNESS register " + s)
	}
	return n, last
}
func take[T any](r *[NREG]*T, s string) *T {
	n, last := reg(s)
	v := r[n]
	if v == nil {
		panic("HARNESS empty register " + s)
	}
	if last {
		r[n] = nil
	}
	return v
}
func u64(s string) uint64 {
	v, err := strconv.ParseUint(s, 16, 64)
	if err != nil {
		panic("HARNESS uint " + s)
	}
	return v
}
func idx(s string) int { n, _ := reg(s); return n }
func pv(p *ecgo.Point) string {
	if p == nil {
		return "nil"
	}
	return hex.EncodeToString(p.BytesUncompressed())
}
func fv(f *ecgo.FieldElement) string {
	if f == nil {
		return "nil"
	}
	return f.AsInt().Text(16)
}

// every operation is a function of its own, so that nothing but the operation itself keeps operands alive
var ops = map[string]func(t *task, o *operands, a []string) string{
	"fnew":   func(t *task, o *operands, a []string) string { t.F[idx(a[0])] = ecgo.NewFieldElement(o.num(a[1]), o.num(a[2])); return fv(t.F[idx(a[0])]) },
	"fnewui": func(t *task, o *operands, a []string) string { t.F[idx(a[0])] = ecgo.NewFieldElementUI(u64(a[1]), o.num(a[2])); return fv(t.F[idx(a[0])]) },
	"frand":  func(t *task, o *operands, a []string) string { t.F[idx(a[0])] = ecgo.NewFieldElementURandom(o.num(a[1])); return fv(t.F[idx(a[0])]) },
	"fadd":   func(t *task, o *operands, a []string) string { i := idx(a[0]); z := t.F[i]; t.F[i] = z.Add(take(&t.F, a[1]), take(&t.F, a[2])); return "" },
	"fsub":   func(t *task, o *operands, a []string) string { i := idx(a[0]); z := t.F[i]; t.F[i] = z.Sub(take(&t.F, a[1]), take(&t.F, a[2])); return "" },
	"fmul":   func(t *task, o *operands, a []string) string { i := idx(a[0]); z := t.F[i]; t.F[i] = z.Mul(take(&t.F, a[1]), take(&t.F, a[2])); return "" },
	"fneg":   func(t *task, o *operands, a []string) string { i := idx(a[0]); z := t.F[i]; t.F[i] = z.Neg(take(&t.F, a[1])); return "" },
	"finv":   func(t *task, o *operands, a []string) string { i := idx(a[0]); r, err := t.F[i].Inv(take(&t.F, a[1])); return okv(t, i, r, err) },
	"fsqrt":  func(t *task, o *operands, a []string) string { i := idx(a[0]); r, err := t.F[i].Sqrt(take(&t.F, a[1])); return okv(t, i, r, err) },
	"fexp":   func(t *task, o *operands, a []string) string { i := idx(a[0]); z := t.F[i]; t.F[i] = z.Exp(take(&t.F, a[1]), u64(a[2])); return "" },
	"fint":   func(t *task, o *operands, a []string) string { return take(&t.F, a[0]).AsInt().Text(16) },
	"forder": func(t *task, o *operands, a []string) string { return take(&t.F, a[0]).Order().Text(16) },
	"fcmp":   func(t *task, o *operands, a []string) string { return sign(take(&t.F, a[0]).Cmp(take(&t.F, a[1]))) },
	"fbit":   func(t *task, o *operands, a []string) string { return fmt.Sprint(take(&t.F, a[0]).Bit(int(u64(a[1])))) },
	"cnamed": func(t *task, o *operands, a []string) string { c := ecgo.NamedCurve(a[1]); t.C[idx(a[0])] = c; return fmt.Sprint(c != nil) },
	"cnew": func(t *task, o *operands, a []string) string {
		f := []func(p, a, b, n, h, gx, gy *big.Int, bits uint) *ecgo.Curve{ecgo.ShortWeierstrassCurve, ecgo.EdwardsCurve, ecgo.MontgomeryCurve, ecgo.TwistedEdwardsCurve}[u64(a[1])]
		c := f(o.num(a[2]), o.num(a[3]), o.num(a[4]), o.num(a[5]), o.num(a[6]), o.num(a[7]), o.num(a[8]), uint(u64(a[9])))
		t.C[idx(a[0])] = c
		return fmt.Sprint(c != nil)
	},
	"cattr": func(t *task, o *operands, a []string) string {
		r := take(&t.C, a[0]).GetAttr(a[1])
		if r == nil {
			return "nil"
		}
		return r.Text(16)
	},
	"ctype":  func(t *task, o *operands, a []string) string { return fmt.Sprint(take(&t.C, a[0]).Type()) },
	"ccmp":   func(t *task, o *operands, a []string) string { return fmt.Sprint(take(&t.C, a[0]).Cmp(take(&t.C, a[1])) == 0) },
	"ccheck": func(t *task, o *operands, a []string) string { return fmt.Sprint(take(&t.C, a[0]).PointCheck(o.num(a[1]), o.num(a[2]))) },
	"cnames": func(t *task, o *operands, a []string) string { return strings.Join(ecgo.CurveNames(), ",") },
	"pxy":    func(t *task, o *operands, a []string) string { t.P[idx(a[0])] = ecgo.NewPointXY(o.num(a[1]), o.num(a[2]), take(&t.C, a[3])); return "" },
	"pneut":  func(t *task, o *operands, a []string) string { t.P[idx(a[0])] = ecgo.NewPointNeutral(take(&t.C, a[1])); return "" },
	"pgen":   func(t *task, o *operands, a []string) string { t.P[idx(a[0])] = ecgo.NewPointGenerator(take(&t.C, a[1])); return "" },
	"prand":  func(t *task, o *operands, a []string) string { t.P[idx(a[0])] = ecgo.NewPointURandom(take(&t.C, a[1])); return pv(t.P[idx(a[0])]) },
	"pstr": func(t *task, o *operands, a []string) string {
		t.P[idx(a[0])] = ecgo.NewPointFromString(a[1][1:], take(&t.C, a[2]))
		return fmt.Sprint(t.P[idx(a[0])] != nil)
	},
	"pbytes": func(t *task, o *operands, a []string) string {
		t.P[idx(a[0])] = ecgo.NewPointFromBytes(o.raw(a[1]), take(&t.C, a[2]))
		return fmt.Sprint(t.P[idx(a[0])] != nil)
	},
	"paff":   func(t *task, o *operands, a []string) string { x, y := take(&t.P, a[0]).Affine(); return x.Text(16) + "," + y.Text(16) },
	"pisn":   func(t *task, o *operands, a []string) string { return fmt.Sprint(take(&t.P, a[0]).IsNeutral()) },
	"psc":    func(t *task, o *operands, a []string) string { return take(&t.P, a[0]).StringCompressed() },
	"psu":    func(t *task, o *operands, a []string) string { return take(&t.P, a[0]).StringUncompressed() },
	"pbc":    func(t *task, o *operands, a []string) string { return hex.EncodeToString(take(&t.P, a[0]).BytesCompressed()) },
	"pbu":    func(t *task, o *operands, a []string) string { return hex.EncodeToString(take(&t.P, a[0]).BytesUncompressed()) },
	"pcmp":   func(t *task, o *operands, a []string) string { return fmt.Sprint(take(&t.P, a[0]).Cmp(take(&t.P, a[1])) == 0) },
	"padd":   func(t *task, o *operands, a []string) string { i := idx(a[0]); z := t.P[i]; t.P[i] = z.Add(take(&t.P, a[1]), take(&t.P, a[2])); return "" },
	"psub":   func(t *task, o *operands, a []string) string { i := idx(a[0]); z := t.P[i]; t.P[i] = z.Sub(take(&t.P, a[1]), take(&t.P, a[2])); return "" },
	"pneg":   func(t *task, o *operands, a []string) string { i := idx(a[0]); z := t.P[i]; t.P[i] = z.Neg(take(&t.P, a[1])); return "" },
	"pset":   func(t *task, o *operands, a []string) string { i := idx(a[0]); z := t.P[i]; t.P[i] = z.Set(take(&t.P, a[1])); return "" },
	"pmul":   func(t *task, o *operands, a []string) string { i := idx(a[0]); z := t.P[i]; t.P[i] = z.Mul(take(&t.P, a[1]), o.num(a[2])); return "" },
	"psetup": func(t *task, o *operands, a []string) string { take(&t.P, a[0]).SetupBaseMul(); return "" },
	"snew":   func(t *task, o *operands, a []string) string { t.S[idx(a[0])] = ecgo.NewECDSASignatureScheme(take(&t.C, a[1]), newHash(a[2])); return "" },
	"sign": func(t *task, o *operands, a []string) string {
		g := take(&t.S, a[1]).Sign(o.num(a[2]), o.raw(a[3]))
		t.G[idx(a[0])] = g
		if g == nil {
			return "nil"
		}
		return hex.EncodeToString(g.AsBytes())
	},
	"verify": func(t *task, o *operands, a []string) string { return fmt.Sprint(take(&t.G, a[0]).Verify(take(&t.P, a[1]), o.raw(a[2]))) },
	"gbytes": func(t *task, o *operands, a []string) string { return hex.EncodeToString(take(&t.G, a[0]).AsBytes()) },
	"gfrom": func(t *task, o *operands, a []string) string {
		t.G[idx(a[0])] = take(&t.S, a[1]).SignatureFromBytes(o.raw(a[2]))
		return fmt.Sprint(t.G[idx(a[0])] != nil)
	},
	"eenc": func(t *task, o *operands, a []string) string {
		t.E[idx(a[0])] = ecgo.ECElgamalEncrypt(take(&t.P, a[1]), take(&t.P, a[2]))
		return fmt.Sprint(t.E[idx(a[0])] != nil)
	},
	"edec": func(t *task, o *operands, a []string) string {
		t.P[idx(a[0])] = take(&t.E, a[1]).Decrypt(o.num(a[2]))
		return fmt.Sprint(t.P[idx(a[0])] != nil)
	},
	"eC": func(t *task, o *operands, a []string) string { t.P[idx(a[0])] = take(&t.E, a[1]).C(); return "" },
	"eD": func(t *task, o *operands, a []string) string { t.P[idx(a[0])] = take(&t.E, a[1]).D(); return "" },
	"enew": func(t *task, o *operands, a []string) string {
		t.E[idx(a[0])] = ecgo.NewECElgamalCiphertext(take(&t.P, a[1]), take(&t.P, a[2]))
		return fmt.Sprint(t.E[idx(a[0])] != nil)
	},
	"drop": func(t *task, o *operands, a []string) string {
		n := idx(a[1])
		switch a[0] {
		case "F":
			t.F[n] = nil
		case "P":
			t.P[n] = nil
		case "C":
			t.C[n] = nil
		case "S":
			t.S[n] = nil
		case "G":
			t.G[n] = nil
		case "E":
			t.E[n] = nil
		}
		return ""
	},
	"copy": func(t *task, o *operands, a []string) string { // two names for one object
		i, j := idx(a[1]), idx(a[2])
		u := tasks[idx(a[3])] // possibly of another task
		switch a[0] {
		case "F":
			t.F[i] = u.F[j]
		case "P":
			t.P[i] = u.P[j]
		case "C":
			t.C[i] = u.C[j]
		case "S":
			t.S[i] = u.S[j]
		case "G":
			t.G[i] = u.G[j]
		case "E":
			t.E[i] = u.E[j]
		}
		return ""
	},
	"gc": func(t *task, o *operands, a []string) string { collect(); return "" },
}

func sign(v int) string {
	if v < 0 {
		return "-1"
	}
	if v > 0 {
		return "1"
	}
	return "0"
}
func okv(t *task, i int, r *ecgo.FieldElement, err error) string {
	if err != nil {
		if r != nil {
			return "error with a value"
		}
		return "error"
	}
	t.F[i] = r
	return "ok"
}

func (t *task) one(w []string) (r string) {
	o := new(operands)
	defer func() {
		C.sim_armed = 0
		if e := recover(); e != nil {
			s := fmt.Sprint(e)
			if strings.HasPrefix(s, "HARNESS") {
				fmt.Fprintln(os.Stderr, s, w)
				os.Exit(87)
			}
			if _, rt := e.(runtime.Error); rt {
				r = "runtime-panic " + strings.ReplaceAll(s, "\n", " ")
			} else {
				r = "panic"
			}
		}
		r += o.changed()
	}()
	f := ops[w[3]]
	if f == nil {
		panic("HARNESS operation " + w[3])
	}
	g, _ := strconv.Atoi(w[1])
	s, _ := strconv.Atoi(w[2])
	C.sim_ev, C.sim_gc_at, C.sim_sw_at = 0, C.long(g), C.long(s)
	C.sim_armed = 1
	return f(t, o, w[4:])
}
func (t *task) run() {
	for w := range t.cmd {
		cur = t
		r := t.one(w)
		fmt.Fprintf(out, "%d %s\n", t.id, r)
		status <- "finished"
	}
}

func step(n int) bool {
	if <-status == "suspended" {
		fmt.Fprintf(out, "%d ~\n", n)
		return true
	}
	return false
}

// lines: "t gc sw op args" runs an operation on task t; "resume t"; "mark" (block count); "end"
func main() {
	debug.SetGCPercent(-1)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	busy := [4]bool{}
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		switch w[0] {
		case "seed":
			C.sim_seed(C.uint64_t(u64(w[1])))
		case "resume":
			n := idx(w[1])
			if busy[n] {
				tasks[n].res <- 1
				busy[n] = step(n)
			} else {
				fmt.Fprintf(out, "-\n")
			}
		case "mark":
			collect()
			collect()
			C.sim_mark()
			fmt.Fprintf(out, "M\n")
		case "end":
			for _, t := range tasks {
				if t != nil {
					*t = task{cmd: t.cmd, res: t.res, id: t.id}
				}
			}
			for i := 0; i < 4; i++ {
				collect()
			}
			fmt.Fprintf(out, "L %d %d %d %d %d\n", C.sim_live(), C.sim_written(), collections, suspensions, C.sim_seams)
		default:
			n := idx(w[0])
			if tasks[n] == nil {
				tasks[n] = &task{cmd: make(chan []string), res: make(chan int), id: n}
				go tasks[n].run()
			}
			if busy[n] {
				fmt.Fprintln(os.Stderr, "HARNESS task is suspended")
				os.Exit(87)
			}
			tasks[n].cmd <- w
			busy[n] = step(n)
		}
		out.Flush()
	}
}
