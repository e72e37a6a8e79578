#!/usr/bin/env python3
"""Development aid: compares the analyser's models with what Go does.
usage: selftest.py [N] [FUNCTION-PREFIX]: N inputs per function of selftest/models.go."""
import os, re, sys, subprocess, tempfile, shutil
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checker = os.environ.get('CHECKER', verif + '/bin/checker')
n = sys.argv[1] if len(sys.argv) > 1 else '40'
pre = sys.argv[2] if len(sys.argv) > 2 else ''
src = open(verif + '/selftest/models.go').read()
names = [x for x in re.findall(r'^func ([A-Z]\w*)\(a, b uint64\)', src, re.M) if x.startswith(pre)]
snames = [x for x in re.findall(r'^func ([A-Z]\w*)\(x \*big.Float, p uint64\)', open(verif + '/selftest/streams.go').read(), re.M) if x.startswith(pre)]
tmp = tempfile.mkdtemp(prefix='selftest')
shutil.copytree(verif + '/selftest', tmp + '/m')
os.mkdir(tmp + '/m/run')
open(tmp + '/m/run/main.go', 'w').write('''package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"

	models "github.com/mewmew/float"
)

var funcs = []struct {
	name string
	f    func(a, b uint64) (uint64, uint64)
}{
''' + ''.join('\t{"%s", models.%s},\n' % (x, x) for x in names) + '''}

var sfuncs = []struct {
	name string
	f    func(x *big.Float, p uint64) (uint64, uint64)
}{
''' + ''.join('\t{"%s", models.%s},\n' % (x, x) for x in snames) + '''}

var ends = []uint64{0, 1, 0x7FF0000000000000, 0x3FF0000000000000, 0x7FF0000000000001, 0x7FEFFFFFFFFFFFFF, 0x000FFFFFFFFFFFFF, 0x10000000000000,
	0x3FF8000000000000, 0x380FFFFFF0000000, 0x47EFFFFFF0000000, 0x36A0000000000000, 0xFFFFFFFFFFFFFFFF, 1 << 63, 0x7F, 0x80, 0x8000, 0x43E0000000000000, 0x433FFFFFFFFFFFFF}

func word(r *rand.Rand) uint64 {
	x := r.Uint64()
	switch r.Intn(7) {
	case 0:
		return ends[r.Intn(len(ends))] ^ x&(1<<63)
	case 1:
		return x >> uint(r.Intn(64))
	case 2:
		return x&(0x800F<<48|1<<48-1) | uint64(1023-30+r.Intn(90))<<52
	case 3:
		return x & r.Uint64() & r.Uint64()
	case 4:
		return x &^ (1<<uint(r.Intn(50)) - 1)
	case 5:
		return x&(1<<63) | uint64(r.Intn(100)-50+1023)<<52 | (x>>40)<<30&(1<<52-1)
	}
	return x
}

type test struct {
	F        string
	A, B     uint64
	Pos      []int // of the bits left open, those of b from 64 on
	Want     [][2]uint64
	Panic    []bool
}

type sample struct {
	Bits             string
	E, S             int64
	Mode, Sign, Form int
	Want             [2]uint64
	Panic            bool
}

type stest struct {
	F      string
	P      uint64
	G      sample   // '?' in Bits, -1 elsewhere: open
	EHi    int64
	SHi    int64
	Samples []sample
}

func streams(n int, enc *json.Encoder) {
	exps := []int64{0, 1, 5, 11, 24, 53, 60, 64, 65, 128, 1023, 1024, 1025, -13, -14, -24, -25, -126, -149, -150, -1021, -1022, -1074, -1075, -16382}
	precs := []uint64{1, 2, 5, 11, 24, 53, 64, 113, 25}
	for _, fn := range sfuncs {
		r := rand.New(rand.NewSource(int64(len(fn.name)) + 11))
		for i := 0; i < n; i++ {
			t := stest{F: fn.name, P: precs[r.Intn(len(precs))]}
			ln := []int{1, 2, 3, 11, 12, 24, 25, 53, 54, 55, 64, 65, 113, 114, 130, 5, 8}[r.Intn(17)] + r.Intn(3)
			b := make([]byte, ln)
			fill := "01?"[r.Intn(2)]
			for j := range b {
				b[j] = fill
				if r.Intn(6) == 0 {
					b[j] = "01?"[r.Intn(3)]
				}
				if i%3 == 0 {
					b[j] = "01?"[r.Intn(3)]
				}
			}
			b[0] = '1'
			g := sample{Bits: string(b), E: exps[r.Intn(len(exps))] + int64(r.Intn(5)-2), S: int64(r.Intn(3) * r.Intn(30)), Mode: r.Intn(7) - 1, Sign: r.Intn(3) - 1, Form: 1}
			if r.Intn(8) == 0 {
				g.Form = r.Intn(4) - 1
			}
			t.G, t.EHi, t.SHi = g, g.E+int64(r.Intn(3)*r.Intn(4)), g.S+int64(r.Intn(2)*r.Intn(60))
			for k := 0; k < 40; k++ {
				s := g
				c := []byte(g.Bits)
				for j := range c {
					if c[j] == '?' {
						c[j] = "01"[r.Intn(2)]
						if k&3 == 1 {
							c[j] = fill
						}
						if k&3 == 3 {
							c[j] = '0'
						}
					}
				}
				s.Bits = string(c)
				s.E += int64(r.Intn(int(t.EHi - g.E + 1)))
				s.S += int64(r.Intn(int(t.SHi - g.S + 1)))
				if s.Mode < 0 {
					s.Mode = r.Intn(6)
				}
				if s.Sign < 0 {
					s.Sign = r.Intn(2)
				}
				if s.Form < 0 {
					s.Form = r.Intn(3)
				}
				x := new(big.Float)
				m, _ := new(big.Int).SetString(s.Bits, 2)
				need := m.BitLen() - int(m.TrailingZeroBits())
				x.SetPrec(uint(int64(need) + s.S)).SetMode(big.RoundingMode(s.Mode))
				switch s.Form {
				case 0:
					x.SetPrec(uint(7))
				case 2:
					x.SetPrec(uint(7)).SetInf(false)
				default:
					x.SetInt(m)
					x.SetMantExp(x, int(s.E)-m.BitLen())
				}
				if s.Sign == 1 {
					x.Neg(x)
				}
				func() {
					s.Panic = true
					defer func() { recover() }()
					s.Want[0], s.Want[1] = fn.f(x, t.P)
					s.Panic = false
				}()
				t.Samples = append(t.Samples, s)
			}
			if err := enc.Encode(t); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
		}
	}
}

func main() {
	n, _ := strconv.Atoi(os.Args[1])
	enc := json.NewEncoder(os.Stdout)
	streams(n, enc)
	for _, fn := range funcs {
		r := rand.New(rand.NewSource(int64(len(fn.name)) + 7))
		for i := 0; i < n; i++ {
			t := test{F: fn.name, A: word(r), B: word(r)}
			k := r.Intn(7)
			at := r.Intn(128)
			seen := map[int]bool{}
			for len(t.Pos) < k {
				p := r.Intn(128)
				if i&1 == 1 {
					p = (at + len(t.Pos)) % 128
				}
				if i%4 == 2 {
					p = r.Intn(12) + 64*r.Intn(2)
				}
				if !seen[p] {
					seen[p] = true
					t.Pos = append(t.Pos, p)
				}
			}
			for m := 0; m < 1<<uint(k); m++ {
				a, b := t.A, t.B
				for j, p := range t.Pos {
					v := uint64(m >> uint(j) & 1)
					if p < 64 {
						a = a&^(1<<uint(p)) | v<<uint(p)
					} else {
						b = b&^(1<<uint(p-64)) | v<<uint(p-64)
					}
				}
				func() {
					pan := true
					var x, y uint64
					defer func() {
						recover()
						t.Want = append(t.Want, [2]uint64{x, y})
						t.Panic = append(t.Panic, pan)
					}()
					x, y = fn.f(a, b)
					pan = false
				}()
			}
			if err := enc.Encode(t); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
		}
	}
}
''')
e = '. /opt/vp/env.sh; export GOFLAGS=-mod=mod; '
r = subprocess.run(e + f'go run ./run {n} > {tmp}/tests.json', shell=True, cwd=tmp + '/m')
if r.returncode == 0:
    shutil.rmtree(tmp + '/m/run')
    r = subprocess.run(e + f'{checker} -repo {tmp}/m -selftest {tmp}/tests.json', shell=True)
shutil.rmtree(tmp)
sys.exit(r.returncode)
