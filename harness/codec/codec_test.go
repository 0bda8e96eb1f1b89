package codec

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/jsimonetti/go-artnet/packet"
	"verif/gen"
	"verif/report"
	"verif/wire"
)

// begin returns the run if the environment asks for this property.
func begin(t *testing.T, prop string) *report.Run {
	r := report.New()
	if r.Prop != prop {
		t.Skip("not asked for")
	}
	r.Watchdog(4 * time.Minute)
	return r
}

// outcome is everything observable about one decoding.
type outcome struct {
	ok   bool
	typ  string
	id   [8]byte
	op   uint16
	ver  [2]byte
	vals wire.Values
}

func (o outcome) String() string {
	if !o.ok {
		return "error"
	}
	return fmt.Sprintf("%s id=%x op=%#x ver=%x %v", o.typ, o.id, o.op, o.ver, o.vals)
}

func look(t *wire.Type, p packet.ArtNetPacket) outcome {
	o := outcome{ok: true, typ: reflect.TypeOf(p).String(), vals: values(t, p)}
	o.id, o.op, o.ver, _ = header(p)
	if g := uint16(p.GetOpCode()); g != o.op {
		o.op = g // GetOpCode is what users and the node look at
		o.typ += fmt.Sprintf(" (OpCode field and GetOpCode differ)")
	}
	return o
}

// typeOf finds the table of a library packet.
func typeOf(p packet.ArtNetPacket) *wire.Type {
	rt := reflect.TypeOf(p)
	for _, t := range wire.Types {
		if reflect.TypeOf(fresh(t)) == rt {
			return t
		}
	}
	return nil
}

// generic decodes b with the generic decoder.
func generic(r *report.Run, b []byte) outcome {
	p, err, pan := decode(b)
	if pan != nil {
		r.Fail("generic decoder panicked on %d bytes %s: %v", len(b), hexs(b), pan)
	}
	if err != nil {
		return outcome{}
	}
	if p == nil {
		r.Fail("generic decoder returned neither packet nor error on %s", hexs(b))
	}
	t := typeOf(p)
	if t == nil {
		r.Fail("generic decoder returned a %T on %s", p, hexs(b))
	}
	return look(t, p)
}

// typed decodes b into p.
func typed(r *report.Run, t *wire.Type, p packet.ArtNetPacket, b []byte) outcome {
	err, pan := decodeInto(p, b)
	if pan != nil {
		r.Fail("%v decoder panicked on %d bytes %s: %v", t, len(b), hexs(b), pan)
	}
	if err != nil {
		return outcome{}
	}
	return look(t, p)
}

func same(a, b outcome) string {
	if a.ok != b.ok {
		return fmt.Sprintf("accepted=%v against accepted=%v", a.ok, b.ok)
	}
	if !a.ok {
		return ""
	}
	if a.typ != b.typ {
		return fmt.Sprintf("type %s against %s", a.typ, b.typ)
	}
	if a.id != b.id || a.op != b.op || a.ver != b.ver {
		return fmt.Sprintf("header %x/%#x/%x against %x/%#x/%x", a.id, a.op, a.ver, b.id, b.op, b.ver)
	}
	return wire.Diff(a.vals, b.vals)
}

// TestC01: decoding is total and isolated.
func TestC01(tt *testing.T) {
	r := begin(tt, "C01")
	no := 0
	mine := func() bool { no++; return r.Mine(no - 1) }

	one := func(rng *rand.Rand, b []byte, class string) outcome {
		orig := append([]byte(nil), b...)
		// the same bytes in front of two different surroundings, with spare capacity
		pre, post := rng.IntN(40), 1+rng.IntN(700)
		full := make([]byte, pre+len(b)+post)
		fill := func(f func(i int) byte) {
			for i := range full {
				if i < pre || i >= pre+len(b) {
					full[i] = f(i)
				}
			}
		}
		copy(full[pre:], b)
		win := full[pre : pre+len(b)]
		fill(func(i int) byte { return 0xff })
		g1 := generic(r, win)
		fill(func(i int) byte { return byte(i * 7) })
		g2 := generic(r, win)
		exact := append(make([]byte, 0, len(b)), b...)
		g3 := generic(r, exact[:len(b):len(b)])
		if d := same(g1, g2); d != "" {
			r.Fail("bytes outside the input change the outcome (%s): %s", d, hexs(b))
		}
		if d := same(g1, g3); d != "" {
			r.Fail("spare capacity changes the outcome (%s): %s", d, hexs(b))
		}
		if !bytes.Equal(win, orig) || !bytes.Equal(exact, orig) {
			r.Fail("decoding changed its input %s", hexs(orig))
		}
		for i := range full {
			if (i < pre || i >= pre+len(b)) && full[i] != byte(i*7) {
				r.Fail("decoding wrote outside its input (offset %d of %s)", i-pre, hexs(orig))
			}
		}
		r.Eval(3)
		return g1
	}

	reuse := func(rng *rand.Rand, b []byte) {
		types := []*wire.Type{wire.Types[rng.IntN(len(wire.Types))]}
		if t := wire.ByOp(wire.Op(b)); t != nil {
			types = append(types, t)
		}
		for _, t := range types {
			f := typed(r, t, fresh(t), b)
			dirty := fresh(t)
			how := "random contents"
			switch rng.IntN(3) {
			case 0:
				set(t, dirty, randValues(rng, t, true))
				scribble(rng, dirty)
			case 1:
				how = "an earlier datagram"
				decodeInto(dirty, valid(rng, t))
			case 2:
				how = "an earlier refused datagram"
				v := valid(rng, t)
				for k := 1 + rng.IntN(3); k > 0; k-- {
					v[rng.IntN(len(v))] = rbyte(rng)
				}
				decodeInto(dirty, v[:rng.IntN(len(v)+1)])
			}
			d := typed(r, t, dirty, b)
			if x := same(f, d); x != "" {
				r.Fail("%v decoder: a receiving packet holding %s changes the outcome (fresh against used: %s) for %s", t, how, x, hexs(b))
			}
			r.Eval(2)
		}
	}

	alias := func(rng *rand.Rand, b []byte) {
		p1, err, _ := decode(b)
		if err != nil || p1 == nil {
			return
		}
		t := typeOf(p1)
		p2, err, _ := decode(b)
		if err != nil || p2 == nil {
			r.Fail("second decoding of an accepted datagram refused: %s", hexs(b))
		}
		w := look(t, p1)
		for i := range b {
			b[i] ^= 0xff
		}
		if d := same(w, look(t, p1)); d != "" {
			r.Fail("a decoded %v changes with its input buffer: %s", t, d)
		}
		set(t, p1, randValues(rng, t, true))
		scribble(rng, p1)
		if d := same(w, look(t, p2)); d != "" {
			r.Fail("two decoded %v packets share memory: %s", t, d)
		}
		for k := 0; k < 3; k++ {
			decode(valid(rng, t))
		}
		if d := same(w, look(t, p2)); d != "" {
			r.Fail("a decoded %v changes when others are decoded: %s", t, d)
		}
		r.Eval(3)
	}

	// every truncation of a valid datagram of every type
	for _, t := range wire.Types {
		if !mine() {
			continue
		}
		r.Case(no-1, "truncations of %v", t)
		rng := r.Rand(no - 1)
		v := append(valid(rng, t), rbytes(rng, 40)...)
		for n := 0; n <= len(v); n++ {
			g := one(rng, v[:n], "truncation")
			reuse(rng, v[:n])
			r.Seen("trunc %v %d %v", t, n, g.ok)
		}
	}
	// every announced DMX length against real lengths
	for blk := 0; blk < 64; blk++ {
		if !mine() {
			continue
		}
		r.Case(no-1, "DMX lengths block %d", blk)
		rng := r.Rand(no - 1)
		base := append(wire.Blank(wire.DMX), rbytes(rng, 600)...)
		for k := 0; k < r.Scale(24, 1024); k++ {
			l := blk*1024 + k
			if !r.Thorough {
				l = blk*1024 + rng.IntN(1024)
			}
			if blk == 0 {
				l = rng.IntN(1024)
			}
			base[16], base[17] = byte(l>>8), byte(l)
			for _, n := range []int{12, 17, 18, 19, 17 + l, 18 + l, 19 + l, 530, 600} {
				if n <= len(base) {
					g := one(rng, base[:n], "DMX")
					r.Seen("dmx %d %d %v", l, n-18-l, g.ok)
				}
			}
		}
	}
	if mine() {
		r.Case(no-1, "nil and huge inputs")
		rng := r.Rand(no - 1)
		generic(r, nil)
		for _, t := range wire.Types {
			typed(r, t, fresh(t), nil)
			typed(r, t, fresh(t), []byte{})
			one(rng, append(wire.Blank(t), make([]byte, 65507-t.Len)...), "huge")
		}
	}
	// random inputs
	for blk := 0; blk < r.Scale(320, 6000); blk++ {
		if !mine() {
			continue
		}
		r.Case(no-1, "random inputs block %d", blk)
		rng := r.Rand(no - 1)
		for k := 0; k < 100; k++ {
			b, class := gen.Input(rng)
			g := one(rng, b, class)
			if k%2 == 0 {
				reuse(rng, b)
			}
			r.Seen("%s %d %v", class, len(b), g.ok)
			r.Count("inputs", 1)
			if g.ok {
				r.Count("accepted", 1)
			}
			if k == 50 && r.WantSample() {
				r.Sample(fmt.Sprintf("%s, %d bytes: %.120s", class, len(b), g))
			}
			alias(rng, append([]byte(nil), b...))
		}
	}
	// what one sender sends in succession, in one order and in others
	for blk := 0; blk < r.Scale(240, 3000); blk++ {
		if !mine() {
			continue
		}
		r.Case(no-1, "succession block %d", blk)
		rng := r.Rand(no - 1)
		for k := 0; k < 6; k++ {
			t := wire.Types[rng.IntN(len(wire.Types))]
			if k == 0 {
				t = wire.DMX
			}
			in := gen.Datagrams(rng, t, gen.Stream(rng, t, 30+rng.IntN(30)))
			want := make([]outcome, len(in))
			for i := len(in) - 1; i >= 0; i-- {
				want[i] = generic(r, in[i])
			}
			into := fresh(t)
			for i, b := range in {
				if d := same(want[i], generic(r, b)); d != "" {
					r.Fail("the outcome depends on what was decoded before (%s): %s", d, hexs(b))
				}
				if d := same(want[i], typed(r, t, into, b)); d != "" {
					r.Fail("%v decoder: the outcome depends on what the packet held before (%s): %s", t, d, hexs(b))
				}
			}
			for _, i := range rng.Perm(len(in)) {
				if d := same(want[i], generic(r, in[i])); d != "" {
					r.Fail("the outcome depends on what was decoded before (%s): %s", d, hexs(in[i]))
				}
			}
			r.Eval(4 * len(in))
			r.Count("successions", 1)
		}
	}
	// concurrent decodings of shared inputs
	for blk := 0; blk < r.Scale(64, 600); blk++ {
		if !mine() {
			continue
		}
		r.Case(no-1, "concurrent decoding block %d", blk)
		rng := r.Rand(no - 1)
		var in [][]byte
		var want []outcome
		for k := 0; k < 12; k++ {
			b, _ := gen.Input(rng)
			if rng.IntN(2) == 0 {
				b = valid(rng, wire.Types[rng.IntN(len(wire.Types))])
			}
			if len(b) > 5000 {
				b = b[:5000]
			}
			in = append(in, b)
			want = append(want, generic(r, b))
		}
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			rg := rand.New(rand.NewPCG(rng.Uint64(), uint64(g)))
			go func() {
				defer wg.Done()
				for k := 0; k < 60; k++ {
					i := rg.IntN(len(in))
					if d := same(want[i], generic(r, in[i])); d != "" {
						r.Fail("concurrent decoding of %s differs: %s", hexs(in[i]), d)
					}
					if t := wire.ByOp(wire.Op(in[i])); t != nil {
						typed(r, t, fresh(t), in[i])
					}
					r.Eval(1)
				}
			}()
		}
		wg.Wait()
		r.Count("concurrent blocks", 1)
	}
	r.Done()
}

// TestC02: acceptance.
func TestC02(tt *testing.T) {
	r := begin(tt, "C02")
	no := 0
	mine := func() bool { no++; return r.Mine(no - 1) }

	// judge compares the generic decoder, the right typed decoder and one other with the reference.
	judge := func(b []byte, stream string) {
		v, t, why := wire.Judge(b)
		g := generic(r, b)
		r.Eval(1)
		r.Count(v.String(), 1)
		switch v {
		case wire.Accept:
			if !g.ok {
				r.Fail("%s: generic decoder refused a well-formed %v: %s", stream, t, hexs(b))
			}
			if want := reflect.TypeOf(fresh(t)).String(); g.typ != want {
				r.Fail("%s: generic decoder returned %s for a %v: %s", stream, g.typ, t, hexs(b))
			}
		case wire.Reject:
			if g.ok {
				r.Fail("%s: generic decoder accepted as %s a datagram with defect %q: %s", stream, g.typ, why, hexs(b))
			}
		}
		if t != nil {
			f := typed(r, t, fresh(t), b)
			r.Eval(1)
			if v == wire.Accept && !f.ok {
				r.Fail("%s: %v decoder refused a well-formed datagram: %s", stream, t, hexs(b))
			}
			if v == wire.Reject && f.ok {
				r.Fail("%s: %v decoder accepted a datagram with defect %q: %s", stream, t, why, hexs(b))
			}
		}
		r.Seen("%s %v %s %d", stream, t, why, len(b))
	}
	// other checks that decoder t refuses b, which is not a t.
	other := func(t *wire.Type, b []byte, stream string) {
		r.Eval(1)
		if f := typed(r, t, fresh(t), b); f.ok {
			r.Fail("%s: %v decoder accepted a datagram that starts %x: %s", stream, t, b[:12], hexs(b))
		}
	}
	// long is a body every type can accept.
	long := func() []byte {
		b := make([]byte, 600)
		copy(b, wire.ID[:])
		b[11] = 14
		b[12], b[13] = 0xff, 0xff
		b[14], b[15] = 0x36, 0x19
		b[16] = 2
		return b
	}
	for hi := 0; hi < 256; hi++ { // all opcodes
		if !mine() {
			continue
		}
		r.Case(no-1, "opcodes %#02x..", hi)
		b := long()
		for lo := 0; lo < 256; lo++ {
			b[8], b[9] = byte(lo), byte(hi)
			judge(b, "opcodes")
			op := wire.Op(b)
			if lo%16 == 0 || r.Thorough || hi == lo {
				for _, t := range wire.Types {
					if t.Op != op {
						other(t, b, "opcodes, typed decoder")
					}
				}
			} else {
				t := wire.Types[(lo+hi)%len(wire.Types)]
				if t.Op != op {
					other(t, b, "opcodes, typed decoder")
				}
			}
		}
	}
	for hi := 0; hi < 256; hi++ { // all versions
		if !r.Thorough && hi > 15 && hi%16 != 14 {
			continue
		}
		if !mine() {
			continue
		}
		r.Case(no-1, "versions %#02x..", hi)
		for _, t := range wire.Types {
			b := t.Blank()
			for lo := 0; lo < 256; lo++ {
				b[10], b[11] = byte(hi), byte(lo)
				judge(b, "versions")
			}
		}
	}
	for _, t := range wire.Types { // identifier
		if !mine() {
			continue
		}
		r.Case(no-1, "identifier %v", t)
		for i := 0; i < 8; i++ {
			for v := 0; v < 256; v++ {
				b := t.Blank()
				b[i] = byte(v)
				judge(b, "identifier")
				if byte(v) != wire.ID[i] {
					other(t, b, "identifier, typed decoder")
				}
			}
		}
		for k := 0; k < 50; k++ {
			rng := r.Rand(no*1000 + k)
			b := t.Blank()
			for m := 1 + rng.IntN(7); m > 0; m-- {
				b[rng.IntN(8)] = rbyte(rng)
			}
			judge(b, "identifier")
		}
	}
	for blk := 0; blk < 128; blk++ { // DMX: all announced lengths, full datagram
		if !mine() {
			continue
		}
		r.Case(no-1, "DMX channel counts block %d", blk)
		b := append(wire.DMX.Blank(), make([]byte, 70)...)
		for k := 0; k < 512; k++ {
			l := blk*512 + k
			b[16], b[17] = byte(l>>8), byte(l)
			judge(b, "DMX channel count")
			if l < 514 {
				judge(b[:530], "DMX channel count")
			}
		}
	}
	for l := 0; l <= 514; l++ { // DMX: channel count against real length
		if !mine() {
			continue
		}
		r.Case(no-1, "DMX %d channels, every length", l)
		b := append(wire.DMX.Blank(), make([]byte, 70)...)
		b[16], b[17] = byte(l>>8), byte(l)
		for n := 0; n <= len(b); n++ {
			if r.Thorough || n < 20 || (n-18-l > -4 && n-18-l < 4) || n%29 == l%29 {
				judge(b[:n], "DMX lengths")
			}
		}
	}
	for hi := 0; hi < 256; hi++ { // poll reply ports and command manufacturer
		if !mine() {
			continue
		}
		r.Case(no-1, "ports and manufacturers %#02x..", hi)
		b, c := wire.PollReply.Blank(), wire.Command.Blank()
		for lo := 0; lo < 256; lo++ {
			b[14], b[15] = byte(hi), byte(lo)
			judge(b, "poll reply port")
			c[12], c[13] = byte(hi), byte(lo)
			judge(c, "command manufacturer")
		}
		b[14], b[15] = 0x36, 0x19
		b[200] = byte(hi)
		judge(b, "style")
		b[14], b[15] = 0x19, 0x36
		judge(b, "style")
		b[14], b[15] = byte(hi), 0x36
		judge(b, "style")
	}
	for _, t := range wire.Types { // lengths
		if !mine() {
			continue
		}
		r.Case(no-1, "lengths of %v", t)
		for k := 0; k < 4; k++ {
			v := append(t.Encode(randValues(r.Rand(no*10+k), t, false)), make([]byte, 200)...)
			for n := 0; n <= len(v); n++ {
				judge(v[:n], "lengths")
			}
			judge(append(v, make([]byte, 4096)...), "lengths")
		}
	}
	for _, t := range wire.Types { // giants, whose length does not fit 16 bits
		if !mine() {
			continue
		}
		r.Case(no-1, "giants of %v", t)
		v := append(t.Encode(randValues(r.Rand(no), t, false)), make([]byte, 1<<20)...)
		for _, base := range []int{1 << 15, 1 << 16, 1 << 17, 1 << 20} {
			for _, n := range []int{base - 1, base, base + 1, base + 9, base + 13, base + t.Len - 1, base + t.Len, base + t.Len + 1} {
				judge(v[:min(n, len(v))], "giants")
			}
		}
	}
	for ti, t := range wire.Types { // every later byte, every value
		for part := 0; part < 4; part++ {
			if !mine() {
				continue
			}
			r.Case(no-1, "every byte of %v, part %d", t, part)
			rng := r.Rand(no - 1)
			step := r.Scale(2, 1)
			for off := 12 + part; off < t.Len; off += 4 {
				b := valid(rng, t)
				for v := (off + ti) % step; v < 256; v += step {
					if off < len(b) {
						b[off] = byte(v)
						judge(b, "every byte")
					}
				}
			}
		}
	}
	for blk := 0; blk < r.Scale(3200, 32000); blk++ { // random
		if !mine() {
			continue
		}
		r.Case(no-1, "random block %d", blk)
		rng := r.Rand(no - 1)
		for k := 0; k < 100; k++ {
			b, class := gen.Input(rng)
			judge(b, "random "+class)
			if t := wire.Types[rng.IntN(len(wire.Types))]; len(b) >= 12 && wire.Op(b) != t.Op {
				other(t, b, "random, typed decoder")
			}
			if k == 7 && r.WantSample() {
				v, t, why := wire.Judge(b)
				r.Sample(fmt.Sprintf("%s: %s... -> %v (%v %s)", class, hexs(b[:min(len(b), 24)]), v, t, why))
			}
		}
	}
	r.Done()
}

// TestC03: decoded fields.
func TestC03(tt *testing.T) {
	r := begin(tt, "C03")
	no := 0
	mine := func() bool { no++; return r.Mine(no - 1) }
	used := map[*wire.Type]packet.ArtNetPacket{}
	check := func(t *wire.Type, b []byte) {
		if v, _, why := wire.Judge(b); v != wire.Accept {
			r.Inconclusive("generator made a datagram that is %v (%s): %s", v, why, hexs(b))
		}
		want := outcome{ok: true, typ: reflect.TypeOf(fresh(t)).String(), id: wire.ID, op: t.Op, vals: t.Decode(b)}
		if t != wire.PollReply {
			want.ver = [2]byte{b[10], b[11]}
		}
		if d := same(want, generic(r, b)); d != "" {
			r.Fail("generic decoder, %v (documented against decoded): %s; datagram %s", t, d, hexs(b))
		}
		if d := same(want, typed(r, t, fresh(t), b)); d != "" {
			r.Fail("%v decoder (documented against decoded): %s; datagram %s", t, d, hexs(b))
		}
		if used[t] == nil {
			used[t] = fresh(t)
		}
		if d := same(want, typed(r, t, used[t], b)); d != "" {
			r.Fail("%v decoder, into a packet used before (documented against decoded): %s; datagram %s", t, d, hexs(b))
		}
		r.Eval(3)
	}
	for _, t := range wire.Types { // each field through its values
		for fi, f := range t.Fields {
			n := 256
			if f.Kind == wire.U16BE || f.Kind == wire.U16LE {
				n = 65536
			}
			var rng *rand.Rand
			var base []byte
			for k := 0; k < n; k++ {
				if k%4096 == 0 {
					if !mine() {
						k += 4095
						continue
					}
					r.Case(no-1, "%v.%s from %d", t, f.Name, k)
					rng = r.Rand(no - 1)
					base = t.Encode(randValues(rng, t, false))
				}
				b := append([]byte(nil), base...)
				switch f.Kind {
				case wire.U8:
					f.Put(b, uint64(k))
				case wire.Bytes:
					b[f.Off+k%f.N] = byte(k + fi)
				default:
					f.Put(b, uint64(k))
				}
				if v, _, _ := wire.Judge(b); v == wire.Accept {
					check(t, b)
					r.Seen("%v %s %d", t, f.Name, k)
				}
			}
		}
	}
	for net := 0; net < 256; net += r.Scale(3, 1) { // each universe address of a DMX datagram
		if !mine() {
			continue
		}
		r.Case(no-1, "DMX net %d", net)
		rng := r.Rand(no - 1)
		b := wire.DMX.Encode(randValues(rng, wire.DMX, false))[:20]
		b[15], b[16], b[17] = byte(net), 0, 2
		for sub := 0; sub < 256; sub++ {
			b[12], b[14] = rbyte(rng), byte(sub)
			check(wire.DMX, b)
			r.Seen("dmx address %d %d", net, sub)
		}
	}
	for l := 2; l <= 512; l += 2 { // each DMX length
		if !mine() {
			continue
		}
		r.Case(no-1, "DMX %d channels", l)
		rng := r.Rand(no - 1)
		for _, extra := range []int{0, 1, 512 - l, 600} {
			b := append(wire.DMX.Encode(randValues(rng, wire.DMX, false))[:18+l:18+l], bytes.Repeat([]byte{0xee}, extra)...)
			for i := 18; i < 18+l; i++ {
				b[i] = byte(i*31+extra) | 1
			}
			b[16], b[17] = byte(l>>8), byte(l)
			check(wire.DMX, b)
			r.Seen("dmx %d %d", l, extra)
		}
	}
	for blk := 0; blk < r.Scale(240, 3000); blk++ { // what one sender sends in succession
		if !mine() {
			continue
		}
		r.Case(no-1, "succession block %d", blk)
		rng := r.Rand(no - 1)
		for k := 0; k < 6; k++ {
			t := wire.Types[rng.IntN(len(wire.Types))]
			if k%2 == 0 {
				t = wire.DMX
			}
			for _, b := range gen.Datagrams(rng, t, gen.Stream(rng, t, 40)) {
				check(t, b)
			}
			r.Count("successions", 1)
		}
	}
	for blk := 0; blk < r.Scale(3600, 40000); blk++ {
		if !mine() {
			continue
		}
		r.Case(no-1, "random block %d", blk)
		rng := r.Rand(no - 1)
		for k := 0; k < 60; k++ {
			t := wire.Types[k%len(wire.Types)]
			b := valid(rng, t)
			check(t, b)
			r.Seen("%v %x", t, b)
			r.Count(t.Name, 1)
			if k == blk%60 && r.WantSample() {
				r.Sample(fmt.Sprintf("%v %s -> %.200s", t, hexs(b[:min(len(b), 40)]), fmt.Sprint(t.Decode(b))))
			}
		}
	}
	r.Done()
}

// build makes a packet with the given field values in one of several ways.
func build(rng *rand.Rand, t *wire.Type, v wire.Values) (packet.ArtNetPacket, string) {
	var p packet.ArtNetPacket
	how := ""
	switch rng.IntN(4) {
	case 0:
		p, how = fresh(t), "literal"
	case 1:
		p, how = constructed(t), "constructor"
	case 2:
		p, how = fresh(t), "decoded from another datagram"
		decodeInto(p, valid(rng, t))
	case 3:
		p, how = fresh(t), "encoded before with other contents"
		set(t, p, randValues(rng, t, true))
		encode(p)
	}
	set(t, p, v)
	if rng.IntN(2) == 0 {
		scribble(rng, p)
		how += ", header overwritten"
	}
	return p, how
}

// TestC04: encoding.
func TestC04(tt *testing.T) {
	r := begin(tt, "C04")
	no := 0
	mine := func() bool { no++; return r.Mine(no - 1) }
	check := func(rng *rand.Rand, t *wire.Type, v wire.Values) {
		p, how := build(rng, t, v)
		b, err, pan := encode(p)
		if pan != nil || err != nil {
			r.Fail("encoding a %v (%s) failed: %v %v", t, how, err, pan)
		}
		want := t.Encode(v)
		if !bytes.Equal(b, want) {
			at := 0
			for at < len(b) && at < len(want) && b[at] == want[at] {
				at++
			}
			r.Fail("%v (%s): encoding differs from the documented layout at offset %d: got %s want %s", t, how, at, hexs(b), hexs(want))
		}
		r.Eval(1)
		r.Seen("%v %s", t, how)
	}
	for _, t := range wire.Types {
		for fi, f := range t.Fields {
			if !mine() {
				continue
			}
			r.Case(no-1, "%v.%s", t, f.Name)
			rng := r.Rand(no - 1)
			n := 256
			if f.Kind == wire.U16BE || f.Kind == wire.U16LE {
				n = 65536
			}
			v := randValues(rng, t, true)
			for k := 0; k < n; k++ {
				switch f.Kind {
				case wire.U8:
					v[f.Name] = uint64(k)
				case wire.Bytes:
					x := append([]byte(nil), v[f.Name].([]byte)...)
					x[k%f.N] = byte(k + fi)
					v[f.Name] = x
				default:
					v[f.Name] = uint64(k)
				}
				check(rng, t, v)
				r.Seen("%v %s %d", t, f.Name, k)
			}
		}
		if mine() {
			r.Case(no-1, "%v headers", t)
			rng := r.Rand(no - 1)
			for k := 0; k < 200; k++ {
				check(rng, t, randValues(rng, t, true))
			}
		}
	}
	for blk := 0; blk < r.Scale(240, 3000); blk++ { // a packet that is changed and sent again and again
		if !mine() {
			continue
		}
		r.Case(no-1, "succession block %d", blk)
		rng := r.Rand(no - 1)
		for k := 0; k < 6; k++ {
			t := wire.Types[rng.IntN(len(wire.Types))]
			if k%2 == 0 {
				t = wire.DMX
			}
			p := fresh(t)
			for i, v := range gen.Stream(rng, t, 40) {
				set(t, p, v)
				if b, err, pan := encode(p); err != nil || pan != nil || !bytes.Equal(b, t.Encode(v)) {
					r.Fail("%v number %d of a succession: encoding differs from the documented layout: got %s want %s (%v %v)", t, i, hexs(b), hexs(t.Encode(v)), err, pan)
				}
				r.Eval(1)
				if rng.IntN(4) == 0 {
					check(rng, t, v)
				}
			}
			r.Count("successions", 1)
		}
	}
	for blk := 0; blk < r.Scale(3600, 40000); blk++ {
		if !mine() {
			continue
		}
		r.Case(no-1, "random block %d", blk)
		rng := r.Rand(no - 1)
		for k := 0; k < 60; k++ {
			t := wire.Types[k%len(wire.Types)]
			v := randValues(rng, t, true)
			check(rng, t, v)
			r.Seen("%v %x", t, t.Encode(v))
			r.Count(t.Name, 1)
			if k == blk%60 && r.WantSample() {
				r.Sample(fmt.Sprintf("%v %.150s -> %s", t, fmt.Sprint(v), hexs(t.Encode(v)[:min(t.Len, 40)])))
			}
		}
	}
	r.Done()
}

// sent is what a packet with values v says once it has been on the wire.
func sent(t *wire.Type, v wire.Values) wire.Values {
	return t.Decode(t.Encode(v))
}

// TestC05: round trips.
func TestC05(tt *testing.T) {
	r := begin(tt, "C05")
	no := 1 << 20
	for _, t := range wire.Types { // each field through its values
		for fi, f := range t.Fields {
			if no++; !r.Mine(no) {
				continue
			}
			r.Case(no, "%v.%s", t, f.Name)
			rng := r.Rand(no)
			v := randValues(rng, t, false)
			n := 256
			switch f.Kind {
			case wire.U8:
				if t == wire.PollReply && f.Name == "Style" {
					n = 7
				}
			case wire.Bytes:
				n = 2 * max(f.N, 256)
			default:
				n = 65536
			}
			for k := 0; k < n; k += 1 + rng.IntN(r.Scale(2*(n/2048)+1, 1)) {
				if f.Kind == wire.Bytes {
					x := append([]byte(nil), v[f.Name].([]byte)...)
					x[k%f.N] = byte(k*(1+k/256) + fi)
					v[f.Name] = x
				} else {
					v[f.Name] = uint64(k)
				}
				p, how := build(rng, t, v)
				b, err, pan := encode(p)
				if err != nil || pan != nil {
					r.Fail("%v (%s): encoding failed: %v %v", t, how, err, pan)
				}
				want := outcome{ok: true, typ: reflect.TypeOf(p).String(), id: wire.ID, op: t.Op, vals: sent(t, v)}
				if t != wire.PollReply {
					want.ver = [2]byte{0, 14}
				}
				if d := same(want, generic(r, b)); d != "" {
					r.Fail("%v (%s): round trip (want, got): %s; packet %.300s; datagram %s", t, how, d, fmt.Sprint(v), hexs(b))
				}
				q, err, _ := decode(b)
				if err != nil {
					r.Fail("%v (%s): second decoding refused: %v; datagram %s", t, how, err, hexs(b))
				}
				if c, err, pan := encode(q); err != nil || pan != nil || !bytes.Equal(b, c) {
					r.Fail("%v (%s): encoding the decoded packet gives other bytes: first %s then %s (%v %v)", t, how, hexs(b), hexs(c), err, pan)
				}
				r.Eval(2)
				r.Seen("%v %s %d", t, f.Name, k)
			}
		}
	}
	for blk := 0; blk < r.Scale(5000, 60000); blk++ {
		if !r.Mine(blk) {
			continue
		}
		r.Case(blk, "random block %d", blk)
		rng := r.Rand(blk)
		for k := 0; k < 60; k++ {
			t := wire.Types[k%len(wire.Types)]
			v := randValues(rng, t, false)
			p, how := build(rng, t, v)
			want := outcome{ok: true, typ: reflect.TypeOf(p).String(), id: wire.ID, op: t.Op, vals: sent(t, v)}
			if t != wire.PollReply {
				want.ver = [2]byte{0, 14}
			}
			var first []byte
			for gen := 0; gen < 3; gen++ {
				b, err, pan := encode(p)
				if err != nil || pan != nil {
					r.Fail("%v (%s) generation %d: encoding failed: %v %v", t, how, gen, err, pan)
				}
				if gen == 0 {
					first = append([]byte(nil), b...)
				} else if !bytes.Equal(first, b) {
					r.Fail("%v (%s): encoding the decoded packet gives other bytes: first %s then %s", t, how, hexs(first), hexs(b))
				}
				g := generic(r, b)
				if d := same(want, g); d != "" {
					r.Fail("%v (%s) generation %d: round trip (want, got): %s; packet %.300s; datagram %s", t, how, gen, d, fmt.Sprint(v), hexs(b))
				}
				q := fresh(t)
				if rng.IntN(2) == 0 {
					decodeInto(q, valid(rng, t))
				}
				if d := same(want, typed(r, t, q, b)); d != "" {
					r.Fail("%v (%s) generation %d: round trip through its own decoder (want, got): %s; datagram %s", t, how, gen, d, hexs(b))
				}
				if rng.IntN(2) == 0 {
					p = q
				} else {
					p, _, _ = decode(b)
				}
				r.Eval(2)
			}
			r.Seen("%v %x", t, first)
			r.Count(t.Name, 1)
			if k == blk%60 && r.WantSample() {
				r.Sample(fmt.Sprintf("%v (%s) %.150s -> %s -> same, 3 generations", t, how, fmt.Sprint(v), hexs(first[:min(len(first), 30)])))
			}
		}
	}
	r.Done()
}

// TestC06: encoding is pure.
func TestC06(tt *testing.T) {
	r := begin(tt, "C06")
	type kept struct {
		t      *wire.Type
		b, cpy []byte
	}
	for blk := 0; blk < r.Scale(960, 12000); blk++ {
		if !r.Mine(blk) {
			continue
		}
		r.Case(blk, "random block %d", blk)
		rng := r.Rand(blk)
		var old []kept
		for k := 0; k < 48; k++ {
			t := wire.Types[k%len(wire.Types)]
			p, how := build(rng, t, randValues(rng, t, true))
			if rng.IntN(4) == 0 {
				if q, err, _ := decode(valid(rng, t)); err == nil && q != nil {
					p, how = q, "decoded"
				}
			}
			before := clone(p)
			op := p.GetOpCode()
			var first []byte
			n := 2 + rng.IntN(4)
			for i := 0; i < n; i++ {
				b, err, pan := encode(p)
				if err != nil || pan != nil {
					r.Fail("%v (%s): encoding number %d failed: %v %v", t, how, i+1, err, pan)
				}
				if first == nil {
					first = append([]byte(nil), b...)
				}
				if !bytes.Equal(first, b) {
					r.Fail("%v (%s): encoding number %d differs from the first: %s then %s", t, how, i+1, hexs(first), hexs(b))
				}
				if !reflect.DeepEqual(before, p) || p.GetOpCode() != op {
					r.Fail("%v (%s): encoding changed the packet: opcode %v -> %v; before %+.200v after %+.200v", t, how, op, p.GetOpCode(), before, p)
				}
				if i == 0 && rng.IntN(2) == 0 { // the caller may do anything with the result
					b = b[:cap(b)]
					for j := range b {
						b[j] ^= 0x5a
					}
				} else {
					old = append(old, kept{t, b, append([]byte(nil), b...)})
				}
				if !reflect.DeepEqual(before, p) {
					r.Fail("%v (%s): the packet changed when the encoded bytes were overwritten", t, how)
				}
				r.Eval(1)
			}
			r.Count(t.Name, 1)
			r.Seen("%v %x", t, first)
			if k == blk%48 && r.WantSample() {
				r.Sample(fmt.Sprintf("%v (%s) encoded %d times: %s", t, how, n, hexs(first[:min(len(first), 40)])))
			}
			// several goroutines encode the same packet
			if k%8 == 0 {
				var wg sync.WaitGroup
				for g := 0; g < 3; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < 4; i++ {
							b, err, pan := encode(p)
							if err != nil || pan != nil || !bytes.Equal(b, first) {
								r.Fail("%v (%s): concurrent encoding differs: %v %v %s want %s", t, how, err, pan, hexs(b), hexs(first))
							}
							b[0] ^= 0xff
							r.Eval(1)
						}
					}()
				}
				wg.Wait()
				r.Count("concurrent groups", 1)
				if !reflect.DeepEqual(before, p) {
					r.Fail("%v (%s): concurrent encoding changed the packet", t, how)
				}
			}
		}
		for _, o := range old {
			if !bytes.Equal(o.b, o.cpy) {
				r.Fail("an encoded %v changed after it was returned: %s became %s", o.t, hexs(o.cpy), hexs(o.b))
			}
		}
	}
	r.Done()
}
