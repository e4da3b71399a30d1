package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/sign"
	"github.com/fxamacker/cbor/v2"
)

func init() {
	register(&Property{ID: "P16", Quick: 14000, Thorough: 400000,
		Scens: []Scenario{
			{"disk", 4, p16Disk},
			{"corruptions", 4, p16Corrupt},
			{"kinds", 1, p16Kinds},
			{"resume", 2, p16Resume},
		},
		Rule: "A run stores values of every kind on a faulty disk, crashes and reads them back, or decodes bytes cut short, extended, exchanged, damaged or made for another kind, or lets a restored node go on.",
	})
}

// A codec is one way in which values are kept.
type codec struct {
	name   string
	format string // codecs with one format read each other's bytes
	fixed  bool   // one byte string per value
	enc    func(v interface{}) ([]byte, error)
	dec    func(b []byte) (interface{}, error)
	parts  func(v interface{}) []string // canonical bytes of its elements
	ref    func(b []byte) bool          // for fixed forms: valid in the model
	opaque bool
}

func anyErr[T any](v T, err error) (interface{}, error) {
	if err != nil {
		return nil, err
	}
	return v, nil
}

func refPoint(b []byte) bool { _, err := rParse(b); return err == nil }
func refScalar(b []byte) bool {
	return len(b) == 32 && new(big.Int).SetBytes(b).Cmp(rN) < 0
}

func openingParts(v interface{}) []string {
	a, m, err := opVals(v.(Opening))
	if err != nil {
		panic(simBug{err.Error()})
	}
	out := []string{string(be32(a))}
	if m != nil {
		out = append(out, string(be32(m)))
	}
	return out
}

func be32(v *big.Int) []byte { b := make([]byte, 32); v.FillBytes(b); return b }

func commitParts(v interface{}) []string {
	var out []string
	for _, p := range v.(poly.PolynomialCommitment).Points() {
		out = append(out, string(p.Serialize()))
	}
	return out
}

func pointParts(v interface{}) []string  { return []string{string(v.(Point).Serialize())} }
func scalarParts(v interface{}) []string { return []string{string(v.(Scalar).Serialize())} }

var codecs = []*codec{
	{name: "opening", format: "opening", enc: func(v interface{}) ([]byte, error) { return v.(Opening).Serialize() },
		dec: func(b []byte) (interface{}, error) { return anyErr(poly.Commitment.Deserialize(b)) }, parts: openingParts},
	{name: "commitment", format: "commitment", enc: func(v interface{}) ([]byte, error) { return v.(poly.PolynomialCommitment).Serialize() },
		dec: func(b []byte) (interface{}, error) { return anyErr(poly.PolynomialCM.Deserialize(b)) }, parts: commitParts},
	{name: "point", format: "point", fixed: true, enc: func(v interface{}) ([]byte, error) { return v.(Point).Serialize(), nil },
		dec: func(b []byte) (interface{}, error) { return anyErr(curve.Point.Deserialize(K256, b)) }, parts: pointParts, ref: refPoint},
	{name: "scalar", format: "scalar", fixed: true, enc: func(v interface{}) ([]byte, error) { return v.(Scalar).Serialize(), nil },
		dec: func(b []byte) (interface{}, error) { return anyErr(curve.Scalar.Deserialize(K256, b)) }, parts: scalarParts, ref: refScalar},
	{name: "tagged point", format: "tagged point", fixed: true, enc: func(v interface{}) ([]byte, error) { return v.(Point).SerializeTagged(), nil },
		dec: func(b []byte) (interface{}, error) { return anyErr(curve.Point.DeserializeTagged(K256, b)) }, parts: pointParts,
		ref: func(b []byte) bool { return len(b) == 34 && b[0] == K256.Tag() && refPoint(b[1:]) }},
	{name: "tagged scalar", format: "tagged scalar", fixed: true, enc: func(v interface{}) ([]byte, error) { return v.(Scalar).SerializeTagged(), nil },
		dec: func(b []byte) (interface{}, error) { return anyErr(curve.Scalar.DeserializeTagged(b)) }, parts: scalarParts,
		ref: func(b []byte) bool { return len(b) == 33 && b[0] == K256.Tag() && refScalar(b[1:]) }},
	{name: "public key", format: "point", fixed: true, enc: func(v interface{}) ([]byte, error) { return v.(*PubKey).Serialize(), nil },
		dec: func(b []byte) (interface{}, error) {
			k, err := mega.PublicKey.Deserialize(K256, b)
			if e2 := mega.VerifyMegaPublicKey(K256, b); (e2 == nil) != (err == nil) {
				return nil, verdictsDiffer
			}
			return anyErr(k, err)
		}, parts: func(v interface{}) []string { return []string{string(v.(*PubKey).PublicPoint().Serialize())} }, ref: refPoint},
	{name: "private key", format: "scalar", fixed: true, enc: func(v interface{}) ([]byte, error) { return v.(*PrivKey).Serialize(), nil },
		dec: func(b []byte) (interface{}, error) { return anyErr(mega.PrivateKey.Deserialize(K256, b)) }, parts: func(v interface{}) []string {
			return []string{string(v.(*PrivKey).SecretScalar().Serialize())}
		}, ref: refScalar},
	{name: "uncompressed point", format: "any point", enc: func(v interface{}) ([]byte, error) { return v.(Point).SerializeUncompressed(), nil },
		dec: func(b []byte) (interface{}, error) { return anyErr(curve.Point.DeserializeAnyFormat(K256, b)) }, parts: pointParts, opaque: true},
	{name: "cbor point", format: "cbor point", enc: func(v interface{}) ([]byte, error) { return cbor.Marshal(v) },
		dec: func(b []byte) (interface{}, error) {
			var p curve.Secp256k1Point
			if err := exactly(b, &p); err != nil {
				return nil, err
			}
			return Point(&p), nil
		}, parts: pointParts},
	{name: "cbor scalar", format: "cbor scalar", enc: func(v interface{}) ([]byte, error) { return cbor.Marshal(v) },
		dec: func(b []byte) (interface{}, error) {
			var s curve.Secp256k1Scalar
			if err := exactly(b, &s); err != nil {
				return nil, err
			}
			return Scalar(&s), nil
		}, parts: scalarParts},
}

// same holds two values of a codec against each other, whatever Go types hold them.
func (c *codec) same(a, b interface{}) bool {
	x, y := c.parts(a), c.parts(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return c.name != "commitment" || isMasked(a) == isMasked(b)
}

func isMasked(v interface{}) bool {
	_, ok := v.(*poly.PedersenCommitment)
	return ok
}

// exactly decodes one value; that nothing follows it is the caller's to see, not the library's.
func exactly(b []byte, v interface{}) error {
	d := cbor.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(v); err != nil {
		return err
	}
	if d.NumBytesRead() != len(b) {
		return fmt.Errorf("bytes after the value")
	}
	return nil
}

type differ struct{}

func (differ) Error() string { return "two verdicts on one key" }

var verdictsDiffer = differ{}

// pubVal is a point for the disk: random, the identity, or small.
func (w *World) pubVal(key string) RP {
	switch w.Pick("pt:"+key, 6, 1, 1) {
	case 1:
		return RP{}
	case 2:
		return rMulG(big.NewInt(int64(1 + w.Choose("pt.k:"+key, 3))))
	}
	return rMulG(w.RndNZ("pt:" + key))
}

// value makes something to store.
func (w *World) value(c *codec, key string) interface{} {
	switch c.name {
	case "opening":
		var m *big.Int
		if w.Maybe("masked:"+key, 500) {
			m = w.Sec(key + "/m")
		}
		return mkOpening(w.Sec(key+"/v"), m)
	case "commitment":
		n := w.Range("len:"+key, 1, 4)
		if w.Maybe("long:"+key, 50) {
			n = w.Range("longer:"+key, 5, 30)
		}
		pts := make([]RP, n)
		for i := range pts {
			pts[i] = w.pubVal(fmt.Sprint(key, i))
		}
		return mkCommit(pts, w.Maybe("masked:"+key, 500))
	case "point", "tagged point", "cbor point":
		return PT(w.pubVal(key))
	case "uncompressed point":
		p := w.pubVal(key)
		if p.inf() {
			p = rGen
		}
		return PT(p)
	case "public key":
		return mega.NewMEGaPublicKey(PT(w.pubVal(key)))
	case "private key":
		return mega.NewMEGaPrivateKey(SC(w.Sec(key)))
	}
	return SC(w.Sec(key))
}

func (w *World) encode(c *codec, v interface{}) []byte {
	var b []byte
	before := Digest(v)
	err := w.Call("encode "+c.name, func() (e error) { b, e = c.enc(v); return })
	w.Check(err == nil && len(b) > 0, w.in("P16"), "a value has no bytes", "%s: %v", c.name, err)
	w.Check(Digest(v) == before, "P18", "encoding changes its input", "%s", c.name)
	return append([]byte{}, b...)
}

func (w *World) decode(c *codec, b []byte) (v interface{}, err error) {
	in := append([]byte{}, b...)
	err = w.Call("decode "+c.name, func() (e error) { v, e = c.dec(in); return })
	w.Check(bytes.Equal(in, b), "P18", "decoding changes its input", "%s", c.name)
	w.Check(err != verdictsDiffer, "P16", "a key is valid and is not", "%x", b)
	if isPanic(err) {
		w.Fail(w.in("P16", "P17"), "decoding panics", "%s %x: %v", c.name, cap64(b), err)
	}
	return
}

func cap64(b []byte) []byte {
	if len(b) > 160 {
		return b[:160]
	}
	return b
}

// roundTrip requires that a value comes back as it was.
func (w *World) roundTrip(c *codec, v interface{}, b []byte) interface{} {
	x, err := w.decode(c, b)
	w.Check(err == nil && x != nil, "P16", "a stored value cannot be read", "%s %x: %v", c.name, cap64(b), err)
	w.Check(c.same(x, v), "P16", "a stored value comes back as another", "%s %x", c.name, cap64(b))
	b2 := w.encode(c, x)
	w.Check(bytes.Equal(b, b2), "P16", "a value read back has other bytes", "%s %x", c.name, cap64(b))
	return x
}

// judge16 holds the verdict on arbitrary bytes against what they can mean.
func (w *World) judge16(c *codec, b []byte, what string) {
	v, err := w.decode(c, b)
	if c.ref != nil {
		ok := c.ref(b)
		w.Check((err == nil) == ok, "P16", map[bool]string{true: "valid bytes refused", false: "invalid bytes accepted: " + what}[ok], "%s %x (%s): %v", c.name, cap64(b), what, err)
	}
	if err != nil {
		return
	}
	w.Check(v != nil, "P16", "nothing was decoded", "%s %x", c.name, cap64(b))
	ps := c.parts(v)
	if c.opaque {
		r, e := rParseAny(b)
		w.Check(e == nil && r.eq(RPof(v.(Point))), "P16", "invalid bytes accepted: "+what, "%s %x (%s): %v", c.name, cap64(b), what, e)
	} else {
		// every element is in the bytes as it was decoded, one after the other
		rest := b
		for i, p := range ps {
			if !c.fixed { // in a container every element follows the tag of its curve
				p = string([]byte{K256.Tag()}) + p
			}
			j := bytes.Index(rest, []byte(p))
			w.Check(j >= 0, "P16", "bytes were decoded to another value: "+what, "%s %x (%s): element %d is %x", c.name, cap64(b), what, i, p)
			rest = rest[j+len(p):]
		}
	}
	b2 := w.encode(c, v)
	if c.fixed {
		w.Check(bytes.Equal(b, b2), "P16", "two byte strings for one value", "%s %x and %x", c.name, cap64(b), cap64(b2))
	}
	if c.opaque && len(b2) > 0 && b2[0] == 0 {
		return // the identity has no uncompressed form that is read back
	}
	x, err := w.decode(c, b2)
	w.Check(err == nil && c.same(x, v), "P16", "a decoded value does not survive", "%s %x (%s): %v", c.name, cap64(b), what, err)
}

// rParseAny reads a point of any form.
func rParseAny(b []byte) (RP, error) {
	if len(b) == 1 && b[0] == 0 {
		return RP{}, nil
	}
	if len(b) == 33 && b[0] == 5 {
		return rParse(append([]byte{2}, b[1:]...))
	}
	if len(b) == 33 && b[0] != 0 {
		return rParse(b)
	}
	if len(b) == 65 && b[0] == 4 {
		x, y := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])
		if x.Cmp(rP) < 0 && y.Cmp(rP) < 0 {
			if t := rY(x); t != nil && (t.Cmp(y) == 0 || new(big.Int).Sub(rP, t).Cmp(y) == 0) {
				return RP{x, y}, nil
			}
		}
	}
	return RP{}, fmt.Errorf("no point")
}

// ---------------------------------------------------------------------------------------------

// Disk that fails: what is on it afterwards is known to the simulator.
func (w *World) write(nd *Node, name, key string, b []byte) {
	old, had := nd.Disk[name]
	f := ""
	switch w.Pick("disk:"+key, 12, 2, 2, 2, 2, 1, 1, 1) {
	case 0:
		nd.Disk[name] = append([]byte{}, b...)
		return
	case 1:
		f = "lost write"
	case 2:
		f = "short write"
		nd.Disk[name] = append([]byte{}, b[:w.Choose("cut:"+key, len(b))]...)
	case 3:
		f = "torn write"
		k := w.Choose("tear:"+key, len(b)+1)
		nb := append([]byte{}, b[:k]...)
		if had && len(old) > k {
			nb = append(nb, old[k:]...)
		} else {
			nb = append(nb, make([]byte, len(b)-k)...)
		}
		nd.Disk[name] = nb
	case 4:
		f = "flipped bit"
		nb := append([]byte{}, b...)
		i := w.Choose("bit:"+key, 8*len(b))
		nb[i/8] ^= 1 << uint(i%8)
		nd.Disk[name] = nb
	case 5:
		f = "misdirected write"
		var others []string
		for _, c := range codecs {
			if _, ok := nd.Disk[c.name]; ok && c.name != name {
				others = append(others, c.name)
			}
		}
		if len(others) > 0 {
			nd.Disk[others[w.Choose("where:"+key, len(others))]] = append([]byte{}, b...)
		}
	case 6:
		f = "stale tail"
		nd.Disk[name] = append(append([]byte{}, b...), w.Bytes("tail:"+key, 1+w.Choose("tail:"+key, 40))...)
	case 7:
		f = "full disk"
		nd.Disk[name] = []byte{}
	}
	w.CountFault(f)
	w.Ev("disk: %s of %s", f, name)
}

func p16Disk(w *World) {
	net := NewNet(w, "dk", 1, true)
	nd := net.Nodes[0]
	history := map[string][]interface{}{}
	encs := map[string][][]byte{}
	byName := map[string]*codec{}
	var names []string
	for _, j := range w.Perm("which", len(codecs))[:w.Range("kinds", 2, 5)] {
		byName[codecs[j].name] = codecs[j]
		names = append(names, codecs[j].name)
	}
	check := func() {
		for _, name := range names {
			b, ok := nd.Disk[name]
			if !ok {
				continue
			}
			c := byName[name]
			for k, e := range encs[name] {
				if bytes.Equal(e, b) {
					w.roundTrip(c, history[name][k], b)
					break
				}
			}
			w.judge16(c, b, "as the disk holds it")
		}
	}
	nd.OnRestart = check
	n := w.Range("writes", 2, 7)
	for k := 0; k < n; k++ {
		k := k
		w.After(int64(k)*10*ms, func() {
			if !nd.up {
				return
			}
			name := names[w.Choose(fmt.Sprint("what", k), len(names))]
			c := byName[name]
			v := w.value(c, fmt.Sprint("v", k))
			b := w.encode(c, v)
			history[name] = append(history[name], v)
			encs[name] = append(encs[name], b)
			w.write(nd, name, fmt.Sprint(k), b)
			w.State("P16", name, len(b))
			if w.Maybe(fmt.Sprint("crash", k), 300) {
				w.CountFault("crash at a write")
				nd.Crash(5 * ms)
			}
		})
	}
	w.Run(1000)
	check()
}

// p16Corrupt decodes damaged bytes of one value.
func p16Corrupt(w *World) {
	c := codecs[w.Choose("codec", len(codecs))]
	v := w.value(c, "v")
	b := w.encode(c, v)
	w.State("P16c", c.name, len(b))
	w.roundTrip(c, v, b)
	refuse := func(x []byte, what string) {
		if bytes.Equal(x, b) {
			return
		}
		_, err := w.decode(c, x)
		w.Check(err != nil, "P16", "invalid bytes accepted: "+what, "%s %x (%s)", c.name, cap64(x), what)
	}
	// every way to cut it short
	step := 1 + len(b)/150
	for k := w.Choose("from", step); k < len(b); k += step {
		refuse(b[:k:k], "cut short")
	}
	if b[0] != 0 { // the identity may stand for itself at any offset
		refuse(b[1:], "without its first byte")
	}
	w.CountFault("short write")
	for k := 0; k < 4; k++ {
		key := fmt.Sprint("x", k)
		t := w.Bytes(key, 1+w.Choose(key, 40))
		if w.Maybe(key+"z", 400) {
			t = make([]byte, len(t))
		}
		if w.Maybe(key+"same", 200) {
			t = b
		}
		refuse(append(append([]byte{}, b...), t...), "extended")
		w.CountFault("stale tail")
	}
	for k := 0; k < 12; k++ {
		key := fmt.Sprint("f", k)
		x := append([]byte{}, b...)
		what := ""
		switch w.Choose("how"+key, 6) {
		case 0:
			i := w.Choose("bit"+key, 8*len(x))
			x[i/8] ^= 1 << uint(i%8)
			what = "a flipped bit"
			w.CountFault("flipped bit")
		case 1:
			i := w.Choose("at"+key, len(x))
			x[i] = byte(w.Choose("to"+key, 256))
			what = "a changed byte"
		case 2: // the bytes of another value from some offset on
			o := w.encode(c, w.value(c, "other"+key))
			i := w.Choose("at"+key, len(x)+1)
			if i < len(o) {
				x = append(x[:i:i], o[i:]...)
			}
			what = "torn"
			w.CountFault("torn write")
		case 3: // an element that is out of range or not on the curve
			ps := c.parts(v)
			if c.opaque {
				continue
			}
			p := ps[w.Choose("elem"+key, len(ps))]
			j := bytes.Index(x, []byte(p))
			if j < 0 {
				continue
			}
			bad := w.badElement(key, len(p))
			copy(x[j:], bad)
			what = "an element that is none"
			refuse(x, what)
			continue
		case 4:
			i, j := w.Choose("at"+key, len(x)), w.Choose("to"+key, len(x))
			if i > j {
				i, j = j, i
			}
			for q := i; q <= j; q++ {
				x[q] = 0
			}
			what = "zeroed in part"
		case 5:
			i := w.Choose("at"+key, len(x))
			x[i] ^= 0xff
			what = "an inverted byte"
		}
		w.judge16(c, x, what)
	}
	for k := 0; k < 3; k++ {
		w.judge16(c, w.Bytes(fmt.Sprint("rb", k), w.Choose(fmt.Sprint("rb", k), 70)), "random bytes")
	}
	// uncompressed coordinates that are not reduced, or not on the curve
	if c.opaque {
		p := RPof(v.(Point))
		for k := 0; k < 4; k++ {
			key := fmt.Sprint("u", k)
			x := append([]byte{4}, append(be32(p.X), be32(p.Y)...)...)
			switch w.Choose("how"+key, 5) {
			case 0:
				copy(x[33:], be32(new(big.Int).Mod(new(big.Int).Add(p.Y, big.NewInt(1)), rP)))
			case 1: // small x plus the modulus
				s, y := smallX(w.Choose("small"+key, 5))
				copy(x[1:], be32(new(big.Int).Add(s, rP)))
				copy(x[33:], be32(y))
			case 2:
				x = append([]byte{5}, be32(p.X)...)
			case 3:
				x = append([]byte{2 + byte(p.Y.Bit(0))}, be32(p.X)...)
			case 4:
				x = []byte{0}
			}
			w.judge16(c, x, "uncompressed")
		}
	}
}

// smallX is a point whose x fits beside the modulus in 32 bytes.
func smallX(k int) (*big.Int, *big.Int) {
	x := big.NewInt(1)
	for {
		if y := rY(x); y != nil {
			if k == 0 {
				return x, y
			}
			k--
		}
		x = new(big.Int).Add(x, big.NewInt(1))
	}
}

// badElement is a 32 byte scalar out of range, or a 33 byte point that is none or not canonical.
func (w *World) badElement(key string, n int) []byte {
	if n == 32 {
		v := new(big.Int).Add(rN, big.NewInt(int64(w.Choose("over:"+key, 4))))
		if w.Maybe("max:"+key, 300) {
			v = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
		}
		return be32(v)
	}
	out := make([]byte, 33)
	out[0] = 2 + byte(w.Choose("sign:"+key, 2))
	switch w.Choose("bad point:"+key, 5) {
	case 0: // off the curve
		x := w.RndNZ("off:" + key)
		for rY(x) != nil {
			x = addm(x, big.NewInt(1))
		}
		copy(out[1:], be32(x))
	case 1: // x not reduced
		s, _ := smallX(w.Choose("small:"+key, 5))
		copy(out[1:], be32(new(big.Int).Add(s, rP)))
	case 2: // another tag
		p := rMulG(w.RndNZ("tag:" + key))
		copy(out, p.bytes())
		out[0] = []byte{0, 1, 4, 5, 6, 7, 255, 0x82}[w.Choose("to:"+key, 8)]
	case 3: // zeros with a tag, or something else than zeros without
		if w.Maybe("lead:"+key, 500) {
			copy(out, make([]byte, 33))
			out[1+w.Choose("where:"+key, 32)] = 1
		} else {
			copy(out[1:], make([]byte, 32)) // x = 0 is not on the curve
		}
	case 4:
		copy(out[1:], be32(rP))
	}
	return out
}

// p16Kinds gives every decoder the bytes of every other kind.
func p16Kinds(w *World) {
	for i, a := range codecs {
		for n := 0; n < 2; n++ {
			b := w.encode(a, w.value(a, fmt.Sprint("v", i, n)))
			for _, c := range codecs {
				if c.format == a.format || c.format == "any point" && a.format == "point" {
					continue
				}
				_, err := w.decode(c, append([]byte{}, b...))
				w.Check(err != nil, "P16", "bytes of the wrong kind accepted", "%s read as %s: %x", a.name, c.name, cap64(b))
			}
		}
	}
	w.State("P16k")
	// the in-memory form dealers keep their shares in
	o := w.value(codecs[0], "o").(Opening)
	var back Opening
	err := w.Call("opening bytes", func() error { back = o.ToCommitmentOpeningBytes().ToCommitmentOpening(); return nil })
	w.Check(err == nil && codecs[0].same(back, o), "P16", "an opening changes in its byte form", "%v", err)
}

// p16Resume: what a node computes from restored state is what it computed before.
func p16Resume(w *World) {
	n := w.Size("n", 1, 3, 36)
	t := w.Thr("t", n)
	q := w.Quad("q", w.signers("s", n), t)
	r := w.Req("r", true)
	i := q.idx[w.Choose("signer", n)]
	k := w.Keys("k")
	keys := w.Committee("c", n)
	ad := w.AD("a")
	at := w.Choose("at", n)
	keys[at] = k
	sd := w.Bytes("seed", 32)
	kind := 1 + w.Choose("op", 3)
	op := &OpCase{kind: kind, A: q.key, B: q.lambda}
	if kind == opReshareMasked {
		op.A = q.lambda
	}
	incoming := w.HonestDeal("incoming", op, t, keys, i, ad)
	type state struct {
		l, kl, xl, x Opening
		keyC, kapC   poly.PolynomialCommitment
		k            Keys
	}
	run := func(name string, s state) (string, string, string, string) {
		keyT, kapT := mkTrans(s.keyC, false), mkTrans(s.kapC, false)
		var sh *SigShare
		err := w.Call("sign "+name, func() (e error) {
			sh, e = sign.NewThresholdEcdsaSigShareInternal(r.P(), r.hash, r.rand, keyT, kapT, s.l, s.kl, s.xl, K256)
			return
		})
		w.Need(err, "sign")
		src := *op
		sec, err := src.Shares(w, name, i, 0)
		if kind == opReshareUnmasked || kind == opReshareMasked {
			o := s.x
			if kind == opReshareMasked {
				o = s.l
			}
			sec, err = fromOpening(o)
		}
		w.Need(err, "shares")
		d, err := w.Deal(name, sec, sd, t, keys, i, ad)
		w.Need(err, "deal")
		o, err := w.OpenDealing(name, DeepCopy(incoming), s.k, ad, i, at)
		w.Need(err, "open")
		return Digest(sh), Digest(d), Digest(o), Digest(keyT.EvaluateAt(NI(i)))
	}
	before := state{q.lambda.open(i), q.kl.open(i), q.xl.open(i), q.key.open(i), q.key.C, q.kappa.C, k}
	a1, a2, a3, a4 := run("before", before)
	net := NewNet(w, "rs", 1, true)
	nd := net.Nodes[0]
	open := func(name string, o Opening) {
		b, err := o.Serialize()
		w.Check(err == nil, "P16", "a value has no bytes", "%v", err)
		nd.Disk[name] = b
	}
	open("l", before.l)
	open("kl", before.kl)
	open("xl", before.xl)
	open("x", before.x)
	for k, c := range []poly.PolynomialCommitment{before.keyC, before.kapC} {
		b, err := c.Serialize()
		w.Check(err == nil, "P16", "a value has no bytes", "%v", err)
		nd.Disk[[]string{"key", "kappa"}[k]] = b
	}
	nd.Disk["sk"], nd.Disk["pk"] = k.SK.Serialize(), k.PK.Serialize()
	w.State("P16r", kind, n, t)
	nd.OnRestart = func() {
		var s state
		rd := func(name string) Opening {
			o, err := poly.Commitment.Deserialize(nd.Disk[name])
			w.Check(err == nil, "P16", "a stored value cannot be read", "%s: %v", name, err)
			return o
		}
		rc := func(name string) poly.PolynomialCommitment {
			o, err := poly.PolynomialCM.Deserialize(nd.Disk[name])
			w.Check(err == nil, "P16", "a stored value cannot be read", "%s: %v", name, err)
			return o
		}
		s.l, s.kl, s.xl, s.x = rd("l"), rd("kl"), rd("xl"), rd("x")
		s.keyC, s.kapC = rc("key"), rc("kappa")
		sk, err := mega.PrivateKey.Deserialize(K256, nd.Disk["sk"])
		w.Check(err == nil, "P16", "a stored value cannot be read", "private key: %v", err)
		pk, err := mega.PublicKey.Deserialize(K256, nd.Disk["pk"])
		w.Check(err == nil, "P16", "a stored value cannot be read", "public key: %v", err)
		s.k = Keys{sk, pk, k.sk, k.pub}
		b1, b2, b3, b4 := run("after", s)
		w.Check(a1 == b1 && a2 == b2 && a3 == b3 && a4 == b4, "P16", "a restored node computes something else", "%s: share %v dealing %v opening %v evaluation %v", opNames[kind], a1 == b1, a2 == b2, a3 == b3, a4 == b4)
		w.Check(s.keyC.Equal(before.keyC) == 1 && s.kapC.Equal(before.kapC) == 1, "P16", "a restored transcript is not equal", "")
		w.Check(RPof(sk.PublicKey().PublicPoint()).eq(k.pub), "P16", "a restored private key has another public key", "")
	}
	nd.Crash(10 * ms)
	w.Run(100)
}
