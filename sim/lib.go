package main

// Thin helpers over the library under test.

import (
	"fmt"
	"math/big"
	"reflect"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/sign"
	simhook "github.com/PlatONnetwork/tecdsa/simhook"
	"github.com/PlatONnetwork/tecdsa/zk"
	"github.com/tidwall/btree"
)

func hookN() int64 { return simhook.N }

const K256 = curve.K256

type (
	NI        = common.NodeIndex
	Dealing   = dealings.IDkgDealingInternal
	Opening   = poly.CommitmentOpening
	Trans     = dealings.IDkgTranscriptInternal
	DealMap   = btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal]
	SigMap    = btree.Map[common.NodeIndex, *sign.ThresholdEcdsaSigShareInternal]
	OpenMap   = btree.Map[common.NodeIndex, poly.CommitmentOpening]
	OpenMaps  = btree.Map[common.NodeIndex, *btree.Map[common.NodeIndex, poly.CommitmentOpening]]
	SigShare  = sign.ThresholdEcdsaSigShareInternal
	Sig       = sign.ThresholdEcdsaCombinedSigInternal
	Scalar    = curve.EccScalar
	Point     = curve.EccPoint
	PubKey    = mega.MEGaPublicKey
	PrivKey   = mega.MEGaPrivateKey
	DLogProof = zk.ProofOfDLogEquivalence
	Path      = key.DerivationPath
)

// SC makes a library scalar.
func SC(v *big.Int) Scalar {
	b := make([]byte, 32)
	mod(v).FillBytes(b)
	s, err := curve.Scalar.Deserialize(K256, b)
	if err != nil {
		panic(simBug{fmt.Sprintf("scalar: %v", err)})
	}
	return s
}

// simBug is a failure of the preparation, not of a property: an error exit.
type simBug struct{ msg string }

func (s simBug) Error() string { return s.msg }

// BI reads a library scalar.
func BI(s Scalar) *big.Int { return new(big.Int).SetBytes(s.Serialize()) }

// PT makes a library point.
func PT(p RP) Point {
	q, err := curve.Point.Deserialize(K256, p.bytes())
	if err != nil {
		panic(simBug{fmt.Sprintf("point: %v", err)})
	}
	return q
}

// RPof reads a library point.
func RPof(p Point) RP {
	r, err := rParse(p.Serialize())
	if err != nil {
		panic(simBug{fmt.Sprintf("point encoding %x: %v", p.Serialize(), err)})
	}
	return r
}

func RPs(ps []Point) []RP {
	out := make([]RP, len(ps))
	for i := range ps {
		out[i] = RPof(ps[i])
	}
	return out
}

func seedOf(b []byte) *seed.Seed { return seed.FromBytes(b) }

// Keys of one node.
type Keys struct {
	SK  *PrivKey
	PK  *PubKey
	sk  *big.Int
	pub RP
}

func (w *World) Keys(name string) Keys {
	var k *big.Int
	switch w.Pick("key:"+name, 12, 1, 1) {
	case 1:
		k = big.NewInt(1)
	case 2:
		k = new(big.Int).Sub(rN, big.NewInt(1))
	default:
		if w.Maybe("keygen:"+name, 250) {
			return w.NewKeys(name)
		}
		k = w.RndNZ("key:" + name)
	}
	return KeysOf(k)
}

// NewKeys are keys the library generates from a seed.
func (w *World) NewKeys(name string) (k Keys) {
	err := w.Call("generate keys", func() (e error) {
		k.PK, k.SK, e = mega.GenKeypair(K256, seedOf(w.Bytes("keyseed:"+name, 32)))
		return
	})
	w.Need(err, "keys")
	w.Probe("keys generated")
	k.sk, k.pub = BI(k.SK.SecretScalar()), RPof(k.PK.PublicPoint())
	return k
}

// RandKeys are keys without structure (distinct from all others).
func (w *World) RandKeys(name string) Keys { return KeysOf(w.RndNZ("rkey:" + name)) }

func KeysOf(k *big.Int) Keys {
	sk := mega.NewMEGaPrivateKey(SC(k))
	p := rMulG(k)
	return Keys{sk, mega.NewMEGaPublicKey(PT(p)), k, p}
}

// Reload reads the keys back from their bytes.
func (k Keys) Reload() (Keys, error) {
	sk, err := mega.PrivateKey.Deserialize(K256, k.SK.Serialize())
	if err != nil {
		return k, err
	}
	pk, err := mega.PublicKey.Deserialize(K256, k.PK.Serialize())
	if err != nil {
		return k, err
	}
	return Keys{sk, pk, k.sk, k.pub}, nil
}

func pks(ks []Keys) []*PubKey {
	out := make([]*PubKey, len(ks))
	for i := range ks {
		out[i] = ks[i].PK
	}
	return out
}

// opVals reads an opening: value, mask (nil when there is none).
func opVals(o Opening) (v, m *big.Int, err error) {
	switch x := o.(type) {
	case poly.SimpleCommitmentOpening:
		return BI(x[0]), nil, nil
	case *poly.SimpleCommitmentOpening:
		return BI(x[0]), nil, nil
	case poly.PedersenCommitmentOpening:
		return BI(x[0]), BI(x[1]), nil
	case *poly.PedersenCommitmentOpening:
		return BI(x[0]), BI(x[1]), nil
	}
	return nil, nil, fmt.Errorf("not an opening: %T", o)
}

func mkOpening(v, m *big.Int) Opening {
	if m == nil {
		return poly.SimpleCommitmentOpening{SC(v)}
	}
	return poly.PedersenCommitmentOpening{SC(v), SC(m)}
}

// persistOpening sends an opening through its serialized form.
func persistOpening(o Opening) (Opening, error) {
	b, err := o.Serialize()
	if err != nil {
		return nil, err
	}
	return poly.Commitment.Deserialize(b)
}

// dealMap builds the sorted map of dealings, inserting in the given order.
func dealMap(order []int, ds map[int]*Dealing) *DealMap {
	m := &DealMap{}
	for _, i := range order {
		m.Set(NI(i), ds[i])
	}
	return m
}

func mkPath(idx [][]byte) *Path {
	var p []key.DerivationIndex
	for _, b := range idx {
		p = append(p, key.DerivationIndex(append([]byte{}, b...)))
	}
	return key.New(p)
}

var tDLog = reflect.TypeOf((*zk.ProofOfDLogEquivalence)(nil))

// popOf gives pointers into a ciphertext.
type cipherParts struct {
	Eph, Pop *Point
	Proof    **DLogProof
	N        int
	Single   *[]Scalar
	Pair     *[][2]Scalar
}

func partsOf(c mega.MEGaCiphertext) cipherParts {
	switch x := c.(type) {
	case *mega.MEGaCiphertextSingle:
		return cipherParts{&x.EphemeralKey, &x.PopPublicKey, &x.PopProof, len(x.CTexts), &x.CTexts, nil}
	case *mega.MEGaCiphertextPair:
		return cipherParts{&x.EphemeralKey, &x.PopPublicKey, &x.PopProof, len(x.CTexts), nil, &x.CTexts}
	}
	panic(simBug{fmt.Sprintf("ciphertext %T", c)})
}

// shortPt is a printable short form of a point.
func shortPt(p Point) string { return fmt.Sprintf("%x", p.Serialize()[:7]) }

func deserializeCommitment(b []byte) (poly.PolynomialCommitment, error) {
	return poly.PolynomialCM.Deserialize(b)
}
