From 542aa0d8518ef072f86d0d87668ad7be035ff4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:11 +0000
Subject: [PATCH 01/20] fix: bind random oracle inputs longer than 255 bytes

AddInput refused inputs longer than 255 bytes although their length is
encoded in four bytes, and no caller looks at its error: long associated
data, message hashes and randomness silently dropped out of the hash.
---
 ro/ro.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ro/ro.go b/ro/ro.go
index 78ee0b3..4a62fa9 100644
--- a/ro/ro.go
+++ b/ro/ro.go
@@ -42,7 +42,8 @@ func (r *RandomOracle) AddInput(name string, input []byte, ty RandomOracleInputT
 		return errors.New("invalid name length")
 	}
 
-	if len(input) > math.MaxUint8 {
+	// the length of the input is encoded in four bytes below
+	if uint64(len(input)) > math.MaxUint32 {
 		return errors.New("invalid input length")
 	}
 	var encodedInput []byte
-- 
2.43.0


From 74a9168a571f26165633f279f14d1f603b986bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:59 +0000
Subject: [PATCH 02/20] fix: compare scalar values in IsHigh

native.Field.Cmp compares Montgomery limbs, so signatures were normalised
to the low half of the group order only by chance.
---
 curve/k256_scalar.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index d0942cc..0023359 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -125,8 +125,8 @@ func (s Secp256k1Scalar) IsZero() int {
 }
 
 func (s Secp256k1Scalar) IsHigh() bool {
-	return s.scalar.Cmp(OrderHalf) > 0
-	return true
+	// Field.Cmp orders the Montgomery representations, not the values
+	return s.scalar.BigInt().Cmp(OrderHalf.BigInt()) > 0
 }
 func (s Secp256k1Scalar) MarshalCBOR() ([]byte, error) {
 	return cbor.Marshal(s.SerializeTagged())
-- 
2.43.0


From c3c73f96417545e7bd993df0d6e2d727f4e41dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:09 +0000
Subject: [PATCH 03/20] fix: do not let inner zero coefficients shrink a
 polynomial

NonZeroCoefficients subtracted every zero coefficient, so the commitment
constructors accepted polynomials longer than the commitment and dropped
their highest coefficients.
---
 poly/poly.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/poly/poly.go b/poly/poly.go
index 39f8c43..11f6cc9 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -74,13 +74,12 @@ func (p Polynomial) Coeff(idx int) curve.EccScalar {
 
 /// Return the count of non-zero coefficients
 func (p Polynomial) NonZeroCoefficients() int {
-	zeros := 0
-	for _, c := range p.coefficients {
-		if c.IsZero() == 1 {
-			zeros++
-		}
+	// only zeros in the highest positions do not count
+	count := len(p.coefficients)
+	for count > 0 && p.coefficients[count-1].IsZero() == 1 {
+		count--
 	}
-	return len(p.coefficients) - zeros
+	return count
 }
 func (p Polynomial) IsZero() int {
 	flag := 0
-- 
2.43.0


From 22f17d1ba158a93b3edb81dea5e9844c992d0052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:18 +0000
Subject: [PATCH 04/20] fix: interpolate polynomials from redundant points

A point that already lies on the polynomial made the base polynomial zero,
so interpolation failed with two or more redundant points. MulScalar also
read the receiver's coefficients instead of its argument's.
---
 poly/poly.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/poly/poly.go b/poly/poly.go
index 11f6cc9..73412f2 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -123,7 +123,7 @@ func (p *Polynomial) Mul(lhs, rhs *Polynomial) *Polynomial {
 func (p *Polynomial) MulScalar(lhs *Polynomial, scalar curve.EccScalar) *Polynomial {
 	coeffs := make([]curve.EccScalar, len(lhs.coefficients), len(lhs.coefficients))
 	for i := range coeffs {
-		coeffs[i] = curve.Scalar.Zero(lhs.curve).Mul(p.coefficients[i], scalar)
+		coeffs[i] = curve.Scalar.Zero(lhs.curve).Mul(lhs.coefficients[i], scalar)
 	}
 	p.coefficients = coeffs
 	return p
@@ -180,8 +180,7 @@ func (p polynomial) Interpolate(curveType curve.EccCurveType, samples [][2]curve
 			return nil, errors.New("inv is zero")
 		}
 		diff = diff.Mul(diff, inv)
-		base = base.MulScalar(base, diff)
-		poly = poly.Add(poly, base)
+		poly = poly.Add(poly, Poly.Zero(curveType).MulScalar(base, diff))
 		base = base.Mul(base, Poly.New(curveType, []curve.EccScalar{x.Negate(x), one}))
 	}
 	return poly, nil
-- 
2.43.0


From 81cff00782f50e09deefff51b06a05ab88b04766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:45 +0000
Subject: [PATCH 05/20] fix: compare a transcript with the other one, not with
 itself

---
 dealings/transcript_operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealings/transcript_operation.go b/dealings/transcript_operation.go
index e2eeb5a..b85efe2 100644
--- a/dealings/transcript_operation.go
+++ b/dealings/transcript_operation.go
@@ -18,6 +18,6 @@ func (t IDkgTranscriptInternal) EvaluateAt(evalPoint common.NodeIndex) curve.Ecc
 }
 func (t IDkgTranscriptInternal) Compare(other IDkgTranscriptInternal) int {
 	lhs := t.CombinedCommitment.StableRepresentation()
-	rhs := t.CombinedCommitment.StableRepresentation()
+	rhs := other.CombinedCommitment.StableRepresentation()
 	return bytes.Compare(lhs, rhs)
 }
-- 
2.43.0


From 6d8f3ff7e7f197078b413ebb0e2f4ce530ba4617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:47 +0000
Subject: [PATCH 06/20] fix: refuse byte strings that do not encode a point

Decoding turned an x without a point on the curve into the identity,
accepted coordinates beyond the field modulus and uncompressed points off
the curve, panicked on empty input and unknown tags, and could not read
back the identity from CBOR. DeserializeTagged passed the tag on to the
point decoder.
---
 curve/encode.go     |  8 ++++++
 curve/k256_point.go | 61 ++++++++++++++++++++++++++++++++-------------
 curve/point.go      | 11 +++++---
 3 files changed, 58 insertions(+), 22 deletions(-)

diff --git a/curve/encode.go b/curve/encode.go
index e675ab1..823114d 100644
--- a/curve/encode.go
+++ b/curve/encode.go
@@ -120,7 +120,15 @@ func (e encode32) toSize() int {
 }
 
 func (e encode32) FromBytes(input []byte) (EncodePoint, error) {
+	if len(input) == 0 {
+		return nil, errors.New("point decode failed")
+	}
 	tag := Tag(input[0])
+	switch tag {
+	case Identity, CompressedEvenY, CompressedOddY, Uncompressed, Compact:
+	default:
+		return nil, errors.New("point decode failed")
+	}
 	expected := tag.MessageLen(e.toSize())
 	if len(input) != expected {
 		return nil, errors.New("point decode failed")
diff --git a/curve/k256_point.go b/curve/k256_point.go
index be85de5..5fc9f8f 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -6,6 +6,7 @@ import (
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fp"
 	"github.com/fxamacker/cbor/v2"
+	"github.com/pkg/errors"
 	"math/big"
 	"math/bits"
 )
@@ -44,43 +45,63 @@ func (e EccK256Point) Deserialize(bytes []byte) (*Secp256k1Point, error) {
 	return e.fromEncodedPoint(ec)
 }
 
-func (e EccK256Point) fromUncompressed(xb, yb []byte) (*Secp256k1Point, error) {
-	x := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(xb))
+// coordinate reads a big endian field element, refusing values that are not reduced
+func (e EccK256Point) coordinate(bytes []byte) (*native.Field, error) {
+	value := new(big.Int).SetBytes(bytes)
+	if value.Cmp(fp.K256FpNew().Params.BiModulus) >= 0 {
+		return nil, errors.New("point coordinate is out of range")
+	}
+	return fp.K256FpNew().SetBigInt(value), nil
+}
 
-	y := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(yb))
+func (e EccK256Point) fromUncompressed(xb, yb []byte) (*Secp256k1Point, error) {
+	x, err := e.coordinate(xb)
+	if err != nil {
+		return nil, err
+	}
+	y, err := e.coordinate(yb)
+	if err != nil {
+		return nil, err
+	}
 
 	value := k256.K256PointNew()
 	value.X = x
 	value.Y = y
 	value.Z.SetOne()
+	if !value.IsOnCurve() {
+		return nil, errors.New("point is not on the curve")
+	}
 	return &Secp256k1Point{point: value}, nil
 }
 func (e EccK256Point) decompress(bytes []byte, sign int) (*Secp256k1Point, error) {
-	x := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(bytes))
+	x, err := e.coordinate(bytes)
+	if err != nil {
+		return nil, err
+	}
 
 	value := k256.K256PointNew().Identity()
 	rhs := fp.K256FpNew()
 	p := k256.K256PointNew()
 	p.Arithmetic.RhsEq(rhs, x)
-	// test that rhs is quadratic residue
-	// if not, then this Point is at infinity
+	// if rhs is not a quadratic residue, there is no point with this x
 	y, wasQr := fp.K256FpNew().Sqrt(rhs)
-	if wasQr {
-		// fix the sign
-		sigY := int(y.Bytes()[0] & 1)
-		if sigY != sign {
-			y.Neg(y)
-		}
-		value.X = x
-		value.Y = y
-		value.Z.SetOne()
+	if !wasQr {
+		return nil, errors.New("point is not on the curve")
 	}
+	// fix the sign
+	sigY := int(y.Bytes()[0] & 1)
+	if sigY != sign {
+		y.Neg(y)
+	}
+	value.X = x
+	value.Y = y
+	value.Z.SetOne()
 	return &Secp256k1Point{point: value}, nil
 }
 func (e EccK256Point) fromEncodedPoint(encodePoint EncodePoint) (pt *Secp256k1Point, err error) {
 	cd := encodePoint.Coordinates()
 	switch c := cd.(type) {
-	case *IdentityCoordinates:
+	case IdentityCoordinates:
 		pt = e.Identity()
 	case *CompactCoordinates:
 		pt, err = e.decompress(c.x, 0)
@@ -208,10 +229,14 @@ func (s *Secp256k1Point) UnmarshalCBOR(data []byte) error {
 	if err := cbor.Unmarshal(data, &bytes); err != nil {
 		return err
 	}
-	tmp, err := K256Point.Deserialize(bytes[1:])
+	tmp, err := Point.DeserializeTagged(K256, bytes)
 	if err != nil {
 		return err
 	}
-	s.point = tmp.point
+	pt, ok := tmp.(*Secp256k1Point)
+	if !ok {
+		return errors.New("invalid point, curve mismatch")
+	}
+	s.point = pt.point
 	return nil
 }
diff --git a/curve/point.go b/curve/point.go
index 7848ffa..9aa7d18 100644
--- a/curve/point.go
+++ b/curve/point.go
@@ -101,10 +101,13 @@ func (p point) DeserializeTagged(curve EccCurveType, bytes []byte) (EccPoint, er
 	if len(bytes) == 0 {
 		return nil, errors.New("invalid point, bytes is empty")
 	}
-	return p.Deserialize(EccCurveType(bytes[0]), bytes[:])
+	if bytes[0] != curve.Tag() {
+		return nil, errors.New("invalid point, curve mismatch")
+	}
+	return p.Deserialize(curve, bytes[1:])
 }
 func (p point) Deserialize(curve EccCurveType, bytes []byte) (EccPoint, error) {
-	if len(bytes) != curve.PointBytes() {
+	if curve != K256 || len(bytes) != curve.PointBytes() {
 		return nil, errors.New("invalid point")
 	}
 
@@ -126,7 +129,7 @@ func (p point) Deserialize(curve EccCurveType, bytes []byte) (EccPoint, error) {
 func (p point) DeserializeAnyFormat(curve EccCurveType, bytes []byte) (pt EccPoint, err error) {
 	switch curve {
 	case K256:
-		pt, err = K256Point.Deserialize(bytes)
+		return K256Point.Deserialize(bytes)
 	}
-	return pt, err
+	return nil, errors.New("invalid point, unknown curve")
 }
-- 
2.43.0


From f20a7ab59c2e5ef33785332c121bb53951a6eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:48 +0000
Subject: [PATCH 07/20] fix: make room for both coordinates in
 SerializeUncompressed

---
 curve/k256_point.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index 5fc9f8f..da2866b 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -180,7 +180,11 @@ func (s Secp256k1Point) encodePoint(compress bool) []byte {
 		choice = 1
 	}
 	encode := Encode.ConditionalSelect(Encode.FromAffineCoordinates(x.AsBytes(), y.AsBytes(), compress), Encode.Identity(), choice)
-	result := make([]byte, 33, 33)
+	size := s.CurveType().PointBytes()
+	if !compress {
+		size += s.CurveType().FieldBytes()
+	}
+	result := make([]byte, size, size)
 	copy(result[0:encode.Len()], encode.AsBytes())
 	return result
 }
-- 
2.43.0


From c7a69fc75798e68ef0fadc85bace602bcca41a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:50 +0000
Subject: [PATCH 08/20] fix: refuse scalar encodings of the wrong length

Any number of bytes was accepted and padded or cut to 32, tagged scalars
were only read correctly because of that, an empty CBOR byte string and
wide inputs longer than 64 bytes panicked.
---
 curve/k256_scalar.go |  7 +++++++
 curve/scalar.go      | 12 +++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index 0023359..74bace6 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -5,6 +5,7 @@ import (
 	"github.com/coinbase/kryptology/pkg/core/curves/native"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fq"
 	"github.com/fxamacker/cbor/v2"
+	"github.com/pkg/errors"
 	"math/big"
 )
 
@@ -21,6 +22,9 @@ type Secp256k1Scalar struct {
 
 func (EccK256Scalar) Deserialize(bytes []byte) (*Secp256k1Scalar, error) {
 	var buf [32]byte
+	if len(bytes) != len(buf) {
+		return nil, errors.New("invalid scalar length")
+	}
 	copy(buf[:], common.ReverseBytes(bytes))
 	field, err := fq.K256FqNew().SetBytes(&buf)
 	if err != nil {
@@ -137,6 +141,9 @@ func (s *Secp256k1Scalar) UnmarshalCBOR(data []byte) error {
 	if err := cbor.Unmarshal(data, &bytes); err != nil {
 		return err
 	}
+	if len(bytes) == 0 || bytes[0] != K256.Tag() {
+		return errors.New("invalid scalar, curve mismatch")
+	}
 	tmp, err := K256Scalar.Deserialize(bytes[1:])
 	if err != nil {
 		return err
diff --git a/curve/scalar.go b/curve/scalar.go
index de33348..d49aab7 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -49,10 +49,11 @@ func (s scalar) DeserializeTagged(bytes []byte) (EccScalar, error) {
 	}
 	var scalar EccScalar
 	var err error
-	switch EccCurveType(bytes[0]) {
+	switch FromTag(bytes[0]) {
 	case K256:
-		scalar, err = K256Scalar.Deserialize(bytes[0:])
-
+		scalar, err = K256Scalar.Deserialize(bytes[1:])
+	default:
+		err = errors.New("invalid scalar, unknown curve")
 	}
 	return scalar, err
 }
@@ -66,12 +67,17 @@ func (s scalar) Deserialize(curve EccCurveType, bytes []byte) (EccScalar, error)
 	switch curve {
 	case K256:
 		scalar, err = K256Scalar.Deserialize(bytes)
+	default:
+		err = errors.New("invalid scalar, unknown curve")
 	}
 	return scalar, err
 }
 
 func (s scalar) FromBytesWide(curve EccCurveType, bytes []byte) (EccScalar, error) {
 	var scalar EccScalar
+	if len(bytes) > 2*curve.ScalarBytes() {
+		return nil, errors.New("invalid scalar, input too long")
+	}
 	switch curve {
 	case K256:
 		scalar = K256Scalar.FromWideBytes(bytes)
-- 
2.43.0


From 2674d35410f72369abf64a6a87cfa1c4ce4b61b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:00 +0000
Subject: [PATCH 09/20] fix: read back serialized commitment openings

Openings with a mask were labelled as openings without one, and errors
while decoding the scalars were ignored, so a damaged or masked opening
was silently restored as zero.
---
 poly/commitment.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 97398d7..3f68f7b 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -54,22 +54,33 @@ func (commitmentOpening) Deserialize(data []byte) (CommitmentOpening, error) {
 	if err := cbor.Unmarshal(data, &c); err != nil {
 		return nil, err
 	}
+	var scalars []curve.EccScalar
+	switch c.CurveType {
+	case curve.K256:
+		var message []*curve.Secp256k1Scalar
+		if err := cbor.Unmarshal(c.Message, &message); err != nil {
+			return nil, err
+		}
+		for _, s := range message {
+			if s == nil {
+				return nil, errors.New("invalid commitment opening")
+			}
+			scalars = append(scalars, s)
+		}
+	default:
+		return nil, errors.New("unknown curve type")
+	}
 	switch c.CommitType {
 	case Simple:
-		switch c.CurveType {
-		case curve.K256:
-			o := &SimpleCommitmentOpening{curve.Scalar.Zero(c.CurveType)}
-			cbor.Unmarshal(c.Message, &o)
-			return o, nil
+		if len(scalars) != 1 {
+			return nil, errors.New("invalid commitment opening")
 		}
-
+		return &SimpleCommitmentOpening{scalars[0]}, nil
 	case Pedersen:
-		switch c.CurveType {
-		case curve.K256:
-			o := &PedersenCommitmentOpening{curve.Scalar.Zero(c.CurveType), curve.Scalar.Zero(c.CurveType)}
-			cbor.Unmarshal(c.Message, &o)
-			return o, nil
+		if len(scalars) != 2 {
+			return nil, errors.New("invalid commitment opening")
 		}
+		return &PedersenCommitmentOpening{scalars[0], scalars[1]}, nil
 	}
 	return nil, errors.New("unknown commitment type")
 }
@@ -102,7 +113,7 @@ func (p PedersenCommitmentOpening) Serialize() ([]byte, error) {
 	}
 	c := &commitmentOpeningCbor{
 		CurveType:  p[0].CurveType(),
-		CommitType: Simple,
+		CommitType: Pedersen,
 		Message:    data,
 	}
 	return cbor.Marshal(c)
-- 
2.43.0


From 1cf9265fcdcc26e18f89d584da8020ce1dc6a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:09 +0000
Subject: [PATCH 10/20] fix: read back serialized polynomial commitments

There was no decoder for Pedersen commitments, the one for simple
commitments could not be reached from outside the package, and it
accepted commitments without points or with missing ones.
---
 poly/commitment.go | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 3f68f7b..9a24ae9 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -8,9 +8,10 @@ import (
 )
 
 var (
-	SimpleCM   = simpleCommitment{}
-	PedersenCM = pedersenCommitment{}
-	Commitment = commitmentOpening{}
+	SimpleCM     = simpleCommitment{}
+	PedersenCM   = pedersenCommitment{}
+	PolynomialCM = polynomialCommitment{}
+	Commitment   = commitmentOpening{}
 )
 
 type CommitmentOpeningBytes interface {
@@ -414,21 +415,28 @@ func (polynomialCommitment) Deserialize(bytes []byte) (PolynomialCommitment, err
 	if err := cbor.Unmarshal(bytes, &c); err != nil {
 		return nil, err
 	}
-	switch c.CommitmentType {
-	case Simple:
-		switch c.CurveType {
-		case curve.K256:
-			var ps []*curve.Secp256k1Point
-			if err := cbor.Unmarshal(c.Message, &ps); err != nil {
-				return nil, err
-			}
-			points := make([]curve.EccPoint, len(ps), len(ps))
-			for i, _ := range points {
-				points[i] = ps[i]
+	var points []curve.EccPoint
+	switch c.CurveType {
+	case curve.K256:
+		var ps []*curve.Secp256k1Point
+		if err := cbor.Unmarshal(c.Message, &ps); err != nil {
+			return nil, err
+		}
+		for _, p := range ps {
+			if p == nil {
+				return nil, errors.New("invalid commitment")
 			}
-			return &SimpleCommitment{points: points}, nil
+			points = append(points, p)
 		}
+	}
+	if len(points) == 0 {
+		return nil, errors.New("invalid commitment")
+	}
+	switch c.CommitmentType {
+	case Simple:
+		return &SimpleCommitment{points: points}, nil
 	case Pedersen:
+		return &PedersenCommitment{points: points}, nil
 	}
 	return nil, errors.New("invalid commitment")
 
-- 
2.43.0


From 150107279e791c664a98c98ef4684169eb425755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:46 +0000
Subject: [PATCH 11/20] fix: accept restored openings and refuse openings of
 the wrong kind

Checking or combining an opening panicked when it was of the other kind,
and when it came from the decoder, which returns pointers. Openings of
unknown kind were silently left out of share reconstruction.
---
 dealings/commitment.go | 29 +++++++++++++----------------
 dealings/transcript.go | 20 +++++++++-----------
 poly/commitment.go     | 34 ++++++++++++++++++++++++++++++----
 3 files changed, 52 insertions(+), 31 deletions(-)

diff --git a/dealings/commitment.go b/dealings/commitment.go
index e7bfb86..c9a70b3 100644
--- a/dealings/commitment.go
+++ b/dealings/commitment.go
@@ -74,13 +74,12 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 		combinedValue := curve.Scalar.Zero(curveType)
 		combinedMask := curve.Scalar.Zero(curveType)
 		for _, opening := range commitmentOpenings {
-			switch o := opening.(type) {
-			case poly.PedersenCommitmentOpening:
-				combinedValue = combinedValue.Add(combinedValue, o[0])
-				combinedMask = combinedMask.Add(combinedMask, o[1])
-			default:
+			o, ok := poly.AsPedersenOpening(opening)
+			if !ok {
 				return nil, errors.New("unexpected commitment type")
 			}
+			combinedValue = combinedValue.Add(combinedValue, o[0])
+			combinedMask = combinedMask.Add(combinedMask, o[1])
 		}
 		opening = poly.PedersenCommitmentOpening([2]curve.EccScalar{combinedValue, combinedMask})
 	case *InterpolationCommitment:
@@ -90,13 +89,12 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 			values := make([]curve.EccScalar, 0, len(commitmentOpenings))
 			for i := 0; i < len(commitmentOpenings); i++ {
 				dealerIndex, opening := nodeIndexOpenings[i], commitmentOpenings[i]
-				switch o := opening.(type) {
-				case poly.SimpleCommitmentOpening:
-					xValues = append(xValues, dealerIndex)
-					values = append(values, o[0])
-				default:
+				o, ok := poly.AsSimpleOpening(opening)
+				if !ok {
 					return nil, errors.New("unexpected commitment type")
 				}
+				xValues = append(xValues, dealerIndex)
+				values = append(values, o[0])
 			}
 
 			coefficients, err := poly.Lagrange.AtZero(curveType, xValues)
@@ -115,14 +113,13 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 			masks := make([]curve.EccScalar, 0, len(commitmentOpenings))
 			for i := 0; i < len(commitmentOpenings); i++ {
 				dealerIndex, opening := nodeIndexOpenings[i], commitmentOpenings[i]
-				switch o := opening.(type) {
-				case poly.PedersenCommitmentOpening:
-					xValues = append(xValues, dealerIndex)
-					values = append(values, o[0])
-					masks = append(masks, o[1])
-				default:
+				o, ok := poly.AsPedersenOpening(opening)
+				if !ok {
 					return nil, errors.New("unexpected commitment type")
 				}
+				xValues = append(xValues, dealerIndex)
+				values = append(values, o[0])
+				masks = append(masks, o[1])
 			}
 			coefficients, err := poly.Lagrange.AtZero(curveType, xValues)
 			if err != nil {
diff --git a/dealings/transcript.go b/dealings/transcript.go
index d0f517e..74b0a1d 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -149,14 +149,13 @@ func ReconstructShareFromOpenings(dealing *IDkgDealingInternal, openings *btree.
 		xValues := make([]common.NodeIndex, 0, openings.Len())
 		values := make([]curve.EccScalar, 0, openings.Len())
 		openings.Scan(func(receiverIndex common.NodeIndex, opening poly.CommitmentOpening) bool {
-			switch o := opening.(type) {
-			case poly.SimpleCommitmentOpening:
-				xValues = append(xValues, receiverIndex)
-				values = append(values, o[0])
-			case poly.PedersenCommitmentOpening:
+			o, ok := poly.AsSimpleOpening(opening)
+			if !ok {
 				err = errors.New("unexpected commitment type")
 				return false
 			}
+			xValues = append(xValues, receiverIndex)
+			values = append(values, o[0])
 			return true
 		})
 		if err != nil {
@@ -176,15 +175,14 @@ func ReconstructShareFromOpenings(dealing *IDkgDealingInternal, openings *btree.
 		values := make([]curve.EccScalar, 0, openings.Len())
 		masks := make([]curve.EccScalar, 0, openings.Len())
 		openings.Scan(func(receiverIndex common.NodeIndex, opening poly.CommitmentOpening) bool {
-			switch o := opening.(type) {
-			case poly.PedersenCommitmentOpening:
-				xValues = append(xValues, receiverIndex)
-				values = append(values, o[0])
-				masks = append(masks, o[1])
-			case poly.SimpleCommitmentOpening:
+			o, ok := poly.AsPedersenOpening(opening)
+			if !ok {
 				err = errors.New("unexpected commitment type")
 				return false
 			}
+			xValues = append(xValues, receiverIndex)
+			values = append(values, o[0])
+			masks = append(masks, o[1])
 			return true
 		})
 		if err != nil {
diff --git a/poly/commitment.go b/poly/commitment.go
index 9a24ae9..a54c781 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -40,6 +40,32 @@ type commitmentOpening struct {
 type SimpleCommitmentOpening [1]curve.EccScalar
 type PedersenCommitmentOpening [2]curve.EccScalar
 
+// AsSimpleOpening returns opening as a complete opening of a simple commitment, if it is one.
+func AsSimpleOpening(opening CommitmentOpening) (SimpleCommitmentOpening, bool) {
+	switch o := opening.(type) {
+	case SimpleCommitmentOpening:
+		return o, o[0] != nil
+	case *SimpleCommitmentOpening:
+		if o != nil {
+			return *o, o[0] != nil
+		}
+	}
+	return SimpleCommitmentOpening{}, false
+}
+
+// AsPedersenOpening returns opening as a complete opening of a Pedersen commitment, if it is one.
+func AsPedersenOpening(opening CommitmentOpening) (PedersenCommitmentOpening, bool) {
+	switch o := opening.(type) {
+	case PedersenCommitmentOpening:
+		return o, o[0] != nil && o[1] != nil
+	case *PedersenCommitmentOpening:
+		if o != nil {
+			return *o, o[0] != nil && o[1] != nil
+		}
+	}
+	return PedersenCommitmentOpening{}, false
+}
+
 type commitmentOpeningCbor struct {
 	CurveType  curve.EccCurveType
 	CommitType PolynomialCommitmentType
@@ -254,8 +280,8 @@ func (s *SimpleCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoint
 }
 
 func (s *SimpleCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o := opening.(SimpleCommitmentOpening)
-	return s.checkOpening(evalPoint, o[0])
+	o, ok := AsSimpleOpening(opening)
+	return ok && s.checkOpening(evalPoint, o[0])
 }
 func (s *SimpleCommitment) checkOpening(evalPoint common.NodeIndex, value curve.EccScalar) bool {
 	eval := s.EvaluateAt(evalPoint)
@@ -376,8 +402,8 @@ func (p *PedersenCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoi
 	return evaluateAt(p.points, evalPoint)
 }
 func (p *PedersenCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o := opening.(PedersenCommitmentOpening)
-	return p.checkOpening(evalPoint, o[0], o[1])
+	o, ok := AsPedersenOpening(opening)
+	return ok && p.checkOpening(evalPoint, o[0], o[1])
 }
 
 func (p *PedersenCommitment) checkOpening(evalPoint common.NodeIndex, value curve.EccScalar, mask curve.EccScalar) bool {
-- 
2.43.0


From 0ff773bc894605c5f914bc618d3376ac2de8e4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:35 +0000
Subject: [PATCH 12/20] fix: carry openings over into secret shares

ToScalarBytes always returned nil, so building the witness for the next
dealing from stored openings panicked, and for an unmasked reshare it
produced a kind of share that dealing creation does not know.
---
 curve/scalar.go           | 1 +
 dealings/secret_shares.go | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/curve/scalar.go b/curve/scalar.go
index d49aab7..31f6f88 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -125,6 +125,7 @@ func (s scalar) ToScalarBytes(scalar EccScalar) EccScalarBytes {
 	case K256:
 		var k256 Secp256K1ScalarBytes
 		copy(k256[:], scalar.Serialize())
+		bytes = k256
 	}
 	return bytes
 }
diff --git a/dealings/secret_shares.go b/dealings/secret_shares.go
index 255558d..00bc6f3 100644
--- a/dealings/secret_shares.go
+++ b/dealings/secret_shares.go
@@ -41,7 +41,7 @@ func (secretShares) From(cob1 poly.CommitmentOpeningBytes, cob2 poly.CommitmentO
 	switch cm1 := cob1.(type) {
 	case *poly.SimpleCommitmentOpeningBytes:
 		if cob2 == nil {
-			share = ReshareOfUnmaskedSecret{S1: cm1[0].ToScalar()}
+			share = &ReshareOfUnmaskedSecret{S1: cm1[0].ToScalar()}
 		} else {
 			if p, ok := cob2.(*poly.PedersenCommitmentOpeningBytes); ok {
 				s1 := cm1[0].ToScalar()
@@ -60,6 +60,8 @@ func (secretShares) From(cob1 poly.CommitmentOpeningBytes, cob2 poly.CommitmentO
 			return nil, errors.New("inconsistent combination of commitment types")
 		}
 		share = &ReshareOfMaskedSecret{S1: cm1[0].ToScalar(), S2: cm1[1].ToScalar()}
+	default:
+		return nil, errors.New("unexpected commitment type")
 	}
 	return share, nil
 }
-- 
2.43.0


From bec8d74716679c5d71b5458eed2cbc998e6d8bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:35 +0000
Subject: [PATCH 13/20] fix: refuse unknown kinds of secret shares and
 operations

Dealing creation and transcript aggregation returned objects with missing
parts and no error for kinds they do not know, and negative thresholds
were accepted.
---
 dealings/dealings.go   | 10 +++++++++-
 dealings/transcript.go |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 0f24024..14f829f 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -58,7 +58,7 @@ type IDkgDealingInternal struct {
 }
 
 func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, seed *seed.Seed, threshold int, recipients []*mega.MEGaPublicKey, dealerIndex common.NodeIndex, ad []byte) (*IDkgDealingInternal, error) {
-	if threshold == 0 || threshold > len(recipients) {
+	if threshold <= 0 || threshold > len(recipients) {
 		return nil, errors.New("invalid threshold")
 	}
 
@@ -108,11 +108,19 @@ func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, s
 			return nil, err
 		}
 		mask, err := poly2.Poly.RandomWithConstant(productMasking, numCoefficients, polyRng)
+		if err != nil {
+			return nil, err
+		}
 		if ciphertext, commitment, err = EncryptAndCommitPairPolynomial(values, mask, numCoefficients, recipients, dealerIndex, ad, megaSeed); err != nil {
 			return nil, err
 		}
 		pf, err := zk.ProofOfProductIns.Create(seed.Derive(zk.ProofOfProductDst), s.Left, s.Right[0], s.Right[1], product, productMasking, ad)
+		if err != nil {
+			return nil, err
+		}
 		proof = &ProductProof{pf}
+	default:
+		return nil, errors.New("unknown kind of secret shares")
 	}
 
 	return &IDkgDealingInternal{ciphertext, commitment, proof}, nil
diff --git a/dealings/transcript.go b/dealings/transcript.go
index 74b0a1d..43be01b 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -118,6 +118,8 @@ func NewTranscriptInternal(curveType curve.EccCurveType, reconstructionThreshold
 		if err != nil {
 			return nil, err
 		}
+	default:
+		return nil, errors.New("unknown transcript operation")
 	}
 	return &IDkgTranscriptInternal{CombinedCommitment: combinedCommitment}, nil
 }
-- 
2.43.0


From 9a2fcc1ea69eaa2169bb8e604d290db4c0586e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:36 +0000
Subject: [PATCH 14/20] fix: only interpolate commitments of the kind the
 operation yields

Masked and unmasked commitments could be combined into one transcript.
---
 dealings/transcript.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dealings/transcript.go b/dealings/transcript.go
index 43be01b..1ac0c61 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -25,6 +25,11 @@ type UnmaskedTimesMaskedTranscript struct {
 func CombineCommitmentsViaInterpolation(commitmentType poly.PolynomialCommitmentType, curveType curve.EccCurveType, reconstructionThreshold int, verifiedDealings *btree.Map[common.NodeIndex, *IDkgDealingInternal]) (CombinedCommitment, error) {
 	commitments := make([]poly.PolynomialCommitment, 0, verifiedDealings.Len())
 	indexes := make([]common.NodeIndex, 0, verifiedDealings.Len())
+	for _, dealing := range verifiedDealings.Values() {
+		if dealing.Commitment.Type() != commitmentType {
+			return nil, errors.New("unexpected commitment type")
+		}
+	}
 	verifiedDealings.Scan(func(index common.NodeIndex, dealing *IDkgDealingInternal) bool {
 		indexes = append(indexes, index)
 		commitments = append(commitments, dealing.Commitment.Clone())
-- 
2.43.0


From d87878bd1b9c7fdb967f0f7b9a0fe5b0dd53353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:37 +0000
Subject: [PATCH 15/20] fix: check every dealing against the prior commitment

The reshare of an unmasked secret was only compared with the prior
commitment when that was a bare polynomial commitment, not when it came
from a transcript; the prior commitment of a masked reshare could be of
the wrong kind; and a product dealing without a proof caused a panic.
---
 dealings/dealings.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 14f829f..00d2884 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -151,6 +151,9 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 		if err := dealing.Ciphertext.VerifyIs(mega.CiphertextSingle, curveType); err != nil {
 			return err
 		}
+		if err := t.P1.VerifyIs(poly2.Pedersen, curveType); err != nil {
+			return err
+		}
 		if err := dealing.Proof.(*MaskedResharingProof).Verify(t.P1.EvaluateAt(dealerIndex), dealing.Commitment.ConstantTerm(), ad); err != nil {
 			return err
 		}
@@ -164,15 +167,10 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 		if err := dealing.Ciphertext.VerifyIs(mega.CiphertextSingle, curveType); err != nil {
 			return err
 		}
-		switch c := t.P1.(type) {
-		case *poly2.PedersenCommitment:
-			return errors.New("unexpected commitment type")
-		case *poly2.SimpleCommitment:
-			if c.EvaluateAt(dealerIndex).Equal(dealing.Commitment.ConstantTerm()) != 1 {
-				return errors.New("invalid commitment")
-			}
+		if t.P1.EvaluateAt(dealerIndex).Equal(dealing.Commitment.ConstantTerm()) != 1 {
+			return errors.New("invalid commitment")
 		}
-	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof.Type() == ProofOfProduct {
+	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof != nil && dealing.Proof.Type() == ProofOfProduct {
 		if err := dealing.Commitment.VerifyIs(poly2.Pedersen, curveType); err != nil {
 			return err
 		}
-- 
2.43.0


From 60a8500b695a9d8b40b06061f7e8e70d3e00e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:24 +0000
Subject: [PATCH 16/20] fix: verify signature shares

---
 sign/combined_sig.go |  4 +--
 sign/share.go        | 65 ++++++++++++++++++++++++--------------------
 2 files changed, 37 insertions(+), 32 deletions(-)

diff --git a/sign/combined_sig.go b/sign/combined_sig.go
index eb1e88d..19d07d2 100644
--- a/sign/combined_sig.go
+++ b/sign/combined_sig.go
@@ -32,10 +32,10 @@ func NewThresholdEcdsaCombinedSigInternal(derivationPath *key.DerivationPath, ha
 			return true
 		}
 		xValues = append(xValues, index)
-		if p, ok := sigShare.sigmaNumerator.(poly2.PedersenCommitmentOpening); ok {
+		if p, ok := poly2.AsPedersenOpening(sigShare.sigmaNumerator); ok {
 			numeratorSamples = append(numeratorSamples, p[0])
 		}
-		if p, ok := sigShare.sigmaDenominator.(poly2.PedersenCommitmentOpening); ok {
+		if p, ok := poly2.AsPedersenOpening(sigShare.sigmaDenominator); ok {
 			denominatorSamples = append(denominatorSamples, p[0])
 		}
 
diff --git a/sign/share.go b/sign/share.go
index d527dc1..5fb1fc5 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -24,32 +24,33 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 		return nil, err
 	}
 	theta := e.Add(e, rho.Clone().Mul(rho, keyTweak))
-	var lambdaValue curve.EccScalar
-	var lambdaMask curve.EccScalar
-	if l, ok := lambda.(poly2.PedersenCommitmentOpening); ok {
-		lambdaValue = l[0]
-		lambdaMask = l[1]
+	l, ok := poly2.AsPedersenOpening(lambda)
+	if !ok {
+		return nil, errors.New("unexpected commitment type")
 	}
-	var nu poly2.CommitmentOpening
-	if k, ok := keyTimesLambda.(poly2.PedersenCommitmentOpening); ok {
-		nuValue := theta.Clone().Mul(theta, lambdaValue)
-		nuValue = nuValue.Add(nuValue, rho.Clone().Mul(rho, k[0]))
-		nuMask := theta.Clone().Mul(theta, lambdaMask)
-		nuMask = nuMask.Add(nuMask, rho.Clone().Mul(rho, k[1]))
-		nu = poly2.PedersenCommitmentOpening{nuValue, nuMask}
+	lambdaValue := l[0]
+	lambdaMask := l[1]
+
+	k, ok := poly2.AsPedersenOpening(keyTimesLambda)
+	if !ok {
+		return nil, errors.New("unexpected commitment type")
 	}
+	nuValue := theta.Clone().Mul(theta, lambdaValue)
+	nuValue = nuValue.Add(nuValue, rho.Clone().Mul(rho, k[0]))
+	nuMask := theta.Clone().Mul(theta, lambdaMask)
+	nuMask = nuMask.Add(nuMask, rho.Clone().Mul(rho, k[1]))
 
-	var mu poly2.CommitmentOpening
-	if k, ok := kappaTimesLambda.(poly2.PedersenCommitmentOpening); ok {
-		muValue := randomizer.Clone().Mul(randomizer, lambdaValue)
-		muValue = muValue.Add(muValue, k[0])
-		muMask := randomizer.Clone().Mul(randomizer, lambdaMask)
-		muMask = muMask.Add(muMask, k[1])
-		mu = poly2.PedersenCommitmentOpening{muValue, muMask}
+	k, ok = poly2.AsPedersenOpening(kappaTimesLambda)
+	if !ok {
+		return nil, errors.New("unexpected commitment type")
 	}
+	muValue := randomizer.Clone().Mul(randomizer, lambdaValue)
+	muValue = muValue.Add(muValue, k[0])
+	muMask := randomizer.Clone().Mul(randomizer, lambdaMask)
+	muMask = muMask.Add(muMask, k[1])
 	return &ThresholdEcdsaSigShareInternal{
-		sigmaNumerator:   nu,
-		sigmaDenominator: mu,
+		sigmaNumerator:   poly2.PedersenCommitmentOpening{nuValue, nuMask},
+		sigmaDenominator: poly2.PedersenCommitmentOpening{muValue, muMask},
 	}, nil
 }
 
@@ -69,18 +70,22 @@ func (t ThresholdEcdsaSigShareInternal) Verify(derivationPath *key.DerivationPat
 	kappaTimesLambdaJ := kappaTimesLambda.EvaluateAt(signerIndex)
 	keyTimesLambdaJ := keyTimesLambda.EvaluateAt(signerIndex)
 	sigmaNum := lambdaj.Clone().ScalarMul(lambdaj, theta)
-	sigmaNum = sigmaNum.AddPoints(sigmaNum, keyTimesLambdaJ.Clone().ScalarMul(kappaTimesLambdaJ, rho))
+	sigmaNum = sigmaNum.AddPoints(sigmaNum, keyTimesLambdaJ.Clone().ScalarMul(keyTimesLambdaJ, rho))
 	sigmaDen := lambdaj.Clone().ScalarMul(lambdaj, randomizer)
 	sigmaDen = sigmaDen.AddPoints(sigmaDen, kappaTimesLambdaJ)
-	if k, ok := t.sigmaNumerator.(*poly2.PedersenCommitmentOpening); ok {
-		if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
-			return errors.New("invalid commitment")
-		}
+	num, ok := poly2.AsPedersenOpening(t.sigmaNumerator)
+	if !ok {
+		return errors.New("unexpected commitment type")
+	}
+	if sigmaNum.Equal(curve.Point.Pedersen(num[0], num[1])) != 1 {
+		return errors.New("invalid commitment")
+	}
+	den, ok := poly2.AsPedersenOpening(t.sigmaDenominator)
+	if !ok {
+		return errors.New("unexpected commitment type")
 	}
-	if k, ok := t.sigmaDenominator.(*poly2.PedersenCommitmentOpening); ok {
-		if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
-			return errors.New("invalid commitment")
-		}
+	if sigmaDen.Equal(curve.Point.Pedersen(den[0], den[1])) != 1 {
+		return errors.New("invalid commitment")
 	}
 	return nil
 }
-- 
2.43.0


From a9eaf8467b83e237756bf3167f85508d94a3b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:46 +0000
Subject: [PATCH 17/20] fix: refuse messages with missing parts

---
 complaints/complaints.go |  3 +++
 dealings/dealings.go     | 15 +++++++++++++--
 mega/ciphertext.go       |  4 ++--
 sign/combined_sig.go     |  3 +++
 zk/dlog.go               |  3 +++
 zk/equal_opening.go      |  3 +++
 zk/product.go            |  3 +++
 7 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/complaints/complaints.go b/complaints/complaints.go
index 793374f..c5e4724 100644
--- a/complaints/complaints.go
+++ b/complaints/complaints.go
@@ -69,6 +69,9 @@ func createProofAssocData(ad []byte, receiverIndex common.NodeIndex, dealerIndex
 }
 
 func (c IDkgComplaintInternal) Verify(dealing *dealings.IDkgDealingInternal, dealerIndex, complainerIndex common.NodeIndex, complainerKey *mega.MEGaPublicKey, ad []byte) error {
+	if c.proof == nil || c.sharedSecret == nil {
+		return errors.New("incomplete complaint")
+	}
 	proofAssocData, err := createProofAssocData(ad, complainerIndex, dealerIndex, complainerKey)
 	if err != nil {
 		return err
diff --git a/dealings/dealings.go b/dealings/dealings.go
index 00d2884..064b876 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -127,6 +127,9 @@ func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, s
 
 }
 func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType, transcriptType IDkgTranscriptOperationInternal, reconstructionThreshold int, dealerIndex common.NodeIndex, numberOfReceivers int, ad []byte) error {
+	if dealing.Commitment == nil || dealing.Ciphertext == nil {
+		return errors.New("incomplete dealing")
+	}
 	if dealing.Commitment.Len() != reconstructionThreshold {
 		return errors.New("invalid commitment")
 	}
@@ -154,7 +157,11 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 		if err := t.P1.VerifyIs(poly2.Pedersen, curveType); err != nil {
 			return err
 		}
-		if err := dealing.Proof.(*MaskedResharingProof).Verify(t.P1.EvaluateAt(dealerIndex), dealing.Commitment.ConstantTerm(), ad); err != nil {
+		proof, ok := dealing.Proof.(*MaskedResharingProof)
+		if !ok || proof == nil {
+			return errors.New("invalid proof")
+		}
+		if err := proof.Verify(t.P1.EvaluateAt(dealerIndex), dealing.Commitment.ConstantTerm(), ad); err != nil {
 			return err
 		}
 	} else if t, ok := transcriptType.(*ReshareOfUnmaskedTranscript); ok && dealing.Proof == nil {
@@ -183,7 +190,11 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 		if err := t.Right.VerifyIs(poly2.Pedersen, curveType); err != nil {
 			return err
 		}
-		if err := dealing.Proof.(*ProductProof).Verify(t.Left.EvaluateAt(dealerIndex), t.Right.EvaluateAt(dealerIndex), dealing.Commitment.ConstantTerm(), ad); err != nil {
+		proof, ok := dealing.Proof.(*ProductProof)
+		if !ok || proof == nil {
+			return errors.New("invalid proof")
+		}
+		if err := proof.Verify(t.Left.EvaluateAt(dealerIndex), t.Right.EvaluateAt(dealerIndex), dealing.Commitment.ConstantTerm(), ad); err != nil {
 			return err
 		}
 	} else {
diff --git a/mega/ciphertext.go b/mega/ciphertext.go
index 19e115c..30d4cd4 100644
--- a/mega/ciphertext.go
+++ b/mega/ciphertext.go
@@ -198,7 +198,7 @@ func (m MEGaCiphertextSingle) VerifyPop(ad []byte, dealerIndex common.NodeIndex)
 }
 
 func (m MEGaCiphertextSingle) DecryptFromSharedSecret(ad []byte, dealerIndex common.NodeIndex, recipientIndex common.NodeIndex, recipientPublicKey *MEGaPublicKey, sharedSecret curve.EccPoint) (curve.EccScalar, error) {
-	if len(m.CTexts) <= int(recipientIndex) {
+	if recipientIndex < 0 || len(m.CTexts) <= int(recipientIndex) {
 		return nil, errors.New("invalid index")
 	}
 	hm, err := megaHashToScalars(CiphertextSingle, dealerIndex, recipientIndex, ad, recipientPublicKey.point, m.EphemeralKey, sharedSecret)
@@ -286,7 +286,7 @@ func (m MEGaCiphertextPair) VerifyPop(ad []byte, dealerIndex common.NodeIndex) e
 }
 
 func (m MEGaCiphertextPair) DecryptFromSharedSecret(ad []byte, dealerIndex common.NodeIndex, recipientIndex common.NodeIndex, recipientPublicKey *MEGaPublicKey, sharedSecret curve.EccPoint) ([2]curve.EccScalar, error) {
-	if len(m.CTexts) <= int(recipientIndex) {
+	if recipientIndex < 0 || len(m.CTexts) <= int(recipientIndex) {
 		return [2]curve.EccScalar{}, errors.New("invalid index")
 	}
 	hm, err := megaHashToScalars(CiphertextPairs, dealerIndex, recipientIndex, ad, recipientPublicKey.point, m.EphemeralKey, sharedSecret)
diff --git a/sign/combined_sig.go b/sign/combined_sig.go
index 19d07d2..070cc25 100644
--- a/sign/combined_sig.go
+++ b/sign/combined_sig.go
@@ -66,6 +66,9 @@ func NewThresholdEcdsaCombinedSigInternal(derivationPath *key.DerivationPath, ha
 }
 
 func (t ThresholdEcdsaCombinedSigInternal) Verify(derivationPath *key.DerivationPath, hashedMsg []byte, randomness []byte, keyTranscript *dealings.IDkgTranscriptInternal, presigTranscript *dealings.IDkgTranscriptInternal, curveType curve.EccCurveType) error {
+	if t.R == nil || t.S == nil {
+		return errors.New("incomplete signature")
+	}
 	if t.R.IsZero() == 1 || t.S.IsZero() == 1 {
 		return errors.New("invalid signature")
 	}
diff --git a/zk/dlog.go b/zk/dlog.go
index 56340d1..94f8820 100644
--- a/zk/dlog.go
+++ b/zk/dlog.go
@@ -102,6 +102,9 @@ func (p *proofOfDLogEquivalenceInstance) Create(seed *seed.Seed, x curve.EccScal
  * m == m`
  */
 func (p *ProofOfDLogEquivalence) Verify(g, h, gx, hx curve.EccPoint, associatedData []byte) error {
+	if p == nil || p.challenge == nil || p.response == nil {
+		return errors.New("incomplete proof")
+	}
 	instance, err := ProofOfDLogEquivalenceIns.FromCommitments(g, h, gx, hx)
 	if err != nil {
 		return err
diff --git a/zk/equal_opening.go b/zk/equal_opening.go
index f128bef..1f0b32f 100644
--- a/zk/equal_opening.go
+++ b/zk/equal_opening.go
@@ -111,6 +111,9 @@ func (p *ProofOfEqualOpeningsInstance) HashToChallenge(commitment curve.EccPoint
 }
 
 func (p *ProofOfEqualOpenings) Verify(pedersen curve.EccPoint, simple curve.EccPoint, associatedData []byte) error {
+	if p == nil || p.challenge == nil || p.response == nil {
+		return errors.New("incomplete proof")
+	}
 	instance := ProofOfEqualOpeningsIns.FromCommitments(pedersen, simple)
 	rcom := instance.RecoverCommitments(p)
 	challenge, err := instance.HashToChallenge(rcom, associatedData)
diff --git a/zk/product.go b/zk/product.go
index 62d5979..197f33e 100644
--- a/zk/product.go
+++ b/zk/product.go
@@ -102,6 +102,9 @@ func (p ProofOfProductInstance) HashToChallenge(c1 curve.EccPoint, c2 curve.EccP
 }
 
 func (p *ProofOfProduct) Verify(lhsCom curve.EccPoint, rhsCom curve.EccPoint, productCom curve.EccPoint, associatedData []byte) error {
+	if p == nil || p.challenge == nil || p.response1 == nil || p.response2 == nil {
+		return errors.New("incomplete proof")
+	}
 	instance := ProofOfProductIns.FromCommitments(lhsCom, rhsCom, productCom)
 	r1Com, r2Com := instance.RecoverCommitment(p)
 	challenge, err := instance.HashToChallenge(r1Com, r2Com, associatedData)
-- 
2.43.0


From 55017dce003aa6758a0af2e19194d5c991adbcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:21 +0000
Subject: [PATCH 18/20] fix: commitments of different kinds are not equal

---
 poly/commitment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index a54c781..7970648 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -243,7 +243,7 @@ func (s *SimpleCommitment) Len() int {
 	return len(s.points)
 }
 func (s *SimpleCommitment) Equal(other PolynomialCommitment) int {
-	if s.Len() != other.Len() {
+	if s.Type() != other.Type() || s.Len() != other.Len() {
 		return 0
 	}
 	for i := range s.points {
@@ -366,7 +366,7 @@ func (p *PedersenCommitment) Len() int {
 	return len(p.points)
 }
 func (p *PedersenCommitment) Equal(other PolynomialCommitment) int {
-	if p.Len() != other.Len() {
+	if p.Type() != other.Type() || p.Len() != other.Len() {
 		return 0
 	}
 	for i := range p.points {
-- 
2.43.0


From 4da4355be76a0d5e05d9c817753ff1efe2151387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 19/20] fix: refuse bytes that follow a serialized opening or
 commitment

---
 poly/commitment.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 7970648..f3ca79b 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -1,6 +1,8 @@
 package poly
 
 import (
+	"bytes"
+
 	"github.com/PlatONnetwork/tecdsa/common"
 	"github.com/PlatONnetwork/tecdsa/curve"
 	"github.com/fxamacker/cbor/v2"
@@ -72,13 +74,25 @@ type commitmentOpeningCbor struct {
 	Message    cbor.RawMessage
 }
 
+// unmarshalExact decodes data that holds one value and nothing else.
+func unmarshalExact(data []byte, v interface{}) error {
+	dec := cbor.NewDecoder(bytes.NewReader(data))
+	if err := dec.Decode(v); err != nil {
+		return err
+	}
+	if dec.NumBytesRead() != len(data) {
+		return errors.New("unexpected bytes after the value")
+	}
+	return nil
+}
+
 //todo implement
 func (commitmentOpening) OpenDealing() (CommitmentOpening, error) {
 	return nil, nil
 }
 func (commitmentOpening) Deserialize(data []byte) (CommitmentOpening, error) {
 	var c commitmentOpeningCbor
-	if err := cbor.Unmarshal(data, &c); err != nil {
+	if err := unmarshalExact(data, &c); err != nil {
 		return nil, err
 	}
 	var scalars []curve.EccScalar
@@ -436,9 +450,9 @@ type PolynomialCommitment interface {
 
 type polynomialCommitment struct{}
 
-func (polynomialCommitment) Deserialize(bytes []byte) (PolynomialCommitment, error) {
+func (polynomialCommitment) Deserialize(data []byte) (PolynomialCommitment, error) {
 	var c polynomialCommitmentCbor
-	if err := cbor.Unmarshal(bytes, &c); err != nil {
+	if err := unmarshalExact(data, &c); err != nil {
 		return nil, err
 	}
 	var points []curve.EccPoint
-- 
2.43.0


From d3263c05d2665236f8e1b11315a63e793ae38489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:15 +0000
Subject: [PATCH 20/20] fix: refuse ciphertexts without a proof of possession
 when checking their kind

---
 mega/ciphertext.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mega/ciphertext.go b/mega/ciphertext.go
index 30d4cd4..3255b0a 100644
--- a/mega/ciphertext.go
+++ b/mega/ciphertext.go
@@ -179,6 +179,9 @@ func (m MEGaCiphertextSingle) CheckValidity(expectedRecipients int, ad []byte, d
 	return m.VerifyPop(ad, dealerIndex)
 }
 func (m MEGaCiphertextSingle) VerifyIs(ctype MEGaCiphertextType, curveType curve.EccCurveType) error {
+	if m.PopProof == nil {
+		return errors.New("incomplete proof")
+	}
 	if m.EphemeralKey.CurveType() != curveType || m.PopPublicKey.CurveType() != curveType || m.PopProof.CurveType() != curveType {
 		return errors.New("curve mismatch")
 	}
@@ -314,6 +317,9 @@ func (m MEGaCiphertextPair) CheckValidity(expectedRecipients int, ad []byte, dea
 }
 
 func (m MEGaCiphertextPair) VerifyIs(ctype MEGaCiphertextType, curveType curve.EccCurveType) error {
+	if m.PopProof == nil {
+		return errors.New("incomplete proof")
+	}
 	if m.EphemeralKey.CurveType() != curveType || m.PopPublicKey.CurveType() != curveType || m.PopProof.CurveType() != curveType {
 		return errors.New("curve mismatch")
 	}
-- 
2.43.0

