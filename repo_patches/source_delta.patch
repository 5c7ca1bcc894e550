From 086ea7530b180cd328260c1de61b8e32c233e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 001/101] fix: keccak: do not convert the input block to an
 array longer than it

xorInUnaligned converted a pointer to a rate-sized block (72 to 144 bytes)
to a pointer to a 168-byte array, which runs past the end of the allocation
and makes every program built with -race or -d=checkptr crash.
---
 keccak/xor_unaligned.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keccak/xor_unaligned.go b/keccak/xor_unaligned.go
index c50adf5..1ad7dec 100644
--- a/keccak/xor_unaligned.go
+++ b/keccak/xor_unaligned.go
@@ -10,8 +10,8 @@ package keccak
 import "unsafe"
 
 func xorInUnaligned(d *state, buf []byte) {
-	bw := (*[maxRate / 8]uint64)(unsafe.Pointer(&buf[0]))
 	n := len(buf)
+	bw := (*[maxRate / 8]uint64)(unsafe.Pointer(&buf[0]))[: n/8 : n/8]
 	if n >= 72 {
 		d.a[0] ^= bw[0]
 		d.a[1] ^= bw[1]
-- 
2.43.0


From 08dced7b242154f25d2b7e1afd34de68df2481d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 002/101] fix: ec: IsOnCurve rejects coordinates outside of the
 field

It panicked (index out of range) on coordinates longer than 32 bytes and
accepted negative and unreduced ones.
---
 ec/btcec.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ec/btcec.go b/ec/btcec.go
index 0a711b3..6ad33bd 100644
--- a/ec/btcec.go
+++ b/ec/btcec.go
@@ -106,6 +106,12 @@ func (curve *KoblitzCurve) fieldJacobianToBigAffine(x, y, z *fieldVal) (*big.Int
 // Part of the elliptic.Curve interface. This function differs from the
 // crypto/elliptic algorithm since a = 0 not -3.
 func (curve *KoblitzCurve) IsOnCurve(x, y *big.Int) bool {
+	// Coordinates outside of the field are not those of a curve point
+	// (and do not fit in a field value).
+	if x.Sign() < 0 || x.Cmp(curve.P) >= 0 || y.Sign() < 0 || y.Cmp(curve.P) >= 0 {
+		return false
+	}
+
 	// Convert big ints to field values for faster arithmetic.
 	fx, fy := curve.bigAffineToField(x, y)
 
-- 
2.43.0


From c924ad45eebd7882d35766a586b2f9af876aa825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 003/101] fix: signature recovery rejects r off the curve,
 infinity and bad recovery ids

Recover returned garbage keys (not points of the curve, or all zeros) for
an r that is not the abscissa of a curve point and for signatures whose
key is the point at infinity, and silently used only the low bit of the
recovery id, so that a 27/28-style id gave the wrong key.
---
 signature.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/signature.go b/signature.go
index 8017350..ca77c22 100644
--- a/signature.go
+++ b/signature.go
@@ -82,7 +82,7 @@ func (z *Signature) parts() (r, s big.Int, v int, ok bool) {
 	if s.Sign() == 0 {
 		return
 	}
-	ok = r.Cmp(order) < 0 && s.Cmp(halforder) <= 0
+	ok = r.Cmp(order) < 0 && s.Cmp(halforder) <= 0 && v <= 1
 	return
 }
 
@@ -114,6 +114,9 @@ func (z *Signature) Recover(hash *Hash) (*PublicKey, error) {
 	}
 
 	CurvePoint(&r, &ry, v)
+	if !curve.IsOnCurve(&r, &ry) {
+		return nil, errors.New("invalid signature: r is not on the curve")
+	}
 
 	ri.ModInverse(&r, order)
 	si.Mul(&ri, &s)
@@ -128,6 +131,9 @@ func (z *Signature) Recover(hash *Hash) (*PublicKey, error) {
 
 	ex, ey := curve.ScalarBaseMult(e.Bytes())
 	qx, qy := curve.Add(sx, sy, ex, ey)
+	if qx.Sign() == 0 && qy.Sign() == 0 {
+		return nil, errors.New("invalid signature: no public key")
+	}
 
 	return NewPublicKey(qx, qy), nil
 }
-- 
2.43.0


From af661d2d426feacd0acac89dbd7af1acf63fa544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 004/101] fix: keyfile: validate KDF parameters, IV and
 ciphertext lengths; MAC uses key bytes 16 to 31

---
 keyfile.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/keyfile.go b/keyfile.go
index c01770a..8eaca68 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -73,6 +73,12 @@ func pbkdf2Derive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 		return nil, fmt.Errorf("pbkdf2 salt: %s", err)
 	}
 
+	if p.Iters < 1 {
+		return nil, fmt.Errorf("bad iteration count %d for pbkdf2", p.Iters)
+	}
+	if err := checkKeylen(p.Keylen); err != nil {
+		return nil, err
+	}
 	return pbkdf2.Key(pass, salt, p.Iters, p.Keylen, h), nil
 }
 
@@ -92,9 +98,29 @@ func scryptDerive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	// scrypt.Key divides by r and p, and allocates 128*n*r bytes
+	if p.N < 2 || p.R < 1 || p.P < 1 || p.N > maxScryptMem/128/p.R || p.P > maxScryptMem/128/p.R {
+		return nil, fmt.Errorf("bad scrypt parameters n=%d r=%d p=%d", p.N, p.R, p.P)
+	}
+	if err := checkKeylen(p.Keylen); err != nil {
+		return nil, err
+	}
 	return scrypt.Key(pass, salt, p.N, p.R, p.P, p.Keylen)
 }
 
+// maxScryptMem is the most memory that deriving a
+// key from (untrusted) scrypt parameters may use.
+const maxScryptMem = 1 << 31
+
+// checkKeylen checks the length of a derived key: its first 16
+// bytes are the cipher key, and the next 16 bytes the MAC key.
+func checkKeylen(n int) error {
+	if n < 32 || n > 1024 {
+		return fmt.Errorf("bad derived key length %d", n)
+	}
+	return nil
+}
+
 func (k *Keyfile) kdf(pass []byte) ([]byte, error) {
 	switch strings.ToLower(k.Crypto.KDF) {
 	case "pbkdf2":
@@ -119,6 +145,9 @@ func aes128ctrDecipher(key, ciphertext []byte, jsparams json.RawMessage) error {
 	if err != nil {
 		return fmt.Errorf("bad aes-128-ctr iv: %s", err)
 	}
+	if len(iv) != aes.BlockSize {
+		return fmt.Errorf("bad aes-128-ctr iv length %d", len(iv))
+	}
 	block, err := aes.NewCipher(key[:16])
 	if err != nil {
 		return err
@@ -128,11 +157,11 @@ func aes128ctrDecipher(key, ciphertext []byte, jsparams json.RawMessage) error {
 	return nil
 }
 
-// the keyfile MAC is the keccak256 of the last 16 bytes
+// the keyfile MAC is the keccak256 of the second 16 bytes
 // of the derived key, concatenated with the ciphertext
 func (k *Keyfile) checkmac(key, ciphertext []byte) error {
 	h := keccak.New256()
-	h.Write(key[len(key)-16:])
+	h.Write(key[16:32])
 	h.Write(ciphertext)
 	sum := h.Sum(nil)
 	want, err := hex.DecodeString(k.Crypto.MAC)
@@ -156,6 +185,9 @@ func (k *Keyfile) Private(passphrase []byte) (*PrivateKey, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(ciphertext) != len(PrivateKey{}) {
+		return nil, fmt.Errorf("bad ciphertext length %d", len(ciphertext))
+	}
 	err = k.checkmac(key, ciphertext)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4f313e884864b2804e5d7def48ee21148bb54396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 005/101] fix: abi: encode negative integers in two's
 complement

---
 send.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/send.go b/send.go
index c95c308..671a8b5 100644
--- a/send.go
+++ b/send.go
@@ -40,10 +40,20 @@ func (a *Address) EncodeABI(v []byte) []byte {
 
 func (a *Address) internal() {}
 
+var twoTo256 = new(big.Int).Lsh(big.NewInt(1), 256)
+
 // EncodeABI implements EtherType
 func (i *Int) EncodeABI(v []byte) []byte {
 	var w [32]byte
-	bits := (*big.Int)(i).Bytes()
+	b := (*big.Int)(i)
+	if b.Sign() < 0 {
+		// two's complement
+		b = new(big.Int).Add(b, twoTo256)
+		if b.BitLen() < 256 {
+			panic("ABI encoding: integer overflow")
+		}
+	}
+	bits := b.Bytes()
 	if len(bits) > 32 {
 		panic("ABI encoding: integer overflow")
 	}
-- 
2.43.0


From ff41d73ca309c8156ad254e783aa8f3a8f79bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 006/101] fix: abi: check argument count and types of every
 signature

---
 send.go | 67 ++++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/send.go b/send.go
index 671a8b5..4c2ae85 100644
--- a/send.go
+++ b/send.go
@@ -187,36 +187,53 @@ func typecheck(f string, args []EtherType) {
 		panic(f + " has a bad right paren")
 	}
 	var argstrings []string
-	if strings.Contains(f[lparen+1:rparen], ",") {
+	if lparen+1 < rparen {
 		argstrings = strings.Split(f[lparen+1:rparen], ",")
-		if len(argstrings) != len(args) {
-			panic(fmt.Sprintf("mismatched argument lists: %d args vs %d given", len(argstrings), len(args)))
-		}
+	}
+	if len(argstrings) != len(args) {
+		panic(fmt.Sprintf("mismatched argument lists: %d args vs %d given", len(argstrings), len(args)))
 	}
 	for i := range argstrings {
-		switch argstrings[i] {
-		case "address":
-			if _, ok := args[i].(*Address); !ok {
-				panic("address argument not an address")
-			}
-		case "uint", "uint256", "int", "int256":
-			if _, ok := args[i].(*Int); !ok {
-				panic(argstrings[i] + " argument not an Int")
-			}
-		case "bytes32":
-			if _, ok := args[i].(*Data); !ok {
-				if _, ok = args[i].(*Int); !ok {
-					panic(argstrings[i] + "argument not an Int or Data")
-				}
-			}
+		if !typematch(argstrings[i], args[i]) {
+			panic(fmt.Sprintf("%s argument cannot be a %T", argstrings[i], args[i]))
+		}
+	}
+}
+
+// typematch returns whether an argument has
+// a Go type that encodes the solidity type 'typ'
+func typematch(typ string, arg EtherType) bool {
+	_, isint := arg.(*Int)
+	_, isdata := arg.(*Data)
+	_, isslice := arg.(EtherSlice)
+	switch {
+	case strings.HasSuffix(typ, "]"):
+		if !strings.HasSuffix(typ, "[]") {
+			return false // fixed-size arrays are not supported
+		}
+		switch elem := strings.TrimSuffix(typ, "[]"); arg.(type) {
+		case *IntSlice:
+			return typematch(elem, new(Int))
+		case *AddrSlice:
+			return typematch(elem, new(Address))
+		case *DataSlice:
+			return typematch(elem, new(Data))
 		default:
-			if strings.HasSuffix(argstrings[i], "[]") {
-				if _, ok := args[i].(EtherSlice); !ok {
-					panic("argument not a slice")
-				}
-			}
-			// TODO: more typechecking
+			return false
 		}
+	case typ == "address":
+		_, ok := arg.(*Address)
+		return ok
+	case typ == "bytes", typ == "string":
+		_, ok := arg.(*Bytes)
+		return ok
+	case strings.HasPrefix(typ, "bytes"):
+		return isdata || isint
+	case typ == "bool", strings.HasPrefix(typ, "uint"), strings.HasPrefix(typ, "int"):
+		return isint
+	default:
+		// TODO: more typechecking
+		return !isslice
 	}
 }
 
-- 
2.43.0


From 54b1b1dbebe0e347a6b0841ecadd981258126d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 007/101] fix: abi: bounds-check decoding and decode at the
 argument's own position

---
 send.go | 124 ++++++++++++++++++++++----------------------------------
 1 file changed, 49 insertions(+), 75 deletions(-)

diff --git a/send.go b/send.go
index 4c2ae85..5ec0911 100644
--- a/send.go
+++ b/send.go
@@ -371,27 +371,24 @@ func (d *ABIDecoder) UnmarshalText(v []byte) error {
 func DecodeABI(v []byte, args ...interface{}) error {
 	var spare big.Int
 	cur := v
-	offset := int64(0)
 	for i, v := range args {
-		if len(cur[offset:]) == 0 {
+		offset := i * 32
+		if offset >= len(cur) {
 			return fmt.Errorf("no argument returned at position %d", i)
 		}
-		buf := cur[offset:]
-		if len(buf) > 32 {
-			buf = buf[:32]
+		if len(cur)-offset < 32 {
+			return fmt.Errorf("truncated argument returned at position %d", i)
 		}
+		buf := cur[offset : offset+32]
 
 		// easy cases that don't involve converting types
 		// or handling variable-length types
 		did := true
 		switch v := v.(type) {
 		case *Data:
-			if len(*v) < 32 {
-				*v = make([]byte, 32)
-			}
-			copy(*v, cur)
+			*v = append(Data(nil), buf...)
 		case *Address:
-			copy(v[:], cur[12:])
+			copy(v[:], buf[12:])
 		case *Int:
 			(*big.Int)(v).SetBytes(buf)
 		case *big.Int:
@@ -400,99 +397,59 @@ func DecodeABI(v []byte, args ...interface{}) error {
 			did = false
 		}
 		if did {
-			offset += 32
 			continue
 		}
 
 		spare.SetBytes(buf)
 		switch v := v.(type) {
 		case *string:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad string offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length >= int64(len(cur)) {
-				return fmt.Errorf("bad string length %d for data length returned (%d)", length, len(cur))
+			body, _, err := dynamic(cur, offset, &spare, 1)
+			if err != nil {
+				return err
 			}
-			*v = string(cur[dpos : dpos+length])
+			*v = string(body)
 		case *[]byte:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad bytes offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length > int64(len(cur)) {
-				return fmt.Errorf("bad bytes length %d for data length returned (%d)", length, len(cur))
+			body, length, err := dynamic(cur, offset, &spare, 1)
+			if err != nil {
+				return err
 			}
 			*v = make([]byte, length)
-			copy(*v, cur[dpos:dpos+length])
+			copy(*v, body)
 		case *Bytes:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad bytes offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length > int64(len(cur)) {
-				return fmt.Errorf("bad bytes length %d for data length returned (%d)", length, len(cur))
+			body, length, err := dynamic(cur, offset, &spare, 1)
+			if err != nil {
+				return err
 			}
 			*v = make([]byte, length)
-			copy(*v, cur[dpos:dpos+length])
+			copy(*v, body)
 		case *IntSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			body, length, err := dynamic(cur, offset, &spare, 32)
+			if err != nil {
+				return err
 			}
 			s := make([]Int, length)
 			for i := range s {
-				o := int(dpos) + i*32
-				(*big.Int)(&s[i]).SetBytes(cur[o : o+32])
+				(*big.Int)(&s[i]).SetBytes(body[i*32 : i*32+32])
 			}
 			*v = IntSlice(s)
 		case *AddrSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			body, length, err := dynamic(cur, offset, &spare, 32)
+			if err != nil {
+				return err
 			}
 			s := make([]Address, length)
 			for i := range s {
-				o := int(dpos) + i*32
-				copy(s[i][:], cur[o+12:o+32])
+				copy(s[i][:], body[i*32+12:i*32+32])
 			}
 			*v = AddrSlice(s)
 		case *DataSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			body, length, err := dynamic(cur, offset, &spare, 32)
+			if err != nil {
+				return err
 			}
 			s := make([]Data, length)
 			for i := range s {
-				o := int(dpos) + i*32
-				copy(s[i][:], cur[o+12:o+32])
+				s[i] = append(Data(nil), body[i*32:i*32+32]...)
 			}
 			*v = DataSlice(s)
 		case *bool:
@@ -520,7 +477,24 @@ func DecodeABI(v []byte, args ...interface{}) error {
 		default:
 			return fmt.Errorf("unrecognized type %T", v)
 		}
-		offset += 32
 	}
 	return nil
 }
+
+// dynamic returns the body and the number of elements
+// of the variable-length value in data whose head is at
+// the given offset and holds the position in head, and whose
+// elements are each width bytes long
+func dynamic(data []byte, offset int, head *big.Int, width int) ([]byte, int, error) {
+	if !head.IsInt64() || head.Int64() < int64(offset)+32 || head.Int64() > int64(len(data))-32 {
+		return nil, 0, fmt.Errorf("bad offset %s for data length returned (%d)", head, len(data))
+	}
+	pos := int(head.Int64())
+	length := new(big.Int).SetBytes(data[pos : pos+32])
+	body := data[pos+32:]
+	if !length.IsInt64() || length.Int64() > int64(len(body)/width) {
+		return nil, 0, fmt.Errorf("bad length %s for data length returned (%d)", length, len(data))
+	}
+	n := int(length.Int64())
+	return body[:n*width], n, nil
+}
-- 
2.43.0


From 2e0913a67bd3509a8cf84e4018d7856f20c23791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 008/101] fix: hex: decoding clears what the destination held

---
 hex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hex.go b/hex.go
index 5b771ce..bb1172f 100644
--- a/hex.go
+++ b/hex.go
@@ -50,6 +50,10 @@ func hexdecode(dst, src []byte) error {
 		return fmt.Errorf("size mismatch: %d != %d", len(dst), hexlen(src))
 	}
 
+	for i := range dst {
+		dst[i] = 0
+	}
+
 	// If the input is an odd-sized hex string,
 	// make sure that it implicitly has a 0 nibble
 	// at the beginning rather than at the end.
-- 
2.43.0


From 331b1abbd71472dc8ed854921f20416db49c46db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 009/101] fix: zero integers marshal as 0x0, and negative ones
 keep their sign

---
 hex.go  |  7 ++++++-
 seth.go | 15 ++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/hex.go b/hex.go
index bb1172f..1f6f6b6 100644
--- a/hex.go
+++ b/hex.go
@@ -69,8 +69,13 @@ func hexdecode(dst, src []byte) error {
 	return nil
 }
 
-// hexstring returns a hex string of the given data
+// hexstring returns a hex string of the given data;
+// if 'trunc' is set, the data is a number, and the
+// string has no leading zeros (and is 0x0 for zero)
 func hexstring(b []byte, trunc bool) []byte {
+	if trunc && len(b) == 0 {
+		return []byte("0x0")
+	}
 	buf := make([]byte, 2+2*len(b))
 	hex.Encode(buf[2:], b)
 	if trunc && len(buf) > 2 && buf[2] == '0' {
diff --git a/seth.go b/seth.go
index 1cfb47a..2e1be49 100644
--- a/seth.go
+++ b/seth.go
@@ -193,12 +193,21 @@ func (i *Int) String() string {
 	if i == nil {
 		return "<nil>"
 	}
-	return string(hexstring(i.Big().Bytes(), true))
+	return string(i.hex())
+}
+
+// hex returns the number in hex, with its sign
+func (i *Int) hex() []byte {
+	s := hexstring(i.Big().Bytes(), true)
+	if i.Big().Sign() < 0 {
+		s = append([]byte{'-'}, s...)
+	}
+	return s
 }
 
 // MarshalText implements encoding.TextMarshaler.
 func (i Int) MarshalText() ([]byte, error) {
-	return hexstring(i.Big().Bytes(), true), nil
+	return i.hex(), nil
 }
 
 // UnmarshalJSON implements json.Unmarshaler.
@@ -221,7 +230,7 @@ func (i *Int) UnmarshalText(b []byte) error {
 	if err != nil {
 		return err
 	}
-	i.Big().SetBytes(buf)
+	i.Big().SetBytes(bytes.TrimLeft(buf, "\x00"))
 	return nil
 }
 
-- 
2.43.0


From 9662f70a48e8a081c1ef1b776cfee1bbd96704bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 010/101] fix: rpc: the readers of an old and a new connection
 do not share a response

---
 client.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index b926f1c..60d41b7 100644
--- a/client.go
+++ b/client.go
@@ -28,15 +28,14 @@ type RPCTransport struct {
 	conn    io.ReadWriteCloser
 	enc     *json.Encoder // wraps send side of conn
 	pending map[int]*pending
-	res     RPCResponse
 	dial    func() (io.ReadWriteCloser, error)
 }
 
 func (t *RPCTransport) background(conn io.ReadWriteCloser) {
 	dec := json.NewDecoder(conn)
 	for {
-		t.res = RPCResponse{}
-		err := dec.Decode(&t.res)
+		var res RPCResponse
+		err := dec.Decode(&res)
 		if err != nil {
 			log.Printf("seth: conn read: %s", err)
 			t.lock.Lock()
@@ -48,22 +47,25 @@ func (t *RPCTransport) background(conn io.ReadWriteCloser) {
 			return
 		}
 		t.lock.Lock()
-		p := t.pending[t.res.ID]
-		if p != nil {
-			delete(t.pending, t.res.ID)
+		// the pending requests belong to the current
+		// connection, which may no longer be this one
+		var p *pending
+		if t.conn == conn {
+			p = t.pending[res.ID]
+			delete(t.pending, res.ID)
 		}
 		t.lock.Unlock()
 		if p == nil {
-			log.Printf("spurious response ID %d", t.res.ID)
+			log.Printf("spurious response ID %d", res.ID)
 			continue
 		}
-		if t.res.Error.Code != 0 || t.res.Error.Message != "" {
-			c := t.res.Error
+		if res.Error.Code != 0 || res.Error.Message != "" {
+			c := res.Error
 			p.err = &c
-		} else if bytes.Equal(t.res.Result, rawnull) {
+		} else if bytes.Equal(res.Result, rawnull) {
 			p.err = ErrNotFound
 		} else {
-			*p.res = t.res
+			*p.res = res
 		}
 		close(p.notify)
 	}
-- 
2.43.0


From 6128e13d61c3379205a0e1c58255589184e796c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 011/101] fix: rpc: read responses while a request is being
 written

---
 client.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/client.go b/client.go
index 60d41b7..5180c34 100644
--- a/client.go
+++ b/client.go
@@ -24,9 +24,9 @@ type pending struct {
 // An RPCTrasport is a client transport for making requests over an RPC
 // connection.
 type RPCTransport struct {
+	wlock   sync.Mutex // held while writing; acquired before lock
 	lock    sync.Mutex
 	conn    io.ReadWriteCloser
-	enc     *json.Encoder // wraps send side of conn
 	pending map[int]*pending
 	dial    func() (io.ReadWriteCloser, error)
 }
@@ -77,15 +77,11 @@ func (t *RPCTransport) abort(err error) {
 		close(p.notify)
 		delete(t.pending, id)
 	}
-	t.enc = nil
 	t.conn.Close()
 	t.conn = nil
 }
 
 func (t *RPCTransport) reconnect() error {
-	if t.enc != nil {
-		t.enc = nil
-	}
 	if t.conn != nil {
 		t.conn.Close()
 		t.conn = nil
@@ -95,7 +91,6 @@ func (t *RPCTransport) reconnect() error {
 		return err
 	}
 	t.conn = conn
-	t.enc = json.NewEncoder(conn)
 	go t.background(conn)
 	return nil
 }
@@ -124,21 +119,35 @@ func (c *Client) Do(method string, params []json.RawMessage, result interface{})
 }
 
 func (t *RPCTransport) Execute(req *RPCRequest, res *RPCResponse) error {
-	notify := make(chan struct{}, 1)
+	body, err := json.Marshal(req)
+	if err != nil {
+		return err
+	}
+	p := &pending{notify: make(chan struct{}, 1), res: res}
+	t.wlock.Lock()
 	t.lock.Lock()
-	if t.enc == nil {
+	if t.conn == nil {
 		if err := t.reconnect(); err != nil {
 			t.lock.Unlock()
+			t.wlock.Unlock()
 			return err
 		}
 	}
-	p := &pending{notify: notify, res: res}
+	conn := t.conn
 	t.pending[req.ID] = p
-	err := t.enc.Encode(req)
-	if err != nil {
-		t.abort(err)
-	}
 	t.lock.Unlock()
+	// background needs t.lock in order to read responses, and
+	// the server may not read this request until we have read
+	// its responses to earlier ones
+	if _, err := conn.Write(append(body, '\n')); err != nil {
+		t.lock.Lock()
+		// background may have aborted already
+		if t.conn == conn {
+			t.abort(err)
+		}
+		t.lock.Unlock()
+	}
+	t.wlock.Unlock()
 	<-p.notify
 	return p.err
 }
-- 
2.43.0


From 0861ff275056b068adf2c441aefd56ceb080dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 012/101] fix: Pending asks for the pending block

---
 seth.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seth.go b/seth.go
index 2e1be49..850f1d9 100644
--- a/seth.go
+++ b/seth.go
@@ -530,7 +530,7 @@ func (c *Client) BlockNumber() (int64, error) {
 
 // Pending returns the list of pending transactions.
 func (c *Client) Pending() ([]Transaction, error) {
-	b, err := c.GetBlock(-1, true)
+	b, err := c.GetBlock(Pending, true)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d64befeff233f590d7a47ef587c81618e42f334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 013/101] fix: block iterator: Stop ends an iteration that
 nobody reads

---
 seth.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/seth.go b/seth.go
index 850f1d9..27defc2 100644
--- a/seth.go
+++ b/seth.go
@@ -662,8 +662,11 @@ func (b *BlockIterator) getLoop(block int64, txs bool) {
 				time.Sleep(1 * time.Second)
 				continue
 			}
-			b.out <- v
-			block++
+			select {
+			case b.out <- v:
+				block++
+			case <-b.done:
+			}
 		}
 	}
 }
-- 
2.43.0


From acbc6ab6090adee87aaca0b2c8858fee55c716d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 014/101] fix: filter: Close ends a filter that nobody reads

---
 filter.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/filter.go b/filter.go
index e11b991..092aee5 100644
--- a/filter.go
+++ b/filter.go
@@ -31,7 +31,10 @@ func (f *Filter) Out() <-chan *Log { return f.out }
 
 func (f *Filter) seterr(err error) {
 	f.lock.Lock()
-	f.err = err
+	// the server forgets a filter that we close
+	if !f.closed {
+		f.err = err
+	}
 	f.lock.Unlock()
 }
 
@@ -65,16 +68,26 @@ type newFilterReq struct {
 	Topics    []*Hash         `json:"topics,omitempty"`
 }
 
+// send outputs logs, and returns false
+// if the filter was closed meanwhile
+func (f *Filter) send(logs []Log) bool {
+	for i := range logs {
+		select {
+		case f.out <- &logs[i]:
+		case <-f.exit:
+			return false
+		}
+	}
+	return true
+}
+
 func frecv(f *Filter) {
 	logs, err := f.c.getLogs(f.id)
 	if err != nil {
 		f.seterr(err)
 		goto done
 	}
-	for i := range logs {
-		f.out <- &logs[i]
-	}
-	if !f.poll {
+	if !f.send(logs) || !f.poll {
 		goto done
 	}
 	for {
@@ -90,8 +103,9 @@ func frecv(f *Filter) {
 				ticker.Stop()
 				goto done
 			}
-			for i := range logs {
-				f.out <- &logs[i]
+			ticker.Stop()
+			if !f.send(logs) {
+				goto done
 			}
 		}
 	}
-- 
2.43.0


From 754cf1deccd97edb33a98b5b57acb4bc42dedc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 015/101] fix: Drain waits for the transactions of its account
 in the pending block

---
 sender.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sender.go b/sender.go
index 6f4a522..ac8beb5 100644
--- a/sender.go
+++ b/sender.go
@@ -197,7 +197,7 @@ func (s *Sender) Wait(h *Hash) error {
 // contain no transactions from this account.
 func (s *Sender) Drain(prompt ...func(t *Transaction)) error {
 	for {
-		p, err := s.GetBlock(-1, true)
+		p, err := s.GetBlock(Pending, true)
 		if err != nil {
 			return err
 		}
@@ -207,7 +207,7 @@ func (s *Sender) Drain(prompt ...func(t *Transaction)) error {
 		}
 		var t *Transaction
 		for i := range txs {
-			if txs[i].From == s.Addr {
+			if txs[i].From != nil && *txs[i].From == *s.Addr {
 				t = &txs[i]
 				break
 			}
-- 
2.43.0


From e1347647b40337370367048e21d5576590c32e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 016/101] fix: Cancel outbids gas prices over 64 bits

---
 sender.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index ac8beb5..569bccc 100644
--- a/sender.go
+++ b/sender.go
@@ -174,7 +174,8 @@ func (s *Sender) Cancel(h *Hash) (Hash, error) {
 	if s.GasPrice.Cmp(&tx.GasPrice) > 0 {
 		opts.GasPrice = &s.GasPrice
 	} else {
-		opts.GasPrice = NewInt(tx.GasPrice.Int64() + 1)
+		price := new(big.Int).Add(tx.GasPrice.Big(), big.NewInt(1))
+		opts.GasPrice = (*Int)(price)
 	}
 	return s.Call(&opts)
 }
-- 
2.43.0


From fd5cebb68b45bfe8ed8afe5fea84b2ad2ea4628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 017/101] fix: Sender does not truncate gas over 64 bits

---
 sender.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sender.go b/sender.go
index 569bccc..2e21416 100644
--- a/sender.go
+++ b/sender.go
@@ -116,6 +116,9 @@ func (s *Sender) Call(opts *CallOpts) (Hash, error) {
 		return s.Client.Call(opts)
 	}
 
+	if !opts.Gas.Big().IsUint64() {
+		return Hash{}, fmt.Errorf("Sender.Call: no transaction can carry gas %v", opts.Gas)
+	}
 	tx := opts.Transaction()
 
 	// if no nonce was specified, try to select it
-- 
2.43.0


From e36729bfe47d442b05c78f616e1a464d344b596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 018/101] fix: cc: NewRate rounds to the nearest rate

---
 cc/currency.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cc/currency.go b/cc/currency.go
index 12b8c61..1ba6d23 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -33,7 +33,9 @@ func NewRate(f float64) *Rate {
 	num, denom := rat.Num(), rat.Denom()
 	if num.Sign() != 0 {
 		pow10(num, RateDigits)
-		num.Div(num, denom)
+		// round to nearest: floor((2*num + denom) / (2*denom))
+		num.Lsh(num, 1).Add(num, denom)
+		num.Div(num, new(big.Int).Lsh(denom, 1))
 	}
 	return (*Rate)(num)
 }
-- 
2.43.0


From ae86600c6b4cdd4559317fab6bf61a5dfa9558fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 019/101] fix: cc: Rate.UnmarshalJSON of a lone quote is an
 error

---
 cc/currency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc/currency.go b/cc/currency.go
index 1ba6d23..bcffa82 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -180,7 +180,7 @@ func (r *Rate) UnmarshalJSON(b []byte) error {
 	if string(b) == "null" {
 		return nil
 	}
-	if len(b) > 0 && b[0] == '"' && b[len(b)-1] == '"' {
+	if len(b) > 1 && b[0] == '"' && b[len(b)-1] == '"' {
 		b = b[1 : len(b)-1]
 	}
 	n, err := ParseRate(string(b))
-- 
2.43.0


From f2756ab75a8a5595bdd83cb67acef76d82526895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 020/101] fix: cc: parsing neither adds to the destination nor
 changes it when it fails

---
 cc/currency.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/cc/currency.go b/cc/currency.go
index bcffa82..5906aa2 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -250,9 +250,11 @@ func (c Currency) ParseAmount(s string) (*Amount, error) {
 }
 
 func (c Currency) parseAmount(a *Amount, s string) error {
-	if _, err := parseDigits(&a.Amount, s, c.Digits()); err != nil {
+	n, err := parseDigits(new(big.Int), s, c.Digits())
+	if err != nil {
 		return err
 	}
+	a.Amount = *n
 	a.Currency = c
 	return nil
 }
@@ -367,15 +369,20 @@ func (p *Pair) UnmarshalText(b []byte) error {
 		return fmt.Errorf("pair: malformed string: %q", b)
 	}
 	rate, to, from := b[:i1], b[i1+1:i2], b[i2+1:]
-	if r, err := ParseRate(string(rate)); err != nil {
+	r, err := ParseRate(string(rate))
+	if err != nil {
 		return err
-	} else {
-		p.Rate = *r
 	}
-	if err := p.To.UnmarshalText(to); err != nil {
+	var np Pair
+	np.Rate = *r
+	if err := np.To.UnmarshalText(to); err != nil {
 		return err
 	}
-	return p.From.UnmarshalText(from)
+	if err := np.From.UnmarshalText(from); err != nil {
+		return err
+	}
+	*p = np
+	return nil
 }
 
 // Amount is a combination of a
@@ -492,8 +499,12 @@ func (a *Amount) MarshalText() ([]byte, error) {
 
 // UnmarshalText implements encoding.TextUnmarshaler.
 func (a *Amount) UnmarshalText(b []byte) error {
-	_, err := fmt.Sscanln(string(b), a)
-	return err
+	n, err := ParseAmount(string(b))
+	if err != nil {
+		return err
+	}
+	*a = *n
+	return nil
 }
 
 // Convert converts the given amount to a new currency
-- 
2.43.0


From 7aaca3baad469fbe3d22180b8f955615b3a624b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:41 +0000
Subject: [PATCH 021/101] fix: tree: the snapshot of a tree that became empty
 does not drop earlier snapshots

---
 tevm/tree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index 85340ea..0e2e801 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -167,7 +167,9 @@ func (t *Tree) Get(key []byte) []byte {
 // Snapshot returns a snapshot number for the
 // current state of the tree
 func (t *Tree) Snapshot() int {
-	if t.Root == 0 {
+	// -1 is the tree that never held anything; a tree
+	// that became empty is a snapshot like any other
+	if len(t.All) == 0 {
 		return -1
 	}
 	s := len(t.Snaps)
-- 
2.43.0


From 5117f28cce12bfd1211179c15846538b092698ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:41 +0000
Subject: [PATCH 022/101] fix: tree: a tree and its copies do not overwrite
 each other's nodes and snapshots

---
 tevm/tree.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index 0e2e801..b9c9581 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -197,10 +197,10 @@ func (t *Tree) CopyAt(snap int) Tree {
 	}
 	s := t.Snaps[snap]
 	return Tree{
-		Snaps: t.Snaps[:snap+1],
-		Root:  s.Root,
-		// make sure any appends to the node list
+		Root: s.Root,
+		// make sure any appends to the lists
 		// cause reallocation of the backing data
+		Snaps: t.Snaps[: snap+1 : snap+1],
 		All:   t.All[:s.Allocated:s.Allocated],
 		Epoch: t.Epoch + 1,
 	}
@@ -215,9 +215,11 @@ func (t *Tree) Rollback(snap int) {
 		return
 	}
 	s := t.Snaps[snap]
-	t.Snaps = t.Snaps[:snap+1]
+	// copies of later snapshots may share the
+	// rest of the backing data: do not reuse it
+	t.Snaps = t.Snaps[: snap+1 : snap+1]
 	t.Root = s.Root
-	t.All = t.All[:s.Allocated]
+	t.All = t.All[:s.Allocated:s.Allocated]
 	t.Epoch++
 }
 
-- 
2.43.0


From a9d74d1b62bbb28442c60d7bc3159fb77aab4de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:41 +0000
Subject: [PATCH 023/101] fix: tree: iterate in ascending key order

---
 tevm/tree.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index b9c9581..05a9ca4 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -224,14 +224,15 @@ func (t *Tree) Rollback(snap int) {
 }
 
 func (t *Tree) apply(node *treenode, fn func(k, v []byte) bool) bool {
-	if node.Left != 0 && !t.apply(t.num(node.Left), fn) {
+	// smaller keys are to the right
+	if node.Right != 0 && !t.apply(t.num(node.Right), fn) {
 		return false
 	}
 	if !fn(node.Key, node.Value) {
 		return false
 	}
-	if node.Right != 0 {
-		return t.apply(t.num(node.Right), fn)
+	if node.Left != 0 {
+		return t.apply(t.num(node.Left), fn)
 	}
 	return true
 }
-- 
2.43.0


From 90f62bd964119a47f53e029f4217fbbe15070495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 024/101] fix: tevm: a transfer to oneself does not mint ether

---
 tevm/evm.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 591a5f9..d3ea0b2 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -723,6 +723,10 @@ func dotransfer(s vm.StateDB, from, to common.Address, v *big.Int) {
 	facct, _ := st.getAccount(&aaddr)
 	fbcct, _ := st.getAccount(&baddr)
 
+	if aaddr == baddr {
+		return
+	}
+
 	var ov big.Int
 	fb, tb := facct.Balance(), fbcct.Balance()
 	fbb, tbb := fb.Big(), tb.Big()
-- 
2.43.0


From 0db42232bac72bdeae9be727387f18ebfb73a321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 025/101] fix: tevm: creating an account keeps the balance of
 its address

---
 tevm/evm.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index d3ea0b2..6c8981e 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -141,9 +141,14 @@ func (s *gethState) CreateAccount(addr common.Address) {
 	if s.Trace != nil {
 		s.Trace("CreateAccount", addr.String())
 	}
-	var empty Account
+	// like in geth, the balance of an address
+	// carries over to the account created there
+	var acct Account
 	a := seth.Address(addr)
-	s.setAccount(&a, &empty)
+	old, _ := s.getAccount(&a)
+	bal := old.Balance()
+	acct.SetBalance(bal.Big())
+	s.setAccount(&a, &acct)
 }
 
 func (s *gethState) getAccount(addr *seth.Address) (Account, bool) {
-- 
2.43.0


From d6bfae4641762bc5131c595983c7cc151a577cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:31 +0000
Subject: [PATCH 026/101] fix: tevm: self-destruction takes the balance of the
 account

---
 tevm/evm.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 6c8981e..48a3fdd 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -388,12 +388,14 @@ func (s *gethState) Suicide(addr common.Address) bool {
 	// out of the JSON-RPC API, so this may
 	// simply be wrong.
 	acct, ok := s.getAccount(&a)
-	if !ok || acct.Suicided() {
+	if !ok {
 		return false
 	}
+	first := !acct.Suicided()
+	acct.SetBalance(&zero)
 	acct.SetSuicided(true)
 	s.setAccount(&a, &acct)
-	return true
+	return first
 }
 
 func (s *gethState) HasSuicided(addr common.Address) bool {
-- 
2.43.0


From c273914da8673c53ba0b1111d804ade64fe1b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:31 +0000
Subject: [PATCH 027/101] fix: tevm: the GASPRICE instruction does not panic

---
 tevm/evm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 48a3fdd..ed1ad40 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -760,6 +760,7 @@ func (c *Chain) context(sender [20]byte) vm.Context {
 		GasLimit:    uint64(b.GasLimit),
 		BlockNumber: new(big.Int).SetInt64(int64(*b.Number)),
 		Time:        new(big.Int).SetInt64(int64(b.Timestamp)),
+		GasPrice:    new(big.Int),
 		Difficulty:  new(big.Int).Set((*big.Int)(b.Difficulty)),
 	}
 }
@@ -934,6 +935,7 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	var addr common.Address
 	status := 1
 	vm := c.evm(*tx.From)
+	vm.Context.GasPrice.Set((*big.Int)(&tx.GasPrice))
 	if tx.To == nil {
 		ret, addr, gas, err = vm.Create(s2r(tx.From), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
 	} else {
-- 
2.43.0


From 6c98a4bf517a3b74b53f6cf1501e64f10738a1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:01 +0000
Subject: [PATCH 028/101] fix: tevm: subtracting more than the balance of an
 account panics instead of storing the difference

---
 tevm/evm.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index ed1ad40..417664a 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -28,6 +28,9 @@ func (a *Account) Balance() seth.Int {
 }
 
 func (a *Account) SetBalance(v *big.Int) {
+	if v.Sign() < 0 || v.BitLen() > 256 {
+		panic("tevm: balance out of range: " + v.String())
+	}
 	buf := v.Bytes()
 	for i := range a[:32-len(buf)] {
 		a[i] = 0
@@ -873,15 +876,15 @@ func (c *Chain) Sender(from *seth.Address) *seth.Sender {
 // SubBalance subtracts from the balance of an account.
 func (c *Chain) SubBalance(addr *seth.Address, v *big.Int) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.State.StateDB().SubBalance(common.Address(*addr), v)
-	c.mu.Unlock()
 }
 
 // AddBalance adds to the balance of an account.
 func (c *Chain) AddBalance(addr *seth.Address, v *big.Int) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.State.StateDB().AddBalance(common.Address(*addr), v)
-	c.mu.Unlock()
 }
 
 func (c *Chain) balanceOf(addr *seth.Address) *big.Int {
-- 
2.43.0


From 21c548070addf9041c16447fcd187544a9273e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 029/101] fix: tevm: a failed CreateAt has no effect

---
 tevm/evm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 417664a..7345521 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -799,6 +799,7 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	c.mu.Lock()
 
 	evm := c.evm(*sender)
+	snap := evm.StateDB.Snapshot()
 	evm.StateDB.CreateAccount(common.Address(*addr))
 	evm.StateDB.SetNonce(common.Address(*addr), 1)
 
@@ -810,6 +811,7 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	static := false
 	ret, err := evm.Interpreter().Run(contract, nil, static)
 	if err != nil {
+		evm.StateDB.RevertToSnapshot(snap)
 		c.mu.Unlock()
 		return err
 	}
-- 
2.43.0


From 0d90b52e93578f9aee0cc471aa4146300cc07105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 030/101] fix: tevm: every mined transaction takes a nonce of
 its sender

---
 tevm/evm.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 7345521..272c56e 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -941,14 +941,21 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	status := 1
 	vm := c.evm(*tx.From)
 	vm.Context.GasPrice.Set((*big.Int)(&tx.GasPrice))
+	nonce := vm.StateDB.GetNonce(common.Address(*tx.From))
+	tx.Nonce = seth.Uint64(nonce)
 	if tx.To == nil {
 		ret, addr, gas, err = vm.Create(s2r(tx.From), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
 	} else {
+		vm.StateDB.SetNonce(common.Address(*tx.From), nonce+1)
 		ret, gas, err = vm.Call(s2r(tx.From), common.Address(*tx.To), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
 	}
 
 	if err != nil {
 		status = 0
+		// creation may fail before it takes the nonce
+		if vm.StateDB.GetNonce(common.Address(*tx.From)) == nonce {
+			vm.StateDB.SetNonce(common.Address(*tx.From), nonce+1)
+		}
 	}
 
 	used := uint64(tx.Gas) - gas
-- 
2.43.0


From 2bf1b0abb471c7d05a9c47d01d3c1cb661e87f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:06 +0000
Subject: [PATCH 031/101] fix: tevm: a failed gas estimate has no effect

---
 tevm/transport.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 07249fa..6c218e0 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -411,6 +411,7 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 	// TODO: incorporate gas price
 	evm.Context.GasPrice = big.NewInt(0)
 	snap := evm.StateDB.Snapshot()
+	defer func() { evm.StateDB.RevertToSnapshot(snap) }()
 
 	gas := uint64(c.State.Pending.GasLimit)
 	if a.Gas != 0 {
@@ -431,8 +432,6 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 		gas -= rem
 	}
 
-	evm.StateDB.RevertToSnapshot(snap)
-
 	return seth.Uint64(gas), nil
 }
 
-- 
2.43.0


From 1f5a4c174d799172d56895801b18f1ee5987b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:06 +0000
Subject: [PATCH 032/101] fix: tevm: constant calls do not create accounts

---
 tevm/evm.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 272c56e..90e27fe 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -205,6 +205,10 @@ func (s *gethState) AddBalance(addr common.Address, v *big.Int) {
 	if s.Trace != nil {
 		s.Trace("AddBalance", addr.String(), v.String())
 	}
+	// constant calls add zero, and change nothing
+	if v.Sign() == 0 {
+		return
+	}
 	a := seth.Address(addr)
 	acct, _ := s.getAccount(&a)
 	bal := acct.Balance()
-- 
2.43.0


From 935de2bd542a518ec2aec1a1a7c6c351bc5db5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:06 +0000
Subject: [PATCH 033/101] fix: tevm: getting a block with its transactions does
 not change the pending block

---
 tevm/transport.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tevm/transport.go b/tevm/transport.go
index 6c218e0..d42763b 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -328,6 +328,9 @@ func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 	if !fulltx {
 		return b, nil
 	}
+	// b may be the pending block
+	bc := *b
+	b = &bc
 
 	// populate the block transactions appropriately
 	var txh seth.Hash
-- 
2.43.0


From 05157fc3f381ea72a02b71b086d03a24fe2f603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 034/101] fix: tevm: sealing a block on a view of an older
 block does not change the original chain

---
 tevm/evm.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 90e27fe..074010d 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -461,12 +461,14 @@ func (s *State) atSnap(n int, dst *State) {
 	ns := s.Snapshots[n]
 	dst.Fallback = s.Fallback
 	dst.Trace = s.Trace
-	dst.Refund = s.Refund
+	dst.Refund = ns.Refund
 	dst.Accounts = s.Accounts.CopyAt(ns.Accounts)
 	dst.Code = s.Code.CopyAt(ns.Code)
 	dst.Storage = s.Storage.CopyAt(ns.State)
 	dst.Transactions = s.Transactions.CopyAt(ns.TXs)
 	dst.Receipts = s.Receipts.CopyAt(ns.RXs)
+	dst.Preimage = s.Preimage.CopyAt(s.Preimage.Snapshot())
+	dst.Blocks = s.Blocks.CopyAt(s.Blocks.Snapshot())
 	// prevent any updates to this new state
 	// from clobbering the receiver
 	dst.Logs = s.Logs[:ns.LogLen:ns.LogLen]
@@ -596,7 +598,17 @@ func (c *Chain) AtBlock(n int64) *Chain {
 	c.State.atSnap(snap, &cc.State)
 	cc.Debugf = c.Debugf
 	cc.State.Pending = nb
-	cc.block2snap = c.block2snap
+	// the new chain has the blocks before n, and
+	// seals blocks of its own from n on
+	cc.block2snap = make(map[int64]int)
+	for num, s := range c.block2snap {
+		if num < n {
+			cc.block2snap[num] = s
+		} else {
+			h := n2h(uint64(num))
+			cc.State.Blocks.Delete(h[:])
+		}
+	}
 	return cc
 }
 
-- 
2.43.0


From b503605e9c09e44c5df15f811e65c831af20816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 035/101] fix: tevm: the copy of a chain has its blocks and
 pending receipts, and can be sealed

---
 tevm/evm.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 074010d..532b3c3 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -550,8 +550,21 @@ func (c *Chain) Copy() *Chain {
 	// and grab a logical copy of the snapshot
 	c.State.atSnap(((*gethState)(&c.State)).Snapshot(), &cc.State)
 
+	// sealing updates the pending block and its receipts
 	p := *c.State.Pending
+	num, hash := *p.Number, *p.Hash
+	p.Number, p.Hash = &num, &hash
+	p.Transactions = p.Transactions[:len(p.Transactions):len(p.Transactions)]
 	cc.State.Pending = &p
+	for _, rx := range c.pendingrx {
+		crx := *rx
+		cc.pendingrx = append(cc.pendingrx, &crx)
+	}
+	cc.block2snap = make(map[int64]int)
+	for num, snap := range c.block2snap {
+		cc.block2snap[num] = snap
+	}
+	cc.Debugf = c.Debugf
 	return cc
 }
 
-- 
2.43.0


From ab0e8133aece1875263c01c7240360b38f8d19d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 036/101] fix: tevm: a serialized chain keeps the receipts of
 its pending block

---
 tevm/evm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 532b3c3..af77abb 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -1065,7 +1065,8 @@ func (c *Chain) MarshalJSON() ([]byte, error) {
 	b, err := json.Marshal(&struct {
 		State      State
 		Block2snap map[int64]int
-	}{c.State, c.block2snap})
+		Pendingrx  []*seth.Receipt `json:",omitempty"`
+	}{c.State, c.block2snap, c.pendingrx})
 	c.mu.Unlock()
 	return b, err
 }
@@ -1075,6 +1076,7 @@ func (c *Chain) UnmarshalJSON(b []byte) error {
 	var s struct {
 		State      State
 		Block2snap map[int64]int
+		Pendingrx  []*seth.Receipt
 	}
 	if err := json.Unmarshal(b, &s); err != nil {
 		return err
@@ -1082,6 +1084,7 @@ func (c *Chain) UnmarshalJSON(b []byte) error {
 	c.mu.Lock()
 	c.State = s.State
 	c.block2snap = s.Block2snap
+	c.pendingrx = s.Pendingrx
 	c.mu.Unlock()
 	return nil
 }
-- 
2.43.0


From 390b3f26de7746a80dac96775465c45eb7bbf58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:01 +0000
Subject: [PATCH 037/101] fix: tevm: the first block of a fork has the hash of
 its number

---
 tevm/evm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index af77abb..49eb319 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -714,7 +714,9 @@ func NewFork(c *seth.Client, blocknum int64) *Chain {
 
 	// For convenience, start our chain at blocknum+1
 	n := seth.Uint64(blocknum + 1)
+	h := seth.Hash(n2h(uint64(n)))
 	chain.State.Pending.Number = &n
+	chain.State.Pending.Hash = &h
 
 	chain.State.Fallback.Client = c
 	chain.State.Fallback.Block = blocknum
-- 
2.43.0


From 118d6322b6ae3c5393e0498642a3f9a88c892d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:01 +0000
Subject: [PATCH 038/101] fix: tevm: the state does not keep addresses that
 belong to the caller

---
 tevm/evm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 49eb319..94bddd8 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -127,7 +127,9 @@ func (s *gethState) treeAccount(addr *seth.Address) (Account, bool) {
 }
 
 func (s *gethState) setAccount(addr *seth.Address, acct *Account) {
-	s.Accounts.Insert(addr[:], acct[:])
+	// the tree keeps the memory it is given
+	k, v := *addr, *acct
+	s.Accounts.Insert(k[:], v[:])
 }
 
 type statesnap struct {
-- 
2.43.0


From 19890d61c9792da9ea361f2e4c231da988b3c2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:02 +0000
Subject: [PATCH 039/101] fix: tevm: a contract of the forked chain exists even
 if its nonce and balance are zero

---
 tevm/evm.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 94bddd8..1d81ddf 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -178,7 +178,7 @@ func (s *gethState) getAccount(addr *seth.Address) (Account, bool) {
 	if err != nil {
 		panic("fallback GetNonce: " + err.Error())
 	}
-	if nonce == 0 && bal.IsZero() {
+	if nonce == 0 && bal.IsZero() && len(s.getCode(addr)) == 0 {
 		return acct, false
 	}
 
@@ -275,7 +275,10 @@ func (s *gethState) getCode(addr *seth.Address) []byte {
 		if s.Trace != nil {
 			s.Trace("Fallback GetCode", addr.String())
 		}
-		s.Code.Insert(addr[:], buf)
+		// remember that there is no code, too
+		buf = append([]byte{}, buf...)
+		k := *addr
+		s.Code.Insert(k[:], buf)
 	}
 	return buf
 }
@@ -385,7 +388,7 @@ func (s *gethState) Empty(addr common.Address) bool {
 	a := seth.Address(addr)
 	acct, ok := s.getAccount(&a)
 	bal := acct.Balance()
-	return !ok || (acct.Nonce() == 0 && bal.IsZero() && len(s.Code.Get(a[:])) == 0)
+	return !ok || (acct.Nonce() == 0 && bal.IsZero() && len(s.getCode(&a)) == 0)
 }
 
 func (s *gethState) Suicide(addr common.Address) bool {
-- 
2.43.0


From 0ce929af778640e7f8f1bd96ec85a3d581a69aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:02 +0000
Subject: [PATCH 040/101] fix: tevm: empty code takes precedence over the code
 of the forked chain

---
 tevm/evm.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 1d81ddf..86784b7 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -295,6 +295,10 @@ func (s *gethState) SetCode(addr common.Address, data []byte) {
 	if s.Trace != nil {
 		s.Trace("SetCode", addr.String(), data)
 	}
+	if data == nil {
+		// no code is not the code of the fallback chain
+		data = []byte{}
+	}
 	s.Code.Insert(addr[:], data)
 }
 
-- 
2.43.0


From 41fd7774fa2e078cb0a19c8a000638a528904a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:02 +0000
Subject: [PATCH 041/101] fix: tevm: a request that panics has no effect and
 does not block later ones

---
 tevm/evm.go       | 85 ++++++++++++++++++++++++++++++++---------------
 tevm/transport.go | 22 +++++++-----
 2 files changed, 71 insertions(+), 36 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 86784b7..e6a9c34 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -756,6 +756,21 @@ func (c *Chain) NewAccount(ether int) seth.Address {
 	return addr
 }
 
+// try runs fn, which has no effect on the state if it panics
+// (because the fallback chain could not be reached).
+func (c *Chain) try(fn func()) {
+	st := (*gethState)(&c.State)
+	snap := st.Snapshot()
+	done := false
+	defer func() {
+		if !done {
+			st.RevertToSnapshot(snap)
+		}
+	}()
+	fn()
+	done = true
+}
+
 func cantransfer(s vm.StateDB, addr common.Address, v *big.Int) bool {
 	return s.GetBalance(addr).Cmp(v) >= 0
 }
@@ -827,8 +842,12 @@ func (c *Chain) evm(sender [20]byte) *vm.EVM {
 // of the newly created contract.
 func (c *Chain) Create(sender *seth.Address, code []byte) (seth.Address, error) {
 	c.mu.Lock()
-	_, addr, _, err := c.evm(*sender).Create(s2r(sender), code, defaultGasLimit, &zero)
-	c.mu.Unlock()
+	defer c.mu.Unlock()
+	var addr common.Address
+	var err error
+	c.try(func() {
+		_, addr, _, err = c.evm(*sender).Create(s2r(sender), code, defaultGasLimit, &zero)
+	})
 	return seth.Address(addr), err
 }
 
@@ -837,9 +856,16 @@ func (c *Chain) Create(sender *seth.Address, code []byte) (seth.Address, error)
 // increment the sender nonce or enforce callstack limits.
 func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 
 	evm := c.evm(*sender)
 	snap := evm.StateDB.Snapshot()
+	done := false
+	defer func() {
+		if !done {
+			evm.StateDB.RevertToSnapshot(snap)
+		}
+	}()
 	evm.StateDB.CreateAccount(common.Address(*addr))
 	evm.StateDB.SetNonce(common.Address(*addr), 1)
 
@@ -851,14 +877,11 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	static := false
 	ret, err := evm.Interpreter().Run(contract, nil, static)
 	if err != nil {
-		evm.StateDB.RevertToSnapshot(snap)
-		c.mu.Unlock()
 		return err
 	}
 
 	evm.StateDB.SetCode(common.Address(*addr), ret)
-
-	c.mu.Unlock()
+	done = true
 
 	return nil
 }
@@ -870,8 +893,12 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 // 'sig' must be in the canonical method signature encoding.
 func (c *Chain) Call(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, error) {
 	c.mu.Lock()
-	ret, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit, &zero)
-	c.mu.Unlock()
+	defer c.mu.Unlock()
+	var ret []byte
+	var err error
+	c.try(func() {
+		ret, _, err = c.evm(*sender).Call(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit, &zero)
+	})
 	return ret, err
 }
 
@@ -879,24 +906,27 @@ func (c *Chain) Call(sender, dst *seth.Address, sig string, args ...seth.EtherTy
 // the pending block without comitting the state changes to the chain.
 func (c *Chain) StaticCall(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, error) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	ret, _, err := c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit)
-	c.mu.Unlock()
 	return ret, err
 }
 
 // EstimateGas estimates the amount of gas that the given transaction will use.
 func (c *Chain) EstimateGas(sender, dst *seth.Address, sig string, args ...seth.EtherType) (uint64, error) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_, left, err := c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit)
-	c.mu.Unlock()
 	return defaultGasLimit - left, err
 }
 
 // Send creates a transaction that sends ether from one address to another.
 func (c *Chain) Send(sender, dst *seth.Address, value *big.Int) error {
 	c.mu.Lock()
-	_, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), nil, defaultGasLimit, value)
-	c.mu.Unlock()
+	defer c.mu.Unlock()
+	var err error
+	c.try(func() {
+		_, _, err = c.evm(*sender).Call(s2r(sender), common.Address(*dst), nil, defaultGasLimit, value)
+	})
 	return err
 }
 
@@ -938,9 +968,8 @@ func (c *Chain) balanceOf(addr *seth.Address) *big.Int {
 // BalanceOf returns the balance of an address, in Wei.
 func (c *Chain) BalanceOf(addr *seth.Address) *big.Int {
 	c.mu.Lock()
-	b := c.balanceOf(addr)
-	c.mu.Unlock()
-	return b
+	defer c.mu.Unlock()
+	return c.balanceOf(addr)
 }
 
 func encode(v msgp.Marshaler) []byte {
@@ -983,20 +1012,22 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	vm.Context.GasPrice.Set((*big.Int)(&tx.GasPrice))
 	nonce := vm.StateDB.GetNonce(common.Address(*tx.From))
 	tx.Nonce = seth.Uint64(nonce)
-	if tx.To == nil {
-		ret, addr, gas, err = vm.Create(s2r(tx.From), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
-	} else {
-		vm.StateDB.SetNonce(common.Address(*tx.From), nonce+1)
-		ret, gas, err = vm.Call(s2r(tx.From), common.Address(*tx.To), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
-	}
-
-	if err != nil {
-		status = 0
-		// creation may fail before it takes the nonce
-		if vm.StateDB.GetNonce(common.Address(*tx.From)) == nonce {
+	c.try(func() {
+		if tx.To == nil {
+			ret, addr, gas, err = vm.Create(s2r(tx.From), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
+		} else {
 			vm.StateDB.SetNonce(common.Address(*tx.From), nonce+1)
+			ret, gas, err = vm.Call(s2r(tx.From), common.Address(*tx.To), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
 		}
-	}
+
+		if err != nil {
+			status = 0
+			// creation may fail before it takes the nonce
+			if vm.StateDB.GetNonce(common.Address(*tx.From)) == nonce {
+				vm.StateDB.SetNonce(common.Address(*tx.From), nonce+1)
+			}
+		}
+	})
 
 	used := uint64(tx.Gas) - gas
 	b.GasUsed += seth.Uint64(used)
diff --git a/tevm/transport.go b/tevm/transport.go
index d42763b..29c7ce8 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -93,23 +93,27 @@ func (c *Chain) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
 		c.Debugf("request:\n%s\n", pretty(req))
 	}
 
+	err := c.respond(req, res)
+
+	if c.Debugf != nil {
+		c.Debugf("response:\n%s\n", pretty(res))
+	}
+	return err
+}
+
+func (c *Chain) respond(req *seth.RPCRequest, res *seth.RPCResponse) error {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	ret, err := c.execute(req.Method, req.Params)
-	c.mu.Unlock()
 	if err != nil {
 		res.Result = nil
 		res.Error.Code = -32601
 		res.Error.Message = err.Error()
 		res.Error.Data = nil
-		err = nil
-	} else {
-		err = gross(ret, &res.Result)
-	}
-
-	if c.Debugf != nil {
-		c.Debugf("response:\n%s\n", pretty(res))
+		return nil
 	}
-	return err
+	// the result may be part of the state
+	return gross(ret, &res.Result)
 }
 
 func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, error) {
-- 
2.43.0


From b050245a8c2b2ada6ac279d0b6803228a2471fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:03 +0000
Subject: [PATCH 042/101] fix: tevm: every method of Chain takes its lock

---
 tevm/evm.go       | 24 ++++++++++++++++++++++++
 tevm/transport.go | 10 +++++-----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index e6a9c34..a6a8303 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -553,6 +553,8 @@ func (f *filter) matches(log *types.Log) bool {
 // Copy returns a new logical copy of the chain.
 // Copy avoids making a deep copy of the state.
 func (c *Chain) Copy() *Chain {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	cc := new(Chain)
 
 	// snapshot the current chain state
@@ -583,6 +585,12 @@ func (c *Chain) Copy() *Chain {
 // and -2 is interpreted as the latest block (i.e. the
 // chain state just before the pending block).
 func (c *Chain) AtBlock(n int64) *Chain {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.atBlock(n)
+}
+
+func (c *Chain) atBlock(n int64) *Chain {
 	var snap int
 	pending := int64(*c.State.Pending.Number)
 	switch n {
@@ -667,6 +675,8 @@ func lconv(l []*types.Log) []seth.Log {
 // the returned log values do not include logs
 // from that fallback chain.
 func (c *Chain) Logs() []seth.Log {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	return lconv(c.State.Logs)
 }
 
@@ -735,6 +745,8 @@ func NewFork(c *seth.Client, blocknum int64) *Chain {
 // NewAccount creates a new account with some ether in it.
 // The balance of the new account will be 'ether' * 10**18
 func (c *Chain) NewAccount(ether int) seth.Address {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	var addr seth.Address
 	rand.Read(addr[:])
 	if ether == 0 {
@@ -995,6 +1007,12 @@ func pretty(v interface{}) []byte {
 // rather than offering all of the gas in the block to the transaction,
 // which more faithfully mimics the behavior of an actual ethereum node.
 func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.mine(tx)
+}
+
+func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error) {
 	b := c.State.Pending
 
 	// make up a tx hash:
@@ -1073,6 +1091,12 @@ func js(v interface{}) []byte {
 // same parameters (but with an update block number and hash,
 // and zeroed gas used).
 func (c *Chain) Seal() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.seal()
+}
+
+func (c *Chain) seal() {
 	b := c.State.Pending
 
 	// for all transactions in the block,
diff --git a/tevm/transport.go b/tevm/transport.go
index 29c7ce8..540f74c 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -295,7 +295,7 @@ func (c *Chain) deleteFilter(fd int) (bool, error) {
 
 // staticCall handles eth_call.
 func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
-	c = c.AtBlock(blocknum)
+	c = c.atBlock(blocknum)
 	if c == nil {
 		return nil, fmt.Errorf("unknown block number %d", blocknum)
 	}
@@ -361,12 +361,12 @@ func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 
 // send handles eth_sendTransaction
 func (c *Chain) send(a *seth.Transaction) (*seth.Hash, error) {
-	_, h, err := c.Mine(a)
+	_, h, err := c.mine(a)
 	if err != nil {
 		return nil, err
 	}
 	// For now, 1 tx per block.
-	c.Seal()
+	c.seal()
 	return &h, nil
 }
 
@@ -400,7 +400,7 @@ func (c *Chain) transaction(h seth.Hash) (*seth.Transaction, error) {
 
 // balance handles eth_getBalance.
 func (c *Chain) balance(addr *seth.Address, block int64) (*seth.Int, error) {
-	c = c.AtBlock(block)
+	c = c.atBlock(block)
 	if c == nil {
 		return nil, fmt.Errorf("unknown block number %d", block)
 	}
@@ -409,7 +409,7 @@ func (c *Chain) balance(addr *seth.Address, block int64) (*seth.Int, error) {
 
 // estimate handles eth_estimateGas.
 func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
-	c = c.AtBlock(blocknum)
+	c = c.atBlock(blocknum)
 	if c == nil {
 		return 0, fmt.Errorf("unknown block number %d", blocknum)
 	}
-- 
2.43.0


From 5178cf1060ae23a37de23e50b0b5565286330cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 043/101] fix: tevm: parse hexadecimal block numbers, and
 refuse malformed parameters

---
 tevm/transport.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 540f74c..d92b740 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -9,6 +9,7 @@ import (
 	"math/big"
 	"net/http"
 	"strconv"
+	"strings"
 
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/core/vm"
@@ -50,8 +51,13 @@ func (b *blocknum) UnmarshalJSON(buf []byte) error {
 	case bytes.Equal(rawearliest, buf):
 		*b = 0
 	default:
-		// should be an integer
-		i, err := strconv.ParseInt(string(buf), 10, 64)
+		// should be an integer, or a
+		// string with a hexadecimal one
+		s, base := string(buf), 10
+		if len(s) > 4 && strings.HasPrefix(s, `"0x`) && s[len(s)-1] == '"' {
+			s, base = s[3:len(s)-1], 16
+		}
+		i, err := strconv.ParseInt(s, base, 64)
 		if err != nil {
 			return err
 		}
@@ -447,7 +453,9 @@ func marshal(from []json.RawMessage, to ...interface{}) error {
 		return fmt.Errorf("expected %d params; found %d", len(to), len(from))
 	}
 	for i := range from {
-		gross(from[i], to[i])
+		if err := gross(from[i], to[i]); err != nil {
+			return fmt.Errorf("param %d: %s", i, err)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From bde77f0288bb034b303c45280bffcf864ef3df79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:38 +0000
Subject: [PATCH 044/101] fix: tevm: blocks by number are sealed blocks, and
 latest and pending name a block

---
 tevm/transport.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index d92b740..c67bb82 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -144,7 +144,8 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 		if err := marshal(params); err != nil {
 			return nil, err
 		}
-		return c.State.Pending.Number, nil
+		// the most recent block; the pending block is not sealed yet
+		return seth.Uint64(*c.State.Pending.Number - 1), nil
 	case "eth_call":
 		tx := new(callArgs)
 		if err := marshal(params, tx, &b); err != nil {
@@ -189,14 +190,15 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 		}
 		return c.getBlock(&h, all)
 	case "eth_getBlockByNumber":
-		var n seth.Int
 		var all bool
-		if err := marshal(params, &n, &all); err != nil {
+		if err := marshal(params, &b, &all); err != nil {
 			return nil, err
 		}
-		// hack: block hashes are hashes of the block number
-		h := seth.Hash(n2h(uint64(n.Int64())))
-		return c.getBlock(&h, all)
+		h, err := c.blockHash(int64(b))
+		if err != nil {
+			return nil, err
+		}
+		return c.getBlock(h, all)
 	case "eth_newFilter":
 		type newFilterReq struct {
 			FromBlock blocknum      `json:"fromBlock,omitempty"`
@@ -321,6 +323,27 @@ func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
 	return seth.Data(ret), nil
 }
 
+// blockHash returns the hash of a sealed block, of the
+// pending block (-1) or of the latest block (-2). The pending
+// block does not have a number until it is sealed, so that clients
+// which follow the chain do not see a block before it is complete.
+func (c *Chain) blockHash(n int64) (*seth.Hash, error) {
+	latest := int64(*c.State.Pending.Number) - 1
+	_, sealed := c.block2snap[latest]
+	if n == -1 || n == -2 && !sealed {
+		return c.State.Pending.Hash, nil
+	}
+	if n == -2 {
+		n = latest
+	}
+	if _, ok := c.block2snap[n]; !ok {
+		return nil, fmt.Errorf("unknown block number %d", n)
+	}
+	// hack: block hashes are hashes of the block number
+	h := seth.Hash(n2h(uint64(n)))
+	return &h, nil
+}
+
 func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 	var b *seth.Block
 	if bytes.Equal(h[:], c.State.Pending.Hash[:]) {
-- 
2.43.0


From ac9bbf18d9b5bcdfa73e8f9b974211905a7a05e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:38 +0000
Subject: [PATCH 045/101] fix: tevm: receipts have the number of their block

---
 tevm/evm.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index a6a8303..7dbc9c0 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -1060,12 +1060,14 @@ func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	}
 
 	rx := &seth.Receipt{
-		Hash:       tx.Hash,
-		Index:      *tx.TxIndex,
-		GasUsed:    seth.Uint64(used),
-		Cumulative: b.GasUsed,
-		Logs:       lconv(c.State.Logs[l0:]),
-		Status:     seth.Uint64(status),
+		Hash:        tx.Hash,
+		Index:       *tx.TxIndex,
+		BlockHash:   *b.Hash,
+		BlockNumber: *b.Number,
+		GasUsed:     seth.Uint64(used),
+		Cumulative:  b.GasUsed,
+		Logs:        lconv(c.State.Logs[l0:]),
+		Status:      seth.Uint64(status),
 	}
 	if tx.To == nil {
 		rx.Address = new(seth.Address)
-- 
2.43.0


From 146d9037cfd317a4fdc81c24f4d82ed96b2ae031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:38 +0000
Subject: [PATCH 046/101] fix: tevm: logs have the hash of their block, their
 index and that of their transaction

---
 tevm/evm.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 7dbc9c0..f5355d1 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -488,6 +488,12 @@ func (s *gethState) AddLog(l *types.Log) {
 	if s.Trace != nil {
 		s.Trace("AddLog", l)
 	}
+	if s.Pending != nil && s.Pending.Hash != nil {
+		l.BlockHash = common.Hash(*s.Pending.Hash)
+	}
+	if n := len(s.Logs); n > 0 && s.Logs[n-1].BlockNumber == l.BlockNumber {
+		l.Index = s.Logs[n-1].Index + 1
+	}
 	s.Logs = append(s.Logs, l)
 }
 
@@ -1057,6 +1063,7 @@ func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 
 	for _, l := range c.State.Logs[l0:] {
 		copy(l.TxHash[:], tx.Hash[:])
+		l.TxIndex = uint(*tx.TxIndex)
 	}
 
 	rx := &seth.Receipt{
-- 
2.43.0


From 0eb5a1b0f3d0cb7802f2ba21254697be05bf810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 047/101] fix: tevm: filters yield each new log once, and start
 at the block they name

---
 tevm/transport.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index c67bb82..a311eed 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -206,7 +206,7 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 			Address   *seth.Address `json:"address,omitempty"`
 			Topics    []*seth.Hash  `json:"topics,omitempty"`
 		}
-		req := new(newFilterReq)
+		req := &newFilterReq{FromBlock: -2, ToBlock: -2}
 		if err := marshal(params, req); err != nil {
 			return nil, err
 		}
@@ -235,7 +235,7 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 }
 
 func (c *Chain) newFilter(from, to blocknum, addr *seth.Address, topics []*seth.Hash) (int, error) {
-	if from > to {
+	if from >= 0 && to >= 0 && from > to {
 		return 0, fmt.Errorf("cannot filter block range [%d,%d)", from, to)
 	}
 	c.filtcount++
@@ -247,6 +247,8 @@ func (c *Chain) newFilter(from, to blocknum, addr *seth.Address, topics []*seth.
 		to:     to,
 		addr:   addr,
 		topics: topics,
+		// changes are the logs from now on
+		lastlog: len(c.State.Logs),
 	}
 	return c.filtcount, nil
 }
@@ -262,6 +264,15 @@ func (c *Chain) filterLogs(fd int) ([]seth.Log, error) {
 		return nil, fmt.Errorf("bad filter id %d", fd)
 	}
 
+	// start from the latest or pending block, if the filter does
+	f := *filt
+	filt = &f
+	if filt.from == -1 {
+		filt.from = blocknum(*c.State.Pending.Number)
+	} else if filt.from == -2 {
+		filt.from = blocknum(*c.State.Pending.Number) - 1
+	}
+
 	out := make([]seth.Log, 0)
 	for i := range c.State.Logs {
 		if filt.matches(c.State.Logs[i]) {
-- 
2.43.0


From 47931488178bf93e31e364b2fbcc6398bc8e9271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:18 +0000
Subject: [PATCH 048/101] fix: tevm: deserializing a chain drops the filters of
 the state it replaces

---
 tevm/evm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index f5355d1..8614ecd 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -1160,6 +1160,7 @@ func (c *Chain) UnmarshalJSON(b []byte) error {
 	c.State = s.State
 	c.block2snap = s.Block2snap
 	c.pendingrx = s.Pendingrx
+	c.filters = nil // they are about the state that was replaced
 	c.mu.Unlock()
 	return nil
 }
-- 
2.43.0


From 8f7572a870114971a1ee3bdbd6388c0a733de2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 049/101] fix: tevm: a negative value cannot be transferred

---
 tevm/evm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 8614ecd..128690e 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -790,7 +790,7 @@ func (c *Chain) try(fn func()) {
 }
 
 func cantransfer(s vm.StateDB, addr common.Address, v *big.Int) bool {
-	return s.GetBalance(addr).Cmp(v) >= 0
+	return v.Sign() >= 0 && s.GetBalance(addr).Cmp(v) >= 0
 }
 
 func dotransfer(s vm.StateDB, from, to common.Address, v *big.Int) {
-- 
2.43.0


From d9d29677317a28d9fd912e2122a5db246bf1625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:00 +0000
Subject: [PATCH 050/101] fix: compile: file names and sources are in the order
 of the file IDs

The number of files was taken from the files that have contracts, which
panicked or dropped files as soon as one had none or was imported, and
the sources were filled in by position.
---
 compile.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/compile.go b/compile.go
index ce1bc72..362b39d 100644
--- a/compile.go
+++ b/compile.go
@@ -249,15 +249,19 @@ func h2b(s string) []byte {
 }
 
 func (s *solcout) toBundle() *CompiledBundle {
-	nc := 0
-	for _, cs := range s.Contracts {
-		nc += len(cs)
+	// IDs belong to all the source files the compiler
+	// has seen, including ones without contracts and
+	// ones that were imported
+	nf := 0
+	for _, id := range s.Sources {
+		if id.ID >= nf {
+			nf = id.ID + 1
+		}
 	}
 	b := &CompiledBundle{
-		Filenames: make([]string, len(s.Contracts)),
-		Sources:   make([]string, len(s.Contracts)),
+		Filenames: make([]string, nf),
+		Sources:   make([]string, nf),
 	}
-	// XXX: assume IDs are 0-indexed...
 	for name, id := range s.Sources {
 		b.Filenames[id.ID] = name
 	}
@@ -435,8 +439,8 @@ func compile(sources []Source) (*CompiledBundle, error) {
 			b.Warnings = append(b.Warnings, jsout.Errors[i].FormattedMessage)
 		}
 	}
-	for i := range b.Sources {
-		b.Sources[i] = sources[i].Body
+	for i, name := range b.Filenames {
+		b.Sources[i] = blob.Sources[name].Content
 	}
 	return b, nil
 }
-- 
2.43.0


From 6af3650e9e98d4fb4108e8502e6af275ef8d9fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:01 +0000
Subject: [PATCH 051/101] fix: compile: the contracts of a bundle come in a
 fixed order

They were in the order of a map iteration, so that compiling the same
sources twice gave different bundles, and Contract() could return either
of two contracts that have the same name in different files.
---
 compile.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index 362b39d..fa3273f 100644
--- a/compile.go
+++ b/compile.go
@@ -265,8 +265,15 @@ func (s *solcout) toBundle() *CompiledBundle {
 	for name, id := range s.Sources {
 		b.Filenames[id.ID] = name
 	}
-	for _, contracts := range s.Contracts {
-		for contract, out := range contracts {
+	for _, name := range b.Filenames {
+		contracts := s.Contracts[name]
+		names := make([]string, 0, len(contracts))
+		for contract := range contracts {
+			names = append(names, contract)
+		}
+		sort.Strings(names)
+		for _, contract := range names {
+			out := contracts[contract]
 			b.Contracts = append(b.Contracts, CompiledContract{
 				Name:      contract,
 				Code:      h2b(out.EVM.Bytecode.Object),
-- 
2.43.0


From 516e69d06f89743c8c524b343039d22061d345cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:01 +0000
Subject: [PATCH 052/101] fix: compile: contracts that are not linked yield an
 error, not a panic

---
 compile.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/compile.go b/compile.go
index fa3273f..6a441de 100644
--- a/compile.go
+++ b/compile.go
@@ -240,15 +240,7 @@ func (c *CompiledBundle) Contract(name string) *CompiledContract {
 	return nil
 }
 
-func h2b(s string) []byte {
-	bits, err := hex.DecodeString(s)
-	if err != nil {
-		panic(err)
-	}
-	return bits
-}
-
-func (s *solcout) toBundle() *CompiledBundle {
+func (s *solcout) toBundle() (*CompiledBundle, error) {
 	// IDs belong to all the source files the compiler
 	// has seen, including ones without contracts and
 	// ones that were imported
@@ -274,15 +266,20 @@ func (s *solcout) toBundle() *CompiledBundle {
 		sort.Strings(names)
 		for _, contract := range names {
 			out := contracts[contract]
+			code, err := hex.DecodeString(out.EVM.Bytecode.Object)
+			if err != nil {
+				// not linked, for instance
+				return nil, fmt.Errorf("bytecode of contract %q: %s", contract, err)
+			}
 			b.Contracts = append(b.Contracts, CompiledContract{
 				Name:      contract,
-				Code:      h2b(out.EVM.Bytecode.Object),
+				Code:      code,
 				Sourcemap: out.EVM.Bytecode.Sourcemap,
 				ABI:       out.ABI,
 			})
 		}
 	}
-	return b
+	return b, nil
 }
 
 // SourceOf returns the source line (text) of the given pc.
@@ -440,7 +437,10 @@ func compile(sources []Source) (*CompiledBundle, error) {
 	if err := compileError(jsout.Errors); err != nil {
 		return nil, fmt.Errorf("solc compilation error: %s", err)
 	}
-	b := jsout.toBundle()
+	b, err := jsout.toBundle()
+	if err != nil {
+		return nil, err
+	}
 	for i := range jsout.Errors {
 		if jsout.Errors[i].Type == "Warning" {
 			b.Warnings = append(b.Warnings, jsout.Errors[i].FormattedMessage)
-- 
2.43.0


From ff268437fa88d20b4ff258e7954f26741a9e55b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 053/101] fix: compile: different sources do not share a cache
 entry

The names and the bodies were hashed one after the other without anything
between them, so that moving code from the end of one file to the start
of the next one returned the bundle of the old files.
---
 compile.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/compile.go b/compile.go
index 6a441de..ac638f0 100644
--- a/compile.go
+++ b/compile.go
@@ -7,7 +7,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"hash"
-	"io"
 	"io/ioutil"
 	"os"
 	"os/exec"
@@ -317,14 +316,18 @@ func short(h hash.Hash) string {
 }
 
 func cachename(sources []Source) string {
-	sort.Slice(sources, func(i, j int) bool {
+	sources = append([]Source(nil), sources...)
+	sort.SliceStable(sources, func(i, j int) bool {
 		return sources[i].Filename < sources[j].Filename
 	})
 	h0 := keccak.New256()
 	h1 := keccak.New256()
 	for i := range sources {
-		io.WriteString(h0, sources[i].Filename)
-		io.WriteString(h1, sources[i].Body)
+		// the lengths keep apart sources that
+		// differ only in where one string ends
+		// and the next one begins
+		fmt.Fprintf(h0, "%d:%s", len(sources[i].Filename), sources[i].Filename)
+		fmt.Fprintf(h1, "%d:%s", len(sources[i].Body), sources[i].Body)
 	}
 	// filename is 'name hash'-'content hash'.bundle
 	// so that we can to a quick glob search to remove
-- 
2.43.0


From 7effa4ef650c1da68acf929b9a341ed33112e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 054/101] fix: compile: another version of the compiler does
 not use the old cache entry

---
 compile.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index ac638f0..7cd1ebf 100644
--- a/compile.go
+++ b/compile.go
@@ -315,13 +315,24 @@ func short(h hash.Hash) string {
 	return hex.EncodeToString(h.Sum(nil))[:12]
 }
 
-func cachename(sources []Source) string {
+// compilerVersion identifies the compiler,
+// or is empty if there is none.
+func compilerVersion() string {
+	out, err := exec.Command("solc", "--version").Output()
+	if err != nil {
+		return ""
+	}
+	return string(out)
+}
+
+func cachename(sources []Source, version string) string {
 	sources = append([]Source(nil), sources...)
 	sort.SliceStable(sources, func(i, j int) bool {
 		return sources[i].Filename < sources[j].Filename
 	})
 	h0 := keccak.New256()
 	h1 := keccak.New256()
+	fmt.Fprintf(h1, "%d:%s", len(version), version)
 	for i := range sources {
 		// the lengths keep apart sources that
 		// differ only in where one string ends
@@ -383,7 +394,7 @@ func writeCache(name string, bundle *CompiledBundle) {
 
 // Compile sources into a bundle with caching.
 func Compile(sources []Source) (*CompiledBundle, error) {
-	cn := cachename(sources)
+	cn := cachename(sources, compilerVersion())
 	if bundle, ok := cachedBundle(cn); ok {
 		return bundle, nil
 	}
-- 
2.43.0


From e9eeba9717914d8a9d1571fe21d0e159cb3ddaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:03 +0000
Subject: [PATCH 055/101] fix: compile: cleaning up stale cache entries removes
 nothing else

The pattern was cut at the first '-' of the whole path, so that with a
temporary directory such as /tmp/my-dir every file /tmp/my-* was removed,
and characters of the path were taken as wildcards.
---
 compile.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/compile.go b/compile.go
index 7cd1ebf..f836bdc 100644
--- a/compile.go
+++ b/compile.go
@@ -351,12 +351,15 @@ func cachedBundle(name string) (*CompiledBundle, bool) {
 	f, err := os.Open(name)
 	if err != nil {
 		// let's look for stale builds and clean them up
-		i := strings.IndexByte(name, '-')
-		if i != -1 && i != len(name)-1 {
-			all, err := filepath.Glob(name[:i+1] + "*")
+		dir, base := filepath.Split(name)
+		i := strings.IndexByte(base, '-')
+		if i != -1 && i != len(base)-1 {
+			all, err := ioutil.ReadDir(dir)
 			if err == nil {
-				for i := range all {
-					os.Remove(all[i])
+				for _, fi := range all {
+					if strings.HasPrefix(fi.Name(), base[:i+1]) && filepath.Ext(fi.Name()) == ".bundle" {
+						os.Remove(filepath.Join(dir, fi.Name()))
+					}
 				}
 			}
 		}
-- 
2.43.0


From 382f2eb349e3a4a1303da37be3db9bdce746c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 056/101] fix: compile: a damaged cache entry is not used

Decoding could stop before the end of the compressed data, so that its
checksum was never compared.
---
 compile.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index f836bdc..bfe173c 100644
--- a/compile.go
+++ b/compile.go
@@ -371,8 +371,13 @@ func cachedBundle(name string) (*CompiledBundle, bool) {
 	if err != nil {
 		return nil, false
 	}
-	d := msgp.NewReader(r)
-	if err := b.DecodeMsg(d); err != nil {
+	// read all of it first, since the checksum
+	// is at the end
+	body, err := ioutil.ReadAll(r)
+	if err != nil {
+		return nil, false
+	}
+	if rest, err := b.UnmarshalMsg(body); err != nil || len(rest) > 0 {
 		return nil, false
 	}
 	return b, true
-- 
2.43.0


From e3d9b77810af9b4d59bd5058b3d47456cf14fee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 057/101] fix: compile: source positions after PUSH
 instructions

The immediate data was taken for instructions of its own, and its width
was off by six, so that every position after the first PUSH was wrong.
---
 compile.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index bfe173c..a0ff723 100644
--- a/compile.go
+++ b/compile.go
@@ -168,12 +168,15 @@ func (c *CompiledContract) pc2info(pc int) *srcinfo {
 func (c *CompiledContract) compilePos() {
 	opnum := 0
 	var out []int
-	for i := range c.Code {
+	for i := 0; i < len(c.Code); i++ {
 		width := 0
 		b := c.Code[i]
 		out = append(out, opnum)
 		if b >= 0x60 && b < 0x80 {
-			width = int(b - 0x59)
+			width = int(b - 0x5f)
+			if rest := len(c.Code) - i - 1; width > rest {
+				width = rest
+			}
 		}
 		// for multi-byte instructions,
 		// any pc that points into the instruction
@@ -181,6 +184,7 @@ func (c *CompiledContract) compilePos() {
 		for j := 0; j < width; j++ {
 			out = append(out, opnum)
 		}
+		i += width
 		opnum++
 	}
 	c.pos = out
-- 
2.43.0


From 98776f43e80550dba03e2e7b058e302150e68845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 058/101] fix: compile: positions without a source do not panic

The compiler marks code that belongs to no file with the file ID -1.
---
 compile.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index a0ff723..6ae5f5c 100644
--- a/compile.go
+++ b/compile.go
@@ -155,7 +155,7 @@ func mustint(s string) int {
 }
 
 func (c *CompiledContract) pc2info(pc int) *srcinfo {
-	if pc >= len(c.pos) {
+	if pc < 0 || pc >= len(c.pos) {
 		return nil
 	}
 	n := c.pos[pc]
@@ -298,7 +298,14 @@ func (b *CompiledBundle) SourceOf(c *CompiledContract, pc int) string {
 	if info == nil {
 		return ""
 	}
-	return b.Sources[info.f][info.s : info.s+info.l]
+	if info.f < 0 || info.f >= len(b.Sources) {
+		return "" // code without a source
+	}
+	src := b.Sources[info.f]
+	if info.s < 0 || info.s > len(src) || info.l < 0 || info.l > len(src)-info.s {
+		return ""
+	}
+	return src[info.s : info.s+info.l]
 }
 
 func compileError(errors []solcerror) error {
-- 
2.43.0


From f3e6e4382f56ac3b266e6c6bed29bc7bea255160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 059/101] fix: compile: read source map entries with a fifth
 field

They were taken for repetitions of the entry before.
---
 compile.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compile.go b/compile.go
index 6ae5f5c..34265c5 100644
--- a/compile.go
+++ b/compile.go
@@ -199,6 +199,8 @@ func (c *CompiledContract) compileSourcemap() {
 		}
 		sections := strings.Split(ops[i], ":")
 		switch len(sections) {
+		default: // newer compilers append a modifier depth
+			fallthrough
 		case 4:
 			if len(sections[3]) > 0 {
 				out[i].j = sections[3][0]
-- 
2.43.0


From eba0632e9b2a3af3879ca05db10172a957857fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 060/101] fix: bindgen: types of arguments and results

Bytes, strings, byte arrays, other integer widths and other arrays had the
Go type seth.Data, which as an argument does not compile, and as a result
is decoded to something else for arrays. Types that the library cannot
encode or decode are refused.
---
 bindgen/main.go | 97 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 76 insertions(+), 21 deletions(-)

diff --git a/bindgen/main.go b/bindgen/main.go
index f3c9f4b..67fcecb 100644
--- a/bindgen/main.go
+++ b/bindgen/main.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"io/ioutil"
 	"os"
+	"strconv"
 	"strings"
 
 	"github.com/philhofer/seth"
@@ -102,44 +103,98 @@ func main() {
 	f.Close()
 }
 
+// width returns N if a is the prefix followed
+// by N and N is the width of a solidity type
+func width(a, prefix string, step, max int) (int, bool) {
+	if !strings.HasPrefix(a, prefix) {
+		return 0, false
+	}
+	n, err := strconv.Atoi(a[len(prefix):])
+	if err != nil || n <= 0 || n > max || n%step != 0 {
+		return 0, false
+	}
+	return n, true
+}
+
+func isuint(a string) bool {
+	_, ok := width(a, "uint", 8, 256)
+	return ok || a == "uint"
+}
+
+func isint(a string) bool {
+	_, ok := width(a, "int", 8, 256)
+	return ok || a == "int"
+}
+
+func isfixed(a string) bool {
+	_, ok := width(a, "bytes", 1, 32)
+	return ok
+}
+
+// typeconv returns the Go type of an argument
+// of the given type, or fails if there is none
 func typeconv(a string) string {
-	switch a {
-	case "bool", "int8", "int16", "int32", "int64",
-		"uint8", "uint16", "uint32", "uint64":
-		fallthrough
-	case "int", "uint", "uint128", "uint256":
+	elem := strings.TrimSuffix(a, "[]")
+	array := elem != a
+	switch {
+	case elem == "bool", isint(elem), isuint(elem):
+		if array {
+			return "*seth.IntSlice"
+		}
 		return "*seth.Int"
-	case "address":
+	case elem == "address":
+		if array {
+			return "*seth.AddrSlice"
+		}
 		return "*seth.Address"
-	case "address[]":
-		return "*seth.AddrSlice"
-	case "uint256[]":
-		return "*seth.IntSlice"
-	default:
-		return "seth.Data"
+	case isfixed(elem):
+		if array {
+			return "*seth.DataSlice"
+		}
+		return "*seth.Data"
+	case a == "bytes", a == "string":
+		return "*seth.Bytes"
 	}
+	fatal("arguments of type " + a + " are not supported")
+	return ""
 }
 
+// rettype returns the Go type of a result
+// of the given type, or fails if there is none
 func rettype(a string) string {
+	elem := strings.TrimSuffix(a, "[]")
+	array := elem != a
 	switch a {
 	case "bool", "int8", "int16", "int32", "int64",
 		"uint8", "uint16", "uint32", "uint64":
 		return a
-	case "int", "uint", "uint128", "uint256":
-		return "seth.Int"
-	case "address":
-		return "seth.Address"
-	case "address[]":
-		return "seth.AddrSlice"
-	case "uint256[]":
-		return "seth.IntSlice"
 	case "string":
 		return "string"
 	case "bytes":
 		return "[]byte"
-	default:
+	}
+	switch {
+	case elem == "bool", isuint(elem):
+		if array {
+			return "seth.IntSlice"
+		}
+		return "seth.Int"
+	case elem == "address":
+		if array {
+			return "seth.AddrSlice"
+		}
+		return "seth.Address"
+	case isfixed(elem), isint(elem):
+		// signed integers that do not fit into a
+		// Go type are returned as they are, since
+		// seth.Int is decoded as unsigned
+		if array {
+			return "seth.DataSlice"
+		}
 		return "seth.Data"
 	}
+	fatal("results of type " + a + " are not supported")
+	return ""
 }
 
 func deref(v string) string {
-- 
2.43.0


From 4dc63e82e0dc32253c2d4b283e42b149bc7c8e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 061/101] fix: bindgen: refuse contracts whose bindings would
 declare a name twice

Overloaded functions, and contracts with names such as A and NewA, gave
code that does not compile.
---
 bindgen/main.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/bindgen/main.go b/bindgen/main.go
index 67fcecb..e2609db 100644
--- a/bindgen/main.go
+++ b/bindgen/main.go
@@ -204,8 +204,27 @@ func deref(v string) string {
 	return v
 }
 
+// names that have been declared or
+// that generated code refers to
+var declared = map[string]bool{
+	"seth":  true,
+	"error": true,
+	"init":  true,
+	"main":  true,
+}
+
+func declare(name string) {
+	if declared[name] {
+		fatal("the name " + name + " is already in use")
+	}
+	declared[name] = true
+}
+
 func generate(w io.Writer, c *seth.CompiledContract) {
+	declare(c.Name)
+	declare("New" + c.Name)
 	if bin {
+		declare(c.Name + "Code")
 		fmt.Fprintf(w, "var %sCode = %#v\n", c.Name, c.Code)
 	}
 
@@ -221,6 +240,7 @@ func generate(w io.Writer, c *seth.CompiledContract) {
 	fmt.Fprintln(w, "}")
 
 	// methods
+	methods := make(map[string]string)
 	for i := range c.ABI {
 		d := &c.ABI[i]
 		if d.Type != "function" {
@@ -231,9 +251,15 @@ func generate(w io.Writer, c *seth.CompiledContract) {
 			continue
 		}
 
+		name := strings.Title(d.Name)
+		if other, ok := methods[name]; ok {
+			fatal(fmt.Sprintf("%s: functions %s and %s have the same method name", c.Name, other, d.Signature()))
+		}
+		methods[name] = d.Signature()
+
 		fmt.Fprintln(w)
 
-		fmt.Fprintf(w, "func (z *%s) %s(", c.Name, strings.Title(d.Name))
+		fmt.Fprintf(w, "func (z *%s) %s(", c.Name, name)
 		// input arguments
 		var argstrs []string
 		for i := range d.Inputs {
-- 
2.43.0


From 11e00c5b34c6ab7173488b3bdb235b11293b2985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 062/101] fix: cmd/eth: sign with the key that matched, not the
 last key scanned

---
 cmd/eth/keys.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/eth/keys.go b/cmd/eth/keys.go
index b515f2f..a405e00 100644
--- a/cmd/eth/keys.go
+++ b/cmd/eth/keys.go
@@ -155,12 +155,14 @@ func signer() (seth.Signer, seth.Address) {
 	if err != nil {
 		fatalf("bad keyspec %q\n", err)
 	}
-	for _, kd := range keys() {
+	kds := keys()
+	for i := range kds {
+		kd := &kds[i]
 		if re.MatchString(kd.addr.String()) || re.MatchString(kd.id) {
 			if matched != nil {
 				fatalf("ambiguous key spec %q matches more than one key\n", spec)
 			}
-			matched = &kd
+			matched = kd
 		} else {
 			debugf("%s doesn't match", kd.id)
 		}
-- 
2.43.0


From e0cd5ace03f7c214d4f9e59eed6c8ce77bcf9cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 063/101] fix: cmd/eth: keygen must not overwrite a file, nor
 let others read the key

---
 cmd/eth/keygen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/keygen.go b/cmd/eth/keygen.go
index b82653b..48e371a 100644
--- a/cmd/eth/keygen.go
+++ b/cmd/eth/keygen.go
@@ -42,7 +42,8 @@ func keygen(fs *flag.FlagSet) {
 	var out io.WriteCloser
 	if keygenout != "" {
 		var err error
-		out, err = os.Create(keygenout)
+		// a key is private, and must not replace another one
+		out, err = os.OpenFile(keygenout, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
 		if err != nil {
 			fatalf("creating %s: %s\n", keygenout, err)
 		}
-- 
2.43.0


From e8587168eec7d7772b4a9ed7605a03303c30c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 064/101] fix: cmd/eth: take the integers that fit their type,
 and no others

---
 cmd/eth/call.go | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index c19d13a..b805bca 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -79,7 +79,16 @@ func etherint(s string, bitwidth int, signed bool) seth.EtherType {
 	if v.Sign() < 0 && !signed {
 		fatalf("value %q not allowed to be signed\n", s)
 	}
-	if v.BitLen() >= bitwidth {
+	// a signed integer has one bit less for its magnitude,
+	// and the most negative one has no positive counterpart
+	mag, bits := v, bitwidth
+	if signed {
+		bits--
+		if v.Sign() < 0 {
+			mag = new(big.Int).Not(v)
+		}
+	}
+	if mag.BitLen() > bits {
 		fatalf("value %q overflows bit-width %d", s, bitwidth)
 	}
 	return (*seth.Int)(v)
@@ -121,6 +130,19 @@ func etherarr(typ string, val string) seth.EtherType {
 	return nil
 }
 
+// inttype returns the width and signedness of an integer type
+func inttype(typ string) (bits int, signed bool, ok bool) {
+	for bits = 8; bits <= 256; bits += 8 {
+		switch typ {
+		case "int" + strconv.Itoa(bits):
+			return bits, true, true
+		case "uint" + strconv.Itoa(bits):
+			return bits, false, true
+		}
+	}
+	return 0, false, false
+}
+
 func parsearg(typ, val string) seth.EtherType {
 	switch typ {
 	case "string":
@@ -137,21 +159,12 @@ func parsearg(typ, val string) seth.EtherType {
 		}
 	case "bytes":
 		return etherbytes(val)
-	case "int8", "uint8":
-		return etherint(val, 8, val == "int8")
-	case "int16", "uint16":
-		return etherint(val, 16, val == "int16")
-	case "int32", "uint32":
-		return etherint(val, 32, val == "int32")
-	case "int64", "uint64":
-		return etherint(val, 64, val == "int64")
-	case "int128", "uint128":
-		return etherint(val, 128, val == "int128")
-	case "int256", "uint256":
-		return etherint(val, 256, val == "int256")
 	case "address":
 		return etheraddr(val)
 	}
+	if bits, signed, ok := inttype(typ); ok {
+		return etherint(val, bits, signed)
+	}
 	if strings.HasPrefix(typ, "bytes") {
 		for i := 1; i <= 32; i++ {
 			if typ == "bytes"+strconv.Itoa(i) {
-- 
2.43.0


From 9aefd6a6e7150badcd234c12eed1edb3ef370c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 065/101] fix: cmd/eth: array arguments keep their brackets and
 cannot be parsed

---
 cmd/eth/call.go | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index b805bca..32c3947 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -95,15 +95,24 @@ func etherint(s string, bitwidth int, signed bool) seth.EtherType {
 }
 
 func etherarr(typ string, val string) seth.EtherType {
-	if val[0] != '[' || val[len(val)-1] != ']' {
+	if len(val) < 2 || val[0] != '[' || val[len(val)-1] != ']' {
 		fatalf("array values must be enclosed with square braces\n")
 	}
-	parts := strings.Split(val, ",")
-	if len(parts) == 0 {
-		// doesn't really matter what type this is...
-		s := make(seth.IntSlice, 0)
-		return &s
+	val = val[1 : len(val)-1]
+	if val == "" {
+		_, _, isint := inttype(typ)
+		switch {
+		case isint || typ == "bool":
+			return new(seth.IntSlice)
+		case typ == "address":
+			return new(seth.AddrSlice)
+		case isdata(typ):
+			return new(seth.DataSlice)
+		default:
+			fatalf("slice of %s unimplemented\n", typ)
+		}
 	}
+	parts := strings.Split(val, ",")
 
 	// Warning: this is super gross.
 	// This should be replaced with something better.
@@ -124,6 +133,12 @@ func etherarr(typ string, val string) seth.EtherType {
 			out[i] = *(args[i].(*seth.Address))
 		}
 		return &out
+	case *seth.Data:
+		out := make(seth.DataSlice, len(args))
+		for i := range args {
+			out[i] = *(args[i].(*seth.Data))
+		}
+		return &out
 	default:
 		fatalf("slice of %T unimplemented\n", t)
 	}
@@ -143,6 +158,16 @@ func inttype(typ string) (bits int, signed bool, ok bool) {
 	return 0, false, false
 }
 
+// isdata returns whether typ is one of bytes1 through bytes32
+func isdata(typ string) bool {
+	for i := 1; i <= 32; i++ {
+		if typ == "bytes"+strconv.Itoa(i) {
+			return true
+		}
+	}
+	return false
+}
+
 func parsearg(typ, val string) seth.EtherType {
 	switch typ {
 	case "string":
@@ -165,12 +190,8 @@ func parsearg(typ, val string) seth.EtherType {
 	if bits, signed, ok := inttype(typ); ok {
 		return etherint(val, bits, signed)
 	}
-	if strings.HasPrefix(typ, "bytes") {
-		for i := 1; i <= 32; i++ {
-			if typ == "bytes"+strconv.Itoa(i) {
-				return etherdata(typ, val)
-			}
-		}
+	if isdata(typ) {
+		return etherdata(typ, val)
 	}
 	if strings.HasSuffix(typ, "[]") {
 		return etherarr(strings.TrimSuffix(typ, "[]"), val)
-- 
2.43.0


From a9aef07db9424020f3e01f369c5a08bf1aa71da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 066/101] fix: cmd/eth: a string argument is text, not hex

---
 cmd/eth/call.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 32c3947..99fc8b1 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -30,7 +30,8 @@ func init() {
 }
 
 func etherstring(s string) seth.EtherType {
-	return etherbytes(s)
+	b := seth.Bytes(s)
+	return &b
 }
 
 func unhex(s string) []byte {
-- 
2.43.0


From c37447404d6177d68b23c64d0c9e28177d4e909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 067/101] fix: cmd/eth: report a bad signature instead of
 indexing past the arguments

---
 cmd/eth/call.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 99fc8b1..d497c1d 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -206,7 +206,7 @@ func parsefn(c *seth.Client, addr *seth.Address, fn string, args []string) []set
 	if lparen == -1 || rparen == -1 ||
 		rparen-lparen < 1 ||
 		rparen != len(fn)-1 {
-		fatalf("bad function signature %q (bad parens)\n", args[1])
+		fatalf("bad function signature %q (bad parens)\n", fn)
 	}
 
 	fname := fn[:lparen]
@@ -227,7 +227,7 @@ func parsefn(c *seth.Client, addr *seth.Address, fn string, args []string) []set
 			}
 		}
 		if !found {
-			fatalf("signature %q (jump table %x) not found in code\n", args[1], h[:4])
+			fatalf("signature %q (jump table %x) not found in code\n", fn, h[:4])
 		}
 	}
 
-- 
2.43.0


From 2c1a0d7fa1fc269be0d5845095264da475283dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 068/101] fix: cmd/eth: call ignores arguments its signature
 does not have

---
 cmd/eth/call.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index d497c1d..a175e1e 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -261,6 +261,9 @@ func call(fs *flag.FlagSet) {
 
 	c := client()
 	callargs := parsefn(c, addr, args[1], args[2:])
+	if extra := len(args) - 2 - len(callargs); extra > 0 {
+		fatalf("%d more arguments than signature %q wants\n", extra, args[1])
+	}
 
 	sign, from := signer()
 	opts := seth.CallOpts{
-- 
2.43.0


From a10ee1336677675b4671bc99baf6314c1f6fbbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 069/101] fix: cmd/eth: read prints negative integers as such
 and bytesN without padding

---
 cmd/eth/read.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/cmd/eth/read.go b/cmd/eth/read.go
index f85f006..a429cf4 100644
--- a/cmd/eth/read.go
+++ b/cmd/eth/read.go
@@ -30,20 +30,16 @@ func empty(typ string) interface{} {
 		return new(bool)
 	case "bytes":
 		return new(seth.Bytes)
-	case "int8", "uint8", "int16", "uint16", "int32",
-		"uint32", "int64", "uint64",
-		"int128", "uint128", "int256", "uint256",
-		"int", "uint":
+	case "int", "uint":
 		return big.NewInt(0)
 	case "address":
 		return new(seth.Address)
 	}
-	if strings.HasPrefix(typ, "bytes") {
-		for i := 1; i <= 32; i++ {
-			if typ == "bytes"+strconv.Itoa(i) {
-				return new(seth.Data)
-			}
-		}
+	if _, _, ok := inttype(typ); ok {
+		return big.NewInt(0)
+	}
+	if isdata(typ) {
+		return new(seth.Data)
 	}
 	fatalf("unsupported return type %q", typ)
 	return nil
@@ -81,18 +77,23 @@ func read(fs *flag.FlagSet) {
 		fatalf("error making call: %s\n", err)
 	}
 
-	for _, v := range *d {
+	for i, v := range *d {
 		switch v := v.(type) {
 		case *string:
 			fmt.Println(*v)
 		case *bool:
 			fmt.Println(*v)
 		case *big.Int:
+			// the decoder returns words as unsigned integers
+			if strings.HasPrefix(rettypes[i], "int") && v.Bit(255) == 1 {
+				v.Sub(v, new(big.Int).Lsh(big.NewInt(1), 256))
+			}
 			fmt.Println(v.String())
 		case *seth.Address:
 			fmt.Println(v.String())
 		case *seth.Data:
-			fmt.Printf("%x\n", *v)
+			width, _ := strconv.Atoi(strings.TrimPrefix(rettypes[i], "bytes"))
+			fmt.Printf("%x\n", (*v)[:width])
 		case *seth.Bytes:
 			fmt.Printf("%x\n", *v)
 		default:
-- 
2.43.0


From 810efc588de8e98d91092964ca3beb15dc87d9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 070/101] fix: cmd/eth: a block range that reaches below block
 0 shows unrelated blocks

---
 cmd/eth/block.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/block.go b/cmd/eth/block.go
index 8b4d0d9..5db2d23 100644
--- a/cmd/eth/block.go
+++ b/cmd/eth/block.go
@@ -47,7 +47,11 @@ func blockrange(c *seth.Client, spec string) {
 	// have to fetch the block to do this
 	start := blocknum(split[0])
 	if start < 0 {
-		start = int64(*(getblock(c, start, false).Number))
+		b := getblock(c, start, false)
+		if b.Number == nil {
+			fatalf("block %q has no number yet\n", split[0])
+		}
+		start = int64(*b.Number)
 	}
 
 	diff, err := strconv.ParseInt(split[1], 0, 64)
@@ -56,6 +60,10 @@ func blockrange(c *seth.Client, spec string) {
 	}
 	op := func(a, b int64) int64 { return a + b }
 	if opstr == "-" {
+		// below zero are the special block numbers
+		if diff > start+1 {
+			fatalf("block range %q goes past block 0\n", spec)
+		}
 		op = func(a, b int64) int64 { return a - b }
 	}
 
-- 
2.43.0


From bfc7cb143dc881ca6c71f93db2bf51747ff107e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 071/101] fix: a log whose value is not one word is no token
 transfer

---
 seth.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seth.go b/seth.go
index 27defc2..57eba3b 100644
--- a/seth.go
+++ b/seth.go
@@ -766,7 +766,7 @@ func setdata(i *Int, b []byte) {
 // an ERC20 token transfer event, with the signature
 //    event Transfer(address indexed from, address indexed to, uint256 value);
 func (r *Receipt) ParseTransfer(l *Log) (TokenTransfer, bool) {
-	if len(l.Topics) != 3 || len(l.Topics[1]) != 32 || len(l.Topics[2]) != 32 {
+	if len(l.Topics) != 3 || len(l.Topics[1]) != 32 || len(l.Topics[2]) != 32 || len(l.Data) != 32 {
 		return TokenTransfer{}, false
 	}
 	if !bytes.Equal(l.Topics[0], ERC20Transfer[:]) {
-- 
2.43.0


From dfc28d6115d7c114822ce8688493e32966f687de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 072/101] fix: the canonical signature of a tuple is the list
 of its components

---
 abi.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/abi.go b/abi.go
index b92792f..1cde02c 100644
--- a/abi.go
+++ b/abi.go
@@ -34,7 +34,21 @@ func (c *CompiledContract) Find(desc string) *ABIDescriptor {
 func (d *ABIDescriptor) Signature() string {
 	var args []string
 	for i := range d.Inputs {
-		args = append(args, d.Inputs[i].Type)
+		args = append(args, d.Inputs[i].canonical())
 	}
 	return d.Name + "(" + strings.Join(args, ",") + ")"
 }
+
+// canonical returns the canonical name of the type
+// of the parameter, in which tuples are written as the
+// list of their components
+func (p *ABIParam) canonical() string {
+	if !strings.HasPrefix(p.Type, "tuple") {
+		return p.Type
+	}
+	var args []string
+	for i := range p.Components {
+		args = append(args, p.Components[i].canonical())
+	}
+	return "(" + strings.Join(args, ",") + ")" + strings.TrimPrefix(p.Type, "tuple")
+}
-- 
2.43.0


From c35be9a6eb4dedbe80f7a789ffa31d0b305c5fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 073/101] fix: yubihsm: report a failed authentication

---
 yubihsm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yubihsm.go b/yubihsm.go
index 49f2323..4c86255 100644
--- a/yubihsm.go
+++ b/yubihsm.go
@@ -40,7 +40,7 @@ func (y *yubictx) Unlock(b []byte) error {
 	}
 	if err := sess.Authenticate(y.ctx); err != nil {
 		sess.Destroy()
-		return nil
+		return err
 	}
 	y.sess = sess
 	return nil
-- 
2.43.0


From 51dd90c0016d3b3312d5fd1cc2bf177182d178f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 074/101] fix: yubihsm: don't keep an incomplete list of keys
 after an error

---
 yubihsm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yubihsm.go b/yubihsm.go
index 4c86255..d4f8f89 100644
--- a/yubihsm.go
+++ b/yubihsm.go
@@ -68,6 +68,8 @@ func (y *yubictx) loadk256() error {
 		return err
 	}
 
+	// only keep a complete list
+	var pks []HSMKey
 	for i := range objs {
 		var spk PublicKey
 		pk, err := y.sess.GetPublicKey(objs[i].ID)
@@ -75,12 +77,13 @@ func (y *yubictx) loadk256() error {
 			return err
 		}
 		copy(spk[:], pk)
-		y.pks = append(y.pks, HSMKey{
+		pks = append(pks, HSMKey{
 			ID:     "yubihsm:" + strconv.Itoa(objs[i].ID),
 			Public: spk,
 			Aux:    objs[i],
 		})
 	}
+	y.pks = pks
 	return nil
 }
 
-- 
2.43.0


From 0b3dcc2c191e63c22c86ab3e7d4720f13d4c43ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 075/101] fix: yubihsm: check the length of public keys

---
 yubihsm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yubihsm.go b/yubihsm.go
index d4f8f89..303211f 100644
--- a/yubihsm.go
+++ b/yubihsm.go
@@ -76,6 +76,9 @@ func (y *yubictx) loadk256() error {
 		if err != nil {
 			return err
 		}
+		if len(pk) != len(spk) {
+			return fmt.Errorf("hsm: public key of %d bytes", len(pk))
+		}
 		copy(spk[:], pk)
 		pks = append(pks, HSMKey{
 			ID:     "yubihsm:" + strconv.Itoa(objs[i].ID),
-- 
2.43.0


From 1451635eb855af372ed51b8873de1d5e6340e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 076/101] fix: yubihsm: reject signatures that aren't valid for
 the key

---
 yubihsm.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/yubihsm.go b/yubihsm.go
index 303211f..ea57c15 100644
--- a/yubihsm.go
+++ b/yubihsm.go
@@ -105,15 +105,18 @@ func yubisigner(sess *yubihsm.Session, k *HSMKey) Signer {
 			return nil, err
 		}
 
-		// Figure out what 'v' should be.
-		sig := NewSignature(r, s, 0)
-		if pk0, err := NewSignature(r, s, 0).Recover(sum); err != nil {
-			return nil, err
-		} else if *pk0 != k.Public {
-			sig = NewSignature(r, s, 1)
+		if r.Sign() <= 0 || r.Cmp(order) >= 0 || s.Sign() <= 0 || s.Cmp(order) >= 0 {
+			return nil, fmt.Errorf("hsm: signature out of range")
 		}
 
-		return sig, nil
+		// Figure out what 'v' should be.
+		for v := 0; v < 2; v++ {
+			sig := NewSignature(r, s, v)
+			if pk, err := sig.Recover(sum); err == nil && *pk == k.Public {
+				return sig, nil
+			}
+		}
+		return nil, fmt.Errorf("hsm: signature isn't by key %s", k.ID)
 	}
 }
 
-- 
2.43.0


From 3b0d8e71c2a145348ac76e693686f18414465a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 077/101] fix: yubihsm: don't panic on empty passwords, keys
 and messages

---
 yubihsm/yubihsm.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/yubihsm/yubihsm.go b/yubihsm/yubihsm.go
index 9253446..e757737 100644
--- a/yubihsm/yubihsm.go
+++ b/yubihsm/yubihsm.go
@@ -87,10 +87,18 @@ func (c *Connector) SetProxyServer(url string) error {
 // will be used to receive data, though after the call len(res.Data) will
 // reflect the length of the data actually received.
 func (c *Connector) Send(msg, res *Message) error {
+	data := msg.Data
+	if len(data) == 0 {
+		data = make([]byte, 1)
+	}
+	buf := res.Data[:cap(res.Data)]
+	if len(buf) == 0 {
+		buf = make([]byte, 1)
+	}
 	rsize := C.size_t(cap(res.Data))
 	rc := C.yh_send_plain_msg((*C.yh_connector)(c),
-		C.yh_cmd(msg.Command), (*C.uint8_t)(&msg.Data[0]), C.size_t(len(msg.Data)),
-		(*C.yh_cmd)(&res.Command), (*C.uint8_t)(&res.Data[0]), &rsize)
+		C.yh_cmd(msg.Command), (*C.uint8_t)(&data[0]), C.size_t(len(msg.Data)),
+		(*C.yh_cmd)(&res.Command), (*C.uint8_t)(&buf[0]), &rsize)
 	if err := rcerr(rc); err != nil {
 		return err
 	}
@@ -101,6 +109,9 @@ func (c *Connector) Send(msg, res *Message) error {
 // NewDerivedSession creates a new session encrypted with a key derived from
 // the password.
 func (c *Connector) NewDerivedSession(id int, password []byte, recreate bool, ctx *Context) (*Session, error) {
+	if len(password) == 0 {
+		return nil, ErrInvalidParams
+	}
 	s := new(Session)
 	rc := C.yh_create_session_derived((*C.yh_connector)(c), C.uint16_t(id),
 		(*C.uint8_t)(&password[0]), C.size_t(len(password)),
@@ -114,6 +125,9 @@ func (c *Connector) NewDerivedSession(id int, password []byte, recreate bool, ct
 
 // NewSession creates a new session encrypted with the given key.
 func (c *Connector) NewSession(id int, key, mac []byte, recreate bool, ctx *Context) (*Session, error) {
+	if len(key) == 0 || len(mac) == 0 {
+		return nil, ErrInvalidParams
+	}
 	s := new(Session)
 	rc := C.yh_create_session((*C.yh_connector)(c), C.uint16_t(id),
 		(*C.uint8_t)(&key[0]), C.size_t(len(key)),
@@ -261,6 +275,9 @@ func (s *Session) GenerateECKey(label string, domains int, caps *Capabilities, a
 
 // SignECDSA signs data using ECDSA.
 func (s *Session) SignECDSA(id int, data []byte) (R, S *big.Int, err error) {
+	if len(data) == 0 {
+		return nil, nil, ErrInvalidParams
+	}
 	out := make([]byte, 2048)
 	outlen := C.size_t(len(out))
 
-- 
2.43.0


From 1cf73fb3548550f5af46f9b576698e6a8fe5aa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 078/101] fix: yubihsm: read listed objects with the layout of
 the C array

---
 yubihsm/yubihsm.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yubihsm/yubihsm.go b/yubihsm/yubihsm.go
index e757737..335b6a2 100644
--- a/yubihsm/yubihsm.go
+++ b/yubihsm/yubihsm.go
@@ -15,6 +15,8 @@ package yubihsm
 //
 // yh_object_type *yh_obj_desc_type(yh_object_descriptor *o)      { return &o->type; }
 // yh_algorithm   *yh_obj_desc_algorithm(yh_object_descriptor *o) { return &o->algorithm; }
+//
+// yh_object_descriptor *yh_obj_desc_at(yh_object_descriptor *o, size_t i) { return &o[i]; }
 import "C"
 
 import (
@@ -215,8 +217,11 @@ func (s *Session) ListObjects(f *Filter) ([]*Object, error) {
 	objects := make([]*Object, len(ods))
 
 	for i := range ods {
+		// The C struct is packed, so that its size
+		// may be less than the one of its Go form:
+		// ods can't be indexed from Go.
 		o := new(Object)
-		o.unpack(&ods[i])
+		o.unpack(C.yh_obj_desc_at(&ods[:1][0], C.size_t(i)))
 		objects[i] = o
 	}
 
-- 
2.43.0


From c62b2c41e85418ed9e8b317475f52515ad442354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 079/101] fix: yubihsm: pass every byte of strings that aren't
 ASCII

---
 yubihsm/yubihsm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yubihsm/yubihsm.go b/yubihsm/yubihsm.go
index 335b6a2..147f0fe 100644
--- a/yubihsm/yubihsm.go
+++ b/yubihsm/yubihsm.go
@@ -773,7 +773,7 @@ func SetDebugOutput(file *os.File) error {
 // The reference must be held until the C code is done with it.
 func cstr(s string) *C.char {
 	cc := make([]C.char, len(s)+1)
-	for i := range s {
+	for i := 0; i < len(s); i++ {
 		cc[i] = C.char(s[i])
 	}
 	return &cc[0]
-- 
2.43.0


From 49dcc779e7fd78213452d50937967a332968e2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 080/101] fix: yubihsm: keep sessions alive while they are used

---
 yubihsm/yubihsm.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/yubihsm/yubihsm.go b/yubihsm/yubihsm.go
index 147f0fe..361024d 100644
--- a/yubihsm/yubihsm.go
+++ b/yubihsm/yubihsm.go
@@ -168,6 +168,9 @@ type Message struct {
 }
 
 // A Session is a session with a device.
+//
+// Methods keep the session alive until C code is done with
+// it, since it is destroyed by a finalizer.
 type Session struct {
 	session *C.yh_session
 }
@@ -176,6 +179,7 @@ type Session struct {
 func (s *Session) Authenticate(ctx *Context) error {
 	rc := C.yh_authenticate_session(s.session,
 		(*C.uint8_t)(&ctx[0]), C.size_t(len(ctx)))
+	runtime.KeepAlive(s)
 	return rcerr(rc)
 }
 
@@ -205,6 +209,7 @@ func (s *Session) ListObjects(f *Filter) ([]*Object, error) {
 	rc := C.yh_util_list_objects(s.session,
 		id, typ, doms, &caps, alg, label,
 		&ods[0], &nods)
+	runtime.KeepAlive(s)
 
 	if err := rcerr(rc); err != nil {
 		return nil, err
@@ -232,6 +237,7 @@ func (s *Session) ListObjects(f *Filter) ([]*Object, error) {
 func (s *Session) GetObject(id int, typ ObjectType) (*Object, error) {
 	var od C.yh_object_descriptor
 	rc := C.yh_util_get_object_info(s.session, C.uint16_t(id), C.yh_object_type(typ), &od)
+	runtime.KeepAlive(s)
 	if err := rcerr(rc); err != nil {
 		return nil, err
 	}
@@ -246,6 +252,7 @@ func (s *Session) GetPublicKey(id int) ([]byte, error) {
 	b := make([]byte, 4096)
 	sz := C.size_t(len(b))
 	rc := C.yh_util_get_pubkey(s.session, C.uint16_t(id), (*C.uint8_t)(&b[0]), &sz, &algo)
+	runtime.KeepAlive(s)
 	if err := rcerr(rc); err != nil {
 		return nil, err
 	}
@@ -274,6 +281,7 @@ func (s *Session) GenerateECKey(label string, domains int, caps *Capabilities, a
 
 	rc := C.yh_util_generate_key_ec(s.session, &cid, clabel, C.uint16_t(domains),
 		(*C.yh_capabilities)(caps), C.yh_algorithm(algo))
+	runtime.KeepAlive(s)
 
 	return int(cid), rcerr(rc)
 }
@@ -289,6 +297,7 @@ func (s *Session) SignECDSA(id int, data []byte) (R, S *big.Int, err error) {
 	rc := C.yh_util_sign_ecdsa(s.session, C.uint16_t(id),
 		(*C.uint8_t)(&data[0]), C.size_t(len(data)),
 		(*C.uint8_t)(&out[0]), &outlen)
+	runtime.KeepAlive(s)
 
 	if err := rcerr(rc); err != nil {
 		return nil, nil, err
-- 
2.43.0


From 98d45832ed98f1c3e298d76b58a3d503e420fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 081/101] fix: cc: don't register a currency whose token
 address is taken

---
 cc/currency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc/currency.go b/cc/currency.go
index 5906aa2..e3eb85d 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -553,13 +553,13 @@ func registerCurrency(c *currency) Currency {
 		}
 		return Currency(p.name)
 	}
-	currencies[c.name] = c
 	if !c.addr.Zero() {
 		if _, ok := tokens[c.addr]; ok {
 			panic("cc: conflicting token address: " + c.addr.String())
 		}
 		tokens[c.addr] = Currency(c.name)
 	}
+	currencies[c.name] = c
 	return Currency(c.name)
 }
 
-- 
2.43.0


From c8fe41b3d57bcf6bda097218f4761c0678cc719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 082/101] fix: cc: don't let callers change the address of a
 token

---
 cc/currency.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cc/currency.go b/cc/currency.go
index e3eb85d..dbd6ebe 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -220,8 +220,8 @@ func (c Currency) Digits() int {
 // Addr returns the contract address, if this represents an ERC20 token. This
 // panics if the currency is not registered.
 func (c Currency) Addr() *seth.Address {
-	if addr := &c.resolve().addr; !addr.Zero() {
-		return addr
+	if addr := c.resolve().addr; !addr.Zero() {
+		return &addr
 	}
 	return nil
 }
-- 
2.43.0


From bca1df1cb536bfe4dc6bc3edd3f1b506db503b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 083/101] fix: don't hang when solc writes more than its answer

---
 compile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compile.go b/compile.go
index 34265c5..7762f1e 100644
--- a/compile.go
+++ b/compile.go
@@ -7,6 +7,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"hash"
+	"io"
 	"io/ioutil"
 	"os"
 	"os/exec"
@@ -456,12 +457,15 @@ func compile(sources []Source) (*CompiledBundle, error) {
 	err = json.NewEncoder(in).Encode(&blob)
 	if err != nil {
 		in.Close()
+		io.Copy(ioutil.Discard, out)
 		cmd.Wait()
 		return nil, err
 	}
 	in.Close()
 	var jsout solcout
 	err = json.NewDecoder(out).Decode(&jsout)
+	// don't leave solc blocked on output that nobody reads
+	io.Copy(ioutil.Discard, out)
 	if err != nil {
 		cmd.Wait()
 		return nil, fmt.Errorf("reading solc output: %s", err)
-- 
2.43.0


From 05cd5d6b1582abd17b90965c275a33e1177fc6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 084/101] fix: tevm/erc20: fail instead of panicking when an
 event is missing

The test went on to look at the event that it had just found to be missing,
or at topics that the event does not have.
---
 tevm/erc20/compliance.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/tevm/erc20/compliance.go b/tevm/erc20/compliance.go
index 2fc1694..3c0b7ea 100644
--- a/tevm/erc20/compliance.go
+++ b/tevm/erc20/compliance.go
@@ -25,6 +25,14 @@ func assertln(t *testing.T, cond bool, text string) {
 	}
 }
 
+// requireln is like assertln, but it ends the test
+func requireln(t *testing.T, cond bool, text string) {
+	if !cond {
+		t.Helper()
+		t.Fatal(text)
+	}
+}
+
 func mustError(t *testing.T, err error, text string) {
 	t.Helper()
 	if err == nil {
@@ -34,13 +42,15 @@ func mustError(t *testing.T, err error, text string) {
 }
 
 func isERC20Approve(l *seth.Log, from, to *seth.Address) bool {
-	return bytes.Equal(l.Topics[0], seth.ERC20Approve[:]) &&
+	return len(l.Topics) == 3 &&
+		bytes.Equal(l.Topics[0], seth.ERC20Approve[:]) &&
 		bytes.Equal(l.Topics[1][12:], from[:]) &&
 		bytes.Equal(l.Topics[2][12:], to[:])
 }
 
 func isERC20Transfer(l *seth.Log, from, to *seth.Address) bool {
-	return bytes.Equal(l.Topics[0], seth.ERC20Transfer[:]) &&
+	return len(l.Topics) == 3 &&
+		bytes.Equal(l.Topics[0], seth.ERC20Transfer[:]) &&
 		bytes.Equal(l.Topics[1][12:], from[:]) &&
 		bytes.Equal(l.Topics[2][12:], to[:])
 }
@@ -115,7 +125,7 @@ func TestCompliance(t *Token) {
 	// there should be a transfer from 0 in here,
 	// since we minted some tokens
 	logs := t.C.Logs()
-	assertln(t.T, len(logs) == lc+1, "no Transfer emitted for minting")
+	requireln(t.T, len(logs) == lc+1, "no Transfer emitted for minting")
 	transfer := &logs[lc]
 	var zeroaddr seth.Address
 	assertln(t.T, isERC20Transfer(transfer, &zeroaddr, &addr), "didn't emit a proper transfer event")
@@ -134,7 +144,7 @@ func TestCompliance(t *Token) {
 	}
 
 	logs = t.C.Logs()
-	assertln(t.T, len(logs) == lc+2, "no Transfer emitted after transfer() called")
+	requireln(t.T, len(logs) == lc+2, "no Transfer emitted after transfer() called")
 	transfer = &logs[lc+1]
 	assertln(t.T, isERC20Transfer(transfer, &addr, &addr2), "didn't emit a proper transfer event")
 	assertln(t.T, bytes.Equal(transfer.Address[:], t.Addr[:]), "transfer event not emitted by token")
@@ -148,7 +158,7 @@ func TestCompliance(t *Token) {
 	please(t.T, err)
 	assertln(t.T, ok, "approve() returned false")
 	logs = t.C.Logs()
-	assertln(t.T, len(logs) == lc+3, "no Approval event emitted after approve()")
+	requireln(t.T, len(logs) == lc+3, "no Approval event emitted after approve()")
 	approve := &logs[lc+2]
 	assertln(t.T, isERC20Approve(approve, &addr, &addr2), "didn't emit proper approve event")
 	assertln(t.T, bytes.Equal(approve.Address[:], t.Addr[:]), "approve event not emitted by token")
@@ -164,7 +174,7 @@ func TestCompliance(t *Token) {
 	please(t.T, err)
 	assertln(t.T, ok, "transferFrom() failed")
 	logs = t.C.Logs()
-	assertln(t.T, len(logs) == lc+4, "no Transfer emitted")
+	requireln(t.T, len(logs) == lc+4, "no Transfer emitted")
 	transfer = &logs[lc+3]
 	assertln(t.T, isERC20Transfer(transfer, &addr, &addr2), "didn't emit proper transfer event")
 	assertln(t.T, bytes.Equal(transfer.Address[:], t.Addr[:]), "transfer event not emitted by token")
@@ -182,7 +192,7 @@ func TestCompliance(t *Token) {
 	balance = t.BalanceOf(&addr2)
 	assertln(t.T, balance.IsZero(), "balance isn't zero after burning 200 tokens...?")
 	logs = t.C.Logs()
-	assertln(t.T, len(logs) == lc+5, "no Transfer event emitted after burning")
+	requireln(t.T, len(logs) == lc+5, "no Transfer event emitted after burning")
 	transfer = &logs[lc+4]
 	assertln(t.T, isERC20Transfer(transfer, &addr2, &zeroaddr), "burn didn't emit proper transfer event")
 	assertln(t.T, bytes.Equal(transfer.Address[:], t.Addr[:]), "transfer event not emitted by token")
-- 
2.43.0


From 6c5c2fd23cb4caa3baecbf9e363104eca8ed5b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 085/101] fix: tevm/erc20: don't ignore the error of Mint

---
 tevm/erc20/compliance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/erc20/compliance.go b/tevm/erc20/compliance.go
index 3c0b7ea..9668977 100644
--- a/tevm/erc20/compliance.go
+++ b/tevm/erc20/compliance.go
@@ -120,7 +120,7 @@ func TestABICompliance(t *testing.T, cc *seth.CompiledContract) {
 func TestCompliance(t *Token) {
 	lc := len(t.C.Logs())
 	addr := t.C.NewAccount(1)
-	t.Mint(t, &addr, seth.NewInt(1000))
+	please(t.T, t.Mint(t, &addr, seth.NewInt(1000)))
 
 	// there should be a transfer from 0 in here,
 	// since we minted some tokens
-- 
2.43.0


From 0d9fab00396c2a679cb03ab4c1da98383b775a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:04 +0000
Subject: [PATCH 086/101] fix: tevm/erc20: don't panic if the token has no
 owner

---
 tevm/erc20/compliance.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tevm/erc20/compliance.go b/tevm/erc20/compliance.go
index 9668977..1add9b3 100644
--- a/tevm/erc20/compliance.go
+++ b/tevm/erc20/compliance.go
@@ -209,10 +209,18 @@ func ret2i(b []byte) *seth.Int {
 	return (*seth.Int)(&i)
 }
 
+// owner is the sender of calls that anyone may make
+func (t *Token) owner() *seth.Address {
+	if t.Owner == nil {
+		return new(seth.Address)
+	}
+	return t.Owner
+}
+
 // BalanceOf calls token.balanceOf(addr)
 func (t *Token) BalanceOf(addr *seth.Address) *seth.Int {
 	t.Helper()
-	bytes, err := t.C.StaticCall(t.Owner, t.Addr, "balanceOf(address)", addr)
+	bytes, err := t.C.StaticCall(t.owner(), t.Addr, "balanceOf(address)", addr)
 	if err != nil {
 		t.Fatalf("token.balanceOf(): %s", err)
 	}
@@ -230,7 +238,7 @@ func ret2b(b []byte) bool {
 
 func (t *Token) TotalSupply() *seth.Int {
 	t.Helper()
-	bytes, err := t.C.StaticCall(t.Owner, t.Addr, "totalSupply()")
+	bytes, err := t.C.StaticCall(t.owner(), t.Addr, "totalSupply()")
 	if err != nil {
 		t.Fatal("totalSupply():", err)
 	}
-- 
2.43.0


From 3ed003042ad1771811533b3ddd9cfca468382493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 087/101] fix: tevm/erc20: compare more than the low 64 bits of
 balances

---
 tevm/erc20/compliance.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tevm/erc20/compliance.go b/tevm/erc20/compliance.go
index 1add9b3..4e63ac4 100644
--- a/tevm/erc20/compliance.go
+++ b/tevm/erc20/compliance.go
@@ -41,6 +41,11 @@ func mustError(t *testing.T, err error, text string) {
 	t.Logf("%s: %q", text, err)
 }
 
+// is compares all of the integer
+func is(i *seth.Int, v int64) bool {
+	return (*big.Int)(i).Cmp(big.NewInt(v)) == 0
+}
+
 func isERC20Approve(l *seth.Log, from, to *seth.Address) bool {
 	return len(l.Topics) == 3 &&
 		bytes.Equal(l.Topics[0], seth.ERC20Approve[:]) &&
@@ -132,15 +137,15 @@ func TestCompliance(t *Token) {
 	assertln(t.T, bytes.Equal(transfer.Address[:], t.Addr[:]), "event not emitted by token")
 
 	balance := t.BalanceOf(&addr)
-	assertln(t.T, balance.Int64() == 1000, "incorrect balance after mint")
+	assertln(t.T, is(balance, 1000), "incorrect balance after mint")
 
 	addr2 := t.C.NewAccount(1)
 	ok, err := t.Transfer(&addr, &addr2, seth.NewInt(100))
 	please(t.T, err)
 	assertln(t.T, ok, "transfer() returned false")
 	balance2 := t.BalanceOf(&addr2)
-	if balance2.Int64() != 100 {
-		t.Errorf("expected a balance of 100; found %d", balance2.Int64())
+	if !is(balance2, 100) {
+		t.Errorf("expected a balance of 100; found %d", (*big.Int)(balance2))
 	}
 
 	logs = t.C.Logs()
@@ -150,8 +155,8 @@ func TestCompliance(t *Token) {
 	assertln(t.T, bytes.Equal(transfer.Address[:], t.Addr[:]), "transfer event not emitted by token")
 
 	balance = t.BalanceOf(&addr)
-	if balance.Int64() != (1000 - 100) {
-		t.Errorf("expected a balance of 900; found %d", balance.Int64())
+	if !is(balance, 1000-100) {
+		t.Errorf("expected a balance of 900; found %d", (*big.Int)(balance))
 	}
 
 	ok, err = t.Approve(&addr, &addr2, seth.NewInt(100))
@@ -180,7 +185,7 @@ func TestCompliance(t *Token) {
 	assertln(t.T, bytes.Equal(transfer.Address[:], t.Addr[:]), "transfer event not emitted by token")
 
 	balance = t.BalanceOf(&addr)
-	assertln(t.T, balance.Int64() == 800, "balance is whack")
+	assertln(t.T, is(balance, 800), "balance is whack")
 
 	// may as well test burning while we're here...
 	if !t.HasBurn {
@@ -200,7 +205,7 @@ func TestCompliance(t *Token) {
 	supply2 := t.TotalSupply()
 	sp := (*big.Int)(supply)
 	sp.Sub(sp, (*big.Int)(supply2))
-	assertln(t.T, sp.Int64() == 200, "supply didn't fall by 200 after burning")
+	assertln(t.T, is((*seth.Int)(sp), 200), "supply didn't fall by 200 after burning")
 }
 
 func ret2i(b []byte) *seth.Int {
-- 
2.43.0


From b4c6a50d74164ffc405f8e541426f24b297be180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 088/101] fix: tevmd: don't panic if the latest block has no
 number

---
 tevm/tevmd/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tevm/tevmd/main.go b/tevm/tevmd/main.go
index 76ddc08..3c214ef 100644
--- a/tevm/tevmd/main.go
+++ b/tevm/tevmd/main.go
@@ -42,6 +42,9 @@ func latest(c *seth.Client) int64 {
 	if err != nil {
 		log.Fatal(err)
 	}
+	if blk.Number == nil {
+		log.Fatal("the latest block doesn't have a number")
+	}
 	return int64(*blk.Number)
 }
 
-- 
2.43.0


From 050b712a69636b83c20d9f6796cd0b354c9a078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 089/101] fix: tevmd: don't fork at a negative block number

Such a number names the latest or the pending block to the source, so that
the fork changed with it, or no block at all.
---
 tevm/tevmd/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tevm/tevmd/main.go b/tevm/tevmd/main.go
index 3c214ef..c3a4aa6 100644
--- a/tevm/tevmd/main.go
+++ b/tevm/tevmd/main.go
@@ -63,6 +63,9 @@ func main() {
 			if err != nil {
 				log.Fatalln("bad block number:", err)
 			}
+			if bn < 0 {
+				log.Fatalln("bad block number:", bn)
+			}
 		case 1:
 			bn = latest(network)
 		default:
-- 
2.43.0


From 212dee3d5368dc01cab7b00314a1efff328dbbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 090/101] fix: tevmd: don't ignore unknown arguments

A misspelled 'fork' made it serve an empty chain.
---
 tevm/tevmd/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/tevmd/main.go b/tevm/tevmd/main.go
index c3a4aa6..442f68b 100644
--- a/tevm/tevmd/main.go
+++ b/tevm/tevmd/main.go
@@ -73,6 +73,8 @@ func main() {
 		}
 		log.Printf("forking main chain at block %d", bn)
 		c = tevm.NewFork(network, bn)
+	} else if len(args) > 0 {
+		log.Fatalf("unexpected argument %q", args[0])
 	} else {
 		c = tevm.NewChain()
 	}
-- 
2.43.0


From ef9dc9488ece48de092a730b189a22454af53531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 091/101] fix: amounts followed by another line are not amounts

ParseAmount and UnmarshalText read "1 ETH\nanything" as 1 ETH, while
they refuse "1 ETH anything".
---
 cc/currency.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cc/currency.go b/cc/currency.go
index dbd6ebe..b54f5f6 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -405,6 +405,10 @@ func ParseAmount(s string) (*Amount, error) {
 	if _, err := fmt.Sscanln(s, a); err != nil {
 		return nil, err
 	}
+	// the scan ends with the first line
+	if i := strings.IndexByte(s, '\n'); i >= 0 && strings.TrimSpace(s[i:]) != "" {
+		return nil, fmt.Errorf("malformed amount %q", s)
+	}
 	return a, nil
 }
 
-- 
2.43.0


From 6e0bdbba120f70562d6df694f370230ae9870198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 092/101] fix: integers far below the range don't fit a word

Adding 2^256 to a number below -2^256-2^255+1 leaves a negative
one of 256 bits, which was encoded as its absolute value.
---
 send.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/send.go b/send.go
index 5ec0911..48c4ea5 100644
--- a/send.go
+++ b/send.go
@@ -49,7 +49,7 @@ func (i *Int) EncodeABI(v []byte) []byte {
 	if b.Sign() < 0 {
 		// two's complement
 		b = new(big.Int).Add(b, twoTo256)
-		if b.BitLen() < 256 {
+		if b.Sign() < 0 || b.BitLen() < 256 {
 			panic("ABI encoding: integer overflow")
 		}
 	}
-- 
2.43.0


From 050ee45e8dfa42f9d174a6cfa7cabd6a9d9a5147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:47 +0000
Subject: [PATCH 093/101] fix: don't cut filter ids to 64 bits

Servers give filters ids of up to 128 bits: such a filter never
delivered anything, and was never uninstalled.
---
 filter.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/filter.go b/filter.go
index 092aee5..71cdce9 100644
--- a/filter.go
+++ b/filter.go
@@ -4,7 +4,6 @@ import (
 	"encoding/json"
 	"log"
 	"math"
-	"math/big"
 	"strconv"
 	"sync"
 	"time"
@@ -12,7 +11,7 @@ import (
 
 // Filter represents a Log filter
 type Filter struct {
-	id  int64
+	id  json.RawMessage
 	c   *Client
 	out chan *Log
 
@@ -113,23 +112,23 @@ done:
 	close(f.out)
 }
 
-func (c *Client) getLogs(id int64) ([]Log, error) {
+func (c *Client) getLogs(id json.RawMessage) ([]Log, error) {
 	var o []Log
-	p := []json.RawMessage{itox(id)}
+	p := []json.RawMessage{id}
 	err := c.Do("eth_getFilterLogs", p, &o)
 	return o, err
 }
 
-func (c *Client) getUpdates(id int64) ([]Log, error) {
+func (c *Client) getUpdates(id json.RawMessage) ([]Log, error) {
 	var o []Log
-	p := []json.RawMessage{itox(id)}
+	p := []json.RawMessage{id}
 	err := c.Do("eth_getFilterChanges", p, &o)
 	return o, err
 }
 
-func (c *Client) deleteFilter(id int64) {
+func (c *Client) deleteFilter(id json.RawMessage) {
 	var out bool
-	err := c.Do("eth_uninstallFilter", []json.RawMessage{itox(id)}, &out)
+	err := c.Do("eth_uninstallFilter", []json.RawMessage{id}, &out)
 	if err != nil || !out {
 		log.Printf("uninstallFilter: %s %v", err, out)
 	}
@@ -175,7 +174,10 @@ func (c *Client) FilterTopics(topics []*Hash, addr *Address, start, end int64) (
 	if err != nil {
 		return nil, err
 	}
-	id := (*big.Int)(&out).Int64()
+	id, err := json.Marshal(&out)
+	if err != nil {
+		return nil, err
+	}
 	f := &Filter{c: c, out: make(chan *Log, 20), exit: make(chan struct{}, 1), id: id, poll: poll}
 	go frecv(f)
 	return f, nil
-- 
2.43.0


From ea95e6e5be60b91abe92245ae0088b9f1a221910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:58 +0000
Subject: [PATCH 094/101] fix: a failed contract creation isn't a contract

Receipts of failed creations carry the address that the contract
would have had, and Sender.Create returned it.
---
 sender.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index 2e21416..04fb2fc 100644
--- a/sender.go
+++ b/sender.go
@@ -87,7 +87,7 @@ func (s *Sender) Create(code []byte, value *Int) (Address, error) {
 	if err != nil {
 		return Address{}, err
 	}
-	if r.Address == nil {
+	if r.Address == nil || r.Threw() {
 		return Address{}, fmt.Errorf("txhash %s: contract not created", &h)
 	}
 	return *r.Address, nil
-- 
2.43.0


From dbfb54712a16e8f8bc1e625368a0e00b66ae0872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:41 +0000
Subject: [PATCH 095/101] fix: GetNonceAt refuses a nonce that is no unsigned
 64-bit number

---
 seth.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seth.go b/seth.go
index 57eba3b..0fc74d4 100644
--- a/seth.go
+++ b/seth.go
@@ -571,9 +571,9 @@ func (c *Client) GetNonceAt(addr *Address, blocknum int64) (int64, error) {
 	buf, _ := json.Marshal(addr)
 	params[0] = buf
 	params[1] = itobs(blocknum)
-	var num Int
+	var num Uint64
 	err := c.Do("eth_getTransactionCount", params[:], &num)
-	return num.Int64(), err
+	return int64(num), err
 }
 
 // GetNonce gets the account nonce for an address in the latest block.
-- 
2.43.0


From 27135bc1c2e2a3db5ca55dcb67b88488190de20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:41 +0000
Subject: [PATCH 096/101] fix: tevm does not cut a filter number to 64 bits

---
 tevm/transport.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index a311eed..d3279e0 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -212,23 +212,23 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 		}
 		return c.newFilter(req.FromBlock, req.ToBlock, req.Address, req.Topics)
 	case "eth_getFilterChanges":
-		var n seth.Int
+		var n seth.Uint64
 		if err := marshal(params, &n); err != nil {
 			return nil, err
 		}
-		return c.filterChanges(int(n.Int64()))
+		return c.filterChanges(int(n))
 	case "eth_getFilterLogs":
-		var n seth.Int
+		var n seth.Uint64
 		if err := marshal(params, &n); err != nil {
 			return nil, err
 		}
-		return c.filterLogs(int(n.Int64()))
+		return c.filterLogs(int(n))
 	case "eth_uninstallFilter":
-		var n seth.Int
+		var n seth.Uint64
 		if err := marshal(params, &n); err != nil {
 			return nil, err
 		}
-		return c.deleteFilter(int(n.Int64()))
+		return c.deleteFilter(int(n))
 	default:
 		return nil, errors.New(method + ": unsupported method")
 	}
-- 
2.43.0


From 8519e8f72d4c3fe7fa4ba35b557f631304055841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:41 +0000
Subject: [PATCH 097/101] fix: tevm refuses a block number with a sign

---
 tevm/transport.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index d3279e0..0a01e70 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -52,12 +52,13 @@ func (b *blocknum) UnmarshalJSON(buf []byte) error {
 		*b = 0
 	default:
 		// should be an integer, or a
-		// string with a hexadecimal one
+		// string with a hexadecimal one,
+		// without a sign
 		s, base := string(buf), 10
 		if len(s) > 4 && strings.HasPrefix(s, `"0x`) && s[len(s)-1] == '"' {
 			s, base = s[3:len(s)-1], 16
 		}
-		i, err := strconv.ParseInt(s, base, 64)
+		i, err := strconv.ParseUint(s, base, 63)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 43412149a91d7bbd7375f40e359dfa31497577b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:41 +0000
Subject: [PATCH 098/101] fix: tevm gives every transaction of a big block its
 own hash

---
 tevm/evm.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 128690e..aa04189 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -1023,8 +1023,10 @@ func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 
 	// make up a tx hash:
 	// combine block number and transaction index deterministically
-	bh := n2h(uint64(*b.Number) | (uint64(len(b.Transactions)) << 48))
-	tx.Hash = seth.HashBytes(bh[:])
+	var id [16]byte
+	binary.LittleEndian.PutUint64(id[:8], uint64(*b.Number))
+	binary.LittleEndian.PutUint64(id[8:], uint64(len(b.Transactions)))
+	tx.Hash = seth.HashBytes(id[:])
 	h = tx.Hash
 
 	l0 := len(c.State.Logs)
-- 
2.43.0


From c7193fa2faebc9d1f9ba834358458dca6c805887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:41 +0000
Subject: [PATCH 099/101] fix: eth block refuses a range with a negative count

---
 cmd/eth/block.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/eth/block.go b/cmd/eth/block.go
index 5db2d23..e6ce34d 100644
--- a/cmd/eth/block.go
+++ b/cmd/eth/block.go
@@ -58,6 +58,9 @@ func blockrange(c *seth.Client, spec string) {
 	if err != nil {
 		fatalf("couldn't parse %q as an integer: %s\n", split[1], err)
 	}
+	if diff < 0 {
+		fatalf("bad block range specifier %q\n", spec)
+	}
 	op := func(a, b int64) int64 { return a + b }
 	if opstr == "-" {
 		// below zero are the special block numbers
-- 
2.43.0


From c495c6c4fb28fac034bdbb69bdb2f5798b426215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:41 +0000
Subject: [PATCH 100/101] fix: eth post refuses a file holding just a newline

---
 cmd/eth/post.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/eth/post.go b/cmd/eth/post.go
index 0133b0c..f6dd32a 100644
--- a/cmd/eth/post.go
+++ b/cmd/eth/post.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"encoding/hex"
 	"flag"
 	"fmt"
@@ -42,12 +43,10 @@ func post(fs *flag.FlagSet) {
 		if err != nil {
 			fatalf("reading arg%d: %s\n", i, err)
 		}
+		hexbuf = bytes.TrimSuffix(hexbuf, []byte("\n"))
 		if len(hexbuf) == 0 {
 			fatalf("zero-length input can't possibly be a transaction\n")
 		}
-		if hexbuf[len(hexbuf)-1] == '\n' {
-			hexbuf = hexbuf[:len(hexbuf)-1]
-		}
 		buf := make([]byte, hex.DecodedLen(len(hexbuf)))
 		_, err = hex.Decode(buf, hexbuf)
 		if err != nil {
-- 
2.43.0


From 349810b0a4164dd38e4de31882b8efc671fe7d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:41 +0000
Subject: [PATCH 101/101] fix: eth call -g neither overflows nor takes a
 negative gas price

---
 cmd/eth/call.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index a175e1e..5a9d1a4 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -265,11 +265,17 @@ func call(fs *flag.FlagSet) {
 		fatalf("%d more arguments than signature %q wants\n", extra, args[1])
 	}
 
+	if gweicall < 0 {
+		fatalf("bad gas price %d\n", gweicall)
+	}
+	price := big.NewInt(int64(gweicall))
+	price.Mul(price, big.NewInt(1e9))
+
 	sign, from := signer()
 	opts := seth.CallOpts{
 		From:     &from,
 		To:       addr,
-		GasPrice: seth.NewInt(int64(gweicall) * 1e9),
+		GasPrice: (*seth.Int)(price),
 	}
 	if noncecall >= 0 {
 		u := seth.Uint64(noncecall)
-- 
2.43.0

