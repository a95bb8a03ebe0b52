"""Edits used to exercise the checks: BUGS break the named properties, REFS keep behaviour."""
import re, glob, os

def all_checks():
    ids = set()
    for f in glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../analyzer/*.go")):
        ids |= set(re.findall(r'reg(?:ister)?\("(C\d+)"', open(f).read()))
    return sorted(ids)

BUGS = []
REFS = []

def bug(name, ids, *edits):
    BUGS.append((name, list(edits), ids.split() if isinstance(ids, str) else ids))

def ref(name, *edits):
    REFS.append((name, list(edits)))

# ---- library: panics and hangs
bug("seed-negative-ok", "C12", ("seed.go", 'if entropyInt.Sign() < 0 {', 'if false {'))
bug("seed-no-copy", "C12", ("seed.go", 'value: new(big.Int).Set(entropyInt),', 'value: entropyInt,'))
bug("seed-int-alias", "C12", ("seed.go", 'return new(big.Int).Set(seed.value)', 'return seed.value'))
bug("seed-bits-129", "C12", ("seed.go", 'l > EntropyBitCount {', 'l > EntropyBitCount+1 {'))
bug("seed-gen-127", "C12", ("seed.go", 'Lsh(bigOne, EntropyBitCount)', 'Lsh(bigOne, EntropyBitCount-1)'))
bug("seed-gen-ignores-reader", "C12", ("seed.go", 'rand.Int(random, maxSeedInt)', 'rand.Int(rand.Reader, maxSeedInt)'))
bug("seed-bigone-mutated", "C18", ("seed.go", 'new(big.Int).Lsh(bigOne, EntropyBitCount)', 'bigOne.Lsh(bigOne, 0).Add(bigOne, new(big.Int))\n\tbigOne.SetInt64(1 + 0*int64(EntropyBitCount))\n\tmaxSeedInt = maxSeedInt.Lsh(bigOne, EntropyBitCount)')) if False else None
bug("decode-no-empty-check", "C05", ("recovery.go", 'if len(words) == 0 {', 'if words == nil {'))
ref("decode-no-len-check", ("recovery.go", 'len(words) != version.MnemonicSize()', 'len(words) < version.MnemonicSize()'))
bug("mnemonic-len-short", "C05 C04", ("recovery.go", 'len(words) != version.MnemonicSize()', 'len(words) > version.MnemonicSize()'))
bug("indices-no-limit", "C32", ("mnemonic/encode.go", 'if uint(bits.Len16(index)) > BitsPerWord {', 'if uint(bits.Len16(index)) > BitsPerWord+1 {'))
bug("indices-mutate", "C32", ("mnemonic/encode.go", 'remaining := new(big.Int).Set(payloadInt)', 'remaining := payloadInt'))
bug("encindices-neg", "C32", ("mnemonic/encode.go", 'if payloadInt.Sign() < 0 {', 'if payloadInt.Sign() < -1 {'))
# ---- encrypted phrase
bug("enc-empty-pw", "C06", ("encoding.go", 'if len(password) == 0 {', 'if password == nil {'))
bug("enc-salt-const", "C06", ("encoding.go", 'saltInt, err := rand.Int(random, big.NewInt(int64(1<<SaltBitCount)))', 'saltInt, err := big.NewInt(int64(creationOffset&0x7ffff)), error(nil)\n\t_ = rand.Int'))
bug("enc-key-nopw", "C06", ("encoding.go", 'argon2.IDKey(password, encSeedSaltBuf', 'argon2.IDKey(encSeedSaltBuf.Bytes(), encSeedSaltBuf'))
bug("enc-shared-salt", "C06 C18", ("encoding.go", '	saltInt, err := rand.Int(random, big.NewInt(int64(1<<SaltBitCount)))\n', '	var err error\n	if cachedSalt == nil {\n		cachedSalt, err = rand.Int(random, big.NewInt(int64(1<<SaltBitCount)))\n	}\n	saltInt := cachedSalt\n'), ("encoding.go", 'func encodeMnemonic(', 'var cachedSalt *big.Int\n\nfunc encodeMnemonic('))
bug("enc-err-dropped", "C20", ("encoding.go", '	if err != nil {\n		return nil, err\n	}\n\n	encSeedSaltBuf', '	if saltInt == nil {\n		saltInt = new(big.Int)\n	}\n\n	encSeedSaltBuf'))
bug("dec-seed-unguarded", "C06", ("recovery.go", '	if dm.Encrypted() {\n		return nil, fmt.Errorf("%w: must', '	if dm.Encrypted() && dm.salt.Sign() == 0 {\n		return nil, fmt.Errorf("%w: must'))
bug("dec-verify-loose", "C06", ("recovery.go", 'if encSeedVerifyActual != dm.encSeedVerify {', 'if encSeedVerifyActual>>1 != dm.encSeedVerify>>1 {'))
bug("dec-cache-seed", "C18", ("recovery.go", '	entropyInt := new(big.Int).SetBytes(decSeed)\n', '	entropyInt := new(big.Int).SetBytes(decSeed)\n	dm.entropy = entropyInt\n'))
# ---- derivation / domain separation
bug("auth-index-wrong", "C08 C07", ("derive.go", 'keyExpandInfoSubkey(SubkeyTypeAuthentication, opts.AuthenticationSubkeyIndex)', 'keyExpandInfoSubkey(SubkeyTypeAuthentication, opts.EncryptionSubkeyIndex)'))
bug("sign-shares-auth", "C08 C07", ("derive.go", 'keyExpandInfoSubkey(SubkeyTypeSigning, opts.SigningSubkeyIndex)', 'keyExpandInfoSubkey(SubkeyTypeAuthentication, opts.SigningSubkeyIndex)'))
bug("index-byte", "C08 C07", ("derive.go", 'PutUint16(info[len(keyInfoPrefix):], index)', 'PutUint16(info[len(keyInfoPrefix):], index&0x7fff)'))
bug("ttl-in-key", "C08", ("derive.go", 'uint32(creation.Unix()))', 'uint32(creation.Unix())+uint32(opts.TTL>>61))'))
bug("email-in-key", "C08 C07", ("derive.go", '[]byte(keyExpandInfoMaster))', '[]byte(keyExpandInfoMaster+opts.Email))'))
# ---- determinism
bug("shuffle-unseeded", "C09", ("pgp/key_set.go", 'rand.New(rand.NewSource(int64(seed)))', 'rand.New(rand.NewSource(rand.Int63() ^ int64(seed)))'))
bug("sigtime-now", "C09 C10", ("pgp/sign.go", 'uint32(req.Time.Unix()))', 'uint32(time.Now().Unix()))'))
bug("subkey-time-now-if-zero", "C09", ("pgp/master_key.go", '			Time:                  subkeyBase.Creation,\n		},\n	)\n}', '			Time:                  later(subkeyBase.Creation),\n		},\n	)\n}\n\nfunc later(t time.Time) time.Time {\n	if n := time.Now(); t.After(n) {\n		return n\n	}\n	return t\n}'))
bug("armor-header-env", "C09", ("mnemonikey.go", 'armor.Encode(buf, blockType, nil)', 'armor.Encode(buf, blockType, map[string]string{"Comment": os.Getenv("USER")})'), ("mnemonikey.go", 'import (', 'import (\n\t"os"'))
# ---- shared state and aliasing
0 and bug("oid-append-alias", "C18", ("pgp/ecc_key.go", '	buf.Write(key.CurveOID)\n', '	oid := key.CurveOID[:len(key.CurveOID):len(key.CurveOID)]\n	oid[0] |= 0x01\n	buf.Write(oid)\n'))
bug("fingerprint-cache", "C18", ("pgp/ecc_key.go", '	publicKeyPayload := key.encodePublic()\n\n	h := sha1.New()', '	if key.fp != nil {\n		return key.fp\n	}\n	publicKeyPayload := key.encodePublic()\n	defer func() { key.fp = make([]byte, 20) }()\n	h := sha1.New()'), ("pgp/ecc_key.go", '	ExtraPublicData   []byte\n', '	ExtraPublicData   []byte\n	fp []byte\n'))
bug("fingerprint-cache-alias", "C19 C18", ("pgp/ecc_key.go", '	publicKeyPayload := key.encodePublic()\n\n	h := sha1.New()', '	if key.fp != nil {\n		return key.fp\n	}\n	publicKeyPayload := key.encodePublic()\n\n	h := sha1.New()'), ("pgp/ecc_key.go", '	h.Write(publicKeyPayload)\n\n	return h.Sum(nil)\n}\n\n// FingerprintV5', '	h.Write(publicKeyPayload)\n\n	key.fp = h.Sum(nil)\n	return key.fp\n}\n\n// FingerprintV5'), ("pgp/ecc_key.go", '	ExtraPublicData   []byte\n', '	ExtraPublicData   []byte\n	fp []byte\n'))
bug("options-mutated", "C19", ("derive.go", '	rootKeySalt := make([]byte, 4)\n', '	if opts.Name == "" {\n		opts.Name = opts.Email\n		opts.Email = ""\n	}\n	rootKeySalt := make([]byte, 4)\n'))
bug("words-lowered-inplace", "C19", ("mnemonic/decode.go", 'for i, word := range words {', 'for i := range words {\n\t\twords[i] = strings.ToLower(words[i])\n\t\tword := words[i]'))
bug("password-wiped", "C19", ("recovery.go", '	encSeedVerifyActual := encSeedKey', '	for i := range password {\n		password[i] = 0\n	}\n	encSeedVerifyActual := encSeedKey'))
bug("s2k-password-append", "C19", ("pgp/s2k.go", 'preimage := append(salt, password...)', 'preimage := append(password, salt...)'))
bug("curve-inplace-clamp", "C19", ("pgp/encryption_subkey.go", 'privateKey := append([]byte{}, seed...)', 'privateKey := seed'))
# ---- errors
0 and bug("s2k-rand-ignored", "C20", ("pgp/s2k.go", 'if _, err := rand.Read(salt); err != nil {', 'if n, err := rand.Read(salt); err != nil && n == 0 && false {'))
bug("recover-err-swallowed", "C20 C04", ("recovery.go", '	if checksum != expectedChecksum {\n		return nil, ErrInvalidChecksum\n	}', '	if checksum != expectedChecksum {\n		return &DecodedMnemonic{Version: version}, ErrInvalidChecksum\n	}'))
bug("mnemonikey-nil-opts-shared", "C18", ("mnemonikey.go", '', '')) if False else None

bug("shuffle-global", "C09", ("pgp/key_set.go", 'rng.Shuffle(', '_ = rng\n\trand.Shuffle('))
bug("map-order", "C09", ("pgp/key_set.go", '	for _, packetGroup := range packetGroups {', '	byTag := map[int][]byte{}\n	for i, g := range packetGroups {\n		byTag[i] = g\n	}\n	for _, packetGroup := range byTag {'))
bug("password-first-byte", "C19", ("pgp/s2k.go", 'preimage := append(salt, password...)', 'if len(password) > 72 {\n\t\tpassword[72] = 0\n\t}\n\tpreimage := append(salt, password...)'))

# ---- refactorings that keep behaviour
ref("bitbuffer-methods",
    ("bit_buffer.go", '	// mask = ((1 << n) - 1)\n	mask := new(big.Int).Lsh(bigOne, n)\n	mask.Sub(mask, bigOne)\n\n	// bits = mask & bb.value\n', '	mask := onesMask(n)\n'),
    ("bit_buffer.go", '', '\nfunc onesMask(n uint) *big.Int {\n	m := new(big.Int).Lsh(bigOne, n)\n	return m.Sub(m, bigOne)\n}\n'))
ref("bitbuffer-append-mul",
    ("bit_buffer.go", '	// bb.value <<= nBits\n	bb.value.Lsh(bb.value, nBits)\n\n	// bb.value |= value\n	bb.value.Or(bb.value, value)\n', '	shifted := new(big.Int).Mul(bb.value, new(big.Int).Lsh(bigOne, nBits))\n	bb.value = shifted.Add(shifted, value)\n'))
ref("bitbuffer-popleading",
    ("bit_buffer.go", '	bits := new(big.Int).Rsh(bb.value, bb.nBits-n)\n	bits.And(mask, bits)\n\n	// Remove the bits from bb.value\n	mask.Lsh(bits, bb.nBits-n)\n	bb.value.Xor(bb.value, mask)\n	bb.nBits -= n\n', '	rest := bb.nBits - n\n	bits := new(big.Int).Rsh(bb.value, rest)\n	bits.And(bits, mask)\n	bb.value.Sub(bb.value, new(big.Int).Lsh(bits, rest))\n	bb.nBits = rest\n'))
ref("indices-loop-desc",
    ("mnemonic/encode.go", '	for i := nWords - 1; remaining.BitLen() > 0; i-- {\n', '	for i := int(nWords) - 1; i >= 0; i-- {\n'))
ref("decode-words-append",
    ("mnemonic/decode.go", '	indices := make([]uint16, len(words))\n	for i, word := range words {', '	indices := make([]uint16, 0, len(words))\n	for _, word := range words {'),
    ("mnemonic/decode.go", 'indices[i] = index', 'indices = append(indices, index)'))
ref("decode-indices-horner",
    ("mnemonic/decode.go", '		payloadInt.Lsh(payloadInt, BitsPerWord)\n		payloadInt.Or(payloadInt, big.NewInt(int64(index)))\n', '		payloadInt.Mul(payloadInt, big.NewInt(1<<BitsPerWord))\n		payloadInt.Add(payloadInt, new(big.Int).SetUint64(uint64(index)))\n'))
ref("decode-indices-setbit",
    ("mnemonic/decode.go", '		payloadInt.Lsh(payloadInt, BitsPerWord)\n		payloadInt.Or(payloadInt, big.NewInt(int64(index)))\n', '		shiftIn(payloadInt, index)\n'),
    ("mnemonic/decode.go", '', '\nfunc shiftIn(n *big.Int, index uint16) {\n	n.Or(n.Lsh(n, BitsPerWord), big.NewInt(int64(index)))\n}\n'))
ref("encode-helper",
    ("encoding.go", '	payloadBitBuffer := newBitBuffer(big.NewInt(int64(version)), MnemonicVersionBitCount)\n	payloadBitBuffer.AppendTrailingBits(seed.Int(), EntropyBitCount)', '	payloadBitBuffer := startPayload(version)\n	payloadBitBuffer.AppendTrailingBits(seed.Int(), EntropyBitCount)'),
    ("encoding.go", '', '\nfunc startPayload(v MnemonicVersion) *bitBuffer {\n	return newBitBuffer(big.NewInt(int64(v)), MnemonicVersionBitCount)\n}\n'))
ref("encode-checks-reordered",
    ("encoding.go", '	if creationOffset >= 1<<CreationOffsetBitCount {\n		return nil, ErrCreationTooLate\n	}\n\n	if len(password) == 0 {\n		return nil, errors.New("cannot encrypt recovery phrase with empty password")\n	}\n', '	if len(password) == 0 {\n		return nil, errors.New("cannot encrypt recovery phrase with empty password")\n	}\n\n	if creationOffset>>CreationOffsetBitCount != 0 {\n		return nil, ErrCreationTooLate\n	}\n'))
ref("crc-table",
    ("encoding.go", 'crc32.ChecksumIEEE(payloadBitBuffer.Bytes())', 'crc32.Checksum(payloadBitBuffer.Bytes(), crc32.IEEETable)'))
ref("crc-hash",
    ("recovery.go", '	checksum := checksumMask & crc32.ChecksumIEEE(payloadBitBuffer.Bytes())\n', '	crc := crc32.NewIEEE()\n	crc.Write(payloadBitBuffer.Bytes())\n	checksum := crc.Sum32() & checksumMask\n'))
ref("crc-mod",
    ("recovery.go", 'checksumMask & crc32.ChecksumIEEE(payloadBitBuffer.Bytes())', 'crc32.ChecksumIEEE(payloadBitBuffer.Bytes()) % 32'))
ref("recover-shared-tail",
    ("recovery.go", '	mnk, err := New(seed, decodedMnemonic.Creation(), keyOpts)\n	if err != nil {\n		return nil, fmt.Errorf("failed to recover key from decoded mnemonic: %w", err)\n	}\n\n	return mnk, nil\n', '	return derive(seed, decodedMnemonic, keyOpts)\n'),
    ("recovery.go", '', '\nfunc derive(seed *Seed, dm *DecodedMnemonic, opts *KeyOptions) (*Mnemonikey, error) {\n	mnk, err := New(seed, dm.Creation(), opts)\n	if err != nil {\n		return nil, fmt.Errorf("failed to recover key from decoded mnemonic: %w", err)\n	}\n	return mnk, nil\n}\n'))
ref("decode-switch-version",
    ("recovery.go", '	if version == 1 {\n', '	if version.Encrypted() {\n'))
ref("decrypt-split",
    ("recovery.go", '	encSeedVerifyActual := encSeedKey[16] & encSeedVerifyMask\n	if encSeedVerifyActual != dm.encSeedVerify {', '	cipherKey, verify := encSeedKey[:16], encSeedKey[16]%(1<<EncSeedVerifyBitCount)\n	if dm.encSeedVerify != verify {'),
    ("recovery.go", 'block, err := aes.NewCipher(encSeedKey[:16])', 'block, err := aes.NewCipher(cipherKey)'))
ref("subtle-verify",
    ("recovery.go", 'if encSeedVerifyActual != dm.encSeedVerify {', 'if subtle.ConstantTimeByteEq(encSeedVerifyActual, dm.encSeedVerify) != 1 {'),
    ("recovery.go", 'import (', 'import (\n\t"crypto/subtle"'))
ref("derive-table",
    ("derive.go", '	if opts.subkeyEnabled(SubkeyTypeSigning) {\n		sigKeyInfo := keyExpandInfoSubkey(SubkeyTypeSigning, opts.SigningSubkeyIndex)\n		signingSubkeySeed, err := hkdfExpand(rootKey, 32, sigKeyInfo)\n		if err != nil {\n			return nil, fmt.Errorf("failed to derive signing subkey from seed: %w", err)\n		}\n		pgpKeySet.SigningSubkey, err = pgp.NewED25519Subkey(signingSubkeySeed, creation, expiry)\n		if err != nil {\n			return nil, err\n		}\n	}\n',
     '	if opts.subkeyEnabled(SubkeyTypeSigning) {\n		sub, err := edSubkey(rootKey, SubkeyTypeSigning, opts.SigningSubkeyIndex, creation, expiry)\n		if err != nil {\n			return nil, err\n		}\n		pgpKeySet.SigningSubkey = sub\n	}\n'),
    ("derive.go", '', '\nfunc edSubkey(rootKey []byte, t SubkeyType, index uint16, creation, expiry time.Time) (*pgp.ED25519Subkey, error) {\n	seed, err := hkdfExpand(rootKey, 32, keyExpandInfoSubkey(t, index))\n	if err != nil {\n		return nil, fmt.Errorf("failed to derive %s subkey from seed: %w", t, err)\n	}\n	return pgp.NewED25519Subkey(seed, creation, expiry)\n}\n'))
ref("info-append",
    ("derive.go", '	info := make([]byte, len(keyInfoPrefix)+2)\n	copy(info, keyInfoPrefix)\n	binary.BigEndian.PutUint16(info[len(keyInfoPrefix):], index)\n	return info\n', '	return append([]byte(keyInfoPrefix), byte(index>>8), byte(index))\n'))
ref("info-appenduint16",
    ("derive.go", '	info := make([]byte, len(keyInfoPrefix)+2)\n	copy(info, keyInfoPrefix)\n	binary.BigEndian.PutUint16(info[len(keyInfoPrefix):], index)\n	return info\n', '	return binary.BigEndian.AppendUint16([]byte(keyInfoPrefix), index)\n'))
ref("subkey-enabled-loop",
    ("key_options.go", '	for _, subkeyType := range opts.Subkeys {\n		if subkeyType == targetType {\n			return true\n		}\n	}\n	return false\n', '	found := false\n	for i := 0; i < len(opts.Subkeys); i++ {\n		found = found || opts.Subkeys[i] == targetType\n	}\n	return found\n'))
ref("expiry-direct",
    ("derive.go", 'expiry = time.Unix(creation.Add(opts.TTL).Unix(), 0).UTC()', 'expiry = creation.Add(opts.TTL).Truncate(time.Second).UTC()'))
ref("expiry-ttl-trunc",
    ("derive.go", 'expiry = time.Unix(creation.Add(opts.TTL).Unix(), 0).UTC()', 'expiry = creation.Add(opts.TTL - opts.TTL%time.Second).UTC()'))
ref("new-truncate",
    ("mnemonikey.go", '	creationOffset := creation.Sub(EpochStart) / EpochIncrement\n	creation = EpochStart.Add(EpochIncrement * creationOffset)\n', '	elapsed := creation.Sub(EpochStart)\n	creation = EpochStart.Add(elapsed - elapsed%EpochIncrement)\n'))
ref("new-unix-floor",
    ("mnemonikey.go", '	creationOffset := creation.Sub(EpochStart) / EpochIncrement\n	creation = EpochStart.Add(EpochIncrement * creationOffset)\n', '	creation = time.Unix(creation.Unix(), 0).UTC()\n'))
ref("new-switch",
    ("mnemonikey.go", '	if opts.TTL < 0 {\n		return nil, ErrTTLInvalid\n	} else if opts.TTL > 0 && (opts.TTL < time.Second || opts.TTL/time.Second > math.MaxUint32) {\n		return nil, ErrTTLOutOfRange\n	} else if creation.After(MaxCreationTime) {\n		return nil, ErrCreationTooLate\n	} else if creation.Before(EpochStart) {\n		return nil, ErrCreationTooEarly\n	}\n', '	if err := checkTimes(creation, opts.TTL); err != nil {\n		return nil, err\n	}\n'),
    ("mnemonikey.go", '', '\nfunc checkTimes(creation time.Time, ttl time.Duration) error {\n	switch {\n	case creation.Before(EpochStart):\n		return ErrCreationTooEarly\n	case creation.After(MaxCreationTime):\n		return ErrCreationTooLate\n	case ttl < 0:\n		return ErrTTLInvalid\n	case ttl == 0:\n		return nil\n	case ttl < time.Second, ttl/time.Second > math.MaxUint32:\n		return ErrTTLOutOfRange\n	}\n	return nil\n}\n'))
ref("armor-helper-inline",
    ("mnemonikey.go", '	keyPacketData, err := mnk.pgpKeySet.EncodePackets(password)\n	if err != nil {\n		return "", err\n	}\n	pgpArmorKey, err := armorEncode(openpgp.PrivateKeyType, keyPacketData)\n	if err != nil {\n		return "", err\n	}\n	return pgpArmorKey, nil\n', '	data, err := mnk.EncodePGP(password)\n	if err != nil {\n		return "", err\n	}\n	return armorEncode(openpgp.PrivateKeyType, data)\n'))
ref("armor-strings-builder",
    ("mnemonikey.go", 'buf := new(bytes.Buffer)', 'buf := new(strings.Builder)'), ("mnemonikey.go", '	"bytes"\n', '	"strings"\n'))
ref("mpi-fillbytes",
    ("pgp/mpi.go", '	copy(encoded[2:], n.Bytes())\n', '	n.FillBytes(encoded[2:])\n'))
ref("mpi-append",
    ("pgp/mpi.go", '	outLen := (bitLen+7)/8 + 2\n	encoded := make([]byte, outLen)\n\n	binary.BigEndian.PutUint16(encoded, uint16(bitLen))\n	copy(encoded[2:], n.Bytes())\n\n	return encoded\n', '	encoded := []byte{byte(bitLen >> 8), byte(bitLen)}\n	return append(encoded, n.Bytes()...)\n'),
    ("pgp/mpi.go", '	var buf [2]byte\n	binary.BigEndian.PutUint16(buf[:], checksum)\n	return buf[:]\n', '	return binary.BigEndian.AppendUint16(nil, checksum)\n'))
ref("mpi-checksum-uint32",
    ("pgp/mpi.go", '	var checksum uint16\n	for _, b := range mpi {\n		checksum += uint16(b)\n	}\n', '	total := 0\n	for i := range mpi {\n		total += int(mpi[i])\n	}\n	checksum := uint16(total % 65536)\n'))
ref("packet-buffer",
    ("pgp/packet.go", '	payloadSize := len(payload)\n	lengthEncoded := packetLengthEncode(payloadSize)\n\n	encoded := make([]byte, 1+len(lengthEncoded)+payloadSize)\n	encoded[0] = 0b11000000 | byte(tag)\n	copy(encoded[1:], lengthEncoded)\n	copy(encoded[1+len(lengthEncoded):], payload)\n\n	return encoded\n', '	encoded := append([]byte{0xC0 | byte(tag)}, packetLengthEncode(len(payload))...)\n	return append(encoded, payload...)\n'))
ref("packet-length-switch",
    ("pgp/packet.go", '	if payloadSize <= 191 {\n		return []byte{byte(payloadSize)}\n	}\n\n	if payloadSize <= 8383 {\n		k := payloadSize - 192\n		return []byte{byte(k>>8) + 192, byte(k)}\n	}\n', '	switch {\n	case payloadSize < 192:\n		return []byte{byte(payloadSize)}\n	case payloadSize < 8384:\n		k := payloadSize - 192\n		return []byte{192 + byte(k/256), byte(k % 256)}\n	}\n'))
ref("sign-concat",
    ("pgp/sign.go", '	h.Write(signatureHashPreimage)\n	h.Write(signatureTrailer)\n	binary.Write(h, binary.BigEndian, uint32(len(signatureHashPreimage)))\n', '	trailer := append([]byte{}, signatureTrailer...)\n	trailer = binary.BigEndian.AppendUint32(trailer, uint32(len(signatureHashPreimage)))\n	h.Write(append(append([]byte{}, signatureHashPreimage...), trailer...))\n'))
ref("subpacket-encode",
    ("pgp/signature.go", '	buf := new(bytes.Buffer)\n	buf.Write(packetLengthEncode(len(sp.Body) + 1))\n	buf.WriteByte(byte(sp.Type))\n	buf.Write(sp.Body)\n	return buf.Bytes()\n', '	out := packetLengthEncode(1 + len(sp.Body))\n	out = append(out, byte(sp.Type))\n	return append(out, sp.Body...)\n'))
ref("subpackets-two-pass",
    ("pgp/signature.go", '	encoded := make([]byte, 2)\n	for _, sp := range subpackets {\n		encoded = append(encoded, sp.Encode()...)\n	}\n	binary.BigEndian.PutUint16(encoded, uint16(len(encoded)-2))\n	return encoded\n', '	var body bytes.Buffer\n	for i := 0; i < len(subpackets); i++ {\n		body.Write(subpackets[i].Encode())\n	}\n	_ = binary.BigEndian\n	size := body.Len()\n	return append([]byte{byte(size >> 8), byte(size)}, body.Bytes()...)\n'))
ref("userid-switch",
    ("pgp/user_id.go", '	if id.Email == "" {\n		return []byte(id.Name)\n	}\n	if id.Name == "" {\n		return []byte(id.Email)\n	}\n\n	return []byte(fmt.Sprintf("%s <%s>", id.Name, id.Email))\n', '	switch {\n	case len(id.Email) == 0:\n		return []byte(id.Name)\n	case len(id.Name) == 0:\n		return []byte(id.Email)\n	}\n	return []byte(id.Name + " <" + id.Email + ">")\n'),
    ("pgp/user_id.go", 'import "fmt"\n', ''))
ref("keyset-groups",
    ("pgp/key_set.go", '	for _, packetGroup := range packetGroups {\n		buf.Write(packetGroup)\n	}\n\n	return buf.Bytes(), nil\n', '	buf.Write(bytes.Join(packetGroups, nil))\n	return buf.Bytes(), nil\n'))
ref("keyset-bind-helper",
    ("pgp/key_set.go", '	packets := append(signingSubkeyPacket, signSubkeyBindSig.EncodePacket()...)\n	return packets, nil\n', '	return joinPackets(signingSubkeyPacket, signSubkeyBindSig), nil\n'),
    ("pgp/key_set.go", '', '\nfunc joinPackets(key []byte, sig *Signature) []byte {\n	out := make([]byte, 0, len(key)+256)\n	out = append(out, key...)\n	return append(out, sig.EncodePacket()...)\n}\n'))
ref("master-expiry-helper",
    ("pgp/master_key.go", '	if !key.Expiry.IsZero() {\n		expiryTime := make([]byte, 4)\n		binary.BigEndian.PutUint32(expiryTime, uint32(key.Expiry.Sub(key.Creation).Seconds()))\n		subpackets = append(subpackets, &Subpacket{\n			Type: SubpacketTypeExpiry,\n			Body: expiryTime,\n		})\n	}\n', '	if sp := expirySubpacket(key.Creation, key.Expiry); sp != nil {\n		subpackets = append(subpackets, sp)\n	}\n'),
    ("pgp/master_key.go", '', '\nfunc expirySubpacket(creation, expiry time.Time) *Subpacket {\n	if expiry.IsZero() {\n		return nil\n	}\n	body := make([]byte, 4)\n	binary.BigEndian.PutUint32(body, uint32(expiry.Unix()-creation.Unix()))\n	return &Subpacket{Type: SubpacketTypeExpiry, Body: body}\n}\n'))
ref("fingerprint-helper",
    ("pgp/ecc_key.go", '	h := sha1.New()\n	h.Write([]byte{publicKeyPrefixV4})\n	binary.Write(h, binary.BigEndian, uint16(len(publicKeyPayload)))\n	h.Write(publicKeyPayload)\n\n	return h.Sum(nil)\n', '	preimage := []byte{publicKeyPrefixV4, 0, 0}\n	binary.BigEndian.PutUint16(preimage[1:], uint16(len(publicKeyPayload)))\n	sum := sha1.Sum(append(preimage, publicKeyPayload...))\n	return sum[:]\n'))
ref("s2k-stream",
    ("pgp/s2k.go", '	m := byteCount / len(preimage)\n	for i := 0; i < m; i++ {\n		h.Write(preimage)\n	}\n\n	remainder := byteCount % len(preimage)\n	h.Write(preimage[:remainder])\n', '	for byteCount > len(preimage) {\n		h.Write(preimage)\n		byteCount -= len(preimage)\n	}\n	h.Write(preimage[:byteCount])\n'))
ref("s2k-one-read",
    ("pgp/s2k.go", '	salt := make([]byte, 8)\n	if _, err := rand.Read(salt); err != nil {\n		return nil, fmt.Errorf("failed to read random salt: %w", err)\n	}\n\n	iv := make([]byte, 16)\n	if _, err := rand.Read(iv); err != nil {\n		return nil, fmt.Errorf("failed to read random IV: %w", err)\n	}\n', '	random := make([]byte, 24)\n	if _, err := rand.Read(random); err != nil {\n		return nil, fmt.Errorf("failed to read random salt and IV: %w", err)\n	}\n	salt, iv := random[:8:8], random[8:]\n'))
ref("seed-gen-bytes",
    ("seed.go", '	maxSeedInt := new(big.Int).Lsh(bigOne, EntropyBitCount)\n	entropyInt, err := rand.Int(random, maxSeedInt)\n	if err != nil {', '	entropy := make([]byte, EntropyBitCount/8)\n	_, err := io.ReadFull(random, entropy)\n	entropyInt := new(big.Int).SetBytes(entropy)\n	_ = rand.Reader\n	if err != nil {'))
ref("curve-reverse",
    ("pgp/encryption_subkey.go", '	for i := 0; i < length; i++ {\n		reversed[length-i-1] = original[i]\n	}\n', '	for i, j := 0, length-1; j >= 0; i, j = i+1, j-1 {\n		reversed[i] = original[j]\n	}\n'))
ref("curve-pub-from-clamped",
    ("pgp/encryption_subkey.go", 'curve25519.X25519(seed, curve25519.Basepoint)', 'curve25519.X25519(privateKey, curve25519.Basepoint)'))
ref("subkeytypes-loop",
    ("mnemonikey.go", '	subkeyTypes := make([]SubkeyType, 0, 3)\n', '	var subkeyTypes []SubkeyType = []SubkeyType{}\n'))

# ---- command line: bugs
G, R, V, O, W, T, X, K, M = ["cmd/mnemonikey/" + f for f in ("generate.go", "recover.go", "convert.go", "common_opts.go", "word_input.go", "terminal.go", "expiry.go", "command.go", "main.go")]
bug("cli-key-to-stderr-verbose", "C21", (R, '	fmt.Println(pgpArmorKey)', '	if opts.Verbose {\n		eprintln(pgpArmorKey)\n	} else {\n		fmt.Println(pgpArmorKey)\n	}'))
bug("cli-convert-stdout", "C21", (G, 'func eprintWords', 'x')) if False else None
bug("cli-mnemonic-stdout", "C21", (G, 'eprintf("%s:%s%s\\n", humanIndex, spacing, bold(magenta((word))))', 'fmt.Printf("%s:%s%s\\n", humanIndex, spacing, bold(magenta((word))))'))
bug("cli-usage-stdout", "C21", (K, '		out := flags.Output()', '		flags.SetOutput(os.Stdout)\n		out := flags.Output()'), (K, '	"fmt"\n', '	"fmt"\n	"os"\n'))
bug("cli-key-before-save", "C21 C23 C26", (G, '	if opts.OutputWordFile != "" {\n		if err := saveMnemonic', '	fmt.Println(pgpArmorKey)\n	if opts.OutputWordFile != "" {\n		if err := saveMnemonic'), (G, '	eprint(magentaStart)\n	fmt.Println(pgpArmorKey)\n	eprint(colorEnd)\n', ''))
bug("cli-no-newline", "C21", (R, 'fmt.Println(pgpArmorKey)', 'fmt.Print(pgpArmorKey)'))
bug("cli-version-stdout", "C21", (R, '		eprintln("Decoded mnemonic recovery phrase:")', '		fmt.Println("Decoded mnemonic recovery phrase:")'))
bug("cli-leak-words-verbose", "C22", (R, '			{"encrypted", fmt.Sprint(decodedMnemonic.Encrypted())},', '			{"encrypted", fmt.Sprint(decodedMnemonic.Encrypted())},\n			{"first word", words[0]},'))
bug("cli-leak-seed-verbose", "C22", (G, '		printKeyDebugInfo(mnk)\n', '		printKeyDebugInfo(mnk)\n		eprintf("seed %x\\n", seed.Bytes())\n'))
bug("cli-leak-password", "C22", (W, 'errChan <- fmt.Errorf("failed to confirm password: %w", err)', 'errChan <- fmt.Errorf("failed to confirm password %q: %w", pass1, err)'))
bug("cli-leak-badword", "C22", (R, 'fmt.Errorf("found word in %s not present in wordlist", fpath)', 'fmt.Errorf("found word %q in %s not present in wordlist", word, fpath)'))
bug("cli-leak-env", "C22", (W, '			passChan <- pass1', '			os.Setenv("MNEMONIKEY_PASS", string(pass1))\n			passChan <- pass1'))
bug("cli-print-when-saved", "C22", (G, '	if opts.OutputWordFile == "" {\n		printMnemonic(recoveryMnemonic)\n	}', '	if opts.OutputWordFile == "" || opts.EncryptPhrase {\n		printMnemonic(recoveryMnemonic)\n	}'))
bug("cli-file-backup", "C22 C23", (G, '	if _, err := file.WriteString(', '	os.WriteFile(wordFile+".bak", []byte(strings.Join(words, " ")), 0600)\n	if _, err := file.WriteString('))
bug("cli-file-trunc", "C23", (G, 'os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)', 'os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)'))
bug("cli-file-0644", "C23", (G, 'os.O_EXCL, 0600)', 'os.O_EXCL, 0644)'))
bug("cli-file-chmod", "C23", (G, '	if err := file.Close(); err != nil {', '	os.Chmod(wordFile, 0640)\n	if err := file.Close(); err != nil {'))
bug("cli-file-write-ignored", "C23 C26", (G, '		file.Close()\n		return fmt.Errorf("failed to write words to file: %w", err)', '		file.Close()\n		return nil'))
bug("cli-file-close-ignored", "C23 C26", (G, '	if err := file.Close(); err != nil {\n		return fmt.Errorf("failed to write words to file: %w", err)\n	}\n', '	file.Close()\n'))
bug("cli-file-newlines", "C23", (G, 'strings.Join(words, " ") + "\\n"', 'strings.Join(words, "\\n") + "\\n"'))
bug("cli-file-no-newline", "C23", (G, 'strings.Join(words, " ") + "\\n"', 'strings.Join(words, " ")'))
bug("cli-file-remove-on-exist", "C23", (G, '	if errors.Is(err, fs.ErrExist) {', '	if errors.Is(err, fs.ErrExist) && os.Remove(wordFile) == nil {\n		return saveMnemonic(words, wordFile)\n	}\n	if errors.Is(err, fs.ErrExist) {'))
bug("cli-file-create", "C23", (G, 'os.OpenFile(wordFile, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)', 'os.Create(wordFile)'))
bug("cli-save-err-dropped", "C23 C26", (V, '		if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {\n			return fmt.Errorf("failed to write words to file: %w", err)\n		}', '		if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {\n			fmt.Fprintln(os.Stderr, "failed to write words to file", err)\n		}'), (V, '	"fmt"\n', '	"fmt"\n	"os"\n'))
bug("cli-index-swap", "C24", (R, 'uint16(opts.AuthenticationSubkeyIndex)', 'uint16(opts.SigningSubkeyIndex)'), (R, 'SigningSubkeyIndex:        uint16(opts.SigningSubkeyIndex)', 'SigningSubkeyIndex:        uint16(opts.AuthenticationSubkeyIndex)'))
bug("cli-index-unchecked", "C24", (R, '		opts.AuthenticationSubkeyIndex > maxSubkeyIndex ||\n', ''))
bug("cli-index-limit", "C24 C26", (R, 'maxSubkeyIndex uint = 0xFFFF', 'maxSubkeyIndex uint = 0x10000'))
bug("cli-index-limit-low", "C24", (R, 'maxSubkeyIndex uint = 0xFFFF', 'maxSubkeyIndex uint = 0x7FFF'))
bug("cli-no-trim", "C24", (R, 'strings.TrimSpace(opts.Email)', 'opts.Email'))
bug("cli-trim-more", "C24", (G, 'strings.TrimSpace(opts.Name)', 'strings.Trim(opts.Name, " ")'))
bug("cli-self-cert-ignored", "C24", (R, 'EncodeSubkeysPGPArmor(password, opts.SelfCert)', 'EncodeSubkeysPGPArmor(password, true)'))
bug("cli-self-cert-gen", "C24", (G, 'EncodeSubkeysPGPArmor(pgpEncryptionPassword, true)', 'EncodeSubkeysPGPArmor(pgpEncryptionPassword, false)'))
bug("cli-only-ignored", "C24", (R, '	keyOptions.Subkeys = subkeyTypes\n', '	_ = subkeyTypes\n'))
bug("cli-only-master-empty", "C24", (O, '		subkeyTypes = make([]mnemonikey.SubkeyType, 0, len(onlyKeyTypes))\n', ''))
bug("cli-only-sign-missing", "C24", (O, 'keyType == string(mnemonikey.SubkeyTypeAuthentication) ||', 'keyType == "auth" ||'))
bug("cli-only-break", "C24", (O, '				outputMasterKey = true\n', '				outputMasterKey = true\n				break\n'))
bug("cli-pw-subkeys-dropped", "C24", (R, 'EncodeSubkeysPGPArmor(password, opts.SelfCert)', 'EncodeSubkeysPGPArmor(nil, opts.SelfCert)'))
bug("cli-recover-time", "C24", (R, 'mnemonikey.New(seed, decodedMnemonic.Creation(), keyOptions)', 'mnemonikey.New(seed, decodedMnemonic.Creation().Add(1e9), keyOptions)'))
bug("cli-default-name", "C24", (G, 'DefaultName = "anonymous"', 'DefaultName = "Anonymous"'))
bug("cli-name-empty-default", "C24", (G, '	var (\n		creation', '	if keyOptions.Name == "" {\n		keyOptions.Name = DefaultName\n	}\n	var (\n		creation'))
bug("cli-ttl-month30", "C25", (X, 'time.Hour * 24 * 365 / 12', 'time.Hour * 24 * 30'))
bug("cli-ttl-case", "C25", (X, 'durationUnits[strings.ToLower(input[len(input)-1:])]', 'durationUnits[input[len(input)-1:]]'), (X, '	"strings"\n', ''))
bug("cli-ttl-overflow", "C25", (X, 'if quantity > uint64(math.MaxInt64/unit) {', 'if quantity > uint64(math.MaxInt64) {'))
bug("cli-ttl-32", "C25", (X, 'strconv.ParseUint(input[:len(input)-1], 10, 64)', 'strconv.ParseUint(input[:len(input)-1], 10, 12)'))
bug("cli-ttl-signed", "C25", (X, 'strconv.ParseUint(input[:len(input)-1], 10, 64)', 'strconv.ParseUint(strings.TrimPrefix(input[:len(input)-1], "+"), 10, 64)'))
bug("cli-ttl-hours", "C25", (X, '	"d": time.Hour * 24,\n', '	"d": time.Hour * 24,\n	"h": time.Hour,\n'))
bug("cli-ttl-base0", "C25", (X, '10, 64)', '0, 64)'))
bug("cli-exit0", "C26", (M, '		os.Exit(1)', '		if !errors.Is(err, os.ErrNotExist) {\n			os.Exit(1)\n		}'))
bug("cli-exit-silent", "C26", (M, '		fmt.Fprintf(os.Stderr, "ERROR: %s\\n", err)\n', '		if !errors.Is(err, ErrPrintUsage) {\n			fmt.Fprint(os.Stderr, "")\n		}\n'))
bug("cli-graceful-unknown", "C26", (M, 'fmt.Errorf("%w: unknown subcommand %q", ErrPrintUsage, args[0])', 'fmt.Errorf("%w: unknown subcommand %q", ErrPrintUsageGraceful, args[0])'))
bug("cli-scanner-err", "C26", (R, '	if err := scanner.Err(); err != nil {\n		return nil, fmt.Errorf("failed to read word file %s: %w", fpath, err)\n	}\n', ''))
bug("cli-word-panic", "C26", (R, '	if len(words) == 0 {\n		return nil, fmt.Errorf("found only no words in word file %s", fpath)\n	}\n', ''))
bug("cli-words-truncated", "C26", (R, '	if len(words) != version.MnemonicSize() {', '	if len(words) > version.MnemonicSize() {\n		words = words[:version.MnemonicSize()]\n	}\n	if len(words) != version.MnemonicSize() {'))
bug("cli-continue-all-errors", "C26 C27", (R, 'if errors.Is(err, mnemonikey.ErrMnemonicDecryption) {', 'if err != nil {'), (R, '		} else if err != nil {\n			return nil, nil, err\n		}\n		return seed', '		}\n		return seed'), (R, '			if err != nil {\n				return nil, nil, err\n			}\n		}\n\n		// If', '			if err != nil {\n				eprintln(err)\n				continue\n			}\n		}\n\n		// If'), (R, '	"errors"\n', ''))
bug("cli-pw-empty-ok", "C27", (W, '			if len(pass1) == 0 {', '			if pass1 == nil {'))
bug("cli-pw-confirm-len", "C27", (W, 'if !bytes.Equal(pass1, pass2) {', 'if !bytes.HasPrefix(pass1, pass2) {'))
bug("cli-pw-confirm-once", "C27", (W, '					eprintln(red("\\nPasswords do not match. Please try again."))\n					continue', '					eprintln(red("\\nPasswords do not match. Please try again."))\n					confirm = false\n					continue'))
bug("cli-pw-second-used", "C27", (W, '					eprintln(red("\\nPasswords do not match. Please try again."))\n					continue', '					eprintln(red("\\nPasswords do not match."))\n					errChan <- nil\n					return'))
bug("cli-pw-no-restore", "C27", (W, '		eprintln()\n		term.Restore(int(os.Stdin.Fd()), oldState)\n', '		eprintln()\n'), (W, '	oldState, err := term.GetState', '	_, err := term.GetState'))
bug("cli-pw-echo", "C27", (W, 'pass2, err := term.ReadPassword(int(os.Stdin.Fd()))', 'sc := bufio.NewScanner(os.Stdin)\n				sc.Scan()\n				pass2, err := sc.Bytes(), sc.Err()'))
bug("cli-pw-noconfirm-convert", "C27", (G, 'userInputPassword("Enter key encryption password: ", true)', 'userInputPassword("Enter key encryption password: ", !opts.EncryptPhrase)')) if False else None
bug("cli-pw-noconfirm", "C27", (G, 'userInputPassword("Enter key encryption password: ", true)', 'userInputPassword("Enter key encryption password: ", false)'))
bug("cli-phrasepw-noconfirm", "C27", (V, 'userInputPassword("Enter phrase encryption password: ", true)', 'userInputPassword("Enter phrase encryption password: ", false)'))
bug("cli-left-arrow", "C28", (W, '					i -= 1\n					words = words[:i]', '					words = words[:i]\n					i -= 1'))
bug("cli-wordcount-stale", "C28", (W, '				if i == 0 {\n					version, err', '				if i == 0 && wordCount == 1 {\n					version, err'))
bug("cli-tab-nosuffix", "C28", (W, '				wordInput += searchResult.Suffixes[0]\n				continue', '				continue'))
bug("cli-submit-uncompleted", "C28", (W, 'completedWord := wordInput + searchResult.Suffixes[0]', 'completedWord := wordInput'))
bug("cli-raw-not-restored", "C28", (W, '		term.Restore(int(os.Stdin.Fd()), oldState)\n	}()', '		if err == nil && len(os.Args) < 2 {\n			term.Restore(int(os.Stdin.Fd()), oldState)\n		}\n	}()'))
bug("cli-simple-prefix", "C28", (W, 'if searchResult.ExactMatch {', 'if searchResult.ExactMatch || len(searchResult.Suffixes) == 1 {'))
bug("cli-simple-nolower", "C28", (W, 'strings.ToLower(strings.TrimSpace(scanner.Text()))', 'strings.TrimSpace(scanner.Text())'))
bug("cli-ctrl-d-submit", "C28", (W, '				return nil, fmt.Errorf("aborted")', '				return words, nil'))
bug("cli-simple-eof", "C28", (W, '			return nil, fmt.Errorf("unexpected EOF on standard input")', '			return words, nil'))
bug("cli-justify-loop", "C29", (T, 'for len(words) > 0 {\n		// Always place at least one word per line, even if it exceeds the width.\n		line := indentString + words[0]\n		words = words[1:]', 'for len(words) > 0 {\n		line := indentString\n		if len(line)+len(words[0]) <= maxWidth {\n			line += words[0]\n			words = words[1:]\n		}'))
bug("cli-justify-wide", "C29", (T, 'len(line)+len(words[0])+1 <= maxWidth', 'len(line)+len(words[0])+1 <= 4*maxWidth'))
bug("cli-help-short-circuit", "C29", (K, '			name, usage := flag.UnquoteUsage(f)\n', '			name, usage := flag.UnquoteUsage(f)\n			if f.Name == "unsafe-entropy" || f.DefValue == "0" {\n				return\n			}\n'))
bug("cli-help-error", "C29", (K, '		flags.Usage()\n		return nil\n', '		flags.Usage()\n		return ErrPrintUsage\n'))
bug("cli-convert-offset", "C30", (V, 'mnemonikey.EncodeMnemonicPlaintext(seed, decodedMnemonic.CreationOffset())', 'mnemonikey.EncodeMnemonicPlaintext(seed, decodedMnemonic.CreationOffset()+1)'))
bug("cli-convert-flag-inverted", "C30", (V, '	if opts.EncryptPhrase {', '	if opts.EncryptPhrase || decodedMnemonic.Encrypted() {'))
bug("cli-numbers", "C30", (G, 'strconv.Itoa(i + 1)', 'strconv.Itoa(i)'))
bug("cli-phrase-from-other-seed", "C30", (G, '		recoveryMnemonic, err = mnk.EncodeMnemonicPlaintext()', '		recoveryMnemonic, err = mnemonikey.EncodeMnemonicPlaintext(seed, uint32(time.Now().Unix()-mnemonikey.EpochStart.Unix()))')) if False else None
bug("cli-keypw-for-phrase", "C30", (G, 'mnk.EncodeMnemonicEncrypted(phraseEncryptionPassword, rand.Reader)', 'mnk.EncodeMnemonicEncrypted(append(pgpEncryptionPassword, phraseEncryptionPassword...), rand.Reader)'))
bug("cli-encphrase-ignored-file", "C30", (G, '	if opts.EncryptPhrase {', '	if opts.EncryptPhrase && opts.OutputWordFile == "" {'))
bug("cli-salt-from-entropy", "C31", (G, 'mnk.EncodeMnemonicEncrypted(phraseEncryptionPassword, rand.Reader)', 'mnk.EncodeMnemonicEncrypted(phraseEncryptionPassword, entropySource)'))
bug("cli-entropy-fallback", "C31", (G, '				return fmt.Errorf("failed to open entropy source file: %w", err)\n			}\n			defer file.Close()\n			entropySource = file\n', '				eprintln(err)\n			} else {\n				defer file.Close()\n				entropySource = file\n			}\n'))
bug("cli-entropy-ignored", "C31", (G, '			entropySource = os.Stdin', '			_ = os.Stdin'))
bug("cli-math-rand", "C31", (G, '	entropySource := rand.Reader\n', '	entropySource := io.Reader(mrand.New(mrand.NewSource(creation.UnixNano())))\n'), (G, '	"io/fs"\n', '	"io"\n	"io/fs"\n	mrand "math/rand"\n'))
bug("cli-entropy-bufio-zero", "C31", (G, '			entropySource = file\n', '			entropySource = io.MultiReader(file, zeroes{})\n'), (G, '	"io/fs"\n', '	"io"\n	"io/fs"\n'), (G, '', '\ntype zeroes struct{}\n\nfunc (zeroes) Read(p []byte) (int, error) {\n	for i := range p {\n		p[i] = 0\n	}\n	return len(p), nil\n}\n'))

import bugs_cli2
import bugs_lib3
bugs_lib3.add(bug)
bugs_cli2.add(bug)

import refs_cli
refs_cli.add(ref)

# ---- second batch of library bugs -------------------------------------------------------
bug("x-shared-mask", ["C18"],
    ("bit_buffer.go", 'bits := new(big.Int).And(mask, bb.value)', 'bits := new(big.Int).And(scratch.Set(mask), bb.value)'),
    ("bit_buffer.go", '', '\nvar scratch big.Int\n'))
bug("x-root-cache", ["C18", "C09"],
    ("derive.go", '	rootKey := argon2.IDKey(seed.Bytes(), rootKeySalt, argonTimeFactor, argonMemoryFactor, argonThreads, 32)\n', '	rootKey, ok := rootKeys[string(seed.Bytes())]\n	if !ok {\n		rootKey = argon2.IDKey(seed.Bytes(), rootKeySalt, argonTimeFactor, argonMemoryFactor, argonThreads, 32)\n		rootKeys[string(seed.Bytes())] = rootKey\n	}\n'),
    ("derive.go", '', '\nvar rootKeys = map[string][]byte{}\n'))
bug("x-trim-words", ["C04", "C32"], ("mnemonic/decode.go", 'strings.ToLower(word)', 'strings.ToLower(strings.TrimSpace(word))'))
bug("x-trim-first-word", ["C04"], ("recovery.go", 'strings.ToLower(firstWord)', 'strings.ToLower(strings.TrimRight(firstWord, ".,"))'), ("mnemonic/decode.go", 'strings.ToLower(word)', 'strings.ToLower(strings.TrimRight(word, ".,"))'))
bug("x-upper-only", ["C04", "C32"], ("mnemonic/decode.go", 'strings.ToLower(word)', 'strings.ToLower(word[:1])+word[1:]'))
bug("x-longer-ok", ["C04"], ("recovery.go", '	if len(words) != version.MnemonicSize() {\n		return nil, ErrInvalidWordCount\n	}\n', '	if len(words) < version.MnemonicSize() {\n		return nil, ErrInvalidWordCount\n	}\n	words = words[:version.MnemonicSize()]\n'))
bug("x-checksum-4bits", ["C04"], ("recovery.go", 'if checksum != expectedChecksum {', 'if checksum&0xf != expectedChecksum&0xf {'))
bug("x-checksum-v1-skipped", ["C04"], ("recovery.go", 'if checksum != expectedChecksum {', 'if checksum != expectedChecksum && !version.Encrypted() {'))
bug("x-version-unchecked", ["C04"], ("recovery.go", '	version = MnemonicVersion(uint(index) >> (wordlist4096.BitsPerWord - MnemonicVersionBitCount))\n	err = version.check()\n	return\n', '	version = MnemonicVersion(uint(index)>>(wordlist4096.BitsPerWord-MnemonicVersionBitCount)) & 7\n	err = version.check()\n	return\n'))
bug("x-empty-pw-skips-verify", ["C06"], ("recovery.go", 'if encSeedVerifyActual != dm.encSeedVerify {', 'if len(password) > 0 && encSeedVerifyActual != dm.encSeedVerify {'))
bug("x-nil-opts", ["C05"], ("mnemonikey.go", '	if opts == nil {\n		opts = new(KeyOptions)\n	}\n	if opts.TTL < 0 {', '	if opts.TTL < 0 {'))
bug("x-nil-opts-late", ["C05"], ("mnemonikey.go", '	if opts == nil {\n		opts = new(KeyOptions)\n	}\n	if opts.TTL < 0 {', '	if opts == nil && creation.After(MaxCreationTime) {\n		return nil, fmt.Errorf("%w: %v", ErrCreationTooLate, opts.TTL)\n	}\n	if opts == nil {\n		opts = new(KeyOptions)\n	}\n	if opts.TTL < 0 {'))
bug("x-expiry-round", ["C11"], ("derive.go", 'time.Unix(creation.Add(opts.TTL).Unix(), 0).UTC()', 'creation.Add(opts.TTL.Round(time.Second)).UTC()'))
bug("x-types-shared", ["C19"],
    ("mnemonikey.go", '	subkeyTypes := make([]SubkeyType, 0, 3)\n', '	if ks := mnk.pgpKeySet; ks.EncryptionSubkey != nil && ks.AuthenticationSubkey != nil && ks.SigningSubkey != nil {\n		return allTypes\n	}\n	subkeyTypes := make([]SubkeyType, 0, 3)\n'),
    ("mnemonikey.go", '', '\nvar allTypes = []SubkeyType{SubkeyTypeEncryption, SubkeyTypeAuthentication, SubkeyTypeSigning}\n'))
bug("x-userid-trim", ["C13"], ("pgp/user_id.go", 'import "fmt"', 'import (\n	"fmt"\n	"strings"\n)'), ("pgp/user_id.go", 'return []byte(id.Name)\n', 'return []byte(strings.TrimSpace(id.Name))\n'))
bug("x-userid-email-only", ["C13"], ("pgp/user_id.go", '		return []byte(id.Email)\n', '		return []byte("<" + id.Email + ">")\n'))
bug("x-flag-storage", ["C14"], ("pgp/key_set.go", 'keyFlagEncryptCommunications|keyFlagEncryptStorage', 'keyFlagEncryptCommunications|keyFlagSign>>1'))
bug("x-backsig-noexpiry", ["C14"], ("pgp/master_key.go", 'if keyFlags&keyFlagSign != 0 {', 'if keyFlags&keyFlagSign != 0 && expiry.IsZero() {'))
bug("x-backsig-by-master", ["C14"], ("pgp/master_key.go", '				subkeyBase.PrivateSigning,\n', '				key.Private,\n'))
bug("x-backsig-issuer", ["C14"], ("pgp/master_key.go", 'SigningKeyFingerprint: subkeyBase.FingerprintV4(),', 'SigningKeyFingerprint: key.FingerprintV4(),'))
bug("x-userid-len16", ["C14"], ("pgp/master_key.go", 'uint32(len(userIDPayload)))', 'uint32(uint16(len(userIDPayload))))'))
bug("x-mpi-fixed-bits", ["C13"], ("pgp/mpi.go", 'uint16(bitLen))', 'uint16(outLen-2)*8-uint16(outLen*8-16-bitLen)/8*8)'))
bug("x-mpi-byte-bits", ["C13"], ("pgp/mpi.go", 'binary.BigEndian.PutUint16(encoded, uint16(bitLen))', 'binary.BigEndian.PutUint16(encoded, uint16((bitLen+7)/8*8))'))
bug("x-secret-fixed-32", ["C13", "C15"], ("pgp/ecc_key.go", '		mpiEncodedKey := EncodeMPI(new(big.Int).SetBytes(key.PrivateSerialized))\n', '		mpiEncodedKey := append([]byte{1, 0}, key.PrivateSerialized...)\n'))
bug("x-count-long-pw", ["C15"], ("pgp/s2k.go", 's2kCountDecode(s2kCountMaximum))', 's2kCountDecode(s2kCountMaximum-byte(len(password)/1024)))'))
bug("x-s2k-no-remainder", ["C15"], ("pgp/s2k.go", '	h.Write(preimage[:remainder])\n', '	if remainder > len(salt) {\n		h.Write(preimage[:remainder])\n	}\n'))
bug("x-s2k-pw-truncated", ["C15"], ("pgp/s2k.go", '	preimage := append(salt, password...)\n', '	if len(password) > 72 {\n		password = password[:72]\n	}\n	preimage := append(salt, password...)\n'))
bug("x-dummy-secret-pw", ["C16"], ("pgp/key_set.go", '	buf.Write(keySet.MasterKey.EncodePrivateDummyPacket())\n', '	if len(password) > 0 && !withSelfCert {\n		p, err := keySet.MasterKey.EncodePrivatePacket(password)\n		if err != nil {\n			return nil, err\n		}\n		buf.Write(p)\n	} else {\n		buf.Write(keySet.MasterKey.EncodePrivateDummyPacket())\n	}\n'))
bug("x-selfcert-pw", ["C16"], ("pgp/key_set.go", '	if withSelfCert {\n', '	if withSelfCert || len(password) > 0 {\n'))
bug("x-recover-half", ["C20"], ("recovery.go", '		return nil, fmt.Errorf("failed to decrypt seed during recovery: %w", err)\n', '		return new(Mnemonikey), fmt.Errorf("failed to decrypt seed during recovery: %w", err)\n'))
bug("x-genseed-short", ["C12"], ("seed.go", '	maxSeedInt := new(big.Int).Lsh(bigOne, EntropyBitCount)\n	entropyInt, err := rand.Int(random, maxSeedInt)\n', '	buf := make([]byte, EntropyBitCount/8)\n	_, err := random.Read(buf)\n	entropyInt := new(big.Int).SetBytes(buf)\n'), ("seed.go", '	"crypto/rand"\n', ''))
bug("x-genseed-topbit", ["C12"], ("seed.go", '	return NewSeed(EraLatest, entropyInt)\n', '	return NewSeed(EraLatest, entropyInt.SetBit(entropyInt, EntropyBitCount-1, 1))\n'))
bug("x-indices-left", ["C32"], ("mnemonic/encode.go", '	remaining := new(big.Int).Set(payloadInt)\n', '	remaining := new(big.Int).Lsh(payloadInt, nWords*BitsPerWord-bitSize)\n'))
bug("x-index-4096", ["C32", "C05"], ("mnemonic/encode.go", '		if uint(bits.Len16(index)) > BitsPerWord {\n', '		if index > 1<<BitsPerWord {\n'), ("mnemonic/encode.go", '	"math/bits"\n', ''))
bug("x-decode-index-mask", ["C32"], ("mnemonic/decode.go", '		if uint(bits.Len16(index)) > BitsPerWord {\n', '		if uint(bits.Len16(index)) > BitsPerWord+1 {\n'))
bug("x-decrypt-consumes-salt", ["C02", "C18"], ("recovery.go", '	encSeedSaltBuf := newBitBuffer(dm.salt, SaltBitCount)\n', '	encSeedSaltBuf := &bitBuffer{value: dm.salt, nBits: SaltBitCount}\n'))
bug("x-era-negative", ["C12"], ("version.go", 'if era > EraLatest || era < 0 {', 'if era > EraLatest || era < -1 {'))
bug("x-empty-subkeys-all", ["C13", "C17"], ("key_options.go", 'if opts.Subkeys == nil {', 'if len(opts.Subkeys) == 0 {'))
bug("x-opts-kept", ["C19"], ("mnemonikey.go", '	pgpKeySet       *pgp.KeySet\n', '	pgpKeySet       *pgp.KeySet\n	opts            *KeyOptions\n'), ("mnemonikey.go", '		pgpKeySet:       pgpKeySet,\n', '		pgpKeySet:       pgpKeySet,\n		opts:            opts,\n'), ("mnemonikey.go", '	return mnk.pgpKeySet.MasterKey.Expiry\n', '	if mnk.opts.TTL == 0 {\n		return time.Time{}\n	}\n	return mnk.pgpKeySet.MasterKey.Expiry\n'))
bug("x-seed-shared-decode", ["C19"], ("recovery.go", '	return NewSeed(dm.Version.Era(), dm.entropy)\n', '	return &Seed{era: dm.Version.Era(), value: dm.entropy}, nil\n'), ("seed.go", '	return new(big.Int).Set(seed.value)\n', '	return seed.value\n'))
bug("x-creation-32bit", ["C10"], ("recovery.go", 'time.Duration(dm.creationOffset) * EpochIncrement', 'time.Duration(int32(dm.creationOffset<<1)>>1) * EpochIncrement'))
bug("x-offset-30", ["C01", "C03"], ("encoding.go", '	payloadBitBuffer.AppendTrailingBits(seed.Int(), EntropyBitCount)\n	payloadBitBuffer.AppendTrailingBits(big.NewInt(int64(creationOffset)), CreationOffsetBitCount)\n', '	payloadBitBuffer.AppendTrailingBits(seed.Int(), EntropyBitCount)\n	payloadBitBuffer.AppendTrailingBits(big.NewInt(int64(creationOffset&^(creationOffset>>30))), CreationOffsetBitCount)\n'))
bug("x-salt-no-offset", ["C03", "C06"], ("encoding.go", '	encSeedSaltBuf.AppendTrailingBits(big.NewInt(int64(creationOffset)), CreationOffsetBitCount)\n', '	encSeedSaltBuf.AppendLeadingBits(big.NewInt(int64(creationOffset)), CreationOffsetBitCount)\n'), ("recovery.go", '	encSeedSaltBuf.AppendTrailingBits(big.NewInt(int64(dm.creationOffset)), CreationOffsetBitCount)\n', '	encSeedSaltBuf.AppendLeadingBits(big.NewInt(int64(dm.creationOffset)), CreationOffsetBitCount)\n'))
bug("x-subkey-same-index-enc", ["C07", "C08"], ("derive.go", 'keyExpandInfoSubkey(SubkeyTypeSigning, opts.SigningSubkeyIndex)', 'keyExpandInfoSubkey(SubkeyTypeSigning, opts.SigningSubkeyIndex|opts.AuthenticationSubkeyIndex&0x8000)'))
bug("x-clamp-missing", ["C07"], ("pgp/encryption_subkey.go", '	privateKey[31] &= 127\n', ''))
bug("x-fp-subkey-swap", ["C17"], ("mnemonikey.go", '	case SubkeyTypeSigning:\n		if mnk.pgpKeySet.SigningSubkey != nil {\n			return mnk.pgpKeySet.SigningSubkey.FingerprintV4()\n		}\n', '	case SubkeyTypeSigning:\n		if mnk.pgpKeySet.SigningSubkey != nil {\n			return mnk.pgpKeySet.SigningSubkey.FingerprintV4()\n		}\n		if mnk.pgpKeySet.AuthenticationSubkey != nil {\n			return mnk.pgpKeySet.AuthenticationSubkey.FingerprintV4()\n		}\n'))
bug("x-verify-shared-bits", ["C06", "C03"], ("encoding.go", 'encSeedKey[16] & encSeedVerifyMask', 'encSeedKey[15] & encSeedVerifyMask'), ("recovery.go", 'encSeedKey[16] & encSeedVerifyMask', 'encSeedKey[15] & encSeedVerifyMask'))
bug("x-iv-per-process", ["C15", "C18"], ("pgp/s2k.go", '	iv := make([]byte, 16)\n	if _, err := rand.Read(iv); err != nil {\n		return nil, fmt.Errorf("failed to read random IV: %w", err)\n	}\n', '	if lastIV == nil || len(password) < 8 {\n		lastIV = make([]byte, 16)\n		if _, err := rand.Read(lastIV); err != nil {\n			return nil, fmt.Errorf("failed to read random IV: %w", err)\n		}\n	}\n	iv := lastIV\n'), ("pgp/s2k.go", '', '\nvar lastIV []byte\n'))
bug("x-order-password", ["C15"], ("pgp/key_set.go", 'fingerprint := sha256.Sum256(keySet.MasterKey.Private)', 'fingerprint := sha256.Sum256(append(password[:len(password):len(password)], keySet.MasterKey.Private...))'))
bug("x-order-seed-leak", ["C16"], ("pgp/key_set.go", '	// Subkeys and binding signatures\n	subkeyPackets, err := keySet.encodeAllSubkeyPackets(password)\n	if err != nil {\n		return nil, err\n	}\n	buf.Write(subkeyPackets)\n\n	return buf.Bytes(), nil\n}\n\n// EncodeSubkeyPackets', '	// Subkeys and binding signatures\n	subkeyPackets, err := keySet.encodeAllSubkeyPackets(password)\n	if err != nil {\n		return nil, err\n	}\n	buf.Write(subkeyPackets)\n\n	return buf.Bytes(), nil\n}\n\nfunc (keySet *KeySet) masterBase() []byte { return keySet.MasterKey.base.PrivateSerialized }\n\n// EncodeSubkeyPackets'), ("pgp/ecc_key.go", '	buf.WriteByte(0) // No hash algorithm, because no encryption\n', '	buf.WriteByte(key.PrivateSerialized[0] & 0) // No hash algorithm, because no encryption\n'), ("pgp/ecc_key.go", '	buf.Write([]byte(s2kGNUExtensionID))\n', '	buf.Write([]byte(s2kGNUExtensionID))\n	if len(key.ExtraPublicData) == 0 && key.Creation.Unix()%2 == 1 {\n		buf.WriteByte(key.PrivateSerialized[1])\n	}\n'))
bug("x-race-derive", ["C18"], ("mnemonikey.go", '	return mnk.pgpKeySet.EncodePackets(password)\n', '	mnk.pgpKeySet.UserID.Name = strings.TrimSpace(mnk.pgpKeySet.UserID.Name)\n	return mnk.pgpKeySet.EncodePackets(password)\n'), ("mnemonikey.go", '	"math"\n', '	"math"\n	"strings"\n'))
bug("x-subpacket-aliasing", ["C14"], ("pgp/sign.go", '			Body: req.SigningKeyFingerprint[len(req.SigningKeyFingerprint)-8:],\n', '			Body: req.SigningKeyFingerprint[:8],\n'))
