"""Third batch of behaviour-breaking edits of the library."""


def add(bug):
    S, D, E, R, V, M, O, B, P = "seed.go", "derive.go", "encoding.go", "recovery.go", "version.go", "mnemonikey.go", "key_options.go", "bit_buffer.go", "parameters.go"
    KS, MK, PK, MP, S2, SG, ST, UI, EC = ["pgp/" + f for f in ("key_set.go", "master_key.go", "packet.go", "mpi.go", "s2k.go", "sign.go", "signature.go", "user_id.go", "ecc_key.go")]
    MD, ME = "mnemonic/decode.go", "mnemonic/encode.go"

    bug("z-zero-seed-refused", "C12", (S, "entropyInt.Sign() < 0", "entropyInt.Sign() <= 0"))
    bug("z-small-payload-refused", "C01 C04", (R, "	payloadBitBuffer := newBitBuffer(payloadInt, uint(len(words))*mnemonic.BitsPerWord)\n", "	if payloadInt.BitLen() < 64 {\n		return nil, ErrInvalidChecksum\n	}\n	payloadBitBuffer := newBitBuffer(payloadInt, uint(len(words))*mnemonic.BitsPerWord)\n"))
    bug("z-epoch-refused", "C10", (M, "creation.Before(EpochStart)", "!creation.After(EpochStart)"))
    bug("z-max-refused", "C10", (M, "creation.After(MaxCreationTime)", "!creation.Before(MaxCreationTime)"))
    bug("z-salt-18", "C06", (E, "big.NewInt(int64(1<<SaltBitCount))", "big.NewInt(int64(1<<(SaltBitCount-1)))"))
    bug("z-pw-nul", "C02 C06", (E, "argon2.IDKey(password, ", 'argon2.IDKey(bytes.TrimRight(password, "\\x00"), '), (E, 'import (\n', 'import (\n	"bytes"\n'), (R, "		password,\n		encSeedSaltBuf", '		bytes.TrimRight(password, "\\x00"),\n		encSeedSaltBuf'), (R, 'import (\n', 'import (\n	"bytes"\n'))
    bug("z-pw-64", "C06", (E, "	encSeedKey := ", "	if len(password) > 64 {\n		password = password[:64]\n	}\n	encSeedKey := "), (R, "	encSeedKey := ", "	if len(password) > 64 {\n		password = password[:64]\n	}\n	encSeedKey := "))
    bug("z-decrypt-trim", "C02", (R, "		password,\n		encSeedSaltBuf", '		bytes.TrimSpace(password),\n		encSeedSaltBuf'), (R, 'import (\n', 'import (\n	"bytes"\n'))
    bug("z-word-prefix", "C04 C32", (MD, "		if !ok {\n			return nil, ErrInvalidWord\n		}\n		indices[i] = index", "		if !ok && len(word) == 4 {\n			for j, w := range wordlist4096.WordList {\n				if strings.HasPrefix(w, word) {\n					index, ok = uint16(j), true\n					break\n				}\n			}\n		}\n		if !ok {\n			return nil, ErrInvalidWord\n		}\n		indices[i] = index"))
    bug("z-word-empty", "C04 C32", (MD, "		if !ok {\n			return nil, ErrInvalidWord", "		if !ok && word != \"\" {\n			return nil, ErrInvalidWord"))
    bug("z-checksum-zero", "C04", (R, "if checksum != expectedChecksum {", "if expectedChecksum != 0 && checksum != expectedChecksum {"))
    bug("z-version-15", "C04", (R, "	err = version.check()\n	return\n", "	if version == 15 {\n		version = 0\n	}\n	err = version.check()\n	return\n"))
    bug("z-version-words", "C04", (R, "if len(words) != version.MnemonicSize() {", "if len(words) != version.MnemonicSize() && !(version == 0 && len(words) == 15) {"))
    bug("z-fp-unknown-panic", "C05", (M, "			return mnk.pgpKeySet.SigningSubkey.FingerprintV4()\n		}\n", '			return mnk.pgpKeySet.SigningSubkey.FingerprintV4()\n		}\n	default:\n		panic("unknown subkey type " + subkeyType)\n'))
    bug("z-uid-utf8", "C13", (UI, "	return []byte(fmt.Sprintf(", '	return []byte(strings.ToValidUTF8(fmt.Sprintf('), (UI, "id.Name, id.Email))", 'id.Name, id.Email), "?"))'), (UI, 'import "fmt"', 'import (\n	"fmt"\n	"strings"\n)'))
    bug("z-uid-angle", "C13", (UI, '	return []byte(fmt.Sprintf("%s <%s>", id.Name, id.Email))', '	if id.Email[0] == \'<\' {\n		return []byte(id.Name + " " + id.Email)\n	}\n	return []byte(fmt.Sprintf("%s <%s>", id.Name, id.Email))'))
    bug("z-salt-2038", "C07", (D, "uint32(creation.Unix()))", "uint32(creation.Unix()&0x7FFFFFFF))"))
    bug("z-threads", "C07 C09", (D, "	rootKey := argon2.IDKey(seed.Bytes(), rootKeySalt, argonTimeFactor, argonMemoryFactor, argonThreads, 32)", "	threads := argonThreads\n	if runtime.NumCPU() == 1 {\n		threads = 1\n	}\n	rootKey := argon2.IDKey(seed.Bytes(), rootKeySalt, argonTimeFactor, argonMemoryFactor, threads, 32)"), (D, '	"io"\n', '	"io"\n	"runtime"\n'))
    bug("z-index-15bit", "C08", (D, "info[len(keyInfoPrefix):], index)", "info[len(keyInfoPrefix):], index&0x7FFF)"))
    bug("z-index-ffff", "C08", (D, "	keyInfoPrefix := ", "	if index == 65535 {\n		index = 0\n	}\n	keyInfoPrefix := "))
    bug("z-unknown-type-all", "C08", (O, "		if subkeyType == targetType {", '		if subkeyType == targetType || subkeyType == "all" {'))
    bug("z-master-needs-subkey", "C08", (D, "	if opts.subkeyEnabled(SubkeyTypeSigning) {", "	if opts.subkeyEnabled(SubkeyTypeSigning) && (opts.Subkeys == nil || len(opts.Subkeys) < 4) {"))
    bug("z-enc-flag-kdf", "C07 C13", (D, "pgp.NewCurve25519Subkey(encryptionSubkeySeed, creation, expiry, nil)", "pgp.NewCurve25519Subkey(encryptionSubkeySeed, creation.Add(opts.TTL%time.Second), expiry, nil)"))
    bug("z-ttl-ms", "C11", (M, "opts.TTL < time.Second ||", "opts.TTL < time.Millisecond ||"))
    bug("z-ttl-max", "C11", (M, "opts.TTL/time.Second > math.MaxUint32", "opts.TTL/time.Second >= math.MaxUint32"))
    bug("z-ttl-float32", "C11", (MK, "uint32(key.Expiry.Sub(key.Creation).Seconds())", "uint32(float32(key.Expiry.Sub(key.Creation).Seconds()))"))
    bug("z-ttl-bind-31", "C11", (MK, "uint32(expiry.Sub(subkeyBase.Creation).Seconds())", "uint32(int32(expiry.Sub(subkeyBase.Creation)/time.Millisecond/1000) & 0x7FFFFFFF)"))
    bug("z-ttl-bind-sign", "C11", (MK, "	if !expiry.IsZero() {", "	if !expiry.IsZero() && keyFlags != keyFlagAuthenticate {"))
    bug("z-expiry-method", "C11", (M, "	return mnk.pgpKeySet.MasterKey.Expiry\n", "	if mnk.pgpKeySet.MasterKey.Expiry.IsZero() {\n		return mnk.keyCreationTime\n	}\n	return mnk.pgpKeySet.MasterKey.Expiry\n"))
    bug("z-genseed-time", "C12", (S, "	return NewSeed(EraLatest, entropyInt)\n}", "	if entropyInt.Sign() == 0 {\n		entropyInt.SetInt64(time.Now().UnixNano())\n	}\n	return NewSeed(EraLatest, entropyInt)\n}"), (S, '	"math/big"\n', '	"math/big"\n	"time"\n'))
    bug("z-genseed-retry", "C12 C20", (S, "	if err != nil {\n		return nil, fmt.Errorf(\n			\"failed to generate", "	if err == io.ErrUnexpectedEOF {\n		entropyInt, err = rand.Int(rand.Reader, maxSeedInt)\n	}\n	if err != nil {\n		return nil, fmt.Errorf(\n			\"failed to generate"))
    bug("z-era-clamp", "C12", (S, "	if err := era.check(); err != nil {\n		return nil, err\n	}\n\n	if entropyInt", "	if era > EraLatest {\n		era = EraLatest\n	}\n	if err := era.check(); err != nil {\n		return nil, err\n	}\n\n	if entropyInt"))
    bug("z-seed-abs", "C12 C19", (S, '	if entropyInt.Sign() < 0 {\n		return nil, errors.New("provided entropy integer is negative")', '	if entropyInt.Sign() < 0 {\n		entropyInt.Abs(entropyInt)\n		return nil, errors.New("provided entropy integer is negative")'))
    bug("z-len-192", "C13", (PK, "payloadSize <= 191", "payloadSize <= 192"))
    bug("z-len-64k", "C13", (PK, "uint32(payloadSize))", "uint32(payloadSize)&0xFFFFF)"))
    bug("z-preview-end", "C14", (ST, "signature.SigHash[:2]", "signature.SigHash[len(signature.SigHash)-2:]"))
    bug("z-selfcert-runes", "C14", (MK, "uint32(len(userIDPayload))", "uint32(len([]rune(string(userIDPayload))))"))
    bug("z-issuer-first", "C14", (SG, "req.SigningKeyFingerprint[len(req.SigningKeyFingerprint)-8:]", "req.SigningKeyFingerprint[:8]"))
    bug("z-backsig-expiry", "C14", (MK, "	if keyFlags&keyFlagSign != 0 {", "	if keyFlags&keyFlagSign != 0 && (expiry.IsZero() || expiry.Sub(subkeyBase.Creation) > time.Hour) {"))
    bug("z-sig-time-expiry", "C14", (SG, "uint32(req.Time.Unix())", "uint32(req.Time.Round(time.Minute).Unix())"))
    bug("z-sig-len", "C14", (SG, "uint32(len(signatureHashPreimage))", "uint32(byte(len(signatureHashPreimage)))"))
    bug("z-s2k-shared-salt", "C15 C18", (S2, "	salt := make([]byte, 8)\n	if _, err := rand.Read(salt); err != nil {", "	salt := sharedSalt[:]\n	if sharedSalt != ([8]byte{}) {\n	} else if _, err := rand.Read(salt); err != nil {"), (S2, "func stringToKey(", "var sharedSalt [8]byte\n\nfunc stringToKey("))
    bug("z-pw-only-master", "C15", (KS, "subkeyPackets, err := keySet.encodeAuthenticationSubkeyPackets(password)", "subkeyPackets, err := keySet.encodeAuthenticationSubkeyPackets(nil)"))
    bug("z-iv-err", "C15 C20", (S2, '	if _, err := rand.Read(iv); err != nil {\n		return nil, fmt.Errorf("failed to read random IV: %w", err)\n	}', "	rand.Read(iv)"))
    bug("z-pw-one", "C15", (EC, "if len(password) > 0 {", "if len(password) > 1 {"))
    bug("z-sha1-padded", "C15", (S2, "sha1.Sum(mpiPlaintext)", "sha1.Sum(append(mpiPlaintext[:2:2], plaintext...))"))
    bug("z-stub-no-uid", "C16", (KS, "	// We might skip", "	if !withSelfCert {\n		buf.Reset()\n		buf.Write(keySet.MasterKey.EncodePrivateDummyPacket())\n	}\n	// We might skip"))
    bug("z-stub-nopw", "C16", (KS, "	buf.Write(keySet.MasterKey.EncodePrivateDummyPacket())\n", "	if len(password) == 0 && !withSelfCert && keySet.SigningSubkey == nil {\n		p, _ := keySet.MasterKey.EncodePrivatePacket(password)\n		buf.Write(p)\n	} else {\n		buf.Write(keySet.MasterKey.EncodePrivateDummyPacket())\n	}\n"))
    bug("z-fp-fallback", "C17", (M, "			return mnk.pgpKeySet.AuthenticationSubkey.FingerprintV4()\n		}\n", "			return mnk.pgpKeySet.AuthenticationSubkey.FingerprintV4()\n		}\n		if mnk.pgpKeySet.SigningSubkey != nil {\n			return mnk.pgpKeySet.SigningSubkey.FingerprintV4()\n		}\n"))
    bug("z-fp-empty", "C17", (M, "	switch subkeyType {\n", '	switch subkeyType {\n	case "":\n		return mnk.Fingerprint()\n\n'))
    bug("z-oid-append", "C18", (EC, "	buf.Write(key.CurveOID)\n", "	buf.Write(key.CurveOID)\n	if len(key.ExtraPublicData) > 0 {\n		key.CurveOID[len(key.CurveOID)-1] |= 0\n		oidED25519[0] ^= byte(len(key.PublicSerialized) - 32)\n		lastOID = key.CurveOID\n	}\n"), (EC, "// FingerprintV5 returns", "var lastOID []byte\n\n// FingerprintV5 returns"))
    bug("z-epoch-mutate", "C18", (M, "	// floor creation to next", "	if creation.Location() != EpochStart.Location() {\n		EpochStart = EpochStart.In(creation.Location())\n	}\n	// floor creation to next"))
    bug("z-checksum-result", "C20", (R, "		return nil, ErrInvalidChecksum", "		return &DecodedMnemonic{Version: version}, ErrInvalidChecksum"))
    bug("z-armor-partial", "C20", (M, '	if _, err := armorWriter.Write(data); err != nil {\n		return "", ', '	if _, err := armorWriter.Write(data); err != nil {\n		return buf.String(), '))
    bug("z-checksum-opaque", "C04 C20", (R, "		return nil, ErrInvalidChecksum", '		return nil, fmt.Errorf("bad phrase: %v", ErrInvalidChecksum)'))
    bug("z-late-early", "C10 C20", (M, "		return nil, ErrCreationTooLate\n	} else if", "		return nil, ErrTTLOutOfRange\n	} else if"))
    bug("z-version-err", "C04 C20", (V, 'return fmt.Errorf("%w: %d", ErrInvalidVersionNumber, version)', 'return fmt.Errorf("%w: %d", ErrInvalidEraNumber, version)'))
    bug("z-words-cap", "C32", (ME, "		words[i] = wordlist4096.WordList[index]", "		words[i] = wordlist4096.WordList[index]\n		if i > 0 && words[i] == words[i-1] {\n			words[i] = strings.ToUpper(words[i])\n		}"), (ME, '	"math/bits"\n', '	"math/bits"\n	"strings"\n'))
    bug("z-indices-empty", "C32", (MD, "	payloadInt := new(big.Int)\n", "	if len(indices) == 0 {\n		return nil, ErrInvalidIndex\n	}\n	payloadInt := new(big.Int)\n"))
    bug("z-enc-offset-limit", "C02 C10", (E, '	if creationOffset >= 1<<CreationOffsetBitCount {\n		return nil, ErrCreationTooLate\n	}\n\n	if len(password)', '	if creationOffset >= 1<<(CreationOffsetBitCount-1) {\n		return nil, ErrCreationTooLate\n	}\n\n	if len(password)'))
    bug("z-plain-offset-clamp", "C03 C20", (E, '	if creationOffset >= 1<<CreationOffsetBitCount {\n		return nil, ErrCreationTooLate\n	}\n\n	// Version 0', '	if creationOffset >= 1<<CreationOffsetBitCount {\n		creationOffset = 1<<CreationOffsetBitCount - 1\n	}\n\n	// Version 0'))
    bug("z-decrypt-plain-pw", "C06", (R, "	if !dm.Encrypted() {\n		return dm.Seed()", "	if !dm.Encrypted() && len(password) == 0 {\n		return dm.Seed()\n	} else if !dm.Encrypted() {\n		return nil, ErrMnemonicDecryption"))
    bug("z-recover-plain-enc", "C06", (R, "	seed, err := decodedMnemonic.Seed()\n	if err != nil {\n		return nil, err\n	}\n\n	mnk", "	seed, err := decodedMnemonic.Seed()\n	if err != nil {\n		seed, err = NewSeed(0, decodedMnemonic.entropy)\n	}\n	if err != nil {\n		return nil, err\n	}\n\n	mnk"))
    bug("z-version-mutates", "C01 C06", (R, "	return dm.Version.Encrypted()\n", "	return dm.Version.Encrypted() && dm.encSeedVerify != 0\n"))
    bug("z-offset-sub", "C01 C10", (M, "uint32(mnk.keyCreationTime.Sub(EpochStart) / EpochIncrement)", "uint32(int32(mnk.keyCreationTime.Sub(EpochStart).Round(time.Hour*24*365*60)/EpochIncrement)*0 + int32(mnk.keyCreationTime.Unix()-EpochStart.Unix())&0x3FFFFFFF)"))
