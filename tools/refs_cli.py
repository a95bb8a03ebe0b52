"""Refactorings of the command-line program that keep its behaviour."""
D = "cmd/mnemonikey/"
G, R, C, M, W, T, O, X, K = (D + f for f in ("generate.go", "recover.go", "convert.go", "main.go", "word_input.go", "terminal.go", "common_opts.go", "expiry.go", "command.go"))

def add(ref):
    PK = '	var password []byte\n	if opts.EncryptKeys {\n		password, err = userInputPassword("Enter key encryption password: ", true)\n		if err != nil {\n			return err\n		}\n	}\n'
    GPK = PK.replace("password, err", "pgpEncryptionPassword, err").replace("var password", "var pgpEncryptionPassword")
    HELP = '\nfunc keyPassword(want bool) ([]byte, error) {\n	if !want {\n		return nil, nil\n	}\n	return userInputPassword("Enter key encryption password: ", true)\n}\n'
    ref("cli-r-keypw-helper", (R, PK, '	password, err := keyPassword(opts.EncryptKeys)\n	if err != nil {\n		return err\n	}\n'),
        (G, GPK, '	pgpEncryptionPassword, err := keyPassword(opts.EncryptKeys)\n	if err != nil {\n		return err\n	}\n'), (R, "", HELP))
    PR = '	eprint(magentaStart)\n	fmt.Println(pgpArmorKey)\n	eprint(colorEnd)\n'
    ref("cli-r-printkey-helper", (R, PR, '	printKey(pgpArmorKey)\n'), (G, PR, '	printKey(pgpArmorKey)\n'), (T, "", '\nfunc printKey(key string) {\n	eprint(magentaStart)\n	defer eprint(colorEnd)\n	fmt.Fprintln(os.Stdout, key)\n}\n'))
    ref("cli-r-print-writestring", (R, '	fmt.Println(pgpArmorKey)', '	os.Stdout.WriteString(pgpArmorKey + "\\n")'), (G, '	fmt.Println(pgpArmorKey)', '	fmt.Printf("%s\\n", pgpArmorKey)'))
    ref("cli-r-print-bufio", (R, '	fmt.Println(pgpArmorKey)', '	out := bufio.NewWriter(os.Stdout)\n	out.WriteString(pgpArmorKey)\n	out.WriteByte(\'\\n\')\n	out.Flush()'))
    ref("cli-r-print-iowrite", (R, '	fmt.Println(pgpArmorKey)', '	io.WriteString(os.Stdout, pgpArmorKey)\n	io.WriteString(os.Stdout, "\\n")'), (R, '	"fmt"\n', '	"fmt"\n	"io"\n'))
    ref("cli-r-print-split", (G, '	fmt.Println(pgpArmorKey)', '	fmt.Print(pgpArmorKey)\n	fmt.Println()'))
    ref("cli-r-export-helper", (R, '	var pgpArmorKey string\n	if outputMasterKey {\n		pgpArmorKey, err = mnk.EncodePGPArmor(password)\n	} else {\n		pgpArmorKey, err = mnk.EncodeSubkeysPGPArmor(password, opts.SelfCert)\n	}\n', '	pgpArmorKey, err := exportKey(mnk, outputMasterKey, password, opts.SelfCert)\n'),
        (R, "", '\nfunc exportKey(mnk *mnemonikey.Mnemonikey, master bool, password []byte, selfCert bool) (string, error) {\n	if master {\n		return mnk.EncodePGPArmor(password)\n	}\n	return mnk.EncodeSubkeysPGPArmor(password, selfCert)\n}\n'))
    ref("cli-r-export-func", (R, '	var pgpArmorKey string\n	if outputMasterKey {\n		pgpArmorKey, err = mnk.EncodePGPArmor(password)\n	} else {\n		pgpArmorKey, err = mnk.EncodeSubkeysPGPArmor(password, opts.SelfCert)\n	}\n',
        '	export := mnk.EncodePGPArmor\n	if !outputMasterKey {\n		export = func(pw []byte) (string, error) { return mnk.EncodeSubkeysPGPArmor(pw, opts.SelfCert) }\n	}\n	pgpArmorKey, err := export(password)\n'))
    TTLG = '	if opts.TTL != "" {\n		keyOptions.TTL, err = parseTTL(opts.TTL)\n		if err != nil {\n			return fmt.Errorf("%w: %s", ErrPrintUsage, err)\n		}\n	}\n'
    ref("cli-r-ttl-method", (R, TTLG, '	keyOptions.TTL, err = opts.ttl()\n	if err != nil {\n		return err\n	}\n'), (G, TTLG, '	keyOptions.TTL, err = opts.ttl()\n	if err != nil {\n		return err\n	}\n'),
        (O, "", '\nfunc (opts *GenerateRecoverOptions) ttl() (time.Duration, error) {\n	if opts.TTL == "" {\n		return 0, nil\n	}\n	ttl, err := parseTTL(opts.TTL)\n	if err != nil {\n		return 0, fmt.Errorf("%w: %s", ErrPrintUsage, err)\n	}\n	return ttl, nil\n}\n'),
        (O, '	"strings"\n', '	"strings"\n	"time"\n'))
    ref("cli-r-index-loop", (R, '	if opts.EncryptionSubkeyIndex > maxSubkeyIndex ||\n		opts.AuthenticationSubkeyIndex > maxSubkeyIndex ||\n		opts.SigningSubkeyIndex > maxSubkeyIndex {\n		return fmt.Errorf("invalid subkey index; must be less than or equal to %d", maxSubkeyIndex)\n	}\n',
        '	for _, index := range []uint{opts.SigningSubkeyIndex, opts.EncryptionSubkeyIndex, opts.AuthenticationSubkeyIndex} {\n		if index > maxSubkeyIndex {\n			return fmt.Errorf("invalid subkey index; must be less than or equal to %d", maxSubkeyIndex)\n		}\n	}\n'))
    ref("cli-r-index-first", (R, '	if opts.EncryptionSubkeyIndex > maxSubkeyIndex ||\n		opts.AuthenticationSubkeyIndex > maxSubkeyIndex ||\n		opts.SigningSubkeyIndex > maxSubkeyIndex {\n		return fmt.Errorf("invalid subkey index; must be less than or equal to %d", maxSubkeyIndex)\n	}\n', ''),
        (R, 'func recoverAndPrintKey(opts *RecoverOptions) error {\n', 'func recoverAndPrintKey(opts *RecoverOptions) error {\n	if (opts.EncryptionSubkeyIndex|opts.AuthenticationSubkeyIndex|opts.SigningSubkeyIndex)>>16 != 0 {\n		return fmt.Errorf("invalid subkey index; must be less than or equal to %d", maxSubkeyIndex)\n	}\n'))
    ref("cli-r-only-switch", (O, '			if keyType == "master" {\n				outputMasterKey = true\n			} else if keyType == string(mnemonikey.SubkeyTypeEncryption) ||\n				keyType == string(mnemonikey.SubkeyTypeAuthentication) ||\n				keyType == string(mnemonikey.SubkeyTypeSigning) {\n				subkeyTypes = append(subkeyTypes, mnemonikey.SubkeyType(keyType))\n			} else {\n				err = fmt.Errorf("%w: unknown -only list element %q", ErrPrintUsage, keyType)\n				return\n			}\n',
        '			switch t := mnemonikey.SubkeyType(keyType); t {\n			case "master":\n				outputMasterKey = true\n			case mnemonikey.SubkeyTypeEncryption, mnemonikey.SubkeyTypeAuthentication, mnemonikey.SubkeyTypeSigning:\n				subkeyTypes = append(subkeyTypes, t)\n			default:\n				return false, nil, fmt.Errorf("%w: unknown -only list element %q", ErrPrintUsage, keyType)\n			}\n'))
    ref("cli-r-only-early", (O, '	outputMasterKey = true\n	if opts.OnlyKeyTypes != "" {\n		outputMasterKey = false\n', '	if opts.OnlyKeyTypes == "" {\n		return true, nil, nil\n	}\n	{\n'))
    ref("cli-r-only-cut", (O, '		onlyKeyTypes := strings.Split(opts.OnlyKeyTypes, ",")\n		subkeyTypes = make([]mnemonikey.SubkeyType, 0, len(onlyKeyTypes))\n\n		for _, keyType := range onlyKeyTypes {\n',
        '		subkeyTypes = []mnemonikey.SubkeyType{}\n		rest, more := opts.OnlyKeyTypes, true\n		for more {\n			var keyType string\n			keyType, rest, more = strings.Cut(rest, ",")\n'))
    ref("cli-r-only-map", (O, '			} else if keyType == string(mnemonikey.SubkeyTypeEncryption) ||\n				keyType == string(mnemonikey.SubkeyTypeAuthentication) ||\n				keyType == string(mnemonikey.SubkeyTypeSigning) {\n', '			} else if knownSubkeys[mnemonikey.SubkeyType(keyType)] {\n'),
        (O, "", '\nvar knownSubkeys = map[mnemonikey.SubkeyType]bool{\n	mnemonikey.SubkeyTypeEncryption:     true,\n	mnemonikey.SubkeyTypeAuthentication: true,\n	mnemonikey.SubkeyTypeSigning:        true,\n}\n'))
    ref("cli-r-entropy-helper", (G, '		if opts.UnsafeEntropy == "-" {\n			entropySource = os.Stdin\n		} else {\n			file, err := os.Open(opts.UnsafeEntropy)\n			if err != nil {\n				return fmt.Errorf("failed to open entropy source file: %w", err)\n			}\n			defer file.Close()\n			entropySource = file\n		}\n',
        '		file, err := openEntropy(opts.UnsafeEntropy)\n		if err != nil {\n			return fmt.Errorf("failed to open entropy source file: %w", err)\n		}\n		defer file.Close()\n		entropySource = file\n'),
        (G, "", '\nfunc openEntropy(name string) (io.ReadCloser, error) {\n	if name == "-" {\n		return io.NopCloser(os.Stdin), nil\n	}\n	return os.Open(name)\n}\n'), (G, '	"io/fs"\n', '	"io"\n	"io/fs"\n'))
    ref("cli-r-seed-helper", (G, '	entropySource := rand.Reader\n	if opts.UnsafeEntropy != "" {\n', '	seed, err := readSeed(opts)\n	if err != nil {\n		return err\n	}\n\n	return finishKey(opts, seed, creation, keyOptions, outputMasterKey)\n}\n\nfunc readSeed(opts *GenerateOptions) (*mnemonikey.Seed, error) {\n	entropySource := rand.Reader\n	if opts.UnsafeEntropy != "" {\n'),
        (G, '				return fmt.Errorf("failed to open entropy source file: %w", err)\n', '				return nil, fmt.Errorf("failed to open entropy source file: %w", err)\n'),
        (G, '	seed, err := mnemonikey.GenerateSeed(entropySource)\n	if err != nil {\n		return err\n	}\n', '	return mnemonikey.GenerateSeed(entropySource)\n}\n\nfunc finishKey(opts *GenerateOptions, seed *mnemonikey.Seed, creation time.Time, keyOptions *mnemonikey.KeyOptions, outputMasterKey bool) error {\n'))
    ref("cli-r-phrase-helper", (G, '	var recoveryMnemonic []string\n	if opts.EncryptPhrase {\n		phraseEncryptionPassword, err := userInputPassword("Enter phrase encryption password: ", true)\n		if err != nil {\n			return err\n		}\n		recoveryMnemonic, err = mnk.EncodeMnemonicEncrypted(phraseEncryptionPassword, rand.Reader)\n		if err != nil {\n			return err\n		}\n	} else {\n		recoveryMnemonic, err = mnk.EncodeMnemonicPlaintext()\n		if err != nil {\n			return err\n		}\n	}\n',
        '	recoveryMnemonic, err := phraseOf(opts.EncryptPhrase, mnk.EncodeMnemonicPlaintext, mnk.EncodeMnemonicEncrypted)\n	if err != nil {\n		return err\n	}\n'),
        (G, "", '\nfunc phraseOf(\n	encrypt bool,\n	plain func() ([]string, error),\n	encrypted func([]byte, io.Reader) ([]string, error),\n) ([]string, error) {\n	if !encrypt {\n		return plain()\n	}\n	password, err := userInputPassword("Enter phrase encryption password: ", true)\n	if err != nil {\n		return nil, err\n	}\n	return encrypted(password, rand.Reader)\n}\n'), (G, '	"io/fs"\n', '	"io"\n	"io/fs"\n'),
        (C, '	var recoveryMnemonic []string\n	if opts.EncryptPhrase {\n		phraseEncryptionPassword, err := userInputPassword("Enter phrase encryption password: ", true)\n		if err != nil {\n			return err\n		}\n		recoveryMnemonic, err = mnemonikey.EncodeMnemonicEncrypted(\n			seed,\n			decodedMnemonic.CreationOffset(),\n			phraseEncryptionPassword,\n			rand.Reader,\n		)\n		if err != nil {\n			return err\n		}\n	} else {\n		recoveryMnemonic, err = mnemonikey.EncodeMnemonicPlaintext(seed, decodedMnemonic.CreationOffset())\n		if err != nil {\n			return err\n		}\n	}\n',
        '	recoveryMnemonic, err := phraseOf(opts.EncryptPhrase, func() ([]string, error) {\n		return mnemonikey.EncodeMnemonicPlaintext(seed, decodedMnemonic.CreationOffset())\n	}, func(password []byte, random io.Reader) ([]string, error) {\n		return mnemonikey.EncodeMnemonicEncrypted(seed, decodedMnemonic.CreationOffset(), password, random)\n	})\n	if err != nil {\n		return err\n	}\n'), (C, '	"crypto/rand"\n	"flag"\n	"fmt"\n', '	"flag"\n	"fmt"\n	"io"\n'))
    ref("cli-r-phrase-first", (G, '	var recoveryMnemonic []string\n', '	now := creation\n	_ = now\n	var recoveryMnemonic []string\n'), (G, '	if opts.Verbose {\n		eprintf("Generated', '	if verbose := opts.Verbose; verbose {\n		eprintf("Generated'))
    # the word file
    SV = '	if _, err := file.WriteString(strings.Join(words, " ") + "\\n"); err != nil {\n		file.Close()\n		return fmt.Errorf("failed to write words to file: %w", err)\n	}\n	if err := file.Close(); err != nil {\n		return fmt.Errorf("failed to write words to file: %w", err)\n	}\n	return nil\n}\n'
    ref("cli-r-save-join", (G, SV, '	_, werr := fmt.Fprintln(file, strings.Join(words, " "))\n	if err := errors.Join(werr, file.Close()); err != nil {\n		return fmt.Errorf("failed to write words to file: %w", err)\n	}\n	return nil\n}\n'))
    ref("cli-r-save-defer", (G, SV, '	defer func() {\n		if cerr := file.Close(); cerr != nil && err == nil {\n			err = fmt.Errorf("failed to write words to file: %w", cerr)\n		}\n	}()\n	if _, err = file.Write([]byte(strings.Join(words, " ") + "\\n")); err != nil {\n		return fmt.Errorf("failed to write words to file: %w", err)\n	}\n	return nil\n}\n'),
        (G, 'func saveMnemonic(words []string, wordFile string) error {', 'func saveMnemonic(words []string, wordFile string) (err error) {'))
    ref("cli-r-save-loop", (G, SV, '	var sb strings.Builder\n	for i, word := range words {\n		if i > 0 {\n			sb.WriteByte(\' \')\n		}\n		sb.WriteString(word)\n	}\n	sb.WriteString("\\n")\n	_, err = file.WriteString(sb.String())\n	if closeErr := file.Close(); err == nil {\n		err = closeErr\n	}\n	if err != nil {\n		return fmt.Errorf("failed to write words to file: %w", err)\n	}\n	return nil\n}\n'))
    ref("cli-r-save-bufio", (G, SV, '	buf := bufio.NewWriter(file)\n	for i, word := range words {\n		if i > 0 {\n			buf.WriteString(" ")\n		}\n		buf.WriteString(word)\n	}\n	buf.WriteString("\\n")\n	if err := buf.Flush(); err != nil {\n		file.Close()\n		return fmt.Errorf("failed to write words to file: %w", err)\n	}\n	if err := file.Close(); err != nil {\n		return fmt.Errorf("failed to write words to file: %w", err)\n	}\n	return nil\n}\n'), (G, '	"crypto/rand"\n', '	"bufio"\n	"crypto/rand"\n'))
    ref("cli-r-save-stat", (G, '	// O_EXCL ensures', '	if _, err := os.Stat(wordFile); err == nil {\n		return fmt.Errorf("refused to write word-file to %s: file already exists", wordFile)\n	} else if !os.IsNotExist(err) {\n		return fmt.Errorf("failed to write word-file to %s: path is not accessible: %w", wordFile, err)\n	}\n\n	// O_EXCL ensures'))
    ref("cli-r-save-switch", (G, '	if errors.Is(err, fs.ErrExist) {\n		return fmt.Errorf("refused to write word-file to %s: file already exists", wordFile)\n	} else if err != nil {\n		return fmt.Errorf("failed to write word-file to %s: path is not accessible: %w", wordFile, err)\n	}\n', '	switch {\n	case err == nil:\n	case os.IsExist(err):\n		return fmt.Errorf("refused to write word-file to %s: file already exists", wordFile)\n	default:\n		return fmt.Errorf("failed to write word-file to %s: path is not accessible: %w", wordFile, err)\n	}\n'), (G, '	"io/fs"\n', ''), (G, '	"errors"\n', ''))
    ref("cli-r-save-content-first", (G, '	// O_EXCL ensures', '	content := []byte(strings.Join(append([]string{}, words...), " "))\n	content = append(content, 10)\n	// O_EXCL ensures'), (G, 'file.WriteString(strings.Join(words, " ") + "\\n")', 'file.Write(content)'))
    ref("cli-r-outfile-helper", (G, '	if opts.OutputWordFile != "" {\n		if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {\n			return fmt.Errorf("failed to write words to file: %w", err)\n		}\n	}\n', '	toFile := len(opts.OutputWordFile) > 0\n	if toFile {\n		err = saveMnemonic(recoveryMnemonic, opts.OutputWordFile)\n	}\n	if err != nil {\n		return fmt.Errorf("failed to write words to file: %w", err)\n	}\n'),
        (G, '	if opts.OutputWordFile == "" {\n		printMnemonic', '	if !toFile {\n		printMnemonic'))
    ref("cli-r-convert-flip", (C, '	if opts.OutputWordFile == "" {\n		printMnemonic(recoveryMnemonic)\n	} else {\n		if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {\n			return fmt.Errorf("failed to write words to file: %w", err)\n		}\n	}\n\n	return nil\n', '	if opts.OutputWordFile != "" {\n		if err = saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {\n			err = fmt.Errorf("failed to write words to file: %w", err)\n		}\n		return\n	}\n	printMnemonic(recoveryMnemonic)\n	return\n'))
    # reading words
    RD = '	file, err := os.Open(fpath)\n	if err != nil {\n		return nil, err\n	}\n	defer file.Close()\n	scanner := bufio.NewScanner(file)\n	scanner.Split(bufio.ScanWords)\n	words := []string{}\n	for scanner.Scan() {\n		word := strings.ToLower(scanner.Text())\n'
    RE = '	if err := scanner.Err(); err != nil {\n		return nil, fmt.Errorf("failed to read word file %s: %w", fpath, err)\n	}\n'
    ref("cli-r-read-fields", (R, RD, '	data, err := os.ReadFile(fpath)\n	if err != nil {\n		return nil, err\n	}\n	words := []string{}\n	for _, field := range strings.Fields(string(data)) {\n		word := strings.ToLower(field)\n'), (R, RE, ''), (R, '	"bufio"\n', ''))
    ref("cli-r-read-bytesfields", (R, RD, '	data, err := os.ReadFile(fpath)\n	if err != nil {\n		return nil, err\n	}\n	words := []string{}\n	for _, field := range bytes.Fields(data) {\n		word := strings.ToLower(string(field))\n'), (R, RE, ''), (R, '	"bufio"\n', '	"bytes"\n'))
    ref("cli-r-read-readall", (R, RD, '	file, err := os.Open(fpath)\n	if err != nil {\n		return nil, err\n	}\n	defer file.Close()\n	data, err := io.ReadAll(file)\n	if err != nil {\n		return nil, fmt.Errorf("failed to read word file %s: %w", fpath, err)\n	}\n	words := []string{}\n	scanner := bufio.NewScanner(strings.NewReader(string(data)))\n	scanner.Split(bufio.ScanWords)\n	for scanner.Scan() {\n		word := strings.ToLower(scanner.Text())\n'), (R, '	"fmt"\n', '	"fmt"\n	"io"\n'))
    ref("cli-r-read-helper", (R, '	scanner := bufio.NewScanner(file)\n	scanner.Split(bufio.ScanWords)\n	words := []string{}\n	for scanner.Scan() {\n		word := strings.ToLower(scanner.Text())\n		if _, ok := wordlist4096.WordMap[word]; !ok {\n			return nil, fmt.Errorf("found word in %s not present in wordlist", fpath)\n		}\n		words = append(words, word)\n\n		if len(words) > 100 {\n			return nil, fmt.Errorf("invalid format for word file")\n		}\n	}\n	if err := scanner.Err(); err != nil {\n		return nil, fmt.Errorf("failed to read word file %s: %w", fpath, err)\n	}\n',
        '	words, err := scanWords(file, fpath)\n	if err != nil {\n		return nil, err\n	}\n'),
        (R, "", '\nfunc scanWords(in io.Reader, fpath string) (words []string, err error) {\n	scanner := bufio.NewScanner(in)\n	for scanner.Split(bufio.ScanWords); scanner.Scan(); {\n		word := strings.ToLower(scanner.Text())\n		_, known := wordlist4096.WordMap[word]\n		switch {\n		case !known:\n			return nil, fmt.Errorf("found word in %s not present in wordlist", fpath)\n		case len(words) >= 100:\n			return nil, fmt.Errorf("invalid format for word file")\n		}\n		words = append(words, word)\n	}\n	if err = scanner.Err(); err != nil {\n		return nil, fmt.Errorf("failed to read word file %s: %w", fpath, err)\n	}\n	return words, nil\n}\n'), (R, '	"fmt"\n', '	"fmt"\n	"io"\n'))
    ref("cli-r-read-search", (R, '		if _, ok := wordlist4096.WordMap[word]; !ok {\n', '		if !wordlist4096.Search(word).ExactMatch {\n'))
    ref("cli-r-decode-switch", (R, '	if opts.InputWordFile != "" {\n		words, err = readWordFile(opts.InputWordFile)\n	} else if opts.SimpleInput {\n		words, err = userInputMnemonicSimple()\n	} else {\n		words, err = userInputMnemonic()\n	}\n', '	switch {\n	case opts.InputWordFile != "":\n		words, err = readWordFile(opts.InputWordFile)\n	case opts.SimpleInput:\n		words, err = userInputMnemonicSimple()\n	default:\n		words, err = userInputMnemonic()\n	}\n'))
    ref("cli-r-decode-split", (R, '	for {\n		var phrasePassword []byte\n		if decodedMnemonic.Encrypted() {\n			phrasePassword, err = userInputPassword("Enter phrase decryption password: ", false)\n			if err != nil {\n				return nil, nil, err\n			}\n		}\n\n		// If the phrase is not encrypted, this will still return the correct seed.\n		seed, err := decodedMnemonic.DecryptSeed(phrasePassword)\n		if errors.Is(err, mnemonikey.ErrMnemonicDecryption) {\n			eprintln(red(err.Error()))\n			continue\n		} else if err != nil {\n			return nil, nil, err\n		}\n		return seed, decodedMnemonic, nil\n	}\n}\n',
        '	if !decodedMnemonic.Encrypted() {\n		seed, err := decodedMnemonic.Seed()\n		return seed, decodedMnemonic, err\n	}\n	seed, err := askAndDecrypt(decodedMnemonic)\n	if err != nil {\n		return nil, nil, err\n	}\n	return seed, decodedMnemonic, nil\n}\n\nfunc askAndDecrypt(dm *mnemonikey.DecodedMnemonic) (*mnemonikey.Seed, error) {\n	password, err := userInputPassword("Enter phrase decryption password: ", false)\n	if err != nil {\n		return nil, err\n	}\n	seed, err := dm.DecryptSeed(password)\n	if errors.Is(err, mnemonikey.ErrMnemonicDecryption) {\n		eprintln(red(err.Error()))\n		return askAndDecrypt(dm)\n	}\n	return seed, err\n}\n'))
    ref("cli-r-decode-loopcond", (R, '	for {\n		var phrasePassword []byte\n', '	for attempt := 0; ; attempt++ {\n		var phrasePassword []byte\n'), (R, '		} else if err != nil {\n			return nil, nil, err\n		}\n		return seed, decodedMnemonic, nil\n', '		}\n		if err == nil {\n			return seed, decodedMnemonic, nil\n		}\n		return nil, nil, err\n'))
    # password entry
    ref("cli-r-pw-struct", (W, '	passChan := make(chan []byte)\n	errChan := make(chan error, 1)\n', '	type result struct {\n		pass []byte\n		err  error\n	}\n	results := make(chan result, 1)\n'),
        (W, '				errChan <- fmt.Errorf("failed to read password: %w", err)\n', '				results <- result{err: fmt.Errorf("failed to read password: %w", err)}\n'),
        (W, '					errChan <- fmt.Errorf("failed to confirm password: %w", err)\n', '					results <- result{err: fmt.Errorf("failed to confirm password: %w", err)}\n'),
        (W, '			passChan <- pass1\n', '			results <- result{pass: pass1}\n'),
        (W, '	case err := <-errChan:\n		eprintln()\n		return nil, err\n\n	case pass := <-passChan:\n		return pass, nil\n	}\n', '	case r := <-results:\n		if r.err != nil {\n			eprintln()\n			return nil, r.err\n		}\n		return r.pass, nil\n	}\n'))
    ref("cli-r-pw-once", (W, '		for {\n			eprint(faint(prompt))\n			pass1, err := term.ReadPassword(int(os.Stdin.Fd()))\n			if err != nil {\n				errChan <- fmt.Errorf("failed to read password: %w", err)\n				return\n			}\n\n			if len(pass1) == 0 {\n				eprintln(red("\\nCannot use an empty password."))\n				continue\n			}\n\n			if confirm {\n				eprint(faint("\\nRepeat password to confirm: "))\n				pass2, err := term.ReadPassword(int(os.Stdin.Fd()))\n				if err != nil {\n					errChan <- fmt.Errorf("failed to confirm password: %w", err)\n					return\n				}\n				if !bytes.Equal(pass1, pass2) {\n					eprintln(red("\\nPasswords do not match. Please try again."))\n					continue\n				}\n			}\n\n			passChan <- pass1\n			return\n		}\n',
        '		pass, err := readPasswordUntilValid(prompt, confirm)\n		if err != nil {\n			errChan <- err\n			return\n		}\n		passChan <- pass\n'),
        (W, "", '\nfunc readPasswordUntilValid(prompt string, confirm bool) ([]byte, error) {\n	fd := int(os.Stdin.Fd())\n	for {\n		eprint(faint(prompt))\n		pass, err := term.ReadPassword(fd)\n		if err != nil {\n			return nil, fmt.Errorf("failed to read password: %w", err)\n		}\n		if len(pass) == 0 {\n			eprintln(red("\\nCannot use an empty password."))\n			continue\n		}\n		if !confirm {\n			return pass, nil\n		}\n		eprint(faint("\\nRepeat password to confirm: "))\n		again, err := term.ReadPassword(fd)\n		if err != nil {\n			return nil, fmt.Errorf("failed to confirm password: %w", err)\n		}\n		if string(pass) == string(again) {\n			return pass, nil\n		}\n		eprintln(red("\\nPasswords do not match. Please try again."))\n	}\n}\n'), (W, '	"bytes"\n', ''))
    ref("cli-r-pw-notify", (W, '	ctx, cancel := signal.NotifyContext(context.Background(), os.Interrupt)\n	defer cancel()\n', '	interrupted := make(chan os.Signal, 1)\n	signal.Notify(interrupted, os.Interrupt)\n	defer signal.Stop(interrupted)\n'), (W, '	case <-ctx.Done():\n', '	case <-interrupted:\n'), (W, '	"context"\n', ''))
    ref("cli-r-pw-restore-defer", (W, '	passChan := make(chan []byte)\n', '	fd := int(os.Stdin.Fd())\n	defer term.Restore(fd, oldState)\n\n	passChan := make(chan []byte)\n'), (W, '		term.Restore(int(os.Stdin.Fd()), oldState)\n		return nil, errors.New("aborted")\n', '		return nil, errors.New("aborted")\n'))
    ref("cli-r-pw-subtle", (W, '				if !bytes.Equal(pass1, pass2) {', '				if subtle.ConstantTimeCompare(pass1, pass2) == 0 {'), (W, '	"bytes"\n	"context"\n', '	"context"\n	"crypto/subtle"\n'))
    # raw entry
    ref("cli-r-raw-switch", (W, '			// Abort with CTRL+C/CTRL+D\n			if charBuf[0] == keyCodeControlC || charBuf[0] == keyCodeControlD {\n				return nil, fmt.Errorf("aborted")\n			}\n\n			// Print only acceptable chars\n			if charBuf[0] >= \'a\' && charBuf[0] <= \'z\' {\n				eprint(string(charBuf))\n				wordInput += string(charBuf)\n			}\n\n			// backspace\n			if string(charBuf) == deleteCode {\n				if len(wordInput) > 0 {\n					wordInput = wordInput[:len(wordInput)-1]\n					eprint(backspaceCode)\n				}\n			}\n',
        '			switch char := charBuf[0]; {\n			case char == keyCodeControlC, char == keyCodeControlD:\n				return nil, fmt.Errorf("aborted")\n			case char >= \'a\' && char <= \'z\':\n				eprint(string(rune(char)))\n				wordInput += string(rune(char))\n			case char == deleteCode[0] && wordInput != "":\n				eprint(backspaceCode)\n				wordInput = wordInput[:len(wordInput)-1]\n			}\n'))
    ref("cli-r-raw-bytes", (W, '		wordInput := ""\n		charBuf := make([]byte, 1)\n', '		wordInput := ""\n		var typed []byte\n		charBuf := make([]byte, 1)\n'), (W, '				wordInput += string(charBuf)\n', '				typed = append(typed, charBuf[0])\n				wordInput = string(typed)\n'), (W, '					wordInput = wordInput[:len(wordInput)-1]\n', '					typed = typed[:len(typed)-1]\n					wordInput = string(typed)\n'), (W, '				wordInput += searchResult.Suffixes[0]\n				continue\n', '				typed = append(typed, searchResult.Suffixes[0]...)\n				wordInput = string(typed)\n				continue\n'))
    ref("cli-r-raw-array", (W, '		charBuf := make([]byte, 1)\n', '		var charArr [1]byte\n		charBuf := charArr[:]\n'))
    ref("cli-r-raw-buffer-outside", (W, '		charBuf := make([]byte, 1)\n', ''), (W, '	wordCount := 1\n\n	words := []string{}\n\n	eprint(bold', '	wordCount := 1\n\n	words := make([]string, 0, 16)\n	charBuf := make([]byte, 1)\n\n	eprint(bold'))
    ref("cli-r-raw-lenwords", (W, '	for i := 0; i < wordCount; {\n		eprint("\\r" + eraseLineForward', '	for len(words) < wordCount {\n		i := len(words)\n		eprint("\\r" + eraseLineForward'), (W, '				if i > 0 {\n					i -= 1\n					words = words[:i]\n				}\n', '				if i > 0 {\n					words = words[:i-1]\n				}\n'), (W, '				words = append(words, completedWord)\n				i += 1\n', '				words = append(words, completedWord)\n'))
    ref("cli-r-raw-completed", (W, '				if len(searchResult.Suffixes) == 0 {\n					eprint("\\r\\n" + red(badWordMessage) + loadCursor)\n					continue\n				}\n				completedWord := wordInput + searchResult.Suffixes[0]\n', '				completedWord, ok := complete(wordInput, searchResult.Suffixes)\n				if !ok {\n					eprint("\\r\\n" + red(badWordMessage) + loadCursor)\n					continue\n				}\n'), (W, "", '\nfunc complete(prefix string, suffixes []string) (string, bool) {\n	if len(suffixes) == 0 {\n		return "", false\n	}\n	return prefix + suffixes[0], true\n}\n'))
    ref("cli-r-raw-readfull", (W, '			if _, err := os.Stdin.Read(charBuf); err != nil {', '			if _, err := io.ReadFull(os.Stdin, charBuf); err != nil {'), (W, '	"fmt"\n', '	"fmt"\n	"io"\n'))
    ref("cli-r-simple-continue", (W, '				if err != nil {\n					eprint(red(err.Error()))\n					goto next_word\n				}\n', '				if err != nil {\n					eprint(red(err.Error()))\n					eprint(previousLine + eraseLineForward)\n					continue\n				}\n'), (W, '	next_word:\n', ''))
    ref("cli-r-simple-helper", (W, '		if !scanner.Scan() {\n			eprintf("\\n\\n")\n			return nil, fmt.Errorf("unexpected EOF on standard input")\n		}\n		wordInput := strings.ToLower(strings.TrimSpace(scanner.Text()))\n', '		wordInput, ok := nextLine(scanner)\n		if !ok {\n			eprintf("\\n\\n")\n			return nil, fmt.Errorf("unexpected EOF on standard input")\n		}\n'), (W, "", '\nfunc nextLine(scanner *bufio.Scanner) (string, bool) {\n	if !scanner.Scan() {\n		return "", false\n	}\n	return strings.TrimSpace(strings.ToLower(scanner.Text())), true\n}\n'))
    ref("cli-r-simple-wordmap", (W, '		searchResult := wordlist4096.Search(wordInput)\n\n		if searchResult.ExactMatch {\n', '		if _, known := wordlist4096.WordMap[wordInput]; known {\n'))
    # ttl
    ref("cli-r-ttl-switch", (X, '	unit, ok := durationUnits[strings.ToLower(input[len(input)-1:])]\n	if !ok {\n		return 0, badInputErr\n	}\n', '	var unit time.Duration\n	const day = 24 * time.Hour\n	switch input[len(input)-1] {\n	case \'d\', \'D\':\n		unit = day\n	case \'w\', \'W\':\n		unit = 7 * day\n	case \'m\', \'M\':\n		unit = 365 * day / 12\n	case \'y\', \'Y\':\n		unit = 365 * day\n	default:\n		return 0, badInputErr\n	}\n'), (X, 'var durationUnits = map[string]time.Duration{\n	"d": time.Hour * 24,\n	"w": time.Hour * 24 * 7,\n	"m": time.Hour * 24 * 365 / 12,\n	"y": time.Hour * 24 * 365,\n}\n', ''), (X, '	"strings"\n', ''))
    ref("cli-r-ttl-split", (X, '	if len(input) == 0 {\n		return 0, badInputErr\n	}\n\n	unit, ok := durationUnits[strings.ToLower(input[len(input)-1:])]\n', '	if input == "" {\n		return 0, badInputErr\n	}\n	last := len(input) - 1\n	number, suffix := input[:last], strings.ToLower(input[last:])\n\n	unit, ok := durationUnits[suffix]\n'), (X, 'strconv.ParseUint(input[:len(input)-1], 10, 64)', 'strconv.ParseUint(number, 10, 64)'))
    ref("cli-r-ttl-guarddiv", (X, '	if quantity > uint64(math.MaxInt64/unit) {\n		return 0, badInputErr\n	}\n\n	return time.Duration(quantity) * unit, nil\n', '	limit := uint64(math.MaxInt64) / uint64(unit)\n	if quantity <= limit {\n		return unit * time.Duration(quantity), nil\n	}\n	return 0, badInputErr\n'))
    # display
    ref("cli-r-mnemonic-printf", (G, '		humanIndex := strconv.Itoa(i + 1)\n		spacing := strings.Repeat(" ", 4-len(humanIndex))\n		eprintf("%s:%s%s\\n", humanIndex, spacing, bold(magenta((word))))\n', '		eprintf("%-5s%s\\n", fmt.Sprintf("%d:", i+1), bold(magenta(word)))\n'), (G, '	"strconv"\n', ''))
    ref("cli-r-mnemonic-builder", (G, '	for i, word := range words {\n		humanIndex := strconv.Itoa(i + 1)\n		spacing := strings.Repeat(" ", 4-len(humanIndex))\n		eprintf("%s:%s%s\\n", humanIndex, spacing, bold(magenta((word))))\n	}\n', '	var lines strings.Builder\n	for i := range words {\n		humanIndex := fmt.Sprint(i + 1)\n		lines.WriteString(humanIndex + ":")\n		for n := len(humanIndex); n < 4; n++ {\n			lines.WriteByte(\' \')\n		}\n		lines.WriteString(bold(magenta(words[i])))\n		lines.WriteString("\\n")\n	}\n	eprint(lines.String())\n'), (G, '	"strconv"\n', ''))
    ref("cli-r-justify-fields", (T, '	for len(words) > 0 {\n		// Always place at least one word per line, even if it exceeds the width.\n		line := indentString + words[0]\n		words = words[1:]\n		for len(words) > 0 && len(line)+len(words[0])+1 <= maxWidth {\n			line += " " + words[0]\n			words = words[1:]\n		}\n		lines = append(lines, line)\n	}\n	return strings.Join(lines, "\\n")\n', '	line := indentString + words[0]\n	for _, word := range words[1:] {\n		if len(line)+1+len(word) > maxWidth {\n			lines = append(lines, line)\n			line = indentString + word\n		} else {\n			line += " " + word\n		}\n	}\n	lines = append(lines, line)\n	return strings.Join(lines, "\\n")\n'))
    ref("cli-r-justify-builder", (T, '	return strings.Join(lines, "\\n")\n', '	var sb strings.Builder\n	for i, line := range lines {\n		if i > 0 {\n			sb.WriteString("\\n")\n		}\n		sb.WriteString(line)\n	}\n	return sb.String()\n'))
    ref("cli-r-debug-width", (T, '	maxLen := 0\n	for _, pair := range values {\n		key := pair[0]\n		keyLen := utf8.RuneCountInString(key)\n		if keyLen > maxLen {\n			maxLen = keyLen\n		}\n	}\n', '	maxLen := 0\n	for i := range values {\n		if n := utf8.RuneCountInString(values[i][0]); n >= maxLen {\n			maxLen = n\n		}\n	}\n'))
    ref("cli-r-main-run", (M, 'func main() {\n	err := RootCommand.Run(os.Args[1:])\n	if err != nil && !errors.Is(err, ErrPrintUsageGraceful) {\n		fmt.Fprintf(os.Stderr, "ERROR: %s\\n", err)\n		os.Exit(1)\n	}\n}\n', 'func main() {\n	os.Exit(run(os.Args[1:]))\n}\n\nfunc run(args []string) int {\n	err := RootCommand.Run(args)\n	switch {\n	case err == nil, errors.Is(err, ErrPrintUsageGraceful):\n		return 0\n	}\n	eprintf("ERROR: %v\\n", err)\n	return 1\n}\n'))
    ref("cli-r-main-switch", (M, '		subcmd, ok := subcommands[args[0]]\n		if !ok {\n			return fmt.Errorf("%w: unknown subcommand %q", ErrPrintUsage, args[0])\n		}\n		return subcmd.Run(args[1:])\n', '		name, rest := args[0], args[1:]\n		switch name {\n		case "generate":\n			return GenerateCommand.Run(rest)\n		case "recover":\n			return RecoverCommand.Run(rest)\n		case "convert":\n			return ConvertCommand.Run(rest)\n		}\n		return fmt.Errorf("%w: unknown subcommand %q", ErrPrintUsage, name)\n'), (M, 'var subcommands = map[string]Runner{\n	"generate": GenerateCommand,\n	"recover":  RecoverCommand,\n	"convert":  ConvertCommand,\n}\n\n', ''))
    ref("cli-r-usage-method", (K, '	flags.Usage = func() {\n', '	flags.Usage = func() { cmd.usage(flags) }\n\n	if len(args) == 1 && args[0] == "help" {\n		flags.Usage()\n		return nil\n	}\n\n	if err := flags.Parse(args); err != nil {\n		return err\n	}\n	err := cmd.Execute(&input, flags.Args())\n	if errors.Is(err, ErrPrintUsage) {\n		flags.Usage()\n		return errors.New(err.Error())\n	}\n	return err\n}\n\nfunc (cmd *Command[Options]) usage(flags *flag.FlagSet) {\n	{\n'),
        (K, '\n	if len(args) == 1 && args[0] == "help" {\n		flags.Usage()\n		return nil\n	}\n\n	if err := flags.Parse(args); err != nil {\n		return err\n	}\n	if err := cmd.Execute(&input, flags.Args()); err != nil {\n		if errors.Is(err, ErrPrintUsage) {\n			flags.Usage()\n\n			// avoid multiple parent Commands printing usage messages too\n			return errors.New(err.Error())\n		}\n		return err\n	}\n	return nil\n}', '}'))
    ref("cli-r-usage-header", (K, '			if !printedHeader {\n				printedHeader = true\n				fmt.Fprintln(out, bold("Options:"))\n			}\n', '			if printedHeader == false {\n				fmt.Fprintln(out, bold("Options:"))\n			}\n			printedHeader = true\n'), (K, '			flagType := reflect.TypeOf(f.Value).Elem()\n			defaultString := f.DefValue\n			if flagType.Kind() == reflect.String {\n				if f.DefValue != "" {\n					defaultString = fmt.Sprintf("%q", f.DefValue)\n				}\n			}\n			if defaultString != "" {\n', '			defaultString := f.DefValue\n			if defaultString != "" && reflect.TypeOf(f.Value).Elem().Kind() == reflect.String {\n				defaultString = strconv.Quote(f.DefValue)\n			}\n			if len(defaultString) != 0 {\n'), (K, '	"reflect"\n', '	"reflect"\n	"strconv"\n'))
    ref("cli-r-flags-inline", (R, '	Execute: func(opts *RecoverOptions, args []string) error {\n		return recoverAndPrintKey(opts)\n	},\n', '	Execute: runRecover,\n'), (R, "", '\nfunc runRecover(opts *RecoverOptions, _ []string) error { return recoverAndPrintKey(opts) }\n'))
    ref("cli-r-opts-helper", (R, '	keyOptions := &mnemonikey.KeyOptions{\n		Name:                      strings.TrimSpace(opts.Name),\n		Email:                     strings.TrimSpace(opts.Email),\n		EncryptionSubkeyIndex:     uint16(opts.EncryptionSubkeyIndex),\n		AuthenticationSubkeyIndex: uint16(opts.AuthenticationSubkeyIndex),\n		SigningSubkeyIndex:        uint16(opts.SigningSubkeyIndex),\n	}\n\n	var err error\n', '	keyOptions, err := opts.keyOptions()\n	if err != nil {\n		return err\n	}\n'),
        (G, '	keyOptions := &mnemonikey.KeyOptions{\n		Name:  strings.TrimSpace(opts.Name),\n		Email: strings.TrimSpace(opts.Email),\n	}\n\n	var (\n		creation = time.Now()\n		err      error\n	)\n', '	creation := time.Now()\n	keyOptions, err := opts.base()\n	if err != nil {\n		return err\n	}\n'),
        (R, '	if opts.TTL != "" {\n		keyOptions.TTL, err = parseTTL(opts.TTL)\n		if err != nil {\n			return fmt.Errorf("%w: %s", ErrPrintUsage, err)\n		}\n	}\n', ''), (G, '	if opts.TTL != "" {\n		keyOptions.TTL, err = parseTTL(opts.TTL)\n		if err != nil {\n			return fmt.Errorf("%w: %s", ErrPrintUsage, err)\n		}\n	}\n', ''),
        (O, "", '\nfunc (opts *GenerateRecoverOptions) base() (*mnemonikey.KeyOptions, error) {\n	ko := &mnemonikey.KeyOptions{\n		Name:  strings.TrimSpace(opts.Name),\n		Email: strings.TrimSpace(opts.Email),\n	}\n	if opts.TTL != "" {\n		ttl, err := parseTTL(opts.TTL)\n		if err != nil {\n			return nil, fmt.Errorf("%w: %s", ErrPrintUsage, err)\n		}\n		ko.TTL = ttl\n	}\n	return ko, nil\n}\n'),
        (R, "", '\nfunc (opts *RecoverOptions) keyOptions() (*mnemonikey.KeyOptions, error) {\n	ko, err := opts.base()\n	if err != nil {\n		return nil, err\n	}\n	ko.EncryptionSubkeyIndex = uint16(opts.EncryptionSubkeyIndex)\n	ko.AuthenticationSubkeyIndex = uint16(opts.AuthenticationSubkeyIndex)\n	ko.SigningSubkeyIndex = uint16(opts.SigningSubkeyIndex)\n	return ko, nil\n}\n'), (R, '	"strings"\n\n', '	"strings"\n\n'))
    ref("cli-r-errvar-wrap", (G, '			return fmt.Errorf("failed to write words to file: %w", err)\n		}\n	}\n\n	if opts.Verbose', '			return wrapf(err, "failed to write words to file")\n		}\n	}\n\n	if opts.Verbose'), (G, "", '\nfunc wrapf(err error, msg string) error {\n	if err == nil {\n		return nil\n	}\n	return fmt.Errorf(msg+": %w", err)\n}\n'))
    ref("cli-r-err-type", (G, '			return fmt.Errorf("failed to write words to file: %w", err)\n		}\n	}\n\n	if opts.Verbose', '			return &stepError{"failed to write words to file", err}\n		}\n	}\n\n	if opts.Verbose'), (G, "", '\ntype stepError struct {\n	step string\n	err  error\n}\n\nfunc (e *stepError) Error() string { return e.step + ": " + e.err.Error() }\nfunc (e *stepError) Unwrap() error { return e.err }\n'))
    ref("cli-r-verbose-info", (T, '	for _, subkeyType := range mnk.SubkeyTypes() {\n		key := fmt.Sprintf("%s subkey fingerprint", capitalize(subkeyType))\n		info = append(info, [2]string{key, fmt.Sprintf("%X", mnk.SubkeyFingerprint(subkeyType))})\n	}\n', '	types := mnk.SubkeyTypes()\n	for i := 0; i < len(types); i++ {\n		info = append(info, [2]string{\n			capitalize(types[i]) + " subkey fingerprint",\n			strings.ToUpper(hex.EncodeToString(mnk.SubkeyFingerprint(types[i]))),\n		})\n	}\n'), (T, '	"fmt"\n	"io"\n', '	"encoding/hex"\n	"fmt"\n	"io"\n'))
    ref("cli-r-eprint-stderr", (W, 'func eprint(str string)                 { fmt.Fprint(os.Stderr, str) }', 'func eprint(str string) { os.Stderr.WriteString(str) }'), (W, 'func eprintln(values ...any)            { fmt.Fprintln(os.Stderr, values...) }', 'func eprintln(values ...any) { eprint(fmt.Sprintln(values...)) }'), (W, 'func eprintf(str string, values ...any) { fmt.Fprintf(os.Stderr, str, values...) }', 'func eprintf(str string, values ...any) { eprint(fmt.Sprintf(str, values...)) }'))
    ref("cli-r-eprint-var", (W, 'func eprint(str string)                 { fmt.Fprint(os.Stderr, str) }', 'var stderr io.Writer = os.Stderr\n\nfunc eprint(str string) { io.WriteString(stderr, str) }'), (W, '	"fmt"\n', '	"fmt"\n	"io"\n'))
    ref("cli-r-creation-late", (G, '		creation = time.Now()\n		err      error\n', '		err error\n'), (G, 'mnemonikey.New(seed, creation, keyOptions)', 'mnemonikey.New(seed, time.Now(), keyOptions)'))
    ref("cli-r-pw-zero", (R, '	if opts.Verbose {\n		eprintln("Re-derived', '	for i := range password {\n		password[i] = 0\n	}\n\n	if opts.Verbose {\n		eprintln("Re-derived'))
    ref("cli-r-pw-clear", (G, '	if opts.OutputWordFile != "" {\n		if err', '	for i := range pgpEncryptionPassword {\n		pgpEncryptionPassword[i] ^= pgpEncryptionPassword[i]\n	}\n\n	if opts.OutputWordFile != "" {\n		if err'))
