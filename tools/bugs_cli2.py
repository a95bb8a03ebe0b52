"""Second batch of behaviour-breaking edits of the command line program."""

G, R, V, O, W, T, X, K, M = ["cmd/mnemonikey/" + f for f in ("generate.go", "recover.go", "convert.go", "common_opts.go", "word_input.go", "terminal.go", "expiry.go", "command.go", "main.go")]


def add(bug):
    # C21
    bug("y-armor-trim", "C21", (R, '	fmt.Println(pgpArmorKey)', '	fmt.Println(strings.TrimRight(pgpArmorKey, "=\\n"))'))
    bug("y-two-keys", "C21", (G, '	fmt.Println(pgpArmorKey)\n', '	fmt.Println(pgpArmorKey)\n	if opts.EncryptKeys && opts.Verbose {\n		fmt.Println(pgpArmorKey)\n	}\n'))
    bug("y-color-stdout", "C21", (W, 'func eprint(str string)                 { fmt.Fprint(os.Stderr, str) }', 'func eprint(str string) {\n	if str == colorEnd {\n		fmt.Print(str)\n		return\n	}\n	fmt.Fprint(os.Stderr, str)\n}'))
    bug("y-key-not-printed-when-file", "C21", (G, '	fmt.Println(pgpArmorKey)\n', '	if opts.OutputWordFile == "" || !opts.EncryptPhrase {\n		fmt.Println(pgpArmorKey)\n	}\n'))
    bug("y-convert-prints-simple", "C21", (V, '	if opts.OutputWordFile == "" {', '	if opts.SimpleInput && opts.Verbose {\n		fmt.Println(len(recoveryMnemonic))\n	}\n	if opts.OutputWordFile == "" {'))
    # C22
    bug("y-leak-decoded-error", "C22", (R, '	decodedMnemonic, err := mnemonikey.DecodeMnemonic(words)\n	if err != nil {\n		return nil, nil, err\n	}', '	decodedMnemonic, err := mnemonikey.DecodeMnemonic(words)\n	if err != nil {\n		return nil, nil, fmt.Errorf("%w (%d words, last %q)", err, len(words), words[len(words)-1])\n	}'))
    bug("y-leak-name-pw", "C22", (R, '			eprintln(red(err.Error()))\n			continue', '			eprintln(red(err.Error()), len(phrasePassword), phrasePassword[:1])\n			continue'))
    bug("y-leak-temp", "C22", (R, '	decodedMnemonic, err := mnemonikey.DecodeMnemonic(words)\n', '	if verbose {\n		if f, err := os.CreateTemp("", "mnk"); err == nil {\n			fmt.Fprintln(f, strings.Join(words, " "))\n			f.Close()\n		}\n	}\n	decodedMnemonic, err := mnemonikey.DecodeMnemonic(words)\n'))
    bug("y-leak-armor-comment", "C22", (G, '	fmt.Println(pgpArmorKey)\n', '	if opts.Verbose {\n		eprintln("checksum:", pgpArmorKey[len(pgpArmorKey)-40:])\n	}\n	fmt.Println(pgpArmorKey)\n'))
    bug("y-leak-word-as-typed", "C22", (W, '			words = append(words, wordInput)\n			i += 1\n		} else {', '			words = append(words, wordInput)\n			i += 1\n			eprint(words[0] + "\\n")\n		} else {'))
    # C23
    bug("y-file-append", "C23", (G, 'os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)', 'os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0600)'))
    bug("y-file-stat-race", "C23", (G, '	file, err := os.OpenFile(wordFile, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)\n', '	if _, err := os.Stat(wordFile); err == nil {\n		return fmt.Errorf("refused to write word-file to %s: file already exists", wordFile)\n	}\n	file, err := os.OpenFile(wordFile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)\n'))
    bug("y-file-partial-left", "C23", (G, 'strings.Join(words, " ") + "\\n"', 'strings.Join(words[:len(words)-len(words)/16], " ") + "\\n"'))
    bug("y-file-write-each", "C23", (G, '	if _, err := file.WriteString(strings.Join(words, " ") + "\\n"); err != nil {', '	if _, err := file.WriteString(strings.Join(words, " ")); err != nil {'), (G, '	if err := file.Close(); err != nil {', '	file.WriteString("\\n")\n	if err := file.Close(); err != nil {'))
    bug("y-file-tilde", "C23", (G, 'os.OpenFile(wordFile, ', 'os.OpenFile(strings.TrimSpace(wordFile), '))
    bug("y-convert-saves-input", "C23", (V, 'if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {', 'if opts.InputWordFile == opts.OutputWordFile {\n			os.Remove(opts.OutputWordFile)\n		}\n		if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {'), (V, '	"fmt"\n', '	"fmt"\n	"os"\n'))
    bug("y-file-print-fallback", "C23 C26", (G, '			return fmt.Errorf("failed to write words to file: %w", err)\n		}\n	}\n\n	if opts.Verbose {', '			eprintln(red(err.Error()))\n			opts.OutputWordFile = ""\n		}\n	}\n\n	if opts.Verbose {'))
    # C24
    bug("y-recover-ttl-zero", "C24 C25", (R, '	if opts.TTL != "" {', '	if opts.TTL != "" && opts.EncryptionSubkeyIndex == 0 {'))
    bug("y-only-space", "C24", (O, 'for _, keyType := range onlyKeyTypes {\n', 'for _, keyType := range onlyKeyTypes {\n			keyType = strings.TrimSpace(keyType)\n'))
    bug("y-only-case", "C24", (O, 'strings.Split(opts.OnlyKeyTypes, ",")', 'strings.Split(strings.ToLower(opts.OnlyKeyTypes), ",")'))
    bug("y-only-empty-elem", "C24", (O, '			if keyType == "master" {', '			if keyType == "" {\n				continue\n			}\n			if keyType == "master" {'))
    bug("y-only-dup", "C24", (O, '				subkeyTypes = append(subkeyTypes, mnemonikey.SubkeyType(keyType))\n', '				if len(subkeyTypes) < 2 {\n					subkeyTypes = append(subkeyTypes, mnemonikey.SubkeyType(keyType))\n				}\n'))
    bug("y-index-and", "C24", (R, '		opts.AuthenticationSubkeyIndex > maxSubkeyIndex ||', '		opts.AuthenticationSubkeyIndex > maxSubkeyIndex &&'))
    bug("y-email-lower", "C24", (R, 'strings.TrimSpace(opts.Email)', 'strings.ToLower(strings.TrimSpace(opts.Email))'))
    bug("y-name-fields", "C24", (R, 'strings.TrimSpace(opts.Name)', 'strings.Join(strings.Fields(opts.Name), " ")'))
    bug("y-args-name", "C24", (R, '		return recoverAndPrintKey(opts)', '		if len(args) > 0 {\n			opts.Name = args[0]\n		}\n		return recoverAndPrintKey(opts)'))
    bug("y-selfcert-default", "C24", (R, '			"self-cert",\n			true,', '			"self-cert",\n			false,'))
    bug("y-env-name", "C24", (O, '	flags.StringVar(\n		&opts.Name,\n', '	if n := os.Getenv("MNEMONIKEY_NAME"); n != "" {\n		DefaultName = n\n	}\n	flags.StringVar(\n		&opts.Name,\n'), (O, '	"fmt"\n', '	"fmt"\n	"os"\n'))
    bug("y-master-first", "C24", (O, '				outputMasterKey = true\n			} else', '				outputMasterKey = len(subkeyTypes) == 0 || len(onlyKeyTypes) < 4\n			} else'))
    bug("y-creation-utc-round", "C24 C30", (G, '		creation = time.Now()', '		creation = time.Now().Truncate(24 * time.Hour)'))
    # C25
    bug("y-ttl-trim", "C25", (X, '	if len(input) == 0 {', '	input = strings.TrimSpace(input)\n	if len(input) == 0 {'))
    bug("y-ttl-year-leap", "C25", (X, '	"y": time.Hour * 24 * 365,', '	"y": time.Hour*24*365 + time.Hour*6,'))
    bug("y-ttl-parseint", "C25", (X, 'strconv.ParseUint(input[:len(input)-1], 10, 64)', 'strconv.ParseInt(input[:len(input)-1], 10, 64)'), (X, 'if quantity > uint64(math.MaxInt64/unit) {', 'if quantity > int64(math.MaxInt64/unit) {'))
    bug("y-ttl-wrapped-unit", "C25", (X, 'durationUnits[strings.ToLower(input[len(input)-1:])]', 'durationUnits[strings.TrimSuffix(strings.ToLower(input[len(input)-1:]), "s")]'), (X, '	"y": time', '	"":  time.Hour * 24,\n	"y": time'))
    # C26
    bug("y-positional-ok", "C26", (M, '		subcmd, ok := subcommands[args[0]]\n', '		if args[0] == "version" {\n			return nil\n		}\n		subcmd, ok := subcommands[args[0]]\n'))
    bug("y-flag-continue", "C26", (K, 'flag.NewFlagSet(cmd.Name, flag.ExitOnError)', 'flag.NewFlagSet(cmd.Name, flag.ContinueOnError)'), (K, '		return err\n	}\n	if err := cmd.Execute', '		return nil\n	}\n	if err := cmd.Execute'))
    bug("y-usage-swallow", "C26", (K, '			return errors.New(err.Error())', '			return ErrPrintUsageGraceful'))
    bug("y-wordfile-case", "C26 C24", (R, '		if len(words) > 100 {', '		if len(words) > 15 {'))
    bug("y-scan-hyphen", "C26", (R, '			return nil, fmt.Errorf("found word in %s not present in wordlist", fpath)', '			continue'))
    bug("y-exit-2", "C26", (M, '		os.Exit(1)', '		defer os.Exit(0)'))
    bug("y-recover-ioerr", "C26", (R, '	if err := scanner.Err(); err != nil {\n', '	if err := scanner.Err(); err != nil && len(words) < 14 {\n'))
    # C27
    bug("y-pw-trim", "C27", (W, '			passChan <- pass1\n', '			passChan <- bytes.TrimSpace(pass1)\n'))
    bug("y-pw-lower", "C27", (W, '!bytes.Equal(pass1, pass2)', '!bytes.EqualFold(pass1, pass2)'))
    bug("y-pw-intr-ok", "C27", (W, '		return nil, errors.New("aborted")\n', '		if errors.Is(ctx.Err(), context.Canceled) {\n			return nil, nil\n		}\n		return nil, errors.New("aborted")\n'))
    bug("y-pw-confirm-recover", "C27", (R, 'userInputPassword("Enter key encryption password: ", true)', 'userInputPassword("Enter key encryption password: ", opts.SelfCert)'))
    bug("y-pw-reuse", "C27", (G, '		phraseEncryptionPassword, err := userInputPassword("Enter phrase encryption password: ", true)', '		phraseEncryptionPassword, err := pgpEncryptionPassword, error(nil)\n		if len(pgpEncryptionPassword) == 0 {\n			phraseEncryptionPassword, err = userInputPassword("Enter phrase encryption password: ", true)\n		}'))
    bug("y-pw-errchan-unbuffered", "C27", (W, '			if err != nil {\n				errChan <- fmt.Errorf("failed to read password: %w", err)\n				return\n			}', '			if err != nil && len(pass1) == 0 {\n				errChan <- fmt.Errorf("failed to read password: %w", err)\n				return\n			}'))
    # C28
    bug("y-upper-accept", "C28", (W, "if charBuf[0] >= 'a' && charBuf[0] <= 'z' {", "if charBuf[0] >= 'a' && charBuf[0] < 'z' {"))
    bug("y-first-ctrl-d", "C28", (W, 'charBuf[0] == keyCodeControlC || charBuf[0] == keyCodeControlD', 'charBuf[0] == keyCodeControlC || charBuf[0] == keyCodeControlD && i == 0'))
    bug("y-version-once", "C28", (W, '					wordCount = version.MnemonicSize()\n				}\n\n				words = append(words, completedWord)', '					if size := version.MnemonicSize(); size > wordCount {\n						wordCount = size\n					}\n				}\n\n				words = append(words, completedWord)'))
    bug("y-readerr-partial", "C28", (W, 'return nil, fmt.Errorf("failed to read from standard input: %w", err)', 'if len(words) >= 14 {\n					return words, nil\n				}\n				return nil, fmt.Errorf("failed to read from standard input: %w", err)'))
    bug("y-backspace-empty", "C28", (W, '				if len(wordInput) > 0 {\n					wordInput = wordInput[:len(wordInput)-1]', '				if len(wordInput) > 1 {\n					wordInput = wordInput[:len(wordInput)-1]'))
    bug("y-enter-exact-only", "C28", (W, 'completedWord := wordInput + searchResult.Suffixes[0]', 'completedWord := wordInput + searchResult.Suffixes[len(searchResult.Suffixes)-1]'))
    bug("y-simple-accept-unsupported", "C28", (W, '					eprint(red(err.Error()))\n					goto next_word\n				}', '					eprint(red(err.Error()))\n					if len(wordInput) > 30 {\n						goto next_word\n					}\n					return nil, nil\n				}'))
    bug("y-simple-dup", "C28", (W, '			words = append(words, wordInput)\n			i += 1\n		} else {', '			if i == 0 || words[i-1] != wordInput {\n				words = append(words, wordInput)\n				i += 1\n			}\n		} else {'))
    bug("y-raw-dup", "C28", (W, '				words = append(words, completedWord)\n				i += 1\n', '				if i == 0 || words[i-1] != completedWord {\n					words = append(words, completedWord)\n					i += 1\n				}\n'))
    bug("y-restore-early", "C28", (W, '	defer func() {\n		// Clear any', '	restored := false\n	defer func() {\n		if restored {\n			return\n		}\n		restored = len(oldWords) > 0\n		if restored {\n			return\n		}\n		// Clear any'), (W, '	wordCount := 1\n\n	words := []string{}\n\n	eprint(bold', '	wordCount := 1\n\n	words := []string{}\n	oldWords = words\n\n	eprint(bold'), (W, '	oldState, err := term.MakeRaw', '	var oldWords []string\n	oldState, err := term.MakeRaw')) if False else None
    bug("y-restore-other-fd", "C28", (W, '		term.Restore(int(os.Stdin.Fd()), oldState)\n	}()', '		term.Restore(int(os.Stdout.Fd()), oldState)\n	}()'))
    # C29
    bug("y-help-no-h", "C29", (K, '	if len(args) == 1 && args[0] == "help" {', '	if len(args) == 1 && args[0] == "help" && cmd.AddFlags != nil && len(cmd.UsageExamples) > 5 {'))
    bug("y-justify-drop", "C29", (T, '		lines = append(lines, line)\n', '		if len(line) <= maxWidth || len(words) > 0 {\n			lines = append(lines, line)\n		}\n'))
    bug("y-justify-indent-panic", "C29", (T, '	maxWidth := (termWidth - flagSetOptionDefaultIndent) * 4 / 5\n', '	maxWidth := (termWidth - flagSetOptionDefaultIndent) * 4 / 5\n	_ = strings.Repeat("-", maxWidth)\n'))
    bug("y-help-exit1", "C29", (M, '			return ErrPrintUsageGraceful\n', '			return ErrPrintUsage\n'))
    bug("y-help-usage-lost", "C29", (K, '				fmt.Fprintf(out, "  %s\\n", line)', '				fmt.Fprintf(out, "  "+line+"\\n")'), (K, '	"errors"\n', '	"errors"\n')) if False else None
    # C30
    bug("y-recover-creation-now", "C30 C24", (R, 'mnemonikey.New(seed, decodedMnemonic.Creation(), keyOptions)', 'mnemonikey.New(seed, decodedMnemonic.Creation().UTC().Truncate(60*1e9), keyOptions)'))
    bug("y-convert-new-seed", "C30", (V, '	var recoveryMnemonic []string\n', '	if opts.EncryptPhrase && decodedMnemonic.Encrypted() {\n		seed, err = mnemonikey.GenerateSeed(rand.Reader)\n		if err != nil {\n			return err\n		}\n	}\n	var recoveryMnemonic []string\n'))
    bug("y-print-sorted", "C30", (G, '	for i, word := range words {\n		humanIndex', '	words = append([]string{}, words...)\n	if len(words) > 14 {\n		words[14], words[15] = words[15], words[14]\n	}\n	for i, word := range words {\n		humanIndex'))
    bug("y-generate-index", "C30", (G, '	outputMasterKey, subkeyTypes, err := opts.DecodeOnlyKeyTypes()', '	if opts.EncryptKeys {\n		keyOptions.EncryptionSubkeyIndex = 1\n	}\n	outputMasterKey, subkeyTypes, err := opts.DecodeOnlyKeyTypes()'))
    bug("y-phrase-pw-copy", "C30", (G, '		recoveryMnemonic, err = mnk.EncodeMnemonicEncrypted(phraseEncryptionPassword, rand.Reader)', '		if len(phraseEncryptionPassword) > 64 {\n			phraseEncryptionPassword = phraseEncryptionPassword[:64]\n		}\n		recoveryMnemonic, err = mnk.EncodeMnemonicEncrypted(phraseEncryptionPassword, rand.Reader)'))
    # C31
    bug("y-entropy-limited", "C31", (G, '			entropySource = file\n', '			entropySource = io.MultiReader(file, rand.Reader)\n'), (G, '	"io/fs"\n', '	"io"\n	"io/fs"\n'))
    bug("y-entropy-stdin-only", "C31", (G, '	if opts.UnsafeEntropy != "" {\n', '	if fi, err := os.Stdin.Stat(); opts.UnsafeEntropy == "" && err == nil && fi.Size() >= 16 {\n		entropySource = os.Stdin\n	}\n	if opts.UnsafeEntropy != "" {\n'))
    bug("y-salt-zero", "C31", (V, '			rand.Reader,\n', '			strings.NewReader(strings.Repeat("\\x00", 64)),\n'), (V, '	"crypto/rand"\n', ''), (V, '	"fmt"\n', '	"fmt"\n	"strings"\n'))
    bug("y-salt-from-seed", "C31", (V, '			rand.Reader,\n', '			bytes.NewReader(seed.Bytes()),\n'), (V, '	"crypto/rand"\n', '	"bytes"\n'))
    bug("y-entropy-env", "C31", (G, '	entropySource := rand.Reader\n', '	entropySource := rand.Reader\n	if v := os.Getenv("MNEMONIKEY_TEST"); v != "" {\n		entropySource = strings.NewReader(v)\n	}\n'))
    bug("y-warning-missing", "C31", (G, '		eprintln(\n			red(\n				bold("WARNING:") + " The', '		fmt.Sprintln(\n			red(\n				bold("WARNING:") + " The')) if False else None
