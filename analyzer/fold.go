package main

import (
	"bytes"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Constant folding: a pure library function applied to constants has the result the library
// gives. Only functions without error results whose arguments and results are strings,
// bytes, numbers, booleans or lists of strings.
var foldable = map[string]any{
	"strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune,
	"strings.Count": strings.Count, "strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"strings.EqualFold": strings.EqualFold, "strings.Fields": strings.Fields, "strings.HasPrefix": strings.HasPrefix,
	"strings.HasSuffix": strings.HasSuffix, "strings.Index": strings.Index, "strings.IndexAny": strings.IndexAny,
	"strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune, "strings.LastIndex": strings.LastIndex,
	"strings.LastIndexByte": strings.LastIndexByte, "strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace,
	"strings.ReplaceAll": strings.ReplaceAll, "strings.Split": strings.Split, "strings.SplitN": strings.SplitN,
	"strings.SplitAfter": strings.SplitAfter, "strings.Title": strings.Title, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper,
	"strings.ToTitle": strings.ToTitle, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft,
	"strings.TrimRight": strings.TrimRight, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.TrimSpace": strings.TrimSpace, "strings.Compare": strings.Compare, "strings.Clone": strings.Clone,
	"bytes.Contains": bytes.Contains, "bytes.Count": bytes.Count, "bytes.HasPrefix": bytes.HasPrefix, "bytes.HasSuffix": bytes.HasSuffix,
	"bytes.Index": bytes.Index, "bytes.IndexByte": bytes.IndexByte, "bytes.TrimSpace": bytes.TrimSpace, "bytes.ToLower": bytes.ToLower,
	"bytes.ToUpper": bytes.ToUpper, "bytes.Repeat": bytes.Repeat, "bytes.Compare": bytes.Compare,
	"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint, "strconv.Quote": strconv.Quote,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsLower": unicode.IsLower, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLetter": unicode.IsLetter,
	"unicode.IsDigit": unicode.IsDigit, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper, "unicode.IsPrint": unicode.IsPrint,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.RuneCount": utf8.RuneCount, "unicode/utf8.ValidString": utf8.ValidString,
	"unicode/utf8.Valid": utf8.Valid, "unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString,
	"unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
	"path/filepath.Base":                  filepath.Base, "path/filepath.Dir": filepath.Dir, "path/filepath.Clean": filepath.Clean, "path/filepath.Ext": filepath.Ext,
}

// fold evaluates a call whose arguments are constants.
func (e *Engine) fold(fn *ssa.Function, name string, args []Value) (out []Value, ok bool) {
	f, has := foldable[name]
	if !has {
		return nil, false
	}
	fv := reflect.ValueOf(f)
	if fv.Type().NumIn() != len(args) {
		return nil, false
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		t := fv.Type().In(i)
		switch t.Kind() {
		case reflect.String:
			r, isR := a.(*Rope)
			if !isR {
				return nil, false
			}
			s, c := ropeConstStr(r)
			if !c {
				return nil, false
			}
			in[i] = reflect.ValueOf(s)
		case reflect.Slice:
			if t.Elem().Kind() != reflect.Uint8 {
				return nil, false
			}
			switch a.(type) {
			case *NilV, *SliceV:
			default:
				return nil, false
			}
			s, c := ropeConstStr(e.bytesOf(a))
			if !c {
				return nil, false
			}
			in[i] = reflect.ValueOf([]byte(s))
		case reflect.Int, reflect.Int32, reflect.Int64, reflect.Uint8, reflect.Uint64:
			c, isC := isConst(a)
			if !isC || !c.IsInt64() {
				return nil, false
			}
			if c.Int64() > 1<<20 && (name == "strings.Repeat" || name == "bytes.Repeat") {
				return nil, false
			}
			in[i] = reflect.ValueOf(c.Int64()).Convert(t)
		default:
			return nil, false
		}
	}
	defer func() {
		if recover() != nil {
			out, ok = nil, false
		}
	}()
	for _, r := range fv.Call(in) {
		switch r.Kind() {
		case reflect.String:
			out = append(out, ropeConst(r.String()))
		case reflect.Bool:
			out = append(out, boolV(r.Bool()))
		case reflect.Int, reflect.Int32, reflect.Int64:
			out = append(out, linInt(r.Int()))
		case reflect.Slice:
			switch l := r.Interface().(type) {
			case []string:
				out = append(out, e.stringSlice(l))
			case []byte:
				out = append(out, e.newBytes(ropeConst(string(l))))
			default:
				return nil, false
			}
		default:
			return nil, false
		}
	}
	return out, true
}
