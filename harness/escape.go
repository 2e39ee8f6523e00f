package vharness

import (
	"bytes"
	"strconv"
	"unicode"
	"unicode/utf8"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HEscapeText", HEscapeText)
	add("HEscapeSplit", HEscapeSplit)
}

// escapeAll writes the chunks and a final newline, which ends any sequence.
func escapeAll(chunks ...string) string {
	var b bytes.Buffer
	w := core.NewEscapedWriter(&b)
	for _, c := range append(chunks, "\n") {
		n, err := w.Write([]byte(c))
		sym.Assert(err == nil, "writing succeeds")
		sym.Assert(n == len(c), "Write reports the whole chunk as written")
	}
	return b.String()
}

// special is the class of characters that must not appear raw.
func special(r rune) bool {
	return r > 127 && (unicode.Is(unicode.S, r) || unicode.Is(unicode.C, r) || unicode.Is(unicode.Z, r))
}

// HEscapeText: one rune (any code point or any invalid byte) between ASCII.
func HEscapeText() {
	var in string
	want := rune(0)
	if sym.Choose("valid", 2) == 1 {
		r := rune(sym.Int("rune", 0, unicode.MaxRune))
		sym.Assume(r < 0xD800 || r > 0xDFFF)
		sym.Assume(r != '&')
		in = string(r)
		want = r
	} else {
		b := sym.String("bytes", 1+sym.Choose("len", 2))
		sym.Assume(!utf8.FullRuneInString(b) || !utf8.ValidString(b))
		sym.Assume(b[0] >= 0x80)
		in = b
	}
	out := escapeAll("a" + in + "b")
	sym.Observe("out", out)
	if want == 0 {
		// decoded independently: each invalid byte becomes U+FFFD
		exp := "a"
		for i := 0; i < len(in); {
			r, n := utf8.DecodeRuneInString(in[i:])
			exp += string(r)
			i += n
		}
		sym.Assert(out == exp+"b\n", "invalid bytes become replacement characters")
		sym.Reach("invalid")
		return
	}
	if len(out) < 3 || out[0] != 'a' || out[len(out)-2:] != "b\n" {
		sym.Assert(false, "neighbouring text is unchanged")
	}
	mid := out[1 : len(out)-2]
	if want == unicode.ReplacementChar {
		sym.Assert(mid == in, "a replacement character stays one")
		return
	}
	if special(want) {
		sym.Reach("special")
		sym.Assert(len(mid) > 4 && mid[:3] == "&#x" && mid[len(mid)-1] == ';', "a special character is written as a character reference")
		v, err := strconv.ParseUint(mid[3:len(mid)-1], 16, 32)
		sym.Assert(err == nil, "the reference is a hexadecimal number")
		sym.Assert(rune(v) == want, "the reference names the character")
		return
	}
	sym.Reach("plain")
	sym.Assert(mid == in, "other characters are written as they are")
}

// HEscapeSplit: any bytes, any split.
func HEscapeSplit() {
	n := 3
	if sym.Tier() > 0 {
		n = 4
	}
	n = 1 + sym.Choose("len", n)
	s := sym.String("s", n)
	i := sym.Choose("cut", n+1)
	j := i + sym.Choose("cut2", n+1-i)
	whole := escapeAll(s)
	parts := escapeAll(s[:i], s[i:j], s[j:])
	sym.Observe("whole", whole)
	sym.Assert(parts == whole, "the output does not depend on how the text is split into writes")
	sym.Reach("split")
}
