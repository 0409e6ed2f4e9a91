package zzenv

import "strings"

// Strange are texts that code could be tempted to tidy, cut or interpret:
// blanks around them, letters of both cases, several lines, quotes, format
// verbs, markup, bytes that are not UTF-8, and long ones that differ only at
// their ends.
var Strange = []string{
	" x", "x ", "\tx\n", "x\r\ny", " ", "xX", "X  x", "\x00x", "x\x00", "\"x\"", "'x'", "%s%d", "<x>&amp;", "$x", "a:b:c", "a,b;c", "a/b", "..", "0", "-1", "null",
	"\xff", "x\xffy", "e\u0301", "\u00e9", "\ufeffx", "\u202ex", strings.Repeat("x", 65), strings.Repeat("x", 300) + "a", strings.Repeat("x", 300) + "b", strings.Repeat("\u00e9 ", 700),
}

// Valid tells whether a name can be an object's.
func Valid(n string) bool {
	return n != "" && n != "." && n != ".." && strings.Index(n, "/") < 0
}

// Names are the strange texts that can be an object's name.
var Names = valid(Strange)

func valid(in []string) []string {
	var out []string
	for _, n := range in {
		if Valid(n) {
			out = append(out, n)
		}
	}
	return out
}

// Alike are texts that a careless comparison would take for s.
func Alike(s string) []string {
	var out []string
	for _, x := range []string{strings.ToUpper(s), strings.ToLower(s), strings.TrimSpace(s), strings.TrimRight(s, "\x00"), s + " ", "\n" + s, s[:len(s)-1], s + "x", s[:len(s)-1] + "?",
		strings.Join(strings.Fields(s), " "), strings.ToValidUTF8(s, "\ufffd"), strings.ToValidUTF8(s, "_"), strings.Trim(s, "\"'"), strings.Replace(s, "e\u0301", "\u00e9", -1), strings.TrimLeft(s, "\ufeff\u202e"), s + "\x00", "+" + s} {
		dup := x == s || x == ""
		for _, o := range out {
			dup = dup || x == o
		}
		if !dup {
			out = append(out, x)
		}
	}
	return out
}
