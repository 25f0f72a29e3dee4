// Package zzm holds the trusted models of library functions. It is overlaid
// into the module by the verifier.
package zzm

import (
	"strconv"
	"strings"

	v "github.com/yields/ant/internal/zzv"
)

// SplitSeq is the result of strings.Split.
func SplitSeq(s, sep string) v.Seq[string] {
	return v.UF[v.Seq[string]]("strings.Split", s, sep)
}

//verif:model strings.Split
func stringsSplit(s, sep string) []string {
	r := v.AnyFresh[[]string]()
	q := SplitSeq(s, sep)
	v.Assume(v.SeqOf(r).Eq(q))
	v.Assume(len(r) >= 1)
	v.Assume(v.And(JoinSeq(q, sep) == s, free(q, sep)))
	v.Assume(v.Imp(s == "", v.And(len(r) == 1, q.Eq(v.UnitSeq("")))))
	return r
}

// JoinSeq is the result of strings.Join.
func JoinSeq(q v.Seq[string], sep string) string {
	return v.UF[string]("strings.Join", q, sep)
}

// free tells that no part has the separator.
func free(q v.Seq[string], sep string) bool { return v.UF[bool]("strings.free", q, sep) }

//verif:model strings.Join
func stringsJoin(elems []string, sep string) string {
	q := v.SeqOf(elems)
	r := JoinSeq(q, sep)
	v.Assume(v.Imp(v.And(free(q, sep), v.And(q.Len() > 0, sep != "")), SplitSeq(r, sep).Eq(q)))
	v.Assume(v.Imp(q.Len() == 0, r == ""))
	v.Assume(v.Imp(q.Len() > 1, v.StrContains(r, sep)))
	return r
}

// Sorted is the sequence in increasing order.
func Sorted(q v.Seq[string]) v.Seq[string] {
	r := v.UF[v.Seq[string]]("sort.Strings", q)
	v.Assume(v.And(r.Len() == q.Len(), v.Imp(q.Len() < 2, r.Eq(q))))
	return r
}

// SortedFacts are facts about sorting q.
func SortedFacts(q v.Seq[string], sep string) {
	r := Sorted(q)
	v.Assume(v.And(Sorted(r).Eq(r), free(q, sep) == free(r, sep)))
}

//verif:model sort.Strings
func sortStrings(s []string) {
	r := Sorted(v.SeqOf(s))
	v.HavocRow(s)
	v.Assume(v.SeqOf(s).Eq(r))
}

//verif:model strings.LastIndexByte
func stringsLastIndexByte(s string, c byte) int {
	return stringsLastIndex(s, string([]byte{c}))
}

//verif:model strings.LastIndex
func stringsLastIndex(s, sep string) int {
	r := v.UF[int]("strings.LastIndex", s, sep)
	n := len(sep)
	v.Assume(v.And(r >= -1, r <= len(s)-n || r == -1))
	v.Assume(v.Imp(r == -1, !v.StrContains(s, sep)))
	v.Assume(v.Imp(v.And(r >= 0, n == 1), s[r:r+n] == sep && !v.StrContains(s[r+n:], sep)))
	return r
}

//verif:model strings.Cut
func stringsCut(s, sep string) (before, after string, found bool) {
	if i := strings.Index(s, sep); i >= 0 {
		return s[:i], s[i+len(sep):], true
	}
	return s, "", false
}

//verif:model strings.CutPrefix
func stringsCutPrefix(s, p string) (string, bool) {
	return strings.TrimPrefix(s, p), strings.HasPrefix(s, p)
}

//verif:model strings.CutSuffix
func stringsCutSuffix(s, p string) (string, bool) {
	return strings.TrimSuffix(s, p), strings.HasSuffix(s, p)
}

// AbsClean is path.Clean of "/"+s.
func AbsClean(s string) string {
	r := v.UF[string]("path.absclean", s)
	v.Assume(v.And(v.StrHasPrefix(r, "/"), v.UF[string]("path.absclean", r) == r))
	v.Assume(v.And(v.UF[string]("path.absclean", "") == "/", v.UF[string]("path.absclean", "/") == "/"))
	t := strings.TrimPrefix(s, "/")
	v.Assume(r == v.UF[string]("path.absclean", t))
	t2 := strings.TrimPrefix(t, "/")
	v.Assume(r == v.UF[string]("path.absclean", t2))
	return r
}

//verif:model path.Clean
func pathClean(s string) string {
	if strings.HasPrefix(s, "/") {
		return AbsClean(s)
	}
	return v.UF[string]("path.Clean", s)
}

//verif:model path.Join
func pathJoin(elem ...string) string {
	switch len(elem) {
	case 1:
		if elem[0] == "" {
			return ""
		}
		return pathClean(elem[0])
	case 2:
		if elem[0] == "" {
			return pathJoin(elem[1:]...)
		}
		if elem[1] == "" {
			return pathClean(elem[0])
		}
		return pathClean(elem[0] + "/" + elem[1])
	}
	return v.UF[string]("path.Join", v.SeqOf(elem))
}

//verif:model strconv.ParseInt
func parseInt(s string, base, bits int) (int64, error) {
	if !v.UF[bool]("isnum", s, base) {
		return 0, &strconv.NumError{Func: "ParseInt", Num: s, Err: strconv.ErrSyntax}
	}
	n := NumOf(s, base)
	lo, hi := Bounds(bits)
	if n < lo {
		return int64(lo), &strconv.NumError{Func: "ParseInt", Num: s, Err: strconv.ErrRange}
	}
	if n > hi {
		return int64(hi), &strconv.NumError{Func: "ParseInt", Num: s, Err: strconv.ErrRange}
	}
	return int64(n), nil
}

// Bounds are the limits of a signed integer of the given size.
func Bounds(bits int) (lo, hi int) {
	switch bits {
	case 8:
		return -1 << 7, 1<<7 - 1
	case 16:
		return -1 << 15, 1<<15 - 1
	case 32:
		return -1 << 31, 1<<31 - 1
	}
	return -1 << 63, 1<<63 - 1
}

// IsNum tells whether s is an optional sign and digits of the base.
func IsNum(s string, base int) bool { return v.UF[bool]("isnum", s, base) }

// NumOf is the mathematical value of s.
func NumOf(s string, base int) int {
	return v.BigInt("numof", s, base)
}

//verif:model (*strconv.NumError).Unwrap
func numErrorUnwrap(e *strconv.NumError) error { return e.Err }

// TrimSpace is the meaning of strings.TrimSpace.
func TrimSpace(s string) string {
	r := v.UF[string]("strings.TrimSpace", s)
	return r
}

//verif:model strings.TrimSpace
func stringsTrimSpace(s string) string { return TrimSpace(s) }

// ToLower is the meaning of strings.ToLower.
func ToLower(s string) string {
	r := v.UF[string]("strings.ToLower", s)
	v.Assume(v.UF[string]("strings.ToLower", r) == r)
	v.Assume(v.Iff(r == "", s == ""))
	return r
}

// LowerPart states that part of a lower-case string is in lower case.
func LowerPart(s, part string) {
	v.Assume(v.Imp(v.And(ToLower(s) == s, v.StrContains(s, part)), ToLower(part) == part))
}

//verif:model strings.ToLower
func stringsToLower(s string) string { return ToLower(s) }

// A strings.Builder is the string built so far.
//
//verif:opaque strings.Builder
type repBuilder struct{ s string }

//verif:model (*strings.Builder).WriteString
func builderWriteString(b *strings.Builder, s string) (int, error) {
	v.Store(b, repBuilder{v.Load[repBuilder](b).s + s})
	return len(s), nil
}

//verif:model (*strings.Builder).Write
func builderWrite(b *strings.Builder, p []byte) (int, error) {
	v.Store(b, repBuilder{v.Load[repBuilder](b).s + string(p)})
	return len(p), nil
}

//verif:model (*strings.Builder).WriteByte
func builderWriteByte(b *strings.Builder, c byte) error {
	v.Store(b, repBuilder{v.Load[repBuilder](b).s + string([]byte{c})})
	return nil
}

//verif:model (*strings.Builder).String
func builderString(b *strings.Builder) string { return v.Load[repBuilder](b).s }

// Built is the builder's string.
func Built(b *strings.Builder) string { return v.Load[repBuilder](b).s }

//verif:model (*strings.Builder).Len
func builderLen(b *strings.Builder) int { return len(v.Load[repBuilder](b).s) }

//verif:model (*strings.Builder).Reset
func builderReset(b *strings.Builder) { v.Store(b, repBuilder{}) }

//verif:model (*strings.Builder).Grow
func builderGrow(b *strings.Builder, n int) {}

//verif:model strconv.Atoi
func atoi(s string) (int, error) {
	n, err := parseInt(s, 10, 64)
	return int(n), err
}

//verif:model strings.SplitN
func stringsSplitN(s, sep string, n int) []string {
	if n == 2 && sep != "" {
		if j := v.StrIndex(s, sep, 0); j >= 0 {
			return []string{s[:j], s[j+len(sep):]}
		}
		return []string{s}
	}
	return v.AnyFresh[[]string]()
}

//verif:model strconv.Itoa
func itoa(n int) string { return v.StrFromInt(n) }
