package jlib

import (
	"strconv"

	"github.com/superisaac/jlib/internal/vc"
)

func fileOpens(name string) bool     { return vc.UF[bool]("os.opens", name) }
func fileContent(name string) string { return vc.UF[string]("os.content", name) }

// plain: not decided before looking at the first character
func isInt64(s string) bool {
	_, err := strconv.ParseInt(s, 10, 64)
	return err == nil
}

func isFloat64(s string) bool {
	_, err := strconv.ParseFloat(s, 64)
	return err == nil
}

// the document behind a guess that is decoded
func guessDecodes(s string) bool {
	if s[0] == '@' {
		return fileOpens(s[1:]) && jHasDoc(fileContent(s[1:]), 0)
	}
	d := jDoc(s, 0)
	return jHasDoc(s, 0) && (jNull(d) || s[0] == '[' && jIsList(d) || s[0] == '{' && jIsObj(d) || s[0] == '"' && jIsStr(d))
}

func looksEncoded(s string) bool {
	return s[0] == '@' || s[0] == '[' || s[0] == '{' || s[0] == '"'
}

func guessable(s string) bool {
	if s == "" || s == "true" || s == "false" || s == "null" || isInt64(s) || isFloat64(s) {
		return true
	}
	return !looksEncoded(s) || guessDecodes(s)
}

// guessed: v is the value s stands for
func guessed(s string, v interface{}) bool {
	switch {
	case s == "":
		return v == ""
	case s == "true" || s == "false":
		b, ok := v.(bool)
		return ok && b == (s == "true")
	case s == "null":
		return v == nil
	case isInt64(s):
		n, ok := v.(int64)
		w, _ := strconv.ParseInt(s, 10, 64)
		return ok && n == w
	case isFloat64(s):
		f, ok := v.(float64)
		w, _ := strconv.ParseFloat(s, 64)
		return ok && vc.Same(f, w)
	case s[0] == '@':
		return v == jAny(jDoc(fileContent(s[1:]), 0))
	case s[0] == '[':
		return guessedList(jDoc(s, 0), v)
	case s[0] == '{':
		return guessedObject(jDoc(s, 0), v)
	case s[0] == '"':
		t, ok := v.(string)
		return ok && (jNull(jDoc(s, 0)) && t == "" || t == jStr(jDoc(s, 0)))
	}
	return v == s
}

func guessedList(d string, v interface{}) bool {
	l, ok := v.([]interface{})
	return ok && (jNull(d) || len(l) == jLen(d) &&
		vc.Forall(0, len(l), func(i int) bool { return l[i] == jAny(jElem(d, i)) }))
}

func guessedObject(d string, v interface{}) bool {
	m, ok := v.(map[string]interface{})
	return ok && (jNull(d) || vc.ForallStr(func(k string) bool {
		return vc.Has(m, k) == jPresent(d, k) && (!jPresent(d, k) || m[k] == jAny(jMember(d, k)))
	}))
}

//vc:ensures jlib.GuessJson name=right-value props=C05
func ensGuessJson(input string, v interface{}, err error) bool {
	if err != nil {
		return !guessable(input) && v == nil
	}
	return guessable(input) && guessed(input, v)
}

// decoded lists live in memory of their own
//
//vc:ensures jlib.GuessJson name=list-is-new props=C05
func ensGuessJsonFresh(input string, v interface{}, err error) bool {
	l, ok := v.([]interface{})
	return err != nil || !decodesList(input) || !ok || (vc.IsNil(l) || vc.Fresh(l)) && vc.Base(l) <= vc.Alloc()
}

// a list made by decoding: not a literal, not read from a file
func decodesList(s string) bool { return !isInt64(s) && !isFloat64(s) && s != "" && s[0] == '[' }

func apart(s string, v interface{}, arr []interface{}) bool {
	l, ok := v.([]interface{})
	return !decodesList(s) || !ok || (vc.IsNil(l) || vc.Base(l) != vc.Base(arr)) && vc.Base(l) <= vc.Alloc()
}

//vc:ensures jlib.GuessJsonArray name=element-wise props=C05
func ensGuessJsonArray(inputArr []string, r []interface{}, err error) bool {
	if err != nil {
		return vc.Exists(0, len(inputArr), func(i int) bool {
			return !guessable(inputArr[i]) && len(r) == i && vc.Forall(0, i, func(j int) bool { return guessable(inputArr[j]) })
		})
	}
	return len(r) == len(inputArr) && vc.Forall(0, len(r), func(i int) bool { return guessable(inputArr[i]) && guessed(inputArr[i], r[i]) })
}

//vc:invariant jlib.GuessJsonArray name=inv-able props=C05
func invGuessJsonArray(k int, inputArr []string, arr []interface{}) bool {
	return len(arr) == k && vc.Forall(0, k, func(i int) bool { return guessable(inputArr[i]) })
}

//vc:invariant jlib.GuessJsonArray name=inv-guessed props=C05
func invGuessJsonArray2(k int, inputArr []string, arr []interface{}) bool {
	return len(arr) == k && vc.Forall(0, k, func(i int) bool { return guessed(inputArr[i], arr[i]) })
}

//vc:invariant jlib.GuessJsonArray name=inv-apart props=C05
func invGuessJsonArray3(k int, inputArr []string, arr []interface{}) bool {
	return len(arr) == k && vc.Forall(0, k, func(i int) bool { return apart(inputArr[i], arr[i], arr) })
}
