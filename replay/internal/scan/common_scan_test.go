package scan

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/andybalholm/cascadia"
	"golang.org/x/net/html"
)

var errTypeReplay = errors.New("cannot be scanned")

// sCheck tells whether the type can be scanned.
func sCheckReplay(t reflect.Type, selected bool) error {
	switch t.Kind() {
	case reflect.String, reflect.Int, reflect.Uint, reflect.Float32, reflect.Float64:
		return nil
	case reflect.Slice:
		if t == reflect.TypeOf([]byte(nil)) {
			return nil
		}
		if !selected {
			return errTypeReplay
		}
		return sCheckReplay(t.Elem(), false)
	case reflect.Struct:
		n := 0
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			css := f.Tag.Get("css")
			if !f.IsExported() || css == "" || css == "-" {
				continue
			}
			sel, _, _ := strings.Cut(css, "@")
			if _, err := cascadia.Compile(sel); err != nil {
				return errTypeReplay
			}
			if err := sCheckReplay(f.Type, true); err != nil {
				return err
			}
			n++
		}
		if n == 0 {
			return errTypeReplay
		}
		return nil
	}
	return errTypeReplay
}

func sAttrReplay(n *html.Node, key string) string {
	for _, a := range n.Attr {
		if a.Key == key {
			return a.Val
		}
	}
	return ""
}

func sTextReplay(n *html.Node) (s string) {
	if n.Type == html.TextNode {
		return n.Data
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type == html.TextNode || c.Type == html.ElementNode {
			s += sTextReplay(c)
		}
	}
	return
}

// sScan scans by hand.
func sScanReplay(dst reflect.Value, n *html.Node, sel cascadia.Selector, attr string) {
	t := dst.Type()
	bytes := t == reflect.TypeOf([]byte(nil))
	if t.Kind() == reflect.Slice && !bytes {
		out := reflect.Zero(t)
		for _, m := range sel.MatchAll(n) {
			e := reflect.New(t.Elem()).Elem()
			sScanReplay(e, m, nil, attr)
			out = reflect.Append(out, e)
		}
		dst.Set(out)
		return
	}
	if sel != nil {
		n = sel.MatchFirst(n)
	}
	if t.Kind() == reflect.Struct {
		for i := 0; n != nil && i < t.NumField(); i++ {
			f := t.Field(i)
			css := f.Tag.Get("css")
			if !f.IsExported() || css == "" || css == "-" {
				continue
			}
			s, a, _ := strings.Cut(css, "@")
			sScanReplay(dst.Field(i), n, cascadia.MustCompile(s), a)
		}
		return
	}
	text := ""
	if n != nil && attr != "" {
		text = sAttrReplay(n, attr)
	} else if n != nil {
		text = sTextReplay(n)
	}
	switch t.Kind() {
	case reflect.String:
		dst.SetString(text)
	case reflect.Int:
		x, _ := strconv.ParseInt(text, 10, 64)
		dst.SetInt(x)
	case reflect.Uint:
		x, _ := strconv.ParseUint(text, 10, 64)
		dst.SetUint(x)
	case reflect.Float32, reflect.Float64:
		x, _ := strconv.ParseFloat(text, 64)
		dst.SetFloat(x)
	default:
		dst.SetBytes([]byte(text))
	}
}

type sNamedReplay string
type sIntsReplay []int
type sBytesReplay []byte
type sCellReplay struct {
	N    int    `css:"n"`
	S    string `css:"s@k"`
	Skip string
}
type sNoneReplay struct{ A string }
type sPrivReplay struct {
	a string `css:"n"`
	B string `css:"s"`
}

// sType is a random type.
func sTypeReplay(depth int) reflect.Type {
	k := vrndReplay.Intn(16)
	if depth <= 0 && k > 12 {
		k = vrndReplay.Intn(12)
	}
	switch k {
	case 0, 1:
		return reflect.TypeOf("")
	case 2:
		return reflect.TypeOf(0)
	case 3:
		return reflect.TypeOf(uint(0))
	case 4:
		return reflect.TypeOf(float32(0))
	case 5:
		return reflect.TypeOf(0.)
	case 6:
		return reflect.TypeOf([]byte(nil))
	case 7:
		return reflect.TypeOf(sCellReplay{})
	case 8:
		return reflect.TypeOf(sNamedReplay(""))
	case 9:
		return reflect.TypeOf(sPrivReplay{})
	case 10:
		return reflect.TypeOf([]sCellReplay(nil))
	case 11:
		return reflect.TypeOf([]string(nil))
	case 12:
		if vrndReplay.Intn(3) > 0 {
			return reflect.TypeOf(sIntsReplay(nil))
		}
		return vpickReplay(reflect.TypeOf(true), reflect.TypeOf(sNoneReplay{}), reflect.TypeOf(map[string]int(nil)), reflect.TypeOf(int8(0)), reflect.TypeOf(sBytesReplay(nil)), reflect.TypeOf(new(int)), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf([2]int{}), reflect.TypeOf([][]int(nil)), reflect.TypeOf(func() {}), reflect.TypeOf([]bool(nil)))
	case 13:
		return reflect.SliceOf(sTypeReplay(depth - 1))
	}
	var fs []reflect.StructField
	for i := vrndReplay.Intn(4); i >= 0; i-- {
		tag := vpickReplay("n", "s", "d", "d n", "n@k", "s@k", "d@j", "[k]@k", "n, s", "d > s", "-", "", "n@", "n@k@j", "@k", "nosuch", "nosuch@k", "d d")
		if vrndReplay.Intn(40) == 0 {
			tag = vpickReplay("[", "n[", "@", ":bad")
		}
		t := reflect.StructTag(fmt.Sprintf("css:%q", tag))
		if vrndReplay.Intn(10) == 0 {
			t = vpickReplay[reflect.StructTag](``, `json:"a"`, `json:"x" css:"n"`, `css:"n" json:"y"`)
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprint("F", i), Type: sTypeReplay(depth - 1), Tag: t})
	}
	return reflect.StructOf(fs)
}

func sDocReplay() *html.Node {
	var b strings.Builder
	var stack []string
	for i := vrndReplay.Intn(10); i > 0; i-- {
		if vrndReplay.Intn(3) == 0 && len(stack) > 0 {
			b.WriteString("</" + stack[len(stack)-1] + ">")
			stack = stack[:len(stack)-1]
			continue
		}
		tag := vpickReplay("n", "n", "s", "s", "d", "d")
		b.WriteString("<" + tag + vpickReplay("", "", ` k="v1"`, ` k=7`, ` k="" j=-2`, ` j="3.5" k=k`) + ">" + vpickReplay("", "7", "-12", "1.5", "x", " 4", "99999999999999999999", "&lt;", "0x10", "1_0", "<!-- c -->", "NaN", "1e3"))
		stack = append(stack, tag)
		if vrndReplay.Intn(3) == 0 {
			b.WriteString("</" + tag + ">")
			stack = stack[:len(stack)-1]
		}
	}
	n, err := html.Parse(strings.NewReader(b.String()))
	if err != nil {
		panic(err)
	}
	return n
}

// sFill gives the value something that scanning has to replace or keep.
func sFillReplay(x reflect.Value) {
	switch x.Kind() {
	case reflect.String:
		x.SetString("old")
	case reflect.Int:
		x.SetInt(77)
	case reflect.Uint:
		x.SetUint(78)
	case reflect.Float32, reflect.Float64:
		x.SetFloat(7.5)
	case reflect.Slice:
		x.Set(reflect.MakeSlice(x.Type(), 2, 3))
		sFillReplay(x.Index(0))
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			if x.Type().Field(i).IsExported() {
				sFillReplay(x.Field(i))
			}
		}
	}
}

// sShow prints slices without elements alike.
func sShowReplay(x reflect.Value) string {
	switch x.Kind() {
	case reflect.Slice:
		s := "["
		for i := 0; i < x.Len(); i++ {
			s += sShowReplay(x.Index(i)) + ","
		}
		return s + "]"
	case reflect.Struct:
		s := "{"
		for i := 0; i < x.NumField(); i++ {
			s += sShowReplay(x.Field(i)) + ","
		}
		return s + "}"
	case reflect.String:
		return strconv.Quote(x.String())
	}
	return fmt.Sprint(x)
}
