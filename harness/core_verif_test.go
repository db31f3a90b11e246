// Conformance driver: executes the cases of a file on the real code and records what they did.
// It decides nothing, all verdicts are taken by TLC.  Only the exported API is used in this file.

package gojsonsm

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type vJ = map[string]interface{}

var vHandlers = map[string]func(vJ) vJ{}

func vStr(v interface{}) string {
	if v == nil {
		return ""
	}
	return v.(string)
}

func vBytes(v interface{}) []byte {
	b, err := base64.StdEncoding.DecodeString(v.(string))
	if err != nil {
		panic(err)
	}
	// An exact-size copy, so that reads or writes beyond the end are out of range
	out := make([]byte, len(b))
	copy(out, b)
	return out[:len(out):len(out)]
}

func vB64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func vList(v interface{}) []interface{} {
	if v == nil {
		return nil
	}
	return v.([]interface{})
}

func vRunes(v interface{}) string {
	var sb strings.Builder
	for _, c := range vList(v) {
		sb.WriteRune(rune(int(c.(float64))))
	}
	return sb.String()
}

// ---- constants and expressions ----

func vValue(v vJ) interface{} {
	switch v["t"].(string) {
	case "null":
		return nil
	case "bool":
		return v["b"].(bool)
	case "str":
		return vRunes(v["c"])
	case "bin":
		return []byte(vRunes(v["c"]))
	case "inf":
		return math.Inf(int(v["s"].(float64)))
	case "nan":
		return math.NaN()
	case "num":
		g := v["g"].(string)
		switch v["k"].(string) {
		case "i":
			i, err := strconv.ParseInt(g, 10, 64)
			if err != nil {
				panic(err)
			}
			switch vStr(v["gt"]) {
			case "int":
				return int(i)
			case "int32":
				return int32(i)
			case "int16":
				return int16(i)
			case "int8":
				return int8(i)
			}
			return i
		case "u":
			u, err := strconv.ParseUint(g, 10, 64)
			if err != nil {
				panic(err)
			}
			switch vStr(v["gt"]) {
			case "uint":
				return uint(u)
			case "uint32":
				return uint32(u)
			case "uint16":
				return uint16(u)
			case "uint8":
				return uint8(u)
			}
			return u
		case "f":
			f, err := strconv.ParseFloat(g, 64)
			if err != nil {
				panic(err)
			}
			if vStr(v["gt"]) == "float32" {
				return float32(f)
			}
			return f
		}
	}
	panic(fmt.Sprintf("driver: bad value %v", v))
}

func vExprs(v interface{}) []Expression {
	var out []Expression
	for _, x := range vList(v) {
		out = append(out, vExpr(x.(vJ)))
	}
	return out
}

func vExpr(e vJ) Expression {
	sub := func(k string) Expression { return vExpr(e[k].(vJ)) }
	switch e["o"].(string) {
	case "true":
		return TrueExpr{}
	case "false":
		return FalseExpr{}
	case "not":
		return NotExpr{sub("e")}
	case "and":
		return AndExpr(vExprs(e["e"]))
	case "or":
		return OrExpr(vExprs(e["e"]))
	case "eq":
		return EqualsExpr{sub("l"), sub("r")}
	case "ne":
		return NotEqualsExpr{sub("l"), sub("r")}
	case "lt":
		return LessThanExpr{sub("l"), sub("r")}
	case "le":
		return LessEqualsExpr{sub("l"), sub("r")}
	case "gt":
		return GreaterThanExpr{sub("l"), sub("r")}
	case "ge":
		return GreaterEqualsExpr{sub("l"), sub("r")}
	case "like":
		return LikeExpr{sub("l"), sub("r")}
	case "ex":
		return ExistsExpr{sub("l")}
	case "nex":
		return NotExistsExpr{sub("l")}
	case "any":
		return AnyInExpr{VariableID(int(e["v"].(float64))), sub("l"), sub("b")}
	case "every":
		return EveryInExpr{VariableID(int(e["v"].(float64))), sub("l"), sub("b")}
	case "anyevery":
		return AnyEveryInExpr{VariableID(int(e["v"].(float64))), sub("l"), sub("b")}
	case "f":
		var path []string
		for _, p := range vList(e["p"]) {
			path = append(path, p.(string))
		}
		return FieldExpr{VariableID(int(e["v"].(float64))), path}
	case "v":
		return ValueExpr{vValue(e["c"].(vJ))}
	case "fn":
		return FuncExpr{e["n"].(string), vExprs(e["a"])}
	case "time":
		return TimeExpr{vRunes(e["c"])}
	case "re":
		return RegexExpr{e["s"].(string)}
	}
	panic(fmt.Sprintf("driver: bad expression %v", e))
}

func vRuneList(s string) []int {
	out := []int{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

func vOutValue(x interface{}) vJ {
	switch x := x.(type) {
	case nil:
		return vJ{"t": "null"}
	case bool:
		return vJ{"t": "bool", "b": x}
	case string:
		return vJ{"t": "str", "c": vRuneList(x)}
	case []byte:
		return vJ{"t": "bin", "c": vRuneList(string(x))}
	case int, int8, int16, int32, int64:
		return vJ{"t": "num", "k": "i", "g": fmt.Sprintf("%d", x)}
	case uint, uint8, uint16, uint32, uint64:
		return vJ{"t": "num", "k": "u", "g": fmt.Sprintf("%d", x)}
	case float32:
		return vOutValue(float64(x))
	case float64:
		if math.IsNaN(x) {
			return vJ{"t": "nan"}
		} else if math.IsInf(x, 0) {
			s := 1
			if x < 0 {
				s = -1
			}
			return vJ{"t": "inf", "s": s}
		}
		return vJ{"t": "num", "k": "f", "g": strconv.FormatFloat(x, 'f', -1, 64)}
	}
	return vJ{"t": "other", "g": fmt.Sprintf("%T", x)}
}

func vOutExprs(in []Expression) []interface{} {
	out := []interface{}{}
	for _, x := range in {
		out = append(out, vOutExpr(x))
	}
	return out
}

func vOutExpr(expr Expression) vJ {
	bin := func(o string, l, r Expression) vJ { return vJ{"o": o, "l": vOutExpr(l), "r": vOutExpr(r)} }
	switch e := expr.(type) {
	case nil:
		return vJ{"o": "nil"}
	case TrueExpr:
		return vJ{"o": "true"}
	case FalseExpr:
		return vJ{"o": "false"}
	case NotExpr:
		return vJ{"o": "not", "e": vOutExpr(e.SubExpr)}
	case AndExpr:
		return vJ{"o": "and", "e": vOutExprs(e)}
	case OrExpr:
		return vJ{"o": "or", "e": vOutExprs(e)}
	case EqualsExpr:
		return bin("eq", e.Lhs, e.Rhs)
	case NotEqualsExpr:
		return bin("ne", e.Lhs, e.Rhs)
	case LessThanExpr:
		return bin("lt", e.Lhs, e.Rhs)
	case LessEqualsExpr:
		return bin("le", e.Lhs, e.Rhs)
	case GreaterThanExpr:
		return bin("gt", e.Lhs, e.Rhs)
	case GreaterEqualsExpr:
		return bin("ge", e.Lhs, e.Rhs)
	case LikeExpr:
		return bin("like", e.Lhs, e.Rhs)
	case ExistsExpr:
		return vJ{"o": "ex", "l": vOutExpr(e.SubExpr)}
	case NotExistsExpr:
		return vJ{"o": "nex", "l": vOutExpr(e.SubExpr)}
	case AnyInExpr:
		return vJ{"o": "any", "v": int(e.VarId), "l": vOutExpr(e.InExpr), "b": vOutExpr(e.SubExpr)}
	case EveryInExpr:
		return vJ{"o": "every", "v": int(e.VarId), "l": vOutExpr(e.InExpr), "b": vOutExpr(e.SubExpr)}
	case AnyEveryInExpr:
		return vJ{"o": "anyevery", "v": int(e.VarId), "l": vOutExpr(e.InExpr), "b": vOutExpr(e.SubExpr)}
	case FieldExpr:
		p := []interface{}{}
		for _, x := range e.Path {
			p = append(p, x)
		}
		return vJ{"o": "f", "v": int(e.Root), "p": p}
	case ValueExpr:
		return vJ{"o": "v", "c": vOutValue(e.Value)}
	case FuncExpr:
		return vJ{"o": "fn", "n": e.FuncName, "a": vOutExprs(e.Params)}
	case TimeExpr:
		if s, ok := e.Time.(string); ok {
			return vJ{"o": "time", "c": vRuneList(s)}
		}
	case RegexExpr:
		if s, ok := e.Regex.(string); ok {
			return vJ{"o": "re", "s": s}
		}
	case PcreExpr:
		if s, ok := e.Pcre.(string); ok {
			return vJ{"o": "pcre", "s": s}
		}
	}
	return vJ{"o": "unknown", "s": fmt.Sprintf("%T", expr)}
}

// ---- matching ----

func vVerdict(ok bool, err error) string {
	if err != nil {
		return "E"
	} else if ok {
		return "T"
	}
	return "F"
}

// One match: verdict (T, F, E: error, P: panic), status flags and the results per expression
func vMatchOne(m *FastMatcher, doc []byte, n int) (res vJ) {
	defer func() {
		if r := recover(); r != nil {
			res = vJ{"v": "P", "st": 0, "x": []string{}, "msg": fmt.Sprint(r)}
		}
	}()
	keep := string(doc)
	ok, st, err := m.MatchWithStatus(doc)
	x := []string{}
	if err == nil {
		for i := 0; i < n; i++ {
			x = append(x, vVerdict(m.ExpressionMatched(i), nil))
		}
	}
	v := vVerdict(ok, err)
	if string(doc) != keep {
		v = "M" // modified the document
	}
	return vJ{"v": v, "st": st, "x": x}
}

func vCompile(exprs []Expression) (def *MatchDef, msg string) {
	defer func() {
		if r := recover(); r != nil {
			def, msg = nil, fmt.Sprint(r)
		}
	}()
	var t Transformer
	return t.Transform(exprs), ""
}

func vMatchDocs(exprs []Expression, docs []interface{}) vJ {
	def, msg := vCompile(exprs)
	if def == nil {
		return vJ{"c": "P", "msg": msg, "r": []vJ{}}
	}
	out := []vJ{}
	for _, d := range docs {
		out = append(out, vMatchOne(NewFastMatcher(def), vBytes(d), len(exprs)))
	}
	return vJ{"c": "ok", "r": out}
}

func init() {
	vHandlers["match"] = func(c vJ) vJ {
		exprs := vExprs(c["es"])
		return vMatchDocs(exprs, vList(c["docs"]))
	}

	// A history of one matcher with Reset before each document, next to fresh matchers
	vHandlers["hist"] = func(c vJ) vJ {
		exprs := vExprs(c["es"])
		def, msg := vCompile(exprs)
		if def == nil {
			return vJ{"c": "P", "msg": msg, "r": []vJ{}}
		}
		before := def.String()
		m := NewFastMatcher(def)
		reused, fresh := []vJ{}, []vJ{}
		for i, d := range vList(c["docs"]) {
			if i > 0 {
				m.Reset()
			}
			reused = append(reused, vMatchOne(m, vBytes(d), len(exprs)))
			fresh = append(fresh, vMatchOne(NewFastMatcher(def), vBytes(d), len(exprs)))
		}
		return vJ{"c": "ok", "r": reused, "f": fresh, "same": def.String() == before}
	}

	// Matchers of one definition running concurrently, each over all documents
	vHandlers["conc"] = func(c vJ) vJ {
		// sets of expressions, each compiled once and matched by several goroutines
		var sets [][]Expression
		var defs []*MatchDef
		for _, s := range vList(c["sets"]) {
			exprs := vExprs(s)
			def, msg := vCompile(exprs)
			if def == nil {
				return vJ{"c": "P", "msg": msg, "r": []vJ{}}
			}
			sets = append(sets, exprs)
			defs = append(defs, def)
		}
		docs := vList(c["docs"])
		n := int(c["n"].(float64))
		rounds := int(c["rounds"].(float64))
		texts := vList(c["texts"])
		raw := make([][]byte, len(docs))
		for i := range docs {
			raw[i] = vBytes(docs[i])
		}
		compose := c["compose"] == true
		compact := make([]string, len(sets))
		for i := range sets {
			compact[i] = fmt.Sprintf("%#v", vTry(func() Expression { return CompactExpression(sets[i][0]) }))
		}
		// what is seen by each goroutine: the set of distinct results per set of expressions and document
		type key struct {
			set, doc int
			res      string
		}
		seen := make([]map[key]vJ, n)
		parsed := make([]map[string]bool, n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < n; g++ {
			seen[g] = map[key]vJ{}
			parsed[g] = map[string]bool{}
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				si := g % len(sets)
				def, exprs := defs[si], sets[si]
				m := NewFastMatcher(def)
				for r := 0; r < rounds; r++ {
					for i := range raw {
						d := (i + g) % len(raw)
						if r%2 == 1 {
							m = NewFastMatcher(def)
						} else {
							m.Reset()
						}
						res := vMatchOne(m, raw[d], len(exprs))
						k := key{si, d, fmt.Sprint(res)}
						if _, ok := seen[g][k]; !ok {
							seen[g][k] = res
						}
					}
					if d2, _ := vCompile(exprs); d2 == nil || d2.String() != def.String() {
						parsed[g]["compile"] = true
					}
					if fmt.Sprintf("%#v", vTry(func() Expression { return CompactExpression(exprs[0]) })) != compact[si] {
						parsed[g]["compile"] = true
					}
					for i, tx := range texts {
						p := tx.(vJ)
						o := vParse(p["k"].(string), vRunes(p["c"]))
						js, _ := json.Marshal(o)
						parsed[g][fmt.Sprintf("%d:%s", i, js)] = true
					}
					if compose {
						for i := range raw {
							dst := make([]byte, len(raw[i])+16)
							removed := map[string][]byte{}
							l, cnt, left, err := MatchAndRemoveItemsFromJsonObject(raw[i], []string{"a", "zz", "c"}, dst, removed)
							if err == nil {
								dst = dst[:l]
							} else {
								dst = nil
							}
							parsed[g][fmt.Sprintf("compose %d:%q %d %v %v %q %q", i, dst, cnt, left, err != nil, removed["a"], removed["c"])] = true
						}
					}
				}
			}(g)
		}
		close(start)
		wg.Wait()
		var all []vJ
		for si := range sets {
			var rs []vJ
			for i := range raw {
				m := map[string]vJ{}
				for g := range seen {
					for k, v := range seen[g] {
						if k.set == si && k.doc == i {
							m[k.res] = v
						}
					}
				}
				var l []vJ
				for _, v := range m {
					l = append(l, v)
				}
				rs = append(rs, vJ{"seen": l})
			}
			all = append(all, vJ{"r": rs})
		}
		ptexts := map[string]bool{}
		for g := range parsed {
			for k := range parsed[g] {
				ptexts[k] = true
			}
		}
		want := len(texts)
		if compose {
			want += len(raw)
		}
		return vJ{"c": "ok", "sets": all, "agree": len(ptexts) == want, "bad": ptexts["compile"]}
	}

	vHandlers["parse"] = func(c vJ) vJ {
		out := vParse(c["k"].(string), vRunes(c["c"]))
		if docs := vList(c["docs"]); len(docs) > 0 && out["p"].(string) == "ok" {
			var def *MatchDef
			if c["k"].(string) == "filter" {
				m, err := GetFilterExpressionMatcher(vRunes(c["c"]))
				if err != nil || m == nil {
					out["m"] = "E"
					return out
				}
				rs := []vJ{}
				for _, d := range docs {
					m.Reset()
					rs = append(rs, vMatchIface(m, vBytes(d)))
				}
				out["m"] = "ok"
				out["r"] = rs
				return out
			}
			expr := vParseExpr(c["k"].(string), vRunes(c["c"]))
			var msg string
			def, msg = vCompile([]Expression{expr})
			if def == nil {
				out["m"] = "P"
				out["msg"] = msg
				return out
			}
			rs := []vJ{}
			for _, d := range docs {
				rs = append(rs, vMatchOne(NewFastMatcher(def), vBytes(d), 0))
			}
			out["m"] = "ok"
			out["r"] = rs
		}
		return out
	}

	vHandlers["compose"] = func(c vJ) vJ {
		src := vBytes(c["src"])
		size := int(c["size"].(float64))
		mode := vStr(c["cap"])
		backing := make([]byte, size+64)
		for i := range backing {
			backing[i] = 0xAA
		}
		dst := backing[:size]
		if mode == "exact" {
			dst = backing[:size:size]
		}
		var remove []string
		for _, k := range vList(c["keys"]) {
			remove = append(remove, vRunes(k))
		}
		keep := string(src)
		keepRemove := strings.Join(remove, "\x00")
		if mode == "nil" {
			dst = nil
			size = len(src)
		}
		intact := true
		call := func() vJ {
			removed := make(map[string][]byte)
			if mode == "nomap" {
				removed = nil
			}
			n, cnt, left, err := MatchAndRemoveItemsFromJsonObject(src, remove, dst, removed)
			if string(src) != keep || strings.Join(remove, "\x00") != keepRemove {
				intact = false
			}
			for _, b := range backing[len(backing)-64:] {
				if b != 0xAA {
					intact = false
				}
			}
			if err != nil {
				return vJ{"v": "E"}
			}
			rm := []vJ{}
			for _, k := range remove {
				if v, ok := removed[k]; ok {
					rm = append(rm, vJ{"k": vRuneList(k), "v": vB64(v)})
					delete(removed, k)
				}
			}
			if n < 0 || n > size {
				return vJ{"v": "N"}
			}
			out := ""
			if dst != nil { // otherwise it is allocated by the callee, which does not return it
				out = vB64(dst[:n])
			}
			return vJ{"v": "ok", "n": n, "out": out, "cnt": cnt, "left": left, "removed": rm, "extra": len(removed)}
		}
		res := call()
		for i := range dst { // whatever the buffer held before does not matter
			dst[i] = '"'
		}
		res["again"] = fmt.Sprint(call()) == fmt.Sprint(res)
		res["intact"] = intact
		return res
	}

	vHandlers["compact"] = func(c vJ) vJ {
		exprs := vExprs(c["es"])
		before := fmt.Sprintf("%#v", exprs[0])
		ce := CompactExpression(exprs[0])
		same := fmt.Sprintf("%#v", exprs[0]) == before
		idem := fmt.Sprintf("%#v", CompactExpression(ce)) == fmt.Sprintf("%#v", ce)
		out := vMatchDocs([]Expression{ce}, vList(c["docs"]))
		out["same"] = same
		out["idem"] = idem
		out["e"] = vOutExpr(ce)
		return out
	}

	// Several scans with one counter
	vHandlers["stats"] = func(c vJ) vJ {
		exprs := vExprs(c["es"])
		before := fmt.Sprintf("%#v", exprs)
		var stats ExpressionStats
		obs := []vJ{}
		v := "ok"
		for _, e := range exprs {
			if err := stats.Scan(e); err != nil {
				v = "E"
			}
			obs = append(obs, vJ{"loops": stats.NumLoops, "nested": stats.NumNestedLoops, "depth": stats.MaxLoopDepth, "ands": stats.NumAnds,
				"ors": stats.NumOrs, "fields": stats.NumFields, "values": stats.NumValues})
		}
		return vJ{"v": v, "obs": obs, "same": fmt.Sprintf("%#v", exprs) == before}
	}

	vHandlers["slow"] = func(c vJ) vJ {
		exprs := vExprs(c["es"])
		out := vMatchDocs(exprs, vList(c["docs"]))
		slow := []vJ{}
		m := NewSlowMatcher(exprs)
		for _, d := range vList(c["docs"]) {
			slow = append(slow, vSlowOne(m, vBytes(d), len(exprs)))
		}
		out["slow"] = slow
		return out
	}

	// Several compilations with one Transformer and new ones, with matching in between
	vHandlers["compile"] = func(c vJ) vJ {
		var sets [][]Expression
		for _, s := range vList(c["sets"]) {
			sets = append(sets, vExprs(s))
		}
		docs := vList(c["docs"])
		before := fmt.Sprintf("%#v", sets)
		var shared Transformer
		type comp struct {
			def *MatchDef
			str string
			set int
		}
		run := func(def *MatchDef, n int) string {
			s := ""
			for _, d := range docs {
				r := vMatchOne(NewFastMatcher(def), vBytes(d), n)
				s += fmt.Sprint(r["v"], r["st"], r["x"], ";")
			}
			return s
		}
		var comps []comp
		fresh := []string{}
		slots := []int{}
		freshRes := []string{}
		var rs [][]vJ
		for i, s := range sets {
			var t Transformer
			d := t.Transform(s)
			fresh = append(fresh, d.String())
			slots = append(slots, d.NumSlots)
			freshRes = append(freshRes, run(d, len(s)))
			one := []vJ{}
			for _, doc := range docs {
				one = append(one, vMatchOne(NewFastMatcher(d), vBytes(doc), len(s)))
			}
			rs = append(rs, one)
			_ = i
		}
		determ := true
		for i, s := range sets {
			for k := 0; k < 3; k++ {
				var t Transformer
				if t.Transform(s).String() != fresh[i] {
					determ = false
				}
			}
		}
		for round := 0; round < 2; round++ {
			for i, s := range sets {
				d := shared.Transform(s)
				comps = append(comps, comp{d, d.String(), i})
				if d.String() != fresh[i] || d.NumSlots != slots[i] {
					determ = false
				}
				run(d, len(s))
			}
		}
		stable, agree := true, true
		for _, cp := range comps {
			if cp.def.String() != cp.str {
				stable = false
			}
			if run(cp.def, len(sets[cp.set])) != freshRes[cp.set] {
				agree = false
			}
		}
		return vJ{"determ": determ, "stable": stable, "agree": agree,
			"same": fmt.Sprintf("%#v", sets) == before, "r": rs}
	}

	vHandlers["fastcmp"] = func(c vJ) vJ {
		a, b := NewFastVal(vValue(c["a"].(vJ))), NewFastVal(vValue(c["b"].(vJ)))
		o, ok := a.Compare(b)
		o2, ok2 := b.Compare(a)
		eq, _ := a.Equals(b)
		return vJ{"o": vSign(o), "ok": ok, "o2": vSign(o2), "ok2": ok2, "eq": eq}
	}
}

func vSign(i int) int {
	if i < 0 {
		return -1
	} else if i > 0 {
		return 1
	}
	return 0
}

func vTry(fn func() Expression) (e Expression) {
	defer func() {
		if r := recover(); r != nil {
			e = nil
		}
	}()
	return fn()
}

func vSlowOne(m *SlowMatcher, doc []byte, n int) (res vJ) {
	defer func() {
		if r := recover(); r != nil {
			res = vJ{"v": "P", "st": 0, "x": []string{}, "msg": fmt.Sprint(r)}
		}
	}()
	m.Reset()
	for i := 0; i < n; i++ {
		if m.ExpressionMatched(i) {
			return vJ{"v": "R", "st": 0, "x": []string{}}
		}
	}
	ok, err := m.Match(doc)
	x := []string{}
	if err == nil {
		for i := 0; i < n; i++ {
			x = append(x, vVerdict(m.ExpressionMatched(i), nil))
		}
	}
	return vJ{"v": vVerdict(ok, err), "st": 0, "x": x}
}

func vMatchIface(m Matcher, doc []byte) (res vJ) {
	defer func() {
		if r := recover(); r != nil {
			res = vJ{"v": "P", "st": 0, "x": []string{}, "msg": fmt.Sprint(r)}
		}
	}()
	ok, st, err := m.MatchWithStatus(doc)
	return vJ{"v": vVerdict(ok, err), "st": st, "x": []string{}}
}

func vParseExpr(kind string, text string) (expr Expression) {
	var err error
	switch kind {
	case "simple":
		expr, err = ParseSimpleExpression(text)
	case "json":
		expr, err = ParseJsonExpression([]byte(text))
	}
	if err != nil {
		return nil
	}
	return expr
}

// Parsing a text: p is ok, E (error), P (panic) or 0 (neither an expression nor an error)
func vParse(kind string, text string) (res vJ) {
	defer func() {
		if r := recover(); r != nil {
			res = vJ{"p": "P", "msg": fmt.Sprint(r), "e": vJ{"o": "nil"}}
		}
	}()
	var expr Expression
	var err error
	switch kind {
	case "filter":
		_, fe, perr := NewFilterExpressionParser(text)
		err = perr
		if err == nil {
			expr, err = fe.OutputExpression()
			if err == nil {
				// asking again, after it was printed, gives the same
				_ = fe.String()
				again, aerr := fe.OutputExpression()
				if aerr != nil || fmt.Sprint(vOutExpr(again)) != fmt.Sprint(vOutExpr(expr)) {
					return vJ{"p": "D", "msg": fmt.Sprintf("output first as %v, then as %v %v", vOutExpr(expr), vOutExpr(again), aerr), "e": vJ{"o": "nil"}}
				}
			}
		}
		m, merr := GetFilterExpressionMatcher(text)
		if (merr == nil) != (err == nil) || (merr == nil) != (m != nil) {
			return vJ{"p": "D", "msg": fmt.Sprintf("matcher %v %v, parser %v", m != nil, merr, err), "e": vJ{"o": "nil"}}
		}
	case "simple":
		expr, err = ParseSimpleExpression(text)
	case "json":
		expr, err = ParseJsonExpression([]byte(text))
	}
	if err != nil {
		return vJ{"p": "E", "msg": err.Error(), "e": vJ{"o": "nil"}}
	} else if expr == nil {
		return vJ{"p": "0", "e": vJ{"o": "nil"}}
	}
	// what cannot be compiled must have been rejected
	if def, msg := vCompile([]Expression{expr}); def == nil {
		return vJ{"p": "C", "msg": msg, "e": vOutExpr(expr)}
	}
	return vJ{"p": "ok", "e": vOutExpr(expr)}
}

// ---- driver ----

func vRunOne(c vJ) (out vJ) {
	defer func() {
		if r := recover(); r != nil {
			out = vJ{"c": "P", "v": "P", "p": "P", "msg": fmt.Sprint(r), "stack": string(debug.Stack())}
		}
	}()
	h, ok := vHandlers[c["op"].(string)]
	if !ok {
		return vJ{"driver": "unknown op"}
	}
	return h(c)
}

func TestZZVerifDriver(t *testing.T) {
	in, outName := os.Getenv("VERIF_IN"), os.Getenv("VERIF_OUT")
	if in == "" {
		t.Skip("no cases")
	}
	limit := 20 * time.Second
	if s := os.Getenv("VERIF_HANG_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	debug.SetMaxStack(256 << 20)
	inf, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	defer inf.Close()
	outf, err := os.Create(outName)
	if err != nil {
		t.Fatal(err)
	}
	defer outf.Close()
	sc := bufio.NewScanner(inf)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	var cases []vJ
	for sc.Scan() {
		var c vJ
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			t.Fatal(err)
		}
		cases = append(cases, c)
	}
	if err := sc.Err(); err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriterSize(outf, 1<<20)
	flushEach := os.Getenv("VERIF_FLUSH") != ""
	var mu sync.Mutex
	write := func(o vJ) {
		b, err := json.Marshal(o)
		if err != nil {
			t.Fatal(err)
		}
		w.Write(b)
		w.WriteByte('\n')
		if flushEach {
			w.Flush()
		}
	}
	next := 0
	hangs := 0
	for next < len(cases) && hangs < 5 {
		var cur int64 = int64(next)
		var began int64 = time.Now().UnixNano()
		var abandoned int32
		done := make(chan struct{})
		go func(from int) {
			defer close(done)
			for i := from; i < len(cases); i++ {
				atomic.StoreInt64(&began, time.Now().UnixNano())
				atomic.StoreInt64(&cur, int64(i))
				o := vRunOne(cases[i])
				mu.Lock()
				if atomic.LoadInt32(&abandoned) != 0 {
					mu.Unlock()
					return
				}
				o["id"] = cases[i]["id"]
				write(o)
				mu.Unlock()
			}
		}(next)
		hung := false
		for !hung {
			select {
			case <-done:
				next = len(cases)
				hung = true
			case <-time.After(100 * time.Millisecond):
				if time.Since(time.Unix(0, atomic.LoadInt64(&began))) > limit {
					mu.Lock()
					i := int(atomic.LoadInt64(&cur))
					if time.Since(time.Unix(0, atomic.LoadInt64(&began))) > limit {
						atomic.StoreInt32(&abandoned, 1)
						write(vJ{"id": cases[i]["id"], "c": "H", "v": "H", "p": "H", "msg": "did not terminate"})
						w.Flush()
						hangs++
						next = i + 1
						hung = true
					}
					mu.Unlock()
				}
			}
		}
	}
	mu.Lock()
	w.Flush()
	mu.Unlock()
}
