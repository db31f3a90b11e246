package gojsonsm

// Runs the tokenizer over texts: the tokens, whether each of them is exactly the bytes at its place, what follows the end, and
// the tokens which are seen again after seeking back to them.

func init() {
	vHandlers["lex"] = func(c vJ) vJ {
		var texts []interface{}
		for _, t := range c["texts"].([]interface{}) {
			texts = append(texts, vLexOne(vBytes(t), c["seek"] != nil))
		}
		return vJ{"v": "ok", "texts": texts}
	}
}

func vLexOne(data []byte, seek bool) (res vJ) {
	toks := []vJ{}
	defer func() {
		if p := recover(); p != nil {
			res = vJ{"toks": append(toks, vJ{"t": "panic", "s": 0, "n": 0}), "exact": false, "ended": false, "again": false}
		}
	}()
	orig := string(data)
	var tkn jsonTokenizer
	tkn.Reset([]byte("[\"x"))
	tkn.Step()
	tkn.Reset(data)
	exact, ended, again := true, true, true
	var ends []int
	for len(toks) <= len(data)+2 {
		t, b, n, err := tkn.Step()
		if err != nil {
			toks = append(toks, vJ{"t": "error", "s": 0, "n": 0})
			break
		}
		if t == tknEnd {
			toks = append(toks, vJ{"t": "end", "s": 0, "n": 0})
			for k := 0; k < 3; k++ {
				t2, _, _, err2 := tkn.Step()
				if t2 != tknEnd || err2 != nil {
					ended = false
				}
			}
			break
		}
		end := tkn.Position()
		start := end - n
		if n != len(b) || start < 0 || end > len(data) || string(data[start:end]) != string(b) {
			exact = false
		}
		toks = append(toks, vJ{"t": tokenToText(t), "s": start, "n": n})
		ends = append(ends, end)
	}
	if seek {
		for k := len(ends) - 1; k >= 0; k-- {
			tkn.Seek(ends[k] - toks[k]["n"].(int))
			for j := k; j < len(ends) && j < k+3; j++ {
				t, _, n, err := tkn.Step()
				if err != nil || tokenToText(t) != toks[j]["t"] || n != toks[j]["n"] || tkn.Position() != ends[j] {
					again = false
				}
			}
		}
	}
	if string(data) != orig {
		exact = false
	}
	return vJ{"toks": toks, "exact": exact, "ended": ended, "again": again}
}
