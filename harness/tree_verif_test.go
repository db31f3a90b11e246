package gojsonsm

import "fmt"

// Replays operations on the binary operator tree: the tree is given by the kinds of its nodes in preorder.

func vTreeNodes(kinds string) ([]binTreeNode, bool) {
	types := map[byte]BinTreeNodeType{'x': nodeTypeLeaf, 'n': nodeTypeNot, 'l': nodeTypeLoop, 'a': nodeTypeAnd,
		'o': nodeTypeOr, 'e': nodeTypeNeor}
	var nodes []binTreeNode
	pos := 0
	var rec func(parent int) int
	rec = func(parent int) int {
		me := pos
		k := kinds[pos]
		pos++
		nodes = append(nodes, *NewBinTreeNode(types[k], parent, 0, 0))
		left, right := 0, 0
		if k != 'x' {
			left = rec(me)
		}
		if k == 'a' || k == 'o' || k == 'e' {
			right = rec(me)
		}
		nodes[me] = *NewBinTreeNode(types[k], parent, left, right)
		return me
	}
	rec(0)
	return nodes, pos == len(kinds)
}

func init() {
	vHandlers["tree"] = func(c vJ) (res vJ) {
		kinds := c["t"].(string)
		nodes, ok := vTreeNodes(kinds)
		if !ok {
			return vJ{"driver": "bad tree"}
		}
		tree := binTree{nodes}
		if err := tree.Validate(); err != nil {
			return vJ{"v": "E", "msg": err.Error()}
		}
		state := tree.NewState()
		var stack []int
		obs := []string{}
		defer func() {
			if p := recover(); p != nil {
				res = vJ{"v": "P", "msg": fmt.Sprint(p), "obs": obs}
			}
		}()
		look := func() string {
			out := make([]byte, len(nodes))
			for i := range out {
				out[i] = 'U'
				if state.IsResolved(i) {
					out[i] = 'N'
					if state.IsTrue(i) {
						out[i] = 'T'
					}
				} else if state.IsTrue(i) {
					out[i] = '!'
				}
			}
			return string(out)
		}
		for _, x := range c["steps"].([]interface{}) {
			s := x.([]interface{})
			i := int(s[1].(float64))
			switch s[0].(string) {
			case "mark":
				state.MarkNode(i, s[2].(string) == "T")
			case "enter":
				stack = append(stack, state.SetStallIndex(i))
			case "element":
				state.ResetNode(i)
			case "finish":
				state.ResolveNode(i)
			case "leave":
				state.ResetNode(i)
				state.SetStallIndex(stack[len(stack)-1])
				stack = stack[:len(stack)-1]
				state.MarkNode(i, s[2].(string) == "T")
			case "resolve":
				state.Resolve()
			case "reset":
				state.Reset()
				stack = nil
			default:
				return vJ{"driver": "bad step"}
			}
			obs = append(obs, look())
		}
		return vJ{"v": "ok", "obs": obs}
	}
}
