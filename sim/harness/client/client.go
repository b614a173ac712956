// Package client is the part of the client which looks at what it is given.
// Unlike the rest of the harness it is watched by the race detector.
package client

import (
	"io/fs"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
)

// Look reads what a client may read of a node.
func Look(n *core.Node) int {
	k := len(n.Path) + look(n) + len(n.Children)
	for _, c := range n.Children {
		k += len(c.Name())
	}
	if p := n.Parent; p != nil {
		k += len(p.Path) + look(p)
	}
	return k
}

func look(n *core.Node) int {
	x := n.Extension
	k := x.Depth + len(x.Name) + len(x.Parent) + len(x.SubPath) + int(x.Scope)
	if x.IsLeaf {
		k++
	}
	if n.IsDirectory() {
		k++
	}
	if n.Entry != nil && n.Entry.IsDir() {
		k++
	}
	if n.Info != nil && n.Info.Mode()&fs.ModeDir != 0 {
		k++
	}
	if n.Error != nil {
		k++
	}
	return k
}

// Mark leaves a note on the node being handled, which is there for that.
func Mark(n *core.Node) { n.Extension.Custom = Look(n) }

// Count reads what a client may read of the result.
func Count(r core.TraverseResult, of ...enums.Metric) int {
	if r == nil {
		return 0
	}
	k := 0
	if s := r.Session(); s != nil {
		k += int(s.StartedAt().Unix()) + int(s.Elapsed())
		if s.IsComplete() {
			k++
		}
	}
	if m := r.Metrics(); m != nil {
		for _, x := range of {
			k += int(m.Count(x))
		}
	}
	return k
}
